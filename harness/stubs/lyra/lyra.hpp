// Stand-in for the Lyra command line parser (not installed here): the part of
// its interface the repository's programs use.
#pragma once
#include <functional>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>

namespace lyra {
struct args {
  args(int argc, char** argv) : v(argv, argv + argc) {}
  std::vector<std::string> v;
};
struct parse_result {
  std::string msg;
  explicit operator bool() const { return msg.empty(); }
  std::string message() const { return msg; }
};
namespace detail {
template <class T>
bool convert(const std::string& s, T& out) {
  if constexpr (std::is_same_v<T, std::string>) {
    out = s;
    return true;
  } else if constexpr (std::is_same_v<T, bool>) {
    if (s == "true" || s == "1" || s == "yes" || s == "on") out = true;
    else if (s == "false" || s == "0" || s == "no" || s == "off") out = false;
    else return false;
    return true;
  } else {
    if constexpr (std::is_unsigned_v<T>)
      if (s.find('-') != std::string::npos) return false;
    std::istringstream is(s);
    is >> out;
    return !is.fail() && is.peek() == EOF;
  }
}
}  // namespace detail
// an option, flag or positional argument
struct opt {
  std::vector<std::string> names;
  std::string hint, text;
  bool takes_value = false, positional = false;
  std::function<bool(const std::string&)> set;
  opt() = default;
  template <class T>
  opt(T& ref, std::string h) : hint(std::move(h)), takes_value(true), set([&ref](const std::string& s) { return detail::convert(s, ref); }) {}
  explicit opt(bool& flag) : set([&flag](const std::string&) { flag = true; return true; }) {}
  opt& operator[](const std::string& n) { names.push_back(n); return *this; }
  opt& operator()(const std::string& t) { text = t; return *this; }
  opt& required(size_t = 1) { return *this; }
  opt& optional() { return *this; }
};
struct arg : opt {
  template <class T>
  arg(std::vector<T>& ref, std::string h) {
    hint = std::move(h);
    positional = true;
    set = [&ref](const std::string& s) { T t; if (!detail::convert(s, t)) return false; ref.push_back(t); return true; };
  }
  template <class T>
  arg(T& ref, std::string h) {
    hint = std::move(h);
    positional = true;
    set = [&ref](const std::string& s) { return detail::convert(s, ref); };
  }
};
struct help : opt {
  explicit help(bool& flag) : opt(flag) { names = {"-?", "-h", "--help"}; }
};
struct cli {
  std::vector<opt> opts;
  parse_result parse(const args& a) {
    for (size_t i = 1; i < a.v.size(); ++i) {
      std::string t = a.v[i], value;
      bool has = false;
      if (t.size() > 1 && t[0] == '-') {
        if (auto e = t.find('='); e != std::string::npos) { value = t.substr(e + 1); t = t.substr(0, e); has = true; }
        opt* o = nullptr;
        for (auto& x : opts)
          for (auto& n : x.names)
            if (n == t) o = &x;
        if (!o) return {"Unrecognized token: " + t};
        if (o->takes_value && !has) {
          if (i + 1 >= a.v.size()) return {"Expected argument following " + t};
          value = a.v[++i];
        }
        if (!o->set(value)) return {"Unable to convert '" + value + "' for " + t};
      } else {
        opt* o = nullptr;
        for (auto& x : opts)
          if (x.positional) o = &x;
        if (!o) return {"Unrecognized token: " + t};
        if (!o->set(t)) return {"Unable to convert '" + t + "'"};
      }
    }
    return {};
  }
};
inline cli operator|(cli c, const opt& o) { c.opts.push_back(o); return c; }
inline std::ostream& operator<<(std::ostream& os, const cli& c) {
  for (auto& o : c.opts) {
    for (auto& n : o.names) os << n << " ";
    os << "<" << o.hint << "> " << o.text << "\n";
  }
  return os;
}
}  // namespace lyra
