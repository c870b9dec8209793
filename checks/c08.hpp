// Type-erased trees over key indices: one history, many configurations.
#pragma once
#include "bt_engine.hpp"

namespace vh {
struct Seen {
  long idx = -1;      // key index, -1 = end()
  uint64_t val = 0;
  bool flag = false;
  bool operator==(const Seen&) const = default;
};
struct ITree {
  virtual ~ITree() = default;
  virtual Seen insert(int kind, uint32_t i, uint64_t v) = 0;
  virtual Seen erase_key(uint32_t i) = 0;
  virtual Seen erase_lb(uint32_t i) = 0;                 // erase the element at lower_bound(i)
  virtual Seen erase_range(uint32_t i, uint32_t j) = 0;  // [lower_bound(i), lower_bound(j))
  virtual Seen query(int kind, uint32_t i) = 0;          // find, lower, upper
  virtual uint64_t walk(uint32_t i, unsigned n, bool fwd) = 0;
  virtual uint64_t digest(bool fwd) = 0;
  virtual size_t size() = 0;
  virtual void whole(int kind) = 0;
};
struct Config8 {
  std::string name;
  uint32_t max_u;
  std::function<std::unique_ptr<ITree>(uint32_t U)> make;
  bool wide = false;  // leaves of more than a thousand elements
};
inline std::vector<Config8>& configs8() {
  static auto* v = new std::vector<Config8>;
  return *v;
}

template <class V>
struct V8 {
  static V make(uint64_t v) { return static_cast<V>(v); }
  static uint64_t get(const V& v) { return static_cast<uint64_t>(v); }
};
template <>
struct V8<std::string> {
  static std::string make(uint64_t v) { return std::to_string(v) + (v % 2 ? "" : "-some-longer-string-value-on-the-heap"); }
  static uint64_t get(const std::string& s) { return s.empty() ? 0 : strtoull(s.c_str(), nullptr, 10); }
};
template <>
struct V8<Big> {
  static Big make(uint64_t v) {
    Big b;
    for (auto& w : b.w) w = static_cast<uint32_t>(v);
    return b;
  }
  static uint64_t get(const Big& b) {
    for (auto w : b.w) VH_CHECK(w == b.w[0], "torn value");
    return b.w[0];
  }
};

// Map = btree or std::map
template <class Map, bool Descending>
struct Adapter : ITree {
  using K = typename Map::key_type;
  using V = typename Map::mapped_type;
  using Cmp = typename Map::key_compare;
  uint32_t U;
  std::vector<K> keys;  // increasing under Cmp
  Map m;
  explicit Adapter(uint32_t u) : U(u) {
    Rng r(1);
    for (uint32_t i = 0; i < U; ++i) keys.push_back(Keys<K>::make(Descending ? U - 1 - i : i, U, r));
    for (uint32_t i = 1; i < U; ++i)
      if (!Cmp()(keys[i - 1], keys[i])) broken("universe of %u keys is not increasing at %u", U, i);
  }
  long index_of(const K& k) {
    auto it = std::lower_bound(keys.begin(), keys.end(), k, Cmp());
    VH_CHECK(it != keys.end() && !Cmp()(k, *it), "a key that was never inserted shows up");
    return it - keys.begin();
  }
  template <class It>
  Seen see(It it, bool f) {
    if (it == m.end()) return {-1, 0, f};
    return {index_of(it->first), V8<V>::get(it->second), f};
  }
  Seen insert(int kind, uint32_t i, uint64_t v) override {
    const K& k = keys[i];
    V val = V8<V>::make(v);
    switch (kind) {
      case 0: { auto r = m.insert({k, val}); return see(r.first, r.second); }
      case 1: { auto r = m.emplace(k, val); return see(r.first, r.second); }
      case 2: { auto r = m.try_emplace(k, val); return see(r.first, r.second); }
      case 3: { auto r = m.insert_or_assign(k, val); return see(r.first, r.second); }
      case 4: { m[k] = val; return see(m.find(k), true); }
      default: { auto it = m.emplace_hint(m.lower_bound(k), k, val); return see(it, true); }
    }
  }
  Seen erase_key(uint32_t i) override {
    size_t n = m.erase(keys[i]);
    return {static_cast<long>(n), 0, false};
  }
  Seen erase_lb(uint32_t i) override {
    auto it = m.lower_bound(keys[i]);
    if (it == m.end()) return {};
    return see(m.erase(it), true);
  }
  Seen erase_range(uint32_t i, uint32_t j) override {
    if (j < i) std::swap(i, j);
    auto a = m.lower_bound(keys[i]);
    auto b = m.lower_bound(keys[j]);
    return see(m.erase(a, b), true);
  }
  Seen query(int kind, uint32_t i) override {
    switch (kind) {
      case 0: return see(m.find(keys[i]), m.contains(keys[i]));
      case 1: return see(m.lower_bound(keys[i]), m.count(keys[i]) == 1);
      default: return see(m.upper_bound(keys[i]), false);
    }
  }
  uint64_t walk(uint32_t i, unsigned n, bool fwd) override {
    uint64_t h = 1;
    auto it = m.lower_bound(keys[i]);
    while (n--) {
      if (fwd) {
        if (it == m.end()) break;
        ++it;
      } else {
        if (it == m.begin()) break;
        --it;
      }
      Seen s = see(it, false);
      h = comb(h, comb(static_cast<uint64_t>(s.idx), s.val));
    }
    return h;
  }
  uint64_t digest(bool fwd) override {
    uint64_t h = 1;
    if (fwd) {
      for (auto it = m.begin(); it != m.end(); ++it) {
        Seen s = see(it, false);
        h = comb(h, comb(static_cast<uint64_t>(s.idx), s.val));
      }
    } else {
      for (auto it = m.rbegin(); it != m.rend(); ++it)
        h = comb(h, comb(static_cast<uint64_t>(index_of(it->first)), V8<V>::get(it->second)));
    }
    return h;
  }
  size_t size() override { return m.size(); }
  void whole(int kind) override {
    switch (kind) {
      case 0: { Map c(m); m = std::move(c); break; }
      case 1: { Map c(std::move(m)); m.swap(c); break; }
      case 2: { Map c; c = m; m.clear(); m = c; break; }
      default: m.clear(); break;
    }
  }
};
template <class Map, bool D = false>
struct Reg8 {
  explicit Reg8(const char* name) {
    configs8().push_back({name, Keys<typename Map::key_type>::max_universe,
                          [](uint32_t U) -> std::unique_ptr<ITree> { return std::make_unique<Adapter<Map, D>>(U); },
                          std::string(name).find("1200/") != std::string::npos || std::string(name).find("2000/") != std::string::npos ||
                              std::string(name).find("1029/") != std::string::npos});
  }
};
}  // namespace vh
