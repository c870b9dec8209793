// Key and value families, comparators, oracles' exact-equality helpers.
#pragma once
#include <array>
#include <cmath>
#include <compare>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>

#include "vh.hpp"

namespace vh {

// ---------------------------------------------------------------- keys
// Keys<K>::make(i, U, rng): key number i of a universe of U keys, increasing in
// i under operator< (for CI strings: under case-insensitive order).  Different
// calls with one i may return distinct but equivalent keys where the type has
// such keys.  The universe always contains the extreme values of the type.
template <class K, class = void>
struct Keys;

template <class K>
struct Keys<K, std::enable_if_t<std::is_integral_v<K>>> {
  static constexpr uint32_t max_universe =
      sizeof(K) == 1 ? 256 : sizeof(K) == 2 ? 65536 : 1u << 30;
  static K make(uint32_t i, uint32_t U, Rng&) {
    using L = std::numeric_limits<K>;
    if (i + 1 >= U) return L::max();
    // keys are spread over the whole range: keep high and low bytes busy
    using UK = std::make_unsigned_t<K>;
    UK span = static_cast<UK>(static_cast<UK>(L::max()) - static_cast<UK>(L::min()));
    UK stride = static_cast<UK>(span / (U > 1 ? U - 1 : 1));
    if (stride == 0) stride = 1;
    return static_cast<K>(static_cast<UK>(L::min()) + static_cast<UK>(static_cast<UK>(i) * stride));
  }
  static std::string str(const K& k) { return std::to_string(k); }
};
template <class K>
struct Keys<K, std::enable_if_t<std::is_floating_point_v<K>>> {
  static constexpr uint32_t max_universe = 1u << 20;
  static K make(uint32_t i, uint32_t U, Rng& r) {
    using L = std::numeric_limits<K>;
    if (i == 0) return -L::infinity();
    if (i + 1 >= U) return L::infinity();
    if (i == 1) return L::lowest();
    if (i + 2 >= U) return L::max();
    int64_t c = static_cast<int64_t>(i) - static_cast<int64_t>(U / 2);
    if (c == 0) return r.chance(1, 2) ? K(0) : -K(0);
    if (c == 1) return L::denorm_min();
    if (c == -1) return -L::denorm_min();
    return static_cast<K>(c) * K(0.375);
  }
  static std::string str(const K& k) { return std::to_string(k); }
};
template <>
struct Keys<std::string> {
  static constexpr uint32_t max_universe = 1u << 24;
  static std::string make(uint32_t i, uint32_t, Rng&) {
    char b[64];
    // alternate short (SSO) and long (heap) keys with common prefixes
    snprintf(b, sizeof b, "%06u", i);
    std::string s(b);
    if (i % 3 == 1) s += "-a-rather-long-key-suffix-so-that-it-lives-on-the-heap";
    if (i % 7 == 0) s += std::string(1, '\0') + "x";
    if (i == 0) return std::string();
    return s;
  }
  static std::string str(const std::string& k) { return k; }
};

// Key with a payload that the comparator does not look at.
struct PKey {
  int64_t id;
  uint32_t payload;
  char pad[20];
  PKey() : id(0), payload(0), pad{} {}
  PKey(int64_t i, uint32_t p) : id(i), payload(p), pad{} {}
};
struct PKeyLess {
  bool operator()(const PKey& a, const PKey& b) const { return a.id < b.id; }
};
template <>
struct Keys<PKey> {
  static constexpr uint32_t max_universe = 1u << 24;
  static PKey make(uint32_t i, uint32_t, Rng& r) {
    return PKey(static_cast<int64_t>(i) * 3 - 1000, static_cast<uint32_t>(r.next()));
  }
  static std::string str(const PKey& k) {
    return std::to_string(k.id) + "/" + std::to_string(k.payload);
  }
};

// Case-insensitive string key.
struct CIString {
  std::string s;
};
struct CILess {
  static int lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : static_cast<unsigned char>(c); }
  bool operator()(const CIString& a, const CIString& b) const {
    size_t n = a.s.size() < b.s.size() ? a.s.size() : b.s.size();
    for (size_t i = 0; i < n; ++i) {
      int x = lower(a.s[i]), y = lower(b.s[i]);
      if (x != y) return x < y;
    }
    return a.s.size() < b.s.size();
  }
};
template <>
struct Keys<CIString> {
  static constexpr uint32_t max_universe = 26 * 26 * 26 * 26;
  static CIString make(uint32_t i, uint32_t, Rng& r) {
    std::string s(4, 'a');
    for (int k = 3; k >= 0; --k) {
      s[static_cast<size_t>(k)] = static_cast<char>('a' + i % 26);
      i /= 26;
    }
    for (auto& c : s)
      if (r.chance(1, 2)) c = static_cast<char>(c - 32);
    return CIString{s};
  }
  static std::string str(const CIString& k) { return k.s; }
};
inline bool operator==(const CIString&, const CIString&) = delete;

// Key ordered by <=> with ==, 24 bytes.
struct OKey {
  uint64_t a{0}, b{0}, c{0};
  auto operator<=>(const OKey&) const = default;
};
template <>
struct Keys<OKey> {
  static constexpr uint32_t max_universe = 1u << 24;
  static OKey make(uint32_t i, uint32_t, Rng&) {
    return OKey{i / 1000, (i / 10) % 100, i % 10};
  }
  static std::string str(const OKey& k) {
    return std::to_string(k.a) + "." + std::to_string(k.b) + "." + std::to_string(k.c);
  }
};

// ---------------------------------------------------------------- values
struct Big {
  std::array<uint32_t, 18> w{};
  bool operator==(const Big&) const = default;
};
// A value that knows its own address (a bytewise copy is noticed), is neither
// trivial nor nothrow-movable and only explicitly constructible.
struct Odd {
  std::string s;
  const Odd* self;
  Odd() : self(this) {}
  explicit Odd(std::string v) noexcept(false) : s(std::move(v)), self(this) {}
  Odd(const Odd& o) : s(o.get()), self(this) {}
  Odd(Odd&& o) noexcept(false) : s(std::move(o.mut())), self(this) {}
  Odd& operator=(const Odd& o) { mut() = o.get(); return *this; }
  Odd& operator=(Odd&& o) noexcept(false) { if (this != &o) mut() = std::move(o.mut()); return *this; }
  ~Odd() { check("destroyed"); self = nullptr; }
  void check(const char* what) const { VH_CHECK(self == this, "%s: a value at %p was copied bytewise or is not alive", what, (const void*)this); }
  const std::string& get() const { check("read"); return s; }
  std::string& mut() { check("written"); return s; }
  bool operator==(const Odd& o) const { return get() == o.get(); }
};
// Over-aligned and odd-sized trivial values.
struct alignas(64) Al64 {
  uint64_t w[8]{};
  bool operator==(const Al64& o) const {
    VH_CHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "a value with an alignment of 64 is at %p", (const void*)this);
    return std::memcmp(w, o.w, sizeof w) == 0;
  }
};
struct Tiny3 {
  uint8_t b[3]{};
  bool operator==(const Tiny3&) const = default;
};
template <size_t N>
struct Blob {
  unsigned char b[N]{};
  bool operator==(const Blob& o) const { return std::memcmp(b, o.b, N) == 0; }
};
// A value whose == says little about what it holds: most are equal, some not even
// to themselves.
struct Part {
  double d = 0;
  uint64_t rest = 0;
  bool operator==(const Part& o) const { return d == o.d; }
  bool operator<(const Part& o) const { return d < o.d; }
};
template <class V, class = void>
struct Vals;
template <>
struct Vals<Part> {
  static Part make(uint64_t id) {
    static const double d[] = {0.0, -0.0, 1.0, __builtin_nan("")};
    return Part{d[mix(id) % 4], id};
  }
  static std::string str(const Part& v) { return "part" + std::to_string(v.rest); }
};
template <size_t N>
struct Vals<Blob<N>> {
  static Blob<N> make(uint64_t id) {
    Blob<N> a;
    for (size_t i = 0; i + 8 <= N; i += 8) { const uint64_t x = mix(id + i); std::memcpy(a.b + i, &x, 8); }
    return a;
  }
  static std::string str(const Blob<N>& v) { return "blob" + std::to_string(v.b[0] + 256 * v.b[1]); }
};
template <>
struct Vals<Odd> {
  static Odd make(uint64_t id) { return Odd("o" + std::to_string(id) + (id % 3 ? "" : "-with-a-long-tail-that-does-not-fit-the-small-buffer")); }
  static std::string str(const Odd& v) { return v.get(); }
};
template <>
struct Vals<Al64> {
  static Al64 make(uint64_t id) { Al64 a; for (int i = 0; i < 8; ++i) a.w[i] = mix(id * 8 + static_cast<uint64_t>(i)); return a; }
  static std::string str(const Al64& v) { return "al" + std::to_string(v.w[0]); }
};
template <>
struct Vals<Tiny3> {
  static Tiny3 make(uint64_t id) { return Tiny3{{static_cast<uint8_t>(id), static_cast<uint8_t>(id >> 8), static_cast<uint8_t>(id >> 16)}}; }
  static std::string str(const Tiny3& v) { return "t" + std::to_string(v.b[0] + 256 * v.b[1]); }
};
template <class V>
struct Vals<V, std::enable_if_t<std::is_integral_v<V>>> {
  static V make(uint64_t id) { return static_cast<V>(id); }
  static std::string str(const V& v) { return std::to_string(v); }
};
template <>
struct Vals<std::string> {
  static std::string make(uint64_t id) {
    std::string s = "v" + std::to_string(id);
    if (id % 2) s += "-with-a-long-tail-that-does-not-fit-the-small-buffer";
    return s;
  }
  static std::string str(const std::string& v) { return v; }
};
template <>
struct Vals<Big> {
  static Big make(uint64_t id) {
    Big b;
    for (size_t i = 0; i < b.w.size(); ++i) b.w[i] = static_cast<uint32_t>(mix(id + i));
    return b;
  }
  static std::string str(const Big& v) { return "big" + std::to_string(v.w[0]); }
};

// ---------------------------------------------------------------- equality
template <class T>
bool same(const T& a, const T& b) {
  return a == b;
}
inline bool same(const Part& a, const Part& b) { return std::memcmp(&a.d, &b.d, sizeof a.d) == 0 && a.rest == b.rest; }
inline bool same(const PKey& a, const PKey& b) { return a.id == b.id && a.payload == b.payload; }
inline bool same(const CIString& a, const CIString& b) { return a.s == b.s; }

// ---------------------------------------------------------------- comparators
struct Less {
  template <class T>
  bool operator()(const T& a, const T& b) const {
    return a < b;
  }
};
// A transparent-free custom descending order.
template <class K>
struct Desc {
  bool operator()(const K& a, const K& b) const { return b < a; }
};
// Order in which several distinct keys are equivalent (integers / 4).
template <class K>
struct Coarse {
  static int64_t cls(K k) { return k >= 0 ? static_cast<int64_t>(k / 4) : -static_cast<int64_t>((-(k + 1)) / 4) - 1; }
  bool operator()(const K& a, const K& b) const { return cls(a) < cls(b); }
};
// Strings ordered without regard to case (they still have an exact ==).
struct SCI {
  bool operator()(const std::string& a, const std::string& b) const {
    const size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) {
      const int x = CILess::lower(a[i]), y = CILess::lower(b[i]);
      if (x != y) return x < y;
    }
    return a.size() < b.size();
  }
};

// Vary<Cmp>::f(k, rng): some key equivalent to k under Cmp, not always k itself.
template <class Cmp>
struct Vary {
  template <class K>
  static K f(K k, Rng&) { return k; }
};
template <class K0>
struct Vary<Coarse<K0>> {
  static K0 f(K0 k, Rng& r) {
    if (r.chance(1, 3)) return k;
    const int64_t x = Coarse<K0>::cls(k) * 4 + static_cast<int64_t>(r.below(4));
    return static_cast<K0>(x);
  }
};
template <>
struct Vary<SCI> {
  static std::string f(std::string k, Rng& r) {
    if (r.chance(1, 3)) return k;
    for (auto& c : k)
      if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && r.chance(1, 2)) c = static_cast<char>(c ^ 32);
    return k;
  }
};
// Key number i of a universe of U keys for a container ordered by Cmp.
template <class K, class Cmp>
K make_key(uint32_t i, uint32_t U, Rng& r) {
  if constexpr (std::is_same_v<Cmp, SCI>) return Vary<Cmp>::f(std::string("k") + Keys<K>::make(i, U, r), r);
  else return Vary<Cmp>::f(Keys<K>::make(i, U, r), r);
}

}  // namespace vh
