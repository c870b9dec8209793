// Search modes of dense_map against a plain linear scan, on every fill level
// and with hostile contents in the unused slots.
#include <bit>

#include "dm.hpp"
using namespace vh;

namespace {
template <class K, class = void>
struct Pat;  // orderable bit patterns of the type

template <class K>
struct Pat<K, std::enable_if_t<std::is_integral_v<K>>> {
  using UK = std::make_unsigned_t<K>;
  static constexpr bool is_float = false;
  static constexpr unsigned bits = sizeof(K) * 8;
  // order-preserving map from unsigned ordinal to key
  static K of(UK o) {
    if constexpr (std::is_signed_v<K>) return static_cast<K>(static_cast<UK>(o ^ (UK(1) << (bits - 1))));
    else return static_cast<K>(o);
  }
  static constexpr UK max_ord() { return static_cast<UK>(~UK(0)); }
  static constexpr UK min_ord() { return 0; }
  static UK mid() { return static_cast<UK>(UK(1) << (bits - 1)); }
  static std::string str(K k) { return std::to_string(k); }
};
template <class K>
struct Pat<K, std::enable_if_t<std::is_floating_point_v<K>>> {
  using UK = std::conditional_t<sizeof(K) == 4, uint32_t, uint64_t>;
  static constexpr bool is_float = true;
  static constexpr unsigned bits = sizeof(K) * 8;
  static constexpr UK sign = UK(1) << (bits - 1);
  static constexpr UK inf = std::bit_cast<UK>(std::numeric_limits<K>::infinity());
  // ordinals: sign + magnitude (positive), sign - 1 - magnitude (negative); -0 below +0
  static K of(UK o) {
    UK b = o >= sign ? static_cast<UK>(o - sign) : static_cast<UK>((sign - 1 - o) | sign);
    return std::bit_cast<K>(b);
  }
  static constexpr UK max_ord() { return sign + inf; }
  static constexpr UK min_ord() { return sign - 1 - inf; }
  static UK mid() { return sign; }
  static std::string str(K k) { char b[64]; snprintf(b, sizeof b, "%a", static_cast<double>(k)); return b; }
};

template <class K>
struct Gen {
  using P = Pat<K>;
  using UK = typename P::UK;
  static UK clamp(UK base, int64_t d) {
    // base + d without leaving [min,max]
    const UK lo = P::min_ord(), hi = P::max_ord();
    if (d < 0) { UK m = static_cast<UK>(-d); return static_cast<UK>(base - lo) < m ? lo : static_cast<UK>(base - m); }
    UK m = static_cast<UK>(d);
    return static_cast<UK>(hi - base) < m ? hi : static_cast<UK>(base + m);
  }
  static UK interesting(Rng& r) {
    const UK lo = P::min_ord(), hi = P::max_ord(), mid = P::mid();
    switch (r.below(9)) {
      case 0: return clamp(lo, static_cast<int64_t>(r.below(4)));
      case 1: return clamp(hi, -static_cast<int64_t>(r.below(4)));
      case 2: return clamp(mid, r.range(-3, 3));
      case 3: {  // around a power of two (in either half)
        unsigned b = static_cast<unsigned>(r.below(P::bits));
        UK x = static_cast<UK>(UK(1) << b);
        if (r.chance(1, 2)) x = static_cast<UK>(mid + (x & (mid - 1)));
        if (x < lo) x = lo;
        if (x > hi) x = hi;
        return clamp(x, r.range(-2, 2));
      }
      case 4: {  // halves differ: same high part, extreme low part
        UK x = static_cast<UK>(r.next());
        unsigned h = P::bits / 2;
        UK mask = static_cast<UK>((UK(1) << h) - 1);
        x = static_cast<UK>((x & ~mask) | (r.chance(1, 2) ? mask : 0));
        if (x < lo) x = lo;
        if (x > hi) x = hi;
        return x;
      }
      case 5:
        if constexpr (P::is_float) {
          // denormals and the smallest normal
          const UK mant = static_cast<UK>(UK(1) << (sizeof(K) == 4 ? 23 : 52));
          UK m = r.chance(1, 2) ? static_cast<UK>(r.below(4)) : static_cast<UK>(mant - 2 + r.below(4));
          return r.chance(1, 2) ? static_cast<UK>(mid + m) : static_cast<UK>(mid - 1 - m);
        }
        [[fallthrough]];
      default: {
        UK span = static_cast<UK>(hi - lo);
        UK x = static_cast<UK>(r.next());
        if (span != static_cast<UK>(~UK(0))) x = static_cast<UK>(x % (span + 1));
        return static_cast<UK>(lo + x);
      }
    }
  }
};

// sorted unique keys in comparator order, and probes
template <class K, class Cmp>
std::vector<K> make_keys(Rng& r, size_t n) {
  using G = Gen<K>;
  using P = Pat<K>;
  using UK = typename P::UK;
  std::set<K, Cmp> s;
  switch (r.below(4)) {
    case 0: {  // a dense run
      UK b = G::interesting(r);
      int64_t st = r.range(1, 3);
      UK room = static_cast<UK>(P::max_ord() - b);
      UK need = static_cast<UK>(st * static_cast<int64_t>(n));
      if (room < need) b = static_cast<UK>(P::max_ord() - need < P::min_ord() || P::max_ord() < need ? P::min_ord() : P::max_ord() - need);
      for (size_t i = 0; i < n; ++i) s.insert(P::of(G::clamp(b, static_cast<int64_t>(i) * st)));
      break;
    }
    case 1:
      for (size_t t = 0; s.size() < n && t < n * 20 + 50; ++t) s.insert(P::of(G::interesting(r)));
      break;
    case 2: {  // straddles the sign / middle
      UK b = G::clamp(P::mid(), -static_cast<int64_t>(n / 2 + r.below(3)));
      for (size_t i = 0; i < n; ++i) s.insert(P::of(G::clamp(b, static_cast<int64_t>(i))));
      break;
    }
    default:
      for (size_t t = 0; s.size() < n && t < n * 20 + 50; ++t) {
        UK lo = P::min_ord(), span = static_cast<UK>(P::max_ord() - lo), x = static_cast<UK>(r.next());
        if (span != static_cast<UK>(~UK(0))) x = static_cast<UK>(x % (span + 1));
        s.insert(P::of(static_cast<UK>(lo + x)));
      }
  }
  UK fillu = P::min_ord();
  while (s.size() < n) { s.insert(P::of(fillu)); if (fillu == P::max_ord()) break; ++fillu; }
  std::vector<K> v(s.begin(), s.end());
  if (v.size() > n) v.resize(n);
  return v;
}
template <class K, class Cmp>
std::vector<K> make_probes(Rng& r, const std::vector<K>& keys) {
  using G = Gen<K>;
  using P = Pat<K>;
  std::vector<K> p = keys;
  if constexpr (sizeof(K) == 1) {
    for (unsigned i = 0; i < 256; ++i) p.push_back(P::of(static_cast<uint8_t>(i)));
    return p;
  }
  for (K k : keys) {
    if constexpr (P::is_float) {
      p.push_back(std::nextafter(k, std::numeric_limits<K>::infinity()));
      p.push_back(std::nextafter(k, -std::numeric_limits<K>::infinity()));
    } else {
      if (k != std::numeric_limits<K>::max()) p.push_back(static_cast<K>(k + 1));
      if (k != std::numeric_limits<K>::min()) p.push_back(static_cast<K>(k - 1));
    }
  }
  for (int64_t i = -2; i <= 2; ++i) {
    p.push_back(P::of(G::clamp(P::mid(), i)));
    p.push_back(P::of(G::clamp(i < 0 ? P::max_ord() : P::min_ord(), i)));
  }
  if constexpr (P::is_float) { p.push_back(K(0)); p.push_back(-K(0)); }
  for (int i = 0; i < 12; ++i) p.push_back(P::of(G::interesting(r)));
  return p;
}
// other key types: use the shared families
template <class K>
concept Numeric = std::is_arithmetic_v<K>;

template <class K, class Cmp>
std::vector<K> other_keys(Rng& r, size_t n, uint32_t& U) {
  U = static_cast<uint32_t>(2 * n + 3 + r.below(40));
  if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
  std::set<K, Cmp> s;
  for (size_t t = 0; s.size() < n && t < n * 30 + 50; ++t) s.insert(make_key<K, Cmp>(static_cast<uint32_t>(r.below(U)), U, r));
  for (uint32_t i = 0; s.size() < n && i < U; ++i) s.insert(make_key<K, Cmp>(i, U, r));
  return std::vector<K>(s.begin(), s.end());
}

template <class D>
struct Slot {  // storage whose unused bytes the test chooses
  void* raw;
  D* d = nullptr;
  Slot() { raw = ::operator new(sizeof(D), std::align_val_t(alignof(D))); }
  void init(unsigned char pat, Rng* r) {
    if (r) for (size_t i = 0; i < sizeof(D); ++i) static_cast<unsigned char*>(raw)[i] = static_cast<unsigned char>(r->next());
    else memset(raw, pat, sizeof(D));
    asm volatile("" : : "r"(raw) : "memory");
    d = new (raw) D;
  }
  void fini() { d->~D(); d = nullptr; }
  ~Slot() { if (d) fini(); ::operator delete(raw, std::align_val_t(alignof(D))); }
};

template <class K, class Cmp, size_t N, SearchMode M>
void search(Case& c, size_t n) {
  using D = fc::dense_map<K, uint32_t, N, Cmp, M>;
  Rng& r = c.rng;
  Cmp cmp;
  uint32_t U = 0;
  std::vector<K> keys, probes;
  if constexpr (Numeric<K>) {
    keys = make_keys<K, Cmp>(r, n);
    probes = make_probes<K, Cmp>(r, keys);
  } else {
    keys = other_keys<K, Cmp>(r, n, U);
    probes = keys;
    for (int i = 0; i < 60; ++i) probes.push_back(make_key<K, Cmp>(static_cast<uint32_t>(r.below(U)), U, r));
    probes.push_back(make_key<K, Cmp>(0, U, r));
    probes.push_back(make_key<K, Cmp>(U - 1, U, r));
  }
  n = keys.size();
  Slot<D> slot;
  const unsigned how = static_cast<unsigned>(r.below(8));
  switch (how) {
    case 0: slot.init(0x00, nullptr); break;
    case 1: slot.init(0xff, nullptr); break;
    case 2: slot.init(0x7f, nullptr); break;
    case 3: slot.init(0x80, nullptr); break;
    case 4: slot.init(0x01, nullptr); break;
    default: slot.init(0, &r); break;
  }
  D& d = *slot.d;
  if (how >= 5) {
    // stale contents left by earlier entries: fill up, then empty again
    std::vector<K> old;
    if constexpr (Numeric<K>) old = make_keys<K, Cmp>(r, N);
    else old = other_keys<K, Cmp>(r, N, U);
    for (auto& k : old) if (!d.full()) d.insert(k, 7u);
    if (how == 5) d.clear();
    else if (how == 6) while (!d.empty()) d.erase(d.begin());
    else while (!d.empty()) d.erase(d.begin() + static_cast<long>(d.size() - 1));
  }
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  const unsigned ord = static_cast<unsigned>(r.below(3));
  if (ord == 1) std::reverse(order.begin(), order.end());
  if (ord == 2) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  for (size_t i : order) {
    auto [it, fresh] = d.insert(keys[i], static_cast<uint32_t>(i));
    VH_CHECK(fresh, "insertion of a new key was reported as existing (%zu of %zu entries)", d.size(), n);
  }
  VH_CHECK(d.size() == n, "size");
  const D& cd = d;
  size_t i = 0;
  for (auto it = cd.begin(); it != cd.end(); ++it, ++i)
    VH_CHECK(!cmp(it->first, keys[i]) && !cmp(keys[i], it->first) && it->second == i, "entry %zu of %zu is out of place after insertion in order %u", i, n, ord);
  for (auto& p : probes) {
    size_t lo = 0;
    while (lo < n && cmp(keys[lo], p)) ++lo;
    size_t hi = lo;
    while (hi < n && !cmp(p, keys[hi])) ++hi;
    auto desc = [&]() -> std::string {
      if constexpr (Numeric<K>) return Pat<K>::str(p);
      else return Keys<K>::str(p);
    };
    size_t got = static_cast<size_t>(cd.lower_bound(p) - cd.begin());
    VH_CHECK(got == lo, "lower_bound(%s) is %zu, a linear scan gives %zu (%zu entries, capacity %zu, unused slots %u)", desc().c_str(), got, lo, n, N, how);
    VH_CHECK(static_cast<size_t>(d.lower_bound(p) - d.begin()) == lo, "non-const lower_bound(%s)", desc().c_str());
    got = static_cast<size_t>(cd.upper_bound(p) - cd.begin());
    VH_CHECK(got == hi, "upper_bound(%s) is %zu, a linear scan gives %zu (%zu entries, capacity %zu, unused slots %u)", desc().c_str(), got, hi, n, N, how);
    VH_CHECK(static_cast<size_t>(d.upper_bound(p) - d.begin()) == hi, "non-const upper_bound(%s)", desc().c_str());
    auto f = cd.find(p);
    got = static_cast<size_t>(f - cd.begin());
    VH_CHECK(got == (lo < hi ? lo : n), "find(%s) is %zu, expected %zu (%zu entries, capacity %zu, unused slots %u)", desc().c_str(), got, lo < hi ? lo : n, n, N, how);
    VH_CHECK(static_cast<size_t>(d.find(p) - d.begin()) == got, "non-const find(%s)", desc().c_str());
    count(lo < hi ? "present_probes" : "absent_probes");
  }
  state(comb(comb(N, n), how));
  count("maps_searched");
}

template <class K, class Cmp, SearchMode M, size_t N>
void every_fill(Case& c) {
  for (size_t n = 0; n <= N; ++n) {
    step();
    note("capacity %zu fill %zu", N, n);
    search<K, Cmp, N, M>(c, n);
  }
  count("fill_levels", N + 1);
}
template <class K, class Cmp, SearchMode M, size_t... N>
void pick(Case& c, std::index_sequence<N...>) {
  (every_fill<K, Cmp, M, N>(c), ...);
}
#ifdef TSIMD
SCENARIO(SCN "_less", NQ, NQ * 25, [](Case& c) { pick<TKEY, std::less<TKEY>, SearchMode::SIMD>(c, std::index_sequence<TCAPS>{}); });
SCENARIO(SCN "_greater", NQ, NQ * 25, [](Case& c) { pick<TKEY, std::greater<TKEY>, SearchMode::SIMD>(c, std::index_sequence<TCAPS>{}); });
#else
SCENARIO(SCN "_bin", NQ, NQ * 25, [](Case& c) { pick<TKEY, TCMP, SearchMode::Binary>(c, std::index_sequence<TCAPS>{}); });
SCENARIO(SCN "_lin", NQ, NQ * 25, [](Case& c) { pick<TKEY, TCMP, SearchMode::Linear>(c, std::index_sequence<TCAPS>{}); });
#endif
}  // namespace
