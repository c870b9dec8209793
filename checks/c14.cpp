// Default node sizes against the documented formula; trees with default sizes.
#include "bt_engine.hpp"
using namespace vh;

namespace {
template <size_t N>
struct Sized {
  unsigned char b[N];
  static constexpr size_t sig = N < 4 ? N : 4;
  static Sized of(uint32_t i) {
    Sized s{};
    for (size_t k = 0; k < sig; ++k) s.b[k] = static_cast<unsigned char>(i >> (8 * (sig - 1 - k)));
    for (size_t k = sig; k < N; ++k) s.b[k] = static_cast<unsigned char>(i * 31 + k);
    return s;
  }
  bool operator<(const Sized& o) const { return memcmp(b, o.b, N) < 0; }
  bool operator==(const Sized& o) const { return memcmp(b, o.b, N) == 0; }
};

// Nearest multiple of 8 to target/entry, halves up, clamped; in rationals.
size_t oracle(size_t target, size_t entry, size_t lo, size_t hi) {
  // smallest multiple m of 8 with target/entry < m + 4, i.e. target < (m+4)*entry
  size_t m = 0;
  while (target >= (m + 4) * entry) m += 8;
  return m < lo ? lo : m > hi ? hi : m;
}

template <size_t KS, size_t VS>
void one_pair() {
  constexpr size_t l = fc::default_leaf_node_size<Sized<KS>, Sized<VS>>();
  const size_t want = oracle(2048, KS + VS, 8, 64);
  VH_CHECK(l == want, "default leaf size for a %zu-byte key and a %zu-byte value is %zu, the documented formula gives %zu", KS, VS, l, want);
  count("leaf_sizes_checked");
  state(comb(KS, VS));
}
template <size_t KS>
void one_key() {
  constexpr size_t n = fc::default_internal_node_size<Sized<KS>>();
  const size_t want = oracle(1024, KS + sizeof(void*), 16, 64);
  VH_CHECK(n == want, "default internal size for a %zu-byte key is %zu, the documented formula gives %zu", KS, n, want);
  count("internal_sizes_checked");
}
template <size_t KS, size_t... V>
void row(std::index_sequence<V...>) {
  (one_pair<KS, V + 1>(), ...);
}
template <size_t... K>
void keys(std::index_sequence<K...>) {
  (one_key<K + 1>(), ...);
}

#ifndef PART
#define PART 0
#endif
#if PART == 0
SCENARIO("sizes_keys", 1, 1, [](Case&) {
  keys(std::make_index_sequence<160>());
  one_key<200>(); one_key<256>(); one_key<1000>(); one_key<1024>(); one_key<1017>(); one_key<4096>();
});
SCENARIO("sizes_a", 1, 1, [](Case&) {
  row<1>(std::make_index_sequence<200>());
  row<2>(std::make_index_sequence<100>());
  row<4>(std::make_index_sequence<200>());
});
#endif
#if PART == 1
SCENARIO("sizes_b", 1, 1, [](Case&) {
  row<8>(std::make_index_sequence<300>());
  row<16>(std::make_index_sequence<200>());
  row<24>(std::make_index_sequence<60>());
  row<100>(std::make_index_sequence<40>());
  one_pair<8, 504>(); one_pair<8, 505>(); one_pair<1, 2047>(); one_pair<1, 2048>(); one_pair<8, 4096>(); one_pair<64, 10000>();
  one_pair<171, 1>(); one_pair<170, 1>(); one_pair<169, 1>(); one_pair<500, 12>();
});
#endif

// The defaults are really what btree<K, V> uses.
template <class K, class V>
void defaults() {
  constexpr size_t l = fc::default_leaf_node_size<K, V>(), n = fc::default_internal_node_size<K>();
  VH_CHECK(l == oracle(2048, sizeof(K) + sizeof(V), 8, 64), "default leaf size of btree<%zu bytes, %zu bytes> is %zu", sizeof(K), sizeof(V), l);
  VH_CHECK(n == oracle(1024, sizeof(K) + 8, 16, 64), "default internal size of btree<%zu bytes, ...> is %zu", sizeof(K), n);
  constexpr bool is = std::is_same_v<fc::btree<K, V>, fc::btree<K, V, l, n>>;
  VH_CHECK(is, "btree<K, V> does not use the default node sizes (%zu-byte keys, %zu-byte values)", sizeof(K), sizeof(V));
  count("default_types_checked");
}
#if PART == 1
SCENARIO("types", 1, 1, [](Case&) {
  defaults<int64_t, int64_t>(); defaults<int32_t, int32_t>(); defaults<uint8_t, uint8_t>(); defaults<int16_t, char>();
  defaults<double, std::string>(); defaults<std::string, std::string>(); defaults<std::string, uint8_t>(); defaults<float, Big>();
  defaults<int64_t, Sized<256>>(); defaults<int64_t, Sized<32>>(); defaults<int64_t, Sized<1024>>(); defaults<OKey, Sized<5000>>();
  defaults<Sized<3>, Sized<5>>(); defaults<Sized<33>, Sized<1>>(); defaults<Sized<120>, Sized<1>>(); defaults<Sized<1>, Sized<3000>>();
});
#endif

// Trees with default sizes: observed node capacity and correct contents.
template <class K, class V, SearchMode M = SearchMode::Linear>
void tree(Case& c, uint32_t U, K (*mk)(uint32_t), V (*mv)(uint64_t)) {
  Rng& r = c.rng;
  using A = MonAlloc<std::pair<K, V>>;
  constexpr size_t L = fc::default_leaf_node_size<K, V>(), I = fc::default_internal_node_size<K>();
  using T = fc::btree<K, V, L, I, std::less<K>, M, A>;
  const size_t wl = oracle(2048, sizeof(K) + sizeof(V), 8, 64), wi = oracle(1024, sizeof(K) + 8, 16, 64);
  Ledger led;
  {
    T t{A(led)};
    std::map<K, V> m;
    note("default tree %zu+%zu bytes, nodes %zu/%zu", sizeof(K), sizeof(V), wl, wi);
    bool leaf_seen = false, inner_seen = false;
    size_t leaves = 0;
    for (uint32_t i = 0; i < U; ++i) {
      step();
      const size_t before = led.live.size();
      std::map<size_t, uint64_t> types = led.live_by_type;
      t.insert(mk(i), mv(i));
      m.emplace(mk(i), mv(i));
      if (!leaf_seen && led.live.size() > (before ? before : 1)) {
        leaf_seen = true;
        VH_CHECK(before <= 1, "the first split happened with %zu nodes", before);
        VH_CHECK(m.size() - 1 == wl, "the first leaf of a default tree (%zu+%zu bytes) held %zu elements, the documented size is %zu", sizeof(K), sizeof(V), m.size() - 1, wl);
        count("leaf_capacities_observed");
      } else if (leaf_seen && !inner_seen && led.live.size() >= before + 3) {
        // leaf split + internal split + new root: the internal node was full
        inner_seen = true;
        uint64_t mx = 0;
        for (auto& [ty, n] : types) mx = std::max(mx, n);
        VH_CHECK(mx == wi, "the first internal node of a default tree (%zu-byte keys) held %llu children when it was split, the documented size is %zu", sizeof(K), (unsigned long long)mx, wi);
        count("internal_capacities_observed");
      }
      (void)leaves;
    }
    // random churn against the model
    for (int k = 0; k < 1200; ++k) {
      step();
      uint32_t i = static_cast<uint32_t>(r.below(U));
      K key = mk(i);
      switch (r.below(4)) {
        case 0: { V v = mv(r.next() >> 30); t.insert_or_assign(key, v); auto e = m.find(key); if (e == m.end()) m.emplace(key, v); else e->second = v; break; }
        case 1: case 2: { size_t a = t.erase(key), b = m.erase(key); VH_CHECK(a == b, "erase returned %zu expected %zu", a, b); break; }
        default: { auto it = t.find(key); auto e = m.find(key); VH_CHECK((it != t.end()) == (e != m.end()), "find"); if (e != m.end()) VH_CHECK(it->second == e->second, "wrong value"); break; }
      }
      if (k % 100 == 0) {
        VH_CHECK(t.size() == m.size(), "size %zu expected %zu", (size_t)t.size(), m.size());
        auto it = t.begin();
        for (auto& [kk, vv] : m) { VH_CHECK(it != t.end() && it->first == kk && it->second == vv, "contents differ"); ++it; }
        VH_CHECK(it == t.end(), "extra elements");
        count("default_tree_audits");
      }
    }
  }
  led.expect_empty("end");
}
template <size_t N> Sized<N> mkS(uint32_t i) { return Sized<N>::of(i); }
template <size_t N> Sized<N> mvS(uint64_t i) { Sized<N> s{}; for (size_t k = 0; k < N; ++k) s.b[k] = static_cast<unsigned char>(i * 13 + k * 7); return s; }
template <class T> T mkI(uint32_t i) { return static_cast<T>(i); }
std::string mkStr(uint32_t i) { char b[64]; snprintf(b, sizeof b, "key-%09u-with-some-length", i); return b; }
std::string mvStr(uint64_t i) { return Vals<std::string>::make(i); }
int64_t mvI(uint64_t i) { return static_cast<int64_t>(i * 3); }

#if PART >= 2
template <int P>
void pick(Case& c) {
  if constexpr (P == 2) switch (c.index % 4) {
    case 0: tree<int64_t, int64_t>(c, 6000, mkI<int64_t>, mvI); break;
    case 1: tree<int64_t, Sized<256>>(c, 3000, mkI<int64_t>, mvS<256>); break;
    case 2: tree<Sized<200>, Sized<200>>(c, 1500, mkS<200>, mvS<200>); break;
    default: tree<Sized<2>, Sized<60>>(c, 6000, mkS<2>, mvS<60>); break;
  }
  if constexpr (P == 3) switch (c.index % 4) {
    case 0: tree<int32_t, Sized<4>>(c, 6000, mkI<int32_t>, mvS<4>); break;
    case 1: tree<int64_t, Sized<1024>>(c, 1500, mkI<int64_t>, mvS<1024>); break;
    case 2: tree<Sized<3>, Sized<5>>(c, 6000, mkS<3>, mvS<5>); break;
    default: tree<uint32_t, int64_t, SearchMode::Binary>(c, 6000, mkI<uint32_t>, mvI); break;
  }
  if constexpr (P == 4) switch (c.index % 4) {
    case 0: tree<uint8_t, Sized<1>>(c, 256, mkI<uint8_t>, mvS<1>); break;
    case 1: tree<int64_t, Sized<5000>>(c, 800, mkI<int64_t>, mvS<5000>); break;
    case 2: tree<Sized<1000>, Sized<1>>(c, 800, mkS<1000>, mvS<1>); break;
    default: tree<Sized<56>, Sized<8>>(c, 5000, mkS<56>, mvS<8>); break;
  }
  if constexpr (P == 5) switch (c.index % 4) {
    case 0: tree<int16_t, Sized<30>>(c, 6000, mkI<int16_t>, mvS<30>); break;
    case 1: tree<std::string, std::string>(c, 3000, mkStr, mvStr); break;
    case 2: tree<double, Sized<80>, SearchMode::Binary>(c, 4000, mkI<double>, mvS<80>); break;
    default: tree<Sized<12>, Sized<90>>(c, 4000, mkS<12>, mvS<90>); break;
  }
  if constexpr (P == 6) switch (c.index % 4) {
    case 0: tree<int64_t, Sized<32>>(c, 6000, mkI<int64_t>, mvS<32>); break;
    case 1: tree<Sized<100>, Sized<1>>(c, 2000, mkS<100>, mvS<1>); break;
    case 2: tree<Sized<24>, Sized<24>>(c, 5000, mkS<24>, mvS<24>); break;
    default: tree<Sized<40>, Sized<500>>(c, 3000, mkS<40>, mvS<500>); break;
  }
}
SCENARIO(SCN, 4, 80, [](Case& c) { pick<PART>(c); });
#endif
}  // namespace
