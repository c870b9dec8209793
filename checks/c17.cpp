// split_at, transfer_prefix_from, transfer_suffix_from: conservation, or
// nothing happens.
#include "dm.hpp"
#include "tracked.hpp"
using namespace vh;

namespace {
template <class K, class V>
struct Entry {
  K first;
  V second;
};
template <class K>
using Ent = std::pair<K, uint64_t>;  // model entry: key and value id

template <class D>
void same_as(D& d, const std::vector<Ent<typename D::key_type>>& m, const char* when) {
  using K = typename D::key_type;
  using V = typename D::mapped_type;
  std::vector<Entry<K, V>> e;
  e.reserve(m.size());
  for (auto& x : m) e.push_back(Entry<K, V>{x.first, Vals<V>::make(x.second)});
  dm_audit(d, e, when);
  for (size_t i = 0; i < m.size(); ++i) {
    auto it = d.find(m[i].first);
    VH_CHECK(static_cast<size_t>(it - d.begin()) == i, "%s: key %zu of %zu is found at %zd", when, i, m.size(), it - d.begin());
  }
}

// random single-element history on a map and its model: it is fully usable
template <class D>
void use(Rng& r, D& d, std::vector<Ent<typename D::key_type>>& m, uint32_t U, uint64_t& vid, const char* when) {
  using K = typename D::key_type;
  using V = typename D::mapped_type;
  using C = typename D::key_compare;
  C cmp;
  const unsigned n = static_cast<unsigned>(r.below(14));
  for (unsigned o = 0; o < n; ++o) {
    const K k = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
    size_t p = 0;
    while (p < m.size() && cmp(m[p].first, k)) ++p;
    const bool had = p < m.size() && !cmp(k, m[p].first);
    const uint64_t id = vid++;
    if (r.chance(1, 2)) {
      bool threw = false, fresh = false;
      try { fresh = d.insert_or_assign(k, Vals<V>::make(id)).second; } catch (const std::runtime_error&) { threw = true; }
      const bool must = !had && m.size() == d.capacity();
      VH_CHECK(threw == must, "%s: insertion into the map threw %d, expected %d (%zu of %zu)", when, threw, must, m.size(), d.capacity());
      if (!threw) {
        VH_CHECK(fresh == !had, "%s: insertion reported %d", when, fresh);
        if (had) m[p].second = id;
        else m.insert(m.begin() + static_cast<long>(p), {k, id});
      }
    } else {
      size_t e = d.erase(k);
      VH_CHECK(e == (had ? 1u : 0u), "%s: erase returned %zu", when, e);
      if (had) m.erase(m.begin() + static_cast<long>(p));
    }
  }
  same_as(d, m, when);
  count("later_histories");
}

template <class K, class V, class Cmp, SearchMode M, size_t NA, size_t NB>
struct Pair {
  using A = fc::dense_map<K, V, NA, Cmp, M>;
  using B = fc::dense_map<K, V, NB, Cmp, M>;
  using Mod = std::vector<Ent<K>>;
  Rng& r;
  uint32_t U;
  uint64_t vid = 1;

  std::vector<K> universe() {
    std::set<K, Cmp> s;
    for (uint32_t i = 0; i < U; ++i) s.insert(Keys<K>::make(i, U, r));
    return std::vector<K>(s.begin(), s.end());
  }
  template <class D>
  void fill(D& d, Mod& m, const std::vector<K>& ks, size_t from, size_t n) {
    // leave stale entries behind first
    if (r.chance(1, 3)) {
      for (auto& k : ks) if (!d.full()) d.insert_or_assign(k, Vals<V>::make(vid++));
      if (r.chance(1, 2)) d.clear();
      else while (!d.empty()) d.erase(d.begin() + static_cast<long>(r.below(d.size())));
    }
    std::vector<size_t> o(n);
    for (size_t i = 0; i < n; ++i) o[i] = i;
    if (r.chance(1, 2)) for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    m.assign(n, {});
    for (size_t i : o) {
      m[i] = {ks[from + i], vid};
      d.insert_or_assign(ks[from + i], Vals<V>::make(vid));
      ++vid;
    }
  }
  // na entries in a split at p into b holding nb
  void split(size_t na, size_t p, size_t nb) {
    auto ks = universe();
    auto a = std::make_unique<A>();
    auto b = std::make_unique<B>();
    Mod ma, mb;
    fill(*a, ma, ks, nb, na);
    fill(*b, mb, ks, 0, nb);
    step();
    note("split_at(%zu) of %zu/%zu into %zu/%zu", p, na, NA, nb, NB);
    const bool must = nb != 0 || na - p > NB;
    bool threw = false;
    try { a->split_at(a->begin() + static_cast<long>(p), *b); } catch (const std::runtime_error&) { threw = true; }
    VH_CHECK(threw == must, "split_at threw %d, expected %d", threw, must);
    if (!threw) {
      mb.assign(ma.begin() + static_cast<long>(p), ma.end());
      ma.resize(p);
    }
    after(*a, ma, *b, mb, threw, "split_at");
    state(comb(comb(1, p), comb(na, nb)));
  }
  void prefix(size_t na, size_t nb, size_t n) {
    auto ks = universe();
    auto a = std::make_unique<A>();
    auto b = std::make_unique<B>();
    Mod ma, mb;
    fill(*a, ma, ks, 0, na);
    fill(*b, mb, ks, na, nb);
    step();
    note("transfer_prefix_from(%zu of %zu/%zu) onto %zu/%zu", n, nb, NB, na, NA);
    const bool must = n > nb || na + n > NA;
    bool threw = false;
    try { a->transfer_prefix_from(*b, n); } catch (const std::runtime_error&) { threw = true; }
    VH_CHECK(threw == must, "transfer_prefix_from threw %d, expected %d", threw, must);
    if (!threw) {
      ma.insert(ma.end(), mb.begin(), mb.begin() + static_cast<long>(n));
      mb.erase(mb.begin(), mb.begin() + static_cast<long>(n));
    }
    after(*a, ma, *b, mb, threw, "transfer_prefix_from");
    state(comb(comb(2, n), comb(na, nb)));
  }
  void suffix(size_t na, size_t nb, size_t n) {
    auto ks = universe();
    auto a = std::make_unique<A>();
    auto b = std::make_unique<B>();
    Mod ma, mb;
    fill(*a, ma, ks, nb, na);
    fill(*b, mb, ks, 0, nb);
    step();
    note("transfer_suffix_from(%zu of %zu/%zu) before %zu/%zu", n, nb, NB, na, NA);
    const bool must = n > nb || na + n > NA;
    bool threw = false;
    try { a->transfer_suffix_from(*b, n); } catch (const std::runtime_error&) { threw = true; }
    VH_CHECK(threw == must, "transfer_suffix_from threw %d, expected %d", threw, must);
    if (!threw) {
      ma.insert(ma.begin(), mb.end() - static_cast<long>(n), mb.end());
      mb.erase(mb.end() - static_cast<long>(n), mb.end());
    }
    after(*a, ma, *b, mb, threw, "transfer_suffix_from");
    state(comb(comb(3, n), comb(na, nb)));
  }
  void after(A& a, Mod& ma, B& b, Mod& mb, bool threw, const char* op) {
    count(threw ? "rejected" : "moved");
    same_as(a, ma, op);
    same_as(b, mb, op);
    if (r.chance(1, 3)) {
      use(r, a, ma, U, vid, op);
      use(r, b, mb, U, vid, op);
      same_as(a, ma, op);
    }
  }
  size_t fits(size_t x, size_t hi) { return x < hi ? x : hi; }
  void run(bool exhaustive) {
    const size_t room = U;  // universe bounds what can be stored
    if (exhaustive) {
      for (size_t na = 0; na <= NA; ++na)
        for (size_t p = 0; p <= na; ++p)
          if (na + 1 <= room) { split(na, p, 0); if (r.chance(1, 4)) split(na, p, fits(1 + r.below(NB), NB)); }
      for (size_t na = 0; na <= NA; ++na)
        for (size_t nb = 0; nb <= NB; ++nb)
          for (size_t n = 0; n <= nb + 1; ++n)
            if (na + nb <= room) { prefix(na, nb, n); suffix(na, nb, n); }
      count("exhaustive_pairs");
      return;
    }
    for (int k = 0; k < 40; ++k) {
      size_t na = edge(NA), nb = edge(NB), n = r.chance(1, 2) ? r.below(nb + 2) : edge(nb);
      if (r.chance(1, 4) && na + nb > NA) n = fits(NA - na + r.below(2), nb);
      if (r.chance(1, 40)) n = r.chance(1, 2) ? static_cast<size_t>(-1) : static_cast<size_t>(-1) - na + 1;
      switch (r.below(4)) {
        case 0: split(na, edge(na), 0); break;
        case 1: if (r.chance(1, 4)) { split(na, edge(na), nb); break; } [[fallthrough]];
        case 2: prefix(na, nb, n); break;
        default: suffix(na, nb, n); break;
      }
    }
  }
  size_t edge(size_t hi) {
    switch (r.below(6)) {
      case 0: return 0;
      case 1: return hi;
      case 2: return hi ? hi - 1 : 0;
      case 3: return fits(1, hi);
      default: return r.below(hi + 1);
    }
  }
};

template <class K, class V, class Cmp, SearchMode M, size_t NA, size_t NB>
void go(Case& c, bool exhaustive) {
  const uint64_t objs = ts().objects.size(), toks = ts().live_tokens;
  {
    uint32_t U = static_cast<uint32_t>(NA + NB + 2 + c.rng.below(10));
    if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
    Pair<K, V, Cmp, M, NA, NB>{c.rng, U}.run(exhaustive);
  }
  VH_CHECK(ts().objects.size() == objs && ts().live_tokens == toks, "values are left alive: %zu objects, %llu values", ts().objects.size() - objs,
           (unsigned long long)(ts().live_tokens - toks));
}
using K = TKEY;
using V = TVALUE;
using C = TCMP;
SCENARIO(SCN "_small", NQ, NQ * 20, [](Case& c) {
  switch (c.index % 5) {
    case 0: go<K, V, C, SearchMode::TMODE, 4, 4>(c, true); break;
    case 1: go<K, V, C, SearchMode::TMODE, 1, 3>(c, true); break;
    case 2: go<K, V, C, SearchMode::TMODE, 7, 2>(c, true); break;
    case 3: go<K, V, C, SearchMode::TMODE, 5, 9>(c, true); break;
    default: go<K, V, C, SearchMode::TMODE, 8, 8>(c, true); break;
  }
});
SCENARIO(SCN "_large", NQ * 12, NQ * 240, [](Case& c) {
  switch (c.index % 10 == 9 && Keys<K>::max_universe > 700 ? 3 : c.index % 3) {
    case 3: go<K, V, C, SearchMode::TMODE, 300, 290>(c, false); break;
    case 0: go<K, V, C, SearchMode::TMODE, 32, 32>(c, false); break;
    case 1: go<K, V, C, SearchMode::TMODE, 64, 17>(c, false); break;
    default: go<K, V, C, SearchMode::TMODE, 13, 100>(c, false); break;
  }
});
}  // namespace
