// dense_map against std::map limited to the capacity.
#include "dm.hpp"
using namespace vh;

namespace {
template <class V>
V clone(const V& v) { return v; }
[[maybe_unused]] MoveOnly clone(const MoveOnly& v) { return v.p ? MoveOnly(*v.p) : MoveOnly(); }

template <class K, class V, size_t N, class Cmp, SearchMode M>
void history(Case& c) {
  constexpr bool copyable = std::is_copy_constructible_v<V>;
  using D = fc::dense_map<K, V, N, Cmp, M>;
  using Model = std::map<K, V, Cmp>;
  Rng& r = c.rng;
  uint32_t U = static_cast<uint32_t>(N + r.below(3 * N + 4) + 1);
  if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
  auto d = std::make_unique<D>();
  Model m;
  std::unique_ptr<D> d2;
  Model m2;
  uint64_t vid = 1;
  unsigned grow = 60;
  auto find_index = [&](const K& k) { return static_cast<size_t>(std::distance(m.begin(), m.lower_bound(k))); };
  // an iterator the map returned designates the model's element `e`
  auto designates = [&](typename D::iterator it, typename Model::iterator e, const char* what) {
    const size_t want = static_cast<size_t>(std::distance(m.begin(), e));
    VH_CHECK(static_cast<size_t>(it - d->begin()) == want, "%s: returned position %zd, expected %zu (of %zu)", what, it - d->begin(), want, m.size());
    if (e != m.end()) {
      VH_CHECK(same(it->first, e->first), "%s: returned iterator has key %s, expected %s", what, Keys<K>::str(it->first).c_str(), Keys<K>::str(e->first).c_str());
      VH_CHECK(same(it->second, e->second), "%s: returned iterator has value %s, expected %s", what, Vals<V>::str(it->second).c_str(), Vals<V>::str(e->second).c_str());
    } else {
      VH_CHECK(it == d->end(), "%s: expected end()", what);
    }
  };
  auto query = [&](const K& k) {
    const D& cd = *d;
    auto e = m.find(k);
    auto lo = m.lower_bound(k), hi = m.upper_bound(k);
    designates(d->find(k), e, "find");
    designates(d->lower_bound(k), lo, "lower_bound");
    designates(d->upper_bound(k), hi, "upper_bound");
    VH_CHECK(static_cast<size_t>(cd.lower_bound(k) - cd.begin()) == static_cast<size_t>(std::distance(m.begin(), lo)), "const lower_bound");
    VH_CHECK(static_cast<size_t>(cd.upper_bound(k) - cd.begin()) == static_cast<size_t>(std::distance(m.begin(), hi)), "const upper_bound");
    auto ci = cd.find(k);
    VH_CHECK((ci == cd.end()) == (e == m.end()), "const find");
    if (e != m.end()) VH_CHECK(same(ci->second, e->second) && same((*ci).first, e->first), "const find designates another entry");
    count(e == m.end() ? "absent_lookups" : "present_lookups");
  };
  if (N > 100 && r.chance(2, 3)) {  // start near the capacity
    for (uint32_t i = 0; i < U && m.size() + r.below(20) < N; ++i) {
      if (r.chance(1, 3) && U - i > N - m.size()) continue;
      const K k = make_key<K, Cmp>(i, U, r);
      if (m.count(k)) continue;
      const uint64_t id = vid++;
      step();
      auto res = d->try_emplace(k, Vals<V>::make(id));
      auto e = m.emplace(k, Vals<V>::make(id)).first;
      VH_CHECK(res.second, "try_emplace of a new key reported no insertion");
      if (N < 5000 || r.chance(1, 500)) designates(res.first, e, "try_emplace while filling");
    }
    dm_audit(*d, m, "after filling");
    count("large_fills");
  }
  const unsigned nops = 260 + static_cast<unsigned>(r.below(200));
  for (unsigned o = 0; o < nops; ++o) {
    step();
    if (r.chance(1, 40)) grow = static_cast<unsigned>(r.range(10, 90));
    uint32_t i = static_cast<uint32_t>(r.below(U));
    switch (r.below(8)) {
      case 0: i = 0; break;
      case 1: i = U - 1; break;
      default: break;
    }
    const K k = make_key<K, Cmp>(i, U, r);
    const bool had = m.count(k) != 0, full = m.size() == N;
    const uint64_t id = vid++;
    unsigned op = r.below(100) < grow ? static_cast<unsigned>(r.below(6)) : 6 + static_cast<unsigned>(r.below(3));
    if (r.chance(1, 4)) op = 9 + static_cast<unsigned>(r.below(4));
    if (r.chance(1, 50)) op = 13 + static_cast<unsigned>(r.below(6));
    note("op %u key %s had %d size %zu/%zu", op, Keys<K>::str(k).c_str(), had, m.size(), N);
    auto insertion = [&](const char* what, bool assigns, auto&& f) {
      std::optional<std::pair<typename D::iterator, bool>> res;
      bool threw = false;
      try {
        res.emplace(f());
      } catch (const std::runtime_error&) {
        threw = true;
      } catch (...) {
        fail("%s on a full map threw something else than runtime_error", what);
      }
      if (!had && full) {
        VH_CHECK(threw, "%s of a new key into a full map (%zu) did not throw", what, N);
        count("full_rejections");
        dm_audit(*d, m, "after a rejected insertion");
        return;
      }
      if (had && full && !assigns) {
        // the header documents a throw when full; either way nothing changes
        count("existing_on_full");
        if (threw) {
          dm_audit(*d, m, "after a rejected insertion");
          return;
        }
      }
      VH_CHECK(!threw, "%s threw runtime_error with %zu of %zu entries, key present %d", what, m.size(), N, had);
      auto e = m.find(k);
      if (e == m.end()) e = m.emplace(k, Vals<V>::make(id)).first;
      else if (assigns) e->second = Vals<V>::make(id);
      VH_CHECK(res->second == !had, "%s reported %d for a key that was%s present", what, res->second, had ? "" : " not");
      designates(res->first, e, what);
      count(had ? "insert_existing" : "insert_new");
      state(comb(comb(find_index(k), m.size()), had));
    };
    switch (op) {
      case 0:
        if constexpr (copyable) {
          insertion("insert", false, [&] { const V v = Vals<V>::make(id); return d->insert(k, v); });
          break;
        }
        [[fallthrough]];
      case 1:
        insertion("try_emplace", false, [&] { return d->try_emplace(k, Vals<V>::make(id)); });
        break;
      case 2:
        if constexpr (copyable) {
          insertion("insert_hint", false, [&] { const V v = Vals<V>::make(id); return d->insert_hint(d->lower_bound(k), k, v); });
          break;
        }
        [[fallthrough]];
      case 3:
        insertion("insert_or_assign", true, [&] { return d->insert_or_assign(k, Vals<V>::make(id)); });
        break;
      case 4:
        if constexpr (copyable) {
          insertion("insert_or_assign(lvalue)", true, [&] { const V v = Vals<V>::make(id); auto x = d->insert_or_assign(k, v); VH_CHECK(same(v, Vals<V>::make(id)), "the argument was modified"); return x; });
        } else {
          insertion("insert_or_assign", true, [&] { return d->insert_or_assign(k, Vals<V>::make(id)); });
        }
        break;
      case 5: {
        bool threw = false;
        V* p = nullptr;
        try {
          p = &(*d)[k];
        } catch (const std::runtime_error&) {
          threw = true;
        }
        if (!had && full) {
          VH_CHECK(threw, "operator[] of a new key on a full map did not throw");
          count("full_rejections");
          break;
        }
        VH_CHECK(!threw, "operator[] threw with %zu of %zu entries (present %d)", m.size(), N, had);
        auto e = m.find(k);
        if (e == m.end()) {
          e = m.emplace(k, V{}).first;
          VH_CHECK(same(*p, V{}), "operator[] inserted a value that is not value-initialised: %s", Vals<V>::str(*p).c_str());
          count("insert_new");
        } else {
          VH_CHECK(same(*p, e->second), "operator[] returned another value");
        }
        VH_CHECK(p == &d->find(k).value_ref(), "operator[] returned a reference to something else");
        if (r.chance(1, 2)) { *p = Vals<V>::make(id); e->second = Vals<V>::make(id); }
        break;
      }
      case 6: {
        const size_t n = d->erase(k);
        VH_CHECK(n == (had ? 1u : 0u), "erase(key) returned %zu for a key that was%s present", n, had ? "" : " not");
        m.erase(k);
        count(had ? "erased" : "erase_absent");
        break;
      }
      case 7: {
        if (m.empty()) break;
        const size_t p = static_cast<size_t>(r.below(m.size()));
        auto e = std::next(m.begin(), static_cast<long>(p));
        auto it = d->erase(d->begin() + static_cast<long>(p));
        e = m.erase(e);
        designates(it, e, "erase(iterator)");
        count("erased");
        break;
      }
      case 8: {
        // purge loop with the returned iterators
        if (!r.chance(1, 6)) { if (had) { auto e = m.erase(m.find(k)); designates(d->erase(d->find(k)), e, "erase(find)"); count("erased"); } break; }
        const unsigned den = static_cast<unsigned>(r.range(2, 6));
        auto it = d->begin();
        auto e = m.begin();
        while (it != d->end()) {
          VH_CHECK(e != m.end() && same(it->first, e->first), "purge loop is out of step");
          if (r.chance(1, den)) { it = d->erase(it); e = m.erase(e); count("erased"); }
          else { ++it; ++e; }
        }
        VH_CHECK(e == m.end(), "purge loop ended early");
        break;
      }
      case 9: case 10: query(k); break;
      case 11: {
        if (m.empty()) break;
        const size_t p = static_cast<size_t>(r.below(m.size()));
        auto e = std::next(m.begin(), static_cast<long>(p));
        auto it = d->begin() + static_cast<long>(p);
        if (r.chance(1, 2)) it->second = Vals<V>::make(id);
        else it.value_ref() = Vals<V>::make(id);
        e->second = Vals<V>::make(id);
        break;
      }
      case 12: {
        // change a key in place to another one that keeps the order
        if (m.empty()) break;
        const size_t p = static_cast<size_t>(r.below(m.size()));
        auto e = std::next(m.begin(), static_cast<long>(p));
        Cmp cmp;
        const bool ok = (p == 0 || cmp(std::prev(e)->first, k)) && (p + 1 == m.size() || cmp(k, std::next(e)->first));
        if (!ok) break;
        V v = std::move(e->second);
        m.erase(e);
        d->unsafe_update_key(d->begin() + static_cast<long>(p), k);
        m.emplace(k, std::move(v));
        count("keys_updated_in_place");
        break;
      }
      case 13: d->clear(); m.clear(); count("clears"); break;
      case 14:
        if constexpr (copyable) {
          const D& cd = *d;
          D copy(cd);
          dm_audit(copy, m, "a copy");
          d2 = std::make_unique<D>(std::move(copy));
          VH_CHECK(copy.empty(), "a moved-from map holds %zu entries", (size_t)copy.size());
          m2 = m;
        }
        break;
      case 15: {
        auto nd = std::make_unique<D>(std::move(*d));
        VH_CHECK(d->empty() && d->begin() == d->end(), "a moved-from map holds %zu entries", (size_t)d->size());
        dm_audit(*nd, m, "a move-constructed map");
        // the moved-from map is usable
        d->try_emplace(k, Vals<V>::make(id));
        VH_CHECK(d->size() == 1 && d->find(k) != d->end(), "the moved-from map is not usable");
        d = std::move(nd);
        count("whole_map_ops");
        break;
      }
      case 16:
        if constexpr (copyable) {
          if (!d2) break;
          if (r.chance(1, 2)) { *d2 = *d; m2 = m; dm_audit(*d2, m2, "a copy-assigned map"); }
          else { *d = *d2; m = m2; }
          count("whole_map_ops");
        }
        break;
      case 17: {
        if (!d2) { d2 = std::make_unique<D>(); m2.clear(); }
        if (r.chance(1, 2)) {
          *d = std::move(*d2);
          m = std::move(m2);
          m2.clear();
          dm_audit(*d2, m2, "the source of a move assignment");
        } else {
          std::swap(*d, *d2);
          std::swap(m, m2);
          dm_audit(*d2, m2, "the other side of a swap");
        }
        count("whole_map_ops");
        break;
      }
      default: {
        D& self = *d;
        if constexpr (copyable) { if (r.chance(1, 2)) { *d = self; break; } }
        *d = std::move(self);
        break;
      }
    }
    VH_CHECK(d->size() == m.size(), "size() %zu expected %zu", (size_t)d->size(), m.size());
    VH_CHECK(d->full() == (m.size() == N), "full() is %d with %zu of %zu", d->full(), m.size(), N);
    VH_CHECK(d->capacity() == N, "capacity() is %zu, expected %zu", (size_t)d->capacity(), N);
    if (r.chance(1, 6)) query(make_key<K, Cmp>(static_cast<uint32_t>(r.below(U)), U, r));
    if (r.chance(1, N > 5000 ? 200 : 12)) dm_audit(*d, m, "audit");
    count("ops");
  }
  dm_audit(*d, m, "at the end");
  for (uint32_t i = 0; i < U && i < 200; ++i) query(make_key<K, Cmp>(i, U, r));
}

template <size_t... N>
void pick(Case& c, std::index_sequence<N...>) {
  const size_t i = c.index % sizeof...(N);
  size_t k = 0;
  ((k++ == i ? history<TKEY, TVALUE, N, TCMP, SearchMode::TMODE>(c) : void()), ...);
}
SCENARIO(SCN, NQ, NQ * 25, [](Case& c) { pick(c, std::index_sequence<TCAPS>{}); });
}  // namespace
