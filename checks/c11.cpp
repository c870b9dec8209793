// Arguments that live inside the container: keys and values are references to
// elements (keys or values; key type == value type), the model gets copies.
#include <fast_containers/dense_map.hpp>

#include "bt_engine.hpp"
using namespace vh;

namespace {
using K = TKEY;
using Cmp = TCMP;
using Tree = fc::btree<K, K, TLEAF, TINNER, Cmp, SearchMode::TMODE, MonAlloc<std::pair<K, K>>>;
using Model = std::map<K, K, Cmp>;

template <class C>
void audit(C& t, Model& m, const char* when) {
  VH_CHECK(t.size() == m.size(), "%s: size %zu expected %zu", when, (size_t)t.size(), m.size());
  auto it = t.begin();
  for (auto& [k, v] : m) {
    VH_CHECK(it != t.end(), "%s: elements missing", when);
    VH_CHECK(same(static_cast<const K&>(it->first), k), "%s: key %s, expected %s", when, Keys<K>::str(it->first).c_str(), Keys<K>::str(k).c_str());
    VH_CHECK(same(static_cast<const K&>(it->second), v), "%s: key %s has value %s, expected %s", when, Keys<K>::str(k).c_str(),
             Keys<K>::str(it->second).c_str(), Keys<K>::str(v).c_str());
    ++it;
  }
  VH_CHECK(it == t.end(), "%s: extra elements", when);
}

SCENARIO("btree_" SCN, NQ, NQ * 25, [](Case& c) {
  Rng& r = c.rng;
  Ledger led;
  {
    Tree t{MonAlloc<std::pair<K, K>>(led)};
    Model m;
    static const uint32_t us[] = {60, 400, 3000};
    const uint32_t U = us[r.below(3)];
    const size_t cap = U / 2;
    auto near_key = [&](uint32_t i) {
      int64_t j = static_cast<int64_t>(i) + r.range(-6, 6);
      if (j < 0) j = 0;
      if (j >= static_cast<int64_t>(U)) j = U - 1;
      return Keys<K>::make(static_cast<uint32_t>(j), U, r);
    };
    uint32_t cur = static_cast<uint32_t>(r.below(U));
    unsigned pat = 0, left = 0, grow = 50;
    for (unsigned i = 0; i < 1200 * c.depth; ++i) {
      step();
      if (!left) {
        pat = static_cast<unsigned>(r.below(4));
        grow = m.size() > cap ? 20 : 30 + static_cast<unsigned>(r.below(60));
        left = 1 + static_cast<unsigned>(r.below(150));
      }
      --left;
      cur = pat == 0 ? (cur + 1) % U : pat == 1 ? (cur + U - 1) % U : pat == 2 ? static_cast<uint32_t>((cur + r.below(9)) % U) : static_cast<uint32_t>(r.below(U));
      K k0 = Keys<K>::make(cur, U, r);
      if (m.size() < 6 || r.chance(1, 6)) {  // plain seed element whose value is a nearby key
        K v = near_key(cur);
        t.insert_or_assign(k0, v);
        auto e = m.find(k0);
        if (e == m.end()) m.emplace(k0, v); else e->second = v;
        continue;
      }
      // element whose key or value is passed as the key argument
      auto near_it = [&](int spread) {
        auto it = t.lower_bound(k0);
        int d = static_cast<int>(r.range(-spread, spread));
        while (d > 0 && it != t.end()) { ++it; --d; }
        while (d < 0 && it != t.begin()) { --it; ++d; }
        if (it == t.end()) { it = t.begin(); }
        return it;
      };
      auto a = near_it(3);
      auto b = near_it(10);
      const K& kref = r.chance(3, 4) ? static_cast<const K&>(a->second) : static_cast<const K&>(a->first);
      const K& vref = r.chance(1, 2) ? static_cast<const K&>(b->second) : static_cast<const K&>(b->first);
      const K kc = kref, vc = vref;  // what a copy would have said
      auto e = m.find(kc);
      const bool had = e != m.end();
      bool assign = false, inserted = false;
      typename Tree::iterator res;
      const unsigned op = r.below(100) < grow ? static_cast<unsigned>(r.below(6)) : 6 + static_cast<unsigned>(r.below(4));
      note("aliased op %u key %s value %s size %zu", op, Keys<K>::str(kc).c_str(), Keys<K>::str(vc).c_str(), m.size());
      switch (op) {
        case 0: { auto q = t.insert(kref, vref); res = q.first; inserted = q.second; break; }
        case 1: { auto q = t.emplace(kref, vref); res = q.first; inserted = q.second; break; }
        case 2: { auto q = t.try_emplace(kref, vref); res = q.first; inserted = q.second; break; }
        case 3: { auto q = t.insert_or_assign(kref, vref); res = q.first; inserted = q.second; assign = true; break; }
        case 4: { res = t.emplace_hint(b, kref, vref); inserted = !had; break; }
        case 5: {
          K& ref = t[kref];
          K tmp = vc;
          ref = tmp;
          res = t.find(kc);
          inserted = !had;
          assign = true;
          break;
        }
        case 6: case 7: {
          size_t n = t.erase(kref);
          VH_CHECK(n == (had ? 1u : 0u), "erase(reference into the tree) returned %zu", n);
          if (had) { m.erase(e); count("aliased_erasures"); }
          VH_CHECK(t.find(kc) == t.end(), "the erased key is still found");
          break;
        }
        case 8: {
          auto q = t.erase(a);
          auto x = m.upper_bound(kc);
          (void)x; (void)q;
          // the model: a's key was captured through kref only if it was the key
          // reference, so recompute
          Model now;
          for (auto it = t.begin(); it != t.end(); ++it) now.emplace(it->first, it->second);
          VH_CHECK(now.size() + 1 == m.size(), "erase(iterator) removed the wrong number of elements");
          m = now;
          break;
        }
        default: {
          auto f = t.find(kref);
          VH_CHECK((f != t.end()) == had, "find(reference into the tree)");
          auto l = t.lower_bound(kref);
          auto ml = m.lower_bound(kc);
          VH_CHECK((l == t.end()) == (ml == m.end()), "lower_bound(reference)");
          if (ml != m.end()) VH_CHECK(same(static_cast<const K&>(l->first), ml->first), "lower_bound(reference)");
          break;
        }
      }
      if (op < 6) {
        VH_CHECK(inserted == !had, "aliased insertion of %s reported %d, key was %s", Keys<K>::str(kc).c_str(), inserted, had ? "present" : "absent");
        if (!had) e = m.emplace(kc, vc).first;
        else if (assign) e->second = vc;
        VH_CHECK(res != t.end(), "aliased insertion returned end()");
        VH_CHECK(same(static_cast<const K&>(res->first), e->first), "aliased insertion: key is %s, argument was %s",
                 Keys<K>::str(res->first).c_str(), Keys<K>::str(e->first).c_str());
        VH_CHECK(same(static_cast<const K&>(res->second), e->second), "aliased insertion of key %s: value is %s, argument was %s",
                 Keys<K>::str(kc).c_str(), Keys<K>::str(res->second).c_str(), Keys<K>::str(e->second).c_str());
        count(had ? "aliased_existing" : "aliased_insertions");
        state(comb(comb(op, had), m.size()));
      }
      VH_CHECK(t.size() == m.size(), "size %zu expected %zu", t.size(), m.size());
      if (m.size() < 80 || r.chance(1, 12)) audit(t, m, "after aliased operation");
    }
    audit(t, m, "end");
    if (c.index == 0) sample(c.scenario + ": final size " + std::to_string(m.size()) + ", " + std::to_string(led.allocs) + " nodes allocated");
  }
  led.expect_empty("end");
});

template <size_t N>
void dense(Case& c) {
  Rng& r = c.rng;
  using D = fc::dense_map<K, K, N, Cmp, SearchMode::TMODE>;
  D d;
  Model m;
  const uint32_t U = 3 * N + 4;
  for (unsigned i = 0; i < 400; ++i) {
    step();
    uint32_t x = static_cast<uint32_t>(r.below(U));
    if (m.size() < 1 || (r.chance(1, 4) && m.size() < N)) {
      K k = Keys<K>::make(x, U, r), v = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
      d.insert_or_assign(k, v);
      auto e = m.find(k);
      if (e == m.end()) m.emplace(k, v); else e->second = v;
      continue;
    }
    auto a = d.begin() + static_cast<std::ptrdiff_t>(r.below(d.size()));
    auto b = d.begin() + static_cast<std::ptrdiff_t>(r.below(d.size()));
    const K& kref = r.chance(3, 4) ? static_cast<const K&>(a->second) : static_cast<const K&>(a->first);
    const K& vref = r.chance(1, 2) ? static_cast<const K&>(b->second) : static_cast<const K&>(b->first);
    const K kc = kref, vc = vref;
    auto e = m.find(kc);
    const bool had = e != m.end();
    unsigned op = static_cast<unsigned>(r.below(8));
    if (m.size() == N && op < 5 && !(had && op >= 3)) op = 5;
    note("dense aliased op %u key %s value %s size %zu of %zu", op, Keys<K>::str(kc).c_str(), Keys<K>::str(vc).c_str(), m.size(), N);
    std::pair<typename D::iterator, bool> q{d.end(), false};
    bool assign = false;
    switch (op) {
      case 0: q = d.insert(kref, vref); break;
      case 1: q = d.insert_hint(d.lower_bound(kref), kref, vref); break;
      case 2: q = d.try_emplace(kref, vref); break;
      case 3: q = d.insert_or_assign(kref, vref); assign = true; break;
      case 4: {
        K& ref = d[kref];
        K tmp = vc;
        ref = tmp;
        q = {d.find(kc), !had};
        assign = true;
        break;
      }
      case 5: case 6: {
        size_t n = d.erase(kref);
        VH_CHECK(n == (had ? 1u : 0u), "erase(reference) returned %zu", n);
        if (had) m.erase(e);
        break;
      }
      default: VH_CHECK((d.find(kref) != d.end()) == had, "find(reference)"); break;
    }
    if (op < 5) {
      VH_CHECK(q.second == !had, "aliased insertion reported %d", q.second);
      if (!had) m.emplace(kc, vc);
      else if (assign) e->second = vc;
      count(had ? "dense_aliased_existing" : "dense_aliased_insertions");
      state(comb(comb(op + 100, had), m.size()));
    }
    audit(d, m, "dense_map after aliased operation");
  }
}
SCENARIO("dense_" SCN, NQ, NQ * 25, [](Case& c) {
  switch (c.rng.below(3)) {
    case 0: dense<TLEAF>(c); break;
    case 1: dense<33>(c); break;
    default: dense<4>(c); break;
  }
});
}  // namespace
