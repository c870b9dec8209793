// Fault enumeration: every operation is repeated with the k-th allocation or
// value construction failing, k = 0, 1, 2, ..., until it succeeds.
#define VH_TRACKED
#include <fast_containers/dense_map.hpp>

#include "bt_engine.hpp"
#include "tracked.hpp"
using namespace vh;

namespace {
using K = TKEY;
using Tree = fc::btree<K, TVal, TLEAF, TINNER, std::less<K>, SearchMode::TMODE, MonAlloc<std::pair<K, TVal>>>;
using Map = std::map<K, uint64_t>;

struct Faults {
  Rng& r;
  Ledger led;
  std::unique_ptr<Tree> t;
  Map m;
  uint32_t U;
  uint64_t id = 1;
  uint64_t injected = 0;
  K busy{};  // key of the operation being repeated
  explicit Faults(Rng& rng, uint32_t u) : r(rng), U(u) { t = std::make_unique<Tree>(MonAlloc<std::pair<K, TVal>>(led)); }
  K key() { return Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r); }
  std::string ks(const K& k) { return Keys<K>::str(k); }

  static bool holds(Tree& t, const Map& m, std::string* why) {
    char b[200];
    if (t.size() != m.size()) {
      snprintf(b, sizeof b, "size() is %zu, expected %zu", t.size(), m.size());
      *why = b;
      return false;
    }
    auto it = t.begin();
    for (auto& [k, v] : m) {
      if (it == t.end()) { *why = "elements are missing from iteration"; return false; }
      if (!(static_cast<const K&>(it->first) == k)) {
        *why = "key " + Keys<K>::str(k) + " is missing or misplaced, found " + Keys<K>::str(it->first);
        return false;
      }
      if (static_cast<const TVal&>(it->second).id() != v) {
        *why = "key " + Keys<K>::str(k) + " has value #" + std::to_string(static_cast<const TVal&>(it->second).id()) + ", expected #" + std::to_string(v);
        return false;
      }
      ++it;
    }
    if (it != t.end()) { *why = "extra elements in iteration"; return false; }
    auto rit = t.rbegin();
    for (auto q = m.rbegin(); q != m.rend(); ++q, ++rit) {
      if (rit == t.rend() || !(static_cast<const K&>(rit->first) == q->first)) { *why = "backward iteration differs"; return false; }
    }
    if (rit != t.rend()) { *why = "backward iteration has extra elements"; return false; }
    return true;
  }
  void audit(const char* when, bool deep) {
    std::string why;
    if (!holds(*t, m, &why)) fail("%s: %s", when, why.c_str());
    unsigned n = deep ? 12 : 3;
    while (n--) {
      K k = key();
      auto e = m.lower_bound(k);
      auto l = t->lower_bound(k);
      VH_CHECK((l == t->end()) == (e == m.end()), "%s: lower_bound(%s) wrong", when, ks(k).c_str());
      if (e != m.end()) VH_CHECK(static_cast<const K&>(l->first) == e->first, "%s: lower_bound(%s) wrong", when, ks(k).c_str());
      VH_CHECK((t->find(k) != t->end()) == (m.count(k) == 1), "%s: find(%s) wrong", when, ks(k).c_str());
    }
  }
  // run f with fault k of the given kind armed; true if f completed
  template <class F>
  bool attempt(bool alloc_fault, long long k, F f) {
    (alloc_fault ? led.fail_in : ts().throw_in) = k;
    bool threw = false;
    try {
      f();
    } catch (const std::bad_alloc&) {
      threw = true;
      VH_CHECK(alloc_fault, "bad_alloc although no allocation failed");
    } catch (const ValueError&) {
      threw = true;
      VH_CHECK(!alloc_fault, "value error although no value threw");
    }
    const bool fired = (alloc_fault ? led.fail_in : ts().throw_in) < 0;
    led.fail_in = -1;
    ts().throw_in = -1;
    if (fired && !threw) fail("the failure was swallowed: the operation returned normally");
    VH_CHECK(fired || !threw, "an exception came out although nothing failed");
    return !threw;
  }
  // single-element operation with model effect
  template <class F, class G>
  void single(const char* name, F f, G effect) {
    // each attempt fails one kind of point; the index of that kind advances
    // after every failure, so all points before the completing attempt are hit
    const unsigned style = static_cast<unsigned>(r.below(3));
    long long next[2] = {0, 0};
    for (int tries = 0; tries < 128; ++tries) {
      const bool alloc_fault = style == 0 ? true : style == 1 ? r.chance(1, 2) : next[1] > 40;
      const long long k = next[alloc_fault ? 0 : 1];
      step();
      note("%s with %s failure %lld, size %zu", name, alloc_fault ? "allocation" : "value", k, m.size());
      const size_t live = led.live.size();
      const uint64_t tokens = ts().live_tokens;
      if (attempt(alloc_fault, k, f)) {
        effect();
        VH_CHECK(ts().live_tokens <= m.size() + 1, "%s: %llu values alive for %zu elements", name,
                 (unsigned long long)ts().live_tokens, m.size());
        audit(name, false);
        count("operations_completed");
        return;
      }
      ++next[alloc_fault ? 0 : 1];
      ++injected;
      count(alloc_fault ? "allocation_failures" : "value_failures");
      state(comb(comb(hash_str(name), static_cast<uint64_t>(k) + (alloc_fault ? 1000u : 0u)), m.size()));
      VH_CHECK(led.live.size() <= live + 2, "%s failed and kept %zu extra nodes", name, led.live.size() - live);
      VH_CHECK(ts().live_tokens == tokens, "%s failed and changed the number of live values from %llu to %llu", name,
               (unsigned long long)tokens, (unsigned long long)ts().live_tokens);
      audit((std::string("after failed ") + name).c_str(), true);
      if (r.chance(1, 10)) {  // use the container in between (key of this operation untouched)
        K o = key();
        if (!(o == busy)) {
          bool had = m.count(o) != 0;
          auto res = t->try_emplace(o, id);
          VH_CHECK(res.second == !had, "try_emplace after a failure");
          if (!had) m[o] = id;
          ++id;
          if (!m.empty() && r.chance(1, 2)) {
            auto e = m.lower_bound(key());
            if (e == m.end()) e = m.begin();
            if (!(e->first == busy)) {
              t->erase(e->first);
              m.erase(e);
            }
          }
          audit("use after failure", true);
        }
      }
    }
    // not through in that many attempts: run it without faults
    attempt(true, 1 << 30, f);
    effect();
    audit(name, false);
  }
  void one() {
    K k = key();
    busy = k;
    uint64_t v = id++;
    const bool had = m.count(k) != 0;
    auto eff_new = [&] { m.emplace(k, v); };
    auto eff_set = [&] { m[k] = v; };
    switch (r.below(13)) {
      case 0: {
        TVal val(v);
        single("insert", [&] { t->insert(k, val); }, eff_new);
        break;
      }
      case 1: {
        std::pair<K, TVal> p(k, TVal(v));
        single("insert(pair)", [&] { t->insert(p); }, eff_new);
        break;
      }
      case 2: single("emplace", [&] { t->emplace(k, v); }, eff_new); break;
      case 3: single("emplace_hint", [&] { t->emplace_hint(t->lower_bound(k), k, v); }, eff_new); break;
      case 4: single("try_emplace", [&] { t->try_emplace(k, v); }, eff_new); break;
      case 5: {
        TVal val(v);
        single("insert_or_assign(copy)", [&] { t->insert_or_assign(k, static_cast<const TVal&>(val)); }, eff_set);
        break;
      }
      case 6: single("insert_or_assign(move)", [&] { t->insert_or_assign(k, TVal(v)); }, eff_set); break;
      case 7: single("operator[]", [&] { (void)(*t)[k]; }, [&] { m.emplace(k, 0); }); break;
      case 8: single("erase(key)", [&] { t->erase(k); }, [&] { m.erase(k); }); break;
      case 9: case 10: {
        auto e = m.lower_bound(k);
        if (e == m.end()) { if (m.empty()) break; e = m.begin(); }
        K ek = e->first;
        busy = ek;
        single("erase(it)", [&] { t->erase(t->find(ek)); }, [&] { m.erase(ek); });
        break;
      }
      case 11: {
        // construct copies of the whole tree under faults: source untouched
        for (int kind = 0; kind < 2; ++kind)
          for (long long f = 0; f < 400; f += 1 + static_cast<long long>(r.below(f < 20 ? 1 : 1 + m.size() / 4))) {
            note("copy construction with failure %lld", f);
            size_t live = led.live.size();
            uint64_t tokens = ts().live_tokens;
            std::unique_ptr<Tree> c;
            bool ok = attempt(kind == 0, f, [&] { c = std::make_unique<Tree>(static_cast<const Tree&>(*t)); });
            if (ok) {
              std::string why;
              if (!holds(*c, m, &why)) fail("copy: %s", why.c_str());
              c.reset();
            } else {
              count("copy_failures");
            }
            VH_CHECK(led.live.size() == live, "copy construction %s: %zu nodes were not returned", ok ? "and destruction" : "failed",
                     led.live.size() - live);
            VH_CHECK(ts().live_tokens == tokens, "copy construction leaked or destroyed values");
            if (ok) break;
          }
        audit("source of failed copies", true);
        break;
      }
      default: {
        if (r.chance(1, 2)) {
          note("failing clear");
          if (attempt(true, 0, [&] { t->clear(); })) m.clear();
          else { count("clear_failures"); }
          audit("failed clear", true);
          break;
        }
        // copy assignment from another tree, failing somewhere
        Tree o(MonAlloc<std::pair<K, TVal>>{led});
        Map om;
        for (uint64_t n = r.below(60); n; --n) {
          K q = key();
          if (om.emplace(q, id).second) o.try_emplace(q, id);
          ++id;
        }
        note("failing copy assignment sizes %zu <- %zu", m.size(), om.size());
        bool kind = r.chance(1, 2);
        bool ok = attempt(kind, static_cast<long long>(r.below(kind ? 6 : 90)), [&] { *t = static_cast<const Tree&>(o); });
        std::string why;
        if (!holds(o, om, &why)) fail("source of copy assignment: %s", why.c_str());
        if (ok) {
          m = om;
        } else {
          count("assign_failures");
          // valid but unspecified: every element from the old or the new contents
          Map now;
          size_t n = 0;
          for (auto it = t->begin(); it != t->end(); ++it) {
            K q = it->first;
            uint64_t val = static_cast<const TVal&>(it->second).id();
            bool from_new = om.count(q) && om[q] == val, from_old = m.count(q) && m[q] == val;
            VH_CHECK(from_new || from_old, "after a failed copy assignment key %s has value #%llu, which nobody assigned",
                     ks(q).c_str(), (unsigned long long)val);
            VH_CHECK(now.emplace(q, val).second, "duplicate key after a failed copy assignment");
            ++n;
          }
          VH_CHECK(n == t->size(), "after a failed copy assignment size() is %zu but %zu elements are visible", t->size(), n);
          m = now;
        }
        audit("after copy assignment", true);
      }
    }
    (void)had;
  }
  void run(unsigned n) {
    unsigned pre = static_cast<unsigned>(r.below(r.chance(1, 3) ? 8 : 400));
    uint32_t c = static_cast<uint32_t>(r.below(U));
    bool seq = r.chance(1, 2);
    for (unsigned i = 0; i < pre; ++i) {
      K k = Keys<K>::make(seq ? (c++ % U) : static_cast<uint32_t>(r.below(U)), U, r);
      if (m.emplace(k, id).second) t->try_emplace(k, id);
      ++id;
    }
    for (unsigned i = 0; i < n; ++i) {
      one();
      // grow and shrink between, so that every op meets splits and merges
      if (r.chance(1, 6)) {
        bool up = r.chance(1, 2);
        for (uint64_t j = r.below(60); j; --j) {
          K k = key();
          if (up) { if (m.emplace(k, id).second) t->try_emplace(k, id); ++id; }
          else if (m.size() > 20) { auto e = m.lower_bound(k); if (e == m.end()) continue; t->erase(e->first); m.erase(e); }
        }
      }
    }
    audit("end", true);
    t.reset();
    led.expect_empty("after destruction");
    VH_CHECK(ts().live_tokens == 0 && ts().objects.empty(), "%zu values are still alive after destruction", ts().objects.size());
  }
};

SCENARIO("btree_" SCN, NQ, NQ * 25, [](Case& c) {
  static const uint32_t us[] = {60, 300, 1500};
  Faults f(c.rng, us[c.rng.below(3)]);
  f.run(40 * c.depth);
  if (c.index == 0) sample(c.scenario + ": " + std::to_string(f.injected) + " failures injected and survived in one history");
});

// every insertion of a growing tree meets a failure at each allocation (or
// each value construction) it makes: all splits, up to the root
SCENARIO("storm_" SCN, NQ / 4, NQ * 4, [](Case& c) {
  Faults f(c.rng, 4000);
  Rng& r = c.rng;
  const unsigned n = 250 * (c.depth > 1 ? 4 : 1) + static_cast<unsigned>(r.below(200));
  const unsigned order = static_cast<unsigned>(r.below(4));
  const bool values = r.chance(1, 6);
  for (unsigned i = 0; i < (values ? n / 3 : n); ++i) {
    uint32_t x = order == 0 ? i : order == 1 ? 3999 - i : order == 2 ? (i * 1777u) % 4000 : static_cast<uint32_t>(r.below(4000));
    K k = Keys<K>::make(x, 4000, r);
    uint64_t v = f.id++;
    const unsigned how = static_cast<unsigned>(r.below(3));
    for (long long q = 0;; ++q) {
      step();
      note("storm insertion %u with %s failure %lld", i, values ? "value" : "allocation", q);
      TVal arg(v);
      const uint64_t tokens = ts().live_tokens;
      if (f.attempt(!values, q, [&] {
            if (how == 0) f.t->insert(k, arg);
            else if (how == 1) f.t->try_emplace(k, v);
            else f.t->insert_or_assign(k, static_cast<const TVal&>(arg));
          })) {
        if (how == 2) f.m[k] = v; else f.m.emplace(k, v);
        VH_CHECK(f.t->size() == f.m.size(), "size %zu expected %zu", f.t->size(), f.m.size());
        break;
      }
      count("storm_failures");
      state(comb(comb(77, static_cast<uint64_t>(q)), f.m.size()));
      VH_CHECK(ts().live_tokens == tokens, "a failed insertion changed the number of live values");
      f.audit("after failed insertion", true);
    }
  }
  f.audit("end of storm", true);
  f.t.reset();
  f.led.expect_empty("after destruction");
  VH_CHECK(ts().live_tokens == 0 && ts().objects.empty(), "%zu values are still alive after destruction", ts().objects.size());
});

// ---------------------------------------------------------------- dense_map
template <size_t N, SearchMode M>
void dense(Case& c) {
  Rng& r = c.rng;
  using D = fc::dense_map<K, TVal, N, std::less<K>, M>;
  {
    auto d = std::make_unique<D>();
    Map m;
    uint64_t id = 1;
    uint32_t U = 3 * N;
    auto holds = [&](D& x, const Map& mm, const char* when) {
      VH_CHECK(x.size() == mm.size(), "%s: size %zu expected %zu", when, x.size(), mm.size());
      auto it = x.begin();
      for (auto& [k, v] : mm) {
        VH_CHECK(static_cast<const K&>(it->first) == k, "%s: wrong key", when);
        VH_CHECK(static_cast<const TVal&>(it->second).id() == v, "%s: key %s has #%llu expected #%llu", when,
                 Keys<K>::str(k).c_str(), (unsigned long long)static_cast<const TVal&>(it->second).id(), (unsigned long long)v);
        ++it;
      }
      VH_CHECK(it == x.end(), "%s: too many", when);
    };
    for (int i = 0; i < 120; ++i) {
      K k = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
      uint64_t v = id++;
      const bool full = m.size() == N, had = m.count(k) != 0;
      int op = static_cast<int>(r.below(9));
      if (full && op < 5 && !(had && (op == 3 || op == 4))) op = 5;
      for (long long f = 0;; ++f) {
        step();
        note("dense op %d failure %lld size %zu", op, f, m.size());
        std::unique_ptr<TVal> val = std::make_unique<TVal>(v);
        D* other = nullptr;
        std::unique_ptr<D> oh;
        if (op >= 7) { oh = std::make_unique<D>(); other = oh.get(); for (uint64_t q = r.below(N + 1); q; --q) other->insert_or_assign(Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r), TVal(id++)); }
        uint64_t tok = ts().live_tokens;
        ts().throw_in = f;
        bool threw = false;
        try {
          switch (op) {
            case 0: d->insert(k, *val); break;
            case 1: d->insert_hint(d->lower_bound(k), k, *val); break;
            case 2: d->try_emplace(k, v); break;
            case 3: d->insert_or_assign(k, static_cast<const TVal&>(*val)); break;
            case 4: (void)(*d)[k]; break;
            case 5: d->erase(k); break;
            case 6: { D copy(*d); break; }
            case 7: case 8: *d = static_cast<const D&>(*other); break;
          }
        } catch (const ValueError&) {
          threw = true;
        }
        bool fired = ts().throw_in < 0;
        ts().throw_in = -1;
        VH_CHECK(threw == fired, "failure %s", fired ? "swallowed" : "out of nowhere");
        if (!threw) {
          if (op <= 2) m.emplace(k, v);
          else if (op == 3) m[k] = v;
          else if (op == 4) m.emplace(k, 0);
          else if (op == 5) m.erase(k);
          else if (op >= 7) { m.clear(); for (auto it = other->begin(); it != other->end(); ++it) m.emplace(it->first, static_cast<const TVal&>(it->second).id()); }
          holds(*d, m, "after operation");
          count("dense_operations_completed");
          break;
        }
        count("dense_failures");
        state(comb(comb(static_cast<uint64_t>(op) + 500, static_cast<uint64_t>(f)), m.size()));
        if (op >= 7) {
          // valid but unspecified: sorted, sizes agree, usable
          size_t n = 0;
          Map now;
          for (auto it = d->begin(); it != d->end(); ++it, ++n) now.emplace(it->first, static_cast<const TVal&>(it->second).id());
          VH_CHECK(n == d->size() && now.size() == n, "after a failed assignment the map is inconsistent");
          m = now;
          holds(*d, m, "after failed assignment");
          break;
        }
        VH_CHECK(ts().live_tokens == tok, "failed operation changed the number of live values");
        holds(*d, m, "after failed operation");
      }
    }
  }
  VH_CHECK(ts().live_tokens == 0 && ts().objects.empty(), "%zu values are still alive after destruction", ts().objects.size());
}
SCENARIO("dense_" SCN, NQ * 2, NQ * 30, [](Case& c) {
  switch (c.rng.below(3)) {
    case 0: dense<TLEAF, SearchMode::TMODE>(c); break;
    case 1: dense<3, SearchMode::Binary>(c); break;
    default: dense<1, SearchMode::Linear>(c); break;
  }
});
}  // namespace
