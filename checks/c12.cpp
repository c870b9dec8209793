// Lifetimes and release of values: every container operation is followed by a
// comparison of the live resource tokens with the elements that should exist.
#include <fast_containers/dense_map.hpp>
#include <list>

#include "bt_engine.hpp"
#include "tracked.hpp"
using namespace vh;

namespace {
using K = TKEY;
using Tree = fc::btree<K, TVal, TLEAF, TINNER, std::less<K>, SearchMode::TMODE, MonAlloc<std::pair<K, TVal>>>;
using Model = std::map<K, uint64_t>;

uint64_t next_id = 1;

template <class C>
void audit(C& t, Model& m, const char* when) {
  VH_CHECK(t.size() == m.size(), "%s: size %zu expected %zu", when, (size_t)t.size(), m.size());
  auto it = t.begin();
  for (auto& [k, v] : m) {
    VH_CHECK(it != t.end(), "%s: elements missing", when);
    VH_CHECK(same(static_cast<const K&>(it->first), k), "%s: key %s, expected %s", when, Keys<K>::str(it->first).c_str(), Keys<K>::str(k).c_str());
    const uint64_t id = it->second.id();
    VH_CHECK(id == v, "%s: key %s holds value #%llu, expected #%llu", when, Keys<K>::str(k).c_str(), (unsigned long long)id, (unsigned long long)v);
    ++it;
  }
  VH_CHECK(it == t.end(), "%s: extra elements", when);
}

template <class Ms>
void tokens(const Ms& ms, const char* when) {
  uint64_t want = 0;
  for (auto& m : ms) want += m.size();
  VH_CHECK(ts().live_tokens == want,
           "%s: %llu values are alive but the containers hold %llu elements (%s)", when,
           (unsigned long long)ts().live_tokens, (unsigned long long)want,
           ts().live_tokens > want ? "values of erased or replaced elements were not released" : "values were released too early");
  count("release_checks");
}

SCENARIO("btree_" SCN, NQ, NQ * 25, [](Case& c) {
  Rng& r = c.rng;
  Ledger led;
  auto& T = ts();
  T.objects.clear(); T.tokens.clear(); T.live_tokens = 0; T.throw_in = -1;
  {
    constexpr size_t N = 3;
    std::vector<std::unique_ptr<Tree>> t;
    std::vector<Model> m(N);
    using A = MonAlloc<std::pair<K, TVal>>;
    for (size_t i = 0; i < N; ++i) t.push_back(std::make_unique<Tree>(A(led)));
    static const uint32_t us[] = {40, 300, 2000};
    const uint32_t U = us[r.below(3)];
    const size_t cap = U / 2;
    uint32_t cur = 0;
    unsigned pat = 0, left = 0, grow = 50;
    for (unsigned i = 0; i < 1000 * c.depth; ++i) {
      step();
      if (!left) {
        pat = static_cast<unsigned>(r.below(4));
        left = 1 + static_cast<unsigned>(r.below(200));
        grow = 20 + static_cast<unsigned>(r.below(70));
      }
      --left;
      const size_t x = r.chance(3, 4) ? 0 : r.below(N);
      cur = pat == 0 ? (cur + 1) % U : pat == 1 ? (cur + U - 1) % U : static_cast<uint32_t>(r.below(U));
      const K k = Keys<K>::make(cur, U, r);
      Tree& a = *t[x];
      Model& ma = m[x];
      const bool had = ma.count(k) != 0;
      const uint64_t id = ++next_id;
      const unsigned g = ma.size() > cap ? 20 : grow;
      const unsigned roll = static_cast<unsigned>(r.below(1000));
      const char* when = "?";
      if (roll < 30) {  // whole-container operations
        const size_t y = r.below(N);
        Tree& b = *t[y];
        const unsigned op = static_cast<unsigned>(r.below(9));
        note("whole op %u on %zu(%zu) from %zu(%zu)", op, x, ma.size(), y, m[y].size());
        switch (op) {
          case 0: when = "copy construction"; t[x] = std::make_unique<Tree>(b); { Model q = m[y]; m[x] = q; } break;
          case 1: when = "copy assignment"; a = b; { Model q = m[y]; m[x] = q; } break;
          case 2: when = "move construction"; if (x != y) { t[x] = std::make_unique<Tree>(std::move(b)); m[x] = std::move(m[y]); m[y].clear(); } break;
          case 3: when = "move assignment"; if (x != y) { a = std::move(b); m[x] = std::move(m[y]); m[y].clear(); } break;
          case 4: when = "swap"; a.swap(b); if (x != y) m[x].swap(m[y]); break;
          case 5: when = "clear"; a.clear(); ma.clear(); break;
          case 6: when = "destruction"; t[x] = std::make_unique<Tree>(A(led)); ma.clear(); break;
          case 7: when = "erase(begin,end)"; a.erase(a.begin(), a.end()); ma.clear(); break;
          default: {
            when = "range construction";
            std::vector<std::pair<K, TVal>> v;
            Model nm;
            for (unsigned j = 0; j < 60; ++j) {
              K kk = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
              uint64_t d = ++next_id;
              v.emplace_back(kk, TVal(d));
              nm.emplace(kk, d);
            }
            t[x] = std::make_unique<Tree>(v.begin(), v.end(), A(led));
            m[x] = nm;
            break;
          }
        }
        count("whole_container_ops");
      } else if (roll < 30 + g * 97 / 10) {
        const unsigned op = static_cast<unsigned>(r.below(8));
        note("grow op %u key %s (%s) size %zu", op, Keys<K>::str(k).c_str(), had ? "present" : "absent", ma.size());
        // now and then a value construction or copy fails: nothing may change
        const bool armed = r.chance(1, 6);
        if (armed) T.throw_in = static_cast<long long>(r.below(4));
        try {
        switch (op) {
          case 0: when = "insert"; { TVal v(id); a.insert(k, v); } if (!had) ma[k] = id; break;
          case 1: when = "insert(pair)"; a.insert(std::pair<K, TVal>(k, TVal(id))); if (!had) ma[k] = id; break;
          case 2: when = "emplace"; a.emplace(k, TVal(id)); if (!had) ma[k] = id; break;
          case 3: when = "try_emplace"; a.try_emplace(k, id); if (!had) ma[k] = id; break;
          case 4: when = "insert_or_assign(copy)"; { TVal v(id); a.insert_or_assign(k, v); } ma[k] = id; break;
          case 5: when = "insert_or_assign(rvalue)"; a.insert_or_assign(k, TVal(id)); ma[k] = id; break;
          case 6: when = "operator[]"; a[k] = TVal(id); ma[k] = id; break;
          default: when = "emplace_hint"; a.emplace_hint(a.lower_bound(k), k, TVal(id)); if (!had) ma[k] = id; break;
        }
        } catch (const ValueError&) {
          VH_CHECK(armed, "a value error nobody caused");
          count("failed_operations");
        }
        T.throw_in = -1;
        if (had) count("values_replaced_or_kept");
      } else {
        const unsigned op = static_cast<unsigned>(r.below(8));
        note("shrink op %u key %s (%s) size %zu", op, Keys<K>::str(k).c_str(), had ? "present" : "absent", ma.size());
        if (op < 4) {
          when = "erase(key)";
          a.erase(k);
          count("erased", ma.erase(k));
        } else if (op < 7) {
          when = "erase(iterator)";
          auto it = a.lower_bound(k);
          auto e = ma.lower_bound(k);
          if (it != a.end() && e != ma.end()) { a.erase(it); ma.erase(e); count("erased"); }
        } else {
          when = "erase(range)";
          auto it = a.lower_bound(k);
          auto e = ma.lower_bound(k), e0 = e;
          auto l = it;
          size_t n = r.below(ma.size() > 100 && r.chance(1, 4) ? 60 : 9);
          while (n-- && e != ma.end()) { ++l; ++e; count("erased"); }
          a.erase(it, l);
          ma.erase(e0, e);
        }
      }
      tokens(m, when);
      state(comb(hash_str(when), comb(ma.size(), led.live.size())));
      if (ma.size() < 60 || r.chance(1, 20)) audit(*t[x], m[x], when);
    }
    for (size_t i = 0; i < N; ++i) audit(*t[i], m[i], "end");
    if (c.index == 0)
      sample(c.scenario + ": " + std::to_string(T.ctor) + " constructed, " + std::to_string(T.copies) + " copied, " +
             std::to_string(T.moves) + " moved, " + std::to_string(T.dtor) + " destroyed; " + std::to_string(T.live_tokens) + " alive");
    // destruction in random order: each tree releases exactly its own values
    while (!t.empty()) {
      size_t q = r.below(t.size());
      t.erase(t.begin() + static_cast<long>(q));
      m.erase(m.begin() + static_cast<long>(q));
      tokens(m, "destruction");
    }
  }
  VH_CHECK(ts().objects.empty(), "%zu values were constructed and never destroyed", ts().objects.size());
  led.expect_empty("end");
  count("values_constructed", T.ctor + T.copies + T.moves);
  T.ctor = T.copies = T.moves = T.dtor = 0;
});

template <size_t N>
void dense(Case& c) {
  Rng& r = c.rng;
  auto& T = ts();
  T.objects.clear(); T.tokens.clear(); T.live_tokens = 0; T.throw_in = -1;
  {
    using D = fc::dense_map<K, TVal, N, std::less<K>, SearchMode::TMODE>;
    std::vector<std::unique_ptr<D>> d;
    std::vector<Model> m(3);
    for (int i = 0; i < 3; ++i) d.push_back(std::make_unique<D>());
    const uint32_t U = 3 * N + 5;
    for (unsigned i = 0; i < 500; ++i) {
      step();
      const size_t x = r.below(3), y = (x + 1 + r.below(2)) % 3;
      D &a = *d[x], &b = *d[y];
      Model &ma = m[x], &mb = m[y];
      const K k = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
      const bool had = ma.count(k) != 0, full = ma.size() == N;
      const uint64_t id = ++next_id;
      unsigned op = static_cast<unsigned>(r.below(20));
      const char* when = "?";
      bool swap_excluded = false;
      note("dense op %u sizes %zu %zu of %zu", op, ma.size(), mb.size(), N);
      const bool armed = op <= 6 && r.chance(1, 6);
      if (armed) T.throw_in = static_cast<long long>(r.below(4));
      try {
      switch (op) {
        case 0: case 1: when = "insert"; if (!full) { { TVal v(id); a.insert(k, v); } if (!had) ma[k] = id; } break;
        case 2: when = "try_emplace"; if (!full) { a.try_emplace(k, id); if (!had) ma[k] = id; } break;
        case 3: when = "insert_or_assign(copy)"; if (!full || had) { { TVal v(id); a.insert_or_assign(k, v); } ma[k] = id; } break;
        case 4: when = "insert_or_assign(rvalue)"; if (!full || had) { a.insert_or_assign(k, TVal(id)); ma[k] = id; } break;
        case 5: when = "operator[]"; if (!full || had) { a[k] = TVal(id); ma[k] = id; } break;
        case 6: when = "insert_hint"; if (!full) { { TVal v(id); a.insert_hint(a.lower_bound(k), k, v); } if (!had) ma[k] = id; } break;
        case 7: case 8: case 9: case 10: when = "erase(key)"; a.erase(k); ma.erase(k); break;
        case 11: when = "erase(iterator)"; if (!ma.empty()) {
            size_t j = r.below(ma.size());
            a.erase(a.begin() + static_cast<std::ptrdiff_t>(j));
            ma.erase(std::next(ma.begin(), static_cast<long>(j)));
          } break;
        case 12: when = "clear"; if (r.chance(1, 4)) { a.clear(); ma.clear(); } break;
        case 13: when = "copy construction"; d[x] = std::make_unique<D>(b); ma = mb; break;
        case 14: when = "copy assignment"; a = b; ma = mb; break;
        case 15: when = "move construction"; d[x] = std::make_unique<D>(std::move(b)); ma = std::move(mb); mb.clear(); break;
        case 16: when = "move assignment"; a = std::move(b); ma = std::move(mb); mb.clear(); swap_excluded = true; break;
        case 17: when = "split_at"; {
            b.clear(); mb.clear();
            size_t j = r.below(ma.size() + 1);
            a.split_at(a.begin() + static_cast<std::ptrdiff_t>(j), b);
            auto e = std::next(ma.begin(), static_cast<long>(j));
            mb.insert(e, ma.end());
            ma.erase(e, ma.end());
          } break;
        case 18: when = "transfer_prefix_from"; if (!mb.empty() && (ma.empty() || ma.rbegin()->first < mb.begin()->first)) {
            size_t n = r.below(std::min(mb.size(), N - ma.size()) + 1);
            a.transfer_prefix_from(b, n);
            auto e = std::next(mb.begin(), static_cast<long>(n));
            ma.insert(mb.begin(), e);
            mb.erase(mb.begin(), e);
          } break;
        default: when = "transfer_suffix_from"; if (!mb.empty() && (ma.empty() || mb.rbegin()->first < ma.begin()->first)) {
            size_t n = r.below(std::min(mb.size(), N - ma.size()) + 1);
            a.transfer_suffix_from(b, n);
            auto e = std::next(mb.begin(), static_cast<long>(mb.size() - n));
            ma.insert(e, mb.end());
            mb.erase(e, mb.end());
          } break;
      }
      } catch (const ValueError&) {
        VH_CHECK(armed, "a value error nobody caused");
        count("failed_operations");
      }
      T.throw_in = -1;
#ifdef TVAL_SWAP_ASSIGN
      // the value type's own move assignment hands the old values to the source
      if (swap_excluded) { d[y] = std::make_unique<D>(); }
#endif
      (void)swap_excluded;
      tokens(m, when);
      count("dense_ops");
      state(comb(hash_str(when), comb(ma.size(), mb.size() + 1000)));
      for (int q = 0; q < 3; ++q) audit(*d[static_cast<size_t>(q)], m[static_cast<size_t>(q)], when);
    }
  }
  VH_CHECK(ts().objects.empty(), "%zu values were constructed and never destroyed", ts().objects.size());
  VH_CHECK(ts().live_tokens == 0, "%llu values still own something after every container is gone", (unsigned long long)ts().live_tokens);
  T.ctor = T.copies = T.moves = T.dtor = 0;
}
SCENARIO("dense_" SCN, NQ, NQ * 25, [](Case& c) {
  switch (c.rng.below(4)) {
    case 0: dense<TLEAF>(c); break;
    case 1: dense<1>(c); break;
    case 2: dense<33>(c); break;
    default: dense<5>(c); break;
  }
});

// Ordinary owning values: weak observers see the release.
SCENARIO("shared_" SCN, NQ / 2, NQ * 12, [](Case& c) {
  Rng& r = c.rng;
  using V = std::shared_ptr<uint64_t>;
  using T2 = fc::btree<K, V, TLEAF, TINNER, std::less<K>, SearchMode::TMODE, MonAlloc<std::pair<K, V>>>;
  Ledger led;
  std::map<K, std::weak_ptr<uint64_t>> m;
  {
    T2 t{MonAlloc<std::pair<K, V>>(led)};
    const uint32_t U = r.chance(1, 2) ? 200 : 1500;
    for (unsigned i = 0; i < 1500; ++i) {
      step();
      K k = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
      note("shared op key %s size %zu", Keys<K>::str(k).c_str(), m.size());
      auto e = m.find(k);
      if (r.chance(i / 300 % 2 ? 3 : 6, 10)) {
        auto v = std::make_shared<uint64_t>(i);
        std::weak_ptr<uint64_t> w = v;
        std::weak_ptr<uint64_t> old;
        if (e != m.end()) old = e->second;
        if (r.chance(1, 2)) {
          t.insert_or_assign(k, std::move(v));
          VH_CHECK(e == m.end() || old.expired(), "the replaced value is still owned by somebody");
          m[k] = w;
        } else {
          t.insert(k, v);
          v.reset();
          VH_CHECK(w.expired() == (e != m.end()), "insert of a%s key: value %s", e != m.end() ? "n existing" : " new", w.expired() ? "released" : "kept alive");
          if (e == m.end()) m[k] = w;
        }
      } else if (e != m.end()) {
        auto w = e->second;
        VH_CHECK(w.use_count() == 1, "element owned %ld times", w.use_count());
        t.erase(k);
        VH_CHECK(w.expired(), "the value of the erased key %s is still alive", Keys<K>::str(k).c_str());
        m.erase(e);
        count("weak_observed_releases");
      }
      if (i % 16 == 0)
        for (auto& [kk, w] : m) VH_CHECK(w.use_count() == 1, "value of key %s owned %ld times", Keys<K>::str(kk).c_str(), w.use_count());
    }
    if (r.chance(1, 2)) {
      t.clear();
      for (auto& [kk, w] : m) VH_CHECK(w.expired(), "value of key %s survives clear()", Keys<K>::str(kk).c_str());
    }
  }
  for (auto& [kk, w] : m) VH_CHECK(w.expired(), "value of key %s survives the tree", Keys<K>::str(kk).c_str());
  led.expect_empty("end");
});
}  // namespace
