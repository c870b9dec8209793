// Concurrent readers of one container and concurrent users of separate
// containers, under ThreadSanitizer, with per-thread comparison with a model.
#include <sched.h>

#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>
#include <optional>
#include <thread>

#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;
using fc::SearchMode;

namespace {
// Which thread did which operation, in observed order: relaxed atomics only, so
// the log orders nothing for the race detector.
struct Trace {
  static constexpr unsigned CAP = 1 << 14;
  std::atomic<uint32_t> n{0};
  std::atomic<uint16_t> ev[CAP];
  void add(unsigned thread, unsigned op) {
    uint32_t i = n.fetch_add(1, std::memory_order_relaxed);
    if (i < CAP) ev[i].store(static_cast<uint16_t>(thread << 8 | op), std::memory_order_relaxed);
  }
  // distinct windows of 6 consecutive (thread, operation) events
  void harvest() {
    uint32_t m = n.load(std::memory_order_relaxed);
    if (m > CAP) m = CAP;
    unsigned switches = 0;
    for (uint32_t i = 0; i + 6 <= m; ++i) {
      uint64_t h = 7;
      bool mixed = false;
      for (uint32_t k = 0; k < 6; ++k) {
        uint16_t e = ev[i + k].load(std::memory_order_relaxed);
        h = comb(h, e);
        if ((e >> 8) != (ev[i].load(std::memory_order_relaxed) >> 8)) mixed = true;
      }
      if (mixed) { state(h); ++switches; }
    }
    count("interleaved_windows", switches);
    n.store(0, std::memory_order_relaxed);
  }
};
Trace& trace() { static auto* t = new Trace; return *t; }

void jitter(Rng& r) {
  switch (r.below(24)) {
    case 0: sched_yield(); break;
    case 1: for (volatile unsigned i = 0; i < 400; ++i) {} break;
    default: break;
  }
}
// All threads start together, run f(thread, rng), and are joined.
template <class F>
void together(Rng& r, unsigned n, F&& f) {
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> ts;
  std::vector<uint64_t> seeds(n);
  for (auto& s : seeds) s = r.next();
  for (unsigned t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) sched_yield();
      Rng mine(seeds[t]);
      f(t, mine);
    });
  for (auto& t : ts) t.join();
  trace().harvest();
  count("phases");
  count("threads", n);
}

using K = TKEY;
using V = TVALUE;
using Cmp = TCMP;
using PairT = std::pair<K, V>;
using Model = std::map<K, V, Cmp>;
K key(Rng& r, uint32_t U) { return Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r); }

template <class It, class T, class M>
void same_pos(It it, T& t, typename M::const_iterator e, const M& m, const char* what) {
  VH_CHECK((it == t.end()) == (e == m.end()), "concurrent %s: found %d, expected %d", what, it != t.end(), e != m.end());
  if (e != m.end()) VH_CHECK(same(it->first, e->first) && same(it->second, e->second), "concurrent %s designates another element", what);
}
// One read-only operation on a btree shared by all threads.
template <class T>
unsigned read_tree(T& t, const Model& m, uint32_t U, Rng& r) {
  const T& ct = t;
  const K k = key(r, U);
  auto e = m.find(k);
  unsigned op = static_cast<unsigned>(r.below(17));
  switch (op) {
    case 0: same_pos(ct.find(k), ct, e, m, "find"); break;
    case 1: same_pos(t.find(k), t, e, m, "find"); break;
    case 2: VH_CHECK(ct.contains(k) == (e != m.end()) && ct.count(k) == (e != m.end() ? 1u : 0u), "concurrent contains/count"); break;
    case 3: same_pos(t.lower_bound(k), ct, m.lower_bound(k), m, "lower_bound"); break;
    case 4: same_pos(t.upper_bound(k), ct, m.upper_bound(k), m, "upper_bound"); break;
    case 5: { auto p = t.equal_range(k); same_pos(p.first, ct, m.lower_bound(k), m, "equal_range.first"); same_pos(p.second, ct, m.upper_bound(k), m, "equal_range.second"); break; }
    case 6: same_pos(t.lower_bound(k), t, m.lower_bound(k), m, "lower_bound"); same_pos(t.upper_bound(k), t, m.upper_bound(k), m, "upper_bound"); break;
    case 7: {
      bool threw = false;
      try { VH_CHECK(same(ct.at(k), e == m.end() ? Vals<V>::make(0) : e->second), "concurrent at returned another value"); }
      catch (const std::out_of_range&) { threw = true; }
      VH_CHECK(threw == (e == m.end()), "concurrent at threw %d for a key present %d", threw, e != m.end());
      break;
    }
    case 8: VH_CHECK(ct.size() == m.size() && ct.empty() == m.empty(), "concurrent size"); break;
    case 9: {  // forward from the beginning
      auto it = ct.begin();
      size_t left = 300;
      for (auto x = m.begin(); x != m.end() && left--; ++x, ++it) VH_CHECK(it != ct.end() && same(it->first, x->first) && same(it->second, x->second), "concurrent iteration differs");
      break;
    }
    case 10: {  // backward from the end
      auto it = ct.end();
      size_t left = 300;
      for (auto x = m.rbegin(); x != m.rend() && left--; ++x) { --it; VH_CHECK(same(it->first, x->first) && same(it->second, x->second), "concurrent backward iteration differs"); }
      break;
    }
    case 11: {
      auto it = ct.rbegin();
      size_t left = 200;
      for (auto x = m.rbegin(); x != m.rend() && left--; ++x, ++it) VH_CHECK(it != ct.rend() && same(it->first, x->first), "concurrent reverse iteration differs");
      break;
    }
    case 12: case 13: {  // walk from a found position
      auto it = t.lower_bound(k);
      auto x = m.lower_bound(k);
      for (unsigned n = 0; n < 40; ++n) {
        if (r.chance(2, 3)) { if (x == m.end()) break; ++x; it++; }
        else { if (x == m.begin()) break; --x; it--; }
        same_pos(it, ct, x, m, "walk");
      }
      break;
    }
    case 14: VH_CHECK(ct.key_comp()(k, k) == false, "key_comp"); (void)t.value_comp(); break;
    case 15:
      if constexpr (std::is_same_v<typename T::allocator_type, std::allocator<PairT>>) {
        if (m.size() < 1500 && r.chance(1, 4)) {  // copy the shared tree, change the copy
          T c(ct);
          c.erase(k);
          c.insert_or_assign(key(r, U), Vals<V>::make(r.next() & 0xffff));
          if (m.size()) c.erase(c.begin());
          VH_CHECK(ct.size() == m.size(), "changing a copy changed the source");
        }
        (void)ct.get_allocator();
      }
      break;
    default: VH_CHECK((t.begin() == t.end()) == m.empty() && (ct.cbegin() == ct.cend()) == m.empty() && (t.rbegin() == t.rend()) == m.empty(), "begin/end"); break;
  }
  return op;
}
// One modification of a tree (by the only thread using it).
template <class T>
unsigned write_tree(T& t, Model& m, uint32_t U, Rng& r, size_t cap) {
  const K k = key(r, U);
  const V v = Vals<V>::make(r.next() & 0xffffff);
  unsigned op = static_cast<unsigned>(r.below(m.size() > cap ? 40 : 14));
  switch (op) {
    case 0: case 1: case 2: {
      auto [it, f] = t.insert(k, v);
      VH_CHECK(f == m.emplace(k, v).second && same(it->second, m.find(k)->second), "insert in one of several threads");
      break;
    }
    case 3: case 4: { auto [it, f] = t.insert_or_assign(k, v); VH_CHECK(f == m.insert_or_assign(k, v).second && same(it->second, v), "insert_or_assign in one of several threads"); break; }
    case 5: t[k] = v; m[k] = v; break;
    case 6: { auto f = t.emplace(k, v).second; VH_CHECK(f == m.emplace(k, v).second, "emplace in one of several threads"); break; }
    case 7: VH_CHECK(t.try_emplace(k, v).second == m.try_emplace(k, v).second, "try_emplace in one of several threads"); break;
    case 8: if (r.chance(1, 60)) { t.clear(); m.clear(); break; } [[fallthrough]];
    case 9: if (auto it = t.lower_bound(k); it != t.end()) {
      auto n = t.erase(it);
      auto e = m.erase(m.lower_bound(k));
      VH_CHECK((n == t.end()) == (e == m.end()) && (e == m.end() || same(n->first, e->first)), "erase(it) in one of several threads");
      break;
    } [[fallthrough]];
    case 10: if (r.chance(1, 30)) {
      auto a = t.lower_bound(k), b = a;
      auto x = m.lower_bound(k), y = x;
      for (unsigned n = 0; n < 50 && y != m.end(); ++n) { ++y; ++b; }
      t.erase(a, b);
      m.erase(x, y);
      break;
    } [[fallthrough]];
    default: VH_CHECK(t.erase(k) == m.erase(k), "erase(key) in one of several threads"); break;
  }
  VH_CHECK(t.size() == m.size(), "size in one of several threads: %zu expected %zu", (size_t)t.size(), m.size());
  return 32 + (op < 14 ? op : 10);
}
template <class T>
void audit(const T& t, const Model& m, const char* when) {
  VH_CHECK(t.size() == m.size(), "%s: size %zu expected %zu", when, (size_t)t.size(), m.size());
  auto it = t.begin();
  for (auto& e : m) { VH_CHECK(it != t.end() && same(it->first, e.first) && same(it->second, e.second), "%s: contents differ", when); ++it; }
  VH_CHECK(it == t.end(), "%s: extra elements", when);
}

template <class A>
using Tree = fc::btree<K, V, TLEAF, TINNER, Cmp, SearchMode::TMODE, A>;

struct Std { using A = std::allocator<PairT>; static A make(Rng&) { return {}; } };
struct Huge { using A = fc::HugePageAllocator<PairT>; static A make(Rng& r) { return A(r.chance(1, 2) ? 4096 : 1 << 18, r.chance(1, 2), 1 << 16); } };
struct Multi {
  using A = fc::MultiSizeHugePageAllocator<PairT>;
  static A make(Rng& r) { return A(std::make_shared<fc::MultiSizeHugePagePool>(1 << 16, r.chance(1, 2), 1 << 15)); }
};
struct Policy {
  using A = fc::PolicyBasedHugePageAllocator<PairT, fc::TwoPoolPolicy>;
  static A make(Rng& r) {
    const bool h = r.chance(1, 2);
    return A(fc::TwoPoolPolicy(std::make_shared<fc::HugePagePool>(1 << 16, h, 1 << 16), std::make_shared<fc::HugePagePool>(1 << 15, h, 1 << 15)));
  }
};

// Readers share one tree; between phases the main thread changes it.
template <class P>
void shared_tree(Case& c) {
  using T = Tree<typename P::A>;
  Rng& r = c.rng;
  uint32_t U = static_cast<uint32_t>(r.chance(1, 3) ? 60 + r.below(200) : 1000 + r.below(4000));
  if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
  T t(P::make(r));
  Model m;
  uint64_t reads = 0;
  for (int round = 0; round < 4; ++round) {
    const unsigned w = static_cast<unsigned>(round == 0 ? r.below(3) * 400 : r.below(1200));
    for (unsigned i = 0; i < w; ++i) write_tree(t, m, U, r, U / 2);
    step();
    note("shared tree of %zu elements, round %d", m.size(), round);
    const unsigned n = 2 + static_cast<unsigned>(r.below(4));
    const unsigned per = 150 + static_cast<unsigned>(r.below(100));
    auto shared_it = t.lower_bound(key(r, U));  // copied by the readers
    std::vector<uint64_t> done(n);
    together(r, n, [&](unsigned th, Rng& mr) {
      auto mine = shared_it;
      for (unsigned i = 0; i < per; ++i) {
        trace().add(th, read_tree(t, m, U, mr));
        if (mine != t.end() && mr.chance(1, 4)) ++mine;
        jitter(mr);
        ++done[th];
      }
    });
    for (auto d : done) reads += d;
    audit(t, m, "after a phase of readers");
  }
  count("shared_reads", reads);
}

// Every thread has trees of its own (and hands one over at the end).
template <class P>
void own_trees(Case& c) {
  using T = Tree<typename P::A>;
  Rng& r = c.rng;
  const uint32_t U0 = static_cast<uint32_t>(200 + r.below(3000));
  const uint32_t U = U0 > Keys<K>::max_universe ? Keys<K>::max_universe : U0;
  const unsigned n = 2 + static_cast<unsigned>(r.below(4));
  struct Own { std::unique_ptr<T> t; Model m; uint64_t ops = 0; };
  std::vector<Own> own(n);
  std::vector<uint64_t> ops(n);
  for (int round = 0; round < 3; ++round) {
    step();
    note("separate trees, round %d, %u threads", round, n);
    together(r, n, [&](unsigned th, Rng& mr) {
      // thread th works on the tree another thread left behind
      Own& o = own[(th + static_cast<unsigned>(round)) % n];
      if (!o.t) o.t = std::make_unique<T>(P::make(mr));
      const unsigned per = 250 + static_cast<unsigned>(mr.below(250));
      for (unsigned i = 0; i < per; ++i) {
        unsigned op;
        if (mr.chance(1, 3)) op = read_tree(*o.t, o.m, U, mr);
        else op = write_tree(*o.t, o.m, U, mr, U / 3);
        trace().add(th, op);
        jitter(mr);
        ++ops[th];
        if (mr.chance(1, 120)) {
          // short-lived trees, often at the same address
          for (int k = 0; k < 2; ++k) {
            T tmp(P::make(mr));
            Model mm;
            for (unsigned j = 0; j < 40; ++j) write_tree(tmp, mm, U, mr, U);
            audit(tmp, mm, "a short-lived tree");
          }
        }
        if (mr.chance(1, 150)) {
          T nt(std::move(*o.t));
          VH_CHECK(o.t->empty(), "a moved-from tree is not empty");
          *o.t = std::move(nt);
        }
        if (mr.chance(1, 200)) { T cp(*o.t); audit(cp, o.m, "a copy"); o.t->swap(cp); }
      }
      audit(*o.t, o.m, "a tree of one of several threads");
      if (mr.chance(1, 5)) { o.t.reset(); o.m.clear(); }
    });
  }
  for (auto x : ops) count("own_ops", x);
}

// dense_map: shared readers, then separate writers.
template <size_t N>
void dense(Case& c) {
  using D = fc::dense_map<K, V, N, Cmp, SearchMode::TMODE>;
  Rng& r = c.rng;
  uint32_t U = static_cast<uint32_t>(2 * N + 3);
  if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
  auto d = std::make_unique<D>();
  Model m;
  for (int round = 0; round < 4; ++round) {
    for (unsigned i = 0, w = static_cast<unsigned>(r.below(3 * N)); i < w; ++i) {
      const K k = key(r, U);
      const V v = Vals<V>::make(i);
      if (r.chance(2, 3)) { if (m.size() < N || m.count(k)) { d->insert_or_assign(k, v); m.insert_or_assign(k, v); } }
      else { d->erase(k); m.erase(k); }
    }
    step();
    note("shared dense_map, %zu entries", m.size());
    const unsigned n = 2 + static_cast<unsigned>(r.below(4));
    std::vector<uint64_t> done(n);
    together(r, n, [&](unsigned th, Rng& mr) {
      D& x = *d;
      const D& cx = x;
      for (unsigned i = 0; i < 200; ++i) {
        const K k = key(mr, U);
        const unsigned op = static_cast<unsigned>(mr.below(11));
        switch (op) {
          case 0: same_pos(cx.find(k), cx, m.find(k), m, "dense_map find"); break;
          case 1: same_pos(x.find(k), x, m.find(k), m, "dense_map find"); break;
          case 2: same_pos(cx.lower_bound(k), cx, m.lower_bound(k), m, "dense_map lower_bound"); break;
          case 3: same_pos(cx.upper_bound(k), cx, m.upper_bound(k), m, "dense_map upper_bound"); break;
          case 4: { auto it = cx.begin(); for (auto& e : m) { VH_CHECK(same(it->first, e.first) && same((*it).second, e.second), "concurrent dense_map iteration"); ++it; } break; }
          case 5: { D cp(cx); VH_CHECK(cp.size() == m.size(), "copy of a shared dense_map"); if (!cp.empty()) cp.erase(cp.begin()); break; }
          case 6: { auto it = cx.rbegin(); for (auto e = m.rbegin(); e != m.rend(); ++e, ++it) VH_CHECK(same(it->first, e->first) && same(it->second, e->second), "concurrent reverse dense_map iteration"); VH_CHECK(it == cx.rend() && it == cx.crend(), "end of reverse dense_map iteration"); break; }
          case 7: if (!m.empty()) {  // random access
            const auto i = static_cast<std::ptrdiff_t>(mr.below(m.size()));
            auto e = std::next(m.begin(), i);
            VH_CHECK(same((cx.begin() + i)->first, e->first) && same(x.begin()[i].second, e->second) && same((cx.end() - (cx.end() - cx.begin() - i))->second, e->second), "concurrent random access in a dense_map");
            break;
          } [[fallthrough]];
          case 8: same_pos(x.lower_bound(k), x, m.lower_bound(k), m, "dense_map lower_bound"); same_pos(x.upper_bound(k), x, m.upper_bound(k), m, "dense_map upper_bound"); break;
          case 9: {  // a copy of the shared map is split; the parts hold what the source shows
            D cp, hi;
            cp = cx;
            const auto i = static_cast<std::ptrdiff_t>(mr.below(m.size() + 1));
            cp.split_at(cp.begin() + i, hi);
            VH_CHECK(cp.size() == static_cast<size_t>(i) && hi.size() == m.size() - static_cast<size_t>(i), "split of a copy of a shared dense_map");
            if (!hi.empty()) VH_CHECK(same(hi.begin()->first, std::next(m.begin(), i)->first) && same(hi.begin()->second, std::next(m.begin(), i)->second), "split of a copy of a shared dense_map");
            break;
          }
          default: VH_CHECK(cx.size() == m.size() && cx.full() == (m.size() == N) && x.end() - x.begin() == static_cast<long>(m.size()), "concurrent dense_map size"); break;
        }
        trace().add(th, 64 + op);
        jitter(mr);
        ++done[th];
      }
    });
    for (auto x : done) count("dense_reads", x);
  }
  together(r, 4, [&](unsigned th, Rng& mr) {
    auto x = std::make_unique<D>();
    Model mm;
    for (unsigned i = 0; i < 400; ++i) {
      const K k = key(mr, U);
      const V v = Vals<V>::make(i);
      const bool fits = mm.size() < N;
      switch (mr.below(10)) {
        case 0: case 1: case 2: if (fits || mm.count(k)) VH_CHECK(x->insert_or_assign(k, v).second == mm.insert_or_assign(k, v).second, "insertion into a separate dense_map"); break;
        case 3: case 4: if (fits) VH_CHECK(x->insert(k, v).second == mm.insert({k, v}).second, "insert into a separate dense_map"); break;
        case 5: if (fits) VH_CHECK(x->try_emplace(k, v).second == mm.try_emplace(k, v).second, "try_emplace into a separate dense_map"); break;
        case 6: if (fits || mm.count(k)) { (*x)[k] = v; mm[k] = v; }
          else {
            bool threw = false;
            try { x->insert(k, v); } catch (const std::runtime_error&) { threw = true; }
            VH_CHECK(threw, "a full separate dense_map accepted a key");
          }
          break;
        case 7: if (auto it = x->lower_bound(k); it != x->end()) { it = x->erase(it); auto e = mm.erase(mm.lower_bound(k)); same_pos(it, *x, typename Model::const_iterator(e), mm, "erase(it) in a separate dense_map"); break; } [[fallthrough]];
        case 8: {  // out to other maps and back
          D hi, lo;
          const auto cut = static_cast<std::ptrdiff_t>(mr.below(mm.size() + 1));
          x->split_at(x->begin() + cut, hi);
          const size_t a = x->empty() ? 0 : static_cast<size_t>(mr.below(x->size() + 1));
          hi.transfer_suffix_from(*x, a);
          lo.transfer_prefix_from(*x, x->size());
          lo.transfer_prefix_from(hi, hi.size());
          if (mr.chance(1, 2)) *x = std::move(lo);
          else { D cp(lo); *x = cp; }
          auto e = mm.begin();
          for (auto it = x->begin(); it != x->end(); ++it, ++e) VH_CHECK(same(it->first, e->first) && same(it->second, e->second), "entries after transfers between a thread's own dense_maps");
          break;
        }
        default: VH_CHECK(x->erase(k) == mm.erase(k), "erasure from a separate dense_map");
      }
      VH_CHECK(x->size() == mm.size(), "size of a separate dense_map");
      same_pos(x->lower_bound(k), *x, typename Model::const_iterator(mm.lower_bound(k)), mm, "separate dense_map lower_bound");
      trace().add(th, 80);
      jitter(mr);
    }
  });
  count("dense_separate_ops", 1600);
}

// Separate pools used directly.
void pools(Case& c) {
  Rng& r = c.rng;
  step();
  note("separate pools");
  std::vector<uint64_t> n(4);
  together(r, 4, [&](unsigned th, Rng& mr) {
    for (int k = 0; k < 4; ++k) {
      std::optional<fc::HugePagePool> hp;
      std::optional<fc::MultiSizeHugePagePool> mp;
      if (mr.chance(1, 2)) hp.emplace(1 << 15, mr.chance(1, 2), 1 << 14);
      else mp.emplace(1 << 15, mr.chance(1, 2), 1 << 14);
      struct B { unsigned char* p; size_t s; unsigned char tag; };
      std::vector<B> live;
      for (unsigned i = 0; i < 150; ++i) {
        if (live.size() < 30 && mr.chance(3, 5)) {
          const size_t s = size_t(8) << mr.below(8);
          auto* p = static_cast<unsigned char*>(hp ? hp->allocate(s, 8) : mp->allocate(s, 8));
          const unsigned char tag = static_cast<unsigned char>(mr.next());
          memset(p, tag, s);
          live.push_back({p, s, tag});
        } else if (!live.empty()) {
          const size_t j = static_cast<size_t>(mr.below(live.size()));
          B b = live[j];
          for (size_t q = 0; q < b.s; q += 7) VH_CHECK(b.p[q] == b.tag, "a block of one thread's pool was overwritten");
          if (hp) hp->deallocate(b.p, b.s);
          else mp->deallocate(b.p, b.s);
          live[j] = live.back();
          live.pop_back();
        }
        trace().add(th, 96);
        ++n[th];
      }
    }
  });
  for (auto x : n) count("pool_ops", x);
}

SCENARIO("shared_" SCN, NQ, NQ * 20, [](Case& c) {
  switch (c.index % 4) {
    case 0: case 1: shared_tree<Std>(c); break;
    case 2: shared_tree<Multi>(c); break;
    default: shared_tree<Policy>(c); break;
  }
});
SCENARIO("own_" SCN, NQ, NQ * 20, [](Case& c) {
  switch (c.index % 4) {
    case 0: own_trees<Std>(c); break;
    case 1: own_trees<Huge>(c); break;
    case 2: own_trees<Multi>(c); break;
    default: own_trees<Policy>(c); break;
  }
});
SCENARIO("dense_" SCN, NQ, NQ * 20, [](Case& c) {
  if (c.index % 2) dense<TLEAF>(c);
  else dense<40>(c);
});
SCENARIO("pools_" SCN, NQ, NQ * 20, pools);
}  // namespace
