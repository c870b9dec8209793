// Page failures above the single pool: the multi-size pool, the allocators
// built on pools, the two-pool factory, and trees using them.  A call may fail
// only if mapping regular pages failed (or its own bookkeeping did), it leaves
// no mapping behind, and everything in use stays as it was.
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>

#include "memwrap.hpp"
#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

// ---- operator new with a fault plan (armed only around a call under test)
static long long g_new_fail_in = -1;
static uint64_t g_new_failures = 0;
void* operator new(size_t n) {
  if (!in_harness && g_new_fail_in >= 0 && g_new_fail_in-- == 0) {
    ++g_new_failures;
    throw std::bad_alloc();
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
struct Faults {
  Rng& r;
  MemWorld& w = mem();
  void change() {
    switch (r.below(9)) {
      case 0: w.huge_available = false; break;
      case 1: w.huge_available = true; w.huge_budget = -1; w.fail_huge_in = -1; break;
      case 2: w.huge_available = true; w.huge_budget = static_cast<long long>(r.below(4)) * static_cast<long long>(MemWorld::hpage); break;
      case 3: w.fail_huge_in = static_cast<long long>(r.below(3)); break;
      case 4: w.regular_available = false; break;
      case 5: w.fail_regular_in = static_cast<long long>(r.below(3)); break;
      default: heal(); break;
    }
  }
  void heal() {
    w.regular_available = true;
    w.fail_regular_in = w.fail_huge_in = w.huge_budget = -1;
  }
  bool huge_possible() const { return w.huge_available && w.fail_huge_in < 0 && w.huge_budget < 0; }
};

// Outcome of a call: what it threw and what happened at the page boundary.
struct Outcome {
  bool ok = false, bookkeeping = false, regular_failed = false;
  size_t mapped = 0;             // regions mapped by the call and still there
  std::vector<Attempt> attempts;
};
template <class F>
Outcome call(const char* what, long long newfail, F&& f) {
  MemWorld& w = mem();
  Outcome o;
  const size_t lc = w.live_count();
  const uint64_t nf = g_new_failures;
  w.attempts.clear();
  w.attempts.reserve(64);
  w.log = true;
  g_new_fail_in = newfail;
  try {
    f();
    o.ok = true;
  } catch (const std::bad_alloc&) {
  } catch (const std::exception& e) {
    g_new_fail_in = -1;
    fail("%s: threw %s instead of bad_alloc", what, e.what());
  }
  g_new_fail_in = -1;
  w.log = false;
  o.attempts = w.attempts;
  o.bookkeeping = g_new_failures != nf;
  for (auto& a : o.attempts) o.regular_failed |= !a.ok && !a.huge;
  o.mapped = w.live_count() - lc;
  if (!o.ok) {
    VH_CHECK(o.bookkeeping || o.regular_failed, "%s: failed although mapping regular pages did not fail", what);
    count(o.bookkeeping ? "failed_by_bookkeeping" : "failed_requests");
  }
  return o;
}

struct Blk {
  unsigned char* p;
  size_t n, align;
  uint64_t stamp;
};
static unsigned char pat(uint64_t s, size_t i) { return static_cast<unsigned char>(s * 131 + i * 7 + (s >> 9)); }
static void fill(Blk& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = pat(b.stamp, i); }
static void verify(const Blk& b, const char* when) {
  for (size_t i = 0; i < b.n; ++i) VH_CHECK(b.p[i] == pat(b.stamp, i), "%s: byte %zu of the block %p (%zu bytes, in use) was overwritten", when, i, (void*)b.p, b.n);
}

static size_t some(Rng& r) {
  static const size_t I[] = {1, 100, 4096, 10000, 60000, 1 << 20};
  return I[r.below(6)];
}

// ---- multi-size pool
SCENARIO("multi", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  Faults fl{r};
  w.huge_available = r.chance(1, 2);
  const bool want = r.chance(2, 3);
  const size_t ini = some(r), gro = some(r);
  {
    std::unique_ptr<fc::MultiSizeHugePagePool> pool;
    call("constructing a multi-size pool", -1, [&] { pool = std::make_unique<fc::MultiSizeHugePagePool>(ini, want, gro); });
    std::map<size_t, bool> started;  // class -> with hugepages
    std::vector<Blk> live;
    uint64_t stamp = 0;
    std::vector<size_t> sizes;
    for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) sizes.push_back(r.chance(1, 4) ? 20000 + r.below(60000) : 8 + r.below(4000));
    static const size_t A[] = {8, 16, 64, 64, 256};
    for (unsigned k = 0; k < 300 * c.depth; ++k) {
      step();
      if (r.chance(1, 6)) fl.change();
      if (live.size() < 200 && r.below(100) < 60) {
        const size_t n = r.chance(1, 10) ? 8 + r.below(9000) : sizes[r.below(sizes.size())], al = A[r.below(5)];
        const size_t cls = fc::MultiSizeHugePagePool::get_size_class(n);
        const bool first = !pool->get_pool(cls), hp = fl.huge_possible();
        void* p = nullptr;
        note("multi-size pool: %zu bytes aligned %zu, class %zu (%zu blocks in use)", n, al, cls, live.size());
        const Outcome o = call("a request", r.chance(1, 12) ? static_cast<long long>(r.below(4)) : -1, [&] { p = pool->allocate(n, al); });
        if (first && pool->get_pool(cls)) {
          // the first region mapped decides what the class was started with
          const Attempt* f = nullptr;
          for (auto& a : o.attempts)
            if (a.ok && !f) f = &a;
          VH_CHECK(f, "class %zu has a pool but no memory was mapped for it", cls);
          started[cls] = f->huge;
          VH_CHECK(!f->huge || want, "hugepages were taken though not configured");
          VH_CHECK(!(want && hp && !f->huge), "hugepages are configured and available but class %zu was started without", cls);
          if (want && !f->huge) count("fallback_at_construction");
        } else if (o.ok) {
          VH_CHECK(!first, "a block of class %zu was handed out but the class has no pool", cls);
          for (auto& a : o.attempts) {
            VH_CHECK(started[cls] || !a.huge || !a.ok, "a class using regular pages grew by hugepages");
            if (started[cls] && a.ok && !a.huge) count("fallback_at_growth");
          }
        }
        if (!o.ok) {
          VH_CHECK(o.mapped == 0 || first, "a failed request left %zu new mappings behind", o.mapped);
          VH_CHECK(o.mapped == 0 || pool->get_pool(cls), "a failed request left %zu mappings behind that no size class owns", o.mapped);
          VH_CHECK(o.mapped <= 1, "a failed request left %zu new mappings behind", o.mapped);
          for (auto& b : live) verify(b, "after a failed request");
          if (r.chance(1, 2)) {  // the same request once memory is back
            fl.heal();
            const Outcome again = call("a request repeated with memory available", -1, [&] { p = pool->allocate(n, al); });
            VH_CHECK(again.ok, "the request does not succeed once memory is available");
            if (!started.count(cls)) {
              const Attempt* f = nullptr;
              for (auto& a : again.attempts)
                if (a.ok && !f) f = &a;
              VH_CHECK(f, "class %zu has a pool but no memory was mapped for it", cls);
              started[cls] = f->huge;
            }
            count("recovered_after_failure");
          } else {
            p = nullptr;
          }
        }
        if (p) {
          VH_CHECK(w.containing(p, n), "block %p of %zu bytes is not inside mapped memory", p, n);
          VH_CHECK(reinterpret_cast<uintptr_t>(p) % al == 0, "block %p is not aligned to %zu", p, al);
          Blk b{static_cast<unsigned char*>(p), n, al, ++stamp};
          fill(b);
          live.push_back(b);
          count("allocations");
        }
        state(comb(comb(cls, o.ok), comb(o.attempts.size() * 4 + o.regular_failed * 2 + first, live.size() / 8)));
      } else if (!live.empty()) {
        const size_t i = r.below(live.size());
        verify(live[i], "before deallocate");
        call("deallocate", -1, [&] { pool->deallocate(live[i].p, live[i].n); });
        live[i] = live.back();
        live.pop_back();
        count("deallocations");
      }
      VH_CHECK(pool->active_size_classes() == started.size() && pool->get_pools().size() == started.size(), "%zu size classes are active, %zu were started",
               pool->active_size_classes(), started.size());
      bool any = false;
      for (auto& [cl, h] : started) {
        const fc::HugePagePool* q = pool->get_pool(cl);
        VH_CHECK(q && q->using_hugepages() == h, "the pool of class %zu misreports using_hugepages()", cl);
        any |= h;
      }
      for (auto& [cl, q] : pool->get_pools()) VH_CHECK(q && started.count(cl), "get_pools() shows class %zu, which was not started", cl);
      VH_CHECK(pool->using_hugepages() == any, "using_hugepages() is %d but %s class was started with hugepages", pool->using_hugepages(), any ? "a" : "no");
      count("stats_checks");
    }
    for (auto& b : live) verify(b, "at the end");
  }
  w.expect_all_unmapped("the multi-size pool is gone");
});

// ---- plain hugepage allocators: construction, rebinding, requests
template <size_t N> struct alignas(8) Obj { unsigned char b[N]; };
SCENARIO("plain", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  Faults fl{r};
  w.huge_available = r.chance(1, 2);
  using A1 = fc::HugePageAllocator<Obj<48>>;
  using A2 = fc::HugePageAllocator<Obj<5000>>;
  struct H1 { std::unique_ptr<A1> a; bool huge; };
  struct H2 { std::unique_ptr<A2> a; bool huge; };
  {
    std::vector<H1> xs;
    std::vector<H2> ys;
    struct L { Blk b; size_t who; bool second; };
    std::vector<L> live;
    uint64_t stamp = 0;
    // which pages a pool built by the call was started with
    auto first_ok = [](const Outcome& o) -> const Attempt* {
      for (auto& a : o.attempts)
        if (a.ok) return &a;
      return nullptr;
    };
    for (unsigned k = 0; k < 200 * c.depth; ++k) {
      step();
      if (r.chance(1, 4)) fl.change();
      const bool hp = fl.huge_possible();
      const long long nf = r.chance(1, 10) ? static_cast<long long>(r.below(3)) : -1;
      switch (r.below(10)) {
        case 0: if (xs.size() < 5) {
            const bool want = r.chance(2, 3);
            const size_t i = some(r), g = some(r);
            std::unique_ptr<A1> a;
            note("construct an allocator %zu %d %zu", i, want, g);
            const Outcome o = call("constructing an allocator", nf, [&] { a.reset(new A1(i, want, g)); });
            if (!o.ok) { VH_CHECK(o.mapped == 0, "a failed construction left %zu mappings behind", o.mapped); count("failed_constructions"); break; }
            const Attempt* f = first_ok(o);
            VH_CHECK(f, "an allocator was constructed without mapping memory");
            VH_CHECK(a->using_hugepages() == f->huge, "using_hugepages() is %d, the pool was started with %s pages", a->using_hugepages(), f->huge ? "huge" : "regular");
            VH_CHECK(!(want && hp && !f->huge) && !(f->huge && !want), "the pool was started with the wrong pages");
            if (want && !f->huge) count("fallback_at_construction");
            xs.push_back({std::move(a), f->huge});
          } break;
        case 1: if (!xs.empty() && ys.size() < 5) {
            const size_t i = r.below(xs.size());
            std::unique_ptr<A2> a;
            note("rebind an allocator");
            const Outcome o = call("rebinding an allocator", nf, [&] { a.reset(new A2(*xs[i].a)); });
            if (!o.ok) { VH_CHECK(o.mapped == 0, "a failed rebinding left %zu mappings behind", o.mapped); count("failed_constructions"); break; }
            const Attempt* f = first_ok(o);
            VH_CHECK(f, "a rebound allocator has no memory of its own");
            VH_CHECK(a->using_hugepages() == f->huge, "using_hugepages() is %d, the pool was started with %s pages", a->using_hugepages(), f->huge ? "huge" : "regular");
            VH_CHECK(!(xs[i].huge && hp && !f->huge), "rebinding an allocator on hugepages gave one on regular pages though hugepages are available");
            ys.push_back({std::move(a), f->huge});
            count("rebound");
          } break;
        case 2: if (r.chance(1, 4)) {  // an allocator goes, with its blocks
            const bool second = r.chance(1, 2);
            const size_t n = second ? ys.size() : xs.size();
            if (!n) break;
            const size_t i = r.below(n);
            std::vector<L> rest;
            for (auto& l : live)
              if (!(l.second == second && l.who == i)) rest.push_back({l.b, l.second == second && l.who == n - 1 ? i : l.who, l.second});
            live = rest;
            if (second) { std::swap(ys[i], ys.back()); ys.pop_back(); } else { std::swap(xs[i], xs.back()); xs.pop_back(); }
            for (auto& l : live) verify(l.b, "after another allocator was destroyed");
          } break;
        case 3: if (!live.empty()) {
            const size_t i = r.below(live.size());
            L l = live[i];
            verify(l.b, "before deallocate");
            call("deallocate", -1, [&] { if (l.second) ys[l.who].a->deallocate(reinterpret_cast<Obj<5000>*>(l.b.p), 1); else xs[l.who].a->deallocate(reinterpret_cast<Obj<48>*>(l.b.p), 1); });
            live[i] = live.back();
            live.pop_back();
          } break;
        default: {
          const bool second = r.chance(1, 2);
          const size_t n = second ? ys.size() : xs.size();
          if (!n || live.size() > 150) break;
          const size_t i = r.below(n);
          void* p = nullptr;
          const size_t sz = second ? 5000 : 48;
          note("allocate %zu (%zu in use)", sz, live.size());
          const Outcome o = call("a request", nf, [&] { p = second ? static_cast<void*>(ys[i].a->allocate(1)) : static_cast<void*>(xs[i].a->allocate(1)); });
          if (!o.ok) {
            VH_CHECK(o.mapped == 0, "a failed request left %zu mappings behind", o.mapped);
            for (auto& l : live) verify(l.b, "after a failed request");
            fl.heal();
            const Outcome again = call("a request repeated with memory available", -1, [&] { p = second ? static_cast<void*>(ys[i].a->allocate(1)) : static_cast<void*>(xs[i].a->allocate(1)); });
            VH_CHECK(again.ok, "the request does not succeed once memory is available");
            count("recovered_after_failure");
          } else {
            const bool h = second ? ys[i].huge : xs[i].huge;
            for (auto& a : o.attempts) {
              VH_CHECK(h || !a.huge || !a.ok, "a pool using regular pages grew by hugepages");
              if (h && a.ok && !a.huge) count("fallback_at_growth");
            }
          }
          VH_CHECK(w.containing(p, sz), "block %p of %zu bytes is not inside mapped memory", p, sz);
          Blk b{static_cast<unsigned char*>(p), sz, 8, ++stamp};
          fill(b);
          live.push_back({b, i, second});
          count("allocations");
          state(comb(comb(o.ok, o.attempts.size()), comb(live.size() / 4, xs.size() * 8 + ys.size())));
        }
      }
      for (auto& x : xs) VH_CHECK(x.a->using_hugepages() == x.huge, "using_hugepages() changed after construction");
      for (auto& y : ys) VH_CHECK(y.a->using_hugepages() == y.huge, "using_hugepages() changed after construction");
    }
    for (auto& l : live) verify(l.b, "at the end");
  }
  w.expect_all_unmapped("every allocator is gone");
});

// ---- the two-pool factory
SCENARIO("factory", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  Faults fl{r};
  w.huge_available = r.chance(1, 2);
  using A = fc::PolicyBasedHugePageAllocator<std::pair<int64_t, int64_t>, fc::TwoPoolPolicy>;
  std::vector<A> made;
  for (unsigned k = 0; k < 20; ++k) {
    step();
    fl.change();
    const bool want = r.chance(2, 3), hp = fl.huge_possible();
    const size_t l = some(r), i = some(r);
    std::optional<A> a;
    note("make_two_pool_allocator(%zu, %zu, %d)", l, i, want);
    const Outcome o = call("making a two-pool allocator", r.chance(1, 5) ? static_cast<long long>(r.below(4)) : -1,
                           [&] { a.emplace(fc::make_two_pool_allocator<int64_t, int64_t>(l, i, want)); });
    if (!o.ok) {
      VH_CHECK(o.mapped == 0, "a failed construction left %zu mappings behind", o.mapped);
      count("failed_constructions");
      for (auto& at : o.attempts)
        if (at.ok) { count("half_built_pairs"); break; }
      continue;
    }
    std::vector<bool> huge;
    for (auto& at : o.attempts)
      if (at.ok) huge.push_back(at.huge);
    VH_CHECK(huge.size() == 2 && o.mapped == 2, "two pools were made with %zu regions", huge.size());
    const auto& p = a->get_policy();
    VH_CHECK(p.leaf_pool_ && p.internal_pool_ && p.leaf_pool_ != p.internal_pool_, "the factory did not make two pools");
    const bool lh = p.leaf_pool_->using_hugepages(), ih = p.internal_pool_->using_hugepages();
    VH_CHECK(size_t(lh) + size_t(ih) == size_t(huge[0]) + size_t(huge[1]), "the two pools report %d and %d hugepages, their regions have %d and %d", lh, ih, (int)huge[0], (int)huge[1]);
    VH_CHECK(!(want && hp && !(lh && ih)) && !(!want && (lh || ih)), "the two pools use the wrong pages");
    if (want && !(lh && ih)) count("fallback_at_construction");
    made.push_back(*a);
    count("factories");
  }
  made.clear();
  w.expect_all_unmapped("every two-pool allocator is gone");
});

// ---- trees whose allocator runs out of pages
using PairT = std::pair<int64_t, uint64_t>;
template <class A, class Make>
void tree(Case& c, Make make) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  Faults fl{r};
  w.huge_available = r.chance(1, 2);
  using T = fc::btree<int64_t, uint64_t, 8, 8, std::less<int64_t>, fc::SearchMode::Binary, A>;
  using M = std::map<int64_t, uint64_t>;
  {
    A a = make(r);
    std::vector<std::pair<std::unique_ptr<T>, M>> ts;
    auto audit = [&](T& t, const M& m, const char* when) {
      VH_CHECK(t.size() == m.size(), "%s: size %zu expected %zu", when, (size_t)t.size(), m.size());
      auto it = t.begin();
      for (auto& [k, v] : m) {
        VH_CHECK(it != t.end() && it->first == k && it->second == v, "%s: the element with key %lld is missing or wrong", when, (long long)k);
        ++it;
      }
      VH_CHECK(it == t.end(), "%s: extra elements", when);
      count("audits");
    };
    const uint64_t U = r.chance(1, 2) ? 300 : 3000;
    for (unsigned k = 0; k < 250 * c.depth; ++k) {
      step();
      if (r.chance(1, 3)) fl.change();
      const size_t x = ts.empty() ? 0 : r.below(ts.size()), y = ts.empty() ? 0 : r.below(ts.size());
      const unsigned op = ts.empty() ? 0 : static_cast<unsigned>(r.below(16));
      note("op %u, %zu trees", op, ts.size());
      switch (op) {
        case 0: if (ts.size() < 4) {
            std::unique_ptr<T> t;
            const Outcome o = call("constructing a tree", -1, [&] { t = std::make_unique<T>(a); });
            if (o.ok) ts.push_back({std::move(t), {}}); else count("failed_constructions");
          } break;
        case 1: if (ts.size() < 4) {
            std::unique_ptr<T> t;
            const Outcome o = call("copying a tree", -1, [&] { t = std::make_unique<T>(*ts[x].first); });
            audit(*ts[x].first, ts[x].second, "source of a copy");
            if (o.ok) { M m = ts[x].second; ts.push_back({std::move(t), std::move(m)}); audit(*ts.back().first, ts.back().second, "copy"); } else count("failed_constructions");
          } break;
        case 2: if (x != y) {
            const Outcome o = call("assigning a tree", -1, [&] { *ts[x].first = *ts[y].first; });
            audit(*ts[y].first, ts[y].second, "source of an assignment");
            if (o.ok) ts[x].second = ts[y].second;
            else {  // contents unspecified, but a usable tree
              M m;
              for (auto it = ts[x].first->begin(); it != ts[x].first->end(); ++it) m[it->first] = it->second;
              VH_CHECK(m.size() == ts[x].first->size(), "a tree has %zu elements and reports %zu after a failed assignment", m.size(), (size_t)ts[x].first->size());
              ts[x].second = m;
            }
          } break;
        case 3: {
            const Outcome o = call("clearing a tree", -1, [&] { ts[x].first->clear(); });
            if (o.ok || ts[x].first->size() == 0) ts[x].second.clear();
          } break;
        case 4: if (r.chance(1, 2)) ts.erase(ts.begin() + static_cast<long>(x)); break;
        case 5: case 6: {  // erasures need no memory
            auto& [t, m] = ts[x];
            const bool reg = w.regular_available;
            w.regular_available = false;
            const bool h = w.huge_available;
            w.huge_available = false;
            for (unsigned q = 0; q < 60; ++q) {
              const int64_t kk = static_cast<int64_t>(r.below(U));
              size_t n = 0;
              const Outcome o = call("an erasure", -1, [&] { n = t->erase(kk); });
              VH_CHECK(o.ok && n == m.erase(kk), "an erasure failed or removed the wrong number of elements");
            }
            w.regular_available = reg;
            w.huge_available = h;
            count("erasures_without_memory", 60);
          } break;
        default: {
            auto& [t, m] = ts[x];
            for (unsigned q = 0, n = 10 + static_cast<unsigned>(r.below(80)); q < n; ++q) {
              const int64_t kk = static_cast<int64_t>(r.below(U));
              const uint64_t v = r.next();
              const unsigned how = static_cast<unsigned>(r.below(4));
              const bool had = m.count(kk) != 0;
              if (r.chance(1, 15)) fl.change();
              const Outcome o = call("an insertion", r.chance(1, 30) ? static_cast<long long>(r.below(2)) : -1, [&] {
                switch (how) {
                  case 0: t->insert(kk, v); break;
                  case 1: t->insert_or_assign(kk, v); break;
                  case 2: (*t)[kk] = v; break;
                  default: t->try_emplace(kk, v); break;
                }
              });
              if (o.ok) {
                if (how == 1 || how == 2) m[kk] = v; else m.emplace(kk, v);
              } else {
                VH_CHECK(!had, "an insertion of a key that is present failed for want of memory");
                audit(*t, m, "after an insertion that ran out of pages");
                count("tree_failures");
              }
            }
          }
      }
      for (auto& [t, m] : ts) audit(*t, m, "after an operation");
      state(comb(comb(op, ts.size()), comb(ts.empty() ? 0 : ts[0].second.size() / 4, w.live_count())));
    }
    fl.heal();
    while (!ts.empty()) {
      ts.erase(ts.begin() + static_cast<long>(r.below(ts.size())));
      for (auto& [t, m] : ts) audit(*t, m, "after another tree was destroyed");
    }
  }
  w.expect_all_unmapped("every tree and allocator is gone");
}
SCENARIO("tree_plain", NQ, NQ * 30, [](Case& c) {
  using A = fc::HugePageAllocator<PairT>;
  tree<A>(c, [](Rng& r) { size_t i = some(r), g = some(r); return A(i, r.chance(1, 2), g); });
});
SCENARIO("tree_multi", NQ, NQ * 30, [](Case& c) {
  using A = fc::MultiSizeHugePageAllocator<PairT>;
  tree<A>(c, [](Rng& r) { size_t i = some(r), g = some(r); return A(std::make_shared<fc::MultiSizeHugePagePool>(i, r.chance(1, 2), g)); });
});
SCENARIO("tree_policy", NQ, NQ * 30, [](Case& c) {
  using A = fc::PolicyBasedHugePageAllocator<PairT, fc::TwoPoolPolicy>;
  tree<A>(c, [](Rng& r) { size_t i = some(r), j = some(r), g = some(r), h = some(r); return fc::make_two_pool_allocator<int64_t, uint64_t>(i, j, r.chance(1, 2), g, h); });
});
}  // namespace
