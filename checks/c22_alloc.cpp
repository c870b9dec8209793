// Statistics seen through the allocators, the size classes and trees.
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>

#include "memwrap.hpp"
#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

namespace {
struct Stats {
  size_t allocs = 0, deallocs = 0, growth = 0, bytes = 0, cur = 0, peak = 0;
  uintptr_t region = 0, high = 0;  // current region and end of what was handed out of it
  void took(size_t n) { ++allocs; bytes += n; cur += n; if (cur > peak) peak = cur; }
  void gave(size_t n) { ++deallocs; cur -= n; }
  // the regions mapped since serial s0: the last one is current now
  size_t mapped(uint64_t s0) {
    std::map<uint64_t, uintptr_t> fresh;
    for (auto& [b, m] : mem().maps)
      if (m.serial > s0 && m.live) fresh[m.serial] = b;
    if (!fresh.empty()) region = high = fresh.rbegin()->second;
    return fresh.size();
  }
  void placed(const void* p, size_t n) {
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const Mapping& m = mem().maps.at(region);
    if (a >= m.base && a < m.base + m.rounded && a + n > high) high = a + n;
  }
  size_t tail() const {
    const Mapping& m = mem().maps.at(region);
    return m.base + (m.huge ? m.rounded : m.len) - high;
  }
};
#ifdef ALLOCATOR_STATS
constexpr bool on = true;
#else
constexpr bool on = false;
#endif
// o: a pool or an allocator
template <class O>
void compare(const O& o, const Stats& s, const char* what) {
  const Stats e = on ? s : Stats{};
  VH_CHECK(o.get_allocations() == e.allocs, "%s: %zu allocations reported, %zu made", what, o.get_allocations(), e.allocs);
  VH_CHECK(o.get_deallocations() == e.deallocs, "%s: %zu deallocations reported, %zu made", what, o.get_deallocations(), e.deallocs);
  VH_CHECK(o.get_growth_events() == e.growth, "%s: %zu growth events reported, %zu happened", what, o.get_growth_events(), e.growth);
  VH_CHECK(o.get_bytes_allocated() == e.bytes, "%s: %zu lifetime bytes reported, %zu allocated", what, o.get_bytes_allocated(), e.bytes);
  VH_CHECK(o.get_current_usage() == e.cur, "%s: current usage %zu reported, %zu in use", what, o.get_current_usage(), e.cur);
  VH_CHECK(o.get_peak_usage() == e.peak, "%s: peak usage %zu reported, the maximum was %zu", what, o.get_peak_usage(), e.peak);
  VH_CHECK(o.bytes_remaining() == s.tail(), "%s: bytes_remaining() is %zu, the unused tail of the current region has %zu bytes", what, o.bytes_remaining(), s.tail());
  count("stats_checks");
}
static size_t some(Rng& r) {
  static const size_t I[] = {100, 4096, 10000, 60000, 200000, 1 << 20};
  return I[r.below(6)];
}
struct Faults {
  static void change(Rng& r) {
    MemWorld& w = mem();
    w.regular_available = !r.chance(1, 4);
    w.huge_available = r.chance(1, 2);
  }
};

// ---- allocators: copies report the same pool, rebound ones their own
template <size_t N, size_t AL = 8> struct alignas(AL) Obj { unsigned char b[N]; };
using O1 = Obj<16>;
using O2 = Obj<320, 64>;
using O3 = Obj<4096, 256>;
struct P { Stats s; };
struct Any {
  std::unique_ptr<fc::HugePageAllocator<O1>> a;
  std::unique_ptr<fc::HugePageAllocator<O2>> b;
  std::unique_ptr<fc::HugePageAllocator<O3>> d;
  P* p = nullptr;
  template <class F> auto visit(F&& f) { return a ? f(*a) : b ? f(*b) : f(*d); }
};
SCENARIO("alloc", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    std::vector<std::unique_ptr<P>> pools;
    std::vector<Any> as;
    struct L { void* p; size_t n; P* pool; unsigned kind; };
    std::vector<L> live;
    auto kind = [](const Any& x) { return x.a ? 0u : x.b ? 1u : 2u; };
    auto fresh = [&](uint64_t s0) {
      pools.push_back(std::make_unique<P>());
      VH_CHECK(pools.back()->s.mapped(s0) >= 1, "an allocator was made without memory of its own");
      return pools.back().get();
    };
    for (unsigned k = 0; k < 250 * c.depth; ++k) {
      step();
      const uint64_t s0 = w.serial;
      const unsigned op = as.empty() ? 0 : static_cast<unsigned>(r.below(12));
      const size_t i = as.empty() ? 0 : r.below(as.size());
      note("allocators: op %u (%zu allocators, %zu blocks)", op, as.size(), live.size());
      switch (op) {
        case 0: if (as.size() < 8) {
            Any x;
            const size_t ini = some(r), g = some(r);
            const bool h = r.chance(1, 2);
            switch (r.below(3)) {
              case 0: x.a = std::make_unique<fc::HugePageAllocator<O1>>(ini, h, g); break;
              case 1: x.b = std::make_unique<fc::HugePageAllocator<O2>>(ini, h, g); break;
              default: x.d = std::make_unique<fc::HugePageAllocator<O3>>(ini, h, g); break;
            }
            x.p = fresh(s0);
            as.push_back(std::move(x));
          } break;
        case 1: if (as.size() < 8) {  // copy: the same pool
            Any x;
            if (as[i].a) x.a = std::make_unique<fc::HugePageAllocator<O1>>(*as[i].a);
            else if (as[i].b) x.b = std::make_unique<fc::HugePageAllocator<O2>>(*as[i].b);
            else x.d = std::make_unique<fc::HugePageAllocator<O3>>(*as[i].d);
            x.p = as[i].p;
            as.push_back(std::move(x));
          } break;
        case 2: if (as.size() < 8) {  // rebound: a pool of its own
            Any x;
            if (as[i].a) x.b = std::make_unique<fc::HugePageAllocator<O2>>(*as[i].a);
            else if (as[i].b) x.d = std::make_unique<fc::HugePageAllocator<O3>>(*as[i].b);
            else x.a = std::make_unique<fc::HugePageAllocator<O1>>(*as[i].d);
            x.p = fresh(s0);
            as.push_back(std::move(x));
            count("rebound");
          } break;
        case 3: {  // an allocator goes; its pool too if it was the last
            P* p = as[i].p;
            size_t users = 0;
            for (auto& x : as) users += x.p == p;
            if (users == 1) std::erase_if(live, [&](const L& l) { return l.pool == p; });
            as.erase(as.begin() + static_cast<long>(i));
            if (users == 1) std::erase_if(pools, [&](const auto& q) { return q.get() == p; });
          } break;
        case 4: case 5: case 6: if (!live.empty()) {
            const size_t j = r.below(live.size());
            L l = live[j];
            for (auto& x : as)
              if (x.p == l.pool && kind(x) == l.kind) {
                x.visit([&](auto& al) { al.deallocate(static_cast<typename std::remove_reference_t<decltype(al)>::value_type*>(l.p), 1); });
                break;
              }
            l.pool->s.gave(l.n);
            live[j] = live.back();
            live.pop_back();
          } break;
        default: {
          const bool faulty = r.chance(1, 4);
          if (faulty) Faults::change(r);
          Any& x = as[i];
          if (r.chance(1, 20)) {  // refused requests change nothing
            x.visit([&](auto& al) {
              try { (void)al.allocate(2); } catch (const std::exception&) { count("refused"); }
              VH_CHECK(al.allocate(0) == nullptr, "a request for no objects gave a block");
              return 0;
            });
          } else {
            void* p = nullptr;
            size_t n = 0;
            try {
              p = x.visit([&](auto& al) { n = sizeof(typename std::remove_reference_t<decltype(al)>::value_type); return static_cast<void*>(al.allocate(1)); });
            } catch (const std::bad_alloc&) {
              count("failed_requests");
            }
            if (p) {
              x.p->s.growth += x.p->s.mapped(s0);
              x.p->s.placed(p, n);
              x.p->s.took(n);
              live.push_back({p, n, x.p, kind(x)});
              count("allocations");
            } else {
              VH_CHECK(w.serial == s0, "a failed request mapped memory");
            }
          }
          w.regular_available = true;
        }
      }
      for (auto& x : as) x.visit([&](auto& al) { compare(al, x.p->s, "an allocator"); return 0; });
      state(comb(comb(op, as.size()), comb(pools.size(), live.size())));
    }
  }
  w.expect_all_unmapped("every allocator is gone");
});

// ---- size classes: every class has statistics of its own
SCENARIO("classes", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    const size_t ini = some(r), gro = some(r);
    fc::MultiSizeHugePagePool pool(ini, r.chance(1, 2), gro);
    std::map<size_t, Stats> model;
    struct L { void* p; size_t n; };
    std::vector<L> live;
    for (unsigned k = 0; k < 300 * c.depth; ++k) {
      step();
      note("size classes: %zu classes, %zu blocks", model.size(), live.size());
      if (live.size() < 250 && r.chance(3, 5)) {
        const size_t n = 8 + r.below(r.chance(1, 3) ? 20000 : 1500), al = size_t(8) << r.below(5);
        const size_t cls = fc::MultiSizeHugePagePool::get_size_class(n);
        const bool first = !model.count(cls);
        const uint64_t s0 = w.serial;
        w.regular_available = first || !r.chance(1, 5);
        void* p = nullptr;
        try {
          p = pool.allocate(n, al);
        } catch (const std::bad_alloc&) {
          count("failed_requests");
        }
        w.regular_available = true;
        if (p) {
          Stats& s = model[cls];
          s.growth += s.mapped(s0) - size_t(first);
          s.placed(p, cls);
          s.took(cls);
          live.push_back({p, n});
          count("allocations");
        }
      } else if (!live.empty()) {
        const size_t j = r.below(live.size());
        pool.deallocate(live[j].p, live[j].n);
        model[fc::MultiSizeHugePagePool::get_size_class(live[j].n)].gave(fc::MultiSizeHugePagePool::get_size_class(live[j].n));
        live[j] = live.back();
        live.pop_back();
      }
      for (auto& [cl, s] : model) {
        VH_CHECK(pool.get_pool(cl), "class %zu was used but has no pool", cl);
        compare(*pool.get_pool(cl), s, "a size class");
      }
      state(comb(model.size(), live.size()));
    }
    count("class_cases");
  }
  w.expect_all_unmapped("the multi-size pool is gone");
});

// ---- trees: what their pools report adds up, and comes back to nothing
SCENARIO("trees", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    using PairT = std::pair<int64_t, uint64_t>;
    auto mp = std::make_shared<fc::MultiSizeHugePagePool>(some(r), r.chance(1, 2), some(r));
    auto leaf = std::make_shared<fc::HugePagePool>(some(r), r.chance(1, 2), some(r)), inner = std::make_shared<fc::HugePagePool>(some(r), r.chance(1, 2), some(r));
    using MA = fc::MultiSizeHugePageAllocator<PairT>;
    using PA = fc::PolicyBasedHugePageAllocator<PairT, fc::TwoPoolPolicy>;
    MA ma(mp);
    PA pa(fc::TwoPoolPolicy(leaf, inner));
    using MT = fc::btree<int64_t, uint64_t, 8, 8, std::less<int64_t>, fc::SearchMode::Binary, MA>;
    using PT = fc::btree<int64_t, uint64_t, 8, 8, std::less<int64_t>, fc::SearchMode::Binary, PA>;
    std::vector<std::unique_ptr<MT>> ms;
    std::vector<std::unique_ptr<PT>> ps;
    std::map<const void*, std::pair<size_t, size_t>> peaks;  // pool -> (unit, highest usage seen)
    auto check = [&](const fc::HugePagePool& p, const char* what) {
      if (!on) {
        VH_CHECK(p.get_allocations() + p.get_deallocations() + p.get_growth_events() + p.get_bytes_allocated() + p.get_current_usage() + p.get_peak_usage() == 0,
                 "%s: statistics are reported though not compiled in", what);
        return;
      }
      auto& [unit, peak] = peaks[&p];
      const size_t a = p.get_allocations(), d = p.get_deallocations();
      if (a && !unit) unit = p.get_bytes_allocated() / a;
      VH_CHECK(d <= a, "%s: %zu deallocations of %zu allocations", what, d, a);
      VH_CHECK(p.get_bytes_allocated() == a * unit, "%s: %zu blocks of %zu bytes and %zu lifetime bytes", what, a, unit, p.get_bytes_allocated());
      VH_CHECK(p.get_current_usage() == (a - d) * unit, "%s: %zu blocks of %zu bytes in use and a usage of %zu", what, a - d, unit, p.get_current_usage());
      if (p.get_current_usage() > peak) peak = p.get_current_usage();
      VH_CHECK(p.get_peak_usage() >= peak, "%s: peak usage %zu reported, %zu bytes were in use", what, p.get_peak_usage(), peak);
      count("stats_checks");
    };
    auto all = [&] {
      for (auto& [cl, p] : mp->get_pools()) check(*p, "a class of the tree's pool");
      check(*leaf, "the leaf pool");
      check(*inner, "the internal pool");
    };
    auto work = [&](auto& ts, auto& al) {
      using T = typename std::remove_reference_t<decltype(ts)>::value_type::element_type;
      const unsigned op = ts.empty() ? 0 : static_cast<unsigned>(r.below(10));
      const size_t x = ts.empty() ? 0 : r.below(ts.size()), y = ts.empty() ? 0 : r.below(ts.size());
      switch (op) {
        case 0: if (ts.size() < 4) ts.push_back(std::make_unique<T>(al)); break;
        case 1: if (ts.size() < 4) ts.push_back(std::make_unique<T>(*ts[x])); break;
        case 2: *ts[x] = *ts[y]; break;
        case 3: if (x != y) *ts[x] = std::move(*ts[y]); break;
        case 4: ts[x]->swap(*ts[y]); break;
        case 5: ts[x]->clear(); break;
        case 6: ts.erase(ts.begin() + static_cast<long>(x)); break;
        default:
          for (unsigned q = 0, n = 20 + static_cast<unsigned>(r.below(200)), g = static_cast<unsigned>(r.below(100)); q < n; ++q) {
            const int64_t key = static_cast<int64_t>(r.below(1500));
            if (r.below(100) < g) ts[x]->insert(key, 1); else ts[x]->erase(key);
          }
      }
      state(comb(op, ts.size()));
    };
    for (unsigned k = 0; k < 80 * c.depth; ++k) {
      step();
      note("trees: %zu and %zu", ms.size(), ps.size());
      if (r.chance(1, 2)) work(ms, ma); else work(ps, pa);
      all();
    }
    ms.clear();
    ps.clear();
    all();
    if (on) {
      for (auto& [cl, p] : mp->get_pools())
        VH_CHECK(p->get_current_usage() == 0 && p->get_allocations() == p->get_deallocations(), "class %zu reports %zu bytes in use after every tree is gone", cl, p->get_current_usage());
      VH_CHECK(leaf->get_current_usage() == 0 && inner->get_current_usage() == 0, "%zu and %zu bytes are reported in use after every tree is gone", leaf->get_current_usage(), inner->get_current_usage());
    }
    count("tree_cases");
  }
  w.expect_all_unmapped("every pool is gone");
});
}  // namespace
