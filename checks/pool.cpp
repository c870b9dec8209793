// Pool monitors.  One driver, four properties: MON selects whose verdicts are
// given (19 placement, 20 reuse and release, 21 page failures, 22 statistics).
// When another property's monitor trips, that property's own check reports it;
// here the case goes on, or is abandoned where going on is meaningless.
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <memory>
#include <new>
#include <vector>

#include "memwrap.hpp"
#include "vh.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

// ---- operator new with a fault plan (only while a pool call is running)
static thread_local long long g_new_fail_in = -1;
static uint64_t g_new_failures = 0;
void* operator new(size_t n) {
  if (!in_harness && g_new_fail_in >= 0 && g_new_fail_in-- == 0) {
    ++g_new_failures;
    throw std::bad_alloc();
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
struct Abandon {};
#define CHK(prop, cond, ...)                       \
  do {                                             \
    if (!(cond)) {                                 \
      if ((prop) == MON) ::vh::fail(__VA_ARGS__);  \
      if ((prop) == 19) {                          \
        count("abandoned_cases");                  \
        throw Abandon{};                           \
      }                                            \
    }                                              \
  } while (0)

// Set of disjoint address intervals.
struct Intervals {
  std::map<uintptr_t, uintptr_t> m;
  void add(uintptr_t a, uintptr_t b) {
    auto it = m.lower_bound(a);
    if (it != m.begin() && std::prev(it)->second >= a) {
      --it;
      a = it->first;
    }
    while (it != m.end() && it->first <= b) {
      if (it->second > b) b = it->second;
      it = m.erase(it);
    }
    m[a] = b;
  }
  bool covers(uintptr_t a, uintptr_t b) const {
    auto it = m.upper_bound(a);
    if (it == m.begin()) return false;
    --it;
    return it->second >= b;
  }
};

struct Blk {
  unsigned char* p;
  size_t bytes, align;
  uint64_t stamp;
  int pool;
};

// All blocks in use, of all pools.
struct Shadow {
  std::map<uintptr_t, Blk> live;
  uint64_t stamps = 0;

  template <class F>
  static void spans(const Blk& b, F&& f) {
    if (b.bytes <= 32768) {
      f(size_t(0), b.bytes);
    } else {
      f(size_t(0), size_t(8192));
      f(b.bytes / 2, b.bytes / 2 + 4096);
      f(b.bytes - 8192, b.bytes);
    }
  }
  static unsigned char pat(uint64_t s, size_t i) { return static_cast<unsigned char>((s * 0x9e3779b97f4a7c15ULL >> 32) + i * 7); }
  void fill(Blk& b) {
    b.stamp = ++stamps;
    spans(b, [&](size_t x, size_t y) { for (size_t i = x; i < y; ++i) b.p[i] = pat(b.stamp, i); });
  }
  void verify(const Blk& b, const char* when) {
    spans(b, [&](size_t x, size_t y) {
      for (size_t i = x; i < y; ++i)
        CHK(19, b.p[i] == pat(b.stamp, i), "%s: byte %zu of the block %p (%zu bytes, in use) was overwritten", when, i, (void*)b.p, b.bytes);
    });
    count("blocks_verified");
  }
};

struct Stats {
  size_t allocs = 0, deallocs = 0, growth = 0, bytes = 0, cur = 0, peak = 0;
};

struct Pool {
  std::unique_ptr<fc::HugePagePool> p;
  int id = 0;
  size_t initial = 0, growth = 0;
  bool want_huge = false, started_huge = false;
  std::vector<uintptr_t> regions;              // bases, in order of mapping
  uintptr_t high = 0;                          // end of the memory handed out of the current region
  Intervals used;                              // memory ever handed out
  std::map<std::pair<size_t, size_t>, size_t> freed;  // (bytes, align) -> freed blocks requested so
  Stats st;
};

struct Driver {
  Case& c;
  Rng& r;
  Shadow sh;
  std::vector<std::unique_ptr<Pool>> pools;
  int next_id = 0;
  std::vector<size_t> sizes, aligns;
  uintptr_t last_addr = 0;
  size_t forced_growth = 0;
  MemWorld& w = mem();

  explicit Driver(Case& k) : c(k), r(k.rng) {
    w.reset(k.seed);
    static const size_t S[] = {8, 16, 24, 40, 64, 72, 96, 128, 192, 256, 500, 777, 1024, 2048, 3000, 4096, 5000, 9000, 40000, 150000};
    static const size_t A[] = {1, 8, 16, 32, 64, 64, 64, 128, 256, 1024, 4096, 8192, 32768};
    const size_t ns = 1 + r.below(6), na = 1 + r.below(4);
    const size_t top = r.chance(1, 5) ? 20 : r.chance(1, 2) ? 14 : 9;
    for (size_t i = 0; i < ns; ++i) sizes.push_back(r.chance(1, 5) ? 8 + r.below(600) : S[r.below(top)]);
    const size_t atop = r.chance(1, 4) ? 13 : 8;
    if (MON == 21 && r.chance(1, 3)) sizes = {40000 + r.below(100000), 150000, 300000};
    for (size_t i = 0; i < na; ++i) aligns.push_back(A[r.below(atop)]);
  }

  size_t usable(const Mapping& m) const { return m.huge ? m.rounded : m.len; }

  void check_stats(Pool& P, const char* when) {
    const auto& p = *P.p;
    Stats e = P.st;
#ifndef ALLOCATOR_STATS
    e = Stats{};
#endif
    CHK(22, p.get_allocations() == e.allocs, "%s: %zu allocations reported, %zu made", when, p.get_allocations(), e.allocs);
    CHK(22, p.get_deallocations() == e.deallocs, "%s: %zu deallocations reported, %zu made", when, p.get_deallocations(), e.deallocs);
    CHK(22, p.get_growth_events() == e.growth, "%s: %zu growth events reported, %zu happened", when, p.get_growth_events(), e.growth);
    CHK(22, p.get_bytes_allocated() == e.bytes, "%s: %zu lifetime bytes reported, %zu allocated", when, p.get_bytes_allocated(), e.bytes);
    CHK(22, p.get_current_usage() == e.cur, "%s: current usage %zu reported, %zu in use", when, p.get_current_usage(), e.cur);
    CHK(22, p.get_peak_usage() == e.peak, "%s: peak usage %zu reported, the maximum was %zu", when, p.get_peak_usage(), e.peak);
    const Mapping& m = w.maps.at(P.regions.back());
    const size_t tail = m.base + usable(m) - P.high;
    CHK(22, p.bytes_remaining() == tail, "%s: bytes_remaining() is %zu, the unused tail of the current region has %zu bytes", when, p.bytes_remaining(), tail);
    CHK(21, p.using_hugepages() == P.started_huge, "%s: using_hugepages() is %d, the pool was started with %s pages", when, p.using_hugepages(),
        P.started_huge ? "huge" : "regular");
    count("stats_checks");
  }

  // run f with the fault plan of op-new armed or not
  template <class F>
  bool guarded(long long newfail, F&& f) {
    g_new_fail_in = newfail;
    try {
      f();
      g_new_fail_in = -1;
      return true;
    } catch (const std::bad_alloc&) {
      g_new_fail_in = -1;
      return false;
    } catch (const std::exception& e) {
      g_new_fail_in = -1;
      CHK(MON == 21 ? 21 : 19, false, "a request that cannot be satisfied threw %s instead of bad_alloc", e.what());
    }
    return false;
  }

  bool create(long long newfail = -1) {
    static const size_t I[] = {1, 64, 100, 2000, 4096, 10000, 65536, 200000, 1 << 20, 3 << 20};
    static const size_t G[] = {1, 64, 3000, 4096, 12288, 65536, 100000, 1 << 20, (2 << 20) + 1};
    auto P = std::make_unique<Pool>();
    P->initial = I[r.below(10)];
    P->growth = forced_growth ? forced_growth : G[r.below(9)];
    P->want_huge = r.chance(1, 2);
    P->id = next_id++;
    const uint64_t s0 = w.serial;
    const size_t lb = w.live_bytes, lc = w.live_count();
    const bool huge_possible = P->want_huge && w.huge_available && w.fail_huge_in < 0 && w.huge_budget < 0;
    const bool regular_possible = w.regular_available && w.fail_regular_in < 0;
    const uint64_t nf0 = g_new_failures;
    note("create pool %d initial %zu growth %zu hugepages %d", P->id, P->initial, P->growth, P->want_huge);
    const bool ok = guarded(newfail, [&] { P->p = std::make_unique<fc::HugePagePool>(P->initial, P->want_huge, P->growth); });
    if (!ok) {
      CHK(21, !(regular_possible && g_new_failures == nf0), "construction failed although regular pages are available");
      CHK(21, w.live_bytes == lb && w.live_count() == lc, "a failed construction left %zu mapped bytes behind", w.live_bytes - lb);
      count("failed_constructions");
      return false;
    }
    adopt(*P, s0);
    CHK(19, !P->regions.empty(), "the pool was constructed without mapping memory");
    const Mapping& m = w.maps.at(P->regions.back());
    P->high = m.base;
    P->started_huge = m.huge;
    CHK(21, !m.huge || P->want_huge, "a pool that was not to use hugepages mapped hugepages");
    CHK(21, !(huge_possible && !m.huge), "hugepages were requested and available but the pool was not started with them");
    CHK(19, usable(m) >= P->initial, "the first region has %zu bytes, %zu were configured", usable(m), P->initial);
    if (P->want_huge && !m.huge) count("fallback_at_construction");
    count("pools");
    pools.push_back(std::move(P));
    check_stats(*pools.back(), "after construction");
    return true;
  }

  // mappings made since serial s0 belong to P
  size_t adopt(Pool& P, uint64_t s0) {
    std::map<uint64_t, uintptr_t> fresh;
    for (auto& [b, m] : w.maps)
      if (m.serial > s0 && m.live) fresh[m.serial] = b;
    for (auto& [s, b] : fresh) P.regions.push_back(b);
    return fresh.size();
  }

  bool fits_tail(const Pool& P, size_t bytes, size_t align) {
    const Mapping& m = w.maps.at(P.regions.back());
    const uintptr_t end = m.base + usable(m);
    const size_t a = align < alignof(void*) ? alignof(void*) : align;
    const uintptr_t at = (P.high + a - 1) / a * a;
    return at >= P.high && at <= end && end - at >= bytes;
  }

  bool allocate(Pool& P, size_t bytes, size_t align, long long newfail = -1) {
    step();
    const uint64_t s0 = w.serial, mm0 = w.mmaps;
    const uint64_t nf0 = g_new_failures, f0 = w.failures, hf0 = w.huge_failed;
    const bool had_freed = [&] { auto it = P.freed.find({bytes, align}); return it != P.freed.end() && it->second > 0; }();
    const bool fits = had_freed || fits_tail(P, bytes, align);
    const bool regular_possible = w.regular_available && w.fail_regular_in < 0 && bytes < w.max_len / 2;
    const bool huge_possible = w.huge_available && w.fail_huge_in < 0 && w.huge_budget < 0 && bytes < w.max_len / 2;
    note("pool %d allocate %zu aligned %zu (live %zu)", P.id, bytes, align, sh.live.size());
    void* v = nullptr;
    w.unmap_allowed = false;
    const bool ok = guarded(newfail, [&] { v = P.p->allocate(bytes, align); });
    w.unmap_allowed = true;
    if (!ok) {
      const bool newfailed = g_new_failures != nf0;
      if (!newfailed) {
        CHK(21, !fits, "a request for %zu bytes (alignment %zu) failed although the pool %s", bytes, align,
            had_freed ? "holds a freed block for it" : "has room for it in the current region");
        CHK(21, !regular_possible, "a request for %zu bytes failed although regular pages are available", bytes);
        CHK(21, w.failures != f0 || bytes > w.max_len / 2, "a request for %zu bytes failed without trying to map memory", bytes);
      }
      const size_t n = adopt(P, s0);
      if (n) P.high = P.regions.back();
      count(newfailed ? "failed_by_bookkeeping" : "failed_requests");
      if (n == 0) check_stats(P, "after a failed request");
      if (r.chance(1, 3)) verify_all("after a failed request");
      return false;
    }
    VH_CHECK(bytes != 0 || v == nullptr, "allocate(0) returned a block");
    if (bytes == 0) return true;
    CHK(19, v != nullptr, "allocate(%zu, %zu) returned null", bytes, align);
    const uintptr_t a = reinterpret_cast<uintptr_t>(v);
    const size_t grown = adopt(P, s0);
    if (grown) P.high = P.regions.back();
    // C19: inside the pool's own mapped memory, aligned, disjoint
    const Mapping* m = w.containing(v, bytes);
    CHK(19, m, "block %p of %zu bytes is not inside memory the pool mapped", v, bytes);
    bool mine = false;
    for (auto b : P.regions) mine |= b == m->base;
    CHK(19, mine, "block %p lies in memory of another pool", v);
    CHK(19, a % align == 0, "block %p is not aligned to %zu", v, align);
    auto nx = sh.live.lower_bound(a);
    CHK(19, nx == sh.live.end() || nx->first >= a + bytes, "block %p (%zu bytes) overlaps the block %p (%zu bytes) in use", v, bytes,
        nx == sh.live.end() ? nullptr : (void*)nx->second.p, nx == sh.live.end() ? size_t(0) : nx->second.bytes);
    if (nx != sh.live.begin()) {
      auto& q = std::prev(nx)->second;
      CHK(19, reinterpret_cast<uintptr_t>(q.p) + q.bytes <= a, "block %p (%zu bytes) overlaps the block %p (%zu bytes) in use", v, bytes, (void*)q.p, q.bytes);
    }
    // C20: freed memory first
    const bool reused = P.used.covers(a, a + bytes);
    if (had_freed) {
      CHK(20, grown == 0, "a freed block of %zu bytes aligned %zu was available but the pool mapped new memory", bytes, align);
      CHK(20, reused, "a freed block of %zu bytes aligned %zu was available but the pool handed out new memory", bytes, align);
      count("reused_blocks");
    }
    // C21: which pages
    if (grown) {
      const Mapping& g = w.maps.at(P.regions.back());
      CHK(21, P.started_huge || !g.huge, "a pool using regular pages grew by hugepages");
      CHK(21, !(P.started_huge && huge_possible && !g.huge), "hugepages are available but the pool grew by regular pages");
      if (P.started_huge && !g.huge && w.huge_failed != hf0) count("fallback_at_growth");
      count("growths");
    }
    (void)mm0;
    P.used.add(a, a + bytes);
    const Mapping& cur = w.maps.at(P.regions.back());
    if (m->base == cur.base && a + bytes > P.high) P.high = a + bytes;
    // bookkeeping of freed blocks: this address is no longer free
    if (auto it = freed_at.find(a); it != freed_at.end()) {
      auto& f = P.freed[it->second];
      if (f) --f;
      freed_at.erase(it);
    } else if (reused) {
      // carved out of other freed memory: forget what it consists of
      for (auto x = freed_at.lower_bound(a); x != freed_at.end() && x->first < a + bytes;) {
        auto& f = P.freed[x->second];
        if (f) --f;
        x = freed_at.erase(x);
      }
    }
    Blk b{static_cast<unsigned char*>(v), bytes, align, 0, P.id};
    sh.fill(b);
    sh.live[a] = b;
    last_addr = a;
    P.st.allocs++;
    P.st.bytes += bytes;
    P.st.cur += bytes;
    if (P.st.cur > P.st.peak) P.st.peak = P.st.cur;
    P.st.growth += grown;
    check_stats(P, "after allocate");
    count("allocations");
    state(comb(comb(bytes, align), comb(grown * 2 + reused, m->base - 0 == cur.base ? (a - m->base) % 4096 : 1)));
    return true;
  }
  std::map<uintptr_t, std::pair<size_t, size_t>> freed_at;

  Pool* pool_of(int id) {
    for (auto& p : pools)
      if (p->id == id) return p.get();
    return nullptr;
  }

  void deallocate(uintptr_t a) {
    step();
    auto it = sh.live.find(a);
    Blk b = it->second;
    Pool& P = *pool_of(b.pool);
    note("pool %d deallocate %p %zu", P.id, (void*)a, b.bytes);
    sh.verify(b, "before deallocate");
    sh.live.erase(it);
    const uint64_t mm0 = w.mmaps;
    w.unmap_allowed = false;
    // the only resource deallocate may need is bookkeeping it already has
    P.p->deallocate(b.p, b.bytes);
    w.unmap_allowed = true;
    CHK(20, w.mmaps == mm0, "deallocate mapped memory");
    P.freed[{b.bytes, b.align}]++;
    freed_at[a] = {b.bytes, b.align};
    P.st.deallocs++;
    P.st.cur -= b.bytes;
    check_stats(P, "after deallocate");
    count("deallocations");
  }

  void verify_all(const char* when) {
    for (auto& [a, b] : sh.live) sh.verify(b, when);
  }

  void destroy(size_t i) {
    Pool& P = *pools[i];
    note("destroy pool %d", P.id);
    const size_t lc = w.live_count();
    for (auto it = sh.live.begin(); it != sh.live.end();) it = it->second.pool == P.id ? sh.live.erase(it) : std::next(it);
    for (auto it = freed_at.begin(); it != freed_at.end();) {
      const Mapping* m = w.find(it->first);
      bool mine = false;
      for (auto b : P.regions) mine |= m && b == m->base;
      it = mine ? freed_at.erase(it) : std::next(it);
    }
    P.p.reset();
    for (auto b : P.regions)
      CHK(20, !w.maps.at(b).live, "the region %p (%zu bytes) was not unmapped when the pool was destroyed", (void*)b, w.maps.at(b).len);
    CHK(20, w.live_count() + P.regions.size() == lc, "destroying a pool with %zu regions unmapped %zu", P.regions.size(), lc - w.live_count());
    count("regions_released", P.regions.size());
    pools.erase(pools.begin() + static_cast<long>(i));
    verify_all("after another pool was destroyed");
  }

  size_t a_size() { return r.chance(1, 40) ? 8 + r.below(20000) : sizes[r.below(sizes.size())]; }
  size_t an_align() { return aligns[r.below(aligns.size())]; }

  void random_faults() {
    switch (r.below(8)) {
      case 0: w.huge_available = false; break;
      case 1: w.huge_available = true; w.huge_budget = -1; w.fail_huge_in = -1; break;
      case 2: w.huge_available = true; w.huge_budget = static_cast<long long>(r.below(4)) * static_cast<long long>(MemWorld::hpage); break;
      case 3: w.fail_huge_in = static_cast<long long>(r.below(3)); break;
      case 4: w.regular_available = false; break;
      case 5: w.fail_regular_in = static_cast<long long>(r.below(2)); break;
      default: w.regular_available = true; w.fail_regular_in = -1; w.fail_huge_in = -1; w.huge_budget = -1; break;
    }
  }

  void run(bool many = false) {
    if (many) {  // very many blocks of very many sizes
      const size_t ns = r.chance(1, 3) ? 1 : 10 + r.below(90);
      sizes.clear();
      for (size_t i = 0; i < ns; ++i) sizes.push_back(8 * (1 + r.below(80)) + (r.chance(1, 4) ? r.below(8) : 0));
    }
    const bool faults = MON == 21 || r.chance(1, 4);
    w.huge_available = r.chance(1, 2);
    const size_t want = 1 + r.below(3);
    while (pools.size() < want) {
      if (faults && r.chance(1, 3)) random_faults();
      if (!create(faults && r.chance(1, 6) ? static_cast<long long>(r.below(3)) : -1)) {
        w.regular_available = true;
        w.fail_regular_in = -1;
      }
    }
    const unsigned ops = many ? 12000 + static_cast<unsigned>(r.below(20000)) : (MON == 21 ? 500 : 700) * c.depth;
    std::vector<uintptr_t> order;
    unsigned left = 0, grow = 50, mode = 0;
    const size_t cap = many ? 3000 + r.below(8000) : 20 + r.below(400);
    for (unsigned i = 0; i < ops; ++i) {
      if (!left) {
        left = 1 + static_cast<unsigned>(r.below(many ? 8000 : 120));
        grow = many ? (i == 0 || r.chance(1, 2) ? 97 : 5) : static_cast<unsigned>(r.below(100));
        mode = static_cast<unsigned>(r.below(4));
        if (many && mode == 2) mode = 3;
        if (faults) random_faults();
      }
      --left;
      Pool& P = *pools[r.below(pools.size())];
      const unsigned roll = static_cast<unsigned>(r.below(1000));
      if (roll < 6) {  // requests nothing can satisfy
        static const size_t H[] = {~size_t(0), ~size_t(0) - 7, ~size_t(0) - 4095, ~size_t(0) - (2u << 20), (~size_t(0) >> 1) + 1, ~size_t(0) >> 1, size_t(1) << 40, size_t(3) << 30};
        allocate(P, H[r.below(8)], an_align());
        count("impossible_requests");
      } else if (roll < 10) {
        note("zero");
        VH_CHECK(P.p->allocate(0, 64) == nullptr, "allocate(0) returned a block");
        P.p->deallocate(nullptr, 64);
        check_stats(P, "after allocate(0) and deallocate(nullptr)");
      } else if (roll < 14 && pools.size() > 1) {
        destroy(r.below(pools.size()));
      } else if (roll < 17 && pools.size() < 4) {
        create(faults && r.chance(1, 4) ? static_cast<long long>(r.below(3)) : -1);
      } else if (roll < 20) {  // larger than the configured sizes
        allocate(P, P.growth + P.initial + r.below(5000), an_align());
        count("oversized_requests");
      } else if (sh.live.size() < cap && roll < 20 + grow * 98 / 10) {
        const size_t s = a_size(), al = an_align();
        if (!allocate(P, s, al, faults && r.chance(1, 30) ? static_cast<long long>(r.below(2)) : -1) && r.chance(1, 2)) {
          // C21: a later request succeeds once memory is available again
          w.regular_available = true;
          w.fail_regular_in = -1;
          CHK(21, allocate(P, s, al), "memory is available again but the same request still fails");
          count("recovered_after_failure");
        }
      } else if (!sh.live.empty()) {
        auto it = sh.live.begin();
        if (mode == 0) it = sh.live.lower_bound(static_cast<uintptr_t>(r.next() % (sh.live.rbegin()->first + 1)));
        else if (mode == 1) it = std::prev(sh.live.end());
        else if (mode == 2) std::advance(it, static_cast<long>(r.below(sh.live.size())));
        if (it == sh.live.end()) it = sh.live.begin();
        deallocate(it->first);
      }
      if (i % (many ? 4096 : 64) == 0) verify_all("periodic");
    }
    verify_all("end");
    count("regions_mapped", w.mmaps);
    if (c.index == 0)
      sample("case 0: " + std::to_string(w.mmaps) + " regions mapped, " + std::to_string(w.failures) + " mappings refused, " +
             std::to_string(sh.live.size()) + " blocks in use at the end");
    while (!pools.empty()) destroy(r.below(pools.size()));
    CHK(20, w.live_count() == 0, "%zu mappings are left when all pools are gone", w.live_count());
  }
};

void one(Case& c) {
  Driver d(c);
  try {
    d.run();
  } catch (Abandon&) {
  }
}
SCENARIO("mixed", NQ, NQ * 30, one);
SCENARIO("many", 48, 600, [](Case& c) {
  Driver d(c);
  try {
    d.run(true);
    count("many_block_cases");
  } catch (Abandon&) {
  }
});
// Blocks, regions and totals beyond 32 bits (never touched as a whole).
SCENARIO("giant", 12, 120, [](Case& c) {
  Driver d(c);
  try {
    Rng& r = c.rng;
    MemWorld& w = mem();
    w.huge_available = false;
    w.max_len = size_t(1) << 36;
    constexpr size_t G = size_t(1) << 30;
    static const size_t S[] = {G - 64, G, 2 * G - 8, 2 * G, 3 * G + 4096, 4 * G - 64, 4 * G, 4 * G + 64, 5 * G + 8};
    d.sizes = {S[r.below(9)], S[r.below(9)], S[r.below(9)], 64, 4096};
    d.forced_growth = r.chance(1, 2) ? S[r.below(9)] : 4096;
    d.create();
    Pool& P = *d.pools[0];
    size_t big = 0;
    for (unsigned i = 0; i < 60; ++i) {
      if (d.sh.live.empty() || (big < 20 && r.chance(3, 5))) {
        size_t s = d.sizes[r.below(5)], al = d.an_align();
        if (d.allocate(P, s, al)) big += s >= G;
      } else {
        auto it = d.sh.live.begin();
        std::advance(it, static_cast<long>(r.below(d.sh.live.size())));
        big -= it->second.bytes >= G;
        d.deallocate(it->first);
      }
    }
    d.verify_all("end");
    d.destroy(0);
    count("giant_cases");
  } catch (Abandon&) {
  }
});

#if MON == 20
// Long bounded workloads have a constant footprint once warm.
SCENARIO("steady", NQ / 4, NQ * 6, [](Case& c) {
  Driver d(c);
  try {
    Rng& r = c.rng;
    mem().huge_available = r.chance(1, 2);
    d.create();
    Pool& P = *d.pools[0];
    std::vector<std::pair<size_t, size_t>> kinds;
    std::vector<std::vector<uintptr_t>> live;
    const size_t nk = 1 + r.below(6);
    for (size_t i = 0; i < nk; ++i) {
      size_t s = d.a_size();
      bool dup = false;
      for (auto& k : kinds) dup |= k.first == s;
      if (!dup) kinds.push_back({s, d.an_align()});
    }
    live.resize(kinds.size());
    std::vector<size_t> lim;
    for (size_t i = 0; i < kinds.size(); ++i) lim.push_back(1 + r.below(r.chance(1, 40) ? 4000 : 60));
    auto take = [&](size_t i) {
      if (!d.allocate(P, kinds[i].first, kinds[i].second)) CHK(20, false, "allocation failed");
      live[i].push_back(d.last_addr);
    };
    for (size_t i = 0; i < kinds.size(); ++i)
      while (live[i].size() < lim[i]) take(i);
    const size_t warm = mem().live_bytes, rem = P.p->bytes_remaining();
    for (unsigned k = 0; k < 3000 * c.depth; ++k) {
      size_t i = r.below(kinds.size());
      if (live[i].size() < lim[i] && (live[i].empty() || r.chance(1, 2))) {
        take(i);
      } else {
        size_t q = r.chance(1, 3) ? 0 : r.chance(1, 2) ? live[i].size() - 1 : r.below(live[i].size());
        uintptr_t a = live[i][q];
        live[i].erase(live[i].begin() + static_cast<long>(q));
        d.deallocate(a);
      }
      CHK(20, mem().live_bytes == warm, "a workload with bounded live blocks grew the footprint from %zu to %zu bytes", warm, mem().live_bytes);
      CHK(20, P.p->bytes_remaining() == rem, "a workload with bounded live blocks consumed fresh memory (%zu bytes left, were %zu)", P.p->bytes_remaining(), rem);
    }
    count("steady_operations", 3000 * c.depth);
    d.destroy(0);
  } catch (Abandon&) {
  }
});

// Shared ownership: nothing is unmapped while an owner is left, everything when
// the last one goes.
struct alignas(16) Obj { char b[48]; };
SCENARIO("owners", NQ / 2, NQ * 15, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  using A = fc::HugePageAllocator<Obj>;
  std::vector<std::unique_ptr<A>> own;
  own.push_back(std::make_unique<A>(4096, r.chance(1, 2), 4096));
  std::vector<Obj*> blocks;
  for (unsigned i = 0; i < 300; ++i) {
    step();
    const size_t k = r.below(own.size());
    w.unmap_allowed = false;
    note("owners %zu blocks %zu", own.size(), blocks.size());
    switch (r.below(6)) {
      case 0: if (own.size() < 6) own.push_back(std::make_unique<A>(*own[k])); break;
      case 1: { auto n = std::make_unique<A>(std::move(*own[k])); own[k] = std::move(n); break; }
      case 2: if (own.size() > 1) own.erase(own.begin() + static_cast<long>(k)); break;
      case 3: case 4: { Obj* p = own[k]->allocate(1); memset(p, 0x55, sizeof *p); blocks.push_back(p); break; }
      default: if (!blocks.empty()) { size_t q = r.below(blocks.size()); VH_CHECK(blocks[q]->b[47] == 0x55, "block overwritten"); own[k]->deallocate(blocks[q], 1); blocks.erase(blocks.begin() + static_cast<long>(q)); } break;
    }
    w.unmap_allowed = true;
  }
  const size_t before = w.live_count();
  VH_CHECK(before >= 1, "the pool's memory is gone while owners are left");
  for (auto* p : blocks) VH_CHECK(p->b[0] == 0x55, "block overwritten");
  own.clear();
  w.expect_all_unmapped("the last owner is gone");
  count("ownership_cases");
  count("regions_released", before);
});
#endif
}  // namespace
