// Size classes of the multi-size pool, and standard containers on its allocator.
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <deque>
#include <list>
#include <memory>
#include <unordered_map>
#include <vector>

#include "memwrap.hpp"
#include "vh.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;
using MP = fc::MultiSizeHugePagePool;

namespace {
// The documented scheme: 64, 128, ..., 512, 768, 1024, ..., 2048, 4096, 8192, ...
size_t class_of(size_t n) {
  if (n == 0) return 0;
  for (size_t c = 64; c <= 512; c += 64)
    if (c >= n) return c;
  for (size_t c = 768; c <= 2048; c += 256)
    if (c >= n) return c;
  for (size_t c = 4096;; c *= 2)
    if (c >= n) return c;
}

SCENARIO("classes", 8, 64, [](Case& c) {
  Rng& r = c.rng;
  auto check = [&](size_t n) {
    const size_t got = MP::get_size_class(n);
    VH_CHECK(got == class_of(n), "the size class of %zu is %zu, the documented scheme gives %zu", n, got, class_of(n));
    VH_CHECK(got >= n, "the size class %zu does not cover %zu", got, n);
    count("sizes_classified");
    state(got);
  };
  for (size_t n = c.index * 9000; n < (c.index + 1) * 9000 + 10; ++n) check(n);
  for (int k = 3; k <= 63; ++k)
    for (long d = -3; d <= 3; ++d) {
      const size_t n = (size_t(1) << k) + static_cast<size_t>(d);
      if (n <= size_t(1) << 63) check(n);
    }
  for (int i = 0; i < 20000; ++i) check(r.next() >> (1 + r.below(60)));
});

struct Blk {
  unsigned char* p;
  size_t n, align, cls;
  uint64_t stamp;
  size_t pool;
};

SCENARIO("pool", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  struct P {
    std::unique_ptr<MP> p;
    std::map<size_t, bool> classes;                    // class -> its pool started with hugepages
    std::map<std::pair<size_t, size_t>, std::set<uintptr_t>> freed;  // (class, align) -> freed blocks
    size_t init, growth;
    bool huge;
  };
  std::vector<P> ps(1 + r.below(2));
  static const size_t I[] = {1, 64, 4096, 10000, 70000, 1 << 20};
  for (auto& p : ps) {
    p.init = I[r.below(6)];
    p.growth = I[r.below(6)];
    p.huge = r.chance(1, 2);
    p.p = std::make_unique<MP>(p.init, p.huge, p.growth);
  }
  VH_CHECK(w.mmaps == 0, "memory was mapped before the first request");
  std::map<uintptr_t, Blk> live;
  std::map<uintptr_t, std::pair<uintptr_t, size_t>> owner;  // start -> (end, class), ever used
  std::vector<size_t> pool_of_region;
  std::map<uintptr_t, size_t> region_pool;  // mapping base -> pool index
  uint64_t stamp = 0;
  auto pat = [](uint64_t s, size_t i) { return static_cast<unsigned char>(s * 37 + i * 11 + (s >> 8)); };
  auto verify = [&](const Blk& b) {
    for (size_t i = 0; i < b.n; ++i)
      VH_CHECK(b.p[i] == pat(b.stamp, i), "byte %zu of the block %p (%zu bytes, class %zu, in use) was overwritten", i, (void*)b.p, b.n, b.cls);
  };
  auto size = [&]() -> size_t {
    switch (r.below(5)) {
      case 0: return 1 + r.below(512);
      case 1: return 513 + r.below(1536);
      case 2: return 2049 + r.below(20000);
      case 3: { static const size_t B[] = {64, 128, 192, 448, 512, 768, 1024, 2048, 4096, 8192}; return B[r.below(10)] - 1 + r.below(3); }
      default: return 40 + r.below(120);
    }
  };
  static const size_t A[] = {1, 4, 8, 16, 64, 64, 128, 4096};
  const size_t na = r.chance(1, 3) ? 8 : 5;
  unsigned grow = 50;
  for (unsigned k = 0; k < 800 * c.depth; ++k) {
    step();
    if (k % 90 == 0) {
      grow = 20 + static_cast<unsigned>(r.below(70));
      w.regular_available = !r.chance(1, 5);
      w.huge_available = r.chance(1, 2);
    }
    const size_t pi = r.below(ps.size());
    P& p = ps[pi];
    if (r.chance(1, 60)) {  // not representable
      const size_t before = p.p->active_size_classes(), mapped = w.live_bytes;
      static const size_t H[] = {~size_t(0), ~size_t(0) - 63, (size_t(1) << 63) + 1, (size_t(1) << 63) + (size_t(1) << 62)};
      bool threw = false;
      try {
        (void)p.p->allocate(H[r.below(4)], 8);
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      VH_CHECK(threw, "a request that cannot be represented did not throw bad_alloc");
      VH_CHECK(p.p->active_size_classes() == before && w.live_bytes == mapped, "a request that cannot be represented changed the pool");
      count("impossible_requests");
    } else if (live.size() < 300 && r.below(100) < grow) {
      const size_t n = size(), al = A[r.below(na)], cls = class_of(n);
      auto& fr = p.freed[{cls, al}];
      const bool had_freed = !fr.empty(), had_class = p.classes.count(cls) != 0;
      const uint64_t s0 = w.serial, f0 = w.failures;
      note("pool %zu allocate %zu (class %zu) aligned %zu", pi, n, cls, al);
      void* v = nullptr;
      try {
        v = p.p->allocate(n, al);
      } catch (const std::bad_alloc&) {
        VH_CHECK(!had_freed, "request of class %zu failed although a freed block of that class is available", cls);
        VH_CHECK(w.failures > f0, "request for %zu bytes failed although memory is available", n);
        size_t act = 0;
        for (auto& [b, m] : w.maps)
          if (m.serial > s0 && m.live) {
            region_pool[b] = pi;
            if (!p.classes.count(cls)) p.classes[cls] = m.huge;
          }
        (void)act;
        VH_CHECK(p.p->active_size_classes() == p.classes.size(), "%zu size classes active, %zu have a pool", p.p->active_size_classes(), p.classes.size());
        count("failed_requests");
        continue;
      }
      std::map<uint64_t, uintptr_t> fresh;
      for (auto& [b, m] : w.maps)
        if (m.serial > s0 && m.live) fresh[m.serial] = b;
      for (auto& [s, b] : fresh) region_pool[b] = pi;
      if (!had_class) {
        VH_CHECK(!fresh.empty(), "a new size class started without memory of its own");
        p.classes[cls] = w.maps.at(fresh.begin()->second).huge;
      }
      const uintptr_t a = reinterpret_cast<uintptr_t>(v);
      const Mapping* m = w.containing(v, n);
      VH_CHECK(m && region_pool.count(m->base) && region_pool[m->base] == pi, "block %p of %zu bytes is not inside memory of this pool", v, n);
      VH_CHECK(a % al == 0, "block %p is not aligned to %zu", v, al);
      auto nx = live.lower_bound(a);
      VH_CHECK(nx == live.end() || nx->first >= a + n, "block %p (%zu bytes) overlaps a block in use", v, n);
      if (nx != live.begin()) VH_CHECK(reinterpret_cast<uintptr_t>(std::prev(nx)->second.p) + std::prev(nx)->second.n <= a, "block %p (%zu bytes) overlaps a block in use", v, n);
      // memory once used for a class stays with that class
      auto o = owner.upper_bound(a);
      if (o != owner.begin()) {
        auto q = std::prev(o);
        if (q->second.first > a) VH_CHECK(q->second.second == cls, "memory of class %zu at %p was handed out for class %zu (%zu bytes)", q->second.second, v, cls, n);
      }
      if (o != owner.end() && o->first < a + n) VH_CHECK(o->second.second == cls, "memory of class %zu was handed out for class %zu (%zu bytes)", o->second.second, cls, n);
      if (had_freed) {
        VH_CHECK(fresh.empty(), "a freed block of class %zu was available but the pool mapped new memory for %zu bytes", cls, n);
        bool known = false;
        for (auto& [key, set] : p.freed) {
          if (set.erase(a)) known = true;
        }
        VH_CHECK(known, "a freed block of class %zu was available but %zu bytes came from new memory", cls, n);
        count("same_class_reuses");
      } else {
        for (auto& [key, set] : p.freed) set.erase(a);
      }
      auto& ow = owner[a];
      if (ow.first < a + n) ow = {a + n, cls};
      Blk b{static_cast<unsigned char*>(v), n, al, cls, ++stamp, pi};
      for (size_t i = 0; i < n; ++i) b.p[i] = pat(b.stamp, i);
      live[a] = b;
      count("allocations");
      state(comb(comb(n, al), had_freed * 2 + fresh.size()));
    } else if (!live.empty()) {
      auto it = live.lower_bound(r.chance(1, 2) ? 0 : static_cast<uintptr_t>(r.next() % (live.rbegin()->first + 1)));
      if (it == live.end()) it = live.begin();
      Blk b = it->second;
      verify(b);
      live.erase(it);
      note("pool %zu deallocate %zu (class %zu)", b.pool, b.n, b.cls);
      ps[b.pool].p->deallocate(b.p, b.n);
      ps[b.pool].freed[{b.cls, b.align}].insert(reinterpret_cast<uintptr_t>(b.p));
      count("deallocations");
    }
    VH_CHECK(p.p->active_size_classes() == p.classes.size(), "%zu size classes active, %zu were used", p.p->active_size_classes(), p.classes.size());
    VH_CHECK(p.p->get_pools().size() == p.classes.size(), "get_pools() has %zu entries, %zu classes were used", p.p->get_pools().size(), p.classes.size());
    bool any = false;
    for (auto& [cl, h] : p.classes) {
      VH_CHECK(p.p->get_pool(cl) != nullptr, "class %zu was used but has no pool", cl);
      VH_CHECK(p.p->get_pool(cl)->using_hugepages() == h, "the pool of class %zu misreports using_hugepages()", cl);
      any |= h;
    }
    VH_CHECK(p.p->using_hugepages() == any, "using_hugepages() is %d but %s class uses hugepages", p.p->using_hugepages(), any ? "a" : "no");
    if (k % 100 == 0) for (auto& [a, b] : live) verify(b);
  }
  for (auto& [a, b] : live) verify(b);
  ps.clear();
  w.expect_all_unmapped("the pools are gone");
});

// ---- standard containers
template <class T>
using MA = fc::MultiSizeHugePageAllocator<T>;
struct V3 { char c[3]; bool operator==(const V3&) const = default; };
struct alignas(32) Wide { uint64_t v[7]; bool operator==(const Wide&) const = default; };

template <class T> T mk(uint64_t i);
template <> int mk<int>(uint64_t i) { return static_cast<int>(i); }
template <> V3 mk<V3>(uint64_t i) { return V3{{static_cast<char>(i), static_cast<char>(i >> 8), 1}}; }
template <> Wide mk<Wide>(uint64_t i) { Wide w{}; for (auto& x : w.v) x = i++; return w; }
template <> std::string mk<std::string>(uint64_t i) { return std::string(i % 70, static_cast<char>('a' + i % 26)); }

template <class C, class D>
void same_seq(const C& c, const D& d, const char* what) {
  VH_CHECK(c.size() == d.size(), "%s: size %zu expected %zu", what, c.size(), d.size());
  auto i = c.begin();
  for (auto& x : d) {
    VH_CHECK(*i == x, "%s: contents differ from the same container with the default allocator", what);
    ++i;
  }
  count("containers_compared");
}

template <class T>
void sequences(Case& c, std::shared_ptr<MP> pool) {
  Rng& r = c.rng;
  std::vector<T, MA<T>> v{MA<T>(pool)};
  std::vector<T> rv;
  std::deque<T, MA<T>> d{MA<T>(pool)};
  std::deque<T> rd;
  std::list<T, MA<T>> l{MA<T>(pool)};
  std::list<T> rl;
  for (int i = 0; i < 400; ++i) {
    step();
    T x = mk<T>(r.next() >> 8);
    note("sequence op, sizes %zu %zu %zu", v.size(), d.size(), l.size());
    switch (r.below(16)) {
      case 0: case 1: case 2: v.push_back(x); rv.push_back(x); break;
      case 3: { size_t k = r.below(rv.size() + 1); v.insert(v.begin() + static_cast<long>(k), x); rv.insert(rv.begin() + static_cast<long>(k), x); break; }
      case 4: if (!rv.empty()) { size_t k = r.below(rv.size()); v.erase(v.begin() + static_cast<long>(k)); rv.erase(rv.begin() + static_cast<long>(k)); } break;
      case 5: { size_t k = r.below(300); v.resize(k); rv.resize(k); break; }
      case 6: v.shrink_to_fit(); break;
      case 7: case 8: d.push_back(x); rd.push_back(x); break;
      case 9: d.push_front(x); rd.push_front(x); break;
      case 10: if (!rd.empty()) { d.pop_front(); rd.pop_front(); } break;
      case 11: case 12: l.push_back(x); rl.push_back(x); break;
      case 13: if (!rl.empty()) { l.pop_front(); rl.pop_front(); } break;
      case 14: { auto v2 = v; v.swap(v2); std::deque<T, MA<T>> d2(std::move(d)); d = std::move(d2); auto l2 = l; l = std::move(l2); break; }
      default: if (r.chance(1, 8)) { v.clear(); rv.clear(); l.clear(); rl.clear(); } break;
    }
    if (i % 8 == 0) { same_seq(v, rv, "vector"); same_seq(d, rd, "deque"); same_seq(l, rl, "list"); }
  }
}

SCENARIO("containers", NQ / 4, NQ * 6, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    auto alloc = fc::make_multi_size_hugepage_allocator<int>(1 + r.below(100000), r.chance(1, 2), 1 + r.below(100000));
    auto pool = alloc.get_pool();
    switch (r.below(4)) {
      case 0: sequences<int>(c, pool); break;
      case 1: sequences<std::string>(c, pool); break;
      case 2: sequences<V3>(c, pool); break;
      default: sequences<Wide>(c, pool); break;
    }
    using KV = std::pair<const int, std::string>;
    std::map<int, std::string, std::less<int>, MA<KV>> m{MA<KV>(pool)};
    std::map<int, std::string> rm;
    std::unordered_map<int, std::string, std::hash<int>, std::equal_to<int>, MA<KV>> u(8, MA<KV>(pool));
    std::set<std::string, std::less<std::string>, MA<std::string>> s{MA<std::string>(pool)};
    std::set<std::string> rs;
    std::basic_string<char, std::char_traits<char>, MA<char>> str{MA<char>(pool)};
    std::string rstr;
    for (int i = 0; i < 500; ++i) {
      step();
      int k = static_cast<int>(r.below(200));
      std::string x = mk<std::string>(r.next() >> 8);
      note("associative op %d sizes %zu %zu", k, m.size(), s.size());
      if (r.chance(3, 5)) { m[k] = x; rm[k] = x; u[k] = x; s.insert(x); rs.insert(x); str += x; rstr += x; }
      else { m.erase(k); rm.erase(k); u.erase(k); if (!rs.empty()) { auto y = *rs.begin(); rs.erase(y); s.erase(y); } str.erase(0, r.below(40)); rstr.erase(0, rstr.size() - str.size()); }
      if (i % 8 == 0) {
        same_seq(m, rm, "map");
        same_seq(s, rs, "set");
        VH_CHECK(std::string(str.data(), str.size()) == rstr, "string: contents differ");
        VH_CHECK(u.size() == rm.size(), "unordered_map: size");
        for (auto& [a, b] : rm) { auto it = u.find(a); VH_CHECK(it != u.end() && it->second == b, "unordered_map: contents differ"); }
      }
    }
    // requests no array can have
    MA<Wide> big(pool);
    const size_t before = pool->active_size_classes(), mapped = w.live_bytes;
    for (size_t n : {~size_t(0), ~size_t(0) / sizeof(Wide) + 1, ~size_t(0) / sizeof(Wide), (size_t(1) << 63) / sizeof(Wide) + 1, (size_t(1) << 58) + 1}) {
      bool threw = false;
      try {
        (void)big.allocate(n);
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      VH_CHECK(threw, "allocating an array of %zu elements of %zu bytes did not throw", n, sizeof(Wide));
      VH_CHECK(pool->active_size_classes() == before && w.live_bytes == mapped, "an impossible array request changed the pool");
      count("impossible_requests");
    }
  }
  w.expect_all_unmapped("the last container is gone");
  count("container_cases");
});
}  // namespace
