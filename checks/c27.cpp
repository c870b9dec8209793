// What memory a pool takes from the system, when, and how large: every mmap
// call of the code under test against the configuration it was given.
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>
#include <optional>
#include <vector>

#include "memwrap.hpp"
#include "vh.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

namespace {
constexpr size_t MB = size_t(1) << 20, HP = 2 * MB;
size_t up(size_t n, size_t to) { return (n + to - 1) / to * to; }

struct Cfg {
  size_t initial = 256 * MB, growth = 64 * MB;
  bool huge = true;
  std::string str() const { return "initial " + std::to_string(initial) + " growth " + std::to_string(growth) + " hugepages " + std::to_string(huge); }
};

// Is every hugepage of the region backed by memory (first touch)?
void check_touched(const Mapping& m, const char* who) {
  std::vector<unsigned char> v(m.rounded / MemWorld::page);
  if (mincore(reinterpret_cast<void*>(m.base), m.rounded, v.data()) != 0) { count("mincore_unavailable"); return; }
  const size_t per = MemWorld::hpage / MemWorld::page;
  for (size_t h = 0; h * per < v.size(); ++h) {
    bool any = false;
    for (size_t i = 0; i < per; ++i) any |= v[h * per + i] & 1;
    VH_CHECK(any, "%s: hugepage %zu of %zu of the new region was not touched", who, h, v.size() / per);
  }
  count("hugepages_touched", v.size() / per);
}

// One pool as the configuration says it must behave.
struct Model {
  Cfg cfg;
  bool built = false, on_huge = false;
  uintptr_t lo = 0, high = 0, end = 0;  // current region
  std::map<size_t, std::vector<uintptr_t>> freed;
  std::vector<std::pair<uintptr_t, uintptr_t>> regions;

  // The attempts since the last call are those of taking one region of at
  // least `want` and not more than `most` bytes for this pool.
  void region(size_t want, size_t most, const char* who) {
    MemWorld& w = mem();
    std::vector<Attempt> a;
    a.swap(w.attempts);
    VH_CHECK(!a.empty(), "%s: no memory was mapped (%s)", who, cfg.str().c_str());
    const Attempt& got = a.back();
    VH_CHECK(got.ok, "%s: the last mapping attempt failed", who);
    for (size_t i = 0; i + 1 < a.size(); ++i)
      VH_CHECK(!a[i].ok, "%s: %zu regions were mapped, one is needed (%s)", who, a.size(), cfg.str().c_str());
    for (auto& x : a) VH_CHECK(cfg.huge || !x.huge, "%s: hugepages were attempted by a pool configured without them", who);
    if (cfg.huge && (!built || on_huge)) VH_CHECK(a[0].huge, "%s: hugepages were not attempted first by a pool configured to use them (%s)", who, cfg.str().c_str());
    if (a.size() > 1) count("fallbacks");
    const Mapping& m = w.maps.at(got.base);
    const size_t usable = m.huge ? m.rounded : m.len;
    VH_CHECK(usable >= want, "%s: the new region has %zu bytes, at least %zu are configured or needed (%s)", who, usable, want, cfg.str().c_str());
    VH_CHECK(usable <= up(most, m.huge ? HP : MemWorld::page), "%s: the new region has %zu bytes, %zu are configured (%s)", who, usable, most, cfg.str().c_str());
    if (m.huge) check_touched(m, who);
    if (!built) on_huge = m.huge;
    built = true;
    lo = high = m.base;
    end = m.base + usable;
    regions.push_back({lo, end});
    count("regions_checked");
  }
  void constructed(const char* who) { region(cfg.initial, cfg.initial, who); }
  bool fits(size_t bytes, size_t align) const {
    if (!built) return false;
    const size_t a = align < alignof(void*) ? alignof(void*) : align;
    if (auto it = freed.find(bytes); it != freed.end())
      for (uintptr_t p : it->second)
        if (p % a == 0) return true;
    const uintptr_t at = up(high, a);
    return at <= end && end - at >= bytes;
  }
  // a block the pool has just handed out
  void took(void* v, size_t bytes, size_t align, bool did_fit, const char* who) {
    if (did_fit) {
      VH_CHECK(mem().attempts.empty(), "%s: memory was mapped although a request of %zu bytes aligned %zu fits in what the pool has left", who, bytes, align);
      count("requests_within");
    } else {
      region(std::max(cfg.growth, bytes), std::max(cfg.growth, bytes + std::max(align, MemWorld::page)), who);
      count("growths");
    }
    const uintptr_t a = reinterpret_cast<uintptr_t>(v);
    bool inside = false;
    for (auto& [x, y] : regions) inside |= a >= x && a + bytes <= y;
    VH_CHECK(inside, "%s: a block lies outside the pool's own regions", who);
    auto& f = freed[bytes];
    for (size_t i = 0; i < f.size(); ++i)
      if (f[i] == a) { f[i] = f.back(); f.pop_back(); break; }
    if (a >= lo && a < end && a + bytes > high) high = a + bytes;
  }
  void gave(void* v, size_t bytes) { freed[bytes].push_back(reinterpret_cast<uintptr_t>(v)); }
};

void quiet(const char* who) { VH_CHECK(mem().attempts.empty(), "%s: memory was mapped (%zu calls)", who, mem().attempts.size()); }

bool giant;  // sizes that do not fit in 32 bits

void world(Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.log = true;
  giant = r.chance(1, 16);
  if (giant) { w.max_len = size_t(1) << 40; count("giant_worlds"); }
  w.huge_available = r.chance(2, 3);
  if (w.huge_available && r.chance(1, 3)) w.huge_budget = static_cast<long long>(HP * (1 + r.below(60)));
}
Cfg random_cfg(Rng& r) {
  static const size_t I[] = {1, 64, 100, 2000, 4096, 5000, 10000, 65536, 200000, MB, 2 * MB, 2 * MB + 1, 3 * MB, 5 * MB + 4096};
  static const size_t G[] = {1, 64, 3000, 4096, 12288, 65536, 100000, MB, 2 * MB, 2 * MB + 1, 4 * MB, 6 * MB + 64};
  if (giant) {
    static const size_t Z[] = {4096, MB, 4096 * MB, 4096 * MB + 1, 5000 * MB, 4096 * MB + 65536, 3000 * MB, 8192 * MB + 2 * MB};
    const size_t i = r.below(8), g = r.below(8);
    return {Z[i], Z[i < 2 ? 2 + g % 6 : g], r.chance(1, 2)};
  }
  return {I[r.below(14)], G[r.below(12)], r.chance(1, 2)};
}
size_t random_bytes(Rng& r) {
  static const size_t S[] = {8, 16, 40, 64, 128, 192, 500, 512, 1000, 1024, 4096, 5000, 40000, 65536, 150000, MB, 3 * MB};
  return r.chance(1, 8) ? 8 + r.below(3000) : S[r.below(r.chance(1, 3) ? 17 : 12)];
}
size_t random_align(Rng& r) {
  static const size_t A[] = {64, 64, 64, 8, 1, 16, 128, 256, 4096, 8192, 65536};
  return A[r.below(11)];
}

// requests on one pool until it has grown a few times
template <class Take, class Give>
void exercise(Rng& r, Model& m, unsigned n, Take&& take, Give&& give, std::vector<size_t> sizes, std::vector<size_t> aligns, const char* who) {
  struct B { void* p; size_t bytes; };
  std::vector<B> live;
  size_t grown = m.regions.size();
  for (unsigned k = 0; k < n && m.regions.size() < grown + (giant ? 2 : 14); ++k) {
    step();
    if (!live.empty() && r.chance(1, 5)) {
      const size_t i = r.below(live.size());
      give(live[i].p, live[i].bytes);
      m.gave(live[i].p, live[i].bytes);
      quiet("deallocate");
      live[i] = live.back();
      live.pop_back();
      continue;
    }
    // now and then exactly what is left
    size_t bytes = sizes[r.below(sizes.size())], align = aligns[r.below(aligns.size())];
    if (sizes.size() > 1 && r.chance(1, 6) && m.built) {
      const uintptr_t at = up(m.high, std::max(align, alignof(void*)));
      if (at + 16 < m.end && m.end - at < 4 * MB) bytes = m.end - at + (r.chance(1, 3) ? 1 : 0);
    }
    const bool fit = m.fits(bytes, align);
    note("%s request %zu aligned %zu (%s; %zu regions)", who, bytes, align, m.cfg.str().c_str(), m.regions.size());
    void* p = take(bytes, align);
    m.took(p, bytes, align, fit, who);
    live.push_back({p, bytes});
    state(comb(comb(bytes, align), comb(fit, m.cfg.growth)));
  }
}

SCENARIO("pool", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  {
    Model m;
    std::unique_ptr<fc::HugePagePool> p;
    m.cfg = random_cfg(r);
    switch (r.below(8)) {
      case 0: m.cfg = {}; p = std::make_unique<fc::HugePagePool>(); count("defaults"); break;
      case 1: m.cfg = {m.cfg.initial, 64 * MB, true}; p = std::make_unique<fc::HugePagePool>(m.cfg.initial); count("defaults"); break;
      case 2: m.cfg = {m.cfg.initial, 64 * MB, m.cfg.huge}; p = std::make_unique<fc::HugePagePool>(m.cfg.initial, m.cfg.huge); count("defaults"); break;
      default: p = std::make_unique<fc::HugePagePool>(m.cfg.initial, m.cfg.huge, m.cfg.growth);
    }
    m.constructed("a pool's construction");
    VH_CHECK(p->initial_size() == m.cfg.initial && p->growth_size() == m.cfg.growth, "initial_size() %zu growth_size() %zu, configured: %s", p->initial_size(),
             p->growth_size(), m.cfg.str().c_str());
    VH_CHECK(p->using_hugepages() == m.on_huge, "using_hugepages() is %d on a pool that started with %s pages", p->using_hugepages(), m.on_huge ? "huge" : "regular");
    VH_CHECK(p->bytes_remaining() >= m.cfg.initial, "a new pool offers %zu bytes, %zu were configured", p->bytes_remaining(), m.cfg.initial);
    std::vector<size_t> sizes, aligns;
    for (size_t i = 0, n = r.chance(1, 3) ? 1 : 1 + r.below(5); i < n; ++i) sizes.push_back(random_bytes(r));
    for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) aligns.push_back(random_align(r));
    exercise(r, m, 250 * c.depth, [&](size_t b, size_t a) { return p->allocate(b, a); }, [&](void* q, size_t b) { p->deallocate(q, b); }, sizes, aligns, "a pool");
    p->allocate(0, 64);
    p->deallocate(nullptr, 64);
    quiet("empty requests");
    VH_CHECK(p->initial_size() == m.cfg.initial && p->growth_size() == m.cfg.growth, "the configuration reported by a pool changed while it was used");
    p.reset();
    quiet("a pool's destruction");
    count("pools");
  }
  mem().expect_all_unmapped("at the end");
});

size_t class_of(size_t n) {
  if (n <= 512) return up(n, 64);
  if (n <= 2048) return up(n, 256);
  size_t k = 1;
  while (k < n) k *= 2;
  return k;
}

template <class P>
void exercise_multi(Rng& r, P& pool, const Cfg& cfg, unsigned n) {
  std::map<size_t, Model> classes;
  struct B { void* p; size_t bytes; };
  std::vector<B> live;
  std::vector<size_t> sizes;
  for (size_t i = 0, k = 1 + r.below(7); i < k; ++i) sizes.push_back(random_bytes(r));
  size_t regions = 0;
  for (unsigned k = 0; k < n && regions < (giant ? 5 : 40); ++k) {
    step();
    if (!live.empty() && r.chance(1, 5)) {
      const size_t i = r.below(live.size());
      pool.deallocate(live[i].p, live[i].bytes);
      classes[class_of(live[i].bytes)].gave(live[i].p, class_of(live[i].bytes));
      quiet("deallocate");
      live[i] = live.back();
      live.pop_back();
      continue;
    }
    size_t bytes = sizes[r.below(sizes.size())];
    if (r.chance(1, 2)) bytes -= r.below(8);
    if (bytes == 0) bytes = 1;
    const size_t align = r.chance(1, 2) ? 64 : random_align(r), cl = class_of(bytes);
    Model& m = classes[cl];
    m.cfg = cfg;
    note("multi-size pool request %zu aligned %zu (%s; %zu classes)", bytes, align, cfg.str().c_str(), classes.size());
    const bool fit = m.fits(cl, align), first = !m.built;
    void* p = pool.allocate(bytes, align);
    if (first) {
      // the class's pool is created now; it may have to grow at once
      MemWorld& w = mem();
      std::vector<Attempt> all;
      all.swap(w.attempts);
      size_t i = 0;
      while (i < all.size() && !all[i].ok) ++i;
      VH_CHECK(i < all.size(), "first request of a class: no memory was mapped");
      w.attempts.assign(all.begin(), all.begin() + static_cast<long>(i) + 1);
      m.constructed("a size class's first use");
      const bool now = m.fits(cl, align);
      w.attempts.assign(all.begin() + static_cast<long>(i) + 1, all.end());
      m.took(p, cl, align, now, "a size class's first request");
      count("classes");
    } else {
      m.took(p, cl, align, fit, "a size class");
    }
    live.push_back({p, bytes});
    VH_CHECK(pool.active_size_classes() == classes.size(), "%zu size classes are active, %zu have been used", pool.active_size_classes(), classes.size());
    const fc::HugePagePool* q = pool.get_pool(cl);
    VH_CHECK(q && q->initial_size() == cfg.initial && q->growth_size() == cfg.growth && q->using_hugepages() == m.on_huge,
             "the pool of class %zu does not have the configuration given (%s)", cl, cfg.str().c_str());
    bool any = false;
    regions = 0;
    for (auto& [k2, x] : classes) { any |= x.on_huge; regions += x.regions.size(); }
    VH_CHECK(pool.using_hugepages() == any, "using_hugepages() is %d, some class %s hugepages", pool.using_hugepages(), any ? "uses" : "would have to use");
    state(comb(comb(cl, align), comb(fit, cfg.growth)));
  }
}

SCENARIO("multi", NQ / 2, NQ * 15, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  {
    Cfg cfg = random_cfg(r);
    std::unique_ptr<fc::MultiSizeHugePagePool> p;
    std::optional<fc::MultiSizeHugePageAllocator<uint64_t>> a;
    switch (r.below(10)) {
      case 0: cfg = {64 * MB, 64 * MB, true}; p = std::make_unique<fc::MultiSizeHugePagePool>(); count("defaults"); break;
      case 1: cfg = {cfg.initial, 64 * MB, true}; p = std::make_unique<fc::MultiSizeHugePagePool>(cfg.initial); count("defaults"); break;
      case 2: cfg = {cfg.initial, 64 * MB, cfg.huge}; p = std::make_unique<fc::MultiSizeHugePagePool>(cfg.initial, cfg.huge); count("defaults"); break;
      case 3: cfg = {64 * MB, 64 * MB, true}; a.emplace(fc::make_multi_size_hugepage_allocator<uint64_t>()); count("factories"); break;
      case 4: cfg = {cfg.initial, 64 * MB, cfg.huge}; a.emplace(fc::make_multi_size_hugepage_allocator<uint64_t>(cfg.initial, cfg.huge)); count("factories"); break;
      case 5: case 6: a.emplace(fc::make_multi_size_hugepage_allocator<uint64_t>(cfg.initial, cfg.huge, cfg.growth)); count("factories"); break;
      default: p = std::make_unique<fc::MultiSizeHugePagePool>(cfg.initial, cfg.huge, cfg.growth);
    }
    quiet("a multi-size pool's construction (its classes' pools are created on first use)");
    if (p) exercise_multi(r, *p, cfg, 150 * c.depth);
    else exercise_multi(r, *a->get_pool(), cfg, 150 * c.depth);
    count("multi_pools");
  }
  quiet("a multi-size pool's destruction");
  mem().expect_all_unmapped("at the end");
});

struct alignas(64) Leaf { unsigned char w[448]; Leaf* next_leaf; };
struct alignas(64) Inner { unsigned char w[190]; bool children_are_leaves; };
struct Plain { uint64_t w[5]; };

template <class A>
void exercise_alloc(Rng& r, A& a, Model& m, unsigned n, const char* who) {
  using T = typename A::value_type;
  exercise(r, m, n, [&](size_t, size_t) { return static_cast<void*>(a.allocate(1)); }, [&](void* q, size_t) { a.deallocate(static_cast<T*>(q), 1); },
           {sizeof(T)}, {std::max<size_t>(64, alignof(T))}, who);
}

SCENARIO("hugepage_allocator", NQ / 2, NQ * 15, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  {
    Model m;
    m.cfg = random_cfg(r);
    using A = fc::HugePageAllocator<Plain>;
    std::optional<A> a;
    switch (r.below(6)) {
      case 0: m.cfg = {}; a.emplace(); count("defaults"); break;
      case 1: m.cfg = {m.cfg.initial, 64 * MB, true}; a.emplace(m.cfg.initial); count("defaults"); break;
      case 2: m.cfg = {m.cfg.initial, 64 * MB, m.cfg.huge}; a.emplace(m.cfg.initial, m.cfg.huge); count("defaults"); break;
      default: a.emplace(m.cfg.initial, m.cfg.huge, m.cfg.growth);
    }
    m.constructed("an allocator's construction");
    A copy(*a);
    quiet("copying an allocator");
    if (r.chance(1, 2)) exercise_alloc(r, *a, m, 120, "an allocator");
    // the separate pools of the rebound allocators, and of what is rebound from those
    Model ml, mi;
    ml.cfg = mi.cfg = m.cfg;
    ml.cfg.huge = mi.cfg.huge = m.cfg.huge && m.on_huge;
    fc::HugePageAllocator<Leaf> l(*a);
    ml.constructed("a rebound allocator's pool");
    if (!ml.on_huge) mi.cfg.huge = false;  // rebinding goes by what a pool was started with
    const bool via = r.chance(1, 2);
    if (!via) mi.cfg.huge = m.cfg.huge && m.on_huge;
    fc::HugePageAllocator<Inner> in = via ? fc::HugePageAllocator<Inner>(l) : fc::HugePageAllocator<Inner>(*a);
    mi.constructed("a rebound allocator's pool");
    exercise_alloc(r, l, ml, 200 * c.depth, "a rebound allocator");
    exercise_alloc(r, in, mi, 200 * c.depth, "a rebound allocator");
    exercise_alloc(r, copy, m, 120 * c.depth, "an allocator");
    count("hugepage_allocators");
  }
  quiet("destruction");
  mem().expect_all_unmapped("at the end");
});

SCENARIO("two_pool", NQ / 2, NQ * 15, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  {
    Model ml, mi;
    ml.cfg = random_cfg(r);
    mi.cfg = random_cfg(r);
    // sizes that tell the pools' regions apart
    if (r.chance(1, 2)) ml.cfg.initial += mi.cfg.initial + HP * (1 + r.below(3));
    else mi.cfg.initial += ml.cfg.initial + HP * (1 + r.below(3));
    mi.cfg.huge = ml.cfg.huge;
    const unsigned kind = static_cast<unsigned>(r.below(4));
    if (kind == 0) ml.cfg.huge = mi.cfg.huge = true;
    if (kind <= 1) ml.cfg.growth = mi.cfg.growth = 64 * MB;
    if (kind == 2) mi.cfg.growth = 64 * MB;
    auto build = [&] {
      switch (kind) {
        case 0: return fc::make_two_pool_allocator<int64_t, std::string>(ml.cfg.initial, mi.cfg.initial);
        case 1: return fc::make_two_pool_allocator<int64_t, std::string>(ml.cfg.initial, mi.cfg.initial, ml.cfg.huge);
        case 2: return fc::make_two_pool_allocator<int64_t, std::string>(ml.cfg.initial, mi.cfg.initial, ml.cfg.huge, ml.cfg.growth);
        default: return fc::make_two_pool_allocator<int64_t, std::string>(ml.cfg.initial, mi.cfg.initial, ml.cfg.huge, ml.cfg.growth, mi.cfg.growth);
      }
    };
    auto a = build();
    const auto& pol = a.get_policy();
    VH_CHECK(pol.leaf_pool_ && pol.internal_pool_ && pol.leaf_pool_ != pol.internal_pool_, "the factory did not make two pools");
    VH_CHECK(pol.leaf_pool_->initial_size() == ml.cfg.initial && pol.leaf_pool_->growth_size() == ml.cfg.growth, "the leaf pool has initial size %zu growth %zu, given: %s",
             pol.leaf_pool_->initial_size(), pol.leaf_pool_->growth_size(), ml.cfg.str().c_str());
    VH_CHECK(pol.internal_pool_->initial_size() == mi.cfg.initial && pol.internal_pool_->growth_size() == mi.cfg.growth,
             "the internal pool has initial size %zu growth %zu, given: %s", pol.internal_pool_->initial_size(), pol.internal_pool_->growth_size(), mi.cfg.str().c_str());
    // the factory may make its pools in either order
    std::vector<Attempt> all;
    all.swap(mem().attempts);
    size_t ok = 0;
    for (auto& x : all) ok += x.ok;
    VH_CHECK(ok == 2, "the factory mapped %zu regions for two pools", ok);
    size_t cut = 0;
    while (!all[cut].ok) ++cut;
    std::vector<Attempt> one(all.begin(), all.begin() + static_cast<long>(cut) + 1), two(all.begin() + static_cast<long>(cut) + 1, all.end());
    const Mapping& m1 = mem().maps.at(one.back().base);
    const bool leaf_first = pol.leaf_pool_->bytes_remaining() == (m1.huge ? m1.rounded : m1.len);
    auto take = [&](Model& m, std::vector<Attempt>& v, const char* who) { mem().attempts = v; m.constructed(who); };
    take(ml, leaf_first ? one : two, "the leaf pool's construction");
    take(mi, leaf_first ? two : one, "the internal pool's construction");
    using P = fc::TwoPoolPolicy;
    fc::PolicyBasedHugePageAllocator<Leaf, P> l(a);
    fc::PolicyBasedHugePageAllocator<Inner, P> in(a);
    quiet("rebinding a two-pool allocator");
    for (int round = 0; round < 3; ++round) {
      exercise_alloc(r, l, ml, 150 * c.depth, "the leaf pool");
      exercise_alloc(r, in, mi, 150 * c.depth, "the internal pool");
    }
    count("two_pool_allocators");
  }
  quiet("destruction");
  mem().expect_all_unmapped("at the end");
});

// Trees: nothing is mapped while what they hold fits in the configured pools.
template <class T, class A, class F>
void tree_run(Case& c, A a, size_t max_maps, F&& each) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  {
    T t{a};
    std::map<int64_t, int64_t> m;
    t.insert(1, 1);
    m[1] = 1;
    for (auto& x : w.attempts) each(x);
    w.attempts.clear();
    const uint64_t maps0 = w.mmaps;
    for (unsigned k = 0; k < 3000; ++k) {
      step();
      const int64_t key = static_cast<int64_t>(r.below(1500));
      if (r.chance(3, 5)) { t.insert(key, key); m.emplace(key, key); }
      else { t.erase(key); m.erase(key); }
    }
    for (auto& x : w.attempts) each(x);
    VH_CHECK(w.mmaps - maps0 <= max_maps, "a tree of at most 1500 elements mapped %zu regions while it was used; its pools are far from exhausted",
             static_cast<size_t>(w.mmaps - maps0));
    w.attempts.clear();
    VH_CHECK(t.size() == m.size(), "size");
    t.clear();
    quiet("clear");
    count("trees");
  }
  quiet("a tree's destruction");
}
SCENARIO("trees", NQ / 4, NQ * 8, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  mem().huge_budget = -1;
  using fc::SearchMode;
  const bool huge = r.chance(1, 2);
  const size_t init = MB + r.below(8) * MB, grow = 4096 * (1 + r.below(3000));
  auto exact = [&](size_t want) {
    return [=](const Attempt& x) {
      VH_CHECK(x.ok || x.huge, "a regular mapping failed");
      VH_CHECK(x.len >= want && x.len <= up(want, HP), "a tree's pool mapped a region of %zu bytes, %zu were configured", x.len, want);
      VH_CHECK(huge || !x.huge, "a tree's pool attempted hugepages although it was configured without them");
    };
  };
  {
    switch (r.below(3)) {
      case 0: {
        using A = fc::HugePageAllocator<std::pair<int64_t, int64_t>>;
        tree_run<fc::btree<int64_t, int64_t, 16, 16, std::less<int64_t>, SearchMode::Binary, A>>(c, A(init, huge, grow), 1, exact(init));
        break;
      }
      case 1: {
        auto a = fc::make_two_pool_allocator<int64_t, int64_t>(init, init, huge, grow, grow);
        mem().attempts.clear();
        tree_run<fc::btree<int64_t, int64_t, 16, 16, std::less<int64_t>, SearchMode::Binary, decltype(a)>>(
            c, a, 0, [](const Attempt&) { VH_CHECK(false, "a tree mapped memory although its pools have room"); });
        break;
      }
      default: {
        auto a = fc::make_multi_size_hugepage_allocator<std::pair<int64_t, int64_t>>(init, huge, grow);
        tree_run<fc::btree<int64_t, int64_t, 16, 16, std::less<int64_t>, SearchMode::Binary, decltype(a)>>(c, a, 1, exact(init));
        break;
      }
    }
  }
  mem().expect_all_unmapped("at the end");
});
// A default-constructed tree on the hugepage allocator: 256 MB pools.
SCENARIO("default_tree", 16, 64, [](Case& c) {
  world(c);
  mem().huge_budget = -1;
  {
    using A = fc::HugePageAllocator<std::pair<int64_t, int64_t>>;
    fc::btree<int64_t, int64_t, 16, 16, std::less<int64_t>, fc::SearchMode::Binary, A> t;
    for (int64_t i = 0; i < 2000; ++i) t.insert(i * 7 % 2003, i);
    size_t ok = 0;
    bool tried = false;
    for (auto& x : mem().attempts) {
      VH_CHECK(x.len == 256 * MB, "a default-constructed tree's pool maps %zu bytes, documented: 256 MB", x.len);
      ok += x.ok;
      tried |= x.huge;
    }
    VH_CHECK(tried, "a default-constructed hugepage allocator did not attempt hugepages");
    VH_CHECK(ok >= 2, "leaf and internal nodes of a tree on the plain hugepage allocator have separate pools: %zu regions mapped", ok);
    count("default_trees");
  }
  mem().expect_all_unmapped("at the end");
});
}  // namespace
