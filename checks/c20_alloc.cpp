// Reuse and release above the single pool: size classes, allocators and trees.
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <list>
#include <map>
#include <memory>

#include "memwrap.hpp"
#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

namespace {
static size_t some(Rng& r) {
  static const size_t I[] = {100, 4096, 10000, 60000, 200000, 1 << 20};
  return I[r.below(6)];
}

// ---- size classes: a freed block serves the next request of its class
SCENARIO("classes", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    const size_t ini = some(r), gro = some(r);
    fc::MultiSizeHugePagePool pool(ini, r.chance(1, 2), gro);
    struct L { void* p; size_t n, al; };
    std::vector<L> live;
    std::map<std::pair<size_t, size_t>, std::set<void*>> freed;  // (class, alignment)
    w.unmap_allowed = false;
    std::vector<size_t> sizes;
    for (size_t i = 0, n = 1 + r.below(8); i < n; ++i) sizes.push_back(8 + r.below(r.chance(1, 3) ? 20000 : 1500));
    for (unsigned k = 0; k < 500 * c.depth; ++k) {
      step();
      note("size classes: %zu blocks in use", live.size());
      if (live.size() < 250 && r.chance(1, 2)) {
        const size_t n = sizes[r.below(sizes.size())], al = size_t(8) << r.below(4), cls = fc::MultiSizeHugePagePool::get_size_class(n);
        auto& f = freed[{cls, al}];
        const uint64_t mm = w.mmaps;
        void* p = pool.allocate(n, al);
        if (!f.empty()) {
          VH_CHECK(w.mmaps == mm, "a freed block of class %zu aligned %zu was available but memory was mapped", cls, al);
          bool known = false;
          for (auto& [key, set] : freed) known |= key.first == cls && set.count(p);
          VH_CHECK(known, "a freed block of class %zu aligned %zu was available but new memory was handed out", cls, al);
          count("reused_blocks");
        }
        for (auto& [key, set] : freed) set.erase(p);
        live.push_back({p, n, al});
        count("allocations");
      } else if (!live.empty()) {
        const size_t j = r.chance(1, 2) ? live.size() - 1 : r.below(live.size());
        const L l = live[j];
        const uint64_t mm = w.mmaps;
        pool.deallocate(l.p, l.n);
        VH_CHECK(w.mmaps == mm, "deallocate mapped memory");
        freed[{fc::MultiSizeHugePagePool::get_size_class(l.n), l.al}].insert(l.p);
        live[j] = live.back();
        live.pop_back();
        count("deallocations");
      }
      state(comb(live.size(), w.live_count()));
    }
    w.unmap_allowed = true;
    count("regions_released", w.live_count());
    count("class_cases");
  }
  w.expect_all_unmapped("the multi-size pool is gone");
});

// ---- the same history again and again: no memory beyond the first round's
using PairT = std::pair<int64_t, uint64_t>;
template <class A>
using Tree = fc::btree<int64_t, uint64_t, 8, 8, std::less<int64_t>, fc::SearchMode::Binary, A>;

template <class T>
void tree_round(T& a, T& b, uint64_t seed, unsigned n) {
  Rng r(seed);
  for (unsigned i = 0; i < n; ++i) {
    const int64_t k = static_cast<int64_t>(r.below(n));
    switch (r.below(8)) {
      case 0: case 1: case 2: case 3: a.insert(k, i); break;
      case 4: b.insert(k, i); break;
      case 5: a.erase(k); break;
      case 6: b.erase(k); break;
      default: if (r.chance(1, 100)) b = a; else if (r.chance(1, 80)) a.clear(); break;
    }
  }
  if (r.chance(1, 2)) {
    while (!a.empty()) a.erase(a.begin());
  } else {
    a.clear();
  }
  b.erase(b.begin(), b.end());
}
template <class A>
void rounds(Case& c, A alloc, const char* name) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  {
    Tree<A> a(alloc), b(alloc);
    const unsigned n = 200 + static_cast<unsigned>(r.below(2500));
    const uint64_t seed = r.next();
    w.unmap_allowed = false;
    tree_round(a, b, seed, n);
    const size_t warm = w.live_bytes;
    for (unsigned k = 0; k < 6 * c.depth; ++k) {
      step();
      note("%s: round %u of %u operations", name, k, n);
      tree_round(a, b, seed, n);
      VH_CHECK(w.live_bytes == warm, "%s: repeating the same operations on an empty tree grew the footprint from %zu to %zu bytes", name, warm, w.live_bytes);
    }
    w.unmap_allowed = true;
    count("steady_rounds", 6 * c.depth);
    state(comb(n, warm));
  }
}
template <class C>
void list_rounds(Case& c, C& l, const char* name) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  const uint64_t seed = r.next();
  const unsigned n = 100 + static_cast<unsigned>(r.below(1500));
  auto round = [&] {
    Rng q(seed);
    for (unsigned i = 0; i < n; ++i)
      if (q.chance(2, 3)) l.emplace_back(i); else if (!l.empty()) l.pop_front();
    l.clear();
  };
  w.unmap_allowed = false;
  round();
  const size_t warm = w.live_bytes;
  for (unsigned k = 0; k < 6 * c.depth; ++k) {
    step();
    round();
    VH_CHECK(w.live_bytes == warm, "%s: repeating the same operations on an empty list grew the footprint from %zu to %zu bytes", name, warm, w.live_bytes);
  }
  w.unmap_allowed = true;
  count("steady_rounds", 6 * c.depth);
}
struct Payload { unsigned v; char pad[60]; explicit Payload(unsigned x) : v(x), pad{} {} };

SCENARIO("rounds_plain", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  mem().reset(c.seed);
  mem().huge_available = r.chance(1, 2);
  { const size_t i = some(r), g = some(r); rounds(c, fc::HugePageAllocator<PairT>(i, r.chance(1, 2), g), "HugePageAllocator"); }
  mem().expect_all_unmapped("the trees and their pools are gone");
  {
    const size_t i = some(r), g = some(r);
    fc::HugePageAllocator<Payload> a(i, r.chance(1, 2), g);
    std::list<Payload, fc::HugePageAllocator<Payload>> l(a);
    list_rounds(c, l, "HugePageAllocator");
  }
  mem().expect_all_unmapped("the list and its pools are gone");
});
SCENARIO("rounds_multi", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  mem().reset(c.seed);
  mem().huge_available = r.chance(1, 2);
  {
    const size_t i = some(r), g = some(r);
    auto p = std::make_shared<fc::MultiSizeHugePagePool>(i, r.chance(1, 2), g);
    rounds(c, fc::MultiSizeHugePageAllocator<PairT>(p), "MultiSizeHugePageAllocator");
    const size_t regions = mem().live_count();
    {
      std::list<Payload, fc::MultiSizeHugePageAllocator<Payload>> l{fc::MultiSizeHugePageAllocator<Payload>(p)};
      list_rounds(c, l, "MultiSizeHugePageAllocator");
    }
    VH_CHECK(mem().live_count() >= regions, "a pool that is in use lost memory");
  }
  mem().expect_all_unmapped("every user of the pool is gone");
});
SCENARIO("rounds_policy", NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  mem().reset(c.seed);
  mem().huge_available = r.chance(1, 2);
  {
    const size_t i = some(r), j = some(r), g = some(r), h = some(r);
    auto a = fc::make_two_pool_allocator<int64_t, uint64_t>(i, j, r.chance(1, 2), g, h);
    rounds(c, a, "PolicyBasedHugePageAllocator");
    rounds(c, a, "PolicyBasedHugePageAllocator (pools used before)");
  }
  mem().expect_all_unmapped("every user of the pools is gone");
});
}  // namespace
