// Two-pool policy: where every node lives.
#include <fast_containers/btree.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>

#include "memwrap.hpp"
#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;
using fc::SearchMode;

namespace {
using K = TKEY;
using V = TVALUE;
using A = fc::PolicyBasedHugePageAllocator<std::pair<K, V>, fc::TwoPoolPolicy>;
using Tree = fc::btree<K, V, TLEAF, TINNER, std::less<K>, SearchMode::TMODE, A>;
using Model = std::map<K, V>;

// Types other than tree nodes, of many sizes and alignments.
template <size_t N, size_t Al = 8> struct alignas(Al) Plain { unsigned char w[N]; };
template <size_t N, size_t Al = 8> struct alignas(Al) LeafLike { unsigned char w[N]; void* next_leaf; };
template <size_t N, size_t Al = 8> struct alignas(Al) InnerLike { unsigned char w[N]; bool children_are_leaves; };
template <size_t N> struct Both { unsigned char w[N]; void* next_leaf; bool children_are_leaves; };
template <size_t N> struct BothInnerFirst { bool children_are_leaves; unsigned char w[N]; long next_leaf; };
struct LeafBase { LeafBase* next_leaf; };
struct DerivedLeaf : LeafBase { uint64_t x[4]; };
struct Kind {
  void* (*take)(const A&);
  void (*give)(const A&, void*);
  size_t bytes;
  bool inner;
  const char* name;
};
template <class T>
constexpr Kind kind(bool inner, const char* name) {
  return {[](const A& a) { return static_cast<void*>(fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>(a).allocate(1)); },
          [](const A& a, void* p) { fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>(a).deallocate(static_cast<T*>(p), 1); },
          sizeof(T), inner, name};
}
const Kind KINDS[] = {
    kind<Plain<24>>(false, "a plain type"), kind<LeafLike<48>>(false, "a leaf-node type"), kind<InnerLike<24>>(true, "an internal-node type"),
    kind<Both<16>>(false, "a leaf-node type"), kind<std::pair<K, V>>(false, "the value type"),
    kind<LeafLike<8, 64>>(false, "a leaf-node type"), kind<LeafLike<5000>>(false, "a leaf-node type"), kind<LeafLike<70000>>(false, "a leaf-node type"),
    kind<LeafLike<300000, 4096>>(false, "a leaf-node type"), kind<InnerLike<8, 64>>(true, "an internal-node type"),
    kind<InnerLike<4200>>(true, "an internal-node type"), kind<InnerLike<70000>>(true, "an internal-node type"),
    kind<InnerLike<300000, 4096>>(true, "an internal-node type"), kind<Plain<8>>(false, "a plain type"), kind<Plain<4096, 64>>(false, "a plain type"),
    kind<Plain<70000>>(false, "a plain type"), kind<BothInnerFirst<70>>(false, "a leaf-node type"), kind<DerivedLeaf>(false, "a leaf-node type"),
    kind<uint64_t>(false, "a plain type"), kind<void*>(false, "a plain type")};
constexpr size_t NKINDS = sizeof KINDS / sizeof *KINDS;

SCENARIO("trees_" SCN, NQ, NQ * 30, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  {
    // big enough that neither pool grows: each pool is exactly one region
    const bool hp = r.chance(1, 2);
    const size_t big = size_t(sizeof(V) > 1000 ? 96 : 48) << 20;
    auto leaf = std::make_shared<fc::HugePagePool>(big, hp, size_t(1) << 20);
    const uintptr_t leaf_base = w.maps.begin()->first;
    auto inner = std::make_shared<fc::HugePagePool>(big, hp, size_t(1) << 20);
    uintptr_t inner_base = 0;
    for (auto& [b, m] : w.maps) if (b != leaf_base) inner_base = b;
    auto in_leaf = [&](const void* p, size_t n) { const Mapping* m = w.containing(p, n); return m && m->base == leaf_base; };
    auto in_inner = [&](const void* p, size_t n) { const Mapping* m = w.containing(p, n); return m && m->base == inner_base; };
    std::unique_ptr<A> alloc = std::make_unique<A>(fc::TwoPoolPolicy(leaf, inner));
    constexpr size_t N = 4;
    std::vector<std::unique_ptr<Tree>> t;
    std::vector<Model> m(N);
    for (size_t i = 0; i < N; ++i) t.push_back(std::make_unique<Tree>(*alloc));
    static const uint32_t us[] = {60, 500, 3000};
    const uint32_t U = us[r.below(sizeof(V) > 1000 ? 2 : 3)];
    std::vector<std::pair<void*, size_t>> plain;  // block, kind
    size_t leaf_size = 0, inner_size = 0;

    auto inspect = [&](const char* when) {
      size_t leaves = 0, empties = 0, inner_lo = 0, inner_hi = 0;
      for (size_t i = 0; i < N; ++i) {
        VH_CHECK(t[i]->size() == m[i].size(), "%s: tree %zu has %zu elements, expected %zu", when, i, (size_t)t[i]->size(), m[i].size());
        size_t l = 0;
        uintptr_t prev = 0;
        auto it = t[i]->begin();
        for (auto& [k, v] : m[i]) {
          VH_CHECK(it != t[i]->end(), "%s: tree %zu lost elements", when, i);
          const K& kk = it->first;
          const V& vv = it->second;
          VH_CHECK(same(kk, k) && same(vv, v), "%s: tree %zu holds a wrong element at key %s", when, i, Keys<K>::str(k).c_str());
          VH_CHECK(in_leaf(&kk, sizeof kk) && in_leaf(&vv, sizeof vv), "%s: an element of tree %zu lives %s, leaves belong in the leaf pool", when, i,
                   in_inner(&kk, sizeof kk) ? "in the internal pool" : "outside the leaf pool");
          if (reinterpret_cast<uintptr_t>(&kk) != prev + sizeof(K)) ++l;
          prev = reinterpret_cast<uintptr_t>(&kk);
          ++it;
        }
        VH_CHECK(it == t[i]->end(), "%s: tree %zu has extra elements", when, i);
        leaves += l;
        empties += l == 0;
        if (l > 1) {
          inner_lo += (l + TINNER - 1) / TINNER;
          inner_hi += l - 1;
        }
      }
      count("leaves_located", leaves);
      count("inspections");
#ifdef ALLOCATOR_STATS
      size_t plain_leaf = 0, plain_inner = 0;
      for (auto& p : plain) (KINDS[p.second].inner ? plain_inner : plain_leaf)++;
      const size_t lb = leaf->get_allocations() - leaf->get_deallocations();
      const size_t ib = inner->get_allocations() - inner->get_deallocations();
      VH_CHECK(lb >= leaves + plain_leaf && lb <= leaves + plain_leaf + empties, "%s: the leaf pool has %zu blocks in use; the trees have %zu leaves and there are %zu plain blocks", when, lb, leaves, plain_leaf);
      VH_CHECK(ib >= inner_lo + plain_inner && ib <= inner_hi + plain_inner, "%s: the internal pool has %zu blocks in use; %zu leaves need %zu to %zu internal nodes (and %zu other blocks)", when, ib, leaves, inner_lo, inner_hi, plain_inner);
      if (plain.empty()) {
        if (lb && !leaf_size) leaf_size = leaf->get_current_usage() / lb;
        if (ib && !inner_size) inner_size = inner->get_current_usage() / ib;
        VH_CHECK(leaf->get_current_usage() == lb * leaf_size, "%s: the leaf pool holds blocks of other sizes than leaves", when);
        VH_CHECK(inner->get_current_usage() == ib * inner_size, "%s: the internal pool holds blocks of other sizes than internal nodes", when);
      }
      count("usage_checks");
      state(comb(leaves, comb(ib, empties)));
#else
      state(comb(leaves, comb(empties, plain.size())));
#endif
    };
    auto key = [&]() { return Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r); };
    inspect("start");
    for (unsigned round = 0; round < 60; ++round) {
      const size_t x = r.below(N), y = r.below(N);
      const unsigned op = static_cast<unsigned>(r.below(16));
      step();
      note("round %u op %u trees %zu(%zu) %zu(%zu)", round, op, x, m[x].size(), y, m[y].size());
      switch (op) {
        case 0: t[x] = std::make_unique<Tree>(*t[y]); { Model q = m[y]; m[x] = q; } break;
        case 1: *t[x] = *t[y]; { Model q = m[y]; m[x] = q; } break;
        case 2: if (x != y) { t[x] = std::make_unique<Tree>(std::move(*t[y])); m[x] = std::move(m[y]); m[y].clear(); } break;
        case 3: if (x != y) { *t[x] = std::move(*t[y]); m[x] = std::move(m[y]); m[y].clear(); } break;
        case 4: t[x]->swap(*t[y]); if (x != y) m[x].swap(m[y]); break;
        case 5: t[x]->clear(); m[x].clear(); break;
        case 6: t[x] = std::make_unique<Tree>(t[y]->get_allocator()); m[x].clear(); break;
        case 7: {  // blocks freed by one tree serve another
          // Everything tree x ever held is freed; a copy of a tree no larger
          // must fit into it.
          Model q = m[x];
          auto tmp = std::make_unique<Tree>(*t[x]);
          tmp.reset();
          const size_t lr = leaf->bytes_remaining(), ir = inner->bytes_remaining(), mm = w.mmaps;
          tmp = std::make_unique<Tree>(*t[x]);
          VH_CHECK(leaf->bytes_remaining() == lr && inner->bytes_remaining() == ir && w.mmaps == mm,
                   "a copy of a tree took fresh memory although another copy of it had just been freed");
          count("cross_tree_reuse");
          break;
        }
        case 8: {  // other types through rebound allocators
          for (int k = 0; k < 6; ++k) {
            if (plain.size() > 20 || (!plain.empty() && r.chance(1, 2))) {
              size_t q = r.below(plain.size());
              auto [p, ty] = plain[q];
              plain.erase(plain.begin() + static_cast<long>(q));
              KINDS[ty].give(*alloc, p);
              count("other_types_freed");
            } else {
              const size_t ty = r.below(NKINDS);
              const Kind& kd = KINDS[ty];
              void* p = kd.take(*alloc);
              VH_CHECK(kd.inner ? in_inner(p, kd.bytes) : in_leaf(p, kd.bytes), "a block of %zu bytes for %s lives in the %s pool", kd.bytes, kd.name,
                       in_inner(p, 8) ? "internal" : "leaf");
              memset(p, 0x77, kd.bytes < 64 ? kd.bytes : 64);
              plain.push_back({p, ty});
              count("other_types_placed");
            }
          }
          break;
        }
        default: {
          const unsigned n = 20 + static_cast<unsigned>(r.below(300));
          const unsigned g = 20 + static_cast<unsigned>(r.below(70));
          for (unsigned k = 0; k < n; ++k) {
            // alternate between two trees: their blocks interleave in the pools
            const size_t z = r.chance(1, 3) ? y : x;
            K kk = key();
            if (r.below(100) < g) {
              V v = Vals<V>::make(r.next() >> 20);
              t[z]->insert_or_assign(kk, v);
              auto e = m[z].find(kk);
              if (e == m[z].end()) m[z].emplace(kk, v); else e->second = v;
            } else {
              t[z]->erase(kk);
              m[z].erase(kk);
            }
            count("element_ops");
          }
        }
      }
      inspect("after an operation");
    }
    VH_CHECK(w.mmaps == 2, "pool regions were mapped although both pools had room");
    // free the remaining plain blocks, drop the user's allocator, destroy in random order
    while (!plain.empty()) {
      auto [p, ty] = plain.back();
      plain.pop_back();
      KINDS[ty].give(*alloc, p);
    }
    alloc.reset();
    inspect("before destruction");
    t.clear();
#ifdef ALLOCATOR_STATS
    VH_CHECK(leaf->get_current_usage() == 0, "the leaf pool has %zu bytes in use after all trees are gone", leaf->get_current_usage());
    VH_CHECK(inner->get_current_usage() == 0, "the internal pool has %zu bytes in use after all trees are gone", inner->get_current_usage());
    count("final_usage_checks");
#endif
  }
  w.expect_all_unmapped("the last user of the pools is gone");
});

// The factory configures each pool as asked.
SCENARIO("factory_" SCN, 8, 64, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  const bool hp = r.chance(1, 2);
  const size_t l = 4096 + r.below(100000), i = 4096 + r.below(100000), lg = 8192 + r.below(50000), ig = 8192 + r.below(50000);
  {
    auto a = fc::make_two_pool_allocator<K, V>(l, i, hp, lg, ig);
    auto& p = a.get_policy();
    VH_CHECK(p.leaf_pool_ && p.internal_pool_ && p.leaf_pool_ != p.internal_pool_, "the factory did not make two pools");
    VH_CHECK(p.leaf_pool_->initial_size() == l && p.internal_pool_->initial_size() == i, "the factory mixed up the initial sizes");
    VH_CHECK(p.leaf_pool_->growth_size() == lg && p.internal_pool_->growth_size() == ig, "the factory mixed up the growth sizes");
    VH_CHECK(p.leaf_pool_->using_hugepages() == (hp && w.huge_available) && p.internal_pool_->using_hugepages() == (hp && w.huge_available), "the factory's pools use the wrong pages");
    // growing pools: every element must still lie in the leaf pool's memory
    fc::btree<K, V, TLEAF, TINNER, std::less<K>, SearchMode::TMODE, decltype(a)> t(a);
    for (uint32_t k = 0; k < 1500; ++k) t.insert(Keys<K>::make(k, 2000, r), Vals<V>::make(k));
    VH_CHECK(t.size() == 1500, "size");
    count("factories");
  }
  w.expect_all_unmapped("the factory's allocator and tree are gone");
});
}  // namespace
