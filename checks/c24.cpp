// Allocator identity: which pool an allocator denotes, equality, freeing each
// other's blocks, pool lifetime.
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <list>
#include <map>
#include <memory>
#include <vector>

#include "memwrap.hpp"
#include "vh.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

namespace {
struct Obj { uint64_t w[5]; };
struct Other { uint64_t w[9]; };
struct Same { uint64_t w[5]; };  // same size and alignment as Obj
struct alignas(64) Wide { uint64_t w[8]; };
struct LeafLike { uint64_t w[6]; LeafLike* next_leaf; };
struct InnerLike { uint64_t w[3]; bool children_are_leaves; };
struct BothLike { uint64_t w[3]; BothLike* next_leaf; bool children_are_leaves; };

// Regions by the pool that mapped them.
struct Regions {
  std::map<uintptr_t, int> of;
  uint64_t seen = 0;
  void adopt(int pool) {
    for (auto& [b, m] : mem().maps)
      if (m.serial > seen && m.live) of[b] = pool;
    seen = mem().serial;
  }
  int pool_at(const void* p, size_t n) const {
    const Mapping* m = mem().containing(p, n);
    if (!m) return -1;
    auto it = of.find(m->base);
    return it == of.end() ? -2 : it->second;
  }
  bool any_live(int pool) const {
    for (auto& [b, p] : of)
      if (p == pool && mem().maps.at(b).live) return true;
    return false;
  }
  bool any_dead(int pool) const {
    for (auto& [b, p] : of)
      if (p == pool && !mem().maps.at(b).live) return true;
    return false;
  }
};

// Is this region as long as configured, or rounded up to whole pages of its kind?
static bool sized(const Mapping& m, size_t want) {
  const size_t unit = m.huge ? MemWorld::hpage : MemWorld::page;
  return m.len >= want && m.len <= (want + unit - 1) / unit * unit;
}

struct Live { void* p; int pool; uint64_t stamp; };

template <class T>
void stamp(T* p, uint64_t s) {
  for (size_t i = 0; i < sizeof(T) / 8; ++i) reinterpret_cast<uint64_t*>(p)[i] = mix(s + i);
}
// Take blocks until a freed one comes back: whatever the order in which a pool
// reuses its blocks, it does so before it takes new memory.
template <class A, class T>
T* get_back(A& a, T* freed) {
  std::vector<T*> others;
  const uint64_t before = mem().mmaps;
  T* got = nullptr;
  while (others.size() < 50000) {
    T* p = a.allocate(1);
    if (p == freed) { got = p; break; }
    others.push_back(p);
    VH_CHECK(mem().mmaps == before, "a block freed through one allocator is not reused through an equal one");
  }
  for (T* p : others) a.deallocate(p, 1);
  VH_CHECK(got, "a block freed through one allocator is not reused through an equal one");
  return got;
}
template <class T>
void verify(const T* p, uint64_t s, const char* when) {
  for (size_t i = 0; i < sizeof(T) / 8; ++i)
    VH_CHECK(reinterpret_cast<const uint64_t*>(p)[i] == mix(s + i), "%s: block %p was overwritten", when, (const void*)p);
}

// ---------------------------------------------------------------- plain hugepage allocator
template <class Other>
void plain(Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  using A = fc::HugePageAllocator<Obj>;
  using B = fc::HugePageAllocator<Other>;
  struct HA { std::unique_ptr<A> a; int pool; };
  struct HB { std::unique_ptr<B> b; int pool; };
  std::vector<HA> as;
  std::vector<HB> bs;
  std::vector<Live> la, lb;
  Regions reg;
  reg.seen = mem().serial;
  struct Cfg { size_t init_len; bool huge; size_t grow; };
  std::vector<Cfg> cfg;
  int pools = 0;
  uint64_t st = 0;
  auto owners = [&](int p) { size_t n = 0; for (auto& x : as) n += x.pool == p; for (auto& x : bs) n += x.pool == p; return n; };
  auto fresh = [&]() {
    static const size_t I[] = {64, 4096, 9000, 70000};
    const size_t i = I[r.below(4)], g = I[r.below(4)];
    const bool h = r.chance(1, 2);
    as.push_back({std::make_unique<A>(i, h, g), pools});
    reg.adopt(pools);
    cfg.push_back({i, h && w.huge_available, g});
    ++pools;
  };
  fresh();
  // single-region lookup of a pool's first mapping
  auto first_region = [&](int p) -> const Mapping* {
    const Mapping* best = nullptr;
    for (auto& [b, q] : reg.of)
      if (q == p && (!best || mem().maps.at(b).serial < best->serial)) best = &mem().maps.at(b);
    return best;
  };
  for (unsigned k = 0; k < 300 * c.depth; ++k) {
    step();
    const size_t i = as.empty() ? 0 : r.below(as.size());
    const unsigned op = static_cast<unsigned>(r.below(16));
    note("hugepage allocators %zu+%zu op %u blocks %zu", as.size(), bs.size(), op, la.size() + lb.size());
    switch (as.empty() ? 0 : op) {
      case 0: if (as.size() < 8) fresh(); break;
      case 1: if (as.size() < 9) { int p = as[i].pool; as.push_back({std::make_unique<A>(*as[i].a), p}); } break;
      case 2: if (as.size() < 9) { int p = as[i].pool; as.push_back({std::make_unique<A>(std::move(*as[i].a)), p}); } break;  // source stays usable
      case 3: { size_t j = r.below(as.size()); *as[i].a = *as[j].a; as[i].pool = as[j].pool; break; }
      case 4: { size_t j = r.below(as.size()); if (i != j) { *as[i].a = std::move(*as[j].a); as[i].pool = as[j].pool; } break; }
      case 5: { size_t j = r.below(as.size()); std::swap(*as[i].a, *as[j].a); std::swap(as[i].pool, as[j].pool); break; }
      case 6: as.erase(as.begin() + static_cast<long>(i)); break;
      case 7: if (bs.size() < 6) {  // rebinding: a separate pool, same configuration
          const int from = as[i].pool;
          bs.push_back({std::make_unique<B>(*as[i].a), pools});
          reg.adopt(pools);
          const Mapping* m = first_region(pools);
          VH_CHECK(m, "the rebound allocator has no pool of its own");
          VH_CHECK(sized(*m, cfg[static_cast<size_t>(from)].init_len),
                   "the rebound allocator's pool starts with %zu bytes, the original with %zu", m->len, cfg[static_cast<size_t>(from)].init_len);
          VH_CHECK(m->huge == cfg[static_cast<size_t>(from)].huge, "the rebound allocator's pool uses other pages than the original's");
          VH_CHECK(!(*as[i].a == *bs.back().b) && *as[i].a != *bs.back().b, "allocators of different pools compare equal");
          cfg.push_back({cfg[static_cast<size_t>(from)].init_len, m->huge, cfg[static_cast<size_t>(from)].grow});
          ++pools;
          count("rebinds");
        } break;
      case 8: if (!bs.empty()) {
          size_t j = r.below(bs.size());
          int p = bs[j].pool;
          if (r.chance(1, 3)) bs.erase(bs.begin() + static_cast<long>(j));
          else if (r.chance(1, 2) && bs.size() < 8) bs.push_back({std::make_unique<B>(*bs[j].b), p});
          else { size_t q = r.below(bs.size()); *bs[j].b = *bs[q].b; bs[j].pool = bs[q].pool; }
        } break;
      case 9: case 10: case 11: {
        Obj* p = as[i].a->allocate(1);
        reg.adopt(as[i].pool);
        VH_CHECK(reg.pool_at(p, sizeof *p) == as[i].pool, "a block of allocator %zu comes from another pool than the allocator's", i);
        VH_CHECK(reinterpret_cast<uintptr_t>(p) % 64 == 0, "block %p is not aligned to a cache line", (void*)p);
        stamp(p, ++st);
        la.push_back({p, as[i].pool, st});
        count("allocations");
        break;
      }
      case 12: if (!bs.empty()) {
          size_t j = r.below(bs.size());
          Other* p = bs[j].b->allocate(1);
          reg.adopt(bs[j].pool);
          VH_CHECK(reg.pool_at(p, sizeof *p) == bs[j].pool, "a block of a rebound allocator comes from another pool");
          stamp(p, ++st);
          lb.push_back({p, bs[j].pool, st});
        } break;
      default:  // free through any equal allocator, then get it back through another equal one
        if (!la.empty()) {
          size_t q = r.below(la.size());
          for (size_t t = 0; t < as.size(); ++t) {
            size_t j = (i + t) % as.size();
            if (as[j].pool != la[q].pool) continue;
            verify(static_cast<Obj*>(la[q].p), la[q].stamp, "before freeing through an equal allocator");
            as[j].a->deallocate(static_cast<Obj*>(la[q].p), 1);
            for (size_t u = 0; u < as.size(); ++u) {
              size_t e = (j + 1 + u) % as.size();
              if (as[e].pool != la[q].pool) continue;
              Obj* again = get_back(*as[e].a, static_cast<Obj*>(la[q].p));
              stamp(again, ++st);
              la[q].stamp = st;
              break;
            }
            count("freed_by_equal_allocator");
            break;
          }
        }
        break;
    }
    // equality matrix
    for (auto& x : as)
      for (auto& y : as) {
        VH_CHECK((*x.a == *y.a) == (x.pool == y.pool) && (*x.a != *y.a) == (x.pool != y.pool), "two allocators with %s compare %s",
                 x.pool == y.pool ? "one pool" : "different pools", *x.a == *y.a ? "equal" : "unequal");
        count("equality_checks");
      }
    // lifetime
    for (int p = 0; p < pools; ++p) {
      const bool own = owners(p) > 0;
      if (own) VH_CHECK(!reg.any_dead(p), "memory of a pool that still has an owner was unmapped");
      else VH_CHECK(!reg.any_live(p), "memory of a pool without owners is still mapped");
      const Mapping* first = first_region(p);
      const size_t g = cfg[static_cast<size_t>(p)].grow;
      if (own && g >= 4096)
        for (auto& [b, q] : reg.of)
          if (q == p && first && b != first->base) {
            const Mapping& m = mem().maps.at(b);
            VH_CHECK(sized(m, g),
                     "pool %d is configured to grow by %zu bytes but grew by %zu", p, g, m.len);
            count("growth_sizes_checked");
          }
      if (!own) {
        for (size_t q = 0; q < la.size();) if (la[q].pool == p) la.erase(la.begin() + static_cast<long>(q)); else ++q;
        for (size_t q = 0; q < lb.size();) if (lb[q].pool == p) lb.erase(lb.begin() + static_cast<long>(q)); else ++q;
      }
    }
    for (auto& b : la) verify(static_cast<Obj*>(b.p), b.stamp, "after an operation");
    for (auto& b : lb) verify(static_cast<Other*>(b.p), b.stamp, "after an operation");
    state(comb(comb(as.size(), bs.size()), comb(la.size(), static_cast<uint64_t>(op))));
  }
  as.clear();
  bs.clear();
  w.expect_all_unmapped("the last allocator is gone");
}
SCENARIO("hugepage", NQ, NQ * 30, plain<Other>);
SCENARIO("hugepage_same_size", NQ / 2, NQ * 15, plain<Same>);
SCENARIO("hugepage_aligned", NQ / 3, NQ * 10, plain<Wide>);

// ---------------------------------------------------------------- policy and multi-size allocators
// Pools here are shared objects the user may hold too.
template <class F, class Other>
void soup(Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  using A = typename F::template Al<Obj>;
  using B = typename F::template Al<Other>;
  struct HA { std::unique_ptr<A> a; int pool; };
  struct HB { std::unique_ptr<B> b; int pool; };
  struct HL { std::unique_ptr<typename F::template List<Obj>> l; int pool; std::vector<uint64_t> want; };
  std::vector<HA> as;
  std::vector<HB> bs;
  std::vector<HL> ls;
  std::vector<std::pair<typename F::Handle, int>> handles;
  std::vector<Live> la, lb;
  Regions reg;
  reg.seen = mem().serial;
  int pools = 0;
  uint64_t st = 0;
  auto owners = [&](int p) {
    size_t n = 0;
    for (auto& x : as) n += x.pool == p;
    for (auto& x : bs) n += x.pool == p;
    for (auto& x : ls) n += x.pool == p;
    for (auto& x : handles) n += x.second == p;
    return n;
  };
  auto fresh = [&]() {
    auto h = F::make(r);
    reg.adopt(pools);
    as.push_back({std::make_unique<A>(F::alloc(h)), pools});
    if (r.chance(1, 2)) handles.push_back({h, pools});
    ++pools;
  };
  fresh();
  for (unsigned k = 0; k < 300 * c.depth; ++k) {
    step();
    if (as.empty()) fresh();
    const size_t i = r.below(as.size());
    const unsigned op = static_cast<unsigned>(r.below(20));
    note("%s allocators %zu+%zu containers %zu op %u", F::name, as.size(), bs.size(), ls.size(), op);
    switch (op) {
      case 0: if (as.size() < 8) fresh(); break;
      case 1: if (as.size() < 9) { int p = as[i].pool; as.push_back({std::make_unique<A>(*as[i].a), p}); } break;
      case 2: if (as.size() < 9) { int p = as[i].pool; as.push_back({std::make_unique<A>(std::move(*as[i].a)), p}); } break;
      case 3: { size_t j = r.below(as.size()); *as[i].a = *as[j].a; as[i].pool = as[j].pool; break; }
      case 4: { size_t j = r.below(as.size()); if (i != j) { *as[i].a = std::move(*as[j].a); as[i].pool = as[j].pool; } break; }
      case 5: { size_t j = r.below(as.size()); std::swap(*as[i].a, *as[j].a); std::swap(as[i].pool, as[j].pool); break; }
      case 6: as.erase(as.begin() + static_cast<long>(i)); break;
      case 7: if (bs.size() < 6) { int p = as[i].pool; bs.push_back({std::make_unique<B>(*as[i].a), p}); count("rebinds");
          VH_CHECK(*as[i].a == A(*bs.back().b), "an allocator rebound and back is not equal to the original"); } break;
      case 8: if (!bs.empty()) { size_t j = r.below(bs.size()); int p = bs[j].pool; if (as.size() < 9) as.push_back({std::make_unique<A>(*bs[j].b), p}); bs.erase(bs.begin() + static_cast<long>(j)); count("rebinds"); } break;
      case 9: if (!handles.empty()) handles.erase(handles.begin() + static_cast<long>(r.below(handles.size()))); break;
      case 10: if (ls.size() < 5) { int p = as[i].pool; ls.push_back({std::make_unique<typename F::template List<Obj>>(*as[i].a), p, {}}); } break;
      case 11: if (!ls.empty()) { size_t j = r.below(ls.size()); ls.erase(ls.begin() + static_cast<long>(j)); } break;
      case 12: case 13: if (!ls.empty()) {
          HL& L = ls[r.below(ls.size())];
          for (int t = 0; t < 10; ++t) {
            Obj o;
            stamp(&o, ++st);
            L.l->push_back(o);
            L.want.push_back(st);
            reg.adopt(L.pool);
            VH_CHECK(reg.pool_at(&L.l->back(), sizeof(Obj)) == L.pool, "a container's element lies outside the pool of its allocator");
          }
          if (r.chance(1, 2)) { L.l->pop_front(); L.want.erase(L.want.begin()); }
          count("container_operations");
        } break;
      case 14: case 15: case 16: {
        Obj* p = as[i].a->allocate(1);
        reg.adopt(as[i].pool);
        VH_CHECK(reg.pool_at(p, sizeof *p) == as[i].pool, "a block of allocator %zu comes from another pool than the allocator's", i);
        stamp(p, ++st);
        la.push_back({p, as[i].pool, st});
        count("allocations");
        break;
      }
      case 17: if (!bs.empty()) {
          size_t j = r.below(bs.size());
          Other* p = bs[j].b->allocate(1);
          reg.adopt(bs[j].pool);
          VH_CHECK(reg.pool_at(p, sizeof *p) == bs[j].pool, "a block of a rebound allocator comes from another pool");
          stamp(p, ++st);
          lb.push_back({p, bs[j].pool, st});
        } break;
      default:
        if (!la.empty()) {
          size_t q = r.below(la.size());
          for (size_t t = 0; t < as.size(); ++t) {
            size_t j = (i + t) % as.size();
            if (as[j].pool != la[q].pool) continue;
            verify(static_cast<Obj*>(la[q].p), la[q].stamp, "before freeing through an equal allocator");
            if (r.chance(1, 3)) {  // through a rebound copy
              B b(*as[j].a);
              A back(b);
              back.deallocate(static_cast<Obj*>(la[q].p), 1);
            } else {
              as[j].a->deallocate(static_cast<Obj*>(la[q].p), 1);
            }
            Obj* again = get_back(*as[j].a, static_cast<Obj*>(la[q].p));
            stamp(again, ++st);
            la[q].stamp = st;
            count("freed_by_equal_allocator");
            break;
          }
        }
        break;
    }
    for (auto& x : as)
      for (auto& y : as) {
        VH_CHECK((*x.a == *y.a) == (x.pool == y.pool) && (*x.a != *y.a) == (x.pool != y.pool), "two allocators with %s compare %s",
                 x.pool == y.pool ? "one pool" : "different pools", *x.a == *y.a ? "equal" : "unequal");
        count("equality_checks");
      }
    for (auto& x : as)
      for (auto& y : bs)
        VH_CHECK((*x.a == *y.b) == (x.pool == y.pool), "an allocator and one rebound from %s pool compare %s", x.pool == y.pool ? "the same" : "another",
                 *x.a == *y.b ? "equal" : "unequal");
    for (auto& x : ls)
      for (auto& y : as)
        VH_CHECK((x.l->get_allocator() == *y.a) == (x.pool == y.pool), "a container's get_allocator() does not denote its pool");
    for (int p = 0; p < pools; ++p) {
      const bool own = owners(p) > 0;
      if (own) VH_CHECK(!reg.any_dead(p), "memory of a pool that still has an owner was unmapped");
      else VH_CHECK(!reg.any_live(p), "memory of a pool without owners is still mapped");
      if (!own) {
        for (size_t q = 0; q < la.size();) if (la[q].pool == p) la.erase(la.begin() + static_cast<long>(q)); else ++q;
        for (size_t q = 0; q < lb.size();) if (lb[q].pool == p) lb.erase(lb.begin() + static_cast<long>(q)); else ++q;
      }
    }
    for (auto& b : la) verify(static_cast<Obj*>(b.p), b.stamp, "after an operation");
    for (auto& b : lb) verify(static_cast<Other*>(b.p), b.stamp, "after an operation");
    for (auto& x : ls) {
      VH_CHECK(x.l->size() == x.want.size(), "container size");
      auto it = x.l->begin();
      for (auto s : x.want) { verify(&*it, s, "container element"); ++it; }
    }
    state(comb(comb(as.size(), bs.size()), comb(la.size() + 100 * ls.size(), static_cast<uint64_t>(op))));
  }
  if (r.chance(1, 2)) { as.clear(); bs.clear(); handles.clear(); for (auto& x : ls) { if (!x.l->empty()) verify(&x.l->front(), x.want.front(), "after the user's allocators are gone"); } ls.clear(); }
  else { ls.clear(); handles.clear(); as.clear(); bs.clear(); }
  w.expect_all_unmapped("the last owner is gone");
}

static size_t small(Rng& r) {
  static const size_t I[] = {64, 4096, 9000, 70000};
  return I[r.below(4)];
}
struct Multi {
  static constexpr const char* name = "multi-size";
  template <class T> using Al = fc::MultiSizeHugePageAllocator<T>;
  template <class T> using List = std::list<T, Al<T>>;
  using Handle = std::shared_ptr<fc::MultiSizeHugePagePool>;
  static Handle make(Rng& r) { size_t i = small(r), g = small(r); return std::make_shared<fc::MultiSizeHugePagePool>(i, r.chance(1, 2), g); }
  static Al<Obj> alloc(const Handle& h) { return Al<Obj>(h); }
};
struct Policy {
  static constexpr const char* name = "two-pool";
  template <class T> using Al = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;
  template <class T> using List = std::list<T, Al<T>>;
  using Handle = fc::TwoPoolPolicy;
  static Handle make(Rng& r) {
    size_t a = small(r), b = small(r), g = small(r), h = small(r);
    bool hp = r.chance(1, 2);
    return fc::TwoPoolPolicy(std::make_shared<fc::HugePagePool>(a, hp, g), std::make_shared<fc::HugePagePool>(b, hp, h));
  }
  static Al<Obj> alloc(const Handle& h) { return Al<Obj>(h); }
};
SCENARIO("multi", NQ, NQ * 30, (soup<Multi, Other>));
SCENARIO("policy", NQ, NQ * 30, (soup<Policy, Other>));
SCENARIO("multi_same_size", NQ / 2, NQ * 15, (soup<Multi, Same>));
SCENARIO("policy_same_size", NQ / 2, NQ * 15, (soup<Policy, Same>));
// Two policies are the same only if both their pools are.
SCENARIO("policy_shared_pool", NQ / 4, NQ, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  std::vector<std::shared_ptr<fc::HugePagePool>> pools;
  for (int i = 0; i < 3; ++i) pools.push_back(std::make_shared<fc::HugePagePool>(small(r), false, small(r)));
  using P = fc::TwoPoolPolicy;
  struct X { fc::PolicyBasedHugePageAllocator<Obj, P> o; fc::PolicyBasedHugePageAllocator<LeafLike, P> l; fc::PolicyBasedHugePageAllocator<InnerLike, P> i; size_t a, b; };
  std::vector<X> xs;
  for (int k = 0; k < 6; ++k) {
    step();
    const size_t a = r.below(3), b = r.below(3);
    fc::PolicyBasedHugePageAllocator<Obj, P> o(P(pools[a], pools[b]));
    xs.push_back({o, decltype(X::l)(o), decltype(X::i)(o), a, b});
  }
  auto agree = [](const auto& x, const auto& y, bool one) {
    VH_CHECK((x == y) == one && (x != y) != one && (y == x) == one, "two-pool allocators of %s compare %s", one ? "the same two pools" : "different pools", x == y ? "equal" : "unequal");
    count("equality_checks");
  };
  for (auto& x : xs)
    for (auto& y : xs) {
      const bool one = x.a == y.a && x.b == y.b;
      agree(x.o, y.o, one); agree(x.l, y.l, one); agree(x.i, y.i, one);
      agree(x.o, y.l, one); agree(x.o, y.i, one); agree(x.l, y.i, one);
    }
  xs.clear();
  pools.clear();
  w.expect_all_unmapped("the last owner is gone");
});
// An assignment, a swap or a conversion carries both pools, whichever of them the
// two sides share already and whichever the allocator's own type uses.
SCENARIO("policy_assign", NQ / 2, NQ * 3, [](Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  using P = fc::TwoPoolPolicy;
  std::vector<std::shared_ptr<fc::HugePagePool>> leaf, inner;
  Regions reg;
  for (size_t i = 0; i < 6; ++i) {
    auto p = std::make_shared<fc::HugePagePool>(70000, false, 70000);
    (i < 3 ? leaf : inner).push_back(p);
    reg.adopt(static_cast<int>(i));
  }
  struct X {
    fc::PolicyBasedHugePageAllocator<Obj, P> o;
    fc::PolicyBasedHugePageAllocator<LeafLike, P> l;
    fc::PolicyBasedHugePageAllocator<InnerLike, P> i;
    size_t a, b;
  };
  std::vector<X> xs;
  for (int k = 0; k < 5; ++k) {
    const size_t a = r.below(3), b = r.below(3);
    fc::PolicyBasedHugePageAllocator<Obj, P> o(P(leaf[a], inner[b]));
    xs.push_back({o, decltype(X::l)(o), decltype(X::i)(o), a, b});
  }
  auto comes = [&](auto al, size_t pool, const char* what) {
    auto* p = al.allocate(1);
    VH_CHECK(reg.pool_at(p, sizeof *p) == static_cast<int>(pool), "after an assignment, a block of the %s comes from another pool", what);
    al.deallocate(p, 1);
    count("blocks_after_assignment");
  };
  for (unsigned k = 0; k < 60 * c.depth; ++k) {
    step();
    X& d = xs[r.below(xs.size())];
    const X s = xs[r.below(xs.size())];
    const unsigned op = static_cast<unsigned>(r.below(6));
    note("assign op %u: leaf %zu internal %zu from leaf %zu internal %zu", op, d.a, d.b, s.a, s.b);
    X t = s;
    using std::swap;
    switch (op) {
      case 0: d.o = s.o; d.l = s.l; d.i = s.i; break;
      case 1: d.o = std::move(t.o); d.l = std::move(t.l); d.i = std::move(t.i); break;
      case 2: d.o = decltype(X::o)(s.l); d.l = decltype(X::l)(s.i); d.i = decltype(X::i)(s.o); break;
      case 3: d.i = decltype(X::i)(s.l); d.l = decltype(X::l)(s.i); d.o = decltype(X::o)(d.i); break;
      case 4: swap(d.o, t.o); swap(d.l, t.l); swap(d.i, t.i); break;
      default: d = s; break;
    }
    d.a = s.a;
    d.b = s.b;
    for (auto& y : xs) {
      const bool one = d.a == y.a && d.b == y.b;
      VH_CHECK((d.o == y.o) == one && (d.l == y.l) == one && (d.i == y.i) == one && (y.i == d.o) == one && (y.l == d.i) == one && (d.l != y.o) != one,
               "after an assignment, two-pool allocators of %s compare otherwise", one ? "the same two pools" : "different pools");
      count("equality_checks");
    }
    comes(d.l, d.a, "leaf allocator");
    comes(d.i, 3 + d.b, "internal allocator");
    comes(decltype(X::l)(d.o), d.a, "leaf allocator rebound from the element allocator");
    comes(decltype(X::i)(d.o), 3 + d.b, "internal allocator rebound from the element allocator");
    comes(decltype(X::l)(d.i), d.a, "leaf allocator rebound from the internal one");
    comes(decltype(X::i)(d.l), 3 + d.b, "internal allocator rebound from the leaf one");
    state(comb(comb(d.a, d.b), op));
  }
  // a pool lives exactly as long as someone holds it
  leaf.clear();
  inner.clear();
  while (!xs.empty()) {
    xs.erase(xs.begin() + static_cast<long>(r.below(xs.size())));
    for (int p = 0; p < 6; ++p) {
      bool own = false;
      for (auto& x : xs) own |= p < 3 ? x.a == static_cast<size_t>(p) : x.b == static_cast<size_t>(p - 3);
      if (own) VH_CHECK(!reg.any_dead(p), "memory of a pool that still has an owner was unmapped");
      else VH_CHECK(!reg.any_live(p), "memory of a pool without owners is still mapped");
    }
  }
  w.expect_all_unmapped("the last owner is gone");
});
SCENARIO("policy_leaf", NQ / 2, NQ * 15, (soup<Policy, InnerLike>));
}  // namespace
