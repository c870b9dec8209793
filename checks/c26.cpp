// Trees on the three hugepage allocators through transfers of ownership.
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <memory>

#include "memwrap.hpp"
#include "types.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;
using fc::SearchMode;

namespace {
using K = TKEY;
using V = TVALUE;
using PairT = std::pair<K, V>;
using Model = std::map<K, V>;

static size_t some(Rng& r) {
  static const size_t I[] = {100, 4096, 20000, 100000, 1 << 20};
  return I[r.below(5)];
}
struct Huge {
  static constexpr const char* name = "HugePageAllocator";
  using A = fc::HugePageAllocator<PairT>;
  struct Handle {};
  static std::pair<A, Handle> make(Rng& r) { size_t i = some(r), g = some(r); return {A(i, r.chance(1, 2), g), {}}; }
  static bool uses(const A&, const Handle&) { return true; }
  static size_t usage(const Handle&) { return 0; }
  static constexpr bool observable = false;
};
struct Multi {
  static constexpr const char* name = "MultiSizeHugePageAllocator";
  using A = fc::MultiSizeHugePageAllocator<PairT>;
  using Handle = std::shared_ptr<fc::MultiSizeHugePagePool>;
  static std::pair<A, Handle> make(Rng& r) {
    size_t i = some(r), g = some(r);
    auto p = std::make_shared<fc::MultiSizeHugePagePool>(i, r.chance(1, 2), g);
    return {A(p), p};
  }
  static bool uses(const A& a, const Handle& h) { return a.get_pool() == h; }
  static size_t usage(const Handle& h) {
    size_t n = 0;
    for (auto& [c, p] : h->get_pools()) n += p->get_current_usage();
    return n;
  }
  static constexpr bool observable = true;
};
struct Policy {
  static constexpr const char* name = "PolicyBasedHugePageAllocator";
  using A = fc::PolicyBasedHugePageAllocator<PairT, fc::TwoPoolPolicy>;
  using Handle = std::pair<std::shared_ptr<fc::HugePagePool>, std::shared_ptr<fc::HugePagePool>>;
  static std::pair<A, Handle> make(Rng& r) {
    size_t i = some(r), j = some(r), g = some(r), h = some(r);
    const bool hp = r.chance(1, 2);
    Handle p{std::make_shared<fc::HugePagePool>(i, hp, g), std::make_shared<fc::HugePagePool>(j, hp, h)};
    return {A(fc::TwoPoolPolicy(p.first, p.second)), p};
  }
  static bool uses(const A& a, const Handle& h) { return a.get_policy().leaf_pool_ == h.first; }
  static size_t usage(const Handle& h) { return h.first->get_current_usage() + h.second->get_current_usage(); }
  static constexpr bool observable = true;
};

template <class F, size_t LN, size_t IN>
void run(Case& c) {
  Rng& r = c.rng;
  MemWorld& w = mem();
  w.reset(c.seed);
  w.huge_available = r.chance(1, 2);
  using A = typename F::A;
  using Tree = fc::btree<K, V, LN, IN, std::less<K>, SearchMode::TMODE, A>;
  {
    std::vector<std::unique_ptr<A>> allocs;
    std::vector<typename F::Handle> handles;
    struct HT { std::unique_ptr<Tree> t; Model m; };
    std::vector<HT> ts;
    const uint32_t U = r.chance(1, 2) ? 80 : 1200;
    auto fresh_alloc = [&]() {
      auto [a, h] = F::make(r);
      allocs.push_back(std::make_unique<A>(a));
      if (F::observable && r.chance(2, 3)) handles.push_back(h);
    };
    auto audit = [&](HT& x, const char* when) {
      VH_CHECK(x.t->size() == x.m.size(), "%s: size %zu expected %zu", when, (size_t)x.t->size(), x.m.size());
      auto it = x.t->begin();
      for (auto& [k, v] : x.m) {
        VH_CHECK(it != x.t->end(), "%s: elements missing", when);
        VH_CHECK(same(static_cast<const K&>(it->first), k), "%s: key %s expected %s", when, Keys<K>::str(it->first).c_str(), Keys<K>::str(k).c_str());
        VH_CHECK(same(static_cast<const V&>(it->second), v), "%s: wrong value at key %s", when, Keys<K>::str(k).c_str());
        ++it;
      }
      VH_CHECK(it == x.t->end(), "%s: extra elements", when);
      count("audits");
    };
    auto usage_check = [&](const char* when) {
#ifdef ALLOCATOR_STATS
      if constexpr (F::observable) {
        for (auto& h : handles) {
          size_t users = 0, elements = 0;
          for (auto& x : ts)
            if (F::uses(x.t->get_allocator(), h)) { ++users; elements += x.m.size(); }
          const size_t u = F::usage(h);
          if (users == 0) { VH_CHECK(u == 0, "%s: %zu bytes of a pool are marked in use though no tree uses it", when, u); count("idle_pool_checks"); }
          if (elements) VH_CHECK(u >= elements * (sizeof(K) + sizeof(V)), "%s: a pool with %zu elements on it has only %zu bytes in use", when, elements, u);
        }
      }
#endif
      (void)when;
    };
    fresh_alloc();
    for (unsigned k = 0; k < 220 * c.depth; ++k) {
      step();
      const unsigned op = ts.empty() ? 0 : static_cast<unsigned>(r.below(24));
      const size_t x = ts.empty() ? 0 : r.below(ts.size()), y = ts.empty() ? 0 : r.below(ts.size());
      note("%s op %u trees %zu allocators %zu", F::name, op, ts.size(), allocs.size());
      switch (op) {
        case 0: case 1: if (ts.size() < 6) {
            if (allocs.empty() || r.chance(1, 3)) fresh_alloc();
            ts.push_back({std::make_unique<Tree>(*allocs[r.below(allocs.size())]), {}});
          } break;
        case 2: if (!allocs.empty()) allocs.erase(allocs.begin() + static_cast<long>(r.below(allocs.size()))); break;  // user's allocator goes
        case 3: if (ts.size() < 6) { ts.push_back({std::make_unique<Tree>(ts[x].t->get_allocator()), {}}); } break;
        case 4: if (ts.size() < 6) { Model m = ts[x].m; auto n = std::make_unique<Tree>(*ts[x].t); ts.push_back({std::move(n), std::move(m)}); } break;
        case 5: if (ts.size() < 6) { auto n = std::make_unique<Tree>(std::move(*ts[x].t)); Model m = std::move(ts[x].m); ts[x].m.clear(); ts.push_back({std::move(n), std::move(m)}); } break;
        case 6: case 7: *ts[x].t = *ts[y].t; { Model m = ts[y].m; ts[x].m = m; } break;
        case 8: case 9: if (x != y) { *ts[x].t = std::move(*ts[y].t); ts[x].m = std::move(ts[y].m); ts[y].m.clear(); } break;
        case 10: case 11: ts[x].t->swap(*ts[y].t); if (x != y) ts[x].m.swap(ts[y].m); break;
        case 12: ts[x].t->clear(); ts[x].m.clear(); break;
        case 13: ts.erase(ts.begin() + static_cast<long>(x)); break;
        case 14: { using std::swap; if (x != y) { swap(*ts[x].t, *ts[y].t); ts[x].m.swap(ts[y].m); } break; }
        case 15: if (!handles.empty()) handles.erase(handles.begin() + static_cast<long>(r.below(handles.size()))); break;
        case 16: {  // pages run out during insertions and copies
          w.regular_available = false;
          const bool h0 = w.huge_available;
          w.huge_available = false;
          for (int q = 0; q < 60; ++q) {
            K kk = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
            V v = Vals<V>::make(r.next() >> 20);
            const bool had = ts[x].m.count(kk) != 0;
            try {
              if (q % 20 == 19) {
                Tree copy(*ts[x].t);
                VH_CHECK(copy.size() == ts[x].m.size(), "copy size");
              } else if (r.chance(1, 2)) {
                ts[x].t->insert(kk, v);
                if (!had) ts[x].m.emplace(kk, v);
              } else {
                (*ts[x].t)[kk] = v;
                if (had) ts[x].m.find(kk)->second = v; else ts[x].m.emplace(kk, v);
              }
            } catch (const std::bad_alloc&) {
              count("page_failures_survived");
              audit(ts[x], "after an operation that ran out of pages");
            }
          }
          w.regular_available = true;
          w.huge_available = h0;
          break;
        }
        default: {
          const unsigned n = 10 + static_cast<unsigned>(r.below(120)), g = 15 + static_cast<unsigned>(r.below(80));
          for (unsigned q = 0; q < n; ++q) {
            HT& z = ts[r.chance(1, 3) ? y : x];
            K kk = Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r);
            if (r.below(100) < g) {
              V v = Vals<V>::make(r.next() >> 20);
              z.t->insert_or_assign(kk, v);
              auto e = z.m.find(kk);
              if (e == z.m.end()) z.m.emplace(kk, v); else e->second = v;
            } else {
              size_t a = z.t->erase(kk), b = z.m.erase(kk);
              VH_CHECK(a == b, "erase returned %zu expected %zu", a, b);
            }
            count("element_ops");
          }
        }
      }
      count("transfers", op >= 3 && op <= 14);
      if (k % 4 == 0 || (op >= 3 && op <= 16))
        for (auto& z : ts) audit(z, "after an operation");
      usage_check("after an operation");
      state(comb(comb(op, ts.size()), comb(ts.empty() ? 0 : ts[ts.size() - 1].m.size(), w.live_count())));
    }
    for (auto& z : ts) audit(z, "end");
    if (r.chance(1, 2)) { allocs.clear(); handles.clear(); }
    while (!ts.empty()) {
      ts.erase(ts.begin() + static_cast<long>(r.below(ts.size())));
      for (auto& z : ts) audit(z, "after another tree was destroyed");
      usage_check("after a destruction");
    }
  }
  w.expect_all_unmapped("the last user of every pool is gone");
  count("pools_released", w.mmaps);
}
SCENARIO("huge_" SCN, NQ, NQ * 30, [](Case& c) { run<Huge, TLEAF, TINNER>(c); });
SCENARIO("multi_" SCN, NQ, NQ * 30, [](Case& c) { run<Multi, TLEAF, TINNER>(c); });
SCENARIO("policy_" SCN, NQ, NQ * 30, [](Case& c) { run<Policy, TLEAF, TINNER>(c); });
}  // namespace
