// Several trees over several monitoring allocators with every combination of
// propagation traits: which allocator each block comes from and goes back to.
//   -DTRAITS=<traits struct expression index>
#include "bt_engine.hpp"
using namespace vh;

namespace {
template <bool CA, bool MA, bool SW>
struct Tr {
  using pocca = std::bool_constant<CA>;
  using pocma = std::bool_constant<MA>;
  using pocs = std::bool_constant<SW>;
};

template <class Tree, class P>
struct World7 {
  using Alloc = typename Tree::allocator_type;
  using K = typename Tree::key_type;
  using V = typename Tree::mapped_type;
  static constexpr int NS = 5, NL = 3;
  struct Slot {
    std::unique_ptr<Tree> t;
    std::map<K, V, typename Tree::key_compare> m;
    Ledger* l = nullptr;
  };
  Rng& r;
  Ledger led[NL];
  Slot s[NS];
  uint64_t id = 1;
  uint32_t U = 300;
  uint64_t snap_a[NL], snap_f[NL];

  explicit World7(Rng& rng) : r(rng) {
    static const char* names[] = {"A", "B", "C"};
    for (int i = 0; i < NL; ++i) led[i].name = names[i];
#ifdef SELECT_ON_COPY
    for (int i = 0; i < NL; ++i) led[i].on_copy = &led[(i + 1) % NL];
#endif
  }
  K key() { return Keys<K>::make(static_cast<uint32_t>(r.below(U)), U, r); }
  void snap() {
    for (int i = 0; i < NL; ++i) { snap_a[i] = led[i].allocs; snap_f[i] = led[i].frees; }
  }
  // only `a` (and `b`) may have been used since snap()
  void only(const char* op, Ledger* a, Ledger* b = nullptr) {
    for (int i = 0; i < NL; ++i) {
      if (&led[i] == a || &led[i] == b) continue;
      VH_CHECK(led[i].allocs == snap_a[i] && led[i].frees == snap_f[i],
               "%s used allocator '%s', which belongs to another tree", op, led[i].name);
    }
  }
  void check(Slot& x, const char* op) {
    VH_CHECK(x.t->get_allocator().l == x.l, "%s: get_allocator() is '%s', expected '%s'", op,
             x.t->get_allocator().l->name, x.l->name);
    VH_CHECK(x.t->size() == x.m.size(), "%s: size %zu expected %zu", op, x.t->size(), x.m.size());
    auto it = x.t->begin();
    for (auto& [k, v] : x.m) {
      VH_CHECK(it != x.t->end(), "%s: too few elements", op);
      VH_CHECK(same(static_cast<const K&>(it->first), k) && same(static_cast<const V&>(it->second), v),
               "%s: wrong element", op);
      ++it;
    }
    VH_CHECK(it == x.t->end(), "%s: too many elements", op);
    if (!x.m.empty()) {
      for (int i = 0; i < 3; ++i) {
        K k = key();
        VH_CHECK((x.t->find(k) != x.t->end()) == (x.m.count(k) != 0), "%s: find wrong", op);
      }
    }
  }
  void fill(Slot& x, size_t n) {
    while (n--) {
      K k = key();
      V v = Vals<V>::make(id++);
      if (r.chance(1, 2)) { x.t->insert(k, v); x.m.emplace(k, v); }
      else { x.t->insert_or_assign(k, v); x.m.insert_or_assign(k, v); }
    }
  }
  void drain(Slot& x, size_t n) {
    while (n-- && !x.m.empty()) {
      auto m = x.m.lower_bound(key());
      if (m == x.m.end()) m = x.m.begin();
      if (r.chance(1, 2)) x.t->erase(m->first);
      else x.t->erase(x.t->find(m->first));
      x.m.erase(m);
    }
  }
  // live nodes of one ledger must be explained by the trees on it
  void explain(const char* op) {
    for (int i = 0; i < NL; ++i) {
      size_t trees = 0, elems = 0;
      for (auto& x : s)
        if (x.t && x.l == &led[i]) { ++trees; elems += x.m.size(); }
      if (trees == 0) led[i].expect_empty(op);
      VH_CHECK(led[i].live.size() >= trees, "%s: allocator '%s' has %zu live nodes for %zu trees", op,
               led[i].name, led[i].live.size(), trees);
      VH_CHECK(led[i].live.size() <= 4 * trees + 2 * elems,
               "%s: allocator '%s' has %zu live nodes for %zu trees with %zu elements", op,
               led[i].name, led[i].live.size(), trees, elems);
      state(comb(comb(trees, led[i].live.size() / 4), static_cast<uint64_t>(i)));
    }
  }
  // f may fail at some allocation; true if it did
  template <class F>
  bool fails(Slot& on, F f) {
    if (!r.chance(1, 4)) { f(); return false; }
    static const uint64_t upto[] = {2, 5, 20, 60};
    Ledger* l[] = {on.l, on.l->on_copy};
    const long long at = static_cast<long long>(r.below(upto[r.below(4)]));
    for (Ledger* q : l) if (q) q->fail_in = at;
    bool threw = false;
    try { f(); } catch (const std::bad_alloc&) { threw = true; count("failed_operations"); }
    for (Ledger* q : l) if (q) q->fail_in = -1;
    return threw;
  }
  void run(unsigned n) {
    for (unsigned i = 0; i < n; ++i) {
      step();
      Slot& x = s[r.below(NS)];
      Slot& y = s[r.below(NS)];
      if (r.chance(1, 40)) U = r.chance(1, 2) ? 300 : 30;
      unsigned op = static_cast<unsigned>(r.below(16));
      snap();
      if (!x.t) {
        if (op < 8 || !y.t) {
          x.l = &led[r.below(NL)];
          note("construct on %s", x.l->name);
          if (op % 3 == 0) {
            std::vector<std::pair<K, V>> src;
            for (uint64_t j = r.below(60); j; --j) src.emplace_back(key(), Vals<V>::make(id++));
            if (fails(x, [&] { x.t = std::make_unique<Tree>(src.begin(), src.end(), Alloc(*x.l)); })) {
              only("failed range constructor", x.l);
              explain("failed range constructor");
              continue;
            }
            for (auto& e : src) x.m.emplace(e.first, e.second);
          } else {
            x.t = std::make_unique<Tree>(Alloc(*x.l));
          }
          only("constructor", x.l);
        } else if (op < 12) {
          note("copy construct from %s size %zu", y.l->name, y.m.size());
          if (fails(y, [&] { x.t = std::make_unique<Tree>(static_cast<const Tree&>(*y.t)); })) {
            only("failed copy constructor", y.l->on_copy ? y.l->on_copy : y.l);
            explain("failed copy constructor");
            check(y, "source of a failed copy");
            continue;
          }
          x.m = y.m;
          x.l = y.l->on_copy ? y.l->on_copy : y.l;
          only("copy constructor", x.l);
          if (y.l->on_copy) count("copies_selecting_allocator");
          count("copy_constructions");
        } else {
          note("move construct from %s size %zu", y.l->name, y.m.size());
          x.t = std::make_unique<Tree>(std::move(*y.t));
          x.m = std::move(y.m);
          y.m.clear();
          x.l = y.l;
          only("move constructor", y.l);
          check(y, "moved-from tree");
          count("move_constructions");
        }
        check(x, "constructor");
        explain("constructor");
        continue;
      }
      switch (op) {
        case 0: case 1: case 2: {
          size_t k = r.below(r.chance(1, 4) ? 200 : 20);
          note("fill %zu", k);
          fill(x, k);
          only("insertion", x.l);
          break;
        }
        case 3: case 4: case 5: {
          size_t k = r.below(r.chance(1, 4) ? 200 : 20);
          note("drain %zu", k);
          drain(x, k);
          only("erasure", x.l);
          break;
        }
        case 6: {
          note("clear");
          x.t->clear();
          x.m.clear();
          only("clear", x.l);
          break;
        }
        case 7: case 8: {
          if (!y.t) break;
          note("copy assign %s <- %s sizes %zu %zu", x.l->name, y.l->name, x.m.size(), y.m.size());
          if (fails(P::pocca::value ? y : x, [&] { *x.t = static_cast<const Tree&>(*y.t); })) {
            // what the tree holds now is not this check's business, its blocks are
            x.l = x.t->get_allocator().l;
            x.m.clear();
            for (auto it = x.t->begin(); it != x.t->end(); ++it) x.m.emplace(it->first, it->second);
            explain("failed copy assignment");
            break;
          }
          x.m = y.m;
          // whether the allocator follows is the traits' business; the tree and
          // get_allocator() must agree with where its nodes are
          Ledger* now_l = x.t->get_allocator().l;
          VH_CHECK(now_l == x.l || (P::pocca::value && now_l == y.l), "copy assignment: allocator '%s'", now_l->name);
          only("copy assignment", x.l, now_l);
          x.l = now_l;
          if (&x != &y) check(y, "source of copy assignment");
          count("copy_assignments");
          break;
        }
        case 9: case 10: case 11: {
          if (!y.t || &x == &y) break;
          note("move assign %s <- %s sizes %zu %zu", x.l->name, y.l->name, x.m.size(), y.m.size());
          *x.t = std::move(*y.t);
          x.m = std::move(y.m);
          y.m.clear();
          only("move assignment", x.l, y.l);
          if (P::pocma::value) x.l = y.l;
          if (x.t->size() && x.l != y.l) count("move_assign_across_allocators");
          check(y, "moved-from tree");
          count("move_assignments");
          break;
        }
        case 12: case 13: {
          if (!y.t) break;
          if (!P::pocs::value && x.l != y.l) break;  // undefined by the allocator requirements
          note("swap %s <-> %s sizes %zu %zu", x.l->name, y.l->name, x.m.size(), y.m.size());
          x.t->swap(*y.t);
          std::swap(x.m, y.m);
          if (P::pocs::value) std::swap(x.l, y.l);
          only("swap", nullptr);
          if (&x != &y) check(y, "swap partner");
          count("swaps");
          break;
        }
        default: {
          note("destroy on %s size %zu", x.l->name, x.m.size());
          x.t.reset();
          x.m.clear();
          only("destructor", x.l);
          explain("destructor");
          count("destructions");
          continue;
        }
      }
      check(x, "operation");
      explain("operation");
    }
    for (auto& x : s) { x.t.reset(); x.m.clear(); }
    uint64_t a = 0;
    for (auto& l : led) {
      l.expect_empty("after destroying all trees");
      VH_CHECK(l.allocs == l.frees, "allocator '%s': %llu allocations, %llu deallocations", l.name,
               (unsigned long long)l.allocs, (unsigned long long)l.frees);
      a += l.allocs;
    }
    count("blocks_accounted", a);
  }
};

template <class P>
void go(Case& c) {
  using Tree = fc::btree<TKEY, TVAL, TLEAF, TINNER, std::less<TKEY>, SearchMode::Binary, MonAlloc<std::pair<TKEY, TVAL>, P>>;
  World7<Tree, P> w(c.rng);
  w.run(250 * c.depth);
  if (c.index == 0) sample(c.scenario + ": " + std::to_string(w.led[0].allocs) + "+" + std::to_string(w.led[1].allocs) + "+" + std::to_string(w.led[2].allocs) + " blocks on 3 allocators, 5 trees, 250 steps");
}
SCENARIO(SCN, NQ, NQ * 20, [](Case& c) { go<Tr<TRAITS>>(c); });
}  // namespace
