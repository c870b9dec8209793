// Model-based history engine for btree: drives a tree and a std::map oracle
// through the same history and compares every observable.
#pragma once
#include <fast_containers/btree.hpp>
#include <algorithm>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <optional>

#include "monalloc.hpp"
#include "types.hpp"
#include "vh.hpp"

namespace vh {
namespace fc = kressler::fast_containers;
using fc::SearchMode;

enum Op : int {
  OP_INSERT, OP_INSERT_PAIR, OP_EMPLACE, OP_EMPLACE_HINT, OP_TRY_EMPLACE, OP_IOA, OP_INDEX,
  OP_ERASE_KEY, OP_ERASE_IT, OP_ERASE_RANGE,
  OP_LOOKUP, OP_AT, OP_WRITE_IT, OP_WALK, OP_AUDIT, OP_PROBE_ALL,
  OP_CLEAR, OP_COPY, OP_MOVE, OP_SWAP, OP_COPY_ASSIGN, OP_MOVE_ASSIGN, OP_RANGE_CTOR, OP_SELF,
  OP_COUNT
};
inline const char* op_name(int o) {
  static const char* n[] = {"insert", "insert(pair)", "emplace", "emplace_hint", "try_emplace",
                            "insert_or_assign", "operator[]", "erase(key)", "erase(it)",
                            "erase(range)", "lookup", "at", "write", "walk", "audit", "probe-all",
                            "clear", "copy", "move", "swap", "copy-assign", "move-assign",
                            "range-ctor", "self"};
  return n[o];
}

struct Profile {
  // weights inside each class
  std::array<unsigned, OP_COUNT> w{};
  unsigned audit_every = 64;   // mean distance between full audits
  unsigned probes = 24;        // lookups per audit
  unsigned whole = 0;          // per-mille of steps that are whole-container operations
  unsigned query = 25;         // per-cent of steps that are queries
  static Profile mixed() {
    Profile p;
    p.w = {6, 2, 2, 1, 4, 4, 3, 8, 6, 1, 10, 2, 1, 3, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1};
    p.whole = 3;
    return p;
  }
};

enum Pattern : int {
  PAT_RANDOM, PAT_ASC, PAT_DESC, PAT_ZIGZAG, PAT_HOT, PAT_ENDS, PAT_STRIDE, PAT_COUNT
};

template <class TreeT>
struct BtEngine {
  using Tree = TreeT;
  using K = typename Tree::key_type;
  using V = typename Tree::mapped_type;
  using Cmp = typename Tree::key_compare;
  using Alloc = typename Tree::allocator_type;
  using Model = std::map<K, V, Cmp>;
  using It = typename Tree::iterator;
  using MIt = typename Model::iterator;

  struct World {
    std::unique_ptr<Tree> t;
    Model m;
  };

  Rng& r;
  std::function<Alloc()> mk;
  const Ledger* led;  // optional: structure signatures
  uint32_t U;
  World w[2];
  uint64_t vid = 1;
  size_t cap;  // soft limit on size
  // statistics of this case
  uint64_t ops = 0;
  size_t max_size = 0;
  uint64_t last_live = 0;

  BtEngine(Rng& rng, uint32_t universe, std::function<Alloc()> mkalloc, const Ledger* l, size_t cap_)
      : r(rng), mk(std::move(mkalloc)), led(l),
        U(universe > Keys<K>::max_universe ? Keys<K>::max_universe : universe), cap(cap_) {
    w[0].t = std::make_unique<Tree>(mk());
    w[1].t = std::make_unique<Tree>(mk());
  }

  K key(uint32_t i) { return make_key<K, Cmp>(i, U, r); }
  V val() { return Vals<V>::make(vid++); }
  std::string ks(const K& k) { return Keys<K>::str(k); }

  // -------------------------------------------------------------- checks
  template <class Pos>
  void expect_elem(const Pos& it, const K& k, const V& v, const char* where) {
    VH_CHECK(same(static_cast<const K&>(it->first), k), "%s: iterator shows key %s, expected %s",
             where, ks(it->first).c_str(), ks(k).c_str());
    VH_CHECK(same(static_cast<const V&>(it->second), v), "%s: key %s has value %s, expected %s",
             where, ks(k).c_str(), Vals<V>::str(it->second).c_str(), Vals<V>::str(v).c_str());
  }
  // `it` must denote the same position as `mit`; walk around it to make sure
  // it is fully functional.
  void expect_at(World& x, It it, MIt mit, const char* where, unsigned walk = 2) {
    Tree& t = *x.t;
    if (mit == x.m.end()) {
      VH_CHECK(it == t.end(), "%s: expected end()", where);
      VH_CHECK(!(it != t.end()), "%s: operator!= disagrees with operator==", where);
      if (x.m.empty()) return;
    } else {
      VH_CHECK(it != t.end(), "%s: got end(), expected key %s", where, ks(mit->first).c_str());
      VH_CHECK(!(it == t.end()), "%s: operator== disagrees with operator!=", where);
      expect_elem(it, mit->first, mit->second, where);
    }
    It f = it;
    MIt mf = mit;
    for (unsigned i = 0; i < walk && mf != x.m.end(); ++i) {
      if (r.chance(1, 4)) {
        It old = f++;
        expect_elem(old, mf->first, mf->second, "postfix ++ result");
        ++mf;
      } else {
        ++f;
        ++mf;
      }
      if (mf == x.m.end()) {
        VH_CHECK(f == t.end(), "%s: walking forward past the last element does not reach end()", where);
      } else {
        VH_CHECK(f != t.end(), "%s: walking forward reached end() early, key %s missing", where,
                 ks(mf->first).c_str());
        expect_elem(f, mf->first, mf->second, where);
      }
    }
    It b = it;
    MIt mb = mit;
    for (unsigned i = 0; i < walk && mb != x.m.begin(); ++i) {
      if (r.chance(1, 4)) {
        b--;
      } else {
        --b;
      }
      --mb;
      expect_elem(b, mb->first, mb->second, where);
    }
    if (mb == x.m.begin()) VH_CHECK(b == t.begin(), "%s: walking back does not reach begin()", where);
  }

  void check_size(World& x, const char* where) {
    VH_CHECK(x.t->size() == x.m.size(), "%s: size() is %zu, expected %zu", where, x.t->size(), x.m.size());
    VH_CHECK(x.t->empty() == x.m.empty(), "%s: empty() is wrong", where);
  }

  void lookup(World& x, const K& k, unsigned walk = 1) {
    Tree& t = *x.t;
    const Tree& ct = t;
    MIt e = x.m.find(k);
    const bool has = e != x.m.end();
    step();
    It f = t.find(k);
    expect_at(x, f, e, "find", walk);
    auto cf = ct.find(k);
    VH_CHECK((cf != ct.end()) == has, "const find(%s) is %s", ks(k).c_str(), has ? "missing" : "unexpected");
    if (has) expect_elem(cf, e->first, e->second, "const find");
    VH_CHECK(ct.contains(k) == has, "contains(%s) should be %d", ks(k).c_str(), has);
    VH_CHECK(ct.count(k) == (has ? 1u : 0u), "count(%s) should be %d", ks(k).c_str(), has);
    MIt ml = x.m.lower_bound(k), mu = x.m.upper_bound(k);
    It l = t.lower_bound(k);
    expect_at(x, l, ml, "lower_bound", walk);
    It u = t.upper_bound(k);
    expect_at(x, u, mu, "upper_bound", walk);
    auto er = t.equal_range(k);
    expect_at(x, er.first, ml, "equal_range.first", walk);
    expect_at(x, er.second, mu, "equal_range.second", walk);
    bool threw = false;
    try {
      const V& v = ct.at(k);
      VH_CHECK(has && same(v, e->second), "at(%s) wrong", ks(k).c_str());
      VH_CHECK(&t.at(k) == &v, "at() and const at() name different objects");
    } catch (const std::out_of_range&) {
      threw = true;
    }
    VH_CHECK(threw == !has, "at(%s): %s", ks(k).c_str(), threw ? "threw for a present key" : "did not throw");
    count("lookups");
  }

  void iterate_all(World& x) {
    Tree& t = *x.t;
    const Tree& ct = t;
    check_size(x, "audit");
    const size_t n = x.m.size();
    // forward
    {
      size_t i = 0;
      It it = t.begin();
      for (MIt m = x.m.begin(); m != x.m.end(); ++m, ++i) {
        VH_CHECK(it != t.end(), "forward iteration ends after %zu of %zu elements", i, n);
        expect_elem(it, m->first, m->second, "forward iteration");
        ++it;
      }
      VH_CHECK(it == t.end(), "forward iteration continues after all %zu elements", n);
      count("iterated", n);
    }
    switch (r.below(5)) {
      case 0: {  // backward from end()
        It it = t.end();
        size_t i = 0;
        for (auto m = x.m.rbegin(); m != x.m.rend(); ++m, ++i) {
          VH_CHECK(i == 0 || it != t.begin(), "backward iteration ends after %zu of %zu", i, n);
          --it;
          expect_elem(it, m->first, m->second, "backward iteration");
        }
        VH_CHECK(it == t.begin(), "backward iteration does not end at begin()");
        break;
      }
      case 1: {  // const forward
        size_t i = 0;
        auto it = r.chance(1, 2) ? ct.begin() : ct.cbegin();
        auto en = r.chance(1, 2) ? ct.end() : ct.cend();
        for (MIt m = x.m.begin(); m != x.m.end(); ++m, ++i) {
          VH_CHECK(it != en, "const iteration ends after %zu of %zu", i, n);
          auto ref = *it;
          VH_CHECK(same(static_cast<const K&>(ref.first), m->first), "const iteration: wrong key");
          VH_CHECK(same(static_cast<const V&>(ref.second), m->second), "const iteration: wrong value");
          it++;
        }
        VH_CHECK(it == en, "const iteration continues after all elements");
        break;
      }
      case 2: {  // there and back again
        It it = t.begin();
        std::vector<MIt> seq;
        for (MIt m = x.m.begin(); m != x.m.end(); ++m) seq.push_back(m);
        size_t pos = 0;
        for (size_t s = 0; s < 2 * n; ++s) {
          const bool fwd = pos == 0 || (pos < n && r.chance(3, 5));
          if (fwd && pos < n) { ++it; ++pos; } else if (pos > 0) { --it; --pos; }
          if (pos < n) expect_elem(it, seq[pos]->first, seq[pos]->second, "zigzag iteration");
          else VH_CHECK(it == t.end(), "zigzag iteration: end() expected");
        }
        break;
      }
      default: break;
    }
    // reverse
    {
      size_t i = 0;
      auto it = t.rbegin();
      for (auto m = x.m.rbegin(); m != x.m.rend(); ++m, ++i) {
        VH_CHECK(it != t.rend(), "reverse iteration ends after %zu of %zu elements", i, n);
        expect_elem(it, m->first, m->second, "reverse iteration");
        if (r.chance(1, 8)) it++; else ++it;
      }
      VH_CHECK(it == t.rend(), "reverse iteration continues after all %zu elements", n);
      if (n != 0 && r.chance(1, 3)) {  // and back
        i = 0;
        auto m = x.m.begin();
        while (i < n) {
          if (r.chance(1, 8)) it--; else --it;
          expect_elem(it, m->first, m->second, "reverse iterator moving back");
          ++m;
          ++i;
        }
        VH_CHECK(it == t.rbegin(), "reverse iterator does not come back to rbegin()");
      }
      if (r.chance(1, 4)) {
        auto ci = r.chance(1, 2) ? ct.rbegin() : ct.crbegin();
        auto ce = r.chance(1, 2) ? ct.rend() : ct.crend();
        i = 0;
        for (auto m = x.m.rbegin(); m != x.m.rend(); ++m, ++i) {
          VH_CHECK(ci != ce, "const reverse iteration ends after %zu of %zu", i, n);
          expect_elem(ci, m->first, m->second, "const reverse iteration");
          ++ci;
        }
        VH_CHECK(ci == ce, "const reverse iteration continues after all elements");
      }
    }
    // the comparison objects order as the comparator
    if (n >= 1 && r.chance(1, 4)) {
      auto kc = ct.key_comp();
      auto vc = ct.value_comp();
      const size_t at = r.below(n);
      MIt a = std::next(x.m.begin(), static_cast<long>(at < 400 ? at : at % 400));
      MIt b = std::next(a) == x.m.end() ? x.m.begin() : std::next(a);
      const typename Tree::value_type va(a->first, a->second), vb(b->first, b->second);
      const bool lt = x.m.key_comp()(a->first, b->first), gt = x.m.key_comp()(b->first, a->first);
      VH_CHECK(kc(a->first, b->first) == lt && kc(b->first, a->first) == gt && !kc(a->first, a->first), "key_comp() misorders %s and %s",
               ks(a->first).c_str(), ks(b->first).c_str());
      VH_CHECK(vc(va, vb) == lt && vc(vb, va) == gt && !vc(va, va), "value_comp() misorders %s and %s", ks(a->first).c_str(), ks(b->first).c_str());
      // distance, next and prev of the standard library
      It p = std::next(t.begin(), static_cast<long>(at));
      VH_CHECK(static_cast<size_t>(std::distance(t.begin(), p)) == at && static_cast<size_t>(std::distance(p, t.end())) == n - at, "std::distance over the tree");
      VH_CHECK(std::prev(t.end(), static_cast<long>(n - at)) == p, "std::prev over the tree");
    }
    count("audits");
  }
  void audit(World& x, unsigned probes) {
    iterate_all(x);
    for (unsigned i = 0; i < probes; ++i) lookup(x, any_key(x), 1);
  }
  // every present key, its neighbours in the universe, and the extremes
  void probe_all(World& x) {
    const uint32_t n = U < 4096 ? U : 4096;
    for (uint32_t j = 0; j < n; ++j) {
      uint32_t i = U < 4096 ? j : static_cast<uint32_t>(r.below(U));
      if (n > 600 && !r.chance(600, n)) continue;
      lookup(x, key(i), 1);
    }
    count("full_probes");
  }

  // -------------------------------------------------------------- key choice
  uint32_t cur = 0;       // cursor of sequential patterns
  uint32_t hot = 0;       // hot window
  int pat = PAT_RANDOM;
  uint32_t pick_index() {
    switch (pat) {
      case PAT_ASC: cur = (cur + 1) % U; return cur;
      case PAT_DESC: cur = (cur + U - 1) % U; return cur;
      case PAT_ZIGZAG: ++cur; return (cur & 1) ? (cur / 2) % U : U - 1 - (cur / 2) % U;
      case PAT_HOT: {
        uint32_t win = U / 16 + 4;
        if (r.chance(1, 200)) hot = static_cast<uint32_t>(r.below(U));
        return static_cast<uint32_t>((hot + r.below(win)) % U);
      }
      case PAT_ENDS: {
        uint32_t win = U / 32 + 2;
        return r.chance(1, 2) ? static_cast<uint32_t>(r.below(win)) : static_cast<uint32_t>(U - 1 - r.below(win));
      }
      case PAT_STRIDE: cur = static_cast<uint32_t>((static_cast<uint64_t>(cur) + U / 7 + 1) % U); return cur;
      default: return static_cast<uint32_t>(r.below(U));
    }
  }
  // present element, chosen by the pattern (first present at or after the pick)
  MIt pick_present(World& x) {
    if (x.m.empty()) return x.m.end();
    switch (r.below(12)) {
      case 0: return x.m.begin();
      case 1: return std::prev(x.m.end());
      default: break;
    }
    MIt it = x.m.lower_bound(key(pick_index()));
    if (it == x.m.end()) it = r.chance(1, 2) ? x.m.begin() : std::prev(x.m.end());
    return it;
  }
  K any_key(World& x) {
    if (!x.m.empty() && r.chance(1, 2)) return r.chance(1, 2) ? pick_present(x)->first : key(pick_index());
    return key(static_cast<uint32_t>(r.below(U)));
  }

  void after_mutation(World& x, int op, bool structural_hint) {
    (void)structural_hint;
    ++ops;
    step();
    check_size(x, op_name(op));
    if (x.m.size() > max_size) max_size = x.m.size();
    if (led) {
      int64_t d = static_cast<int64_t>(led->live.size()) - static_cast<int64_t>(last_live);
      last_live = led->live.size();
      if (d != 0) {
        count(d > 0 ? "node_growth_events" : "node_shrink_events");
        uint64_t bucket = 0, n = x.m.size();
        while (n) { ++bucket; n /= 2; }
        state(comb(comb(static_cast<uint64_t>(op), static_cast<uint64_t>(d + 100)), bucket));
        count_max("max_nodes_by_one_op", static_cast<uint64_t>(d > 0 ? d : -d));
      }
    }
  }

  // -------------------------------------------------------------- mutations
  void do_insert(World& x, int op, const K& k) {
    Tree& t = *x.t;
    MIt e = x.m.find(k);
    const bool had = e != x.m.end();
    V v = val();
    note("%s(%s)%s size=%zu", op_name(op), ks(k).c_str(), had ? " existing" : "", x.m.size());
    std::pair<It, bool> res{It(), false};
    bool assigns = false;
    switch (op) {
      case OP_INSERT: res = t.insert(k, v); break;
      case OP_INSERT_PAIR:
        if (r.chance(1, 3)) {
          res = t.insert({k, v});
        } else if (r.chance(1, 2)) {
          const typename Tree::value_type kv(k, v);
          res = t.insert(kv);
          VH_CHECK(same(static_cast<const K&>(kv.first), k) && same(static_cast<const V&>(kv.second), v), "insert changed its argument");
        } else {
          res = t.insert(typename Tree::value_type(k, v));
        }
        break;
      case OP_EMPLACE:
        switch (r.below(4)) {
          case 0: res = t.emplace(typename Tree::value_type(k, v)); break;
          case 1: res = t.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); break;
          default: res = t.emplace(k, v); break;
        }
        break;
      case OP_EMPLACE_HINT: {
        It hint = t.end();
        switch (r.below(8)) {
          case 0: case 1: hint = t.begin(); break;
          case 2: break;
          case 3: hint = t.upper_bound(k); break;
          case 4: case 5: hint = locate(x, pick_present(x)); break;
          case 6:
            hint = t.lower_bound(k);
            if (hint != t.begin()) --hint;
            break;
          default: hint = t.lower_bound(k); break;
        }
        res.first = t.emplace_hint(hint, k, v);
        res.second = !had;
        break;
      }
      case OP_TRY_EMPLACE:
        if (r.chance(1, 2)) {
          V arg = v;
          res = t.try_emplace(k, std::move(arg));
          if (had) VH_CHECK(same(arg, v), "try_emplace on an existing key consumed its argument");
        } else if (r.chance(1, 4)) {
          res = t.try_emplace(k);
          v = V{};
        } else {
          res = t.try_emplace(k, static_cast<const V&>(v));
        }
        break;
      case OP_IOA:
        assigns = true;
        if (r.chance(1, 2)) {
          V arg = v;
          res = t.insert_or_assign(k, std::move(arg));
        } else {
          res = t.insert_or_assign(k, static_cast<const V&>(v));
        }
        break;
      case OP_INDEX: {
        const bool write = r.chance(3, 4);
        V& ref = t[k];
        if (!had) VH_CHECK(same(static_cast<const V&>(ref), V{}), "operator[] on a new key is not value-initialised");
        else VH_CHECK(same(static_cast<const V&>(ref), e->second), "operator[] on existing key %s shows another value", ks(k).c_str());
        if (write) ref = v; else v = had ? e->second : V{};
        assigns = true;
        res.first = t.find(k);
        res.second = !had;
        VH_CHECK(res.first != t.end() && &res.first->second == &ref, "operator[] did not return the element's value");
        break;
      }
      default: broken("bad insert op");
    }
    VH_CHECK(res.second == !had, "%s(%s) reported %s, but the key %s", op_name(op), ks(k).c_str(),
             res.second ? "insertion" : "no insertion", had ? "existed" : "was new");
    if (!had) {
      e = x.m.emplace(k, v).first;
    } else if (assigns) {
      e->second = v;
    }
    after_mutation(x, op, !had);
    expect_at(x, res.first, e, op_name(op), r.chance(1, 8) ? 12 : 1);
    count(had ? "insert_existing" : "insert_new");
  }
  void do_erase_key(World& x, const K& k) {
    const bool had = x.m.count(k) != 0;
    note("erase(%s)%s size=%zu", ks(k).c_str(), had ? "" : " absent", x.m.size());
    size_t n = x.t->erase(k);
    VH_CHECK(n == (had ? 1u : 0u), "erase(%s) returned %zu, key %s", ks(k).c_str(), n, had ? "was present" : "was absent");
    x.m.erase(k);
    after_mutation(x, OP_ERASE_KEY, had);
    if (r.chance(1, 8)) lookup(x, k, 2);
    count(had ? "erased" : "erase_absent");
  }
  It locate(World& x, MIt m) {
    Tree& t = *x.t;
    if (m == x.m.end()) return t.end();
    switch (r.below(4)) {
      case 0: return t.lower_bound(m->first);
      case 1:
        if (m == x.m.begin()) return t.begin();
        if (std::next(m) == x.m.end()) { It i = t.end(); --i; return i; }
        [[fallthrough]];
      default: return t.find(m->first);
    }
  }
  void do_erase_it(World& x, MIt m) {
    if (m == x.m.end()) return;
    note("erase(iterator to %s) size=%zu", ks(m->first).c_str(), x.m.size());
    It it = locate(x, m);
    It ret = x.t->erase(it);
    MIt next = x.m.erase(m);
    after_mutation(x, OP_ERASE_IT, true);
    expect_at(x, ret, next, "erase(it) result", r.chance(1, 6) ? 12 : 2);
    count("erased");
  }
  // erase a run of elements one by one through the returned iterator
  void do_erase_run(World& x, size_t n) {
    MIt m = pick_present(x);
    It it = locate(x, m);
    while (n-- && m != x.m.end()) {
      note("erase run at %s size=%zu", ks(m->first).c_str(), x.m.size());
      it = x.t->erase(it);
      m = x.m.erase(m);
      after_mutation(x, OP_ERASE_IT, true);
      expect_at(x, it, m, "erase(it) result in a run", 1);
      if (m != x.m.end() && r.chance(1, 5)) { ++it; ++m; }
      count("erased");
    }
  }
  void do_erase_range(World& x) {
    size_t n = x.m.size();
    MIt a, b;
    if (r.chance(1, 20) || n == 0) {
      a = x.m.begin();
      b = r.chance(1, 2) ? x.m.end() : x.m.begin();
    } else {
      a = pick_present(x);
      size_t len;
      switch (r.below(6)) {
        case 0: len = 0; break;
        case 1: len = 1; break;
        case 2: len = r.below(6); break;
        case 3: len = r.below(40); break;
        case 4: len = r.below(n / 4 + 1); break;
        default: len = r.chance(1, 6) ? n : r.below(20); break;
      }
      b = a;
      while (len-- && b != x.m.end()) ++b;
    }
    size_t k = static_cast<size_t>(std::distance(a, b));
    note("erase(range of %zu) size=%zu", k, n);
    It ia = locate(x, a), ib = locate(x, b);
    It ret = x.t->erase(ia, ib);
    MIt next = x.m.erase(a, b);
    after_mutation(x, OP_ERASE_RANGE, k != 0);
    expect_at(x, ret, next, "erase(range) result", 3);
    count("erased_by_range", k);
  }

  // Single-pass: reading past an element consumes it for every copy of the
  // iterator.
  struct OnePass {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::pair<K, V>;
    using difference_type = std::ptrdiff_t;
    using pointer = const value_type*;
    using reference = const value_type&;
    struct Src {
      std::vector<value_type> v;
      size_t at = 0;
    };
    Src* s = nullptr;
    reference operator*() const { return s->v[s->at]; }
    pointer operator->() const { return &s->v[s->at]; }
    OnePass& operator++() {
      VH_CHECK(s->at < s->v.size(), "an input iterator was moved past the end of its range");
      ++s->at;
      return *this;
    }
    struct Old {
      value_type v;
      reference operator*() const { return v; }
    };
    Old operator++(int) {
      Old o{**this};
      ++*this;
      return o;
    }
    bool done() const { return !s || s->at >= s->v.size(); }
    friend bool operator==(const OnePass& a, const OnePass& b) { return a.done() == b.done(); }
    friend bool operator!=(const OnePass& a, const OnePass& b) { return !(a == b); }
  };
  void do_range_ctor(World& x) {
    World c;
    std::vector<std::pair<K, V>> src;
    size_t n = r.below(80);
    if (r.chance(1, 4)) n = r.below(cap > 3000 ? 3000 : cap + 1);
    if (r.chance(1, 12)) n = r.below(4);
    const uint32_t span = r.chance(1, 4) ? static_cast<uint32_t>(n / 2 + 1) : U;  // many equal keys
    for (size_t i = 0; i < n; ++i) src.emplace_back(key(static_cast<uint32_t>(r.below(span < U ? span : U))), val());
    Cmp cmp;
    auto by = [&](const std::pair<K, V>& a, const std::pair<K, V>& b) { return cmp(a.first, b.first); };
    switch (r.below(6)) {
      case 0: case 1: std::stable_sort(src.begin(), src.end(), by); break;                          // equal keys side by side
      case 2: std::stable_sort(src.rbegin(), src.rend(), by); break;
      case 3:                                                                                       // sorted, but for the last few
        std::stable_sort(src.begin(), src.end(), by);
        for (unsigned k = 0; k < 3 && n > 3; ++k) std::swap(src[n - 1 - r.below(3)], src[r.below(n)]);
        break;
      case 4: {                                                                                     // each key twice
        std::stable_sort(src.begin(), src.end(), by);
        for (size_t i = 0; i + 1 < n; i += 2) src[i + 1] = {src[i].first, src[i + 1].second};
        break;
      }
      default: break;
    }
    for (auto& e : src) c.m.emplace(e.first, e.second);
    switch (r.below(8)) {
      case 0:
        if (n >= 3) {
          std::initializer_list<typename Tree::value_type> il = {
              {src[0].first, src[0].second}, {src[1].first, src[1].second}, {src[2].first, src[2].second},
              {src[0].first, src[1].second}};
          c.m.clear();
          for (auto& e : il) c.m.emplace(e.first, e.second);
          c.t = std::make_unique<Tree>(il, mk());
          break;
        }
        [[fallthrough]];
      case 1: case 2: c.t = std::make_unique<Tree>(src.begin(), src.end(), mk()); break;
      case 3: case 4: {
        typename OnePass::Src one{src, 0};
        OnePass b;
        b.s = &one;
        c.t = std::make_unique<Tree>(b, OnePass{}, mk());
        VH_CHECK(one.at == src.size(), "the range constructor read %zu of %zu elements", one.at, src.size());
        count("single_pass_ranges");
        break;
      }
      case 5: {  // from a sorted container with another element type
        c.t = std::make_unique<Tree>(c.m.cbegin(), c.m.cend(), mk());
        break;
      }
      case 6: {  // from a part of a tree
        const Tree& ct = *x.t;
        c.m = x.m;
        MIt a = pick_present(x);
        if (r.chance(1, 2) || a == x.m.end()) {
          c.t = std::make_unique<Tree>(ct.begin(), ct.end(), mk());
        } else {
          c.m.clear();
          c.m.insert(a, x.m.end());
          c.t = std::make_unique<Tree>(locate(x, a), x.t->end(), mk());
        }
        break;
      }
      default: {
        c.m = x.m;
        c.t = std::make_unique<Tree>(x.t->rbegin(), x.t->rend(), mk());
        break;
      }
    }
    count_max("range_ctor_elements", c.m.size());
    audit(c, 4);
    do_insert(c, OP_INSERT, any_key(c));
    do_erase_it(c, pick_present(c));
    iterate_all(c);
  }

  // -------------------------------------------------------------- whole
  void do_whole(int op, World& x, World& y) {
    note("%s sizes %zu,%zu", op_name(op), x.m.size(), y.m.size());
    const bool iters = !x.m.empty() && r.chance(1, 2);
    switch (op) {
      case OP_CLEAR:
        x.t->clear();
        x.m.clear();
        check_size(x, "clear");
        iterate_all(x);
        break;
      case OP_COPY: {
        World c;
        c.t = std::make_unique<Tree>(static_cast<const Tree&>(*x.t));
        c.m = x.m;
        audit(c, 4);
        // independent: changes to the copy do not show in the original
        for (unsigned i = 0; i < 6; ++i) {
          do_insert(c, OP_IOA, any_key(c));
          do_erase_it(c, pick_present(c));
        }
        audit(c, 2);
        audit(x, 2);
        if (r.chance(1, 3)) {
          x.t = std::move(c.t);
          x.m = std::move(c.m);
          iterate_all(x);
        }
        break;
      }
      case OP_MOVE: {
        It it = iters ? locate(x, x.m.begin()) : It();
        World c;
        c.t = std::make_unique<Tree>(std::move(*x.t));
        c.m = std::move(x.m);
        x.m.clear();
        if (iters) expect_at(c, it, c.m.begin(), "iterator across move construction", 2);
        audit(c, 4);
        iterate_all(x);  // moved-from: empty and usable
        if (r.chance(1, 2)) for (unsigned i = 0; i < 20; ++i) do_insert(x, OP_INSERT, any_key(x));
        iterate_all(x);
        if (r.chance(1, 2)) { x.t = std::move(c.t); x.m = std::move(c.m); }
        else { *x.t = std::move(*c.t); x.m = std::move(c.m); c.m.clear(); iterate_all(c); do_insert(c, OP_INSERT, any_key(c)); }
        iterate_all(x);
        break;
      }
      case OP_SWAP: {
        It it = iters ? locate(x, x.m.begin()) : It();
        x.t->swap(*y.t);
        x.m.swap(y.m);
        if (iters) expect_at(y, it, y.m.begin(), "iterator across swap", 2);
        iterate_all(x);
        iterate_all(y);
        break;
      }
      case OP_COPY_ASSIGN:
        *x.t = static_cast<const Tree&>(*y.t);
        x.m = y.m;
        audit(x, 4);
        iterate_all(y);
        if (!x.m.empty()) do_erase_it(x, pick_present(x));
        iterate_all(y);
        break;
      case OP_MOVE_ASSIGN:
        *x.t = std::move(*y.t);
        x.m = std::move(y.m);
        y.m.clear();
        audit(x, 4);
        iterate_all(y);
        for (unsigned i = 0; i < 10; ++i) do_insert(y, OP_INSERT, any_key(y));
        audit(y, 4);
        break;
      case OP_RANGE_CTOR: do_range_ctor(x); break;
      case OP_SELF: {
        Tree& a = *x.t;
        if (r.chance(1, 2)) a = static_cast<const Tree&>(a);
        else a.swap(a);
        iterate_all(x);
        break;
      }
      default: broken("bad whole op");
    }
    if (led) last_live = led->live.size();
    step();
    count("whole_container_ops");
  }

  // -------------------------------------------------------------- driver
  int choose(const Profile& p, int lo, int hi) {
    unsigned tot = 0;
    for (int i = lo; i <= hi; ++i) tot += p.w[static_cast<size_t>(i)];
    if (!tot) return -1;
    unsigned v = static_cast<unsigned>(r.below(tot));
    for (int i = lo; i <= hi; ++i) {
      if (v < p.w[static_cast<size_t>(i)]) return i;
      v -= p.w[static_cast<size_t>(i)];
    }
    return -1;
  }

  // grow or thin a tree to about n elements, every result compared
  void shape(World& x, size_t n) {
    unsigned left = 0;
    for (size_t tries = 0; x.m.size() < n && tries < 4 * n + 100; ++tries) {
      if (left-- == 0) { pat = static_cast<int>(r.below(PAT_COUNT)); left = 50 + static_cast<unsigned>(r.below(1500)); cur = static_cast<uint32_t>(r.below(U)); }
      do_insert(x, r.chance(1, 8) ? static_cast<int>(r.below(OP_INDEX + 1)) : static_cast<int>(OP_INSERT), key(pick_index()));
    }
    left = 0;
    unsigned how = 0;
    while (x.m.size() > n) {
      if (left-- == 0) { pat = r.chance(1, 2) ? static_cast<int>(PAT_RANDOM) : static_cast<int>(r.below(PAT_COUNT)); left = 50 + static_cast<unsigned>(r.below(1500)); how = static_cast<unsigned>(r.below(8)); }
      if (how < 5) do_erase_it(x, pick_present(x));
      else if (how == 5) { K k = pick_present(x)->first; do_erase_key(x, k); }
      else if (how == 6) do_erase_run(x, r.below(60));
      else { if (left > 4) left = 4; do_erase_range(x); }
    }
    count("shaped");
  }
  void run(const Profile& p, unsigned nops) {
    unsigned phase_left = 0;
    unsigned grow = 60;       // % of mutations that insert
    unsigned next_audit = 1 + static_cast<unsigned>(r.below(2 * p.audit_every));
    for (unsigned i = 0; i < nops; ++i) {
      if (phase_left == 0) {
        static const unsigned biases[] = {100, 90, 60, 50, 50, 40, 10, 0};
        pat = static_cast<int>(r.below(PAT_COUNT));
        grow = biases[r.below(8)];
        World& x0 = w[0];
        if (x0.m.size() > cap) grow = 20;
        if (x0.m.size() < 4 && grow < 50) grow = 80;
        phase_left = 1 + static_cast<unsigned>(r.below(r.chance(1, 3) ? 400 : 60));
        if (r.chance(1, 2)) cur = static_cast<uint32_t>(r.below(U));
      }
      --phase_left;
      World& x = w[r.chance(9, 10) ? 0 : 1];
      World& y = &x == &w[0] ? w[1] : w[0];
      if (p.whole && r.below(1000) < p.whole) {
        int o = choose(p, OP_CLEAR, OP_SELF);
        if (o >= 0) { do_whole(o, x, y); continue; }
      }
      if (r.below(100) < p.query) {
        switch (choose(p, OP_LOOKUP, OP_PROBE_ALL)) {
          case OP_LOOKUP: note("lookup"); lookup(x, any_key(x), r.chance(1, 8) ? 10 : 1); break;
          case OP_AT: note("at"); lookup(x, any_key(x), 0); break;
          case OP_WRITE_IT: {
            MIt m = pick_present(x);
            if (m == x.m.end()) break;
            note("write through iterator");
            V v = val();
            It it = locate(x, m);
            if (r.chance(1, 2)) (*it).second = v; else it->second = v;
            m->second = v;
            lookup(x, m->first, 0);
            break;
          }
          case OP_WALK: {
            MIt m = pick_present(x);
            note("walk");
            expect_at(x, locate(x, m), m, "walk", 4 + static_cast<unsigned>(r.below(100)));
            break;
          }
          case OP_PROBE_ALL: note("probe all"); probe_all(x); break;
          default: break;
        }
        step();
      } else if (r.below(100) < grow) {
        int o = choose(p, OP_INSERT, OP_INDEX);
        do_insert(x, o, r.chance(1, 10) && !x.m.empty() ? pick_present(x)->first : key(pick_index()));
      } else {
        switch (choose(p, OP_ERASE_KEY, OP_ERASE_RANGE)) {
          case OP_ERASE_KEY:
            if (!x.m.empty() && r.chance(5, 6)) { K k = pick_present(x)->first; do_erase_key(x, k); }
            else do_erase_key(x, key(pick_index()));
            break;
          case OP_ERASE_IT:
            if (r.chance(1, 10)) do_erase_run(x, r.below(60));
            else do_erase_it(x, pick_present(x));
            break;
          case OP_ERASE_RANGE: do_erase_range(x); break;
          default: break;
        }
      }
      if (--next_audit == 0) {
        note("audit");
        next_audit = 1 + static_cast<unsigned>(r.below(2 * p.audit_every));
        audit(x, p.probes);
      }
    }
    note("final audit");
    audit(w[0], p.probes);
    audit(w[1], p.probes);
    count("ops", ops);
    count_max("max_size", max_size);
  }

  void finish() {
    note("destroy");
    w[0].t.reset();
    w[1].t.reset();
  }
};

// Standard case: random sizing for a tree type over MonAlloc.
template <class Tree>
void engine_case(Case& c, const Profile& p, unsigned nops, size_t cap, uint32_t universe, unsigned rounds = 1) {
  Ledger led;
  led.name = c.scenario.c_str();
  {
    BtEngine<Tree> e(c.rng, universe, [&] { return typename Tree::allocator_type(led); }, &led, cap);
    const unsigned total = nops * (c.depth > 1 ? 2 : 1);
    for (unsigned i = 0; i < rounds; ++i) {
      // from large trees down as well as from empty ones up
      if (rounds > 1 || c.rng.chance(1, 4)) {
        const size_t most = std::min<size_t>(cap, universe * 3 / 4);
        e.shape(e.w[0], i % 2 ? c.rng.below(most / 3 + 1) : most / 2 + c.rng.below(most / 2 + 1));
      }
      e.run(p, total / rounds);
    }
    if (c.index < 1)
      sample(c.scenario + ": " + std::to_string(e.ops) + " mutations, max size " +
             std::to_string(e.max_size) + ", " + std::to_string(led.allocs) + " nodes allocated, peak " +
             std::to_string(led.peak));
    e.finish();
  }
  led.expect_empty("after destroying all trees");
  count("nodes_allocated", led.allocs);
}

template <class K, class V, size_t L, size_t I, class Cmp = std::less<K>,
          SearchMode M = SearchMode::Linear, class P = AllProp>
using MTree = fc::btree<K, V, L, I, Cmp, M, MonAlloc<std::pair<K, V>, P>>;

}  // namespace vh
