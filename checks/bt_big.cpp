// Large trees: many levels, more elements than fit 16 bits, nodes with more
// entries than fit 8 bits.  Same engine and oracle as bt_case.cpp; audits are
// rarer, every operation's result is still compared.
//   -DTREE_T=<type> -DSCN="name" -DNQ=<cases> -DBIG=<elements>
#include "bt_engine.hpp"
using namespace vh;

namespace {
using Tree = TREE_T;

SCENARIO(SCN, NQ, NQ * 12, [](Case& c) {
  Rng& r = c.rng;
  Ledger led;
  led.name = SCN;
  {
    const uint32_t U = BIG * 3u;
    BtEngine<Tree> e(r, U, [&] { return typename Tree::allocator_type(led); }, &led, ~size_t(0));
    auto& x = e.w[0];
    auto mixed = [&](unsigned n) {
      Profile p = Profile::mixed();
      p.whole = 0;
      p.audit_every = 1000000;
      p.probes = 50;
      for (unsigned i = 0; i < n; ++i) {
        if (i % 500 == 0) e.pat = static_cast<int>(r.below(PAT_COUNT));
        switch (r.below(6)) {
          case 0: e.do_erase_it(x, e.pick_present(x)); break;
          case 1: if (!x.m.empty()) { auto k = e.pick_present(x)->first; e.do_erase_key(x, k); } break;
          case 2: e.lookup(x, e.any_key(x)); break;
          default: e.do_insert(x, static_cast<int>(r.below(7)), e.key(e.pick_index())); break;
        }
      }
    };
    // fill
    static const int fills[] = {PAT_ASC, PAT_DESC, PAT_RANDOM, PAT_RANDOM, PAT_ZIGZAG, PAT_STRIDE};
    e.pat = fills[r.below(6)];
    e.cur = 0;
    const size_t top = BIG / 2 + r.below(BIG / 2);
    while (x.m.size() < top) {
      const size_t before = x.m.size();
      e.do_insert(x, r.chance(1, 10) ? static_cast<int>(r.below(7)) : OP_INSERT, e.key(e.pick_index()));
      if (x.m.size() == before && r.chance(1, 50)) e.pat = PAT_RANDOM;
    }
    note("audit after fill");
    e.audit(x, 200);
    mixed(4000);
    e.audit(x, 100);
    // whole-container operations at this size
    for (int op : {OP_COPY, OP_MOVE, OP_SWAP, OP_COPY_ASSIGN}) {
      if (!r.chance(1, 3)) continue;
      if (op == OP_COPY_ASSIGN) e.do_whole(op, e.w[1], x); else e.do_whole(op, x, e.w[1]);
      if (op == OP_SWAP) e.do_whole(op, x, e.w[1]);
    }
    // thin
    for (int round = 0; round < 3; ++round) {
      const size_t down = x.m.size() / (2 + r.below(6));
      switch (r.below(6)) {
        case 0:  // from the front
          while (x.m.size() > down) e.do_erase_it(x, x.m.begin());
          break;
        case 1:  // from the back
          while (x.m.size() > down) e.do_erase_it(x, std::prev(x.m.end()));
          break;
        case 2: {  // every other, many times
          while (x.m.size() > down)
            for (auto it = x.m.begin(); it != x.m.end() && x.m.size() > down;) {
              auto nx = std::next(it);
              if (r.chance(2, 3)) { auto k = it->first; e.do_erase_key(x, k); }
              it = nx;
            }
          break;
        }
        case 3: {  // long ranges
          while (x.m.size() > down) {
            auto a = e.pick_present(x);
            auto b = a;
            for (size_t n = r.below(x.m.size() / 4 + 2); n && b != x.m.end(); --n) ++b;
            auto ia = e.locate(x, a), ib = e.locate(x, b);
            note("erase long range size=%zu", x.m.size());
            auto ret = x.t->erase(ia, ib);
            auto nx = x.m.erase(a, b);
            e.after_mutation(x, OP_ERASE_RANGE, true);
            e.expect_at(x, ret, nx, "erase(range) result", 3);
            count("erased_by_range");
          }
          break;
        }
        default:
          e.pat = static_cast<int>(r.below(PAT_COUNT));
          while (x.m.size() > down) e.do_erase_it(x, e.pick_present(x));
          break;
      }
      note("audit after thinning");
      e.audit(x, 100);
      mixed(1500);
      if (r.chance(1, 2)) {
        const size_t up = x.m.size() + r.below(BIG / 4);
        e.pat = fills[r.below(6)];
        for (size_t tries = 0; x.m.size() < up && tries < BIG; ++tries) e.do_insert(x, OP_INSERT, e.key(e.pick_index()));
      }
      e.audit(x, 100);
    }
    count("ops", e.ops);
    count("big_cases");
    count_max("max_size", e.max_size);
    if (c.index < 1) sample(c.scenario + ": " + std::to_string(e.ops) + " mutations, max size " + std::to_string(e.max_size) + ", peak " + std::to_string(led.peak) + " nodes");
    e.finish();
  }
  led.expect_empty("after destroying all trees");
});
}  // namespace
