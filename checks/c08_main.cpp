#include "c08.hpp"
using namespace vh;
namespace {
void history(Case& c, uint32_t U, unsigned nops, size_t cap) {
  Rng& r = c.rng;
  struct One { const Config8* cfg; std::unique_ptr<ITree> t; };
  std::vector<One> ts;
  Adapter<std::map<uint64_t, uint64_t>, false> ref(U);
  std::vector<const Config8*> cs;
  for (auto& cf : configs8()) if (cf.max_u >= U) cs.push_back(&cf);
  // a random subset keeps histories long; all of them get their turn
  for (auto* cf : cs)
    if (cs.size() <= 8 || r.below(cs.size()) < 8 || (cf->wide && U >= 3000 && r.chance(1, 2))) ts.push_back({cf, cf->make(U)});
  if (ts.empty()) ts.push_back({cs[0], cs[0]->make(U)});
  count("configurations_run", ts.size());
  uint64_t v = 1;
  unsigned grow = 70, left = 0;
  uint32_t cur = 0;
  int pat = 0;
  auto each = [&](const char* what, auto f) {
    auto e = f(static_cast<ITree&>(ref));
    for (auto& o : ts) {
      auto g = f(*o.t);
      if (!(e == g)) {
        if constexpr (std::is_same_v<decltype(e), Seen>)
          fail("%s on [%s]: key #%ld value %llu flag %d, reference key #%ld value %llu flag %d", what,
               o.cfg->name.c_str(), g.idx, (unsigned long long)g.val, g.flag, e.idx, (unsigned long long)e.val, e.flag);
        else
          fail("%s on [%s] differs from the reference", what, o.cfg->name.c_str());
      }
    }
    count("results_compared", ts.size());
  };
  // Straight to another size: full nodes, nodes on the brink of a merge, and roots
  // of one level more or less are reached that mixed histories seldom visit.
  auto shape = [&]() {
    const size_t want = r.below(r.chance(1, 3) ? cap * 3 / 2 + 1 : r.chance(1, 2) ? cap / 8 + 1 : cap + 1);
    const int order = static_cast<int>(r.below(4));
    uint32_t k = static_cast<uint32_t>(r.below(U));
    note("shape to %zu elements, order %d", want, order);
    unsigned idle = 0;
    while (ref.size() != want && idle < 4 * U) {
      step();
      k = order == 0 ? (k + 1) % U : order == 1 ? (k + U - 1) % U : order == 2 ? (k + 7) % U : static_cast<uint32_t>(r.below(U));
      const size_t before = ref.size();
      if (before < want) {
        ++v;
        each("insertion", [&](ITree& t) { return t.insert(0, k, v); });
      } else if (order == 3 || r.chance(1, 16)) {
        each("erase(key)", [&](ITree& t) { return t.erase_key(k); });
      } else {
        each("erase(it)", [&](ITree& t) { return t.erase_lb(k); });
      }
      idle = ref.size() == before ? idle + 1 : 0;
    }
    each("size", [&](ITree& t) { return t.size(); });
    each("forward iteration", [&](ITree& t) { return t.digest(true); });
    count("shapes");
  };
  for (unsigned i = 0; i < nops; ++i) {
    step();
    if (i == 0 ? r.chance(1, 2) : r.chance(1, nops / 2)) shape();
    if (left == 0) {
      static const unsigned b[] = {100, 90, 65, 50, 50, 35, 10, 0};
      grow = b[r.below(8)];
      if (ref.size() > cap) grow = 15;
      if (ref.size() < 3 && grow < 50) grow = 90;
      left = 1 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 500 : 80));
      pat = static_cast<int>(r.below(5));
      cur = static_cast<uint32_t>(r.below(U));
    }
    --left;
    uint32_t k;
    switch (pat) {
      case 0: cur = (cur + 1) % U; k = cur; break;
      case 1: cur = (cur + U - 1) % U; k = cur; break;
      case 2: k = static_cast<uint32_t>((cur + r.below(U / 16 + 4)) % U); break;
      default: k = static_cast<uint32_t>(r.below(U));
    }
    unsigned q = static_cast<unsigned>(r.below(100));
    if (q < 12) {
      int kind = static_cast<int>(r.below(3));
      note("query %d #%u", kind, k);
      each("query", [&](ITree& t) { return t.query(kind, k); });
      each("query", [&](ITree& t) { return t.query(1, static_cast<uint32_t>(k ? k - 1 : U - 1)); });
    } else if (q < 15) {
      unsigned n = static_cast<unsigned>(r.below(60));
      bool f = r.chance(1, 2);
      note("walk from #%u %u", k, n);
      each("walk", [&](ITree& t) { return t.walk(k, n, f); });
    } else if (q < 16 && r.chance(1, 6)) {
      int w = static_cast<int>(r.below(24));
      if (w > 2) w = w == 3 ? 3 : static_cast<int>(r.below(3));
      note("whole %d", w);
      each("whole", [&](ITree& t) { t.whole(w); return t.size(); });
    } else if (r.below(100) < grow) {
      int kind = static_cast<int>(r.below(6));
      ++v;
      note("insert kind %d #%u", kind, k);
      each("insertion", [&](ITree& t) { return t.insert(kind, k, v); });
    } else {
      unsigned e = static_cast<unsigned>(r.below(20));
      if (e < 8) {
        note("erase key #%u", k);
        each("erase(key)", [&](ITree& t) { return t.erase_key(k); });
      } else if (e < 19) {
        note("erase at lower_bound #%u", k);
        each("erase(it)", [&](ITree& t) { return t.erase_lb(k); });
      } else {
        uint32_t j = static_cast<uint32_t>(k + r.below(r.chance(1, 5) ? U : U / 16 + 2));
        if (j >= U) j = U - 1;
        note("erase range #%u..#%u", k, j);
        each("erase(range)", [&](ITree& t) { return t.erase_range(k, j); });
      }
    }
    if (i % 16 == 0) each("size", [&](ITree& t) { return t.size(); });
    if (i % 128 == 127) {
      note("digest");
      each("forward iteration", [&](ITree& t) { return t.digest(true); });
      each("backward iteration", [&](ITree& t) { return t.digest(false); });
      state(ref.digest(true));
    }
  }
  note("final");
  each("forward iteration", [&](ITree& t) { return t.digest(true); });
  each("backward iteration", [&](ITree& t) { return t.digest(false); });
  each("size", [&](ITree& t) { return t.size(); });
  for (uint32_t k = 0; k < U; k += U > 800 ? U / 400 : 1)
    for (int kind = 0; kind < 3; ++kind) each("query", [&](ITree& t) { return t.query(kind, k); });
  count("histories");
}
SCENARIO("u200", 300, 6000, [](Case& c) { history(c, 200, 700 * c.depth, 150); });
SCENARIO("u256", 100, 2000, [](Case& c) { history(c, 256, 700 * c.depth, 256); });
SCENARIO("u3000", 150, 3000, [](Case& c) { history(c, 3000, 2500 * c.depth, 1200); });
SCENARIO("u60000", 24, 400, [](Case& c) { history(c, 60000, 6000 * c.depth, 6000); });
}  // namespace
