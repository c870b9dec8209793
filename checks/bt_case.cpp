// One tree configuration driven by the model-based engine.  The runner
// compiles this file once per configuration:
//   -DTREE_T=<type> -DSCN="name" -DPROF=<profile> -DNQ=<cases> -DNT=<cases>
#include "bt_engine.hpp"
using namespace vh;

#ifndef NOPS
#define NOPS 1500
#endif
#ifndef NT
#define NT (NQ * 20)
#endif

namespace {
[[maybe_unused]] Profile p_mixed() { return Profile::mixed(); }
// lookups of everything after short bursts of change
[[maybe_unused]] Profile p_lookup() {
  Profile p;
  p.w = {6, 1, 1, 1, 2, 2, 2, 5, 4, 2, 40, 4, 1, 2, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  p.query = 30;
  p.audit_every = 400;
  p.probes = 60;
  p.whole = 1;
  return p;
}
[[maybe_unused]] Profile p_iterate() {
  Profile p;
  p.w = {6, 1, 1, 1, 2, 2, 2, 5, 4, 2, 2, 0, 2, 20, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1};
  p.query = 30;
  p.audit_every = 20;
  p.probes = 2;
  p.whole = 2;
  return p;
}
[[maybe_unused]] Profile p_erase() {
  Profile p;
  p.w = {6, 1, 1, 0, 1, 1, 1, 6, 10, 3, 10, 0, 1, 3, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0};
  p.query = 10;
  p.audit_every = 48;
  p.probes = 12;
  p.whole = 1;
  return p;
}
[[maybe_unused]] Profile p_insert() {
  Profile p;
  p.w = {6, 4, 4, 4, 6, 6, 6, 5, 2, 1, 10, 0, 1, 2, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0};
  p.query = 15;
  p.audit_every = 64;
  p.probes = 12;
  p.whole = 2;
  return p;
}
[[maybe_unused]] Profile p_whole() {
  Profile p;
  p.w = {6, 1, 1, 1, 2, 2, 2, 5, 4, 1, 10, 2, 1, 3, 0, 0, 2, 3, 3, 3, 3, 4, 3, 2};
  p.query = 10;
  p.audit_every = 100;
  p.probes = 8;
  p.whole = 60;
  return p;
}

using Tree = TREE_T;

SCENARIO(SCN, NQ, NT, [](Case& c) {
  static const struct { size_t cap; uint32_t u; } sizes[] = {
      {20, 40}, {60, 90}, {250, 400}, {250, 100000}, {700, 1500}, {1500, 3000}, {3000, 1000000}};
#ifdef WIDE
  // nodes of more than 1000 entries: enough elements to split and merge them
  static const struct { size_t cap; uint32_t u; } wide[] = {{2500, 4000}, {4000, 9000}, {6000, 10000}, {6000, 1000000}};
  auto s = sizes[0];
  s.cap = wide[c.rng.below(4)].cap;
  s.u = wide[c.rng.below(4)].u;
  if (s.u < s.cap) s.u = static_cast<uint32_t>(s.cap * 3 / 2);
  Profile p = PROF();
  p.audit_every = p.audit_every * 20 + 400;
  engine_case<Tree>(c, p, NOPS, s.cap, s.u, 6);
  count("wide_cases");
#else
  size_t n = sizeof sizes / sizeof sizes[0];
  auto s = sizes[c.rng.below(n)];
  Profile p = PROF();
  unsigned nops = NOPS;
  if (s.cap > 1000) { p.audit_every *= 6; nops *= 2; }
  if (s.cap > 200) p.audit_every *= 2;
  if (c.depth > 1 && c.rng.chance(1, 20)) {
    s = {20000, 60000};
    nops = 60000;
    p.audit_every = 6000;
    p.whole = p.whole ? 1 : 0;
  }
  engine_case<Tree>(c, p, nops, s.cap, s.u);
#endif
});
}  // namespace
