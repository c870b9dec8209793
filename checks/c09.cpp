// Cost monitor: comparisons per operation (counting comparator) and live
// nodes (allocator ledger), under adversarial shapes.
#include <cmath>

#include "bt_engine.hpp"
using namespace vh;

namespace {
uint64_t g_cmp = 0;
template <class K>
struct CountingLess {
  bool operator()(const K& a, const K& b) const {
    ++g_cmp;
    return a < b;
  }
};
#ifndef TKEY
#define TKEY int64_t
#endif
#define BASEKEY TKEY
using K = BASEKEY;
using Tree = fc::btree<K, uint32_t, TLEAF, TINNER, CountingLess<K>, SearchMode::TMODE, MonAlloc<std::pair<K, uint32_t>>>;
constexpr bool linear = SearchMode::TMODE == SearchMode::Linear;

struct Cost {
  Case& c;
  Ledger led;
  std::unique_ptr<Tree> t;
  std::set<uint32_t> m;
  uint64_t fresh;  // live nodes of an empty tree
  size_t leaf_type = 0;  // the type of the only node of an empty tree
  Rng& r;
  explicit Cost(Case& cc) : c(cc), r(cc.rng) {
    t = std::make_unique<Tree>(MonAlloc<std::pair<K, uint32_t>>(led));
    fresh = led.live.size();
    if (fresh == 1) leaf_type = led.live.begin()->second.type;
  }
  K key(uint32_t i) { return Keys<K>::make(i, 1u << 22, r); }
  static double lg(double x) { return std::log2(x < 1 ? 1 : x); }
  // occupancy of at least a quarter (documented hysteresis), generously
  static constexpr double min_leaf = TLEAF / 4 > 1 ? TLEAF / 4 : 1;
  static constexpr double min_inner = TINNER / 4 > 2 ? TINNER / 4 : 2;
  double max_leaves() const { return 2 + static_cast<double>(m.size()) / min_leaf; }
  double height() const {  // internal levels
    return 2 + lg(max_leaves()) / lg(min_inner);
  }
  static double node_cost(double n) { return linear ? n + 2 : std::floor(lg(n)) + 3; }
  double search_cost() const { return height() * node_cost(TINNER) + node_cost(TLEAF) + 2; }
  void check_cost(const char* op, uint64_t before, double factor) {
    uint64_t used = g_cmp - before;
    count("operations_costed");
    count("comparisons", used);
    VH_CHECK(static_cast<double>(used) <= factor * search_cost() + 8,
             "%s took %llu comparisons with %zu elements (bound %.0f)", op, (unsigned long long)used, m.size(),
             factor * search_cost() + 8);
    count_max("max_comparisons", used);
  }
  void check_nodes(const char* when) {
    double live = static_cast<double>(led.live.size());
    double leaves = max_leaves();
    double inner = 2 + height() + leaves / (min_inner - 1);
    VH_CHECK(live <= leaves + inner, "%s: %.0f nodes are allocated for %zu elements (bound %.0f)", when, live, m.size(),
             leaves + inner);
    if (leaf_type) {  // per kind of node: a quarter full each, but for the root and the edges
      const double nl = static_cast<double>(led.live_by_type[leaf_type]), ni = live - nl;
      VH_CHECK(nl <= leaves, "%s: %.0f leaves for %zu elements (bound %.0f)", when, nl, m.size(), leaves);
      const double most = 2 + nl / (min_inner - 1);
      VH_CHECK(ni <= most, "%s: %.0f internal nodes over %.0f leaves (bound %.0f)", when, ni, nl, most);
      count("internal_counts_checked");
    }
    if (m.empty())
      VH_CHECK(led.live.size() <= fresh, "%s: an emptied tree holds %zu nodes, a new one %llu", when, led.live.size(),
               (unsigned long long)fresh);
    state(comb(comb(m.size(), led.live.size()), 7));
    count("node_counts_checked");
  }
  void ins(uint32_t i) {
    K k = key(i);
    uint64_t b = g_cmp;
    step();
    switch (i % 4) {
      case 0: t->insert(k, i); check_cost("insert", b, 3); break;
      case 1: t->try_emplace(k, i); check_cost("try_emplace", b, 3); break;
      case 2: t->insert_or_assign(k, i); check_cost("insert_or_assign", b, 3); break;
      default: (*t)[k] = i; check_cost("operator[]", b, 4); break;
    }
    m.insert(i);
    VH_CHECK(t->size() == m.size(), "size %zu expected %zu", t->size(), m.size());
    if ((m.size() & 63) == 0) check_nodes("after insertion");
  }
  void del(uint32_t i) {
    K k = key(i);
    step();
    if (i % 3) {
      uint64_t b = g_cmp;
      size_t n = t->erase(k);
      check_cost("erase(key)", b, 8);
      VH_CHECK(n == m.count(i), "erase returned %zu", n);
    } else {
      auto it = t->find(k);
      if (it != t->end()) {
        uint64_t b = g_cmp;
        t->erase(it);
        check_cost("erase(it)", b, 8);
      }
    }
    m.erase(i);
    VH_CHECK(t->size() == m.size(), "size %zu expected %zu", t->size(), m.size());
    if ((m.size() & 31) == 0) check_nodes("after erasure");
  }
  void probe(unsigned n) {
    while (n--) {
      uint32_t i = static_cast<uint32_t>(r.below(1u << 22));
      if (!m.empty() && r.chance(2, 3)) {
        auto it = m.lower_bound(i);
        if (it != m.end()) i = *it + static_cast<uint32_t>(r.below(2));
      }
      K k = key(i);
      uint64_t b = g_cmp;
      auto f = t->find(k);
      check_cost("find", b, 1);
      VH_CHECK((f != t->end()) == (m.count(i) == 1), "find wrong");
      b = g_cmp;
      bool ct = t->contains(k);
      check_cost("contains", b, 1.5);
      VH_CHECK(ct == (m.count(i) == 1), "contains wrong");
      b = g_cmp;
      (void)t->lower_bound(k);
      check_cost("lower_bound", b, 1.2);
      b = g_cmp;
      (void)t->upper_bound(k);
      check_cost("upper_bound", b, 1.5);
      b = g_cmp;
      (void)t->equal_range(k);
      check_cost("equal_range", b, 3);
    }
  }
  void iterate() {
    uint64_t b = g_cmp;
    size_t n = 0;
    for (auto it = t->begin(); it != t->end(); ++it) ++n;
    for (auto it = t->rbegin(); it != t->rend(); ++it) ++n;
    VH_CHECK(n == 2 * m.size(), "iteration visits %zu elements of 2*%zu", n, m.size());
    (void)t->size();
    (void)t->empty();
    VH_CHECK(g_cmp == b, "iteration and size() performed %llu comparisons", (unsigned long long)(g_cmp - b));
    count("iterations_costed");
  }
  void range_erase(uint32_t lo, uint32_t hi) {
    auto a = m.lower_bound(lo), b = m.lower_bound(hi);
    size_t n = static_cast<size_t>(std::distance(a, b));
    auto ia = t->lower_bound(key(lo)), ib = t->lower_bound(key(hi));
    uint64_t before = g_cmp;
    t->erase(ia, ib);
    uint64_t used = g_cmp - before;
    VH_CHECK(static_cast<double>(used) <= (8 * search_cost() + 8) * static_cast<double>(n + 1),
             "erasing a range of %zu took %llu comparisons", n, (unsigned long long)used);
    m.erase(a, b);
    VH_CHECK(t->size() == m.size(), "size %zu expected %zu", t->size(), m.size());
    check_nodes("after erase(range)");
  }
  // n adjacent keys in blocks of one direction laid down in another: each block
  // falls next to the one before it, where splits have just happened
  uint32_t bsize = 2;
  unsigned bdir = 0;
  void blocks(uint32_t from, uint32_t n, uint32_t stride) {
    if (r.chance(1, 4)) { bsize = r.chance(1, 2) ? 1 + static_cast<uint32_t>(r.below(4)) : 1 + static_cast<uint32_t>(r.below(TLEAF + 2)); bdir = static_cast<unsigned>(r.below(4)); }
    const uint32_t nb = (n + bsize - 1) / bsize;
    for (uint32_t b = 0; b < nb; ++b) {
      const uint32_t at = ((bdir & 1) ? nb - 1 - b : b) * bsize;
      for (uint32_t j = 0; j < bsize; ++j) {
        const uint32_t i = at + ((bdir & 2) ? bsize - 1 - j : j);
        if (i < n) ins(from + i * stride);
      }
    }
    count("blocks_laid", nb);
  }
  void build(uint32_t n, uint32_t stride) {
    switch (r.below(8)) {
      case 5: blocks(0, n, stride); break;
      case 6: case 7: {  // a sparse ascending or descending base, then its gaps one by one
        const uint32_t fill = 4 + static_cast<uint32_t>(r.below(4 * TLEAF)), base = n / fill + 1;
        const bool up = r.chance(2, 3);
        for (uint32_t i = 0; i < base; ++i) ins((up ? i : base - 1 - i) * (fill + 1));
        const bool order = r.chance(1, 2);
        for (uint32_t i = 0; i < base; ++i) blocks((order ? i : base - 1 - i) * (fill + 1) + 1, fill, 1);
        break;
      }
      case 0: for (uint32_t i = 0; i < n; ++i) ins(i * stride); break;
      case 1: for (uint32_t i = n; i-- > 0;) ins(i * stride); break;
      case 2: for (uint32_t i = 0; i < n / 2; ++i) { ins(i * stride); ins((n - 1 - i) * stride); } break;
      case 3: {  // interleaved passes: fills between existing keys
        uint32_t p = 1 + static_cast<uint32_t>(r.below(9));
        for (uint32_t q = 0; q < p; ++q)
          for (uint32_t i = q; i < n; i += p) ins(i * stride);
        break;
      }
      default: for (uint32_t i = 0; i < n; ++i) ins(static_cast<uint32_t>(r.below(n)) * stride); break;
    }
    check_nodes("after building");
  }
  // An adversary that looks for sparse leaves: it lays small blocks of keys into
  // every gap of a base, and goes on where the tree allocated the most.
  void greedy_gaps() {
    const uint32_t top = 1u << 22, n0 = static_cast<uint32_t>(TLEAF) + 1 + static_cast<uint32_t>(r.below(2 * TLEAF));
    uint32_t gap = top / (n0 + 2);
    if (gap > (1u << 14)) gap = 1u << 14;
    const unsigned how = static_cast<unsigned>(r.below(3));
    for (uint32_t i = 0; i < n0; ++i) ins((how == 1 ? n0 - 1 - i : how == 2 ? (i * 7919u) % n0 : i) * gap);
    const uint32_t g = 1 + static_cast<uint32_t>(r.below(r.chance(1, 3) ? TLEAF / 2 + 1 : 4));
    const bool inner_desc = r.chance(1, 3), outer_asc = r.chance(1, 3);
    std::vector<uint32_t> laid(n0, 0), got(n0, 0);
    auto lay = [&](uint32_t q) {  // one more block in gap q
      const uint32_t base = q * gap + 1, room = (gap - 2) / g;
      if (laid[q] >= room) return false;
      const uint32_t b = outer_asc ? laid[q] : room - 1 - laid[q];
      const size_t before = led.allocs;
      for (uint32_t j = 0; j < g; ++j) ins(base + b * g + (inner_desc ? g - 1 - j : j));
      got[q] += static_cast<uint32_t>(led.allocs - before);
      ++laid[q];
      return true;
    };
    for (int round = 0; round < 2; ++round)
      for (uint32_t q = 0; q < n0; ++q) lay(q);
    const uint32_t budget = 3000 / g + 40;
    for (uint32_t k = 0; k < budget; ++k) {
      uint32_t best = static_cast<uint32_t>(r.below(n0));
      if (k % 8) for (uint32_t q = 0; q < n0; ++q) if (laid[q] < (gap - 2) / g && uint64_t{got[q]} * laid[best] > uint64_t{got[best]} * laid[q]) best = q;
      lay(best);
      if (k % 64 == 63) check_nodes("while filling the gaps that allocate most");
    }
    check_nodes("after filling the gaps that allocate most");
    count("greedy_fills");
  }
  // One gap beside a leaf that is just full (or nearly), filled with small blocks of
  // every kind: what each split leaves behind is never touched again.
  void beside_full() {
    for (unsigned kind = 0; kind < 4; ++kind) {
      const uint32_t pre = static_cast<uint32_t>(TLEAF) - (r.chance(1, 4) ? 1 : 0) + (r.chance(1, 4) ? 1 : 0);
      const uint32_t n = 12 * static_cast<uint32_t>(TLEAF) + 100;
      const bool below = r.chance(1, 3);
      for (uint32_t i = 0; i < pre; ++i) ins(below ? n + 10 + i : i);
      bsize = 1 + kind % 4;
      if (r.chance(1, 4)) bsize = 1 + static_cast<uint32_t>(r.below(TLEAF));
      bdir = static_cast<unsigned>((c.index + kind * 5 + r.below(2)) % 4);
      const uint32_t nb = n / bsize, from = below ? 5 : pre + 1;
      for (uint32_t b = 0; b < nb; ++b)
        for (uint32_t j = 0; j < bsize; ++j)
          ins(from + ((bdir & 1) ? nb - 1 - b : b) * bsize + ((bdir & 2) ? bsize - 1 - j : j));
      check_nodes("after filling the room beside a full leaf");
      t->clear();
      m.clear();
      check_nodes("after clear()");
    }
    count("fills_beside_full");
  }
  // Erase what can be erased without giving up a node; put back the rest.
  void greedy_erase() {
    std::vector<uint32_t> v(m.begin(), m.end());
    if (r.chance(1, 2)) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    for (int round = 0; round < 2; ++round)
      for (uint32_t k : v) {
        if (!m.count(k)) continue;
        const uint64_t before = led.frees;
        del(k);
        if (led.frees != before && m.size() > 40) ins(k);
      }
    check_nodes("after erasing what frees no node");
    count("greedy_erasures");
  }
  void thin() {  // erase adversarially
    std::vector<uint32_t> v(m.begin(), m.end());
    switch (r.below(7)) {
      case 0: {  // keep every k-th: would leave sparse nodes without merging
        uint32_t k = 2 + static_cast<uint32_t>(r.below(2 * TLEAF));
        for (size_t i = 0; i < v.size(); ++i) if (i % k) del(v[i]);
        break;
      }
      case 1: {  // keep every k-th, back to front
        uint32_t k = 2 + static_cast<uint32_t>(r.below(2 * TLEAF));
        for (size_t i = v.size(); i-- > 0;) if (i % k) del(v[i]);
        break;
      }
      case 2: for (size_t i = 0; i < v.size() - v.size() / 8; ++i) del(v[i]); break;
      case 3: for (size_t i = v.size(); i-- > v.size() / 8;) del(v[i]); break;
      case 4: {  // random until few remain
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        for (size_t i = 0; i < v.size() - v.size() / 16; ++i) del(v[i]);
        break;
      }
      case 5: {  // ranges
        for (int q = 0; q < 12 && !m.empty(); ++q) {
          uint32_t lo = v[r.below(v.size())];
          range_erase(lo, lo + static_cast<uint32_t>(r.below(v.back() / 6 + 2)));
        }
        break;
      }
      default: {  // middle outwards
        size_t mid = v.size() / 2;
        for (size_t i = 0; i < v.size() / 2; ++i) { del(v[mid - i]); if (mid + i < v.size()) del(v[mid + i]); }
        break;
      }
    }
    check_nodes("after thinning");
    probe(20);
  }
  void window(uint32_t len, uint32_t steps, bool up) {  // queue: insert at one end, erase at the other
    uint32_t base = 1u << 20;
    for (uint32_t i = 0; i < steps; ++i) {
      uint32_t a = up ? base + i : base + steps + len - i;
      ins(a);
      if (i >= len) del(up ? a - len : a + len);
    }
    check_nodes("sliding window");
    probe(20);
  }
  void thrash(uint32_t n) {  // same key inserted and erased over and over
    if (m.empty()) return;
    std::vector<uint32_t> v(m.begin(), m.end());
    uint64_t a0 = led.allocs;
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t k = v[r.below(v.size() < 4 ? v.size() : 4)];
      del(k);
      ins(k);
    }
    count("thrash_allocations", led.allocs - a0);
  }
  void empty_out() {
    std::vector<uint32_t> v(m.begin(), m.end());
    switch (r.below(4)) {
      case 0: for (uint32_t k : v) del(k); break;
      case 1: for (size_t i = v.size(); i-- > 0;) del(v[i]); break;
      case 2:
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        for (uint32_t k : v) del(k);
        break;
      default: {
        auto it = t->begin();
        while (it != t->end()) it = t->erase(it);
        m.clear();
        VH_CHECK(t->empty(), "not empty after erasing every element");
      }
    }
    check_nodes("after erasing everything");
    count("emptied");
  }
  void run() {
    uint32_t n = c.depth > 1 ? 20000 : (c.index % 8 == 0 ? 6000 : c.index % 8 == 3 ? 20000 : 300 + static_cast<uint32_t>(r.below(2000)));
    note("build %u", n);
    build(n, 1 + static_cast<uint32_t>(r.below(5)));
    probe(40);
    iterate();
    for (int q = 0; q < 2; ++q) {
      note("thin");
      thin();
      iterate();
      if (r.chance(1, 2)) { note("rebuild"); build(n / 4, 1 + static_cast<uint32_t>(r.below(7))); }
      note("thrash");
      thrash(60);
      probe(20);
    }
    note("greedy erase");
    if (r.chance(1, 2)) greedy_erase();
    note("window");
    window(20 + static_cast<uint32_t>(r.below(400)), 1500, r.chance(1, 2));
    note("empty");
    empty_out();
    note("greedy gaps");
    greedy_gaps();
    if (r.chance(1, 3)) greedy_erase();
    empty_out();
    note("beside a full leaf");
    beside_full();
    build(200, 3);
    empty_out();
    if (c.index == 0)
      sample(c.scenario + ": built " + std::to_string(n) + " elements, peak " + std::to_string(led.peak) + " nodes, " +
             std::to_string(led.allocs) + " allocations");
  }
};
SCENARIO(SCN, NQ, NQ * 8, [](Case& c) {
  Cost k(c);
  k.run();
  k.t.reset();
  k.led.expect_empty("after destruction");
});
}  // namespace
