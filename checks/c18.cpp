// dense_map iterators: random access laws, access, algorithms, copies.
#include <algorithm>
#include <iterator>
#include <numeric>

#include "dm.hpp"
using namespace vh;

namespace {
template <class K, class V>
using Vec = std::vector<std::pair<K, V>>;

// Laws of a random access range [b, e) whose element i is m[i].
template <class It, class K, class V>
void laws(Rng& r, It b, It e, const Vec<K, V>& m, const char* kind) {
  using Diff = typename std::iterator_traits<It>::difference_type;
  static_assert(std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>);
  static_assert(std::is_signed_v<Diff>);
  const Diff n = static_cast<Diff>(m.size());
  VH_CHECK(e - b == n && b - e == -n && std::distance(b, e) == n, "%s: distance is %zd, expected %zd", kind, (ptrdiff_t)(e - b), (ptrdiff_t)n);
  auto at = [&](It it, Diff i, const char* how) {
    VH_CHECK(it - b == i, "%s: %s is at %zd, expected %zd", kind, how, (ptrdiff_t)(it - b), (ptrdiff_t)i);
    VH_CHECK(it == b + i && !(it != b + i), "%s: %s does not compare equal to begin + %zd", kind, how, (ptrdiff_t)i);
    if (i >= 0 && i < n) {
      auto&& x = *it;
      VH_CHECK(same(x.first, m[static_cast<size_t>(i)].first) && same(x.second, m[static_cast<size_t>(i)].second), "%s: %s designates another entry than %zd", kind, how, (ptrdiff_t)i);
      VH_CHECK(same(it->first, m[static_cast<size_t>(i)].first) && same(it->second, m[static_cast<size_t>(i)].second), "%s: %s -> designates another entry", kind, how);
    }
  };
  auto pair_laws = [&](Diff i, Diff j) {
    It x = b + i, y = b + j;
    VH_CHECK(y - x == j - i && x - y == i - j, "%s: difference of positions %zd and %zd is %zd", kind, (ptrdiff_t)i, (ptrdiff_t)j, (ptrdiff_t)(x - y));
    VH_CHECK((x == y) == (i == j) && (x != y) == (i != j), "%s: equality of positions %zd and %zd", kind, (ptrdiff_t)i, (ptrdiff_t)j);
    VH_CHECK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "%s: order of positions %zd and %zd", kind, (ptrdiff_t)i, (ptrdiff_t)j);
    at(x + (j - i), j, "i + (j - i)");
    at((j - i) + x, j, "(j - i) + i");
    at(y - (j - i), i, "j - (j - i)");
    It z = x;
    It& ref = (z += (j - i));
    VH_CHECK(&ref == &z, "%s: += does not return its operand", kind);
    at(z, j, "+=");
    It& ref2 = (z -= (j - i));
    VH_CHECK(&ref2 == &z, "%s: -= does not return its operand", kind);
    at(z, i, "-=");
    at(e + (i - n), i, "end + negative");
    at(e - (n - i), i, "end - positive");
    if (j < n) {
      auto&& s = x[j - i];
      VH_CHECK(same(s.first, m[static_cast<size_t>(j)].first) && same(s.second, m[static_cast<size_t>(j)].second), "%s: [] with offset %zd from %zd", kind, (ptrdiff_t)(j - i), (ptrdiff_t)i);
      VH_CHECK(&s.second == &(*(b + j)).second, "%s: [] gives another object", kind);
    }
    It cp(x);
    cp = y;
    at(cp, j, "assigned iterator");
    at(x, i, "original after assignment");
    It sx = x, sy = y;
    std::swap(sx, sy);
    at(sx, j, "swapped iterator");
    It ad = x;
    std::advance(ad, j - i);
    at(ad, j, "advance");
    count("pairs_checked");
  };
  if (n <= 12) {
    for (Diff i = 0; i <= n; ++i)
      for (Diff j = 0; j <= n; ++j) pair_laws(i, j);
  } else {
    for (int k = 0; k < 150; ++k) pair_laws(r.range(0, n), r.range(0, n));
    pair_laws(0, n);
    pair_laws(n, 0);
  }
  // steps
  It it = b;
  for (Diff i = 0; i < n; ++i) {
    at(it, i, "step");
    if (r.chance(1, 2)) {
      It old = it++;
      at(old, i, "it++");
    } else {
      It& ref = ++it;
      VH_CHECK(&ref == &it, "%s: ++ does not return its operand", kind);
    }
  }
  at(it, n, "after the last");
  for (Diff i = n; i > 0; --i) {
    at(it, i, "back step");
    if (r.chance(1, 2)) {
      It old = it--;
      at(old, i, "it--");
    } else {
      It& ref = --it;
      VH_CHECK(&ref == &it, "%s: -- does not return its operand", kind);
    }
  }
  at(it, 0, "back at begin");
}

// Standard algorithms over the iterators against the same over the vector.
template <class It, class K, class V, class Cmp>
void algorithms(Rng& r, It b, It e, const Vec<K, V>& m, Cmp cmp, uint32_t U, const char* kind) {
  using P = std::pair<K, V>;
  auto eq = [](const auto& x, const auto& y) { return same(x.first, y.first) && same(x.second, y.second); };
  auto pos = [&](It it) { return static_cast<size_t>(it - b); };
  auto mpos = [&](typename Vec<K, V>::const_iterator it) { return static_cast<size_t>(it - m.begin()); };
  VH_CHECK(std::equal(b, e, m.begin(), m.end(), eq), "%s: std::equal differs", kind);
  VH_CHECK(std::is_sorted(b, e, [&](const auto& x, const auto& y) { return cmp(x.first, y.first); }), "%s: std::is_sorted", kind);
  VH_CHECK(std::adjacent_find(b, e, [&](const auto& x, const auto& y) { return !cmp(x.first, y.first); }) == e, "%s: std::adjacent_find", kind);
  Vec<K, V> copy;
  std::copy(b, e, std::back_inserter(copy));
  VH_CHECK(std::equal(copy.begin(), copy.end(), m.begin(), m.end(), eq), "%s: std::copy differs", kind);
  Vec<K, V> rev;
  std::reverse_copy(b, e, std::back_inserter(rev));
  VH_CHECK(std::equal(rev.rbegin(), rev.rend(), m.begin(), m.end(), eq), "%s: std::reverse_copy differs", kind);
  Vec<K, V> ctor(b, e);
  VH_CHECK(std::equal(ctor.begin(), ctor.end(), m.begin(), m.end(), eq), "%s: construction of a vector from the range differs", kind);
  for (int k = 0; k < 6; ++k) {
    const K key = make_key<K, Cmp>(static_cast<uint32_t>(r.below(U)), U, r);
    auto less = [&](const auto& x, const K& y) { return cmp(x.first, y); };
    auto more = [&](const K& y, const auto& x) { return cmp(y, x.first); };
    VH_CHECK(pos(std::lower_bound(b, e, key, less)) == mpos(std::lower_bound(m.begin(), m.end(), key, less)), "%s: std::lower_bound", kind);
    VH_CHECK(pos(std::upper_bound(b, e, key, more)) == mpos(std::upper_bound(m.begin(), m.end(), key, more)), "%s: std::upper_bound", kind);
    auto pred = [&](const auto& x) { return cmp(x.first, key); };
    VH_CHECK(pos(std::partition_point(b, e, pred)) == mpos(std::partition_point(m.begin(), m.end(), pred)), "%s: std::partition_point", kind);
    VH_CHECK(std::count_if(b, e, pred) == std::count_if(m.begin(), m.end(), pred), "%s: std::count_if", kind);
    auto is = [&](const auto& x) { return !cmp(x.first, key) && !cmp(key, x.first); };
    VH_CHECK(pos(std::find_if(b, e, is)) == mpos(std::find_if(m.begin(), m.end(), is)), "%s: std::find_if", kind);
    VH_CHECK(std::any_of(b, e, is) == std::any_of(m.begin(), m.end(), is) && std::all_of(b, e, pred) == std::all_of(m.begin(), m.end(), pred), "%s: std::any_of/all_of", kind);
  }
  auto vless = [](const auto& x, const auto& y) { return Vals<V>::str(x.second) < Vals<V>::str(y.second); };
  VH_CHECK(pos(std::max_element(b, e, vless)) == mpos(std::max_element(m.begin(), m.end(), vless)), "%s: std::max_element", kind);
  VH_CHECK(pos(std::min_element(b, e, vless)) == mpos(std::min_element(m.begin(), m.end(), vless)), "%s: std::min_element", kind);
  auto h = [](uint64_t a, const auto& x) { return mix(a ^ hash_str(Vals<V>::str(x.second).c_str())); };
  VH_CHECK(std::accumulate(b, e, uint64_t(1), h) == std::accumulate(m.begin(), m.end(), uint64_t(1), h), "%s: std::accumulate", kind);
  if (!m.empty()) {
    const size_t cut = static_cast<size_t>(r.below(m.size() + 1));
    Vec<K, V> rot, mrot;
    std::rotate_copy(b, b + static_cast<long>(cut), e, std::back_inserter(rot));
    std::rotate_copy(m.begin(), m.begin() + static_cast<long>(cut), m.end(), std::back_inserter(mrot));
    VH_CHECK(std::equal(rot.begin(), rot.end(), mrot.begin(), mrot.end(), eq), "%s: std::rotate_copy", kind);
    const P p = b[static_cast<long>(cut ? cut - 1 : 0)];
    VH_CHECK(eq(p, m[cut ? cut - 1 : 0]), "%s: conversion to a pair", kind);
    VH_CHECK(pos(std::next(b, static_cast<long>(cut))) == cut && pos(std::prev(e, static_cast<long>(m.size() - cut))) == cut, "%s: next/prev", kind);
  }
  count("algorithm_runs");
}

template <class K, class V, size_t N, class Cmp, SearchMode M>
void iterate(Case& c) {
  using D = fc::dense_map<K, V, N, Cmp, M>;
  using It = typename D::iterator;
  using CIt = typename D::const_iterator;
  static_assert(std::is_convertible_v<It, CIt> && !std::is_convertible_v<CIt, It>);
  static_assert(std::is_same_v<typename std::iterator_traits<It>::value_type, std::pair<K, V>>);
  Rng& r = c.rng;
  Cmp cmp;
  uint32_t U = static_cast<uint32_t>(N * 2 + 4 + r.below(20));
  if (U > Keys<K>::max_universe) U = Keys<K>::max_universe;
  auto d = std::make_unique<D>();
  std::map<K, V, Cmp> m;
  uint64_t vid = 1;
  const int rounds = 6;
  for (int round = 0; round < rounds; ++round) {
    step();
    // move to another fill level
    const size_t target = round == 0 ? 0 : r.chance(1, 4) ? N : r.below(N + 1);
    for (unsigned t = 0; m.size() != target && t < 40 * N + 100; ++t) {
      const K k = make_key<K, Cmp>(static_cast<uint32_t>(r.below(U)), U, r);
      if (m.size() < target) { if (m.emplace(k, Vals<V>::make(vid)).second) d->insert(k, Vals<V>::make(vid)); ++vid; }
      else if (auto e = m.find(k); e != m.end()) { m.erase(e); d->erase(k); }
      else if (r.chance(1, 3)) { d->erase(d->begin()); m.erase(m.begin()); }
    }
    note("capacity %zu, %zu entries", N, m.size());
    state(comb(N, m.size()));
    auto check = [&](D& x, const Vec<K, V>& v, const char* who) {
      const D& cx = x;
      Vec<K, V> rv(v.rbegin(), v.rend());
      char b[96];
      auto nm = [&](const char* k) { snprintf(b, sizeof b, "%s %s", who, k); return b; };
      laws(r, x.begin(), x.end(), v, nm("iterator"));
      laws(r, cx.begin(), cx.end(), v, nm("const_iterator"));
      laws(r, cx.cbegin(), x.cend(), v, nm("cbegin/cend"));
      laws(r, x.rbegin(), x.rend(), rv, nm("reverse_iterator"));
      laws(r, cx.rbegin(), cx.rend(), rv, nm("const_reverse_iterator"));
      laws(r, x.crbegin(), cx.crend(), rv, nm("crbegin/crend"));
      algorithms(r, x.begin(), x.end(), v, cmp, U, nm("iterator"));
      algorithms(r, cx.begin(), cx.end(), v, cmp, U, nm("const_iterator"));
      // mixed comparisons and conversions
      for (int k = 0; k < 8; ++k) {
        const long i = r.range(0, static_cast<int64_t>(v.size())), j = r.range(0, static_cast<int64_t>(v.size()));
        It a = x.begin() + i;
        CIt bb = cx.begin() + j;
        CIt conv = a;
        VH_CHECK(conv - cx.begin() == i && (conv == bb) == (i == j) && (conv < bb) == (i < j) && bb - conv == j - i, "%s: converted iterator", who);
        VH_CHECK(a.index() == static_cast<size_t>(i) && bb.index() == static_cast<size_t>(j), "%s: index()", who);
        if (i < static_cast<long>(v.size())) {
          VH_CHECK(&a.value_ref() == &(*conv).second && &conv->second == &a->second && &(*a).first == &(*conv).first, "%s: const and non-const iterators show different objects", who);
          auto rit = std::make_reverse_iterator(a + 1);
          VH_CHECK(same((*rit).first, v[static_cast<size_t>(i)].first) && rit.base() == a + 1, "%s: reverse_iterator and base", who);
        }
      }
      // writing through every kind of access
      for (int k = 0; k < 4 && !v.empty(); ++k) {
        const long i = static_cast<long>(r.below(v.size()));
        const uint64_t id = vid++;
        It a = x.begin() + i;
        switch (r.below(5)) {
          case 0: a->second = Vals<V>::make(id); break;
          case 1: (*a).second = Vals<V>::make(id); break;
          case 2: x.begin()[i].second = Vals<V>::make(id); break;
          case 3: a.value_ref() = Vals<V>::make(id); break;
          default: x.rbegin()[static_cast<long>(v.size()) - 1 - i].second = Vals<V>::make(id); break;
        }
        for (size_t j = 0; j < v.size(); ++j)
          VH_CHECK(same((cx.begin() + static_cast<long>(j))->second, static_cast<long>(j) == i ? Vals<V>::make(id) : v[j].second), "%s: writing entry %ld changed or missed entry %zu", who, i, j);
        a->second = v[static_cast<size_t>(i)].second;
        count("writes");
      }
    };
    Vec<K, V> v(m.begin(), m.end());
    check(*d, v, "map");
    // iterators of copies belong to the copies
    auto copy = std::make_unique<D>(*d);
    dm_audit(*copy, m, "copy");
    VH_CHECK(m.empty() || &(*copy->begin()).second != &(*d->begin()).second, "a copy shares its entries");
    if (!m.empty()) {
      copy->begin()->second = Vals<V>::make(vid++);
      VH_CHECK(same(d->begin()->second, m.begin()->second), "writing to a copy changed the source");
      copy->begin()->second = m.begin()->second;
    }
    auto moved = std::make_unique<D>(std::move(*copy));
    VH_CHECK(copy->begin() == copy->end(), "a moved-from map has entries");
    check(*moved, v, "moved-to map");
    D assigned;
    if (r.chance(1, 2)) for (uint32_t i = 0; i < U && !assigned.full(); ++i) assigned.insert_or_assign(make_key<K, Cmp>(i, U, r), Vals<V>::make(i));
    assigned = *d;
    dm_audit(assigned, m, "copy-assigned map");
    D massigned;
    if (r.chance(1, 2)) massigned.insert(make_key<K, Cmp>(0, U, r), Vals<V>::make(1));
    massigned = std::move(assigned);
    VH_CHECK(assigned.begin() == assigned.end(), "a moved-from map has entries");
    check(massigned, v, "move-assigned map");
    dm_audit(*d, m, "source of the copies");
    count("maps");
  }
}
template <size_t... N>
void pick(Case& c, std::index_sequence<N...>) {
  const size_t i = c.index % sizeof...(N);
  size_t k = 0;
  ((k++ == i ? iterate<TKEY, TVALUE, N, TCMP, SearchMode::TMODE>(c) : void()), ...);
}
SCENARIO(SCN, NQ, NQ * 25, [](Case& c) { pick(c, std::index_sequence<TCAPS>{}); });
}  // namespace
