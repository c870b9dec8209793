// Helpers shared by the dense_map checks.
#pragma once
#include <fast_containers/dense_map.hpp>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <vector>

#include "types.hpp"
#include "vh.hpp"

namespace vh {
namespace fc = kressler::fast_containers;
using fc::SearchMode;

// Move-only value.
struct MoveOnly {
  std::unique_ptr<uint64_t> p;
  MoveOnly() = default;
  explicit MoveOnly(uint64_t x) : p(new uint64_t(x)) {}
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) noexcept = default;
  uint64_t get() const { return p ? *p : 0; }
};
template <>
struct Vals<MoveOnly> {
  static MoveOnly make(uint64_t id) { return MoveOnly(id); }
  static std::string str(const MoveOnly& v) { return "u" + std::to_string(v.get()); }
};
inline bool same(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }

template <size_t N>
struct Keys<std::array<uint8_t, N>> {
  static constexpr uint32_t max_universe = N == 1 ? 256 : N == 2 ? 65536 : 1u << 24;
  using A = std::array<uint8_t, N>;
  static A make(uint32_t i, uint32_t U, Rng&) {
    A a{};
    if (i + 1 >= U) {
      a.fill(255);
      return a;
    }
    // big-endian number spread over first and last bytes
    const size_t sig = N < 4 ? N : 4;
    for (size_t k = 0; k < sig; ++k) {
      const size_t pos = (N > 4 && k >= 2) ? N - sig + k : k;
      a[pos] = static_cast<uint8_t>(i >> (8 * (sig - 1 - k)));
    }
    return a;
  }
  static std::string str(const A& k) {
    std::string s;
    char b[4];
    for (auto c : k) { snprintf(b, sizeof b, "%02x", c); s += b; }
    return s;
  }
};

// Everything a dense_map shows, compared with a sorted sequence of entries.
template <class D, class Seq>
void dm_audit(D& d, const Seq& m, const char* when) {
  using K = typename D::key_type;
  using V = typename D::mapped_type;
  const D& cd = d;
  const size_t n = m.size(), cap = cd.capacity();
  VH_CHECK(cd.size() == n, "%s: size() is %zu, expected %zu", when, (size_t)cd.size(), n);
  VH_CHECK(cd.empty() == (n == 0), "%s: empty() is %d with %zu entries", when, cd.empty(), n);
  VH_CHECK(cd.full() == (n == cap), "%s: full() is %d with %zu of %zu entries", when, cd.full(), n, cap);
  size_t i = 0;
  auto it = d.begin();
  auto cit = cd.begin();
  auto ccit = cd.cbegin();
  for (const auto& e : m) {
    VH_CHECK(it != d.end() && cit != cd.end() && ccit != cd.cend(), "%s: iteration ended after %zu of %zu entries", when, i, n);
    VH_CHECK(same((*it).first, e.first) && same(cit->first, e.first), "%s: key %zu of %zu is %s, expected %s", when, i, n,
             Keys<K>::str((*it).first).c_str(), Keys<K>::str(e.first).c_str());
    VH_CHECK(same((*it).second, e.second) && same(cit->second, e.second) && same((*ccit).second, e.second),
             "%s: value %zu of %zu is %s, expected %s", when, i, n, Vals<V>::str((*it).second).c_str(), Vals<V>::str(e.second).c_str());
    ++it;
    ++cit;
    ++ccit;
    ++i;
  }
  VH_CHECK(it == d.end() && cit == cd.end() && ccit == cd.cend(), "%s: iteration does not end after %zu entries", when, n);
  auto rit = d.rbegin();
  auto crit = cd.rbegin();
  auto me = m.end();
  for (size_t k = n; k-- > 0;) {
    --me;
    VH_CHECK(rit != d.rend() && crit != cd.crend(), "%s: backward iteration ended early", when);
    VH_CHECK(same((*rit).first, me->first) && same((*crit).second, me->second), "%s: backward iteration differs at entry %zu", when, k);
    ++rit;
    ++crit;
  }
  VH_CHECK(rit == d.rend() && crit == cd.rend(), "%s: backward iteration does not end", when);
  count("dm_audits");
}
}  // namespace vh
