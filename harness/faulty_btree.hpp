// Included before the stress tool: the tool's btree becomes a btree of the
// code under test that can misbehave in one chosen way at one chosen moment.
#pragma once
#define btree btree_real
#include <fast_containers/btree.hpp>
#undef btree
#include <cstdint>
#include <limits>
#include <map>
#include <random>
#include <stdexcept>

namespace vhf {
enum Kind { none, drop_insert, wrong_value, ignore_erase, erase_neighbour, find_end, find_other, miss_last, extra_last, extra_first, other_key,
            overwrite_existing, erase_alters, insert_alters, kinds };
// Shared between the monitor and the run it watches.
struct Run {
  int kind = none;
  uint64_t tree = 0, at = 0;  // misbehave at the at-th call of its sort on the tree-th tree
  bool fired = false;
  bool narrow = false;  // random numbers with few different values, so that keys repeat
  uint64_t trees = 0;
  struct Tree {
    uint64_t hash = 0, inserts = 0, repeated = 0, erases = 0, finds = 0, begins = 0;
    uint64_t erases_looked_at = 0;  // erasures before the last lookup
    // lookups that only serve the change that follows at once
    unsigned char serving[1 << 13] = {};
    bool serves(uint64_t n) const { return n >= sizeof serving * 8 || (serving[n / 8] >> (n % 8) & 1); }
    uint64_t lows = 0, low[8] = {};  // sizes at which erasing turned into inserting
    bool shrinking = false;
    uint64_t first_size = 0, last_size = 0, max_size = 0;
  } t[8];
};
Run& run();  // defined by the monitor
}  // namespace vhf

namespace std {
struct mt19937_watched : mt19937 {
  using mt19937::mt19937;
  result_type operator()() {
    const result_type n = mt19937::operator()();
    return vhf::run().narrow ? n & 0xffc00000u : n;
  }
};
}  // namespace std
#define mt19937 mt19937_watched

namespace kressler::fast_containers {
template <typename K, typename V, std::size_t L = default_leaf_node_size<K, V>(), std::size_t I = default_internal_node_size<K>(),
          typename C = std::less<K>, SearchMode M = SearchMode::Linear, typename A = std::allocator<std::pair<K, V>>>
class btree : public btree_real<K, V, L, I, C, M, A> {
  using Real = btree_real<K, V, L, I, C, M, A>;
  uint64_t me_;
  // elements changed for the time of one validation
  bool undo_ = false;
  K added_{};
  bool just_found_ = false, seen_ = false;
  bool has_added_ = false, has_removed_ = false;
  std::pair<K, V> removed_{};
  Real& real() { return *this; }
  vhf::Run::Tree& rec() { return vhf::run().t[me_ < 8 ? me_ : 7]; }
  bool now(vhf::Kind k, uint64_t n) const { auto& r = vhf::run(); return r.kind == k && r.tree == me_ && r.at == n && !r.fired; }
  void log(uint64_t a, uint64_t b) { rec().hash = (rec().hash ^ (a * 0x9e3779b97f4a7c15ULL + b)) * 1099511628211ULL; }
  // the operation before this one was a lookup: of what use was it?
  void use(bool change) {
    if (!just_found_) return;
    just_found_ = false;
    const uint64_t n = rec().finds - 1;
    if (!change) seen(), rec().erases_looked_at = rec().erases;
    else if (n < sizeof rec().serving * 8) rec().serving[n / 8] |= static_cast<unsigned char>(1u << (n % 8));
  }
  void seen() {
    if (!seen_) rec().first_size = this->size();
    seen_ = true;
  }
  void alter_neighbour(const K& k) {
    auto it = real().upper_bound(k);
    if (it == real().end()) {
      it = real().lower_bound(k);
      if (it == real().begin()) return;
      --it;
    }
    it->second ^= 1;
    vhf::run().fired = true;
  }
  void restore() {
    if (!undo_) return;
    undo_ = false;
    if (has_added_) real().erase(added_);
    if (has_removed_) real().insert(removed_.first, removed_.second);
    has_added_ = has_removed_ = false;
  }

 public:
  using typename Real::iterator;
  btree() : me_(vhf::run().trees++) {}
  btree(const btree&) = delete;
  ~btree() { rec().last_size = this->size(); }
  std::pair<iterator, bool> insert(const K& k, const V& v) { return put(k, v, false); }
  std::pair<iterator, bool> insert_or_assign(const K& k, const V& v) { return put(k, v, true); }
  iterator emplace_hint(typename Real::const_iterator, const K& k, const V& v) { return put(k, v, false).first; }
  V& operator[](const K& k) {
    auto it = real().find(k);
    return it != real().end() ? it->second : put(k, V{}, false).first->second;
  }
  std::pair<iterator, bool> put(const K& k, const V& v, bool assign) {
    use(true);
    restore();
    if (rec().shrinking) {
      if (rec().lows < 8) rec().low[rec().lows] = this->size();
      ++rec().lows;
      rec().shrinking = false;
    }
    const bool fresh = real().find(k) == real().end();
    const uint64_t n = fresh ? rec().inserts++ : rec().repeated++;
    log(1, static_cast<uint64_t>(k));
    log(2, static_cast<uint64_t>(v));
    if (!fresh) {
      auto it = real().find(k);
      if (assign) it->second = v;
      else if (now(vhf::overwrite_existing, n) && it->second != v) { vhf::run().fired = true; it->second = v; }
      return {it, false};
    }
    if (now(vhf::drop_insert, n)) { vhf::run().fired = true; return {real().end(), true}; }
    if (now(vhf::wrong_value, n)) { vhf::run().fired = true; return real().insert(k, v ^ 1); }
    if (now(vhf::insert_alters, n)) alter_neighbour(k);
    auto r = real().insert(k, v);
    if (this->size() > rec().max_size) rec().max_size = this->size();
    return r;
  }
  std::pair<iterator, bool> insert(const std::pair<K, V>& e) { return insert(e.first, e.second); }
  template <typename KK, typename VV>
  std::pair<iterator, bool> emplace(const KK& k, const VV& v) { return insert(K(k), V(v)); }
  template <typename VV>
  std::pair<iterator, bool> try_emplace(const K& k, const VV& v) { return insert(k, V(v)); }
  auto erase(iterator it) {
    if (it == real().end()) return it;
    const K k = it->first;
    erase(k);
    return real().upper_bound(k);
  }
  auto erase(const K& k) {
    use(true);
    restore();
    const uint64_t n = rec().erases++;
    rec().shrinking = true;
    log(3, static_cast<uint64_t>(k));
    if (now(vhf::ignore_erase, n)) { vhf::run().fired = true; return decltype(real().erase(k))(1); }
    if (now(vhf::erase_neighbour, n)) {
      auto it = real().upper_bound(k);
      if (it != real().end()) { K other = it->first; vhf::run().fired = true; real().erase(other); }
    }
    if (now(vhf::erase_alters, n)) alter_neighbour(k);
    return real().erase(k);
  }
  iterator find(const K& k) {
    use(false);
    restore();
    const uint64_t n = rec().finds++;
    just_found_ = true;
    if (now(vhf::find_end, n)) { vhf::run().fired = true; return real().end(); }
    auto it = real().find(k);
    if (now(vhf::find_other, n) && it != real().end()) {
      auto o = real().upper_bound(k);
      if (o != real().end() && o->second != it->second) { vhf::run().fired = true; return o; }
    }
    return it;
  }
  iterator cbegin() { return begin(); }
  iterator lower_bound(const K& k) {
    iterator it = find(k);
    return it != real().end() ? it : real().lower_bound(k);
  }
  V& at(const K& k) {
    iterator it = find(k);
    if (it == real().end()) throw std::out_of_range("at");
    return it->second;
  }
  bool contains(const K& k) { return find(k) != real().end(); }
  size_t count(const K& k) { return contains(k); }
  iterator begin() {
    use(false);
    restore();
    seen();
    const uint64_t n = rec().begins++;
    auto remove = [&](iterator it) { removed_ = {it->first, it->second}; has_removed_ = undo_ = true; K k = it->first; real().erase(k); };
    auto add = [&](K k) { added_ = k; has_added_ = undo_ = true; real().insert(k, V{}); };
    if (now(vhf::miss_last, n) && this->size() > 0) { vhf::run().fired = true; auto it = real().end(); --it; remove(it); }
    else if (now(vhf::extra_last, n) && real().find(std::numeric_limits<K>::max()) == real().end()) { vhf::run().fired = true; add(std::numeric_limits<K>::max()); }
    else if (now(vhf::extra_first, n) && real().find(std::numeric_limits<K>::min()) == real().end()) { vhf::run().fired = true; add(std::numeric_limits<K>::min()); }
    else if (now(vhf::other_key, n) && this->size() > 0) {
      auto it = real().begin();
      for (size_t i = 0; i < this->size() / 2; ++i) ++it;
      const K k = it->first;
      if (k != std::numeric_limits<K>::max() && real().find(k + 1) == real().end()) { vhf::run().fired = true; remove(it); add(k + 1); }
    }
    return real().begin();
  }
};
}  // namespace kressler::fast_containers
