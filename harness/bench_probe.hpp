// Included before the benchmark program: a clock that the monitor controls and
// containers that record what is asked of them.  At exit the record is written
// to $VH_LOG as JSON.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <print>
#include <random>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
#endif
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#define btree btree_real
#include <fast_containers/btree.hpp>
#undef btree

namespace vhb {
inline void bookkeeping();  // the program prepares a key or notes one down: nothing to do with the operation that is measured
}
namespace std {
// random numbers with few different values, so that keys repeat
struct mt19937_watched : mt19937 {
  using mt19937::mt19937;
  result_type operator()() {
    ::vhb::bookkeeping();
    static const bool narrow = getenv("VH_NARROW") != nullptr;
    const result_type n = mt19937::operator()();
    return narrow ? n & 0xfc000000u : n;
  }
};
template <class... A>
struct unordered_set_watched : unordered_set<A...> {
  using unordered_set<A...>::unordered_set;
  template <class... B>
  auto insert(B&&... b) { ::vhb::bookkeeping(); return unordered_set<A...>::insert(std::forward<B>(b)...); }
  auto insert(const unordered_set<A...>::key_type& k) { ::vhb::bookkeeping(); return unordered_set<A...>::insert(k); }
  template <class... B>
  auto emplace(B&&... b) { ::vhb::bookkeeping(); return unordered_set<A...>::emplace(std::forward<B>(b)...); }
  template <class... B>
  auto erase(B&&... b) { ::vhb::bookkeeping(); return unordered_set<A...>::erase(std::forward<B>(b)...); }
};
}  // namespace std
#define mt19937 mt19937_watched
#define unordered_set unordered_set_watched

namespace vhb {
enum Op { op_none, op_insert, op_find, op_erase, op_walk };
struct Tree {  // one container the program used
  std::string desc;
  uint64_t keys_hash = 0, erased_hash = 0;
  uint64_t last_size = 0;
  std::vector<uint64_t> ins, fnd, ers, walk, walk_steps;  // measured durations, in cycles
  uint64_t ops[5] = {0};                          // operations, measured or not
  uint64_t misses = 0;
  std::vector<std::pair<int, uint64_t>> runs;  // kinds of operation in a row
  uint64_t live_sum = 0, found_sum = 0, found_n = 0, other_finds = 0;  // finds in a row that do not cover the keys
  uint64_t foreign = 0;  // measured durations that include more than the operation
};
struct World {
  std::vector<std::unique_ptr<Tree>> trees;
  Tree* cur = nullptr;
  uint64_t cycles = 1000000, ticks = 0, prev = 0;
  uint64_t state;
  double ratio;  // cycles per nanosecond
  int pending = op_none;
  unsigned pending_n = 0;
  uint64_t steps = 0, total = 0, huge = 0, maps = 0;
  uint64_t slept_ns = 0, nanos = 5, booked = 0;
  World() {
    auto env = [](const char* n, const char* d) { const char* e = getenv(n); return e ? e : d; };
    state = strtoull(env("VH_CLOCK", "1"), nullptr, 10) * 2 + 1;
    ratio = atof(env("VH_RATIO", "2"));
    atexit_dump();
  }
  static void atexit_dump();
  uint64_t next() {
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    return state >> 33;
  }
};
inline World& w() {
  static World* x = new World;
  return *x;
}
// a container the program had not told about: std::map and the like
inline Tree& other(const std::string& d) {
  auto& x = w();
  if (!x.cur || x.cur->desc != d) {
    x.trees.push_back(std::make_unique<Tree>());
    x.cur = x.trees.back().get();
    x.cur->desc = d;
  }
  return *x.cur;
}
inline uint64_t tick() {
  auto& x = w();
  uint64_t d = 1 + x.next() % 50;
  if (x.next() % 16 == 0) d += x.next() % 5000;
  x.cycles += d;
  if (x.pending != op_none && x.cur) {
    auto& t = *x.cur;
    auto& v = x.pending == op_insert ? t.ins : x.pending == op_find ? t.fnd : x.pending == op_erase ? t.ers : t.walk;
    if (!v.empty()) v.back() = x.cycles - x.prev;
    if (x.booked) ++t.foreign;
    if (x.pending == op_walk) t.walk_steps.push_back(x.steps);
  }
  if (x.ticks % 2) x.total += x.cycles - x.prev;
  x.pending = op_none;
  x.booked = 0;
  x.steps = 0;
  ++x.ticks;
  x.prev = x.cycles;
  return x.cycles;
}
inline void bookkeeping() { ++w().booked; }
inline void did(Tree* t, Op o) {
  w().cur = t;
  w().pending = o;
  ++t->ops[o];
  if (t->runs.empty() || t->runs.back().first != o) {
    if (t->found_n) ++t->other_finds;
    t->found_n = t->found_sum = 0;
    t->runs.emplace_back(o, 0);
  }
  ++t->runs.back().second;
  (o == op_insert ? t->ins : o == op_find ? t->fnd : o == op_erase ? t->ers : t->walk).push_back(0);
}
template <class T>
void observed() {
  auto& x = w();
  const std::string n = typeid(T).name();
  ++x.steps;
  if (n.find("_Rb_tree") != n.npos || n.find("_Node_") != n.npos) {
    // iterators of the containers of the standard library, unless a probe is at work
    if (x.cur && !x.cur->desc.starts_with("std") && x.pending != op_none) return;
    using P = typename std::iterator_traits<T>::value_type;
    char d[200];
    snprintf(d, sizeof d, "std::%s %zu %zu", n.find("_Rb_tree") != n.npos ? "map" : "unordered_map", sizeof(typename P::first_type),
             sizeof(typename P::second_type));
    auto& t = other(d);
    ++t.ops[op_find];
  }
}
template <class K>
uint64_t mixk(uint64_t h, const K& k) { return (h ^ static_cast<uint64_t>(k)) * 1099511628211ULL + 0x9e3779b97f4a7c15ULL; }

template <class Real, class K, class V>
class Probe : public Real {
  Tree* t_ = nullptr;

 public:
  static Tree* fresh(const std::string& d) {
    w().trees.push_back(std::make_unique<Tree>());
    w().trees.back()->desc = d;
    return w().trees.back().get();
  }
  Probe() : t_(fresh(describe())) {}
  template <class A>
    requires requires(const A& a) { Real(a); }
  explicit Probe(const A& a) : Real(a), t_(fresh(describe())) {}
  Probe(const Probe& o) : Real(o), t_(o.t_) {}
  Probe(Probe&& o) : Real(std::move(o)), t_(o.t_) {}
  ~Probe() { t_->last_size = std::max<uint64_t>(t_->last_size, this->size()); }
  static std::string describe();
  template <class E>
  auto insert(const E& e) { return put(e.first, e.second); }
  auto insert(std::pair<K, V> e) { return put(e.first, e.second); }
  auto insert(const K& k, const V& v) { return put(k, v); }
  template <class... A>
  auto emplace(const K& k, A&&... a) { return put(k, V(std::forward<A>(a)...)); }
  template <class... A>
  auto try_emplace(const K& k, A&&... a) { return put(k, V(std::forward<A>(a)...)); }
  auto put(const K& k, const V& v) {
    t_->keys_hash = mixk(t_->keys_hash, k);
    did(t_, op_insert);
    auto r = Real::insert({k, v});
    if (!r.second) ++t_->misses;
    else t_->live_sum += mixk(1, k);
    return r;
  }
  auto find(const K& k) {
    did(t_, op_find);
    auto it = Real::find(k);
    if (it == this->Real::end()) ++t_->misses;
    t_->found_sum += mixk(1, k);
    if (++t_->found_n == this->size()) {
      if (t_->found_sum != t_->live_sum) ++t_->other_finds;
      t_->found_n = t_->found_sum = 0;
    }
    return it;
  }
  auto erase(const K& k) {
    t_->erased_hash = mixk(t_->erased_hash, k);
    did(t_, op_erase);
    auto n = Real::erase(k);
    if (!n) ++t_->misses;
    else t_->live_sum -= mixk(1, k);
    return n;
  }
  auto begin() {
    did(t_, op_walk);
    return Real::begin();
  }
};
template <class A>
std::string alloc_name() {
  const std::string n = typeid(A).name();
  return n.find("PolicyBased") != n.npos ? "two_pool" : n.find("MultiSize") != n.npos ? "multi_size" : n.find("HugePage") != n.npos ? "hugepage" : "std";
}
inline void dump() {
  const char* f = getenv("VH_LOG");
  FILE* o = f ? fopen(f, "w") : nullptr;
  if (!o) return;
  auto vec = [&](const char* n, const std::vector<uint64_t>& v) {
    fprintf(o, "\"%s\":[", n);
    for (size_t i = 0; i < v.size(); ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)v[i]);
    fprintf(o, "],");
  };
  fprintf(o, "{\"trees\":[");
  bool first = true;
  for (auto& t : w().trees) {
    fprintf(o, "%s{\"desc\":\"%s\",", first ? "" : ",", t->desc.c_str());
    first = false;
    vec("insert", t->ins);
    vec("find", t->fnd);
    vec("erase", t->ers);
    vec("walk", t->walk);
    vec("steps", t->walk_steps);
    std::vector<uint64_t> rs;
    for (auto& [o, n] : t->runs) rs.push_back(o), rs.push_back(n);
    vec("runs", rs);
    fprintf(o, "\"ops\":[%llu,%llu,%llu,%llu],\"misses\":%llu,\"foreign\":%llu,\"other_finds\":%llu,\"last_size\":%llu,\"keys\":\"%llx\",\"erased\":\"%llx\"}", (unsigned long long)t->ops[1],
            (unsigned long long)t->ops[2], (unsigned long long)t->ops[3], (unsigned long long)t->ops[4], (unsigned long long)t->misses, (unsigned long long)t->foreign, (unsigned long long)t->other_finds,
            (unsigned long long)t->last_size, (unsigned long long)t->keys_hash, (unsigned long long)t->erased_hash);
  }
  fprintf(o, "],\"ticks\":%llu,\"total\":%llu,\"huge\":%llu}\n", (unsigned long long)w().ticks, (unsigned long long)w().total, (unsigned long long)w().huge);
  fclose(o);
}
inline void World::atexit_dump() { atexit(dump); }

// the sandbox has no hugepages: note who asks for them
}  // namespace vhb
#include <sys/mman.h>
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (flags & MAP_HUGETLB) ++vhb::w().huge;
  return __real_mmap(a, n, prot, flags, fd, off);
}
namespace vhb {
struct fake_clock {
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<fake_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(w().nanos)); }
};
// time passes: cycles and nanoseconds in the chosen proportion
template <class D>
void fake_sleep(const D& d) {
  const double ns = static_cast<double>(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
  w().nanos += static_cast<uint64_t>(ns);
  w().cycles += static_cast<uint64_t>(ns * w().ratio);
}
}  // namespace vhb
namespace std::chrono { using vh_clock = ::vhb::fake_clock; }
namespace std::this_thread {
template <class D>
void vh_sleep(const D& d) { ::vhb::fake_sleep(d); }
}
#define high_resolution_clock vh_clock
#define steady_clock vh_clock
#define system_clock vh_clock
#define sleep_for vh_sleep
inline unsigned long long vh_rdtscp(unsigned* a) { *a = 0; return vhb::tick(); }
inline unsigned long long vh_rdtsc() { return vhb::w().cycles; }
#undef __rdtscp
#undef __rdtsc
#undef _rdtsc
#define __rdtscp vh_rdtscp
#define __rdtsc vh_rdtsc

namespace kressler::fast_containers {
template <typename K, typename V, std::size_t L = default_leaf_node_size<K, V>(), std::size_t I = default_internal_node_size<K>(),
          typename C = std::less<K>, SearchMode M = SearchMode::Linear, typename A = std::allocator<std::pair<K, V>>>
using btree_probed = vhb::Probe<btree_real<K, V, L, I, C, M, A>, K, V>;
}
namespace vhb {
template <class T>
struct Describe;
template <class K, class V, std::size_t L, std::size_t I, class C, kressler::fast_containers::SearchMode M, class A>
struct Describe<kressler::fast_containers::btree_real<K, V, L, I, C, M, A>> {
  static std::string get() {
    using kressler::fast_containers::SearchMode;
    return "btree " + std::to_string(sizeof(K)) + " " + std::to_string(sizeof(V)) + " " + std::to_string(L) + " " + std::to_string(I) + " " +
           (M == SearchMode::SIMD ? "simd" : M == SearchMode::Binary ? "binary" : "linear") + " " + alloc_name<A>();
  }
};
template <class Real, class K, class V>
std::string Probe<Real, K, V>::describe() { return Describe<Real>::get(); }
}  // namespace vhb
#define btree btree_probed
#define VH_DO_NOT_OPTIMIZE
