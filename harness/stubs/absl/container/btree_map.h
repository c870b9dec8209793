// Stand-in for Abseil's btree_map: a std::map (recorded, if a probe is present).
#pragma once
#include <functional>
#include <map>
namespace absl {
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
struct btree_map_base : std::map<K, V, C, A> { using std::map<K, V, C, A>::map; };
#ifdef VH_DO_NOT_OPTIMIZE
}  // namespace absl
namespace vhb {
template <class K, class V, class C, class A>
struct Describe<absl::btree_map_base<K, V, C, A>> {
  static std::string get() { return "absl " + std::to_string(sizeof(K)) + " " + std::to_string(sizeof(V)) + " " + alloc_name<A>(); }
};
}  // namespace vhb
namespace absl {
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
using btree_map = vhb::Probe<btree_map_base<K, V, C, A>, K, V>;
#else
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
using btree_map = btree_map_base<K, V, C, A>;
#endif
}  // namespace absl
