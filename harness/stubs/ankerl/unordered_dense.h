// Stand-in for ankerl::unordered_dense: a std::unordered_map (recorded, if a probe is present).
#pragma once
#include <unordered_map>
namespace ankerl::unordered_dense {
template <class K, class V>
struct map_base : std::unordered_map<K, V> { using std::unordered_map<K, V>::unordered_map; };
#ifdef VH_DO_NOT_OPTIMIZE
}
namespace vhb {
template <class K, class V>
struct Describe<ankerl::unordered_dense::map_base<K, V>> {
  static std::string get() { return "dense " + std::to_string(sizeof(K)) + " " + std::to_string(sizeof(V)); }
};
}  // namespace vhb
namespace ankerl::unordered_dense {
template <class K, class V>
using map = vhb::Probe<map_base<K, V>, K, V>;
#else
template <class K, class V>
using map = map_base<K, V>;
#endif
}  // namespace ankerl::unordered_dense
