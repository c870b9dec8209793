// Stand-in for Google Benchmark: the repository's programs use DoNotOptimize.
#pragma once
#ifdef VH_DO_NOT_OPTIMIZE
namespace benchmark {
template <class T>
inline void DoNotOptimize(T&& v) {
  vhb::observed<std::remove_cvref_t<T>>();
  asm volatile("" : : "r"(&v) : "memory");
}
}  // namespace benchmark
#else
namespace benchmark {
template <class T>
inline void DoNotOptimize(T&& v) { asm volatile("" : : "r"(&v) : "memory"); }
}  // namespace benchmark
#endif
