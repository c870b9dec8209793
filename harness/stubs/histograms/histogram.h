// Stand-in for kressler/histograms: keeps every observation, exact percentiles.
#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
namespace kressler::histograms {
template <class Bucketer>
class Histogram {
  std::vector<uint64_t> v_;

 public:
  void observe(uint64_t x) { v_.push_back(x); }
  uint64_t count() const { return v_.size(); }
  double percentile(double p) const { return percentiles({p})[0]; }
  std::vector<double> percentiles(const std::vector<double>& ps) const {
    auto s = v_;
    std::sort(s.begin(), s.end());
    std::vector<double> r;
    for (double p : ps) {
      if (s.empty()) { r.push_back(0); continue; }
      size_t i = static_cast<size_t>(p * static_cast<double>(s.size()));
      r.push_back(static_cast<double>(s[std::min(i, s.size() - 1)]));
    }
    return r;
  }
};
}  // namespace kressler::histograms
