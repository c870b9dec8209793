#pragma once
namespace kressler::histograms {
template <int, int, int>
struct LogLinearBucketer {};
}
