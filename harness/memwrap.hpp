// The page-allocation boundary, simulated: mmap/munmap/madvise of the code
// under test are redirected here (linker --wrap).  Every mapping is recorded,
// surrounded by inaccessible guard pages, made inaccessible when it is
// unmapped (and only really released between cases), and can be made to fail
// according to a fault plan.  MAP_HUGETLB mappings are simulated with ordinary
// pages at 2 MB boundaries.
#pragma once
#include <sys/mman.h>

#include <map>
#include <mutex>

#include "vh.hpp"

namespace vh {

struct Mapping {
  uintptr_t base = 0;
  size_t len = 0;     // as requested
  size_t rounded = 0; // what the kernel would really give
  bool huge = false;
  bool live = true;
  uint64_t serial = 0;
  uintptr_t raw = 0;  // reservation including guards
  size_t raw_len = 0;
};

// One call of mmap by the code under test.
struct Attempt {
  size_t len;
  bool huge, ok;
  uintptr_t base;
};

struct MemWorld {
  static constexpr size_t page = 4096, hpage = 2u << 20;
  std::map<uintptr_t, Mapping> maps;  // by base; includes unmapped (quarantined) ones
  uint64_t serial = 0, mmaps = 0, munmaps = 0, failures = 0, huge_ok = 0, huge_failed = 0;
  size_t live_bytes = 0, peak_bytes = 0;
  // fault plan
  bool huge_available = false;
  long long huge_budget = -1;     // hugepage bytes still available; -1: unlimited
  bool regular_available = true;
  long long fail_regular_in = -1; // fail the n-th next regular mapping
  long long fail_huge_in = -1;    // fail the n-th next hugepage mapping
  size_t max_len = size_t(1) << 30;
  std::vector<Attempt> attempts;  // recorded while log is set
  bool log = false;
  bool unmap_allowed = true;      // false while every pool must stay alive
  Rng rng{7};
  std::mutex mu;

  const Mapping* find(uintptr_t p) const {
    auto it = maps.upper_bound(p);
    if (it == maps.begin()) return nullptr;
    --it;
    const Mapping& m = it->second;
    return p >= m.base && p < m.base + m.rounded ? &m : nullptr;
  }
  // the live mapping that contains [p, p+n), within the requested length
  const Mapping* containing(const void* p, size_t n) const {
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const Mapping* m = find(a);
    if (!m || !m->live) return nullptr;
    const size_t usable = m->huge ? m->rounded : m->len;
    return a - m->base + n <= usable && n <= usable ? m : nullptr;
  }
  size_t live_count() const {
    size_t n = 0;
    for (auto& [b, m] : maps) n += m.live;
    return n;
  }
  void reset(uint64_t seed);
  void expect_all_unmapped(const char* when) {
    for (auto& [b, m] : maps)
      VH_CHECK(!m.live, "%s: the mapping %p (%zu bytes) was never unmapped", when, (void*)b, m.len);
  }
};
MemWorld& mem();
// > 0 while harness code runs below a call of the code under test
inline thread_local int in_harness = 0;
struct InHarness {
  InHarness() { ++in_harness; }
  ~InHarness() { --in_harness; }
};

}  // namespace vh
