#include "memwrap.hpp"

#include <cerrno>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
void* __wrap_mmap(void*, size_t, int, int, int, off_t);
int __wrap_munmap(void*, size_t);
int __wrap_madvise(void*, size_t, int);
}

namespace vh {
MemWorld& mem() {
  static MemWorld* m = new MemWorld;
  return *m;
}
void MemWorld::reset(uint64_t seed) {
  for (auto& [b, m] : maps) __real_munmap(reinterpret_cast<void*>(m.raw), m.raw_len);
  maps.clear();
  live_bytes = peak_bytes = 0;
  mmaps = munmaps = failures = huge_ok = huge_failed = 0;
  huge_available = false;
  huge_budget = -1;
  regular_available = true;
  fail_regular_in = fail_huge_in = -1;
  max_len = size_t(1) << 30;
  unmap_allowed = true;
  attempts.clear();
  log = false;
  rng = Rng(seed);
}
}  // namespace vh

using namespace vh;

extern "C" void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  MemWorld& w = mem();
  std::lock_guard<std::mutex> g(w.mu);
  InHarness ih;
  if (!(flags & MAP_ANONYMOUS) || (flags & MAP_FIXED))
    return __real_mmap(addr, len, prot, flags, fd, off);
  const bool huge = (flags & MAP_HUGETLB) != 0;
  auto failed = [&]() {
    ++w.failures;
    if (huge) ++w.huge_failed;
    if (w.log) w.attempts.push_back({len, huge, false, 0});
    errno = ENOMEM;
    return MAP_FAILED;
  };
  if (len == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if (len > w.max_len) return failed();
  const size_t gran = huge ? MemWorld::hpage : MemWorld::page;
  const size_t rounded = (len + gran - 1) / gran * gran;
  if (huge) {
    if (!w.huge_available) return failed();
    if (w.fail_huge_in >= 0 && w.fail_huge_in-- == 0) return failed();
    if (w.huge_budget >= 0) {
      if (static_cast<long long>(rounded) > w.huge_budget) return failed();
      w.huge_budget -= static_cast<long long>(rounded);
    }
  } else {
    if (!w.regular_available) return failed();
    if (w.fail_regular_in >= 0 && w.fail_regular_in-- == 0) return failed();
  }
  // reservation: guard + region (+ slack for placement) + guard
  const size_t slack = huge ? MemWorld::hpage : 64 * MemWorld::page;
  const size_t raw_len = rounded + slack + 2 * MemWorld::page;
  void* raw = __real_mmap(nullptr, raw_len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (raw == MAP_FAILED) broken("cannot reserve %zu bytes for the simulated mapping", raw_len);
  const uintptr_t r = reinterpret_cast<uintptr_t>(raw);
  uintptr_t base;
  if (huge) {
    base = (r + MemWorld::page + MemWorld::hpage - 1) / MemWorld::hpage * MemWorld::hpage;
  } else {
    base = r + MemWorld::page;
    // ordinary mappings promise page alignment only: place them at odd pages
    if ((base / MemWorld::page) % 2 == 0) base += MemWorld::page;
    base += 2 * MemWorld::page * w.rng.below(31);
  }
  if (mprotect(reinterpret_cast<void*>(base), rounded, prot) != 0) broken("mprotect failed");
  if (flags & MAP_POPULATE)
    for (size_t i = 0; i < rounded; i += gran) reinterpret_cast<volatile char*>(base)[i] = 0;
  Mapping m;
  m.base = base;
  m.len = len;
  m.rounded = rounded;
  m.huge = huge;
  m.serial = ++w.serial;
  m.raw = r;
  m.raw_len = raw_len;
  w.maps[base] = m;
  ++w.mmaps;
  if (huge) ++w.huge_ok;
  if (w.log) w.attempts.push_back({len, huge, true, base});
  w.live_bytes += rounded;
  if (w.live_bytes > w.peak_bytes) w.peak_bytes = w.live_bytes;
  return reinterpret_cast<void*>(base);
}

extern "C" int __wrap_munmap(void* p, size_t len) {
  MemWorld& w = mem();
  std::lock_guard<std::mutex> g(w.mu);
  InHarness ih;
  auto it = w.maps.find(reinterpret_cast<uintptr_t>(p));
  if (it == w.maps.end()) {
    const Mapping* in = w.find(reinterpret_cast<uintptr_t>(p));
    VH_CHECK(!in, "munmap(%p, %zu) inside the mapping %p (%zu bytes): a mapping must be released with its full extent", p, len, (void*)in->base, in->len);
    fail("munmap(%p, %zu): not a mapping of this program", p, len);
  }
  Mapping& m = it->second;
  VH_CHECK(m.live, "munmap(%p, %zu): this mapping was already unmapped", p, len);
  const size_t gran = m.huge ? MemWorld::hpage : MemWorld::page;
  VH_CHECK(!m.huge || len % gran == 0, "munmap(%p, %zu) of a hugepage mapping: the length is not a multiple of the hugepage size (the kernel refuses it)", p, len);
  const size_t rounded = (len + gran - 1) / gran * gran;
  VH_CHECK(rounded == m.rounded, "munmap(%p, %zu): the mapping has %zu bytes, it must be released with its full extent", p, len, m.rounded);
  VH_CHECK(w.unmap_allowed, "munmap(%p, %zu) while the pool that owns the mapping is in use", p, len);
  m.live = false;
  ++w.munmaps;
  w.live_bytes -= m.rounded;
  if (m.huge && w.huge_budget >= 0) w.huge_budget += static_cast<long long>(m.rounded);
  // quarantine: any later access faults
  if (__real_mmap(p, m.rounded, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
    broken("quarantine failed");
  return 0;
}

extern "C" int __wrap_madvise(void* p, size_t len, int advice) {
  MemWorld& w = mem();
  std::lock_guard<std::mutex> g(w.mu);
  InHarness ih;
  const Mapping* m = w.find(reinterpret_cast<uintptr_t>(p));
  if (!m || !m->live) {
    errno = ENOMEM;
    return -1;
  }
  switch (advice) {
    case MADV_NORMAL: case MADV_HUGEPAGE: case MADV_NOHUGEPAGE: case MADV_WILLNEED: case MADV_RANDOM: case MADV_SEQUENTIAL:
      if (w.rng.chance(1, 4)) {  // advice may be refused: nothing depends on it
        errno = EINVAL;
        return -1;
      }
      return 0;
    default:
      return __real_madvise(p, len, advice);  // advice with an effect has that effect
  }
}
