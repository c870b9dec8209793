// Monitoring allocator: every node is individually heap-allocated (so ASan
// surrounds it with red zones) and recorded in a ledger.
#pragma once
#include <memory>
#include <new>
#include <typeinfo>
#include <unordered_map>

#include "vh.hpp"

namespace vh {

struct Ledger {
  struct Rec {
    size_t bytes, n;
    size_t type;
    uint64_t serial;
  };
  std::unordered_map<void*, Rec> live;
  std::map<size_t, uint64_t> live_by_type;  // type hash -> live blocks
  uint64_t allocs = 0, frees = 0, serial = 0;
  uint64_t peak = 0;
  long long fail_in = -1;  // throw bad_alloc at the fail_in-th next allocation
  uint64_t failed = 0;
  const char* name = "ledger";
  Ledger* on_copy = nullptr;  // what select_on_container_copy_construction() gives

  void* allocate(size_t bytes, size_t n, size_t align, size_t type) {
    if (fail_in >= 0 && fail_in-- == 0) {
      ++failed;
      throw std::bad_alloc();
    }
    void* p = ::operator new(bytes, std::align_val_t(align));
    memset(p, 0xa5, bytes);
    live[p] = Rec{bytes, n, type, ++serial};
    ++live_by_type[type];
    ++allocs;
    if (live.size() > peak) peak = live.size();
    return p;
  }
  void deallocate(void* p, size_t bytes, size_t n, size_t align, size_t type) {
    auto it = live.find(p);
    VH_CHECK(it != live.end(),
             "allocator '%s' asked to free %p (%zu bytes): not a live block of this allocator "
             "(double free, or block of another allocator)",
             name, p, bytes);
    VH_CHECK(it->second.bytes == bytes && it->second.n == n,
             "block %p freed with size %zu (n=%zu) but allocated with size %zu (n=%zu)", p, bytes,
             n, it->second.bytes, it->second.n);
    VH_CHECK(it->second.type == type, "block %p freed through an allocator of another type", p);
    --live_by_type[type];
    live.erase(it);
    ++frees;
    memset(p, 0xdd, bytes);
    ::operator delete(p, std::align_val_t(align));
  }
  void expect_empty(const char* when) {
    VH_CHECK(live.empty(), "%s: %zu blocks (of %llu allocated) were never returned to allocator '%s'",
             when, live.size(), (unsigned long long)allocs, name);
  }
};

inline Ledger& default_ledger() {
  static Ledger* l = new Ledger;
  l->name = "default";
  return *l;
}

struct AllProp {  // propagates everywhere
  using pocca = std::false_type;
  using pocma = std::true_type;
  using pocs = std::true_type;
  static constexpr bool soccc_default = false;
};
struct NoProp {  // propagates nowhere
  using pocca = std::false_type;
  using pocma = std::false_type;
  using pocs = std::false_type;
  static constexpr bool soccc_default = false;
};

template <class T, class P = AllProp>
class MonAlloc {
 public:
  using value_type = T;
  using propagate_on_container_copy_assignment = typename P::pocca;
  using propagate_on_container_move_assignment = typename P::pocma;
  using propagate_on_container_swap = typename P::pocs;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = MonAlloc<U, P>;
  };
  Ledger* l;
  MonAlloc() : l(&default_ledger()) {}
  explicit MonAlloc(Ledger& x) : l(&x) {}
  template <class U>
  MonAlloc(const MonAlloc<U, P>& o) : l(o.l) {}
  T* allocate(size_t n) {
    return static_cast<T*>(
        l->allocate(n * sizeof(T), n, alignof(T) > 16 ? alignof(T) : 16, typeid(T).hash_code()));
  }
  void deallocate(T* p, size_t n) {
    l->deallocate(p, n * sizeof(T), n, alignof(T) > 16 ? alignof(T) : 16, typeid(T).hash_code());
  }
  MonAlloc select_on_container_copy_construction() const { return MonAlloc(l->on_copy ? *l->on_copy : *l); }
  template <class U>
  bool operator==(const MonAlloc<U, P>& o) const {
    return l == o.l;
  }
  template <class U>
  bool operator!=(const MonAlloc<U, P>& o) const {
    return l != o.l;
  }
};

}  // namespace vh
