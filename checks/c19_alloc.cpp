// Blocks obtained through the three allocators, including array requests: each
// block has room for all its objects, is aligned, disjoint from the blocks in
// use and never overwritten, or the request is refused with an exception.
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <map>
#include <memory>

#include "memwrap.hpp"
#include "vh.hpp"
using namespace vh;
namespace fc = kressler::fast_containers;

namespace {
template <size_t N>
struct Plain { unsigned char c[N]; };
struct alignas(128) Over { unsigned char c[384]; };
struct alignas(4096) PageAligned { unsigned char c[4096]; };
struct alignas(8192) TwoPages { unsigned char c[8192]; };
struct alignas(65536) FarAligned { unsigned char c[65536]; };
struct Leaf { unsigned char c[200]; Leaf* next_leaf; };
struct Inner { unsigned char c[100]; bool children_are_leaves; };

struct Blocks {
  struct B { uintptr_t a; size_t bytes; uint64_t stamp; int type; size_t n; };
  std::map<uintptr_t, B> live;
  uint64_t stamps = 0;
  static unsigned char pat(uint64_t s, size_t i) { return static_cast<unsigned char>((s * 0x9e3779b97f4a7c15ULL >> 40) + i * 5); }
  static size_t stride(size_t bytes) { return bytes > 65536 ? 997 : 1; }
  void add(void* p, size_t bytes, size_t align, int type, size_t n) {
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    VH_CHECK(p != nullptr, "a request for %zu bytes was answered with a null pointer", bytes);
    VH_CHECK(a % align == 0, "block %p is not aligned to %zu", p, align);
    VH_CHECK(mem().containing(p, bytes), "the block %p for %zu objects (%zu bytes) is not inside the pool's memory", p, n, bytes);
    auto it = live.lower_bound(a);
    VH_CHECK(it == live.end() || it->first >= a + bytes, "the block %p for %zu objects (%zu bytes) overlaps the block %p in use", p, n, bytes, (void*)it->first);
    VH_CHECK(it == live.begin() || std::prev(it)->first + std::prev(it)->second.bytes <= a, "the block %p for %zu objects overlaps the block %p in use", p, n,
             (void*)std::prev(it)->first);
    live[a] = {a, bytes, ++stamps, type, n};
    for (size_t i = 0; i < bytes; i += stride(bytes)) static_cast<unsigned char*>(p)[i] = pat(stamps, i);
    static_cast<unsigned char*>(p)[bytes - 1] = pat(stamps, bytes - 1);
  }
  void verify(const B& b, const char* when) const {
    const unsigned char* p = reinterpret_cast<const unsigned char*>(b.a);
    for (size_t i = 0; i < b.bytes; i += stride(b.bytes))
      VH_CHECK(p[i] == pat(b.stamp, i), "%s: byte %zu of a block in use (%zu bytes) was overwritten", when, i, b.bytes);
    VH_CHECK(p[b.bytes - 1] == pat(b.stamp, b.bytes - 1), "%s: the last byte of a block in use (%zu bytes) was overwritten", when, b.bytes);
    count("blocks_verified");
  }
  void verify_all(const char* when) const { for (auto& [a, b] : live) verify(b, when); }
};

template <class A>
struct One {
  using T = typename std::allocator_traits<A>::value_type;
  A a;
  int type;
  void step(Case& c, Blocks& bl) {
    Rng& r = c.rng;
    const unsigned op = static_cast<unsigned>(r.below(20));
    static const size_t counts[] = {2, 3, 7, 64, 1000};
    if (op < 2) {
      T* p = nullptr;
      note("type %d allocate(0)", type);
      try { p = a.allocate(0); } catch (const std::exception&) { count("refused"); }
      (void)p;
      count("zero_requests");
    } else if (op < 6 || op == 19) {
      size_t n = op == 19 ? SIZE_MAX / sizeof(T) + r.below(3) - 1 : counts[r.below(5)];
      if (op == 19 && r.chance(1, 2)) n = (SIZE_MAX >> r.below(20)) - r.below(70);
      if (n == 0) n = 2;
      note("type %d allocate(%zu)", type, n);
      T* p;
      try {
        p = a.allocate(n);
      } catch (const std::exception&) {
        count("refused");
        bl.verify_all("after a refused request");
        return;
      }
      VH_CHECK(n <= SIZE_MAX / sizeof(T), "a request for %zu objects of %zu bytes was granted", n, sizeof(T));
      bl.add(p, n * sizeof(T), alignof(T), type, n);
      count("array_blocks");
    } else if (op < 13) {
      note("type %d allocate(1) live %zu", type, bl.live.size());
      T* p = a.allocate(1);
      bl.add(p, sizeof(T), alignof(T), type, 1);
      count("blocks");
    } else if (op < 14) {
      note("type %d deallocate(nullptr, 1)", type);
      a.deallocate(nullptr, 1);
    } else {
      // free one of this type
      std::vector<uintptr_t> mine;
      for (auto& [x, b] : bl.live) if (b.type == type) mine.push_back(x);
      if (mine.empty()) return;
      auto it = bl.live.find(mine[r.below(mine.size())]);
      note("type %d deallocate(%zu)", type, it->second.n);
      bl.verify(it->second, "before it is freed");
      T* p = reinterpret_cast<T*>(it->first);
      const size_t n = it->second.n;
      bl.live.erase(it);
      a.deallocate(p, n);
      count("frees");
    }
    if (r.chance(1, 12)) bl.verify_all("later");
    state(bl.live.size() * 64 + op + 5000 * static_cast<size_t>(type));
  }
};

template <class... As>
void run(Case& c, As... as) {
  Rng& r = c.rng;
  Blocks bl;
  int t = 0;
  auto types = std::make_tuple(One<As>{as, t++}...);
  for (unsigned k = 0; k < 250 * c.depth; ++k) {
    ::vh::step();
    size_t w = r.below(sizeof...(As));
    std::apply([&](auto&... o) { size_t i = 0; ((i++ == w ? o.step(c, bl) : void()), ...); }, types);
  }
  bl.verify_all("at the end");
}
size_t pick(Rng& r) { static const size_t S[] = {64, 4096, 10000, 1 << 16, 1 << 20}; return S[r.below(5)]; }
void world(Case& c) {
  mem().reset(c.seed);
  mem().huge_available = c.rng.chance(1, 2);
}
SCENARIO("alloc_huge", 300, 9000, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  fc::HugePageAllocator<Plain<24>> a(pick(r), r.chance(1, 2), pick(r));
  using AT = std::allocator_traits<decltype(a)>;
  run(c, a, AT::rebind_alloc<Plain<8>>(a), AT::rebind_alloc<Plain<1000>>(a), AT::rebind_alloc<Over>(a), AT::rebind_alloc<PageAligned>(a), AT::rebind_alloc<TwoPages>(a), AT::rebind_alloc<FarAligned>(a));
});
SCENARIO("alloc_policy", 300, 9000, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  auto a = fc::make_two_pool_allocator<int64_t, int64_t>(pick(r), pick(r), r.chance(1, 2), pick(r), pick(r));
  using AT = std::allocator_traits<decltype(a)>;
  run(c, a, AT::rebind_alloc<Leaf>(a), AT::rebind_alloc<Inner>(a), AT::rebind_alloc<Plain<8>>(a), AT::rebind_alloc<Over>(a), AT::rebind_alloc<PageAligned>(a), AT::rebind_alloc<TwoPages>(a), AT::rebind_alloc<FarAligned>(a));
});
SCENARIO("alloc_multi", 300, 9000, [](Case& c) {
  Rng& r = c.rng;
  world(c);
  fc::MultiSizeHugePageAllocator<Plain<24>> a(std::make_shared<fc::MultiSizeHugePagePool>(pick(r), r.chance(1, 2), pick(r)));
  using AT = std::allocator_traits<decltype(a)>;
  run(c, a, AT::rebind_alloc<Plain<1>>(a), AT::rebind_alloc<Plain<513>>(a), AT::rebind_alloc<Plain<5000>>(a), AT::rebind_alloc<Over>(a), AT::rebind_alloc<PageAligned>(a), AT::rebind_alloc<TwoPages>(a), AT::rebind_alloc<FarAligned>(a));
});
}  // namespace
