// Instrumented value: knows whether it is alive, owns one resource token while
// it holds a value, and can be made to throw at the n-th construction or copy.
#pragma once
#include <unordered_set>

#include "types.hpp"
#include "vh.hpp"

namespace vh {
struct TrackStats {
  std::unordered_set<const void*> objects;  // live objects
  std::unordered_map<uint64_t, uint64_t> tokens;  // value id -> number of live tokens
  uint64_t live_tokens = 0;
  uint64_t ctor = 0, copies = 0, moves = 0, dtor = 0, thrown = 0, points = 0;
  long long throw_in = -1;
};
inline TrackStats& ts() {
  static auto* t = new TrackStats;
  return *t;
}
struct ValueError {
  uint64_t n;
};

class TVal {
  uint64_t magic_;
  const TVal* self_;
  uint64_t* tok_;  // heap token (leaks are also LeakSanitizer's business)
  static constexpr uint64_t M = 0x5afe5afe5afe5afeULL;

  static void point() {
    ++ts().points;
    if (ts().throw_in >= 0 && ts().throw_in-- == 0) {
      ++ts().thrown;
      throw ValueError{ts().points};
    }
  }
  void born() {
    magic_ = M;
    self_ = this;
    VH_CHECK(ts().objects.insert(this).second, "a value is constructed over a live value (%p)", (void*)this);
  }
  void take(uint64_t id) {
    tok_ = new uint64_t(id);
    ++ts().tokens[id];
    ++ts().live_tokens;
  }
  void drop() {
    if (tok_) {
      auto it = ts().tokens.find(*tok_);
      if (--it->second == 0) ts().tokens.erase(it);
      --ts().live_tokens;
      delete tok_;
      tok_ = nullptr;
    }
  }

 public:
  void alive(const char* what) const {
    VH_CHECK(ts().objects.count(this) && magic_ == M && self_ == this,
             "%s: the value at %p is not a live object (destroyed, or copied bytewise)", what, (const void*)this);
  }
  TVal() : tok_(nullptr) {
    point();
    born();
    ++ts().ctor;
  }
  TVal(uint64_t id) : tok_(nullptr) {
    point();
    take(id);
    born();
    ++ts().ctor;
  }
  TVal(const TVal& o) : tok_(nullptr) {
    o.alive("copied from");
    point();
    if (o.tok_) take(*o.tok_);
    born();
    ++ts().copies;
  }
  TVal(TVal&& o) noexcept : tok_(o.tok_) {
    o.alive("moved from");
    o.tok_ = nullptr;
    born();
    ++ts().moves;
  }
  TVal& operator=(const TVal& o) {
    alive("assigned to");
    o.alive("assigned from");
    point();
    if (this == &o) return *this;
    drop();
    if (o.tok_) take(*o.tok_);
    ++ts().copies;
    return *this;
  }
#ifdef TVAL_ASSIGN_MAY_THROW
  TVal& operator=(TVal&& o) noexcept(false) {  // as far as type traits can tell
#else
  TVal& operator=(TVal&& o) noexcept {
#endif
    alive("move-assigned to");
    o.alive("move-assigned from");
    if (this == &o) return *this;
#ifdef TVAL_SWAP_ASSIGN
    std::swap(tok_, o.tok_);  // a legal move assignment: the source keeps the old value alive
#else
    drop();
    tok_ = o.tok_;
    o.tok_ = nullptr;
#endif
    ++ts().moves;
    return *this;
  }
  ~TVal() {
    alive("destroyed");
    ts().objects.erase(this);
    drop();
    magic_ = 0xdeaddeaddeaddeadULL;
    ++ts().dtor;
  }
  uint64_t id() const {
    alive("read");
    return tok_ ? *tok_ : 0;
  }
  bool operator==(const TVal& o) const { return id() == o.id(); }
};
template <>
struct Vals<TVal> {
  static TVal make(uint64_t id) { return TVal(id); }
  static std::string str(const TVal& v) { return "#" + std::to_string(v.id()); }
};
}  // namespace vh
