// Ghost environment shared by all harnesses: tracked element types, a mock
// allocator with symbolic identity, fault points, and the snapshots the
// postconditions are written over.  C++14.
#ifndef VP_ENV_H
#define VP_ENV_H
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

#include "vp.h"

#define CHK(props, cond, txt) __vp_assert((cond), props ":" txt)

// Deliberately out of line: throws what a failing operator new throws.
extern "C" __attribute__((used, noinline, weak)) void __vp_throw_bad_alloc() {
  throw std::bad_alloc();
}

namespace vp {

// An owned type may overload unary &: what it returns is not its address.
alignas(64) static char decoy[512];
#define VP_AMP(X)                        \
  X* operator&() { return (X*)vp::decoy; } \
  const X* operator&() const { return (const X*)vp::decoy; }

// What fails: allocations with a bad_alloc, some owned types with a
// std::exception, the others with a type of their own.
struct Fault {
  uint32_t seq;
};
struct AllocFault : Fault, std::bad_alloc {
  explicit AllocFault(uint32_t s) : Fault{s} {}
};
struct StdFault : Fault, std::exception {
  explicit StdFault(uint32_t s) : Fault{s} {}
};
enum FaultKind { F_OWN, F_STD, F_ALLOC };

enum Ev {
  E_DCTOR,    // default constructor
  E_VCTOR,    // from a value
  E_CCTOR,    // copy constructor (const source)
  E_NCCTOR,   // "copy" from a non-const lvalue
  E_MCTOR,    // move constructor
  E_CASSIGN,  // copy assignment
  E_NCASSIGN, // "copy" assignment from a non-const lvalue
  E_MASSIGN,  // move assignment
  E_VASSIGN_L,   // assignment from a value: lvalue, const lvalue, rvalue
  E_VASSIGN_CL,
  E_VASSIGN_R,
  E_DTOR,
  E_XARG_L, E_XARG_CL, E_XARG_R,  // constructor argument's value category
  E_ALLOC,
  E_DEALLOC,
  E_HCONSTRUCT,  // allocator construct hook
  E_HDESTROY,    // allocator destroy hook
  E_N
};

enum { MAXE = 48, MAXB = 40, MAXLOG = 220, NTYPE = 10 };

struct ElemRec {
  const void* p;
  uint32_t type;
  uint32_t serial;
  bool alive;
};
struct BlockRec {
  char* p;
  size_t n, bytes;
  const void* tid;
  uint32_t tag;
  bool live;
};
struct LogRec {
  uint8_t ev;
  uint8_t type;
  uint32_t val;
};

struct Ghost {
  ElemRec elem[MAXE];
  uint32_t nelem;
  BlockRec block[MAXB];
  uint32_t nblock;
  uint32_t cnt[NTYPE][E_N];
  LogRec log[MAXLOG];
  uint32_t nlog;
  bool logging;
  bool armed;
  uint32_t budget;      // faults still allowed
  uint32_t faults;      // faults thrown so far (also the last sequence number)
  uint32_t liveBlocks;
  uint32_t liveElems;
  uint32_t eqCompares;
  // scripted faults (differential harness): decided by bits of a mask
  bool scripted;
  uint64_t script;
  uint32_t scriptPos;
};
static Ghost G;

static inline void note(Ev e, uint32_t type, uint32_t v = 0) {
  G.cnt[type][e]++;
  if (G.logging) {
    if (G.nlog >= MAXLOG) __vp_fail("*:ghost log overflow");
    LogRec& l = G.log[G.nlog++];
    l.ev = (uint8_t)e;
    l.type = (uint8_t)type;
    l.val = v;
  }
}
static inline void clear_counts() {
  memset(G.cnt, 0, sizeof G.cnt);
}
// A place where an operation of the owned type or the allocator may throw.
static inline void fault_point(FaultKind kind = F_OWN) {
  if (!G.armed || G.budget == 0) return;
  bool f;
  if (G.scripted) {
    if (G.scriptPos >= 64) __vp_fail("*:fault script overflow");
    f = (G.script >> G.scriptPos) & 1;
    G.scriptPos++;
  } else
    f = __vp_nondet_bool("fault");
  if (f) {
    G.budget--;
    ++G.faults;
    if (kind == F_ALLOC) throw AllocFault(G.faults);
    if (kind == F_STD) throw StdFault(G.faults);
    throw Fault{G.faults};
  }
}
static inline void arm(uint32_t budget) {
  G.armed = true;
  G.budget = budget;
  G.faults = 0;
  clear_counts();
}
static inline void disarm() { G.armed = false; }

static inline ElemRec* find_elem(const void* p, uint32_t type) {
  for (uint32_t i = G.nelem; i > 0; i--)
    if (G.elem[i - 1].p == p && G.elem[i - 1].type == type && G.elem[i - 1].alive)
      return &G.elem[i - 1];
  return nullptr;
}
static inline uint32_t born(const void* p, uint32_t type) {
  CHK("*", find_elem(p, type) == nullptr, "object constructed on top of a live object");
  if (G.nelem >= MAXE) __vp_fail("*:ghost element table overflow");
  ElemRec& r = G.elem[G.nelem];
  r.p = p;
  r.type = type;
  r.serial = ++G.nelem;
  r.alive = true;
  G.liveElems++;
  return r.serial;
}
static inline void alive(const void* p, uint32_t type) {
  CHK("*", find_elem(p, type) != nullptr, "operation on an object that is not alive");
}
static inline void died(const void* p, uint32_t type) {
  ElemRec* r = find_elem(p, type);
  CHK("*", r != nullptr, "destruction of an object that is not alive");
  r->alive = false;
  G.liveElems--;
}

// ---------------------------------------------------------------- elements
// Member that makes its enclosing class observable.  K: type id.  TM: moves
// may throw.
template <int K, bool TM = true>
struct Tracked {
  static constexpr FaultKind FK = K % 2 ? F_OWN : F_STD;
  uint32_t v;
  uint32_t serial;
  bool moved;

  Tracked() : v(0), moved(false) {
    fault_point(FK);
    note(E_DCTOR, K);
    serial = born(this, K);
  }
  explicit Tracked(uint32_t x) : v(x), moved(false) {
    fault_point(FK);
    note(E_VCTOR, K, x);
    serial = born(this, K);
  }
  Tracked(const Tracked& o) : v(o.v), moved(o.moved) {
    alive(&o, K);
    fault_point(FK);
    note(E_CCTOR, K, v);
    serial = born(this, K);
  }
  Tracked(Tracked&& o) noexcept(!TM) : v(o.v), moved(o.moved) {
    alive(&o, K);
    if (TM) fault_point(FK);
    note(E_MCTOR, K, v);
    o.moved = true;
    serial = born(this, K);
  }
  Tracked& operator=(const Tracked& o) {
    alive(this, K);
    alive(&o, K);
    fault_point(FK);
    note(E_CASSIGN, K, o.v);
    v = o.v;
    moved = o.moved;
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept(!TM) {
    alive(this, K);
    alive(&o, K);
    if (TM) fault_point(FK);
    note(E_MASSIGN, K, o.v);
    v = o.v;
    moved = o.moved;
    o.moved = true;
    return *this;
  }
  ~Tracked() {
    died(this, K);
    note(E_DTOR, K, v);
  }
};

// Arguments whose value category is observed.
struct Arg {
  uint32_t v;
};

template <int K, bool TM, size_t PAD, size_t AL>
struct alignas(AL) Val {
  static constexpr int kind = K;
  Tracked<K, TM> t;
  char pad[PAD];
  Val() : t() {}
  explicit Val(uint32_t x) : t(x) {}
  Val(uint32_t x, uint32_t y) : t(x + y) {}
  Val(std::initializer_list<uint32_t> il, uint32_t y) : t((uint32_t)(y + *il.begin() + (uint32_t)il.size())) {}
  Val(const Arg& a) : t(a.v) { note(E_XARG_CL, K); }
  Val(Arg& a) : t(a.v) { note(E_XARG_L, K); }
  Val(Arg&& a) : t(a.v) { a.v = ~a.v; note(E_XARG_R, K); }
  Val(const Val&) = default;
  Val(Val&&) = default;
  Val& operator=(const Val&) = default;
  Val& operator=(Val&&) = default;
  // assignment from a plain value; fails atomically
  Val& operator=(const Arg& a) {
    alive(&t, K);
    fault_point(Tracked<K, TM>::FK);
    note(E_VASSIGN_CL, K, a.v);
    t.v = a.v;
    t.moved = false;
    return *this;
  }
  Val& operator=(Arg& a) {
    alive(&t, K);
    fault_point(Tracked<K, TM>::FK);
    note(E_VASSIGN_L, K, a.v);
    t.v = a.v;
    t.moved = false;
    return *this;
  }
  Val& operator=(Arg&& a) {
    alive(&t, K);
    fault_point(Tracked<K, TM>::FK);
    note(E_VASSIGN_R, K, a.v);
    t.v = a.v;
    t.moved = false;
    a.v = ~a.v;
    return *this;
  }
  friend bool operator==(const Val& a, const Val& b) { return a.t.v == b.t.v; }
  friend bool operator!=(const Val& a, const Val& b) { return a.t.v != b.t.v; }
  friend bool operator<(const Val& a, const Val& b) { return a.t.v < b.t.v; }
  friend bool operator>(const Val& a, const Val& b) { return a.t.v > b.t.v; }
  friend bool operator<=(const Val& a, const Val& b) { return a.t.v <= b.t.v; }
  friend bool operator>=(const Val& a, const Val& b) { return a.t.v >= b.t.v; }
};
using VS = Val<1, true, 1, 4>;      // every operation may throw
using VN = Val<2, false, 1, 4>;     // nothrow move
using VB = Val<3, true, 200, 64>;   // large and over-aligned

// ---------------------------------------------------------------- allocator
// CA/CM/CS: propagation traits; AE: is_always_equal; HOOK: has construct and
// destroy; SOC: select_on_container_copy_construction returns another one.
template <bool CA_, bool CM_, bool CS_, bool AE_, bool HOOK_ = false, bool SOC_ = false>
struct Cfg {
  static constexpr bool CA = CA_, CM = CM_, CS = CS_, AE = AE_, HOOK = HOOK_, SOC = SOC_;
};
template <class T>
struct Tid {
  static char c;
};
template <class T>
char Tid<T>::c;
template <class T>
struct KindOf {
  static constexpr int value = 0;
};
template <int K, bool TM, size_t P, size_t A>
struct KindOf<Val<K, TM, P, A>> {
  static constexpr int value = K;
};

template <class T, class C>
struct AllocBase {
  uint32_t tag;  // takes part in equality
  uint32_t id;   // identity carried along by copies, not part of equality
};

static inline char* block_alloc(size_t n, size_t sz, size_t al, const void* tid, uint32_t tag) {
  fault_point(F_ALLOC);
  if (G.nblock >= MAXB) __vp_fail("*:ghost block table overflow");
  BlockRec& b = G.block[G.nblock++];
  b.p = (char*)__vp_heap_alloc(n * sz, al);
  b.n = n;
  b.bytes = n * sz;
  b.tid = tid;
  b.tag = tag;
  b.live = true;
  G.liveBlocks++;
  note(E_ALLOC, 0);
  return b.p;
}
static inline void block_free(char* p, size_t n, const void* tid, uint32_t tag, bool ae) {
  BlockRec* f = nullptr;
  for (uint32_t i = G.nblock; i > 0 && !f; i--)
    if (G.block[i - 1].p == p) f = &G.block[i - 1];
  CHK("C04,C05", f != nullptr, "deallocate: pointer was obtained from the allocator");
  CHK("C04,C05", f->live, "deallocate: block not yet deallocated");
  CHK("C05", f->n == n, "deallocate: element count equals that of the allocation");
  CHK("C05", f->tid == tid, "deallocate: element type equals that of the allocation");
  CHK("C05", ae | (f->tag == tag), "deallocate: allocator equals the one that allocated the block");
  for (uint32_t i = 0; i < G.nelem; i++) {
    const ElemRec& e = G.elem[i];
    if (e.alive && (const char*)e.p >= p && (const char*)e.p < p + f->bytes)
      __vp_fail("C04,C05:deallocate: block still holds a live object");
  }
  f->live = false;
  G.liveBlocks--;
  note(E_DEALLOC, 0);
  __vp_heap_free(p);
}

template <class T, class C, bool HOOK>
struct Alloc;

template <class D, class T, class C>
struct AllocCore {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::CM>;
  using propagate_on_container_swap = std::integral_constant<bool, C::CS>;
  using is_always_equal = std::integral_constant<bool, C::AE>;
  uint32_t tag;
  uint32_t id;
  AllocCore(uint32_t t, uint32_t i) noexcept : tag(t), id(i) {}
  T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, tag); }
  void deallocate(T* p, size_t n) { block_free((char*)p, n, &Tid<T>::c, tag, C::AE); }
  D select_on_container_copy_construction() const { return C::SOC ? D(tag + 1000, id + 1000) : D(tag, id); }
  friend bool operator==(const D& a, const D& b) noexcept { return C::AE || a.tag == b.tag; }
  friend bool operator!=(const D& a, const D& b) noexcept { return !(a == b); }
};

enum { DEFAULT_TAG = 7, DEFAULT_ID = 77 };

template <class T, class C>
struct Alloc<T, C, false> : AllocCore<Alloc<T, C, false>, T, C> {
  template <class U>
  struct rebind {
    using other = Alloc<U, C, false>;
  };
  Alloc() noexcept : Alloc(DEFAULT_TAG, DEFAULT_ID) {}
  Alloc(uint32_t t, uint32_t i) noexcept : AllocCore<Alloc<T, C, false>, T, C>(t, i) {}
  template <class U>
  Alloc(const Alloc<U, C, false>& o) noexcept : Alloc(o.tag, o.id) {}
};
template <class T, class C>
struct Alloc<T, C, true> : AllocCore<Alloc<T, C, true>, T, C> {
  template <class U>
  struct rebind {
    using other = Alloc<U, C, true>;
  };
  Alloc() noexcept : Alloc(DEFAULT_TAG, DEFAULT_ID) {}
  Alloc(uint32_t t, uint32_t i) noexcept : AllocCore<Alloc<T, C, true>, T, C>(t, i) {}
  template <class U>
  Alloc(const Alloc<U, C, true>& o) noexcept : Alloc(o.tag, o.id) {}
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    ::new ((void*)p) U(std::forward<As>(as)...);
    note(E_HCONSTRUCT, KindOf<U>::value);
  }
  template <class U>
  void destroy(U* p) {
    note(E_HDESTROY, KindOf<U>::value);
    p->~U();
  }
};
template <class T, class C>
using A_ = Alloc<T, C, C::HOOK>;

// A stateless allocator (empty class): layout-sensitive code paths.
template <class T>
struct EmptyAlloc {
  using value_type = T;
  EmptyAlloc() noexcept {}
  EmptyAlloc(uint32_t, uint32_t) noexcept {}
  template <class U>
  EmptyAlloc(const EmptyAlloc<U>&) noexcept {}
  T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, 0); }
  void deallocate(T* p, size_t n) { block_free((char*)p, n, &Tid<T>::c, 0, true); }
  friend bool operator==(const EmptyAlloc&, const EmptyAlloc&) noexcept { return true; }
  friend bool operator!=(const EmptyAlloc&, const EmptyAlloc&) noexcept { return false; }
};

static inline bool in_one_block(const void* p, size_t size, uint32_t tag, bool ae) {
  uint32_t hits = 0;
  for (uint32_t i = 0; i < G.nblock; i++) {
    const BlockRec& b = G.block[i];
    if (b.live && (const char*)p >= b.p && (const char*)p + size <= b.p + b.bytes && (ae || b.tag == tag)) hits++;
  }
  return hits == 1;
}

static inline void start() {
  G.nelem = G.nblock = G.nlog = 0;
  G.logging = G.armed = G.scripted = false;
  G.budget = G.faults = G.liveBlocks = G.liveElems = 0;
  G.scriptPos = 0;
  clear_counts();
}
static inline void finish() {
  disarm();
  CHK("C04,C06,C07,C21,C22", G.liveElems == 0, "every owned object has been destroyed");
  CHK("C04,C05,C06,C07,C21,C22", G.liveBlocks == 0, "every block has been deallocated");
  __vp_leak_check("C04,C06,C07,C21,C22:no memory leaked");
  __vp_cover("end of harness reached");
}

}  // namespace vp
#endif
