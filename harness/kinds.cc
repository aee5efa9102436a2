// Which special member, constructor or assignment of the owned type runs, for
// types that differ in what is noexcept, trivial or an aggregate, with
// std::allocator as well (C05, C15, C18).  Braces, operator new of the class
// and conversions give another result than what is specified here.
#include "ind.h"
#include "pol.h"
#include <string.h>
using namespace vp;

struct Event { uint8_t kind; const void* self; };
static Event L[12];
static uint8_t nL;
static bool logging;
static void ev(uint8_t k, const void* self) {
  if (!logging) return;
  if (nL < 12) L[nL] = Event{k, self};
  nL++;
}
enum { X_DEF = 1, X_U, X_UU, X_IL, X_ILU, X_QC, X_QM, X_COPY, X_MOVE, X_CAS, X_MAS, X_AQC, X_AQM, X_AU, X_DTOR, X_NCCOPY, X_N };
struct Q { uint32_t v; };
#define NEWOPS                                                                                                                              \
  static void* operator new(size_t) { __vp_fail("C05,C18:operator new of the owned type was used"); }                                       \
  static void* operator new(size_t, void*) noexcept { __vp_fail("C05,C18:placement operator new of the owned type was used"); }             \
  static void operator delete(void*) { __vp_fail("C05,C18:operator delete of the owned type was used"); }
static uint32_t first(std::initializer_list<uint32_t> l) { return l.size() == 2 ? l.begin()[0] ^ (l.begin()[1] + 17) : 99; }
// N: which members are noexcept; the others may fail
template <unsigned N> static inline void mf() { if (!N) fault_point(); }
template <unsigned N>
struct K {
  static constexpr bool trivial = false;
  uint32_t v;
  K() : v(41) { ev(X_DEF, this); }
  K(uint32_t x) noexcept((N & 16) != 0) : v(x) { mf<(N & 16)>(); ev(X_U, this); }
  K(uint32_t x, uint32_t y) noexcept((N & 16) != 0) : v(x * 3 + y) { mf<(N & 16)>(); ev(X_UU, this); }
  K(std::initializer_list<uint32_t> l) noexcept((N & 16) != 0) : v(first(l)) { mf<(N & 16)>(); ev(X_IL, this); }
  K(std::initializer_list<uint32_t> l, uint32_t x) noexcept((N & 16) != 0) : v(first(l) + x) { mf<(N & 16)>(); ev(X_ILU, this); }
  K(const Q& q) noexcept((N & 16) != 0) : v(q.v) { mf<(N & 16)>(); ev(X_QC, this); }
  K(Q&& q) noexcept((N & 16) != 0) : v(q.v) { mf<(N & 16)>(); ev(X_QM, this); }
  K(const K& o) noexcept((N & 1) != 0) : v(o.v) { mf<(N & 1)>(); ev(X_COPY, this); }
  K(K& o) noexcept((N & 1) != 0) : v(o.v) { ev(X_NCCOPY, this); }
  K(K&& o) noexcept((N & 2) != 0) : v(o.v) { mf<(N & 2)>(); ev(X_MOVE, this); }
  K& operator=(const K& o) noexcept((N & 4) != 0) { mf<(N & 4)>(); v = o.v; ev(X_CAS, this); return *this; }
  K& operator=(K&& o) noexcept((N & 8) != 0) { mf<(N & 8)>(); v = o.v; ev(X_MAS, this); return *this; }
  K& operator=(const Q& q) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = q.v; ev(X_AQC, this); return *this; }
  K& operator=(Q&& q) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = q.v; ev(X_AQM, this); return *this; }
  K& operator=(uint32_t x) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = x; ev(X_AU, this); return *this; }
  ~K() { ev(X_DTOR, this); }
  NEWOPS
};
// trivially copyable and destructible
template <unsigned N>
struct KT {
  static constexpr bool trivial = true;
  uint32_t v;
  KT() : v(41) { ev(X_DEF, this); }
  KT(uint32_t x) noexcept((N & 16) != 0) : v(x) { mf<(N & 16)>(); ev(X_U, this); }
  KT(uint32_t x, uint32_t y) noexcept((N & 16) != 0) : v(x * 3 + y) { mf<(N & 16)>(); ev(X_UU, this); }
  KT(std::initializer_list<uint32_t> l) noexcept((N & 16) != 0) : v(first(l)) { mf<(N & 16)>(); ev(X_IL, this); }
  KT(std::initializer_list<uint32_t> l, uint32_t x) noexcept((N & 16) != 0) : v(first(l) + x) { mf<(N & 16)>(); ev(X_ILU, this); }
  KT(const Q& q) noexcept((N & 16) != 0) : v(q.v) { mf<(N & 16)>(); ev(X_QC, this); }
  KT(Q&& q) noexcept((N & 16) != 0) : v(q.v) { mf<(N & 16)>(); ev(X_QM, this); }
  KT& operator=(const Q& q) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = q.v; ev(X_AQC, this); return *this; }
  KT& operator=(Q&& q) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = q.v; ev(X_AQM, this); return *this; }
  KT& operator=(uint32_t x) noexcept((N & 32) != 0) { mf<(N & 32)>(); v = x; ev(X_AU, this); return *this; }
  NEWOPS
};
struct Base { uint64_t head = 7; };
struct VBase { uint64_t head = 7; virtual uint32_t me() const { return 0; } };  // destructor is not virtual
template <class B, class T>
struct De : B, T {
  using T::trivial;
  using T::T;
  De() = default;
  De(const De&) = default;
  De(De&&) = default;
  NEWOPS
};

template <class T> using AC = A_<T, Cfg<0, 1, 0, 0, 1>>;
template <class T> using AP = A_<T, Cfg<0, 0, 0, 1>>;
template <class A> struct AlOf { static A get() { return A(5, 6); } };
template <class T> struct AlOf<std::allocator<T>> { static std::allocator<T> get() { return {}; } };
static uint32_t lx, ly;
template <class T, class A>
struct OI {
  using O = xyz::indirect<T, A>;
  static const T& at(const O& o) { return *o; }
  static constexpr bool ind = true;
};
template <class B, class T, class A>
struct OP {
  using O = xyz::polymorphic<B, A>;
  static const T& at(const O& o) { return static_cast<const T&>(*o); }
  static constexpr bool ind = false;
};
#define IP typename std::conditional<W::ind, KindsIP, decltype(VP_IPT(T))>::type
using KindsIP = std::decay_t<decltype(VP_IN_PLACE)>;
// one construction, then exactly these events
template <class W, class T, class A>
struct Kinds {
  using O = typename W::O;
  template <class F> static const void* self(const T& t, F) { return static_cast<const F*>(std::addressof(t)); }
  static bool is(const O& o, uint32_t v) { return !o.valueless_after_move() && W::at(o).v == v; }
  static void one(const O& o, uint8_t k, uint32_t v, bool silent = false) {
    logging = false;
    CHK("C18,C01,C11", is(o, v), "the owned object is built from the arguments");
    if (!silent || !T::trivial) CHK("C18,C15", nL == 1 && L[0].kind == k && L[0].self == std::addressof(W::at(o).v), "by exactly the constructor these arguments select, and nothing else");
    __vp_cover("constructed");
  }
#define FORM(k, v, silent, ...) \
  { logging = true; if (al) { O o(std::allocator_arg, AlOf<A>::get(), IP{}, __VA_ARGS__); one(o, k, v, silent); } else { O o(IP{}, __VA_ARGS__); one(o, k, v, silent); } break; }
#define DIRECT(k, v, silent, ...) \
  { logging = true; if (al) { O o(std::allocator_arg, AlOf<A>::get(), __VA_ARGS__); one(o, k, v, silent); } else { O o(__VA_ARGS__); one(o, k, v, silent); } break; }
  static void none(bool al) {
    logging = true;
    if (al) { O o(std::allocator_arg, AlOf<A>::get(), IP{}); one(o, X_DEF, 41); } else { O o(IP{}); one(o, X_DEF, 41); }
  }
  static void plain(bool al, std::true_type) {
    logging = true;
    if (al) { O o(std::allocator_arg, AlOf<A>::get()); one(o, X_DEF, 41); } else { O o; one(o, X_DEF, 41); }
  }
  static void plain(bool al, std::false_type) { none(al); }
  static void build() {
    start();
    logging = false;
    {
      uint32_t x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y"), z = __vp_nondet_u32("z");
      bool al = __vp_pick_bool("allocator given");
      uint8_t f = __vp_pick("form", 12);
      Q q{x};
      T t(x);
      nL = 0;
      uint32_t blocks = G.liveBlocks;
      arm(1);
      try {
        switch (f) {
          case 0: plain(al, std::integral_constant<bool, W::ind>()); break;
          case 1: none(al); break;
          case 2: FORM(X_U, x, false, x)
          case 3: FORM(X_UU, x * 3 + y, false, x, y)
          case 4: FORM(X_IL, x ^ (y + 17), false, {x, y})
          case 5: FORM(X_ILU, (x ^ (y + 17)) + z, false, {x, y}, z)
          case 6: FORM(X_QC, x, false, static_cast<const Q&>(q))
          case 7: FORM(X_QM, x, false, std::move(q))
          case 8: FORM(X_COPY, x, true, static_cast<const T&>(t))
          case 9: FORM(X_MOVE, x, true, std::move(t))
          case 10: DIRECT(X_COPY, x, true, static_cast<const T&>(t))
          default: DIRECT(X_MOVE, x, true, std::move(t))
        }
      } catch (Fault&) {
        logging = false;
        CHK("C07,C18", nL == 0, "a failed construction does nothing else");
      }
      disarm();
      CHK("C07,C04", G.liveBlocks == blocks, "everything is released");
    }
    finish();
  }
};
#if VP_STD == 20
template <class W, class T, class A>
static void converting() {
  start();
  logging = false;
  {
    using O = typename W::O;
    using S = Kinds<W, T, A>;
    uint32_t x = __vp_nondet_u32("x");
    bool al = __vp_pick_bool("allocator given");
    Q q{x};
    nL = 0;
    arm(1);
    auto one = [](const O& o, uint8_t k, uint32_t v, bool s) { S::one(o, k, v, s); };
    try {
      switch (__vp_pick("argument", 3)) {
        case 0: DIRECT(X_QC, x, false, static_cast<const Q&>(q))
        case 1: DIRECT(X_QM, x, false, std::move(q))
        default: DIRECT(X_U, x, false, x)
      }
    } catch (Fault&) {
      CHK("C07,C18", nL == 0, "a failed construction does nothing else");
    }
    logging = false;
    disarm();
  }
  finish();
}
#endif
// value and copy assignment
template <class T, class A>
static void assigning() {
  start();
  logging = false;
  {
    using O = xyz::indirect<T, A>;
    uint32_t x = __vp_nondet_u32("x"), v = __vp_nondet_u32("v");
    bool vl = __vp_pick_bool("valueless");
    uint8_t f = __vp_pick("form", 8);
    __vp_assume(f < 6 || !vl);
    O o(std::allocator_arg, AlOf<A>::get(), VP_IN_PLACE, v), p(std::allocator_arg, AlOf<A>::get(), VP_IN_PLACE, x);
    if (vl) { O sink(std::move(o)); }
    const void* at = vl ? nullptr : std::addressof(*o);
    const void* pat = std::addressof(*p);
    Q q{x};
    T t(x);
    nL = 0;
    uint32_t blocks = G.liveBlocks;
    arm(1);
    bool failed = false;
    const uint8_t as[8] = {X_CAS, X_MAS, X_AQC, X_AQM, X_AU, X_CAS, X_CAS, X_MAS}, cs[8] = {X_COPY, X_MOVE, X_QC, X_QM, X_U, X_COPY, 0, 0};
    try {
      logging = true;
      switch (f) {
        case 0: o = static_cast<const T&>(t); break;
        case 1: o = std::move(t); break;
        case 2: o = static_cast<const Q&>(q); break;
        case 3: o = std::move(q); break;
        case 4: o = x; break;
        case 5: o = static_cast<const O&>(p); break;
        case 6: o = static_cast<const T&>(*o); break;  // the value it owns
        default: o = static_cast<T&&>(*o);
      }
    } catch (Fault&) {
      failed = true;
    }
    logging = false;
    disarm();
    CHK("C15,C01", std::addressof(*p) == pat && p->v == x, "nothing else changes");
    if (failed) {
      CHK("C15,C11,C06", o.valueless_after_move() == vl && nL == 0, "a failed assignment does nothing else");
      if (!vl) CHK("C15,C06", std::addressof(*o) == at && o->v == v, "a failed assignment keeps the owned object");
      CHK("C04", G.liveBlocks == blocks, "nothing leaks");
    } else {
      CHK("C15,C11,C01", !o.valueless_after_move() && o->v == (f < 6 ? x : v), "the value is assigned");
      if (!vl) CHK("C15", std::addressof(*o) == at, "the owned object stays where it is");
      if (T::trivial && (f < 2 || f >= 5)) CHK("C15", nL == 0, "nothing is constructed otherwise");
      else CHK("C15", nL == 1 && L[0].kind == (vl ? cs : as)[f] && L[0].self == std::addressof(o->v), "by exactly the assignment (or, valueless, constructor) this value selects, and nothing else");
      if (!vl) CHK("C15", G.cnt[0][E_ALLOC] == 0, "assignment in place allocates nothing");
    }
    __vp_cover(failed ? "failed" : vl ? "was valueless" : "assigned");
  }
  finish();
}
// Allocators that compare equal but have an identity: whatever is allocated,
// constructed, destroyed or deallocated for an object is, through its own
// allocator, never through another one that happens to be equal (or through a
// default constructed one).
static uint32_t allowed;  // mask of identities
template <class T, bool AE, bool PR>
struct HA {
  using value_type = T;
  using is_always_equal = std::integral_constant<bool, AE>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, PR>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, PR>;
  using propagate_on_container_swap = std::integral_constant<bool, PR>;
  template <class U> struct rebind { using other = HA<U, AE, PR>; };
  uint32_t id;
  HA() : id(31) {}
  explicit HA(uint32_t i) : id(i) {}
  template <class U> HA(const HA<U, AE, PR>& o) : id(o.id) {}
  HA select_on_container_copy_construction() const { return HA(id + 10); }
  void own() const { CHK("C05,C08", (allowed >> id) & 1, "everything goes through the object's own allocator"); }
  T* allocate(size_t n) { own(); return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { own(); std::allocator<T>().deallocate(p, n); }
  template <class U, class... X> void construct(U* p, X&&... x) { own(); ::new ((void*)p) U(std::forward<X>(x)...); }
  template <class U> void destroy(U* p) { own(); p->~U(); }
  friend bool operator==(const HA&, const HA&) { return true; }
  friend bool operator!=(const HA&, const HA&) { return false; }
};
template <class O, class A, class V, class IPT>
static void identity(IPT ip) {
  start();
  logging = false;
  {
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w");
    allowed = 1u << 1;
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    O a(std::allocator_arg, A(1), ip, v);
    allowed = 1u << 2;
    O b(std::allocator_arg, A(2), ip, w);
    if (vb) { O x(std::move(b)); }
    allowed = 1u << 1;
    if (va) { O x(std::move(a)); }
    uint32_t ia = 1, ib = 2;
    const bool PR = A::propagate_on_container_swap::value;
    switch (__vp_pick("operation", 8)) {
      case 0: { allowed = 1u << 11; O c(static_cast<const O&>(a)); CHK("C08", c.get_allocator().id == 11, "the selected allocator is used"); break; }
      case 1: { allowed = 1u << 3; O c(std::allocator_arg, A(3), static_cast<const O&>(a)); CHK("C08", c.get_allocator().id == 3, "the given allocator is used"); break; }
      case 2: { O c(std::move(a)); CHK("C08", c.get_allocator().id == 1, "the source's allocator is used"); break; }
      case 3: { allowed = 1u << 3; O c(std::allocator_arg, A(3), std::move(a)); CHK("C08", c.get_allocator().id == 3, "the given allocator is used"); break; }
      case 4: allowed = PR ? 6 : 2; a = static_cast<const O&>(b); if (PR) ia = 2; break;
      case 5: allowed = PR ? 6 : 2; a = std::move(b); if (PR) ia = 2; break;
      case 6: allowed = 0; a.swap(b); if (PR) { ia = 2; ib = 1; } break;
      default: { allowed = 1u << 31; O c(ip, v); CHK("C08", c.get_allocator().id == 31, "a default constructed allocator is used"); break; }
    }
    CHK("C08", (a.get_allocator().id == ia) & (b.get_allocator().id == ib), "allocators propagate as their traits say");
    // each goes through its own from here on
    allowed = 1u << ib;
    { O x(std::move(b)); }
    allowed = 1u << ia;
    { O x(std::move(a)); }
    __vp_cover("done");
  }
  __vp_leak_check("C04,C05:everything is released");
}
// Copies, moves and swaps of the owners: which special members of the owned
// type run, how often, and on which object.
static uint32_t count(uint8_t k) {
  uint32_t n = 0;
  for (uint8_t i = 0; i < nL && i < 12; i++) n += L[i].kind == k;
  return n;
}
static const void* target(uint8_t k) {
  for (uint8_t i = 0; i < nL && i < 12; i++) if (L[i].kind == k) return L[i].self;
  return nullptr;
}
template <class A> struct AlEq { static A get(uint32_t t, uint32_t id) { return A(t, id); } static constexpr bool ae = std::allocator_traits<A>::is_always_equal::value; };
template <class T> struct AlEq<std::allocator<T>> { static std::allocator<T> get(uint32_t, uint32_t) { return {}; } static constexpr bool ae = true; };
template <class W, class T, class A>
static void copying() {
  start();
  logging = false;
  {
    using O = typename W::O;
    using ipt = typename std::conditional<W::ind, KindsIP, decltype(VP_IPT(T))>::type;
    using E = AlEq<A>;
    constexpr bool CM = std::allocator_traits<A>::propagate_on_container_move_assignment::value, CS = std::allocator_traits<A>::propagate_on_container_swap::value;
    uint32_t v = __vp_nondet_u32("a"), w = __vp_nondet_u32("b"), s = __vp_nondet_u32("s"), t = __vp_nondet_u32("t");
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    uint8_t op = __vp_pick("operation", 7);
    O a(std::allocator_arg, E::get(s, 1), ipt{}, v), b(std::allocator_arg, E::get(t, 2), ipt{}, w);
    if (va) { O x(std::move(a)); }
    if (vb) { O x(std::move(b)); }
    bool eq = E::ae || s == t;
    if (op == 6 && !CS) __vp_assume(eq);
    const void *pa = va ? nullptr : std::addressof(W::at(a).v), *pb = vb ? nullptr : std::addressof(W::at(b).v);
    auto has = [](const O& o, bool vl, uint32_t x) { return vl ? o.valueless_after_move() : !o.valueless_after_move() && W::at(o).v == x; };
    auto where = [](const O& o) { return o.valueless_after_move() ? nullptr : (const void*)std::addressof(W::at(o).v); };
    // events of each kind: copies, moves, copy assignments, destructions
    auto events = [](uint32_t c, uint32_t m, uint32_t ca, uint32_t d, const void* made) {
      logging = false;
      if (T::trivial) { CHK("C01,C03,C09", nL == 0, "nothing is constructed otherwise"); return; }
      CHK("C01,C03,C09,C15", count(X_COPY) == c && count(X_MOVE) == m && count(X_CAS) == ca && count(X_DTOR) == d && nL == c + m + ca + d, "exactly these members of the owned type run");
      if (c) CHK("C01", target(X_COPY) == made, "the copy is made in place");
      if (m) CHK("C03", target(X_MOVE) == made, "the object is moved into place");
      if (ca) CHK("C15", target(X_CAS) == made, "the owned object is assigned");
    };
    nL = 0;
    arm(op == 5 && CM && !E::ae ? 0 : 1);
    uint32_t blocks = G.liveBlocks;
    bool failed = false;
    try {
      logging = true;
      switch (op) {
        case 0: { O c(static_cast<const O&>(a)); disarm(); events(!va, 0, 0, 0, where(c)); CHK("C01", has(c, va, v) && (va || where(c) != pa), "a copy"); break; }
        case 1: { O c(std::allocator_arg, E::get(t, 3), static_cast<const O&>(a)); disarm(); events(!va, 0, 0, 0, where(c)); CHK("C01", has(c, va, v) && (va || where(c) != pa), "a copy"); break; }
        case 2: { O c(std::move(a)); disarm(); events(0, 0, 0, 0, nullptr); CHK("C03", has(c, va, v) && where(c) == pa, "a transfer"); break; }
        case 3: { O c(std::allocator_arg, E::get(t, 3), std::move(a)); disarm(); events(0, !va && !eq, 0, 0, where(c)); CHK("C03", has(c, va, v) && (va || (where(c) == pa) == eq), "a transfer or a move"); break; }
        case 4: {
          a = static_cast<const O&>(b);
          disarm();
          bool in = W::ind && eq && !va && !vb;
          events(!vb && !in, 0, in, !va && !in, where(a));
          CHK("C01,C15", has(a, vb, w) && (!in || where(a) == pa) && (vb || where(a) != pb) && where(b) == pb, "copy assignment");
          break;
        }
        case 5: {
          // a propagating allocator could own the other's object directly
          a = std::move(b);
          disarm();
          bool took = eq || (CM && where(a) == pb);
          events(0, !vb && !took, 0, !va, where(a));
          CHK("C03", has(a, vb, w) && (vb || (where(a) == pb) == took), "move assignment");
          break;
        }
        default: a.swap(b); disarm(); events(0, 0, 0, 0, nullptr); CHK("C09", where(a) == pb && where(b) == pa, "swap");
      }
    } catch (Fault&) {
      failed = true;
    }
    logging = false;
    disarm();
    if (failed) {
      CHK("C06,C07", where(a) == pa && where(b) == pb && has(a, va, v) && has(b, vb, w) && G.liveBlocks == blocks, "a failed operation changes nothing");
      CHK("C06,C07", nL == 0, "a failed operation runs no other member of the owned type");
    }
    __vp_cover("done");
  }
  finish();
}
// everything noexcept; nothing; only copying; only moving; all but conversions;
// only conversions; only assignments; only constructors
#define KINDS(F) \
  switch (__vp_pick("type", 11)) { \
    case 0: F(K<63>) break; case 1: F(K<0>) break; case 2: F(K<5>) break; case 3: F(K<10>) break; case 4: F(K<15>) break; \
    case 5: F(K<48>) break; case 6: F(K<44>) break; case 7: F(K<19>) break; case 8: F(KT<48>) break; case 9: F(KT<0>) break; default: F(KT<16>) break; }
#define ALLOCS(M, T, U) \
  switch (__vp_pick("allocator", 3)) { case 0: M(U, std::allocator<T>) break; case 1: M(U, AC<T>) break; default: M(U, AP<T>) break; }
#define IDENT(M, T) \
  switch (__vp_pick("allocator", 4)) { case 0: M((HA<T, false, false>)) break; case 1: M((HA<T, false, true>)) break; case 2: M((HA<T, true, false>)) break; default: M((HA<T, true, true>)) break; }
template <class X> struct Unp;
template <class X> struct Unp<void(X)> { using type = X; };
struct Plain { uint32_t v; explicit Plain(uint32_t x) : v(x) {} };
struct PlainD : Base { Plain p; explicit PlainD(uint32_t x) : p(x) {} };
#ifndef VP_POL
#define IDI(A) { using AL = typename Unp<void A>::type; identity<xyz::indirect<TY, AL>, AL, TY>(VP_IN_PLACE); }
template <class TY> static void identInd() { IDENT(IDI, TY) }
VP_ENTRY(identity_ind) { if (__vp_pick_bool("plain")) identInd<Plain>(); else identInd<K<63>>(); }
#define BI(U, A) { Kinds<OI<U, A>, U, A>::build(); }
#define BIF(U) ALLOCS(BI, U, U)
VP_ENTRY(kinds_ind) { KINDS(BIF) }
#define AS(U, A) { assigning<U, A>(); }
#define ASF(U) ALLOCS(AS, U, U)
#define CO(U, A) { copying<OI<U, A>, U, A>(); }
#define COF(U) ALLOCS(CO, U, U)
VP_ENTRY(kinds_copy_ind) { KINDS(COF) }
VP_ENTRY(kinds_assign) { KINDS(ASF) }
// Types that can only be moved, or only be moved by construction.
template <unsigned N, bool AS>
struct MO {
  uint32_t v;
  explicit MO(uint32_t x) : v(x) { born(this, 7); }
  MO(const MO&) = delete;
  MO(MO&& o) noexcept((N & 1) != 0) : v(o.v) { if (!(N & 1)) fault_point(); ev(X_MOVE, this); born(this, 7); }
  MO& operator=(const MO&) = delete;
  MO& operator=(MO&& o) noexcept { v = o.v; ev(X_MAS, this); return *this; }
  ~MO() { died(this, 7); }
};
template <unsigned N>
struct MO<N, false> {
  uint32_t v;
  explicit MO(uint32_t x) : v(x) { born(this, 7); }
  MO(MO&& o) noexcept((N & 1) != 0) : v(o.v) { if (!(N & 1)) fault_point(); ev(X_MOVE, this); born(this, 7); }
  MO& operator=(MO&&) = delete;
  ~MO() { died(this, 7); }
};
template <class O, class T> static void assignValue(O&, T&&, std::false_type) {}
template <class O, class T> static void assignValue(O& a, T&& m, std::true_type) { a = std::move(m); }
template <class T, class C, bool AS>
static void moveOnly() {
  start();
  logging = false;
  {
    using A = A_<T, C>;
    using O = xyz::indirect<T, A>;
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w"), s = __vp_nondet_u32("s"), t = __vp_nondet_u32("t");
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    uint8_t op = __vp_pick("operation", AS ? 6 : 5);
    O a(std::allocator_arg, A(s, 1), VP_IN_PLACE, v), b(std::allocator_arg, A(t, 2), VP_IN_PLACE, w);
    if (va) { O x(std::move(a)); }
    if (vb) { O x(std::move(b)); }
    const void *pa = va ? nullptr : std::addressof(*a), *pb = vb ? nullptr : std::addressof(*b);
    auto has = [](const O& o, bool vl, uint32_t x) { return vl ? o.valueless_after_move() : !o.valueless_after_move() && o->v == x; };
    auto at = [](const O& o, const void* p) { return !p || std::addressof(*o) == p; };
    if (op == 3 && !C::CS) __vp_assume(s == t);
    bool eq = s == t;
    nL = 0;
    logging = true;
    uint32_t blocks = G.liveBlocks;
    arm(op == 2 && C::CM ? 0 : 1);
    bool failed = false;
    try {
      switch (op) {
        case 0: { O c(std::move(a)); disarm(); CHK("C03,C11", has(c, va, v) && at(c, pa) && a.valueless_after_move() && nL == 0, "a move transfers the object"); break; }
        case 1: { O c(std::allocator_arg, A(t, 3), std::move(a)); disarm(); CHK("C03,C11", has(c, va, v) && (va || (std::addressof(*c) == pa) == eq) && nL == (!va && !eq) && (!eq || a.valueless_after_move()), "an allocator-extended move transfers, or moves the object once"); break; }
        case 2: a = std::move(b); disarm(); CHK("C03,C11", has(a, vb, w) && (vb || (std::addressof(*a) == pb) == b.valueless_after_move()) && (vb || (std::addressof(*a) == pb || (!eq && nL == 1))) && nL <= (!vb && !eq), "move assignment transfers, or moves the object once"); break;
        case 3: a.swap(b); disarm(); CHK("C09", has(a, vb, w) && has(b, va, v) && at(a, pb) && at(b, pa) && nL == 0, "swap exchanges the objects"); break;
        case 4: { T m(v); O c(std::allocator_arg, A(s, 3), std::move(m)); disarm(); CHK("C18", has(c, false, v) && nL == 1, "constructed by one move"); break; }
        default: { T m(t); assignValue(a, std::move(m), std::integral_constant<bool, AS>()); disarm(); CHK("C15,C11", has(a, false, t) && (va || std::addressof(*a) == pa) && nL == 1 && L[0].kind == (va ? X_MOVE : X_MAS), "a value is moved in, once"); break; }
      }
    } catch (Fault&) {
      failed = true;
    }
    logging = false;
    disarm();
    if (failed) CHK("C06,C07,C11,C15", has(a, va, v) && has(b, vb, w) && at(a, pa) && at(b, pb) && G.liveBlocks == blocks, "a failed operation changes nothing");
    __vp_cover(failed ? "failed" : "done");
  }
  finish();
}
VP_ENTRY(kinds_move_only) {
  switch (__vp_pick("type", 5)) {
    case 0: moveOnly<MO<1, true>, Cfg<0, 0, 0, 0, 1>, true>(); break;
    case 1: moveOnly<MO<0, true>, Cfg<0, 0, 0, 0>, true>(); break;
    case 2: moveOnly<MO<0, true>, Cfg<1, 1, 1, 0>, true>(); break;
    case 3: moveOnly<MO<1, false>, Cfg<0, 1, 0, 0>, false>(); break;
    default: moveOnly<MO<0, false>, Cfg<0, 0, 1, 0>, false>(); break;
  }
}
#if VP_STD == 20
#define CV(U, A) { converting<OI<U, A>, U, A>(); }
#define CVF(U) ALLOCS(CV, U, U)
VP_ENTRY(kinds_conv) { KINDS(CVF) }
#endif
#else
#define BP(U, A) { Kinds<OP<typename U::B0, typename U::D, A>, typename U::D, A>::build(); }
template <class B, class T> struct PK { using B0 = B; using D = De<B, T>; };
#define PKS(U) if (__vp_pick_bool("plain base")) { using P = PK<Base, U>; ALLOCS(BP, Base, P) } else { using P = PK<VBase, U>; ALLOCS(BP, VBase, P) }
#define CP(U, A) { copying<OP<typename U::B0, typename U::D, A>, typename U::D, A>(); }
#define CPS(U) if (__vp_pick_bool("plain base")) { using P = PK<Base, U>; ALLOCS(CP, Base, P) } else { using P = PK<VBase, U>; ALLOCS(CP, VBase, P) }
VP_ENTRY(kinds_copy_pol) { KINDS(CPS) }
#define IDP(A) { using AL = typename Unp<void A>::type; identity<xyz::polymorphic<TB, AL>, AL, TY>(VP_IPT(TY)); }
template <class TB, class TY> static void identPol() { IDENT(IDP, TB) }
VP_ENTRY(identity_pol) { if (__vp_pick_bool("plain")) identPol<Base, PlainD>(); else identPol<VBase, De<VBase, K<63>>>(); }
VP_ENTRY(kinds_pol) { KINDS(PKS) }
#endif
