// Owned types that are constructible and assignable from anything and whose
// non-const copy differs from their const copy: copies must still be copies,
// made from a const source, and moves must still be moves.
#include "ind.h"
#include "pol.h"
using namespace vp;

static uint32_t gConv;  // conversions from something that is not a number
template <class U> static inline uint32_t conv(U&&) { gConv++; return 0xdead; }
static inline uint32_t conv(uint32_t& x) { return x; }
static inline uint32_t conv(const uint32_t& x) { return x; }
static inline uint32_t conv(uint32_t&& x) { return x; }
template <class U, class V> struct Other : std::integral_constant<bool, !std::is_same<typename std::decay<U>::type, V>::value> {};

struct GT {
  static constexpr int kind = 5;
  Tracked<5> t;
  template <class U, typename std::enable_if<Other<U, GT>::value, int>::type = 0>
  GT(U&& u) : t(conv(std::forward<U>(u))) {}
  GT(GT& o) : t(static_cast<const Tracked<5>&>(o.t)) { note(E_NCCTOR, 5); o.t.v++; }
  GT(const GT&) = default;
  GT(GT&&) = default;
  template <class U, typename std::enable_if<Other<U, GT>::value, int>::type = 0>
  GT& operator=(U&& u) { t.v = conv(std::forward<U>(u)); return *this; }
  GT& operator=(GT& o) { t = static_cast<const Tracked<5>&>(o.t); note(E_NCASSIGN, 5); o.t.v++; return *this; }
  GT& operator=(const GT&) = default;
  GT& operator=(GT&&) = default;
};
struct GB {
  static constexpr int kind = 5;
  Tracked<5> t;
  GB(uint32_t x) : t(x) {}
  GB(const GB&) = default;
  GB(GB&&) = default;
  virtual ~GB() {}
};
struct GD : GB {
  template <class U, typename std::enable_if<Other<U, GD>::value, int>::type = 0>
  GD(U&& u) : GB(conv(std::forward<U>(u))) {}
  GD(GD& o) : GB(static_cast<const GB&>(o)) { note(E_NCCTOR, 5); o.t.v++; }
  GD(const GD&) = default;
  GD(GD&&) = default;
};
template <> struct vp::KindOf<GT> { static constexpr int value = 5; };
template <> struct vp::KindOf<GD> { static constexpr int value = 5; };
static inline uint32_t n5(Ev e) { return G.cnt[5][e]; }

template <class C>
struct GM {
  using A = A_<GT, C>;
  using I = xyz::indirect<GT, A>;
  using PA = A_<GB, C>;
  using P = xyz::polymorphic<GB, PA>;

  template <class X>
  static void check(X& c, X& b, uint32_t v, bool vl, bool copy, bool same_alloc_move) {
    disarm();
    CHK("C01,C18", gConv == 0, "an object of the same type is copied or moved, never converted");
    CHK("C01,C18", (n5(E_NCCTOR) == 0) & (n5(E_NCASSIGN) == 0), "copies are made from a const source");
    CHK("C01,C11", c.valueless_after_move() == vl, "target is valueless iff the source was");
    if (!vl) CHK("C01,C18,C03", (*c).t.v == v, "target has the source's value");
    if (copy) {
      CHK("C01", b.valueless_after_move() == vl, "copying leaves the source untouched");
      if (!vl) CHK("C01", (*b).t.v == v, "copying leaves the source's value");
      if (!vl) CHK("C01", &*b != &*c, "copy owns a separate object");
      CHK("C01,C18", n5(E_MCTOR) + n5(E_MASSIGN) == 0, "no move where a copy was asked for");
      __vp_cover("greedy type copied");
    } else {
      CHK("C03,C18", n5(E_CCTOR) + n5(E_CASSIGN) == 0, "no copy where a move was asked for");
      if (same_alloc_move) CHK("C03,C11", b.valueless_after_move(), "source of a transfer is valueless");
      __vp_cover("greedy type moved");
    }
  }
  template <class X, class AL>
  static void all(X& a, X& b, uint32_t at, uint32_t bt, uint32_t v, bool vl) {
    uint8_t how = __vp_nondet_u8("how");
    __vp_assume(how < 11);
    const X& cb = b;
    uint32_t t3 = __vp_nondet_u32("new.alloc");
    AL al(t3, 3);
    gConv = 0;
    bool region = C::CM && !C::AE && at != bt;
    arm(how == 8 && region ? 0 : 1);
    try {
      switch (how) {
        case 0: { X c(b); check(c, b, v, vl, true, false); break; }
        case 1: { X c(cb); check(c, b, v, vl, true, false); break; }
        case 2: { X c(std::move(b)); check(c, b, v, vl, false, true); break; }
        case 3: { X c(std::allocator_arg, al, b); check(c, b, v, vl, true, false); break; }
        case 4: { X c(std::allocator_arg, al, cb); check(c, b, v, vl, true, false); break; }
        case 5: { X c(std::allocator_arg, al, std::move(b)); check(c, b, v, vl, false, C::AE || t3 == bt); break; }
        case 6: a = b; check(a, b, v, vl, true, false); break;
        case 7: a = cb; check(a, b, v, vl, true, false); break;
        case 8: a = std::move(b); check(a, b, v, vl, false, C::AE || at == bt); break;
        case 9: { X c(std::move(cb)); check(c, b, v, vl, true, false); break; }
        default: a = std::move(cb); check(a, b, v, vl, true, false); break;
      }
    } catch (Fault& f) {
      disarm();
      CHK("C07", f.seq == G.faults, "the original exception propagates");
      if (!vl) CHK("C01", (*b).t.v == v, "failed operation leaves the source's value");
      __vp_cover("greedy operation failed");
    }
  }
  static void ind() {
    start();
    {
      uint32_t v = __vp_nondet_u32("value"), at = __vp_nondet_u32("a.alloc"), bt = __vp_nondet_u32("b.alloc");
      bool avl = __vp_nondet_bool("a.valueless"), bvl = __vp_nondet_bool("b.valueless");
      I a(std::allocator_arg, A(at, 1), VP_IN_PLACE, 1u);
      I b(std::allocator_arg, A(bt, 2), VP_IN_PLACE, v);
      if (avl) I sink(std::move(a));
      if (bvl) I sink(std::move(b));
      all<I, A>(a, b, at, bt, v, bvl);
    }
    finish();
  }
  static void pol() {
    start();
    {
      uint32_t v = __vp_nondet_u32("value"), at = __vp_nondet_u32("a.alloc"), bt = __vp_nondet_u32("b.alloc");
      bool avl = __vp_nondet_bool("a.valueless"), bvl = __vp_nondet_bool("b.valueless");
      P a(std::allocator_arg, PA(at, 1), VP_IPT(GD), 1u);
      P b(std::allocator_arg, PA(bt, 2), VP_IPT(GD), v);
      if (avl) P sink(std::move(a));
      if (bvl) P sink(std::move(b));
      all<P, PA>(a, b, at, bt, v, bvl);
    }
    finish();
  }
};
#define MACHINE(CF) GM<CF>
#include "configs.h"
#define BODY M::ind()
VP_ENTRY(greedy_ind) { CONFIGS }
#undef BODY
#define BODY M::pol()
VP_ENTRY(greedy_pol) { CONFIGS }
#undef BODY
