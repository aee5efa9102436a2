// Comparisons and hashing of indirect, against the stated results, for all
// values (C12, C13, C14).
#include "ind.h"
using namespace vp;

static uint32_t nd32(const char* n) { return __vp_nondet_u32(n); }
static double ndDouble(const char* n) {
  uint64_t u = __vp_nondet_u64(n);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
template <class T> struct Mk;
template <> struct Mk<uint32_t> { static uint32_t get(const char* n) { return nd32(n); } };
template <> struct Mk<int32_t> { static int32_t get(const char* n) { return (int32_t)nd32(n); } };
template <> struct Mk<int64_t> { static int64_t get(const char* n) { return (int64_t)__vp_nondet_u64(n); } };
template <> struct Mk<double> { static double get(const char* n) { return ndDouble(n); } };
template <> struct Mk<float> { static float get(const char* n) { uint32_t u = nd32(n); float f; memcpy(&f, &u, 4); return f; } };
template <> struct Mk<char> { static char get(const char* n) { return (char)__vp_nondet_u8(n); } };

// Product order: incomparable values exist.
struct PO {
  uint32_t x, y;
  friend bool operator==(const PO& a, const PO& b) { return (a.x == b.x) & (a.y == b.y); }
#if VP_STD == 20
  friend std::partial_ordering operator<=>(const PO& a, const PO& b) {
    if (a == b) return std::partial_ordering::equivalent;
    if ((a.x <= b.x) & (a.y <= b.y)) return std::partial_ordering::less;
    if ((a.x >= b.x) & (a.y >= b.y)) return std::partial_ordering::greater;
    return std::partial_ordering::unordered;
  }
#else
  friend bool operator!=(const PO& a, const PO& b) { return !(a == b); }
  friend bool operator<=(const PO& a, const PO& b) { return (a.x <= b.x) & (a.y <= b.y); }
  friend bool operator>=(const PO& a, const PO& b) { return b <= a; }
  friend bool operator<(const PO& a, const PO& b) { return (a <= b) & !(a == b); }
  friend bool operator>(const PO& a, const PO& b) { return (b <= a) & !(a == b); }
#endif
};
template <> struct Mk<PO> { static PO get(const char* n) { PO p; p.x = nd32(n); p.y = nd32(n); return p; } };

// comparable with PO as one, and with <=> of PO's category
struct PD : PO { uint32_t more; };
template <> struct Mk<PD> { static PD get(const char* n) { PD p; p.x = nd32(n); p.y = nd32(n); p.more = 1; return p; } };

// Weak order whose equivalence is coarser than ==, and (C++20) without <=>.
struct WO {
  uint32_t v;
  friend bool operator==(const WO& a, const WO& b) { return a.v == b.v; }
  friend bool operator<(const WO& a, const WO& b) { return (a.v >> 4) < (b.v >> 4); }
#if VP_STD != 20
  friend bool operator!=(const WO& a, const WO& b) { return !(a == b); }
  friend bool operator>(const WO& a, const WO& b) { return b < a; }
  friend bool operator<=(const WO& a, const WO& b) { return !(b < a); }
  friend bool operator>=(const WO& a, const WO& b) { return !(a < b); }
#endif
};
template <> struct Mk<WO> { static WO get(const char* n) { return WO{nd32(n)}; } };

// Comparisons that answer with an int, yes being any number but 0, or with a
// class that converts to bool.
struct IR {
  uint32_t v;
#define IRO(op, yes) friend int operator op(const IR& a, const IR& b) { return a.v op b.v ? yes : 0; }
  IRO(==, 2) IRO(<, -1) IRO(>, 4) IRO(<=, 256) IRO(>=, 6)
  IRO(!=, 65536)
};
template <> struct Mk<IR> { static IR get(const char* n) { return IR{nd32(n)}; } };
struct Ans {
  bool b;
  operator bool() const { return b; }
};
struct BR {
  uint32_t v;
#define BRO(op) friend Ans operator op(const BR& a, const BR& b) { return Ans{a.v op b.v}; }
  BRO(==) BRO(<) BRO(>) BRO(<=) BRO(>=) BRO(!=)
};
template <> struct Mk<BR> { static BR get(const char* n) { return BR{nd32(n)}; } };

// A pair of types comparable with each other only through mixed operators;
// the ones taking (L, R) and (R, L) are distinct functions.
struct R_;
struct L_ { uint32_t v; };
struct R_ { uint32_t w; };
#define MIX(op) \
  static inline bool operator op(const L_& a, const R_& b) { return a.v op (b.w ^ 5u); } \
  static inline bool operator op(const R_& a, const L_& b) { return (a.w ^ 5u) op b.v; }
#if VP_STD == 20
static inline bool operator==(const L_& a, const R_& b) { return a.v == (b.w ^ 5u); }
static inline bool operator<(const L_& a, const R_& b) { return a.v < (b.w ^ 5u); }
static inline bool operator<(const R_& a, const L_& b) { return (a.w ^ 5u) < b.v; }
#else
MIX(==) MIX(!=) MIX(<) MIX(>) MIX(<=) MIX(>=)
#endif
template <> struct Mk<L_> { static L_ get(const char* n) { return L_{nd32(n)}; } };
template <> struct Mk<R_> { static R_ get(const char* n) { return R_{nd32(n)}; } };

// Every operator has a verdict of its own, whatever the values, and records
// its operands.  S: shape of the type.
template <int S> struct Oracle { uint32_t id; static Oracle get(const char* n) { return Oracle{nd32(n)}; } };
template <> struct Oracle<1> { static Oracle get(const char*) { return {}; } };          // empty
template <> struct Oracle<2> final { static Oracle get(const char*) { return {}; } };    // empty and final
template <> struct Oracle<3> { double d; static Oracle get(const char* n) { return Oracle{ndDouble(n)}; } };
template <> struct Oracle<4> {  // not trivial
  uint32_t id;
  explicit Oracle(uint32_t i) : id(i) {}
  Oracle(const Oracle& o) : id(o.id) {}
  virtual ~Oracle() {}
  static Oracle get(const char* n) { return Oracle(nd32(n)); }
};
template <> struct Oracle<5> { uint8_t c; uint32_t big[25]; static Oracle get(const char* n) { Oracle o{}; o.c = (uint8_t)nd32(n); return o; } };
template <> struct Oracle<6> { uint8_t id; static Oracle get(const char* n) { return Oracle{__vp_nondet_u8(n)}; } };
static uint8_t oMask;
static const void *oL, *oR;
static inline bool oracle(const void* a, const void* b, int i) { oL = a; oR = b; return (oMask >> i) & 1; }
#define ORC(op, i) \
  template <int S> static inline bool operator op(const Oracle<S>& a, const Oracle<S>& b) { return oracle(std::addressof(a), std::addressof(b), i); }
ORC(==, 0)
#if VP_STD == 20
template <int S>
static inline std::partial_ordering operator<=>(const Oracle<S>& a, const Oracle<S>& b) {
  oracle(std::addressof(a), std::addressof(b), 0);
  switch ((oMask >> 1) & 3) {
    case 0: return std::partial_ordering::less;
    case 1: return std::partial_ordering::greater;
    case 2: return std::partial_ordering::equivalent;
    default: return std::partial_ordering::unordered;
  }
}
#else
ORC(!=, 1) ORC(<, 2) ORC(>, 3) ORC(<=, 4) ORC(>=, 5)
#endif

template <class T>
using AA = A_<T, Cfg<0, 0, 0, 0>>;

// The results the operators of the values themselves give.
struct Six { bool eq, ne, lt, gt, le, ge; };
#if VP_STD == 20
template <class X, class Y, bool TW> struct Ord;
template <class X, class Y> struct Ord<X, Y, true> { static auto f(const X& x, const Y& y) { return x <=> y; } };
template <class X, class Y> struct Ord<X, Y, false> {
  static std::weak_ordering f(const X& x, const Y& y) { return x < y ? std::weak_ordering::less : y < x ? std::weak_ordering::greater : std::weak_ordering::equivalent; }
};
#endif
template <class X, class Y>
static Six six(const X& x, const Y& y) {
#if VP_STD == 20
  auto o = Ord<X, Y, std::three_way_comparable_with<X, Y>>::f(x, y);
  bool e = x == y;
  return Six{e, !e, o < 0, o > 0, o <= 0, o >= 0};
#else
  return Six{bool(x == y), bool(x != y), bool(x < y), bool(x > y), bool(x <= y), bool(x >= y)};
#endif
}
template <class X, class Y>
static Six sixOf(const X& x, const Y& y) {
  return Six{bool(x == y), bool(x != y), bool(x < y), bool(x > y), bool(x <= y), bool(x >= y)};
}

template <class T, class U>
struct CM {
  // with the value it owns (if the types compare with themselves)
  template <class I_> static void own(const I_& a, const T& t, std::true_type) {
    Six q = six(t, t), y = sixOf(a, *a), z = sixOf(*a, a);
    CHK("C13", (y.eq == q.eq) & (y.ne == q.ne) & (y.lt == q.lt) & (y.gt == q.gt) & (y.le == q.le) & (y.ge == q.ge), "an indirect compares with the value it owns as that value with itself");
    CHK("C13", (z.eq == q.eq) & (z.ne == q.ne) & (z.lt == q.gt) & (z.gt == q.lt) & (z.le == q.ge) & (z.ge == q.le), "also in the other order");
  }
  template <class I_> static void own(const I_&, const T&, std::false_type) {}
  template <class I_> static void self(const I_& a, const T& t, bool tv, std::true_type) {
    Six q = tv ? Six{true, false, false, false, true, true} : six(t, t), y = sixOf(a, a);
    CHK("C12", (y.eq == q.eq) & (y.ne == q.ne) & (y.lt == q.lt) & (y.gt == q.gt) & (y.le == q.le) & (y.ge == q.ge), "an indirect compares with itself as its value does");
  }
  template <class I_> static void self(const I_&, const T&, bool, std::false_type) {}
  using SC = std::is_same<T, U>;
  using I = xyz::indirect<T, AA<T>>;
  using J = xyz::indirect<U, A_<U, Cfg<1, 1, 1, 0>>>;
  static void both() {
    start();
    {
      T t = Mk<T>::get("t");
      U u = Mk<U>::get("u");
      bool tv = __vp_nondet_bool("t.valueless"), uv = __vp_nondet_bool("u.valueless");
      I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, t);
      J b(std::allocator_arg, A_<U, Cfg<1, 1, 1, 0>>(__vp_nondet_u32("alloc"), 2), VP_IN_PLACE, u);
      if (tv) I sink(std::move(a));
      if (uv) J sink(std::move(b));
      Six w;
      if (!tv && !uv) w = six(t, u);
      else w = Six{tv == uv, tv != uv, tv && !uv, !tv && uv, tv, uv};
      uint32_t blocks = G.liveBlocks;
      arm(2);
      const I& ca = a;
      const J& cb = b;
      Six r = sixOf(ca, cb);
      CHK("C12", r.eq == w.eq, "== of two indirects");
      CHK("C12", r.ne == w.ne, "!= of two indirects");
      CHK("C12", r.lt == w.lt, "< of two indirects");
      CHK("C12", r.gt == w.gt, "> of two indirects");
      CHK("C12", r.le == w.le, "<= of two indirects");
      CHK("C12", r.ge == w.ge, ">= of two indirects");
#if VP_STD == 20
      auto o = ca <=> cb;
      CHK("C12", ((o < 0) == w.lt) & ((o > 0) == w.gt) & ((o <= 0) == w.le) & ((o >= 0) == w.ge), "three-way comparison agrees with the two-way operators");
      if constexpr (std::three_way_comparable_with<T, U>) CHK("C12", (std::is_same<decltype(o), decltype(t <=> u)>::value), "three-way comparison has the values' category");
#endif
      // an object compared with itself, and with the value it owns
      self(ca, t, tv, SC());
      disarm();
      CHK("C12,C04", (G.liveBlocks == blocks) & (a.valueless_after_move() == tv) & (b.valueless_after_move() == uv), "comparing changes nothing");
      CHK("C12", G.cnt[0][E_ALLOC] == 0, "comparing allocates nothing");
      __vp_cover(tv ? uv ? "both valueless" : "left valueless" : uv ? "right valueless" : "two values");
    }
    finish();
  }
  // transitivity and consistency over three objects
  static void laws() {
    start();
    {
      T x[3];
      I* o[3];
      AA<T> al(1, 1);
      x[0] = Mk<T>::get("x");
      x[1] = Mk<T>::get("y");
      x[2] = Mk<T>::get("z");
      I a(std::allocator_arg, al, VP_IN_PLACE, x[0]), b(std::allocator_arg, al, VP_IN_PLACE, x[1]), c(std::allocator_arg, al, VP_IN_PLACE, x[2]);
      if (__vp_nondet_bool("a.valueless")) I sink(std::move(a));
      if (__vp_nondet_bool("b.valueless")) I sink(std::move(b));
      if (__vp_nondet_bool("c.valueless")) I sink(std::move(c));
      const I &ca = a, &cb = b, &cc = c;
      bool ab = ca < cb, bc = cb < cc, ac = ca < cc;
      CHK("C12", !(ab & bc) | ac, "< is transitive");
      bool eab = ca == cb, ebc = cb == cc, eac = ca == cc;
      CHK("C12", !(eab & ebc) | eac, "== is transitive");
      CHK("C12", eab == (cb == ca), "== is symmetric");
      CHK("C12", (ca == ca) & !(ca < ca), "== is reflexive, < irreflexive");
      CHK("C12", !(ab & (cb < ca)), "< is asymmetric");
      CHK("C12", (ca <= cb) == !(cb < ca), "<= is the negation of the reversed <");
      __vp_cover("laws");
    }
    finish();
  }
  // against a plain value
  static void value() {
    start();
    {
      T t = Mk<T>::get("t");
      U u = Mk<U>::get("u");
      bool tv = __vp_nondet_bool("t.valueless");
      I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, t);
      if (tv) I sink(std::move(a));
      Six w = tv ? Six{false, true, true, false, true, false} : six(t, u);
      // (with mixed types the reversed operators are distinct functions)
      arm(2);
      const I& ca = a;
      const U& cu = u;
      Six r = sixOf(ca, cu);
      CHK("C13", r.eq == w.eq, "indirect == value");
      CHK("C13", r.ne == w.ne, "indirect != value");
      CHK("C13", r.lt == w.lt, "indirect < value");
      CHK("C13", r.gt == w.gt, "indirect > value");
      CHK("C13", r.le == w.le, "indirect <= value");
      CHK("C13", r.ge == w.ge, "indirect >= value");
      Six s = sixOf(cu, ca);
      CHK("C13", s.eq == w.eq, "value == indirect");
      CHK("C13", s.ne == w.ne, "value != indirect");
      CHK("C13", s.lt == w.gt, "value < indirect");
      CHK("C13", s.gt == w.lt, "value > indirect");
      CHK("C13", s.le == w.ge, "value <= indirect");
      CHK("C13", s.ge == w.le, "value >= indirect");
#if VP_STD == 20
      auto o = ca <=> cu;
      CHK("C13", ((o < 0) == w.lt) & ((o > 0) == w.gt) & ((o <= 0) == w.le) & ((o >= 0) == w.ge), "indirect <=> value agrees");
      auto q = cu <=> ca;
      CHK("C13", ((q > 0) == w.lt) & ((q < 0) == w.gt) & ((q >= 0) == w.le) & ((q <= 0) == w.ge), "value <=> indirect agrees");
#endif
      if (!tv) own(ca, t, SC());
      disarm();
      CHK("C13", (a.valueless_after_move() == tv) & (G.cnt[0][E_ALLOC] == 0), "comparing changes and allocates nothing");
      __vp_cover(tv ? "valueless against a value" : "value against a value");
    }
    finish();
  }
};
#define CMP(name, T, U) VP_ENTRY(cmp_##name) { CM<T, U>::both(); }
#define CMPV(name, T, U) VP_ENTRY(cmpv_##name) { CM<T, U>::value(); }
CMP(u32, uint32_t, uint32_t)
CMP(i32_i64, int32_t, int64_t)
CMP(i64_i32, int64_t, int32_t)
CMP(char_i32, char, int32_t)
CMP(double, double, double)
CMP(po, PO, PO)
CMP(wo, WO, WO)
CMP(ir, IR, IR)
CMP(br, BR, BR)
CMPV(ir, IR, IR)
CMPV(br, BR, BR)
CMP(double_float, double, float)
CMP(float_double, float, double)
CMP(i32_double, int32_t, double)
CMP(po_pd, PO, PD)
CMP(pd_po, PD, PO)
CMP(pd, PD, PD)
CMPV(double_float, double, float)
CMPV(float_double, float, double)
CMPV(i32_double, int32_t, double)
CMPV(po_pd, PO, PD)
CMPV(pd_po, PD, PO)
CMPV(pd, PD, PD)
CMPV(u32, uint32_t, uint32_t)
CMPV(i32_i64, int32_t, int64_t)
CMPV(i64_i32, int64_t, int32_t)
CMPV(double, double, double)
CMPV(po, PO, PO)
CMPV(wo, WO, WO)
VP_ENTRY(cmp_mixed) { CM<L_, R_>::both(); }
VP_ENTRY(cmp_mixed_rev) { CM<R_, L_>::both(); }
VP_ENTRY(cmpv_mixed) { CM<L_, R_>::value(); }
VP_ENTRY(laws_u32) { CM<uint32_t, uint32_t>::laws(); }

// The owned type's own operators decide, applied to the owned objects, in the
// given order or mirrored.  Each verdict is arbitrary, except that != is the
// negation of ==.
template <int S>
static void cmp_oracle() {
  using T = Oracle<S>;
  start();
  {
    using I = xyz::indirect<T, AA<T>>;
    oMask = __vp_nondet_u8("verdicts");
    __vp_assume(((oMask >> 1) & 1) == !(oMask & 1) || VP_STD == 20);
    I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, T::get("a")), b(std::allocator_arg, AA<T>(2, 2), VP_IN_PLACE, T::get("b"));
    // also an object with itself
    bool self = __vp_pick_bool("self");
    const I &ca = a, &cb = self ? a : b;
    const T& pb = *cb;
    uint8_t op = __vp_nondet_u8("op"), form = __vp_nondet_u8("form");
    __vp_assume((op < 6) & (form < 3));
    bool r = false;
    Six v = six(*ca, *cb);
    oL = oR = nullptr;
#define OPS(x, y)                  \
  switch (op) {                    \
    case 0: r = x == y; break;     \
    case 1: r = x != y; break;     \
    case 2: r = x < y; break;      \
    case 3: r = x > y; break;      \
    case 4: r = x <= y; break;     \
    default: r = x >= y; break;    \
  }
    if (form == 0) { OPS(ca, cb) }
    else if (form == 1) { OPS(ca, pb) }
    else { OPS(pb, ca) }
    const void *x = form == 2 ? (const void*)std::addressof(pb) : std::addressof(*ca), *y = form == 2 ? std::addressof(*ca) : std::addressof(pb);
    bool fwd = (oL == x) & (oR == y), rev = (oL == y) & (oR == x);
    CHK("C12,C13", fwd | rev, "the owned type's operator is applied to the owned object itself");
    const bool w[6] = {v.eq, v.ne, v.lt, v.gt, v.le, v.ge}, m[6] = {v.eq, v.ne, v.gt, v.lt, v.ge, v.le};
    CHK("C12,C13", (fwd & (r == w[op])) | (rev & (r == m[op])), "the result is the owned type's own verdict");
    __vp_cover("oracle");
  }
  finish();
}
VP_ENTRY(cmp_oracle) {
  switch (__vp_pick("shape", 7)) {
    case 0: cmp_oracle<0>(); break;
    case 1: cmp_oracle<1>(); break;
    case 2: cmp_oracle<2>(); break;
    case 3: cmp_oracle<3>(); break;
    case 4: cmp_oracle<4>(); break;
    case 5: cmp_oracle<5>(); break;
    default: cmp_oracle<6>(); break;
  }
}
// Operators and hash of the owned type may throw.
struct Thr { uint32_t v; };
#define THR(op) static inline bool operator op(const Thr& a, const Thr& b) { fault_point(); return a.v op b.v; }
THR(==)
#if VP_STD == 20
static inline std::strong_ordering operator<=>(const Thr& a, const Thr& b) { fault_point(); return a.v <=> b.v; }
#else
THR(!=) THR(<) THR(>) THR(<=) THR(>=)
#endif
template <> struct std::hash<Thr> {
  size_t operator()(const Thr& h) const { fault_point(); return h.v; }
};
VP_ENTRY(cmp_throw) {
  start();
  {
    using I = xyz::indirect<Thr, AA<Thr>>;
    uint32_t x = nd32("x"), y = nd32("y");
    I a(std::allocator_arg, AA<Thr>(1, 1), VP_IN_PLACE, Thr{x}), b(std::allocator_arg, AA<Thr>(2, 2), VP_IN_PLACE, Thr{y});
    if (__vp_nondet_bool("b.valueless")) I sink(std::move(b));
    bool bv = b.valueless_after_move();
    const I &ca = a, &cb = b;
    const Thr pb{y};
    uint8_t op = __vp_nondet_u8("op"), form = __vp_nondet_u8("form");
    __vp_assume((op < 6) & (form < 4));
    bool r = false;
    arm(1);
    try {
      if (form == 0) { OPS(ca, cb) }
      else if (form == 1) { OPS(ca, pb) }
      else if (form == 2) { OPS(pb, ca) }
      else if (std::hash<I>{}(ca) == x) r = true;
      disarm();
      CHK("C17", G.faults == 0, "an exception of the owned type propagates");
    } catch (Fault& f) {
      CHK("C17", f.seq == G.faults, "the exception propagates unchanged");
      __vp_cover("comparison or hash failed");
    }
    disarm();
    CHK("C17,C12,C13,C14", !a.valueless_after_move() && (a->v == x) & (b.valueless_after_move() == bv), "a failing comparison changes nothing");
    (void)r;
  }
  finish();
}

// ------------------------------------------------------------------- hash
struct HT {
  Tracked<1> t;
  explicit HT(uint32_t v) : t(v) {}
  HT(const HT&) = default;
  HT(HT&&) = default;
  HT& operator=(const HT&) = default;
  HT& operator=(HT&&) = default;
  friend bool operator==(const HT& a, const HT& b) { return a.t.v == b.t.v; }
};
static uint32_t hashCalls;
static const void* hashArg;
template <> struct std::hash<HT> {
  size_t operator()(const HT& h) const { hashCalls++; hashArg = &h; return (size_t)h.t.v * 0x9E3779B97F4A7C15ull ^ 0x1234; }
};
template <class C>
struct HM {
  using A = A_<HT, C>;
  using I = xyz::indirect<HT, A>;
  static void leave() {}
  static void run() {
    start();
    {
      uint32_t x = nd32("x"), y = nd32("y");
      bool xv = __vp_nondet_bool("a.valueless"), yv = __vp_nondet_bool("b.valueless");
      I a(std::allocator_arg, A(nd32("a.alloc"), 1), VP_IN_PLACE, x), b(std::allocator_arg, A(nd32("b.alloc"), 2), VP_IN_PLACE, y);
      if (xv) I sink(std::move(a));
      if (yv) I sink(std::move(b));
      const I &ca = a, &cb = b;
      uint32_t elems = G.liveElems;
      arm(2);
      hashCalls = 0;
      size_t h = std::hash<I>{}(ca);
      const void* at = hashArg;
      uint32_t calls = hashCalls;
      size_t g = std::hash<I>{}(cb);
      size_t h2 = std::hash<I>{}(ca);
      disarm();
      if (!xv) {
        HT v(x);
        size_t w = std::hash<HT>{}(v);
        CHK("C14", h == w, "hash of an indirect is the owned value's hash");
        CHK("C14", (calls == 1) & (at == &*ca), "the owned object itself is hashed, once");
      } else
        CHK("C14,C11", calls == 0, "hashing a valueless object touches no value");
      CHK("C14", h == h2, "hashing is repeatable");
      if (ca == cb) {
        CHK("C14", h == g, "equal indirects hash equally");
        __vp_cover(xv ? "two valueless" : "two equal");
      }
      CHK("C14", (G.liveElems == elems) & (G.cnt[0][E_ALLOC] == 0) & (G.cnt[1][E_CCTOR] == 0) & (a.valueless_after_move() == xv), "hashing copies and changes nothing");
      // the hash follows the value, however it came to change
      uint32_t z = nd32("z");
      uint8_t how = __vp_pick("then", 5);
      bool zv = false;
      switch (how) {
        case 0: if (xv) return leave(); a->t.v = z; break;
        case 1: a = HT(z); break;
        case 2: { I c(std::allocator_arg, a.get_allocator(), VP_IN_PLACE, z); a = std::move(c); break; }
        case 3: { I c(std::allocator_arg, a.get_allocator(), VP_IN_PLACE, z); a.swap(c); break; }
        default: a = cb; z = y; zv = yv; break;
      }
      size_t k = std::hash<I>{}(ca), kb = std::hash<I>{}(cb);
      if (!zv) {
        HT v(z);
        CHK("C14", k == std::hash<HT>{}(v), "a changed indirect hashes like its new value");
      } else
        CHK("C14", how == 4 && k == kb, "equal indirects hash equally");
      CHK("C14", kb == g, "and the other one like before");
      __vp_cover("hashed again after a change");
    }
    finish();
  }
};
// owned types of several sizes and alignments, with nothing but a value
template <class W, size_t PAD, size_t AL>
struct alignas(AL) HP {
  W v;
  char pad[PAD];
};
template <class W, size_t P, size_t L> struct std::hash<HP<W, P, L>> {
  size_t operator()(const HP<W, P, L>& h) const { hashCalls++; hashArg = &h; return (size_t)h.v ^ 0x55u; }
};
template <class W> struct HP0 { W v; };
template <class W> struct std::hash<HP0<W>> {
  size_t operator()(const HP0<W>& h) const { hashCalls++; hashArg = &h; return (size_t)h.v ^ 0x77u; }
};
template <class T, class W>
static void hash_shape() {
  start();
  {
    using I = xyz::indirect<T, AA<T>>;
    W x = (W)__vp_nondet_u64("x"), y = (W)__vp_nondet_u64("y");
    T t{};
    t.v = x;
    I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, static_cast<const T&>(t));
    const I& ca = a;
    CHK("C14", std::hash<I>{}(ca) == std::hash<T>{}(t), "hash of an indirect is the owned value's hash");
    CHK("C14", hashArg == std::addressof(t), "(oracle)");
    hashCalls = 0;
    size_t h = std::hash<I>{}(ca);
    CHK("C14", hashCalls == 1 && hashArg == std::addressof(*ca), "the owned object itself is hashed, once");
    (void)h;
    (*a).v = y;
    t.v = y;
    CHK("C14", std::hash<I>{}(ca) == std::hash<T>{}(t), "a changed indirect hashes like its new value");
    const T* was = std::addressof(*ca);
    { I gone(std::move(a)); }
    t.v = x;
    I b(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, static_cast<const T&>(t));
    CHK("C14", std::hash<I>{}(b) == std::hash<T>{}(t), "another indirect hashes like its own value");
    (void)was;
    CHK("C14", std::hash<I>{}(ca) == std::hash<I>{}(a), "a valueless hash is repeatable");
    __vp_cover("hash of a shape");
  }
  finish();
}
VP_ENTRY(hash_shapes) {
  switch (__vp_pick("shape", 7)) {
    case 0: hash_shape<HP0<uint8_t>, uint8_t>(); break;
    case 1: hash_shape<HP0<uint32_t>, uint32_t>(); break;
    case 2: hash_shape<HP0<uint64_t>, uint64_t>(); break;
    case 3: hash_shape<HP<uint64_t, 1, 8>, uint64_t>(); break;
    case 4: hash_shape<HP<uint64_t, 100, 8>, uint64_t>(); break;
    case 5: hash_shape<HP<uint32_t, 60, 64>, uint32_t>(); break;
    default: hash_shape<HP<uint8_t, 4096, 4>, uint8_t>(); break;
  }
}
#define MACHINE(CF) HM<CF>
#include "configs.h"
#define BODY M::run()
VP_ENTRY(hash) { CONFIGS }
#undef BODY
// fundamental owned types, with the library's own hash
template <class T>
static void hash_std() {
  start();
  {
    using I = xyz::indirect<T, AA<T>>;
    uint64_t xb = __vp_nondet_u64("x"), yb = __vp_nondet_u64("y");
    T x, y;
    memcpy(&x, &xb, sizeof x);
    memcpy(&y, &yb, sizeof y);
    I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, x), b(std::allocator_arg, AA<T>(1, 2), VP_IN_PLACE, y);
    const I &ca = a, &cb = b;
    CHK("C14", std::hash<I>{}(ca) == std::hash<T>{}(x), "hash of an indirect is the owned value's hash");
    CHK("C14", std::hash<I>{}(cb) == std::hash<T>{}(y), "hash of an indirect is the owned value's hash");
    *a = y;
    CHK("C14", std::hash<I>{}(ca) == std::hash<I>{}(cb), "equal indirects hash equally");
    b = std::move(a);
    CHK("C14", std::hash<I>{}(cb) == std::hash<T>{}(y), "hash after a move is the owned value's hash");
    __vp_cover("library hash");
  }
  finish();
}
VP_ENTRY(hash_std) {
  switch (__vp_pick("type", 6)) {
    case 0: hash_std<uint32_t>(); break;
    case 1: hash_std<uint64_t>(); break;
    case 2: hash_std<int16_t>(); break;
    case 3: hash_std<unsigned char>(); break;
    case 4: hash_std<char*>(); break;
    default: hash_std<int64_t>(); break;
  }
}
// Any hash at all, of values of any shape: the owned type's own is asked.
static uint64_t anyHash[2];
static const void* hashOf[2];
template <int S> struct std::hash<Oracle<S>> {
  size_t operator()(const Oracle<S>& o) const {
    hashCalls++;
    if (std::addressof(o) == hashOf[0]) return (size_t)anyHash[0];
    CHK("C14", std::addressof(o) == hashOf[1], "the owned object itself is hashed");
    return (size_t)anyHash[1];
  }
};
template <int S>
static void hash_any() {
  using T = Oracle<S>;
  start();
  {
    using I = xyz::indirect<T, AA<T>>;
    I a(std::allocator_arg, AA<T>(1, 1), VP_IN_PLACE, T::get("a")), b(std::allocator_arg, AA<T>(1, 2), VP_IN_PLACE, T::get("b"));
    const I &ca = a, &cb = b;
    anyHash[0] = __vp_nondet_u64("hash a");
    anyHash[1] = __vp_nondet_u64("hash b");
    hashOf[0] = std::addressof(*ca);
    hashOf[1] = std::addressof(*cb);
    size_t h = std::hash<I>{}(ca), g = std::hash<I>{}(cb);
    CHK("C14", (h == anyHash[0]) & (g == anyHash[1]) & (hashCalls == 2), "the hash is the owned value's, whatever that is");
    a.swap(b);
    CHK("C14", (std::hash<I>{}(ca) == anyHash[1]) & (std::hash<I>{}(cb) == anyHash[0]), "and goes with the value");
    __vp_cover("any hash");
  }
  hashCalls = 0;
  finish();
}
VP_ENTRY(hash_any) {
  switch (__vp_pick("shape", 7)) {
    case 0: hash_any<0>(); break;
    case 1: hash_any<1>(); break;
    case 2: hash_any<2>(); break;
    case 3: hash_any<3>(); break;
    case 4: hash_any<4>(); break;
    case 5: hash_any<5>(); break;
    default: hash_any<6>(); break;
  }
}
