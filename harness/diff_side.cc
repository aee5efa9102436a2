// One side of the differential check: plays a script on this standard's
// headers and records everything observable.
#include "shapes.h"
#include "diff.h"
using namespace vp;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define SIDE(n) CAT(n, VP_STD)

namespace std {
template <> struct hash<VS> { size_t operator()(const VS& v) const { return v.t.v * 2654435761u; } };
}
namespace vp {
static DRecord* R;
static void rec(uint32_t v) {
  if (R->n >= DREC) __vp_fail("*:record overflow");
  R->w[R->n++] = v;
}
static void recLog() {
  rec(0x1000 + G.nlog);
  for (uint32_t i = 0; i < G.nlog; i++) {
    rec(G.log[i].ev * 256u + G.log[i].type);
    rec(G.log[i].val);
  }
  G.nlog = 0;
}
static void script(const DScript& s) {
  start();
  G.logging = true;
  G.scripted = true;
  G.script = s.faults;
  G.armed = false;
}
template <class C>
struct DI {
  using A = A_<VS, C>;
  using O = xyz::indirect<VS, A>;
  static void obs(const O& o) {
    rec(o.valueless_after_move());
    A a = o.get_allocator();
    rec(a.tag);
    rec(a.id);
    if (!o.valueless_after_move()) rec(o->t.v);
  }
  static O make(const DScript& s, int k) { return O(std::allocator_arg, A(s.tag[k], k + 1), VP_IN_PLACE, s.v[k]); }
  // without faults where move assignment is noexcept although it may allocate
  // (known_findings.txt, C17)
  static void massign(O& a, O& b) {
    if (C::CM && !C::AE && !(a.get_allocator() == b.get_allocator())) G.armed = false;
    a = std::move(b);
  }
  static void op(const DScript& s, int k, O& a, O& b) {
    uint32_t x = s.x[k];
    A al(s.t[k], 10 + k);
    Arg g{x};
    switch (s.op[k]) {
      case 0: { O c(static_cast<const O&>(b)); obs(c); massign(a, c); break; }
      case 1: { O c(b); obs(c); break; }
      case 2: { O c(std::move(b)); obs(c); break; }
      case 3: { O c(std::allocator_arg, al, static_cast<const O&>(b)); obs(c); break; }
      case 4: { O c(std::allocator_arg, al, std::move(b)); obs(c); break; }
      case 5: a = static_cast<const O&>(b); break;
      case 6: massign(a, b); break;
      case 7: if (C::CS || a.get_allocator() == b.get_allocator()) a.swap(b); break;
      case 8: if (C::CS || a.get_allocator() == b.get_allocator()) { using std::swap; swap(a, b); } break;
      case 9: a = g; break;
      case 10: a = std::move(g); break;
      case 11: { O c; obs(c); break; }
      case 12: { O c(std::allocator_arg, al); obs(c); break; }
      case 13: { O c(VP_IN_PLACE, x, 3u); obs(c); break; }
      case 14: { O c(std::allocator_arg, al, VP_IN_PLACE, {x, 2u}, 4u); obs(c); break; }
      case 15: { VS v(x); O c(v); obs(c); break; }
      case 16: { VS v(x); O c(std::allocator_arg, al, std::move(v)); obs(c); break; }
      case 17:
        rec((a == b) | (a != b) << 1);
        rec((a < b) | (a > b) << 1 | (a <= b) << 2 | (a >= b) << 3);
        break;
      case 18: {
        VS v(x);
        rec((a == v) | (a != v) << 1 | (v == a) << 2 | (v != a) << 3);
        rec((a < v) | (a > v) << 1 | (a <= v) << 2 | (a >= v) << 3);
        rec((v < a) | (v > a) << 1 | (v <= a) << 2 | (v >= a) << 3);
        break;
      }
      default: rec((uint32_t)std::hash<O>{}(a)); rec((uint32_t)(std::hash<O>{}(a) >> 32)); break;
    }
  }
  static void run(const DScript& s) {
    script(s);
    {
      O a = make(s, 0), b = make(s, 1);
      if (s.vl[0]) O sink(std::move(a));
      if (s.vl[1]) O sink(std::move(b));
      G.nlog = 0;
      for (int k = 0; k < s.k; k++) {
        G.armed = true;
        G.budget = s.budget > G.faults ? s.budget - G.faults : 0;
        try {
          O& x = s.i[k] ? b : a;
          O& y = s.self[k] ? x : s.i[k] ? a : b;
          op(s, k, x, y);
        } catch (Fault& f) {
          rec(0xF000 + f.seq);
        }
        G.armed = false;
        recLog();
        obs(a);
        obs(b);
        rec(G.liveBlocks);
        rec(G.liveElems);
      }
      if (G.faults) rec(G.faults);
    }
    recLog();
    rec(G.liveBlocks);
    rec(G.liveElems);
  }
};
template <class C>
struct DP {
  using A = A_<PB, C>;
  using O = xyz::polymorphic<PB, A>;
  static void obs(const O& o) {
    rec(o.valueless_after_move());
    A a = o.get_allocator();
    rec(a.tag);
    rec(a.id);
    if (!o.valueless_after_move()) {
      rec((*o).t.v);
      rec(o->who());
      rec(o->leaf());
    }
  }
  static O make(const DScript& s, int k) {
    A al(s.tag[k], k + 1);
    if (s.type[k] == 0) return O(std::allocator_arg, al, VP_IPT(PB), s.v[k]);
    if (s.type[k] == 1) return O(std::allocator_arg, al, VP_IPT(D1), s.v[k]);
    return O(std::allocator_arg, al, VP_IPT(D2), s.v[k]);
  }
  // without faults where move assignment is noexcept although it may allocate
  // (known_findings.txt, C17)
  static void massign(O& a, O& b) {
    if (C::CM && !C::AE && !(a.get_allocator() == b.get_allocator())) G.armed = false;
    a = std::move(b);
  }
  static void op(const DScript& s, int k, O& a, O& b) {
    uint32_t x = s.x[k];
    A al(s.t[k], 10 + k);
    Arg g{x};
    switch (s.op[k]) {
      case 0: { O c(static_cast<const O&>(b)); obs(c); massign(a, c); break; }
      case 1: { O c(b); obs(c); break; }
      case 2: { O c(std::move(b)); obs(c); break; }
      case 3: { O c(std::allocator_arg, al, static_cast<const O&>(b)); obs(c); break; }
      case 4: { O c(std::allocator_arg, al, std::move(b)); obs(c); break; }
      case 5: a = static_cast<const O&>(b); break;
      case 6: massign(a, b); break;
      case 7: if (C::CS || a.get_allocator() == b.get_allocator()) a.swap(b); break;
      case 8: if (C::CS || a.get_allocator() == b.get_allocator()) { using std::swap; swap(a, b); } break;
      case 9: { O c; obs(c); break; }
      case 10: { O c(std::allocator_arg, al); obs(c); break; }
      case 11: { O c(VP_IPT(D1), x); obs(c); break; }
      case 12: { O c(VP_IPT(D1), x, 3u); obs(c); break; }
      case 13: { O c(std::allocator_arg, al, VP_IPT(D3), x); obs(c); break; }
      case 14: { O c(VP_IPT(D1), {x, 2u}, 4u); obs(c); break; }
      case 15: { O c(std::allocator_arg, al, VP_IPT(D1), {x, 2u}, 4u); obs(c); break; }
      case 16: { D1 v(x); O c(v); obs(c); break; }
      case 17: { D2 v(x); O c(std::allocator_arg, al, std::move(v)); obs(c); break; }
      default: { O c(VP_IPT(D1), std::move(g)); obs(c); rec(g.v); break; }
    }
  }
  static void run(const DScript& s) {
    script(s);
    {
      O a = make(s, 0), b = make(s, 1);
      if (s.vl[0]) O sink(std::move(a));
      if (s.vl[1]) O sink(std::move(b));
      G.nlog = 0;
      for (int k = 0; k < s.k; k++) {
        G.armed = true;
        G.budget = s.budget > G.faults ? s.budget - G.faults : 0;
        try {
          O& x = s.i[k] ? b : a;
          O& y = s.self[k] ? x : s.i[k] ? a : b;
          op(s, k, x, y);
        } catch (Fault& f) {
          rec(0xF000 + f.seq);
        }
        G.armed = false;
        recLog();
        obs(a);
        obs(b);
        rec(G.liveBlocks);
        rec(G.liveElems);
      }
    }
    recLog();
    rec(G.liveBlocks);
    rec(G.liveElems);
  }
};

// what a user can read of the shapes
template <class T> static uint32_t word(const T& t) { return t.v; }
static uint32_t word(const TTriv& t) { return t.v ^ t.w[2]; }
static uint32_t word(const TDtor& t) { return t.v + 3 * t.w; }
static uint32_t word(const TOver& t) { return t.v + (uint32_t)t.c[0] + (uint32_t)t.c[69]; }
static uint32_t word(const TBig& t) { return t.v + (uint32_t)t.c[2999]; }
static uint32_t word(const TEmp&) { return 17; }
static uint32_t word(uint32_t t) { return t; }
static uint32_t word(uint8_t t) { return t; }
template <class K> struct Word;
template <class T, class C> struct Word<OI<T, C>> {
  static uint32_t get(const typename OI<T, C>::O& o, uint8_t) { return word(*o); }
};
template <class B, class T, class C> struct Word<OP<B, T, C>> {
  using K = OP<B, T, C>;
  static uint32_t get(const typename K::O& o, uint8_t ty) { return ty ? word(static_cast<const typename K::D1&>(*o).t) : word(static_cast<const typename K::D0&>(*o).t); }
};
template <class K, class C>
struct DS {
  using O = typename K::O;
  using A = typename K::A;
  using CP = std::integral_constant<bool, K::copies>;
  static void obs(const O& o, uint8_t ty, const void* pa, const void* pb) {
    rec(o.valueless_after_move());
    A a = o.get_allocator();
    rec(a.tag);
    rec(a.id);
    if (o.valueless_after_move()) return;
    const void* p = std::addressof(*o);
    rec((p == pa) | (p == pb) << 1);
    rec(Word<K>::get(o, ty));
  }
  static void copy(O& a, const O& b, std::true_type) { a = b; }
  static void copy(O&, const O&, std::false_type) {}
  static void run(const DScript& s) {
    script(s);
    {
      O a(K::make(0, s.v[0], A(s.tag[0], 1))), b(K::make(1, s.v[1], A(s.tag[1], 2)));
      if (s.vl[0]) O sink(std::move(a));
      if (s.vl[1]) O sink(std::move(b));
      const void *pa = s.vl[0] ? nullptr : (const void*)std::addressof(*a), *pb = s.vl[1] ? nullptr : (const void*)std::addressof(*b);
      uint8_t ta = 0, tb = 1;
      A al(s.t[0], 3);
      const O &ca = a, &cb = b;
      bool eq = C::AE || s.tag[0] == s.tag[1];
      G.nlog = 0;
      G.armed = true;
      G.budget = s.budget;
      try {
        switch (s.op[0]) {
          case 0: { O c(ca); obs(c, 0, pa, pb); break; }
          case 1: { O c(std::move(a)); obs(c, 0, pa, pb); break; }
          case 2: { O c(std::allocator_arg, al, cb); obs(c, 1, pa, pb); break; }
          case 3: { O c(std::allocator_arg, al, std::move(b)); obs(c, 1, pa, pb); break; }
          case 4: copy(a, cb, CP()); if (K::copies) ta = 1; break;
          case 5: if (C::CM && !eq) G.armed = false; a = std::move(b); ta = 1; break;
          case 6: if (C::CS || eq) { a.swap(b); ta = 1; tb = 0; } break;
          case 7: copy(a, ca, CP()); break;
          case 8: a = std::move(a); break;
          case 9: { O c(K::make(0, s.x[0], al)); obs(c, 0, pa, pb); break; }
          case 10: { typename K::X x(s.x[0]); O c(std::allocator_arg, al, static_cast<const typename K::X&>(x)); obs(c, 0, pa, pb); break; }
          case 11: { typename K::X x(s.x[0]); O c(std::allocator_arg, al, std::move(x)); obs(c, 0, pa, pb); break; }
          default: if (C::CS || eq) { using std::swap; swap(b, a); ta = 1; tb = 0; } break;
        }
      } catch (Fault& f) {
        rec(0xF000 + f.seq);
      }
      G.armed = false;
      recLog();
      obs(a, ta, pa, pb);
      obs(b, tb, pa, pb);
      rec(G.liveBlocks);
    }
    recLog();
    rec(G.liveBlocks);
    rec(G.liveElems);
  }
};
// comparison and hashing
struct Cased { uint8_t c[8]; };  // equal ignoring bit 5 of each byte, ordered by the first
static bool operator==(const Cased& a, const Cased& b) { for (int i = 0; i < 2; i++) if ((a.c[i] ^ b.c[i]) & ~32) return false; return true; }
static bool operator<(const Cased& a, const Cased& b) { return (a.c[0] & ~32) < (b.c[0] & ~32); }
static bool operator!=(const Cased& a, const Cased& b) { return !(a == b); }
static bool operator>(const Cased& a, const Cased& b) { return b < a; }
static bool operator<=(const Cased& a, const Cased& b) { return !(b < a); }
static bool operator>=(const Cased& a, const Cased& b) { return !(a < b); }
template <class T, class U, class X, class Y>
static void six(const X& a, const Y& b) {
  rec((a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5);
}
template <class T> static void hashes(const xyz::indirect<T>& a, std::true_type) { size_t h = std::hash<xyz::indirect<T>>{}(a); rec((uint32_t)h); rec((uint32_t)(h >> 32)); }
template <class T> static void hashes(const xyz::indirect<T>&, std::false_type) {}
template <class T, class U, bool H>
static void cmp(const DScript& s) {
  T x;
  U y;
  memcpy(&x, &s.wide[0], sizeof x);
  memcpy(&y, &s.wide[1], sizeof y);
  xyz::indirect<T> a(VP_IN_PLACE, x);
  xyz::indirect<U> b(VP_IN_PLACE, y);
  if (s.vl[0]) { xyz::indirect<T> k(std::move(a)); }
  if (s.vl[1]) { xyz::indirect<U> k(std::move(b)); }
  six<T, U>(a, b);
  six<U, T>(b, a);
  six<T, U>(a, y);
  six<U, T>(y, a);
  six<T, T>(a, a);
  hashes(a, std::integral_constant<bool, H>());
}
}  // namespace vp
#define CFGCASE(i, ca, cm, cs, ae, hk, so) \
  case i: MACH<Cfg<ca, cm, cs, ae, hk, so>>::run(*s); break;
#define ALL                      \
  switch (s->cfg) {              \
    CFGCASE(0, 0, 0, 0, 0, 0, 0) \
    CFGCASE(1, 1, 0, 0, 0, 1, 0) \
    CFGCASE(2, 0, 1, 0, 0, 0, 1) \
    CFGCASE(3, 1, 1, 1, 0, 0, 0) \
    CFGCASE(4, 0, 0, 1, 1, 0, 0) \
    CFGCASE(5, 1, 1, 0, 1, 1, 1) \
  }
extern "C" void SIDE(diff_ind_)(const DScript* s, DRecord* r) {
  R = r;
  r->n = 0;
#define MACH DI
  ALL
#undef MACH
}
extern "C" void SIDE(diff_pol_)(const DScript* s, DRecord* r) {
  R = r;
  r->n = 0;
#define MACH DP
  ALL
#undef MACH
}

#define SHCASE(i, ca, cm, cs, ae, hk, so) \
  case i: { using C = Cfg<ca, cm, cs, ae, hk, so>; SHAPES break; }
#define ALLSH                    \
  switch (s->cfg) {              \
    SHCASE(0, 0, 0, 0, 0, 1, 0) \
    SHCASE(1, 1, 1, 1, 0, 0, 1) \
    SHCASE(2, 0, 0, 0, 1, 1, 1) \
    SHCASE(3, 1, 0, 1, 0, 0, 0) \
  }
extern "C" void SIDE(diff_ishape_)(const DScript* s, DRecord* r) {
  R = r;
  r->n = 0;
#define T(i, X) case i: DS<OI<X, C>, C>::run(*s); break;
#define SHAPES switch (s->shape) { T(0, TTriv) T(1, TDtor) T(2, TFin) T(3, TConst) T(4, TOver) T(5, TEmp) T(6, TPriv) T(7, T1) T(8, T2) T(9, T3) T(10, T4) T(11, T5) T(12, TBig) T(13, uint32_t) }
  ALLSH
#undef SHAPES
#undef T
}
extern "C" void SIDE(diff_pshape_)(const DScript* s, DRecord* r) {
  R = r;
  r->n = 0;
#define T(i, B, X) case i: DS<OP<B, X, C>, C>::run(*s); break;
#define SHAPES switch (s->shape) { T(0, B0, uint32_t) T(1, B0, TDtor) T(2, B0, T1) T(3, B1, TDtor) T(4, B1, TPriv) T(5, B1, T2) T(6, B2, TOver) T(7, B2, T3) T(8, B2, T4) T(9, B2, TEmp) T(10, BS, Self) T(11, BE, Self) T(12, BV, Self) T(13, B1, TBig) }
  ALLSH
#undef SHAPES
#undef T
}
extern "C" void SIDE(diff_cmp_)(const DScript* s, DRecord* r) {
  R = r;
  r->n = 0;
  start();
  switch (s->shape) {
    case 0: cmp<double, double, false>(*s); break;
    case 1: cmp<int32_t, int64_t, true>(*s); break;
    case 2: cmp<uint8_t, float, true>(*s); break;
    case 3: cmp<Cased, Cased, false>(*s); break;
    default: cmp<uint64_t, uint64_t, true>(*s); break;
  }
}
