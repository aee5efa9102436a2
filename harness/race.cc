// Const operations write to nothing that existed before them (C19).  From
// __vp_freeze on, the executor reports any plain write to memory that existed
// at that point, the ghost state and named exceptions apart.
#include "ind.h"
#include "pol.h"
using namespace vp;
#define NOINL __attribute__((noinline))

static bool gResult;
static uint32_t gSum;

template <class X>
struct Slot {  // objects under test live in storage of their own
  X* p;
  template <class... As>
  explicit Slot(As&&... as) : p(::new (__vp_heap_alloc(sizeof(X), alignof(X))) X(std::forward<As>(as)...)) {}
  ~Slot() { p->~X(); __vp_heap_free(p); }
};

namespace std {
template <> struct hash<VS> { size_t operator()(const VS& v) const { return v.t.v * 31u; } };
}

template <class C>
struct RI {
  using T = VS;
  using A = A_<T, C>;
  using I = xyz::indirect<T, A>;
  static NOINL void op(uint8_t how, const I& a, const I& b, const T& v, uint32_t tag) {
    switch (how) {
      case 0: { I c(a); gSum += c.valueless_after_move() ? 0 : c->t.v; break; }
      case 1: { I c(std::allocator_arg, A(tag, 3), a); gSum += c.valueless_after_move() ? 0 : c->t.v; break; }
      case 2: { I c(std::allocator_arg, A(tag, 3), VP_IN_PLACE, 5u); c = a; gSum += c.valueless_after_move() ? 0 : c->t.v; break; }
      case 3: { I d(std::allocator_arg, A(tag, 3), VP_IN_PLACE, 5u); I c(std::move(d)); d = a; gSum += d.valueless_after_move() ? 0 : d->t.v; break; }
      case 4: gResult = (a == b) | (a != b); break;
      case 5: gResult = (a < b) | (a > b) | (a <= b) | (a >= b); break;
      case 6: gResult = (a == v) | (v != a) | (a < v) | (v >= a); break;
      case 7: gSum += (uint32_t)std::hash<I>{}(a); break;
      case 8: gResult = a.valueless_after_move(); break;
      case 9: gSum += a.get_allocator().tag; break;
      case 10: if (!a.valueless_after_move()) gSum += (*a).t.v + a->t.v; break;
      case 11: if (!a.valueless_after_move()) gSum += (*std::move(a)).t.v; break;
      case 12: { I c(std::move(a)); gSum += c.valueless_after_move(); break; }
      default: { I c(std::allocator_arg, A(tag, 3), VP_IN_PLACE, 5u); c = std::move(a); gSum += c.valueless_after_move(); }
    }
  }
  static NOINL void guarded(uint8_t how, const I& a, const I& b, const T& v, uint32_t tag) {
    __vp_freeze();
    guarded2(how, a, b, v, tag);
  }
  // a frame created after the freeze: the catch clause's own variables are new
  static NOINL void guarded2(uint8_t how, const I& a, const I& b, const T& v, uint32_t tag) {
    try {
      op(how, a, b, v, tag);
    } catch (Fault&) {
      __vp_cover("const operation failed");
    }
  }
  static void run() {
    start();
    {
      uint32_t at = __vp_nondet_u32("a.alloc"), bt = __vp_nondet_u32("b.alloc"), ct = __vp_nondet_u32("c.alloc");
      uint32_t x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y");
      bool av = __vp_nondet_bool("a.valueless"), bv = __vp_nondet_bool("b.valueless");
      uint8_t how = __vp_nondet_u8("operation");
      __vp_assume(how < 14);
      Slot<I> a(std::allocator_arg, A(at, 1), VP_IN_PLACE, x), b(std::allocator_arg, A(bt, 2), VP_IN_PLACE, y);
      if (av) I sink(std::move(*a.p));
      if (bv) I sink(std::move(*b.p));
      T v(y);
      gResult = false;
      gSum = 0;
      arm(1);
      __vp_allow_write(&G, sizeof G);
      __vp_allow_write(&gResult, sizeof gResult);
      __vp_allow_write(&gSum, sizeof gSum);
      guarded(how, *a.p, *b.p, v, ct);
      __vp_unfreeze();
      disarm();
      CHK("C19", a.p->valueless_after_move() == av, "a const operation leaves its operand's state");
      if (!av) CHK("C19", ((**a.p).t.v == x) & !(**a.p).t.moved, "a const operation leaves its operand's value");
      __vp_cover("const operation performed");
    }
    finish();
  }
};
template <class C>
struct RP {
  using A = A_<PB, C>;
  using P = xyz::polymorphic<PB, A>;
  static NOINL void op(uint8_t how, const P& a, uint32_t tag) {
    switch (how) {
      case 0: { P c(a); gSum += c.valueless_after_move() ? 0 : c->leaf(); break; }
      case 1: { P c(std::allocator_arg, A(tag, 3), a); gSum += c.valueless_after_move() ? 0 : c->leaf(); break; }
      case 2: { P c(std::allocator_arg, A(tag, 3), VP_IPT(D1), 5u); c = a; gSum += c.valueless_after_move() ? 0 : c->leaf(); break; }
      case 3: { P d(std::allocator_arg, A(tag, 3), VP_IPT(D2), 5u); P c(std::move(d)); d = a; gSum += d.valueless_after_move() ? 0 : d->leaf(); break; }
      case 4: gResult = a.valueless_after_move(); break;
      case 5: gSum += a.get_allocator().tag; break;
      case 6: if (!a.valueless_after_move()) gSum += (*a).who() + a->leaf(); break;
      case 7: { P c(std::move(a)); gSum += c.valueless_after_move(); break; }
      default: { P c(std::allocator_arg, A(tag, 3), VP_IPT(D1), 5u); c = std::move(a); gSum += c.valueless_after_move(); }
    }
  }
  static NOINL void guarded(uint8_t how, const P& a, uint32_t tag) {
    __vp_freeze();
    guarded2(how, a, tag);
  }
  static NOINL void guarded2(uint8_t how, const P& a, uint32_t tag) {
    try {
      op(how, a, tag);
    } catch (Fault&) {
      __vp_cover("const operation failed");
    }
  }
  static void run() {
    start();
    {
      uint32_t at = __vp_nondet_u32("a.alloc"), ct = __vp_nondet_u32("c.alloc"), x = __vp_nondet_u32("x");
      bool av = __vp_nondet_bool("a.valueless");
      uint8_t how = __vp_nondet_u8("operation"), ty = __vp_nondet_u8("type");
      __vp_assume((how < 9) & (ty < 4));
      char* st = (char*)__vp_heap_alloc(sizeof(P), alignof(P));
      A al(at, 1);
      P* a;
      switch (ty) {
        case 0: a = ::new (st) P(std::allocator_arg, al, VP_IPT(PB), x); break;
        case 1: a = ::new (st) P(std::allocator_arg, al, VP_IPT(D1), x); break;
        case 2: a = ::new (st) P(std::allocator_arg, al, VP_IPT(D2), x); break;
        default: a = ::new (st) P(std::allocator_arg, al, VP_IPT(D3), x); break;
      }
      if (av) P sink(std::move(*a));
      gResult = false;
      gSum = 0;
      arm(1);
      __vp_allow_write(&G, sizeof G);
      __vp_allow_write(&gResult, sizeof gResult);
      __vp_allow_write(&gSum, sizeof gSum);
      guarded(how, *a, ct);
      __vp_unfreeze();
      disarm();
      CHK("C19", a->valueless_after_move() == av, "a const operation leaves its operand's state");
      if (!av) CHK("C19", (((**a).t.v == x) & !(**a).t.moved) && (*a)->who() == ty + 1u, "a const operation leaves its operand's value and type");
      __vp_cover("const operation performed");
      a->~P();
      __vp_heap_free(st);
    }
    finish();
  }
};
#define MACHINE(CF) RI<CF>
#include "configs.h"
#define BODY M::run()
VP_ENTRY(const_ind) { CONFIGS }
#undef BODY
#define BODY RP<CF>::run()
VP_ENTRY(const_pol) { CONFIGS }
#undef BODY

// Distinct objects share nothing: operations on some objects leave every
// other object, and all memory but their own, alone.
template <class C>
struct DI {
  using T = VS;
  using A = A_<T, C>;
  using I = xyz::indirect<T, A>;
  static void open(Slot<I>& s) {
    __vp_allow_write(s.p, sizeof(I));
    if (!s.p->valueless_after_move()) __vp_allow_write(&**s.p, sizeof(T));
  }
  static NOINL void op(uint8_t how, I& a, I& b, uint32_t x) {
    switch (how) {
      case 0: a = b; break;
      case 1: a = std::move(b); break;
      case 2: if (C::CS || C::AE || a.get_allocator() == b.get_allocator()) a.swap(b); break;
      case 3: { I c(std::move(a)); a = std::move(c); break; }
      case 4: { Arg g{x}; a = g; break; }
      case 5: if (!a.valueless_after_move()) a->t.v = x; break;
      default: { I c(std::allocator_arg, A(x, 5), VP_IN_PLACE, x); I d(c); c = a; break; }
    }
  }
  static NOINL void guarded(uint8_t how, I& a, I& b, uint32_t x) {
    __vp_freeze();
    guarded2(how, a, b, x);
  }
  static NOINL void guarded2(uint8_t how, I& a, I& b, uint32_t x) {
    try { op(how, a, b, x); } catch (Fault&) { __vp_cover("operation failed"); }
  }
  static void run() {
    start();
    {
      uint32_t at = __vp_nondet_u32("a.alloc"), bt = __vp_nondet_u32("b.alloc"), x = __vp_nondet_u32("x");
      bool av = __vp_nondet_bool("a.valueless"), bv = __vp_nondet_bool("b.valueless");
      uint8_t how = __vp_nondet_u8("operation");
      __vp_assume(how < 7);
      // the bystander shares allocator and history with the operands
      Slot<I> z(std::allocator_arg, A(at, 9), VP_IN_PLACE, 99u);
      Slot<I> a(*z.p), b(std::allocator_arg, A(bt, 2), VP_IN_PLACE, 2u);
      if (av) I sink(std::move(*a.p));
      if (bv) I sink(std::move(*b.p));
      Slot<I> y(*a.p);
      open(a);
      open(b);
      bool region = C::CM && !C::AE && how == 1 && !(a.p->get_allocator() == b.p->get_allocator());
      arm(region ? 0 : 1);
      __vp_allow_write(&G, sizeof G);
      guarded(how, *a.p, *b.p, x);
      __vp_unfreeze();
      disarm();
      CHK("C19", !z.p->valueless_after_move() && (**z.p).t.v == 99u, "operations on other objects leave an object alone");
      CHK("C19", y.p->valueless_after_move() == av, "operations on the source leave its earlier copy alone");
      __vp_cover("distinct objects");
    }
    finish();
  }
};
template <class C>
struct DP {
  using A = A_<PB, C>;
  using P = xyz::polymorphic<PB, A>;
  static void open(Slot<P>& s) {
    __vp_allow_write(s.p, sizeof(P));
    if (!s.p->valueless_after_move()) __vp_allow_write(&**s.p, sizeof(PB));
    for (uint32_t i = 0; i < G.nblock; i++) {
      const BlockRec& k = G.block[i];
      const void* o = s.p->valueless_after_move() ? nullptr : &**s.p;
      if (k.live && o >= k.p && o < k.p + k.bytes) __vp_allow_write(k.p, k.bytes);
    }
  }
  static NOINL void op(uint8_t how, P& a, P& b, uint32_t x) {
    switch (how) {
      case 0: a = b; break;
      case 1: a = std::move(b); break;
      case 2: if (C::CS || C::AE || a.get_allocator() == b.get_allocator()) a.swap(b); break;
      case 3: { P c(std::move(a)); a = std::move(c); break; }
      case 4: if (!a.valueless_after_move()) a->set(x); break;
      default: { P c(std::allocator_arg, A(x, 5), VP_IPT(D2), x); P d(c); c = a; break; }
    }
  }
  static NOINL void guarded(uint8_t how, P& a, P& b, uint32_t x) {
    __vp_freeze();
    guarded2(how, a, b, x);
  }
  static NOINL void guarded2(uint8_t how, P& a, P& b, uint32_t x) {
    try { op(how, a, b, x); } catch (Fault&) { __vp_cover("operation failed"); }
  }
  static void run() {
    start();
    {
      uint32_t at = __vp_nondet_u32("a.alloc"), bt = __vp_nondet_u32("b.alloc"), x = __vp_nondet_u32("x");
      bool av = __vp_nondet_bool("a.valueless"), bv = __vp_nondet_bool("b.valueless");
      uint8_t how = __vp_nondet_u8("operation");
      __vp_assume(how < 6);
      Slot<P> z(std::allocator_arg, A(at, 9), VP_IPT(D1), 99u);
      Slot<P> a(*z.p), b(std::allocator_arg, A(bt, 2), VP_IPT(D2), 2u);
      if (av) P sink(std::move(*a.p));
      if (bv) P sink(std::move(*b.p));
      Slot<P> y(*a.p);
      open(a);
      open(b);
      bool region = C::CM && !C::AE && how == 1 && !(a.p->get_allocator() == b.p->get_allocator());
      arm(region ? 0 : 1);
      __vp_allow_write(&G, sizeof G);
      guarded(how, *a.p, *b.p, x);
      __vp_unfreeze();
      disarm();
      CHK("C19", !z.p->valueless_after_move() && ((**z.p).t.v == 99u) && (*z.p)->who() == 2, "operations on other objects leave an object alone");
      CHK("C19", y.p->valueless_after_move() == av, "operations on the source leave its earlier copy alone");
      __vp_cover("distinct objects");
    }
    finish();
  }
};
#define BODY DI<CF>::run()
VP_ENTRY(distinct_ind) { CONFIGS }
#undef BODY
#define BODY DP<CF>::run()
VP_ENTRY(distinct_pol) { CONFIGS }
#undef BODY
