// Owned types and allocators the one-step machines do not have: plain and
// trivially copyable types under std::allocator with operator new failing
// anywhere, unusual assignment operators, empty, final and fancy-pointer
// allocators, polymorphic bases of every layout.
#include "ind.h"
#include "pol.h"
using namespace vp;

// ------------------------------------------------ unusual assignment operators
struct VoidAs {  // copy assignment returns nothing
  Tracked<1> t;
  explicit VoidAs(uint32_t v) : t(v) {}
  VoidAs(const VoidAs&) = default;
  void operator=(const VoidAs& o) { t = o.t; }
};
struct NoMoveAs {  // move assignment deleted, copy assignment not
  Tracked<1> t;
  explicit NoMoveAs(uint32_t v) : t(v) {}
  NoMoveAs(const NoMoveAs&) = default;
  NoMoveAs& operator=(const NoMoveAs& o) { t = o.t; return *this; }
  NoMoveAs& operator=(NoMoveAs&&) = delete;
};
struct ProxyAs {  // copy assignment returns something else
  Tracked<1> t;
  explicit ProxyAs(uint32_t v) : t(v) {}
  ProxyAs(const ProxyAs&) = default;
  int operator=(const ProxyAs& o) { t = o.t; return 1; }
};
struct LvAs {  // assignable only when an lvalue
  Tracked<1> t;
  explicit LvAs(uint32_t v) : t(v) {}
  LvAs(const LvAs&) = default;
  LvAs& operator=(const LvAs& o) & { t = o.t; return *this; }
};
struct Comma {  // overloaded comma and logical operators
  Tracked<1> t;
  explicit Comma(uint32_t v) : t(v) {}
  Comma(const Comma&) = default;
  Comma& operator=(const Comma&) = default;
  template <class X> friend int operator,(const Comma&, const X&) { __vp_fail("*:overloaded comma operator was used"); }
  bool operator!() const { __vp_fail("*:overloaded logical operator was used"); }
};
struct NoAs {  // copy constructible, not copy assignable
  const Tracked<1> t;
  explicit NoAs(uint32_t v) : t(v) {}
  NoAs(const NoAs&) = default;
};
template <class T, class C>
static void assign() {
  start();
  {
    using A = A_<T, C>;
    using I = xyz::indirect<T, A>;
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    I a(std::allocator_arg, A(s, 1), VP_IN_PLACE, v), b(std::allocator_arg, A(t, 2), VP_IN_PLACE, w);
    bool vl = __vp_pick_bool("a.valueless");
    if (vl) { I sink(std::move(a)); }
    const void* pa = vl ? nullptr : std::addressof(*a);
    const void* pb = std::addressof(*b);
    bool eq = C::AE || s == t;
    arm(1);
    bool failed = false;
    try {
      a = static_cast<const I&>(b);
    } catch (Fault&) {
      failed = true;
    }
    disarm();
    A al = a.get_allocator();
    CHK("C01", std::addressof(*b) == pb && b->t.v == w && !b->t.moved, "copy assignment leaves the source alone");
    if (failed) {
      CHK("C06", a.valueless_after_move() == vl && (al.tag == s) & (al.id == 1), "a failed assignment changes neither state nor allocator");
      if (!vl) CHK("C06", std::addressof(*a) == pa && a->t.v == v, "a failed assignment keeps the owned object");
    } else {
      CHK("C01,C11", !a.valueless_after_move() && a->t.v == w && std::addressof(*a) != pb, "copy assignment gives an own object with the value");
      CHK("C08", al.id == (C::CA ? 2u : 1u), "the allocator propagates as its trait says");
      if (eq && !vl && std::is_copy_assignable<T>::value) {
        CHK("C15", std::addressof(*a) == pa && G.cnt[1][E_CASSIGN] == 1 && G.cnt[0][E_ALLOC] == 0 && G.cnt[1][E_CCTOR] == 0, "with equal allocators the existing object is copy-assigned, once, in place");
        __vp_cover("assigned in place");
      } else {
        CHK("C04", G.cnt[0][E_ALLOC] == 1 && G.cnt[1][E_CCTOR] == 1, "otherwise one new object is copied");
        __vp_cover("copied");
      }
    }
  }
  finish();
}
VP_ENTRY(assign_odd) {
  switch (__vp_pick("type", 7)) {
    case 5: assign<NoAs, Cfg<0, 0, 0, 0>>(); break;
    case 6: assign<NoAs, Cfg<1, 0, 0, 1>>(); break;
    case 0: assign<VoidAs, Cfg<1, 0, 0, 0>>(); break;
    case 1: assign<NoMoveAs, Cfg<0, 0, 0, 0>>(); break;
    case 2: assign<ProxyAs, Cfg<0, 0, 0, 1>>(); break;
    case 3: assign<LvAs, Cfg<0, 0, 0, 0>>(); break;
    default: assign<Comma, Cfg<1, 0, 0, 1>>(); break;
  }
}

// ------------------------------------------------ plain types, std::allocator
struct Big {
  uint32_t a[9];
  char c;
};
static Big mk(Big*, uint32_t v) {
  Big b;
  for (int i = 0; i < 9; i++) b.a[i] = v + i;
  b.c = (char)v;
  return b;
}
static bool is(const Big& b, uint32_t v) {
  bool r = b.c == (char)v;
  for (int i = 0; i < 9; i++) r = r & (b.a[i] == v + i);
  return r;
}
static uint8_t mk(uint8_t*, uint32_t v) { return (uint8_t)v; }
static bool is(uint8_t b, uint32_t v) { return b == (uint8_t)v; }
static uint64_t mk(uint64_t*, uint32_t v) { return v * 0x100000001ull; }
static bool is(uint64_t b, uint32_t v) { return b == v * 0x100000001ull; }
static char pool[16];
static char* mk(char**, uint32_t v) { return pool + (v & 15); }
static bool is(char* b, uint32_t v) { return b == pool + (v & 15); }
struct alignas(32) Over { uint32_t a; char pad[40]; };
static Over mk(Over*, uint32_t v) {
  Over o;
  memset(o.pad, (int)(v & 0xff), sizeof o.pad);
  o.a = v;
  return o;
}
static bool is(const Over& o, uint32_t v) { return (o.a == v) & (o.pad[39] == (char)v) & (o.pad[0] == (char)v); }
struct Empty {};
static Empty mk(Empty*, uint32_t) { return Empty{}; }
static bool is(const Empty&, uint32_t) { return true; }
// holds memory of its own
struct Own {
  uint32_t* p;
  explicit Own(uint32_t v) : p(new uint32_t(v)) {}
  Own(const Own& o) : p(new uint32_t(*o.p)) {}
  Own& operator=(const Own& o) {
    uint32_t* n = new uint32_t(*o.p);
    delete p;
    p = n;
    return *this;
  }
  ~Own() { delete p; }
};
static Own mk(Own*, uint32_t v) { return Own(v); }
static bool is(const Own& o, uint32_t v) { return *o.p == v; }

template <class T>
struct Plain {
  using O = xyz::indirect<T>;
  static bool has(const O& o, bool vl, uint32_t v) { return vl ? o.valueless_after_move() : (!o.valueless_after_move() && is(*o, v)); }
  static void run() {
    {
      uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value");
      O a(VP_IN_PLACE, mk((T*)nullptr, v)), b(VP_IN_PLACE, mk((T*)nullptr, w));
      CHK("C05", (uintptr_t)std::addressof(*a) % alignof(T) == 0, "owned object is aligned");
      bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
      if (va) { O s(std::move(a)); }
      if (vb) { O s(std::move(b)); }
      const T* pa = va ? nullptr : std::addressof(*a);
      const T* pb = vb ? nullptr : std::addressof(*b);
      uint8_t op = __vp_pick("operation", 8);
      bool failed = false;
      __vp_new_faults(true);
      try {
        switch (op) {
          case 0: {
            O c(a);
            CHK("C01,C11", has(c, va, v) && (va || std::addressof(*c) != pa), "a copy is an own object with the value");
            break;
          }
          case 1: {
            O c(std::move(a));
            CHK("C03,C11", a.valueless_after_move() && has(c, va, v) && (va || std::addressof(*c) == pa), "a move hands over the object");
            a = std::move(c);
            CHK("C03,C11", c.valueless_after_move() && has(a, va, v) && (va || std::addressof(*a) == pa), "a move assignment hands over the object");
            break;
          }
          case 2: a = b; break;
          case 3: a = std::move(b); break;
          case 4: a.swap(b); break;
          case 5: {
            O c(std::allocator_arg, std::allocator<T>(), b);
            CHK("C01,C11", has(c, vb, w) && (vb || std::addressof(*c) != pb), "an allocator-extended copy is an own object with the value");
            break;
          }
          case 6: a = mk((T*)nullptr, w); break;
          default: a = static_cast<const O&>(a); break;
        }
      } catch (std::bad_alloc&) {
        failed = true;
        __vp_cover("allocation failed");
      }
      __vp_new_faults(false);
      if (failed) {
        CHK("C06,C07", has(a, va, v) && (va || std::addressof(*a) == pa), "a failed operation leaves the target as it was");
        CHK("C06,C07", has(b, vb, w) && (vb || std::addressof(*b) == pb), "a failed operation leaves the source as it was");
      } else
        switch (op) {
          case 0: case 1: case 5: case 7:
            CHK("C01,C10,C03", has(a, va, v) && (va || std::addressof(*a) == pa), "operands keep their objects");
            CHK("C01,C10", has(b, vb, w) && (vb || std::addressof(*b) == pb), "operands keep their objects");
            break;
          case 2:
            CHK("C01,C11", has(a, vb, w), "copy assignment gives the value");
            CHK("C01", has(b, vb, w) && (vb || (std::addressof(*b) == pb && std::addressof(*a) != pb)), "and an own object, leaving the source alone");
            if (!va && !vb) CHK("C15", std::addressof(*a) == pa, "copy assignment reuses the object");
            break;
          case 3:
            CHK("C03,C11", has(a, vb, w) && b.valueless_after_move() && (vb || std::addressof(*a) == pb), "move assignment hands over the object");
            break;
          case 4:
            CHK("C09,C11", has(a, vb, w) && (vb || std::addressof(*a) == pb), "swap exchanges the objects");
            CHK("C09,C11", has(b, va, v) && (va || std::addressof(*b) == pa), "swap exchanges the objects");
            break;
          default:
            CHK("C15,C11", has(a, false, w) && (va || std::addressof(*a) == pa), "assigning a value reuses the object");
        }
      __vp_cover("operation done");
    }
    __vp_leak_check("C04,C05,C06,C07:no memory leaked");
  }
};
VP_ENTRY(plain_ind) {
  switch (__vp_pick("type", 7)) {
    case 0: Plain<Big>::run(); break;
    case 1: Plain<uint8_t>::run(); break;
    case 2: Plain<uint64_t>::run(); break;
    case 3: Plain<char*>::run(); break;
    case 4:
#if VP_STD == 20  // std::allocator aligns from C++17 on
      Plain<Over>::run();
#endif
      break;
    case 5: Plain<Empty>::run(); break;
    default: Plain<Own>::run(); break;
  }
}

// polymorphic with std::allocator over plain hierarchies
struct PlB {
  uint32_t x;
  explicit PlB(uint32_t v) : x(v) {}
  virtual uint32_t who() const { return 0; }
  virtual ~PlB() {}
};
struct PlD : PlB {
  Own o;
  explicit PlD(uint32_t v) : PlB(v), o(v + 1) {}
  VP_AMP(PlD)
  uint32_t who() const override { return *o.p - x; }
};
struct Aside { uint64_t q; virtual uint32_t side() const { return (uint32_t)q; } virtual ~Aside() {} };
struct PlE : Aside, PlB {
  uint32_t y[6];
  explicit PlE(uint32_t v) : PlB(v) { q = v; y[5] = v + 2; }
  uint32_t who() const override { return y[5] - x; }
};
struct PlV : virtual PlB {
  Own o;
  explicit PlV(uint32_t v) : PlB(v), o(v + 3) {}
  uint32_t who() const override { return *o.p - x; }
};
struct PlS : PlB {  // adds nothing but an override
  using PlB::PlB;
  uint32_t who() const override { return 4; }
};
struct HVirt {
  using B = PlB;
  using O = xyz::polymorphic<B>;
  static bool is(const B& b, uint32_t ty, uint32_t v) { return b.x == v && b.who() == ty; }
  static O mk(uint32_t ty, uint32_t v) {
    if (ty == 0) return O(VP_IPT(PlB), v);
    if (ty == 1) return O(VP_IPT(PlD), v);
    if (ty == 2) return O(VP_IPT(PlE), v);
    if (ty == 3) return O(VP_IPT(PlV), v);
    return O(VP_IPT(PlS), v);
  }
};
// Bases T whose properties say nothing about the derived types: trivial,
// empty, abstract, not assignable, not destructible from outside, final.
struct TrB { uint32_t x; };
struct EmB {};
struct AbB {
  virtual uint32_t id() const = 0;
  AbB() {}
  AbB(const AbB&) {}
  AbB& operator=(const AbB&) = delete;
 protected:
  ~AbB() = default;
};
struct NoB {
  const uint32_t x;
  explicit NoB(uint32_t v) : x(v) {}
  NoB(const NoB&) = default;
  virtual ~NoB() noexcept {}
};
// the same derived class on each: a trivial one, one owning memory, a large one
template <class B>
struct Dv0 : B {
  uint32_t k;
  uint32_t v;
  template <class... As> explicit Dv0(uint32_t w, As... as) : B{as...}, k(0), v(w) {}
  virtual uint32_t id() const { return v; }
};
template <class B>
struct Dv1 : B {
  uint32_t k;
  Own o;
  template <class... As> explicit Dv1(uint32_t w, As... as) : B{as...}, k(1), o(w) {}
  VP_AMP(Dv1)
  virtual uint32_t id() const { return *o.p; }
};
template <class B>
struct Dv2 final : B {
  uint32_t k;
  uint32_t pad[20];
  Own o;
  template <class... As> explicit Dv2(uint32_t w, As... as) : B{as...}, k(2), o(w + 1) { pad[19] = w; }
  virtual uint32_t id() const { return *o.p - 1 == pad[19] ? pad[19] : ~pad[19]; }
};
// the base at an offset, behind a polymorphic class
template <class B>
struct Dv3 : Aside, B {
  uint32_t k;
  Own o;
  template <class... As> explicit Dv3(uint32_t w, As... as) : B{as...}, k(3), o(w) { q = ~0ull; }
  virtual uint32_t id() const { return *o.p; }
};
template <class B_, bool ARG>
struct HOdd {
  using B = B_;
  using O = xyz::polymorphic<B>;
  static bool is(const B& b, uint32_t ty, uint32_t v) {
    // k tells which type was built there
    if (ty == 0) { auto& d = static_cast<const Dv0<B>&>(b); return d.k == 0 && d.v == v; }
    if (ty == 1) { auto& d = static_cast<const Dv1<B>&>(b); return d.k == 1 && d.id() == v; }
    if (ty == 3) { auto& d = static_cast<const Dv3<B>&>(b); return d.k == 3 && d.q == ~0ull && d.id() == v; }
    auto& d = static_cast<const Dv2<B>&>(b);
    return d.k == 2 && d.id() == v;
  }
  template <class D> static O mk1(uint32_t v, std::true_type) { return O(VP_IPT(D), v, v); }
  template <class D> static O mk1(uint32_t v, std::false_type) { return O(VP_IPT(D), v); }
  static O mk(uint32_t ty, uint32_t v) {
    std::integral_constant<bool, ARG> arg;
    if (ty == 0) return mk1<Dv0<B>>(v, arg);
    if (ty == 1) return mk1<Dv1<B>>(v, arg);
    if (ty == 3) return mk1<Dv3<B>>(v, arg);
    return mk1<Dv2<B>>(v, arg);
  }
};
// A pure interface (one word, abstract) in every position.
struct If {
  virtual uint32_t kind() const = 0;
  virtual uint32_t id() const = 0;
  virtual const If* self() const = 0;
  virtual ~If() {}
};
struct Mixin { uint32_t m[3]; };
#define IFB(K)                                          \
  uint32_t kind() const override { return K; }          \
  const If* self() const override { return this; }
struct If0 : If {  // nothing but the value
  uint32_t v;
  explicit If0(uint32_t w) : v(w) {}
  IFB(0)
  uint32_t id() const override { return v; }
};
struct If1 : Aside, If {  // second base
  Own o;
  explicit If1(uint32_t w) : o(w) { q = 7; }
  IFB(1)
  uint32_t id() const override { return q == 7 ? *o.p : ~*o.p; }
};
struct If2 : Mixin, virtual If {  // virtual base, after data
  Own o;
  explicit If2(uint32_t w) : o(w) { m[2] = w + 1; }
  VP_AMP(If2)
  IFB(2)
  uint32_t id() const override { return m[2] == *o.p + 1 ? *o.p : ~*o.p; }
};
struct If3a : virtual If { uint32_t kind() const override { return 3; } };
struct If3b : virtual If { uint64_t r; };
struct If3 final : If3b, If3a {  // diamond
  Own o;
  explicit If3(uint32_t w) : o(w) { r = w; }
  IFB(3)
  uint32_t id() const override { return r == *o.p ? *o.p : ~*o.p; }
};
struct alignas(16) If4 : Aside, Mixin, If1 {  // deep, over-aligned, ambiguous sibling
  uint32_t z[9];
  explicit If4(uint32_t w) : If1(w) { z[8] = w; Mixin::m[0] = 5; }
  IFB(4)
  uint32_t id() const override { return z[8] == *o.p && Mixin::m[0] == 5 ? z[8] : ~z[8]; }
};
struct HIf {
  using B = If;
  using O = xyz::polymorphic<If>;
  static bool is(const If& b, uint32_t ty, uint32_t v) { return b.kind() == ty && b.id() == v && b.self() == &b; }
  static O mk(uint32_t ty, uint32_t v) {
    if (ty == 0) return O(VP_IPT(If0), v);
    if (ty == 1) return O(VP_IPT(If1), v);
    if (ty == 2) return O(VP_IPT(If2), v);
    if (ty == 3) return O(VP_IPT(If3), v);
    return O(VP_IPT(If4), v);
  }
};
template <class H>
static bool phas(const typename H::O& o, bool vl, uint32_t ty, uint32_t v) { return vl ? o.valueless_after_move() : (!o.valueless_after_move() && H::is(*o, ty, v)); }
template <class H>
static void plain_pol(uint8_t ntypes) {
  using PO = typename H::O;
  {
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value");
    uint8_t ta = __vp_pick("a.type", ntypes), tb = __vp_pick("b.type", ntypes);
    PO a(H::mk(ta, v)), b(H::mk(tb, w));
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    if (va) { PO s(std::move(a)); }
    if (vb) { PO s(std::move(b)); }
    const void* pa = va ? nullptr : &*a;
    const void* pb = vb ? nullptr : &*b;
    uint8_t op = __vp_pick("operation", 7);
    bool failed = false;
    __vp_new_faults(true);
    try {
      switch (op) {
        case 0: {
          PO c(a);
          CHK("C01,C02,C11", phas<H>(c, va, ta, v) && (va || &*c != pa), "a copy is an own object with type and value");
          break;
        }
        case 1: {
          PO c(std::move(a));
          CHK("C03,C02,C11", a.valueless_after_move() && phas<H>(c, va, ta, v) && (va || &*c == pa), "a move hands over the object");
          a = std::move(c);
          CHK("C03,C02,C11", c.valueless_after_move(), "a move assignment hands over the object");
          break;
        }
        case 2: a = b; break;
        case 3: a = std::move(b); break;
        case 4: a.swap(b); break;
        case 5: {
          PO c(std::allocator_arg, std::allocator<typename H::B>(), b);
          CHK("C01,C02,C11", phas<H>(c, vb, tb, w) && (vb || &*c != pb), "an allocator-extended copy is an own object with type and value");
          break;
        }
        default: a = static_cast<const PO&>(a); break;
      }
    } catch (std::bad_alloc&) {
      failed = true;
      __vp_cover("allocation failed");
    }
    __vp_new_faults(false);
    if (failed) {
      CHK("C06,C07", phas<H>(a, va, ta, v) && (va || &*a == pa), "a failed operation leaves the target as it was");
      CHK("C06,C07", phas<H>(b, vb, tb, w) && (vb || &*b == pb), "a failed operation leaves the source as it was");
    } else
      switch (op) {
        case 0: case 1: case 5: case 6:
          CHK("C01,C10,C03", phas<H>(a, va, ta, v) && (va || &*a == pa), "operands keep their objects");
          CHK("C01,C10", phas<H>(b, vb, tb, w) && (vb || &*b == pb), "operands keep their objects");
          break;
        case 2:
          CHK("C01,C02,C11", phas<H>(a, vb, tb, w), "copy assignment gives type and value");
          CHK("C01", phas<H>(b, vb, tb, w) && (vb || (&*b == pb && &*a != pb)), "and an own object, leaving the source alone");
          break;
        case 3:
          CHK("C03,C02,C11", phas<H>(a, vb, tb, w) && b.valueless_after_move() && (vb || &*a == pb), "move assignment hands over the object");
          break;
        default:
          CHK("C09,C02,C11", phas<H>(a, vb, tb, w) && (vb || &*a == pb), "swap exchanges the objects");
          CHK("C09,C02,C11", phas<H>(b, va, ta, v) && (va || &*b == pa), "swap exchanges the objects");
      }
    __vp_cover("operation done");
  }
  __vp_leak_check("C02,C04,C05,C06,C07:no memory leaked");
}
VP_ENTRY(plain_pol) { plain_pol<HVirt>(5); }
VP_ENTRY(plain_pol_bases) {
  switch (__vp_pick("base", 4)) {
    case 0: plain_pol<HOdd<TrB, true>>(4); break;
    case 1: plain_pol<HOdd<EmB, false>>(4); break;
    case 2: plain_pol<HOdd<AbB, false>>(3); break;
    default: plain_pol<HOdd<NoB, true>>(4); break;
  }
}
VP_ENTRY(plain_pol_iface) { plain_pol<HIf>(5); }
// -> and * reach the base subobject, whatever its position
template <class H>
static void reach(uint8_t ntypes) {
  using PO = typename H::O;
  {
    uint32_t v = __vp_nondet_u32("value");
    uint8_t t = __vp_pick("type", ntypes);
    PO a(H::mk(t, v));
    const PO& ca = a;
    const void* at = &*a;
    CHK("C16,C02", H::is(*a, t, v) && H::is(*ca, t, v) && H::is(*a.operator->(), t, v) && H::is(*ca.operator->(), t, v), "every accessor reaches the owned object's base");
    CHK("C16", &*a == at && &*ca == at && a.operator->() == at && ca.operator->() == at, "every accessor refers to the same object");
    PO b(ca), c(std::move(a));
    CHK("C16,C02", &*c == at && H::is(*c, t, v) && &*b != at && H::is(*b, t, v) && H::is(*b.operator->(), t, v), "also after copy and move");
    swap(b, c);
    CHK("C16,C02", &*b == at && H::is(*b, t, v) && H::is(*c, t, v) && H::is(*c.operator->(), t, v), "also after swap");
    __vp_cover("reached");
  }
  __vp_leak_check("C02,C04:no memory leaked");
}
VP_ENTRY(acc_bases) {
  switch (__vp_pick("base", 6)) {
    case 0: reach<HOdd<TrB, true>>(4); break;
    case 1: reach<HOdd<EmB, false>>(4); break;
    case 2: reach<HOdd<AbB, false>>(3); break;
    case 3: reach<HIf>(5); break;
    case 4: reach<HVirt>(5); break;
    default: reach<HOdd<NoB, true>>(4); break;
  }
}

// ------------------------------------------------ layouts of allocators
template <class T>
struct FinalEmpty final : EmptyAlloc<T> {
  FinalEmpty() noexcept {}
  FinalEmpty(uint32_t, uint32_t) noexcept {}
  template <class U>
  FinalEmpty(const FinalEmpty<U>&) noexcept {}
  template <class U>
  struct rebind { using other = FinalEmpty<U>; };
};
template <class T>
struct FinalTag final : AllocCore<FinalTag<T>, T, Cfg<1, 0, 1, 0>> {
  using Base = AllocCore<FinalTag<T>, T, Cfg<1, 0, 1, 0>>;
  FinalTag(uint32_t t, uint32_t i) noexcept : Base(t, i) {}
  template <class U>
  FinalTag(const FinalTag<U>& o) noexcept : Base(o.tag, o.id) {}
  template <class U>
  struct rebind { using other = FinalTag<U>; };
};
// not default constructible, not assignable from rvalues, heavy
template <class T>
struct Heavy : AllocCore<Heavy<T>, T, Cfg<1, 1, 1, 0>> {
  using Base = AllocCore<Heavy<T>, T, Cfg<1, 1, 1, 0>>;
  uint32_t* shared;
  Heavy(uint32_t t, uint32_t i) noexcept : Base(t, i), shared(new uint32_t(1)) {}
  Heavy(const Heavy& o) noexcept : Base(o), shared(o.shared) { ++*shared; }
  template <class U>
  Heavy(const Heavy<U>& o) noexcept : Base(o.tag, o.id), shared(o.shared) { ++*shared; }
  Heavy& operator=(const Heavy& o) noexcept {
    ++*o.shared;
    drop();
    this->tag = o.tag;
    this->id = o.id;
    shared = o.shared;
    return *this;
  }
  ~Heavy() { drop(); }
  void drop() {
    if (--*shared == 0) delete shared;
  }
  Heavy select_on_container_copy_construction() const { return *this; }
  template <class U>
  struct rebind { using other = Heavy<U>; };
};
static uint32_t idOf(const EmptyAlloc<VS>&) { return 0; }
static uint32_t idOf(const EmptyAlloc<PB>&) { return 0; }
template <class A> static auto idOf(const A& a) -> decltype(a.id) { return a.id; }

template <class O, class A>
static void layout(bool AE, bool CA, bool CM, bool CS, O (*make)(uint32_t, const A&)) {
  start();
  {
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    O a(make(v, A(s, 1))), b(make(w, A(t, 2)));
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    if (va) { O x(std::move(a)); }
    if (vb) { O x(std::move(b)); }
    const void* pb = vb ? nullptr : &*b;
    uint8_t op = __vp_pick("operation", 4);
    if (op == 3 && !CS && !AE) __vp_assume(s == t);
    arm(op == 1 && CM ? 0 : 1);
    bool failed = false;
    try {
      if (op == 0) a = static_cast<const O&>(b);
      else if (op == 1) a = std::move(b);
      else if (op == 2) { O c(b); CHK("C01,C08", c.valueless_after_move() == vb && (vb || c->t.v == w) && idOf(c.get_allocator()) == (AE ? 0u : 2u), "copy"); }
      else a.swap(b);
    } catch (Fault&) {
      failed = true;
      CHK("C06,C07", a.valueless_after_move() == va && (va || a->t.v == v) && idOf(a.get_allocator()) == (AE ? 0u : 1u), "a failed operation changes nothing");
      CHK("C06,C07", b.valueless_after_move() == vb && (vb || b->t.v == w), "a failed operation changes nothing");
    }
    disarm();
    if (!failed) {
      bool mv = op == 0 ? CA : op == 1 ? CM : op == 3 ? CS : false;
      CHK("C08", AE || idOf(a.get_allocator()) == (mv ? 2u : 1u), "the allocator propagates as its traits say");
      CHK("C08", AE || idOf(b.get_allocator()) == (mv && op == 3 ? 1u : 2u), "the allocator propagates as its traits say");
      if (op == 0 || op == 1) CHK("C01,C03,C11", a.valueless_after_move() == vb && (vb || a->t.v == w), "assignment gives the value");
      if (op == 1 && !vb) CHK("C03", (&*a == pb) == (AE || s == t), "transferred exactly when the allocators are equal");
      if (op == 3) CHK("C09", a.valueless_after_move() == vb && (vb || &*a == pb) && b.valueless_after_move() == va && (va || b->t.v == v), "swap exchanges");
      __vp_cover("operation done");
    }
  }
  finish();
}
template <class A>
static xyz::indirect<VS, A> mkI(uint32_t v, const A& a) { return xyz::indirect<VS, A>(std::allocator_arg, a, VP_IN_PLACE, v); }
template <class A>
static xyz::polymorphic<PB, A> mkP(uint32_t v, const A& a) { return xyz::polymorphic<PB, A>(std::allocator_arg, a, VP_IPT(D1), v); }
VP_ENTRY(layout_ind) {
  switch (__vp_pick("allocator", 4)) {
    case 0: layout<xyz::indirect<VS, EmptyAlloc<VS>>, EmptyAlloc<VS>>(true, false, false, false, mkI); break;
    case 1: layout<xyz::indirect<VS, FinalEmpty<VS>>, FinalEmpty<VS>>(true, false, false, false, mkI); break;
    case 2: layout<xyz::indirect<VS, FinalTag<VS>>, FinalTag<VS>>(false, true, false, true, mkI); break;
    default: layout<xyz::indirect<VS, Heavy<VS>>, Heavy<VS>>(false, true, true, true, mkI); break;
  }
}
VP_ENTRY(layout_pol) {
  switch (__vp_pick("allocator", 4)) {
    case 0: layout<xyz::polymorphic<PB, EmptyAlloc<PB>>, EmptyAlloc<PB>>(true, false, false, false, mkP); break;
    case 1: layout<xyz::polymorphic<PB, FinalEmpty<PB>>, FinalEmpty<PB>>(true, false, false, false, mkP); break;
    case 2: layout<xyz::polymorphic<PB, FinalTag<PB>>, FinalTag<PB>>(false, true, false, true, mkP); break;
    default: layout<xyz::polymorphic<PB, Heavy<PB>>, Heavy<PB>>(false, true, true, true, mkP); break;
  }
}

// ------------------------------------------------ fancy pointers
template <class T>
struct Fancy {
  using element_type = T;
  using value_type = typename std::remove_cv<T>::type;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T&;
  using iterator_category = std::random_access_iterator_tag;
  T* raw = nullptr;
  uint32_t check = 0;
  Fancy() = default;
  Fancy(std::nullptr_t) {}
  Fancy(T* p, uint32_t c) : raw(p), check(c) {}
  template <class U, typename std::enable_if<std::is_convertible<U*, T*>::value, int>::type = 0>
  Fancy(const Fancy<U>& o) : raw(o.raw), check(o.check) {}
  T& operator*() const { return *raw; }
  T* operator->() const { return raw; }
  explicit operator bool() const { return raw != nullptr; }
  static Fancy pointer_to(T& t) { return Fancy(std::addressof(t), 0); }
  friend bool operator==(const Fancy& a, const Fancy& b) { return a.raw == b.raw; }
  friend bool operator==(const Fancy& a, std::nullptr_t) { return a.raw == nullptr; }
#if VP_STD != 20
  friend bool operator!=(const Fancy& a, const Fancy& b) { return a.raw != b.raw; }
  friend bool operator!=(const Fancy& a, std::nullptr_t) { return a.raw != nullptr; }
  friend bool operator==(std::nullptr_t, const Fancy& a) { return a.raw == nullptr; }
  friend bool operator!=(std::nullptr_t, const Fancy& a) { return a.raw != nullptr; }
#endif
};
template <class T, class C>
struct FancyAlloc {
  using value_type = T;
  using pointer = Fancy<T>;
  using const_pointer = Fancy<const T>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::CM>;
  using propagate_on_container_swap = std::integral_constant<bool, C::CS>;
  using is_always_equal = std::integral_constant<bool, C::AE>;
  uint32_t tag, id;
  FancyAlloc(uint32_t t, uint32_t i) : tag(t), id(i) {}
  template <class U> FancyAlloc(const FancyAlloc<U, C>& o) : tag(o.tag), id(o.id) {}
  template <class U> struct rebind { using other = FancyAlloc<U, C>; };
  pointer allocate(size_t n) { return pointer((T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, tag), tag * 3 + 1); }
  void deallocate(pointer p, size_t n) {
    CHK("C05", C::AE || p.check == tag * 3 + 1, "deallocate receives the very pointer allocate returned");
    block_free((char*)p.raw, n, &Tid<T>::c, tag, C::AE);
  }
  FancyAlloc select_on_container_copy_construction() const { return *this; }
  friend bool operator==(const FancyAlloc& a, const FancyAlloc& b) { return C::AE || a.tag == b.tag; }
#if VP_STD != 20
  friend bool operator!=(const FancyAlloc& a, const FancyAlloc& b) { return !(a == b); }
#endif
};
template <class C> using FI = xyz::indirect<VS, FancyAlloc<VS, C>>;
template <class C>
static FI<C> mkF(uint32_t v, const FancyAlloc<VS, C>& a) { return FI<C>(std::allocator_arg, a, VP_IN_PLACE, v); }
template <class C>
static void fancy() {
  using O = FI<C>;
  using A = FancyAlloc<VS, C>;
  start();
  {
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    O a(mkF<C>(v, A(s, 1))), b(mkF<C>(w, A(t, 2)));
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    if (va) { O x(std::move(a)); }
    if (vb) { O x(std::move(b)); }
    bool eq = C::AE || s == t;
    const VS* pa = va ? nullptr : std::addressof(*a);
    const VS* pb = vb ? nullptr : std::addressof(*b);
    uint8_t op = __vp_pick("operation", 6);
    if (op == 3 && !C::CS) __vp_assume(eq);
    arm(op == 1 && C::CM ? 0 : 1);
    bool failed = false;
    try {
      switch (op) {
        case 0: a = static_cast<const O&>(b); break;
        case 1: a = std::move(b); break;
        case 2: { O c(b); CHK("C01", c.valueless_after_move() == vb && (vb || (c->t.v == w && std::addressof(*c) != pb)), "copy"); break; }
        case 3: a.swap(b); break;
        case 4: a = Arg{w}; break;
        default: { O c(std::allocator_arg, A(t, 5), std::move(a)); CHK("C03,C08", c.get_allocator().id == 5 && c.valueless_after_move() == va && (va || (c->t.v == v && (std::addressof(*c) == pa) == (C::AE || s == t))), "allocator-extended move"); break; }
      }
    } catch (Fault&) {
      failed = true;
      CHK("C06,C07", a.valueless_after_move() == va && (va || (a->t.v == v && std::addressof(*a) == pa)) && a.get_allocator().id == 1, "a failed operation changes nothing");
      CHK("C06,C07", b.valueless_after_move() == vb && (vb || (b->t.v == w && std::addressof(*b) == pb)), "a failed operation changes nothing");
    }
    disarm();
    if (!failed) {
      bool mv = op == 0 ? C::CA : op == 1 ? C::CM : op == 3 ? C::CS : false;
      CHK("C08", (a.get_allocator().id == (mv ? 2u : 1u)) & (b.get_allocator().id == (mv && op == 3 ? 1u : 2u)), "the allocator propagates as its traits say");
      if (op == 0 || op == 1) CHK("C01,C03,C11", a.valueless_after_move() == vb && (vb || a->t.v == w), "assignment gives the value");
      if (op == 0 && !va && !vb) CHK("C15", (std::addressof(*a) == pa) == eq, "assigned in place with equal allocators");
      if (op == 1 && !vb) CHK("C03", (std::addressof(*a) == pb) == eq, "transferred exactly when the allocators are equal");
      if (op == 3) CHK("C09", a.valueless_after_move() == vb && (vb || std::addressof(*a) == pb) && b.valueless_after_move() == va && (va || std::addressof(*b) == pa), "swap exchanges");
      if (op == 4) CHK("C15", !a.valueless_after_move() && a->t.v == w && (va || std::addressof(*a) == pa), "value assignment reuses the object");
      if (!a.valueless_after_move()) {
        const O& ca = a;
        CHK("C16", a.operator->().raw == std::addressof(*a) && ca.operator->().raw == std::addressof(*ca), "-> gives a pointer to the owned object");
        CHK("C16", (std::is_same<decltype(a.operator->()), Fancy<VS>>::value && std::is_same<decltype(ca.operator->()), Fancy<const VS>>::value), "-> gives the allocator's pointer type, const for const");
      }
      __vp_cover("operation done");
    }
  }
  finish();
}
VP_ENTRY(fancy_ind) {
  switch (__vp_pick("config", 4)) {
    case 0: fancy<Cfg<0, 0, 0, 0>>(); break;
    case 1: fancy<Cfg<1, 1, 1, 0>>(); break;
    case 2: fancy<Cfg<0, 1, 0, 0>>(); break;
    default: fancy<Cfg<1, 0, 1, 1>>(); break;
  }
}
