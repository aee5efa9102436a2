// Owned types of every trait class (trivial, trivially destructible, nothrow,
// copy-only, not assignable, final, empty, scalar) under allocators with and
// without construct/destroy hooks: what the type's traits allow a shortcut for
// must not change what a user, or the allocator, sees.
#include "shapes.h"
using namespace vp;

template <class K, class C>
struct TM {
  using O = typename K::O;
  using A = typename K::A;
  using CP = std::integral_constant<bool, K::copies>;
  static bool has(const O& o, bool vl, uint8_t ty, uint32_t v) { return vl ? o.valueless_after_move() : (!o.valueless_after_move() && K::is(o, ty, v)); }
  static bool at(const O& o, bool vl, const void* p) {
    if (vl) return true;
    const typename O::const_pointer q = o.operator->();
    O& m = const_cast<O&>(o);
    CHK("C16", (const void*)std::addressof(*o) == (const void*)q && (const void*)std::addressof(*m) == (const void*)q && (const void*)m.operator->() == (const void*)q, "all accessors refer to the same object");
    return (const void*)q == p;
  }
  static bool al(const O& o, uint32_t tag, uint32_t id) { A x(o.get_allocator()); return (C::AE | (x.tag == tag)) & (x.id == id); }
  // indirect requires copy assignment of T for its own
  static void copy(O& a, const O& b, std::true_type) { a = b; }
  static void copy(O&, const O&, std::false_type) {}
  static void balance(uint32_t live) {
    CHK("C04,C05,C03", G.liveBlocks == live, "one block for each owned object");
    if (C::HOOK) CHK("C05", G.cnt[HK][E_HCONSTRUCT] - G.cnt[HK][E_HDESTROY] == live, "owned objects are constructed and destroyed through the allocator");
  }
  static void run() {
    start();
    {
      uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc"), n = __vp_nondet_u32("new.alloc");
      bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
      uint8_t op = __vp_pick("operation", 11);
      __vp_assume(K::copies || (op != 4 && op != 7));
      O a(K::make(0, v, A(s, 1))), b(K::make(1, w, A(t, 2)));
      if (va) { O x(std::move(a)); }
      if (vb) { O x(std::move(b)); }
      const void* pa = va ? nullptr : (const void*)std::addressof(*a);
      const void* pb = vb ? nullptr : (const void*)std::addressof(*b);
      const O &ca = a, &cb = b;
      uint32_t live = !va + !vb;
      balance(live);
      // from here on, counts start at the objects already alive
      uint32_t h = G.cnt[HK][E_HCONSTRUCT], d = G.cnt[HK][E_HDESTROY];
      if (op == 6 && !C::CS && !C::AE) __vp_assume(s == t);
      bool eq = C::AE || s == t;
      arm(op == 5 && C::CM && !C::AE ? 0 : 1);
      G.cnt[HK][E_HCONSTRUCT] = h;
      G.cnt[HK][E_HDESTROY] = d;
      bool failed = false;
      try {
        switch (op) {
          case 0: { O c(ca); disarm(); CHK("C01,C02,C11,C08", has(c, va, 0, v) && (va || !at(c, va, pa)) && al(c, C::SOC ? s + 1000 : s, C::SOC ? 1001 : 1), "copy construction"); balance(live + !va); break; }
          case 1: { O c(std::allocator_arg, A(n, 3), cb); disarm(); CHK("C01,C02,C11,C08", has(c, vb, 1, w) && (vb || !at(c, vb, pb)) && al(c, n, 3), "allocator-extended copy construction"); balance(live + !vb); break; }
          case 2: { O c(std::move(a)); disarm(); CHK("C03,C02,C11,C08", has(c, va, 0, v) && at(c, va, pa) && al(c, s, 1) && a.valueless_after_move(), "move construction"); CHK("C03", G.cnt[0][E_ALLOC] == 0, "a move allocates nothing"); balance(live); break; }
          case 3: {
            bool same = C::AE || n == s;
            O c(std::allocator_arg, A(n, 3), std::move(a));
            disarm();
            CHK("C03,C02,C11,C08", has(c, va, 0, v) && al(c, n, 3) && (va || at(c, va, pa) == same), "allocator-extended move construction");
            if (same) CHK("C03,C11", a.valueless_after_move(), "the source of a transfer is valueless");
            balance(live + (!va && !same));
            break;
          }
          case 4: copy(a, cb, CP()); break;
          case 5: a = std::move(b); break;
          case 6: a.swap(b); break;
          case 7: copy(a, ca, CP()); break;
          case 8: { O c(K::make(0, n, A(s, 3))); disarm(); CHK("C18,C02,C11,C08", has(c, false, 0, n) && al(c, s, 3), "construction in place"); balance(live + 1); break; }
          case 9: { typename K::X x(n); O c(std::allocator_arg, A(s, 3), static_cast<const typename K::X&>(x)); disarm(); CHK("C18,C02,C11,C08", has(c, false, 0, n) && al(c, s, 3), "construction from a value"); balance(live + 1); break; }
          default: { typename K::X x(n); O c(std::allocator_arg, A(s, 3), std::move(x)); disarm(); CHK("C18,C02,C11,C08", has(c, false, 0, n) && al(c, s, 3), "construction from an rvalue"); balance(live + 1); break; }
        }
      } catch (Fault&) {
        failed = true;
        __vp_cover("operation failed");
      }
      disarm();
      if (failed) {
        balance(live);
        CHK("C06,C07,C11", has(a, va, 0, v) && at(a, va, pa) && al(a, s, 1), "a failed operation leaves the target as it was");
        CHK("C06,C07,C11", has(b, vb, 1, w) && at(b, vb, pb) && al(b, t, 2), "a failed operation leaves the source as it was");
      } else if (op == 4) {
        balance(2 * !vb);
        CHK("C01,C02,C11", has(a, vb, 1, w) && has(b, vb, 1, w) && at(b, vb, pb) && (vb || !at(a, vb, pb)), "copy assignment");
        CHK("C08", al(a, C::CA ? t : s, C::CA ? 2 : 1) && al(b, t, 2), "the allocator propagates as its trait says");
        if (K::inplace && eq && !va && !vb) CHK("C15", at(a, vb, pa) && G.cnt[0][E_ALLOC] == 0, "copy assignment reuses the object");
      } else if (op == 5) {
        CHK("C03,C02,C11", has(a, vb, 1, w) && (vb || at(a, vb, pb) == eq), "move assignment");
        CHK("C08", al(a, C::CM ? t : s, C::CM ? 2 : 1) && al(b, t, 2), "the allocator propagates as its trait says");
        if (eq) CHK("C03,C11", b.valueless_after_move() && G.cnt[0][E_ALLOC] == 0, "the source of a transfer is valueless");
        balance(!vb + !b.valueless_after_move());
      } else if (op == 6) {
        CHK("C09,C02,C11", has(a, vb, 1, w) && at(a, vb, pb) && has(b, va, 0, v) && at(b, va, pa), "swap exchanges the objects");
        CHK("C08,C09", al(a, C::CS ? t : s, C::CS ? 2 : 1) && al(b, C::CS ? s : t, C::CS ? 1 : 2), "the allocators propagate as their trait says");
        CHK("C09", G.cnt[0][E_ALLOC] + G.cnt[0][E_DEALLOC] == 0, "swap allocates nothing");
        balance(live);
      } else if (op != 2 && op != 3) {
        balance(live);
        CHK("C01,C10", has(a, va, 0, v) && at(a, va, pa) && al(a, s, 1) && has(b, vb, 1, w) && at(b, vb, pb) && al(b, t, 2), "operands keep their objects");
      }
      if (!failed) __vp_cover("operation done");
    }
    if (C::HOOK) CHK("C05", G.cnt[HK][E_HCONSTRUCT] == G.cnt[HK][E_HDESTROY], "every owned object is destroyed through the allocator");
    finish();
  }
};
// Construction without arguments initialises the object by value: scalars and
// aggregates are zero (their storage is not, and is not even readable before).
struct DAgg { uint32_t a; struct { uint64_t b; uint16_t c; } n; void* p; double d[2]; };
struct DUser { uint32_t a; DUser() : a(7) {} };
struct DBase : DUser { uint32_t b; };                     // implicit constructor, zeroed first
struct DMember { uint32_t a = 5; DAgg g; };
enum class DEnum : uint16_t { zero, one };
static bool fresh(uint32_t x) { return x == 0; }
static bool fresh(const double& x) { uint64_t b; memcpy(&b, &x, 8); return b == 0; }
static bool fresh(void* const& x) { return x == nullptr; }
static bool fresh(DEnum x) { return x == DEnum::zero; }
static bool fresh(const DAgg& x) { return (x.a == 0) & (x.n.b == 0) & (x.n.c == 0) & (x.p == nullptr) & fresh(x.d[0]) & fresh(x.d[1]); }
static bool fresh(const DUser& x) { return x.a == 7; }
static bool fresh(const DBase& x) { return (x.a == 7) & (x.b == 0); }
static bool fresh(const DMember& x) { return x.a == 5 && fresh(x.g); }
template <class T, class A, class O, class IP>
static void defaults(IP ip) {
  start();
  {
    uint32_t s = __vp_nondet_u32("alloc");
    A al(s, 1);
    uint8_t form = __vp_pick("form", 3);
    // without in_place_type it is the base that is built
    switch (std::is_same<T, typename O::value_type>::value ? form : 1 + form % 2) {
      case 0: { O o(std::allocator_arg, al); CHK("C18", fresh(static_cast<const T&>(*o)), "an object constructed without arguments is value-initialised"); CHK("C04,C18", G.cnt[0][E_ALLOC] == 1, "one allocation"); O c(o), m(std::move(o)); CHK("C01,C03", fresh(static_cast<const T&>(*c)) && fresh(static_cast<const T&>(*m)), "also when copied or moved"); break; }
      case 1: { O o(std::allocator_arg, al, ip); CHK("C18", fresh(static_cast<const T&>(*o)), "an object constructed in place without arguments is value-initialised"); break; }
      default: {
        O b(std::allocator_arg, al, ip);
        O a(std::move(b));
        b = a;
        CHK("C01,C18", fresh(static_cast<const T&>(*a)) && fresh(static_cast<const T&>(*b)), "also when copied to a valueless object");
      }
    }
    __vp_cover("constructed without arguments");
  }
  finish();
}
#ifndef VP_POL
template <class T>
static void dind() {
  if (__vp_pick_bool("hooks")) { using C = Cfg<0, 0, 0, 0, 1>; defaults<T, A_<T, C>, xyz::indirect<T, A_<T, C>>>(VP_IN_PLACE); }
  else { using C = Cfg<1, 1, 1, 1, 0>; defaults<T, A_<T, C>, xyz::indirect<T, A_<T, C>>>(VP_IN_PLACE); }
}
VP_ENTRY(defaults_ind) {
  switch (__vp_pick("type", 8)) {
    case 0: dind<uint32_t>(); break;
    case 1: dind<double>(); break;
    case 2: dind<void*>(); break;
    case 3: dind<DEnum>(); break;
    case 4: dind<DAgg>(); break;
    case 5: dind<DUser>(); break;
    case 6: dind<DBase>(); break;
    default: dind<DMember>(); break;
  }
}
template <class T>
static void ind() {
  switch (__vp_pick("config", 6)) {
    case 0: { using C = Cfg<0, 0, 0, 0, 1>; TM<OI<T, C>, C>::run(); break; }
    case 1: { using C = Cfg<1, 1, 1, 0, 1>; TM<OI<T, C>, C>::run(); break; }
    case 2: { using C = Cfg<0, 0, 0, 1, 1, 1>; TM<OI<T, C>, C>::run(); break; }
    case 3: { using C = Cfg<0, 0, 0, 0>; TM<OI<T, C>, C>::run(); break; }
    case 4: { using C = Cfg<1, 0, 1, 0, 0, 1>; TM<OI<T, C>, C>::run(); break; }
    default: { using C = Cfg<0, 1, 0, 1>; TM<OI<T, C>, C>::run(); break; }
  }
}
VP_ENTRY(triv_ind) {
  switch (__vp_pick("type", 14)) {
    case 13: ind<TBig>(); break;
    case 0: ind<TTriv>(); break;
    case 1: ind<TDtor>(); break;
    case 2: ind<TFin>(); break;
    case 3: ind<TConst>(); break;
    case 4: ind<TOver>(); break;
    case 5: ind<TEmp>(); break;
    case 6: ind<TPriv>(); break;
    case 7: ind<T1>(); break;
    case 8: ind<T2>(); break;
    case 9: ind<T3>(); break;
    case 10: ind<T4>(); break;
    case 11: ind<T5>(); break;
    default: ind<uint32_t>(); break;
  }
}
#else
struct DDer : DAgg { uint32_t e; };
struct DDer2 : DUser { DAgg g; };
static bool fresh(const DDer& x) { return fresh(static_cast<const DAgg&>(x)) && x.e == 0; }
static bool fresh(const DDer2& x) { return fresh(static_cast<const DUser&>(x)) && fresh(x.g); }
template <class B, class D>
static void dpol() {
  if (__vp_pick_bool("hooks")) { using C = Cfg<0, 0, 0, 0, 1>; defaults<D, A_<B, C>, xyz::polymorphic<B, A_<B, C>>>(VP_IPT(D)); }
  else { using C = Cfg<1, 1, 1, 1, 0>; defaults<D, A_<B, C>, xyz::polymorphic<B, A_<B, C>>>(VP_IPT(D)); }
}
VP_ENTRY(defaults_pol) {
  switch (__vp_pick("type", 6)) {
    case 0: dpol<DAgg, DAgg>(); break;
    case 1: dpol<DUser, DUser>(); break;
    case 2: dpol<DBase, DBase>(); break;
    case 3: dpol<DMember, DMember>(); break;
    case 4: dpol<DAgg, DDer>(); break;
    default: dpol<DUser, DDer2>(); break;
  }
}
template <class B, class T>
static void pol() {
  switch (__vp_pick("config", 4)) {
    case 0: { using C = Cfg<0, 0, 0, 0, 1>; TM<OP<B, T, C>, C>::run(); break; }
    case 1: { using C = Cfg<1, 1, 1, 0, 1>; TM<OP<B, T, C>, C>::run(); break; }
    case 2: { using C = Cfg<0, 0, 0, 1, 1, 1>; TM<OP<B, T, C>, C>::run(); break; }
    default: { using C = Cfg<1, 0, 1, 0, 0, 1>; TM<OP<B, T, C>, C>::run(); break; }
  }
}
VP_ENTRY(triv_pol) {
  switch (__vp_pick("type", 14)) {
    case 13: pol<B1, TBig>(); break;
    case 9: pol<B2, TEmp>(); break;
    case 10: pol<BS, Self>(); break;
    case 11: pol<BE, Self>(); break;
    case 12: pol<BV, Self>(); break;
    case 0: pol<B0, uint32_t>(); break;
    case 1: pol<B0, TDtor>(); break;
    case 2: pol<B0, T1>(); break;
    case 3: pol<B1, TDtor>(); break;
    case 4: pol<B1, TPriv>(); break;
    case 5: pol<B1, T2>(); break;
    case 6: pol<B2, TOver>(); break;
    case 7: pol<B2, T3>(); break;
    default: pol<B2, T4>(); break;
  }
}
#endif
