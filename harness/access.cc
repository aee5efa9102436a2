// Accessors: one object, one address, const and value category propagate (C16).
#include "ind.h"
#include "pol.h"
using namespace vp;

struct Amp {  // unhelpful address-of
  static constexpr int kind = 1;
  Tracked<1> t;
  explicit Amp(uint32_t v) : t(v) {}
  Amp(const Amp&) = default;
  Amp(Amp&&) = default;
  Amp& operator=(const Amp&) = default;
  Amp& operator=(Amp&&) = default;
  VP_AMP(Amp)
};
template <> struct vp::KindOf<Amp> { static constexpr int value = 1; };
// exactly one word, and larger than a page fraction
struct Tiny {
  static constexpr int kind = 2;
  Tracked<2> t;
  explicit Tiny(uint32_t v) : t(v) {}
};
template <class X, class Y> struct Same : std::is_same<X, Y> {};

// what: which accessor reads
template <class X> static uint32_t get(const X& x) { return x.t.v; }

template <class T, class C>
struct AI {
  using A = A_<T, C>;
  using I = xyz::indirect<T, A>;
  static void same_object(I& a, const void* addr, uint32_t v) {
    const I& ca = a;
    CHK("C16", (Same<decltype(*a), T&>::value), "*lvalue is T&");
    CHK("C16", (Same<decltype(*ca), const T&>::value), "*const lvalue is const T&");
    CHK("C16", (Same<decltype(*std::move(a)), T&&>::value), "*rvalue is T&&");
    CHK("C16", (Same<decltype(*std::move(ca)), const T&&>::value), "*const rvalue is const T&&");
    CHK("C16", (Same<decltype(a.operator->()), typename I::pointer>::value && Same<decltype(*a.operator->()), T&>::value), "-> is a pointer to T");
    CHK("C16", (Same<decltype(ca.operator->()), typename I::const_pointer>::value && Same<decltype(*ca.operator->()), const T&>::value), "const -> is a pointer to const T");
    T&& r = *std::move(a);
    const T&& cr = *std::move(ca);
    const void* p[6] = {std::addressof(*a), std::addressof(*ca), std::addressof(r), std::addressof(cr), a.operator->(), ca.operator->()};
    for (int i = 0; i < 6; i++) CHK("C16", p[i] == addr, "every accessor refers to the same owned object");
    CHK("C16", find_elem(&(*ca).t, T::kind) != nullptr, "which is alive");
    uint32_t w[6] = {get(*a), get(*ca), get(r), get(cr), a->t.v, ca->t.v};
    for (int i = 0; i < 6; i++) CHK("C16", w[i] == v, "every accessor reads the owned value");
  }
  static void run() {
    start();
    {
      uint32_t v = __vp_nondet_u32("value"), w = __vp_nondet_u32("written");
      uint32_t at = __vp_nondet_u32("a.alloc");
      I a(std::allocator_arg, A(at, 1), VP_IN_PLACE, v);
      const void* addr = std::addressof(*a);
      same_object(a, addr, v);
      arm(0);
      uint8_t via = __vp_nondet_u8("write via");
      __vp_assume(via < 3);
      if (via == 0) (*a).t.v = w;
      else if (via == 1) a->t.v = w;
      else { T&& r = *std::move(a); r.t.v = w; }
      same_object(a, addr, w);
      CHK("C16", G.nlog == 0 && G.cnt[0][E_ALLOC] + G.cnt[0][E_DEALLOC] + G.cnt[T::kind][E_CCTOR] + G.cnt[T::kind][E_MCTOR] + G.cnt[T::kind][E_DTOR] == 0, "accessors neither copy, move nor allocate");
      CHK("C16,C11", !a.valueless_after_move(), "dereferencing an rvalue does not consume the object");
      // the same object after it changed hands
      uint8_t op = __vp_nondet_u8("then");
      __vp_assume(op < 5);
      I other(std::allocator_arg, A(at, 2), VP_IN_PLACE, 3u);
      switch (op) {
        case 0: { I b(std::move(a)); same_object(b, addr, w); break; }
        case 1: other = std::move(a); same_object(other, addr, w); break;
        case 2: { const void* o = std::addressof(*other); a.swap(other); same_object(other, addr, w); same_object(a, o, 3); break; }
        case 3: { using std::swap; swap(a, other); same_object(other, addr, w); break; }
        default: {
          I b(a);
          same_object(b, std::addressof(*b), w);
          same_object(a, addr, w);
          // moving out of a dereferenced rvalue moves the owned object only
          clear_counts();
          T x(*std::move(a));
          CHK("C16", (G.cnt[T::kind][E_MCTOR] == 1) & (G.cnt[T::kind][E_CCTOR] == 0), "an rvalue indirect gives an rvalue to move from");
          CHK("C16,C11", !a.valueless_after_move() && std::addressof(*a) == addr, "which leaves the indirect its object");
          T y(*std::move(static_cast<const I&>(b)));
          CHK("C16", (G.cnt[T::kind][E_MCTOR] == 1) & (G.cnt[T::kind][E_CCTOR] == 1), "a const rvalue indirect cannot be moved from");
        }
      }
      __vp_cover("accessors agree");
    }
    finish();
  }
};

template <class HY, class C>
struct AP {
  using B = typename HY::B;
  using A = A_<B, C>;
  using P = xyz::polymorphic<B, A>;
  static void same_object(P& a, const void* addr, uint32_t v) {
    const P& ca = a;
    CHK("C16", (Same<decltype(*a), B&>::value), "*lvalue is T&");
    CHK("C16", (Same<decltype(*ca), const B&>::value), "*const lvalue is const T&");
    CHK("C16", (Same<decltype(*a.operator->()), B&>::value && Same<decltype(a.operator->()), typename P::pointer>::value), "-> is a pointer to T");
    CHK("C16", (Same<decltype(*ca.operator->()), const B&>::value && Same<decltype(ca.operator->()), typename P::const_pointer>::value), "const -> is a pointer to const T");
    const void* p[4] = {&*a, &*ca, a.operator->(), ca.operator->()};
    for (int i = 0; i < 4; i++) CHK("C16", p[i] == addr, "every accessor refers to the same owned object");
    CHK("C16,C02", find_elem(&(*ca).t, 1) != nullptr, "the adjusted base subobject is alive at that address");
    uint32_t w[4] = {(*a).t.v, (*ca).t.v, a->t.v, ca->t.v};
    for (int i = 0; i < 4; i++) CHK("C16", w[i] == v, "every accessor reads the owned value");
  }
  template <class D>
  static void with(uint32_t v, uint32_t w, uint32_t at) {
    P a(std::allocator_arg, A(at, 1), VP_IPT(D), v);
    const void* addr = &*a;
    same_object(a, addr, v);
    arm(0);
    if (__vp_nondet_bool("write via ->")) a->t.v = w;
    else (*a).t.v = w;
    same_object(a, addr, w);
    CHK("C16", G.cnt[0][E_ALLOC] + G.cnt[0][E_DEALLOC] + G.cnt[1][E_CCTOR] + G.cnt[1][E_MCTOR] + G.cnt[1][E_DTOR] == 0, "accessors neither copy, move nor allocate");
    uint8_t op = __vp_nondet_u8("then");
    __vp_assume(op < 5);
    P other(std::allocator_arg, A(at, 2), VP_IPT(typename HY::X1), 3u);
    switch (op) {
      case 0: { P b(std::move(a)); same_object(b, addr, w); break; }
      case 1: other = std::move(a); same_object(other, addr, w); break;
      case 2: { const void* o = &*other; a.swap(other); same_object(other, addr, w); same_object(a, o, 3); break; }
      case 3: { using std::swap; swap(a, other); same_object(other, addr, w); break; }
      default: { P b(a); same_object(b, &*b, w); other = a; same_object(other, &*other, w); same_object(a, addr, w); }
    }
    __vp_cover("accessors agree");
  }
  static void run() {
    start();
    {
      uint32_t v = __vp_nondet_u32("value"), w = __vp_nondet_u32("written"), at = __vp_nondet_u32("alloc");
      uint8_t ty = __vp_nondet_u8("type");
      __vp_assume(ty < 4);
      switch (ty) {
        case 0: with<B>(v, w, at); break;
        case 1: with<typename HY::X1>(v, w, at); break;
        case 2: with<typename HY::X2>(v, w, at); break;
        default: with<typename HY::X3>(v, w, at); break;
      }
    }
    finish();
  }
};
#define MACHINE(CF) AP<HV, CF>
#include "configs.h"
#define BODY AI<VS, CF>::run()
VP_ENTRY(acc_ind) { CONFIGS }
#undef BODY
VP_ENTRY(acc_ind_big) { AI<VB, Cfg<0, 0, 0, 0>>::run(); }
VP_ENTRY(acc_ind_amp) { AI<Amp, Cfg<0, 0, 0, 0>>::run(); }
VP_ENTRY(acc_ind_tiny) { AI<Tiny, Cfg<0, 1, 0, 1>>::run(); }
#define BODY M::run()
VP_ENTRY(acc_pol) { CONFIGS }
#undef BODY
VP_ENTRY(acc_pol_nonvirtual) { AP<HN, Cfg<0, 0, 0, 0>>::run(); }
