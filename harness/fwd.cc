// Constructor forwarding (C18): every constructor hands each argument on with
// its own value category and constness, the very object given, in order, once,
// and initialises with parentheses.
#include "ind.h"
#include "pol.h"
using namespace vp;

struct Q { uint32_t v; };
template <class X> struct Cat;
template <class X> struct Cat<X&> { enum { v = std::is_const<X>::value ? 2 : 1 }; };
template <class X> struct Cat<X&&> { enum { v = std::is_const<X>::value ? 4 : 3 }; };
struct Seen {
  uint8_t form;  // which constructor
  uint8_t n, cat[3];
  const void* at[3];
  uint32_t val[3];
  uint32_t il[3], iln;
  uint8_t calls;
};
static Seen S;
template <class X> static int see(X&& x) {
  S.cat[S.n] = Cat<X&&>::v;
  S.at[S.n] = std::addressof(x);
  S.val[S.n] = x.v;
  S.n++;
  return 0;
}
static void il_(const uint32_t* b, size_t n) {
  S.iln = (uint32_t)n;
  for (size_t i = 0; i < n && i < 3; i++) S.il[i] = b[i];
}
static void form(uint8_t f) { S.form = f; S.n = 0; S.calls++; }
template <class X> using IsQ = std::enable_if_t<std::is_same<std::decay_t<X>, Q>::value, int>;
struct Fw {
  uint32_t id = 11;
  Fw() { form(0); }
  template <class X, IsQ<X> = 0> Fw(X&& x) { form(1); see(std::forward<X>(x)); }
  template <class X, class Y, IsQ<X> = 0> Fw(X&& x, Y&& y) { form(2); see(std::forward<X>(x)); see(std::forward<Y>(y)); }
  template <class X, class Y, class Z, IsQ<X> = 0> Fw(X&& x, Y&& y, Z&& z) { form(3); see(std::forward<X>(x)); see(std::forward<Y>(y)); see(std::forward<Z>(z)); }
  Fw(std::initializer_list<uint32_t> l) { form(4); il_(l.begin(), l.size()); }
  template <class X> Fw(std::initializer_list<uint32_t> l, X&& x) { form(5); il_(l.begin(), l.size()); see(std::forward<X>(x)); }
  template <class X, class Y> Fw(std::initializer_list<uint32_t> l, X&& x, Y&& y) { form(6); il_(l.begin(), l.size()); see(std::forward<X>(x)); see(std::forward<Y>(y)); }
  Fw(uint32_t x, uint32_t y) { form(7); S.val[0] = x; S.val[1] = y; }
  explicit Fw(uint32_t x) { form(8); S.val[0] = x; }
  Fw(const Fw& o) : id(o.id) { S.calls += 100; }
  Fw(Fw&& o) : id(o.id) { S.calls += 100; }
  virtual ~Fw() {}
  virtual uint32_t who() const { return 1; }
};
struct Before { uint64_t q = 3; virtual ~Before() {} };
struct FwD : Before, Fw {
  using Fw::Fw;
  FwD() {}
  uint32_t who() const override { return 2; }
};

// Call f with q as one of the four kinds of argument.
template <class F> static void as(uint8_t k, Q& q, F f) {
  switch (k) {
    case 1: f(q); break;
    case 2: f(static_cast<const Q&>(q)); break;
    case 3: f(std::move(q)); break;
    default: f(static_cast<const Q&&>(q)); break;
  }
}
template <class X> using AAF = A_<X, Cfg<0, 0, 0, 0>>;
// The four shapes of constructor of each class, for n arguments.
template <class T>
struct KI {
  using A = AAF<T>;
  using O = xyz::indirect<T, A>;
  template <class G, class... X> static void plain(bool al, G g, X&&... x) {
    if (al) { O o(std::allocator_arg, A(5, 6), VP_IN_PLACE, std::forward<X>(x)...); g(o, 5, 6); }
    else { O o(VP_IN_PLACE, std::forward<X>(x)...); g(o, DEFAULT_TAG, DEFAULT_ID); }
  }
  template <class G, class... X> static void list(bool al, uint32_t a, uint32_t b, G g, X&&... x) {
    if (al) { O o(std::allocator_arg, A(5, 6), VP_IN_PLACE, {a, b}, std::forward<X>(x)...); g(o, 5, 6); }
    else { O o(VP_IN_PLACE, {a, b}, std::forward<X>(x)...); g(o, DEFAULT_TAG, DEFAULT_ID); }
  }
  template <class G, class X> static void conv(bool al, G g, X&& x) {
    if (al) { O o(std::allocator_arg, A(5, 6), std::forward<X>(x)); g(o, 5, 6); }
    else { O o(std::forward<X>(x)); g(o, DEFAULT_TAG, DEFAULT_ID); }
  }
};
template <class B, class T>
struct KP {
  using A = AAF<B>;
  using O = xyz::polymorphic<B, A>;
  template <class G, class... X> static void plain(bool al, G g, X&&... x) {
    if (al) { O o(std::allocator_arg, A(5, 6), VP_IPT(T), std::forward<X>(x)...); g(o, 5, 6); }
    else { O o(VP_IPT(T), std::forward<X>(x)...); g(o, DEFAULT_TAG, DEFAULT_ID); }
  }
  template <class G, class... X> static void list(bool al, uint32_t a, uint32_t b, G g, X&&... x) {
    if (al) { O o(std::allocator_arg, A(5, 6), VP_IPT(T), {a, b}, std::forward<X>(x)...); g(o, 5, 6); }
    else { O o(VP_IPT(T), {a, b}, std::forward<X>(x)...); g(o, DEFAULT_TAG, DEFAULT_ID); }
  }
};
template <class K, uint32_t WHO>
struct Fwd {
  using O = typename K::O;
  struct Done {
    template <class OO> void operator()(OO& o, uint32_t tag, uint32_t id) const {
      CHK("C18", S.calls == 1, "exactly one constructor call builds the owned object");
      CHK("C18,C08", (o.get_allocator().tag == tag) & (o.get_allocator().id == id), "the given (or default) allocator is used");
      CHK("C18,C11", !o.valueless_after_move() && o->id == 11 && o->who() == WHO, "the requested object is owned");
      __vp_cover("constructed");
    }
  };
  static void one(uint32_t i, uint8_t k, const Q& q, uint32_t v) {
    CHK("C18", S.cat[i] == k, "the argument arrives with its value category and constness");
    CHK("C18", S.at[i] == &q, "the argument arrives itself, not a copy");
    CHK("C18", (S.val[i] == v) & (q.v == v), "with its value");
  }
  static void shape(uint8_t f, uint8_t n) { CHK("C18", (S.form == f) & (S.n == n), "the constructor taking these arguments is called"); }
  static void run() {
    start();
    {
      uint32_t x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y"), z = __vp_nondet_u32("z");
      bool al = __vp_pick_bool("allocator given");
      uint8_t what = __vp_pick("form", 8);
      Q q{x}, r{y}, s{z};
      uint32_t blocks = G.liveBlocks;
      Done g;
      S = Seen();
      arm(0);
      if (what == 0) {
        K::plain(al, g);
        shape(0, 0);
      } else if (what == 1) {
        uint8_t k = (uint8_t)(1 + __vp_pick("category", 4));
        as(k, q, [&](auto&& a) { K::plain(al, g, std::forward<decltype(a)>(a)); });
        shape(1, 1);
        one(0, k, q, x);
      } else if (what == 2) {
        uint8_t k = (uint8_t)(1 + __vp_pick("category", 4)), l = (uint8_t)(1 + __vp_pick("second category", 4));
        as(k, q, [&](auto&& a) { as(l, r, [&](auto&& b) { K::plain(al, g, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        shape(2, 2);
        one(0, k, q, x);
        one(1, l, r, y);
      } else if (what == 3) {
        K::plain(al, g, q, std::move(r), static_cast<const Q&>(s));
        shape(3, 3);
        one(0, 1, q, x);
        one(1, 3, r, y);
        one(2, 2, s, z);
      } else if (what == 4) {
        K::list(al, x, y, g);
        shape(4, 0);
      } else if (what == 5) {
        uint8_t k = (uint8_t)(1 + __vp_pick("category", 4));
        as(k, s, [&](auto&& a) { K::list(al, x, y, g, std::forward<decltype(a)>(a)); });
        shape(5, 1);
        one(0, k, s, z);
      } else if (what == 6) {
        uint8_t k = (uint8_t)(1 + __vp_pick("category", 4)), l = (uint8_t)(1 + __vp_pick("second category", 4));
        as(k, s, [&](auto&& a) { as(l, q, [&](auto&& b) { K::list(al, x, y, g, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        shape(6, 2);
        one(0, k, s, z);
        one(1, l, q, x);
      } else {
        // two numbers are arguments, not a list
        bool two = __vp_pick_bool("two numbers");
        if (two) K::plain(al, g, x, y);
        else K::plain(al, g, x);
        shape(two ? 7 : 8, 0);
        CHK("C18", (S.val[0] == x) & (!two | (S.val[1] == y)), "numbers arrive in order");
      }
      if (what >= 4 && what <= 6) CHK("C18", (S.iln == 2) & (S.il[0] == x) & (S.il[1] == y), "the initializer list arrives whole");
      CHK("C18,C05", (G.cnt[0][E_ALLOC] == 1) & (G.cnt[0][E_DEALLOC] == 1) & (G.liveBlocks == blocks), "one allocation each");
    }
    finish();
  }
};
VP_ENTRY(fwd_ind) { Fwd<KI<Fw>, 1>::run(); }
VP_ENTRY(fwd_pol) {
  if (__vp_pick_bool("derived")) Fwd<KP<Fw, FwD>, 2>::run();
  else Fwd<KP<Fw, Fw>, 1>::run();
}
// Construction from one value: a converting argument (indirect), an object of
// the owned or a derived type.
struct Cv {  // what a copy or move came from
  uint32_t v;
  uint8_t how;
  explicit Cv(uint32_t x) : v(x), how(0) {}
  template <class X, IsQ<X> = 0> Cv(X&& x) : v(x.v), how(Cat<X&&>::v) { S.at[0] = std::addressof(x); }
  Cv(const Cv& o) : v(o.v), how(12) { S.at[0] = &o; }
  Cv(Cv& o) : v(o.v), how(11) { S.at[0] = &o; }
  Cv(Cv&& o) : v(o.v), how(13) { S.at[0] = &o; o.v = ~v; }
  Cv(const Cv&& o) : v(o.v), how(14) { S.at[0] = &o; }
  virtual ~Cv() {}
  virtual uint32_t who() const { return 1; }
};
struct CvD : Before, Cv {
  explicit CvD(uint32_t x) : Cv(x) {}
  CvD(const CvD& o) : Cv(static_cast<const Cv&>(o)) {}
  CvD(CvD& o) : Cv(static_cast<Cv&>(o)) {}
  CvD(CvD&& o) : Cv(std::move(static_cast<Cv&>(o))) {}
  CvD(const CvD&& o) : Cv(std::move(static_cast<const Cv&>(o))) {}
  uint32_t who() const override { return 2; }
};
template <class O, class A, class T>
static void from(uint32_t who, T& src, uint8_t base, const void* at) {
  uint8_t k = (uint8_t)(1 + __vp_pick("category", 4));
  bool al = __vp_pick_bool("allocator given");
  uint32_t v = src.v;
  arm(0);
  auto check = [&](O& o) {
    CHK("C18,C01", !o.valueless_after_move() && o->v == v && o->who() == who, "the owned object is made from the given one");
    CHK("C18", (o->how == base + k) & (S.at[0] == at), "straight from it, in its value category");
    CHK("C18,C01", src.v == v || (base == 10 && k == 3), "only an rvalue may be changed");
    CHK("C08,C18", (o.get_allocator().tag == (al ? 5u : (uint32_t)DEFAULT_TAG)) & (o.get_allocator().id == (al ? 6u : (uint32_t)DEFAULT_ID)), "the given (or default) allocator is used");
    CHK("C18,C05", G.cnt[0][E_ALLOC] == 1, "one allocation");
    __vp_cover("converted");
  };
#define FROM(e) { if (al) { O o(std::allocator_arg, A(5, 6), e); check(o); } else { O o(e); check(o); } break; }
  switch (k) {
    case 1: FROM(src)
    case 2: FROM(static_cast<const T&>(src))
    case 3: FROM(std::move(src))
    default: FROM(static_cast<const T&&>(src))
  }
}
VP_ENTRY(from_ind) {
  start();
  {
    uint32_t v = __vp_nondet_u32("v");
    Q q{v};
    Cv c(v);
    using A = AAF<Cv>;
    using O = xyz::indirect<Cv, A>;
#if VP_STD == 20  // the C++14 class takes its own type only
    if (__vp_pick_bool("other type")) { from<O, A>(1, q, 0, &q); } else
#endif
    from<O, A>(1, c, 10, &c);
    (void)q;
  }
  finish();
}
VP_ENTRY(from_pol) {
  start();
  {
    uint32_t v = __vp_nondet_u32("v");
    Cv c(v);
    CvD d(v);
    using A = AAF<Cv>;
    using O = xyz::polymorphic<Cv, A>;
    if (__vp_pick_bool("derived")) from<O, A>(2, d, 10, static_cast<Cv*>(&d));
    else from<O, A>(1, c, 10, &c);
  }
  finish();
}
