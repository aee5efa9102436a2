// Long histories: a fixed script repeated many times over the same objects,
// deep recursive structures, and many owners at once.  Values and allocator
// identities are symbolic, the lengths are not; state that builds up over
// many operations (counters, caches, pools, depth limits) would show.
#include "ind.h"
#include "pol.h"
#include <vector>
using namespace vp;
#ifndef VP_ROUNDS
#define VP_ROUNDS 130
#endif
// A lean ghost: the registry of env.h keeps every object ever made.
struct LG {
  uint32_t live, made, copies, moves, assigns, blocks, allocs;
  uint32_t until;  // fault points still to pass; 0: off
};
static LG L;
static void lfault() {
  if (L.until && --L.until == 0) throw Fault{1};
}
struct LV { uint32_t v; };
template <bool NT>
struct W_ {
  uint32_t v;
  const W_* self;
  explicit W_(uint32_t x) : v(x), self(this) { lfault(); L.live++; L.made++; }
  W_(const LV& x) : W_(x.v) {}
  W_(const W_& o) noexcept(NT) : v(o.v), self(this) { CHK("*", o.self == &o, "copied from a live object"); if (!NT) lfault(); L.live++; L.copies++; }
  W_(W_&& o) noexcept(NT) : v(o.v), self(this) { CHK("*", o.self == &o, "moved from a live object"); if (!NT) lfault(); L.live++; L.moves++; }
  W_& operator=(const W_& o) { CHK("*", self == this && o.self == &o, "assigned between live objects"); lfault(); v = o.v; L.assigns++; return *this; }
  W_& operator=(const LV& x) { CHK("*", self == this, "assigned to a live object"); lfault(); v = x.v; L.assigns++; return *this; }
  ~W_() { CHK("*", self == this, "destroyed once"); self = nullptr; L.live--; }
  friend bool operator==(const W_& a, const W_& b) { return a.v == b.v; }
  friend bool operator!=(const W_& a, const W_& b) { return a.v != b.v; }
};
template <bool NT> struct std::hash<W_<NT>> {
  size_t operator()(const W_<NT>& w) const { return (size_t)w.v * 3 + 1; }
};
struct LB {
  uint64_t base = 1;
  virtual uint32_t who() const = 0;
  virtual uint32_t get() const = 0;
  virtual void set(uint32_t) = 0;
  virtual ~LB() {}
};
template <uint32_t WHO, bool NT>
struct LD : LB {
  char pad[WHO * 24];
  W_<NT> w;
  explicit LD(uint32_t v) : w(v) { pad[WHO] = (char)WHO; }
  LD(const LD& o) : LB(o), w(o.w) { pad[WHO] = o.pad[WHO]; }
  LD(LD&& o) noexcept(NT) : LB(o), w(std::move(o.w)) { pad[WHO] = o.pad[WHO]; }
  uint32_t who() const override { return base == 1 && pad[WHO] == (char)WHO ? WHO : 99; }
  uint32_t get() const override { return w.v; }
  void set(uint32_t x) override { w.v = x; }
};
// A pool gives back the block of the same size that was released last.
static struct {
  bool on;
  uint32_t n;
  struct { char* p; size_t size, al; } f[16];
} Pool;
static char* pool_get(size_t size, size_t al) {
  for (uint32_t i = Pool.n; i-- > 0;)
    if (Pool.f[i].size == size && Pool.f[i].al == al) {
      char* p = Pool.f[i].p;
      Pool.f[i] = Pool.f[--Pool.n];
      return p;
    }
  return (char*)__vp_heap_alloc(size, al);
}
static void pool_put(char* p, size_t size, size_t al) {
  if (Pool.on && Pool.n < 16) {
    Pool.f[Pool.n].p = p;
    Pool.f[Pool.n].size = size;
    Pool.f[Pool.n++].al = al;
  } else __vp_heap_free(p);
}
static void pool_drain() {
  while (Pool.n) __vp_heap_free(Pool.f[--Pool.n].p);
}
template <class T, class C>
struct LA {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::CM>;
  using propagate_on_container_swap = std::integral_constant<bool, C::CS>;
  using is_always_equal = std::integral_constant<bool, C::AE>;
  template <class U> struct rebind { using other = LA<U, C>; };
  uint32_t tag;
  explicit LA(uint32_t t) : tag(t) {}
  template <class U> LA(const LA<U, C>& o) noexcept : tag(o.tag) {}
  struct Head { uint64_t n; uint32_t tag, size; };
  enum { H = alignof(T) > sizeof(Head) ? alignof(T) : sizeof(Head) };
  T* allocate(size_t n) {
    lfault();
    char* p = pool_get(n * sizeof(T) + H, alignof(T) > 16 ? alignof(T) : 16);
    Head* h = (Head*)p;
    h->n = n; h->tag = tag; h->size = sizeof(T);
    L.blocks++;
    L.allocs++;
    return (T*)(p + H);
  }
  void deallocate(T* t, size_t n) {
    char* p = (char*)t - H;
    Head* h = (Head*)p;
    CHK("C04,C05", h->n == n && h->size == sizeof(T), "returned as it was obtained");
    CHK("C05,C08", C::AE || h->tag == tag, "returned through an equal allocator");
    L.blocks--;
    pool_put(p, n * sizeof(T) + H, alignof(T) > 16 ? alignof(T) : 16);
  }
  friend bool operator==(const LA& a, const LA& b) { return C::AE || a.tag == b.tag; }
  friend bool operator!=(const LA& a, const LA& b) { return !(a == b); }
};
// The two classes behind one interface.
template <bool NT, class C>
struct RI {
  using T = W_<NT>;
  using A = LA<T, C>;
  using O = xyz::indirect<T, A>;
  static constexpr bool pol = false;
  static O make(uint32_t tag, uint32_t, uint32_t v) { return O(std::allocator_arg, A(tag), VP_IN_PLACE, v); }
  static uint32_t get(const O& o) { return o->v; }
  static void set(O& o, uint32_t v) { (*o).v = v; }
  static uint32_t who(const O&) { return 1; }
  static const void* at(const O& o) { return o.valueless_after_move() ? nullptr : std::addressof(*o); }
  static void assign(O& o, uint32_t v) {
    uint32_t n = L.assigns, m = L.made + L.copies + L.moves;
    const void* p = at(o);
    LV x{v};
    o = x;
    CHK("C15", L.assigns == n + 1 && L.made + L.copies + L.moves == m && at(o) == p && o->v == v, "a value is assigned to the owned object");
  }
  static void compare(const O& a, const O& b, uint32_t v, uint32_t w) {
    CHK("C12,C13", (a == b) == (v == w) && a == *a, "comparison is the values'");
    CHK("C14", std::hash<O>{}(a) == (size_t)v * 3 + 1 && std::hash<O>{}(b) == (size_t)w * 3 + 1, "the hash is the value's");
  }
};
template <bool NT, class C>
struct RP {
  using T = LB;
  using A = LA<T, C>;
  using O = xyz::polymorphic<T, A>;
  static constexpr bool pol = true;
  using D1_ = LD<1, NT>;
  using D2_ = LD<2, NT>;
  using D3_ = LD<3, NT>;
  static O make(uint32_t tag, uint32_t who, uint32_t v) {
    switch (who) {
      case 1: return O(std::allocator_arg, A(tag), VP_IPT(D1_), v);
      case 2: return O(std::allocator_arg, A(tag), VP_IPT(D2_), v);
      default: return O(std::allocator_arg, A(tag), VP_IPT(D3_), v);
    }
  }
  static uint32_t get(const O& o) { return o->get(); }
  static void set(O& o, uint32_t v) { (*o).set(v); }
  static uint32_t who(const O& o) { return o->who(); }
  static const void* at(const O& o) { return o.valueless_after_move() ? nullptr : std::addressof(*o); }
  static void assign(O& o, uint32_t v) { o->set(v); }
  static void compare(const O&, const O&, uint32_t, uint32_t) {}
};
template <class R, class C>
struct Long {
  using O = typename R::O;
  using A = typename R::A;
  struct M { uint32_t v, who, tag; };
  static bool is(const O& o, const M& m) { return !o.valueless_after_move() && R::get(o) == m.v && R::who(o) == m.who && o.get_allocator().tag == m.tag; }
  static void counts(uint32_t owners) { CHK("C04,C05", L.live == owners && L.blocks == owners, "one object and one block for each owner"); }
  // one round; m, n: what a and b hold
  static void round(O& a, O& b, M& m, M& n, uint32_t i, uint32_t v, uint32_t w) {
    {
      uint32_t c0 = L.copies, m0 = L.moves;
      O c(static_cast<const O&>(a));
      CHK("C01,C02,C08", is(c, m) && R::at(c) != R::at(a) && L.copies == c0 + 1 && L.moves == m0, "a copy, made once");
      R::set(c, ~m.v);
      CHK("C01", is(a, m), "independent");
      counts(3);
    }
    const void *pa = R::at(a), *pb = R::at(b);
    uint32_t al = L.allocs, work = L.copies + L.moves + L.made;
    {
      O c(std::move(a));
      CHK("C03,C11", is(c, m) && R::at(c) == pa && a.valueless_after_move(), "a transfer");
      a = std::move(c);
      CHK("C03,C11", is(a, m) && R::at(a) == pa && c.valueless_after_move(), "and back");
      { O e(static_cast<const O&>(c)); CHK("C11", e.valueless_after_move(), "a copy of nothing"); }
    }
    a = static_cast<const O&>(a);
    a.swap(a);
    CHK("C10", is(a, m) && R::at(a) == pa, "unchanged");
    if (C::CS || C::AE || m.tag == n.tag) {
      swap(a, b);
      M x = m;
      m = n;
      n = x;
      if (!C::CS) { uint32_t y = m.tag; m.tag = n.tag; n.tag = y; }
      CHK("C09,C08", is(a, m) && is(b, n) && R::at(a) == pb && R::at(b) == pa, "swapped");
    }
    CHK("C03,C09,C10", L.allocs == al && L.copies + L.moves + L.made == work, "without touching any object");
    R::compare(a, b, m.v, n.v);
    // copy assignment, to and fro with a new value each round
    m.v = v + i;
    R::assign(a, m.v);
    {
      O c = R::make(n.tag, 1 + i % 3, w - i);
      M k{w - i, R::pol ? 1 + i % 3 : 1, n.tag};
      b = static_cast<const O&>(c);
      n = k;
      CHK("C01,C02,C06,C08", is(b, n) && is(c, k) && R::at(b) != R::at(c), "copy assignment");
      const void* pc = R::at(c);
      b = std::move(c);
      CHK("C02,C03,C08,C11", is(b, n) && R::at(b) == pc && c.valueless_after_move(), "move assignment");
    }
    {
      O c(std::allocator_arg, A(m.tag), std::move(b));
      bool eq = C::AE || m.tag == n.tag;
      CHK("C03,C08,C11", c.get_allocator().tag == m.tag && R::get(c) == n.v && R::who(c) == n.who && b.valueless_after_move() == eq, "allocator-extended move");
      O d(std::allocator_arg, A(n.tag), static_cast<const O&>(c));
      CHK("C01,C08", R::get(d) == n.v && d.get_allocator().tag == n.tag && R::at(d) != R::at(c), "allocator-extended copy");
      b = std::move(d);
      CHK("C03,C08,C11", is(b, n) && d.valueless_after_move(), "move assignment to a moved-from object");
      counts(3);
      a = static_cast<const O&>(b);
      m.v = n.v;
      m.who = n.who;
      if (C::CA) m.tag = n.tag;
      CHK("C01,C02,C08", is(a, m) && is(b, n), "copy assignment between the two");
    }
    // owners that come and go at one address
    {
      alignas(O) static char slot[sizeof(O)];
      O* o = new (slot) O(static_cast<const O&>(a));
      CHK("C01,C02", R::get(*o) == m.v && R::who(*o) == m.who, "a copy");
      R::compare(*o, b, m.v, n.v);
      R::set(*o, w + i);
      o->~O();
      o = new (slot) O(static_cast<const O&>(b));
      CHK("C01,C02", R::get(*o) == n.v && R::who(*o) == n.who, "a copy where another owner was");
      R::compare(*o, a, n.v, m.v);
      { O g(std::move(*o)); }
      CHK("C11", o->valueless_after_move(), "moved from");
      o->~O();
      o = new (slot) O(R::make(m.tag, 1 + i % 3, v + w));
      CHK("C01,C02,C11", !o->valueless_after_move() && R::get(*o) == v + w && R::who(*o) == (R::pol ? 1 + i % 3 : 1), "a new owner where others were");
      R::compare(*o, a, v + w, m.v);
      o->~O();
    }
    R::set(a, v - i);
    m.v = v - i;
    CHK("C01,C16", is(a, m) && is(b, n), "a write reaches one of them");
    counts(2);
  }
  static void run(uint32_t rounds, bool fault) {
    start();
    L = LG();
    {
      uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w"), s = __vp_nondet_u32("s"), t = __vp_nondet_u32("t");
      M m{v, 1, s}, n{w, R::pol ? 2u : 1u, t};
      O a = R::make(s, m.who, v), b = R::make(t, n.who, w);
      for (uint32_t i = 0; i < rounds; i++) round(a, b, m, n, i, v, w);
      if (fault) {
        const void *pa = R::at(a), *pb = R::at(b);
        L.until = 1 + __vp_pick("fails at", 2);
        uint8_t op = __vp_pick("failing operation", 3);
        bool failed = false;
        try {
          if (op == 0) { O c(static_cast<const O&>(a)); }
          else if (op == 1) { a = static_cast<const O&>(b); }
          else { O c(std::allocator_arg, A(w), static_cast<const O&>(b)); }
        } catch (Fault&) { failed = true; }
        L.until = 0;
        if (failed) CHK("C06,C07", is(a, m) && is(b, n) && R::at(a) == pa && R::at(b) == pb, "a failed operation changes nothing");
        counts(2);
      }
      __vp_cover("done");
    }
    counts(0);
    pool_drain();
    __vp_leak_check("C04,C05:everything is released");
  }
};
#define LRUN(R, NT) \
  switch (__vp_pick("traits", 4)) { \
    case 0: { using C = Cfg<0, 0, 0, 0>; Long<R<NT, C>, C>::run(VP_ROUNDS, true); break; } \
    case 1: { using C = Cfg<1, 1, 1, 0>; Long<R<NT, C>, C>::run(VP_ROUNDS, true); break; } \
    case 2: { using C = Cfg<0, 1, 0, 1>; Long<R<NT, C>, C>::run(VP_ROUNDS, true); break; } \
    default: { using C = Cfg<1, 0, 1, 0>; Long<R<NT, C>, C>::run(VP_ROUNDS, true); } \
  }
VP_ENTRY(long_ind) { Pool.on = __vp_pick_bool("noexcept"); if (Pool.on) LRUN(RI, true) else LRUN(RI, false) }
VP_ENTRY(long_pol) { Pool.on = __vp_pick_bool("noexcept"); if (Pool.on) LRUN(RP, true) else LRUN(RP, false) }
// Deep recursive structures: a list and a tree of the owners.
#ifndef VP_DEPTH
#define VP_DEPTH 70
#endif
struct Link {
  uint32_t v;
  uint32_t depth;
  alignas(16) char next[32];
  bool on;
  template <class O> O& tail() { static_assert(sizeof(O) <= sizeof next, "size"); return *reinterpret_cast<O*>(next); }
  template <class O> const O& tail() const { return *reinterpret_cast<const O*>(next); }
};
template <class C, bool POL> struct Chain;
template <class C, bool POL>
struct ChainO { using type = xyz::indirect<Chain<C, POL>, LA<Chain<C, POL>, C>>; };
template <class C>
struct ChainO<C, true> { using type = xyz::polymorphic<Chain<C, true>, LA<Chain<C, true>, C>>; };
template <class C, bool POL>
struct Chain : Link {
  using O = typename ChainO<C, POL>::type;
  Chain(uint32_t x, uint32_t d, O* n) : Link{x, d, {}, n != nullptr} { lfault(); if (n) ::new ((void*)next) O(std::move(*n)); L.live++; L.made++; }
  Chain(const Chain& o) : Link{o.v, o.depth, {}, o.on} { lfault(); if (on) ::new ((void*)next) O(o.template tail<O>()); L.live++; L.copies++; }
  Chain(Chain&& o) : Link{o.v, o.depth, {}, o.on} { lfault(); if (on) ::new ((void*)next) O(std::move(o.template tail<O>())); L.live++; L.moves++; }
  Chain& operator=(const Chain& o) {
    lfault();
    if (this == &o) return *this;
    uint32_t x = o.v, d = o.depth;  // o may be part of our tail
    if (o.on) { O c(o.template tail<O>()); if (on) tail<O>().~O(); on = true; ::new ((void*)next) O(std::move(c)); }
    else if (on) { tail<O>().~O(); on = false; }
    v = x;
    depth = d;
    return *this;
  }
  ~Chain() { if (on) tail<O>().~O(); L.live--; }
};
template <class T> struct IPT {
  template <class O> static O make(uint32_t tag, uint32_t v, uint32_t d, O* n, std::false_type) { return O(std::allocator_arg, typename O::allocator_type(tag), VP_IN_PLACE, v, d, n); }
  template <class O> static O make(uint32_t tag, uint32_t v, uint32_t d, O* n, std::true_type) { return O(std::allocator_arg, typename O::allocator_type(tag), VP_IPT(T), v, d, n); }
};
template <class C, bool POL>
static void deep() {
  using N = Chain<C, POL>;
  using O = typename N::O;
  start();
  L = LG();
  {
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w"), s = __vp_nondet_u32("s"), t = __vp_nondet_u32("t");
    auto build = [](uint32_t tag, uint32_t v, uint32_t n) {
      O o = IPT<N>::template make<O>(tag, v, 0, nullptr, std::integral_constant<bool, POL>());
      for (uint32_t i = 1; i < n; i++) o = IPT<N>::template make<O>(tag, v + i, i, &o, std::integral_constant<bool, POL>());
      return o;
    };
    auto is = [](const O& o, uint32_t v, uint32_t n) {
      const O* p = &o;
      for (uint32_t i = n; i-- > 0;) {
        if (p->valueless_after_move() || (*p)->v != v + i || (*p)->depth != i) return false;
        if ((*p)->on != (i != 0)) return false;
        p = &(*p)->template tail<O>();
      }
      return true;
    };
    O a = build(s, v, VP_DEPTH), b = build(t, w, 3);
    CHK("C21,C22", is(a, v, VP_DEPTH) && is(b, w, 3) && L.live == VP_DEPTH + 3 && L.blocks == VP_DEPTH + 3, "built");
    uint8_t op = __vp_pick("operation", 6);
    uint32_t f = __vp_pick("fails", 3);  // never, early, late
    const void* pa = std::addressof(*a);
    bool mayFail = op <= 1 || op == 5;
    L.until = !mayFail ? 0 : f == 0 ? 0 : f == 1 ? 3 : VP_DEPTH - 2;
    bool failed = false;
    try {
      switch (op) {
        case 0: { O c(static_cast<const O&>(a)); CHK("C01,C22", is(c, v, VP_DEPTH) && is(a, v, VP_DEPTH) && std::addressof(*c) != pa, "a deep copy"); (*c).v = ~v; CHK("C01", is(a, v, VP_DEPTH), "independent"); break; }
        case 1: b = static_cast<const O&>(a); CHK("C01,C22", is(b, v, VP_DEPTH) && is(a, v, VP_DEPTH), "a deep copy is assigned"); break;
        case 2: { uint32_t n = L.allocs; O c(std::move(a)); CHK("C03,C22", is(c, v, VP_DEPTH) && std::addressof(*c) == pa && L.allocs == n, "a deep structure is transferred"); a = std::move(c); CHK("C03", is(a, v, VP_DEPTH), "and back"); break; }
        case 3:  // drop the first ten
          for (uint32_t i = 0; i < 10; i++) a = std::move(a->template tail<O>());
          CHK("C21", is(a, v, VP_DEPTH - 10) && L.live == VP_DEPTH - 10 + 3 && L.blocks == L.live, "the tail is kept, the front released");
          break;
        case 4: {
          O* p = &a;
          for (uint32_t i = 0; i < VP_DEPTH / 2; i++) p = &(*p)->template tail<O>();
          O c(static_cast<const O&>(*p));
          a = static_cast<const O&>(*p);
          CHK("C21,C01", is(a, v, VP_DEPTH - VP_DEPTH / 2) && is(c, v, VP_DEPTH - VP_DEPTH / 2), "an inner part is copied over the whole");
          break;
        }
        default: { O c(std::allocator_arg, typename O::allocator_type(t), static_cast<const O&>(a)); CHK("C01,C08", is(c, v, VP_DEPTH) && c.get_allocator().tag == t, "an allocator-extended deep copy"); }
      }
    } catch (Fault&) { failed = true; }
    L.until = 0;
    if (failed) {
      CHK("C06,C07,C22", is(a, v, VP_DEPTH) && is(b, w, 3), "a failed operation changes nothing");
      CHK("C04,C05,C06,C07", L.live == VP_DEPTH + 3 && L.blocks == L.live, "and leaves nothing behind");
    }
    __vp_cover(failed ? "failed" : "done");
  }
  CHK("C04,C05", L.live == 0 && L.blocks == 0, "everything is released");
  __vp_leak_check("C04,C05,C06,C07,C21,C22:everything is released");
}
#define DRUN(P) \
  switch (__vp_pick("traits", 3)) { \
    case 0: deep<Cfg<0, 0, 0, 0>, P>(); break; \
    case 1: deep<Cfg<1, 1, 1, 0>, P>(); break; \
    default: deep<Cfg<0, 0, 0, 1>, P>(); \
  }
VP_ENTRY(deep_ind) { DRUN(false) }
VP_ENTRY(deep_pol) { DRUN(true) }

// Many owners alive at once, in a growing vector.
template <class R>
static void many() {
  using O = typename R::O;
  start();
  L = LG();
  {
    uint32_t v = __vp_nondet_u32("v"), s = __vp_nondet_u32("s");
    constexpr uint32_t N = 50;
    std::vector<O> x;
    auto who = [](uint32_t i) { return R::pol ? 1 + i % 3 : 1; };
    for (uint32_t i = 0; i < N; i++) x.push_back(R::make(s, 1 + i % 3, v + i));
    auto all = [&](const std::vector<O>& y) {
      if (y.size() != N) return false;
      for (uint32_t i = 0; i < N; i++) {
        if (y[i].valueless_after_move() || R::get(y[i]) != v + i || R::who(y[i]) != who(i)) return false;
        for (uint32_t j = 0; j < i; j += 7) if (R::at(y[i]) == R::at(y[j])) return false;
      }
      return true;
    };
    CHK("C01,C02,C03,C22", all(x), "every element keeps its object");
    CHK("C04,C05", L.live == N && L.blocks == N, "one object and one block for each owner");
    {
      std::vector<O> y(x);
      CHK("C01,C02,C22", all(y) && all(x) && L.live == 2 * N && L.blocks == 2 * N, "a copied vector holds copies");
      for (auto& o : y) R::set(o, 7);
      CHK("C01", all(x), "which are independent");
      y = x;
      CHK("C01,C22", all(y), "assigned");
      std::vector<O> z(std::move(y));
      CHK("C03,C22", all(z), "moved");
    }
    const void* p0 = R::at(x[0]);
    O first(std::move(x[0]));
    uint32_t work = L.copies + L.moves + L.made;
    x.erase(x.begin());
    for (uint32_t i = 0; i + 1 < N; i++) CHK("C03,C22", R::get(x[i]) == v + i + 1 && R::who(x[i]) == who(i + 1), "the others move up");
    x.insert(x.begin(), std::move(first));
    CHK("C02,C03,C22", all(x), "and down again");
    CHK("C03,C22", R::at(x[0]) == p0 && L.copies + L.moves + L.made == work, "without touching an owned object");
    x.resize(N / 2, x[0]);
    CHK("C04,C05", L.live == N / 2 && L.blocks == N / 2, "the rest is released");
    __vp_cover("done");
  }
  CHK("C04,C05", L.live == 0 && L.blocks == 0, "everything is released");
  __vp_leak_check("C04,C05,C22:everything is released");
}
VP_ENTRY(many_ind) { if (__vp_pick_bool("always equal")) many<RI<false, Cfg<0, 1, 0, 1>>>(); else many<RI<true, Cfg<0, 0, 0, 0>>>(); }
VP_ENTRY(many_pol) { if (__vp_pick_bool("always equal")) many<RP<false, Cfg<0, 1, 0, 1>>>(); else many<RP<true, Cfg<0, 0, 0, 0>>>(); }

// Scalars: what is special about them must not show.
enum class En : uint8_t { zero };
enum class En64 : uint64_t { zero };
// nullptr is a value of a pointer type, not the absence of one
template <class O, class A, class T>
static void null(O& a, const void* pa, uint32_t s, T v, std::true_type) {
  CHK("C13", (a == nullptr) == (v == nullptr) && (a != nullptr) == (v != nullptr) && (nullptr == a) == (v == nullptr), "compares with nullptr as the pointer does");
  a = nullptr;
  CHK("C15,C11", !a.valueless_after_move() && *a == nullptr && std::addressof(*a) == pa, "nullptr is assigned to the owned pointer");
  O c(std::allocator_arg, A(s), T(nullptr)), d(std::allocator_arg, A(s), VP_IN_PLACE, nullptr), e(std::allocator_arg, A(s), VP_IN_PLACE), f(std::allocator_arg, A(s));
  CHK("C18,C11", !c.valueless_after_move() && *c == nullptr && !d.valueless_after_move() && *d == nullptr && !e.valueless_after_move() && *e == nullptr && !f.valueless_after_move() && *f == nullptr, "a null pointer is owned");
  CHK("C12,C13", a == c && a == nullptr && !(a != d), "null pointers are equal");
  { O x(std::move(c)); }
  CHK("C12,C13", c.valueless_after_move() && c != a && c != nullptr && !(c == nullptr), "no value is not a null pointer");
  c = nullptr;
  CHK("C15,C11", !c.valueless_after_move() && *c == nullptr && c == a, "nullptr is a value");
}
template <class O, class A, class T>
static void null(O& a, const void*, uint32_t s, T, std::false_type) {
  O c(std::allocator_arg, A(s)), d(std::allocator_arg, A(s), VP_IN_PLACE);
  CHK("C18,C11", *c == T() && *d == T() && c == d, "built from nothing, a scalar is zero");
}
using Fn = uint32_t (*)(uint32_t);
static uint32_t fA(uint32_t x) { return x + 1; }
static uint32_t fB(uint32_t x) { return x + 2; }
template <class T, class C>
static void scalar(T v, T w) {
  using A = LA<T, C>;
  using O = xyz::indirect<T, A>;
  start();
  L = LG();
  {
    uint32_t s = __vp_nondet_u32("s"), t = __vp_nondet_u32("t");
    O a(std::allocator_arg, A(s), v), b(std::allocator_arg, A(t), VP_IN_PLACE, w);
    bool same = v == w, eq = C::AE || s == t;
    uint8_t op = __vp_pick("operation", 8);
    CHK("C18", *a == v && *b == w, "holds the value it was built from");
    CHK("C12,C13", (a == b) == same && (a != b) == !same && (a == w) == same && (w == a) == same && (a != w) == !same, "compares as the value does");
    constexpr bool H = !std::is_floating_point<T>::value;  // std::hash of those runs over their bytes
    if (H) CHK("C14", std::hash<O>{}(a) == std::hash<T>{}(v), "hashes as the value does");
    const void *pa = std::addressof(*a), *pb = std::addressof(*b);
    switch (op) {
      case 0: { O c(static_cast<const O&>(a)); CHK("C01", *c == v && *a == v && std::addressof(*c) != pa, "a copy"); *c = w; CHK("C01", *a == v && *c == w, "independent"); break; }
      case 1: { O c(std::move(a)); CHK("C03,C11", *c == v && std::addressof(*c) == pa && a.valueless_after_move() && a != c, "a transfer"); break; }
      case 2: a = static_cast<const O&>(b); CHK("C01,C15", *a == w && *b == w && (std::addressof(*a) == pa) == eq && std::addressof(*b) == pb && a == b, "copy assignment"); break;
      case 3: a = std::move(b); CHK("C03,C11", *a == w && (!eq || (std::addressof(*a) == pb && b.valueless_after_move())), "move assignment"); break;
      case 4: a = w; CHK("C15", *a == w && std::addressof(*a) == pa && *b == w && L.allocs == 2, "value assignment"); break;
      case 5: { { O c(std::move(a)); } a = w; CHK("C15,C11", !a.valueless_after_move() && *a == w && L.allocs == 3 && a.get_allocator().tag == s, "value assignment to a valueless object"); break; }
      case 6: null<O, A, T>(a, pa, s, v, std::integral_constant<bool, std::is_pointer<T>::value>()); break;
      default: if (eq || C::CS) { a.swap(b); CHK("C09", *a == w && *b == v && std::addressof(*a) == pb && std::addressof(*b) == pa, "swapped"); }
    }
    __vp_cover("done");
  }
  CHK("C04,C05", L.blocks == 0, "everything is released");
  __vp_leak_check("C04,C05:everything is released");
}
static uint32_t space[4];
template <class C>
static void scalars() {
  uint64_t v = __vp_nondet_u64("v"), w = __vp_nondet_u64("w");
  switch (__vp_pick("type", 10)) {
    case 0: scalar<bool, C>(v & 1, w & 1); break;
    case 1: scalar<char, C>((char)v, (char)w); break;
    case 2: scalar<uint64_t, C>(v, w); break;
    case 3: scalar<En, C>((En)(uint8_t)v, (En)(uint8_t)w); break;
    case 4: scalar<uint32_t*, C>(v & 1 ? &space[1] : nullptr, w & 1 ? &space[2] : nullptr); break;
    case 5: scalar<const char*, C>(v & 1 ? "x" : nullptr, w & 1 ? "yy" : nullptr); break;
    case 6: scalar<En64, C>((En64)v, (En64)w); break;
    case 7: { float x, y; memcpy(&x, &v, 4); memcpy(&y, &w, 4); __vp_assume((x == x) & (y == y)); scalar<float, C>(x, y); break; }
    case 8: { double x, y; memcpy(&x, &v, 8); memcpy(&y, &w, 8); __vp_assume((x == x) & (y == y)); scalar<double, C>(x, y); break; }
    default: scalar<Fn, C>(v & 1 ? fA : nullptr, w & 1 ? fB : nullptr); break;
  }
}
VP_ENTRY(scalars_ind) {
  switch (__vp_pick("traits", 3)) {
    case 0: scalars<Cfg<0, 0, 0, 0>>(); break;
    case 1: scalars<Cfg<1, 1, 1, 0>>(); break;
    default: scalars<Cfg<0, 0, 0, 1>>();
  }
}
