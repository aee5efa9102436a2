// Composite classes with generated special members, and the types nested in
// each other, in std::optional and in std::vector, with faults anywhere (C22).
#include "ind.h"
#include "pol.h"
#include <vector>
#if __cplusplus >= 201703L
#include <optional>
#endif
using namespace vp;
using C0 = Cfg<0, 0, 0, 0>;
using CF_ = Cfg<0, 1, 0, 1>;  // always equal: noexcept moves
using CE_ = Cfg<0, 0, 0, 1>;  // the same without propagation
template <class C> using I_ = xyz::indirect<VS, A_<VS, C>>;
template <class C> using P_ = xyz::polymorphic<PB, A_<PB, C>>;

// everything a user generates with = default
template <class C>
struct Comp {
  uint32_t plain;
  I_<C> i;
  P_<C> p;
  I_<C> j;
  Comp(uint32_t v, uint32_t w, uint32_t x, bool d2, uint32_t tag)
      : plain(v + w), i(std::allocator_arg, A_<VS, C>(tag, 1), VP_IN_PLACE, v),
        p(d2 ? P_<C>(std::allocator_arg, A_<PB, C>(tag, 2), VP_IPT(D2), w) : P_<C>(std::allocator_arg, A_<PB, C>(tag, 2), VP_IPT(D1), w)),
        j(std::allocator_arg, A_<VS, C>(tag, 3), VP_IN_PLACE, x) {}
};
struct V3 {
  uint32_t v, w, x;
  bool d2;
  bool vi, vp, vj;  // valueless members
};
template <class C>
static bool has(const Comp<C>& c, const V3& m) {
  if (c.plain != m.v + m.w) return false;
  if (m.vi ? !c.i.valueless_after_move() : c.i.valueless_after_move() || c.i->t.v != m.v) return false;
  if (m.vj ? !c.j.valueless_after_move() : c.j.valueless_after_move() || c.j->t.v != m.x) return false;
  if (m.vp) return c.p.valueless_after_move();
  return !c.p.valueless_after_move() && c.p->t.v == m.w && c.p->who() == (m.d2 ? 3u : 2u);
}
template <class C>
static bool apart(const Comp<C>& a, const Comp<C>& b, const V3& m) {
  bool r = true;
  if (!m.vi) r = r & (&*a.i != &*b.i);
  if (!m.vj) r = r & (&*a.j != &*b.j);
  if (!m.vp) r = r & (&*a.p != &*b.p);
  return r;
}
template <class C>
struct Addr {
  const void *i, *p, *j;
  Addr(const Comp<C>& c) : i(c.i.valueless_after_move() ? nullptr : (const void*)&*c.i), p(c.p.valueless_after_move() ? nullptr : (const void*)&*c.p), j(c.j.valueless_after_move() ? nullptr : (const void*)&*c.j) {}
  bool operator==(const Addr& o) const { return (i == o.i) & (p == o.p) & (j == o.j); }
};
static V3 pick3(const char* n) {
  V3 m;
  m.v = __vp_nondet_u32(n);
  m.w = __vp_nondet_u32(n);
  m.x = __vp_nondet_u32(n);
  m.d2 = __vp_pick_bool("derived type");
  m.vi = m.vp = m.vj = false;
  return m;
}
template <class C>
static void composite() {
  start();
  {
    V3 m = pick3("a"), n = pick3("b");
    uint32_t s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    Comp<C> a(m.v, m.w, m.x, m.d2, s), b(n.v, n.w, n.x, n.d2, t);
    if (__vp_pick_bool("a.i valueless")) { I_<C> x(std::move(a.i)); m.vi = true; }
    if (__vp_pick_bool("b.p valueless")) { P_<C> x(std::move(b.p)); n.vp = true; }
    Addr<C> aa(a), ab(b);
    bool eq = C::AE || s == t;
    V3 gone = m;
    gone.vi = gone.vp = gone.vj = true;
    uint8_t op = __vp_pick("operation", 6);
    arm((op == 3 || op == 4) && C::CM ? 0 : 1);
    bool failed = false;
    try {
      switch (op) {
        case 0: {
          Comp<C> c(a);
          CHK("C22", has(c, m) && apart(a, c, m), "a copy equals the original and shares nothing with it");
          if (!m.vi) { c.i->t.v = ~m.v; c.p->t.v = ~m.w; }
          CHK("C22", has(a, m), "changing a copy does not change the original");
          break;
        }
        case 1: {
          Comp<C> c(std::move(a));
          CHK("C22", has(c, m) && Addr<C>(c) == aa, "a move transfers all members");
          CHK("C22", has(a, gone), "leaving the source's members valueless");
          break;
        }
        case 2:
          a = static_cast<const Comp<C>&>(b);
          CHK("C22", has(a, n) && has(b, n) && Addr<C>(b) == ab && apart(a, b, n), "copy assignment gives an independent equal value");
          break;
        case 3:
          a = std::move(b);
          CHK("C22", has(a, n), "move assignment gives the value");
          if (eq) CHK("C22", Addr<C>(a) == ab, "move assignment transfers all members");
          break;
        case 4: {
          if (C::AE || eq) {
            clear_counts();
            { using std::swap; swap(a, b); }
            CHK("C22", has(a, n) && has(b, m) && Addr<C>(a) == ab && Addr<C>(b) == aa, "std::swap exchanges all members");
            CHK("C22", G.cnt[0][E_ALLOC] + G.cnt[1][E_CCTOR] + G.cnt[1][E_MCTOR] == 0, "without touching the owned objects");
          }
          break;
        }
        default: {
          Comp<C> c(a);
          a = c;  // and back
          c = std::move(a);
          CHK("C22", has(c, m), "copy, assignment and move compose");
        }
      }
    } catch (Fault&) {
      failed = true;
      __vp_cover("an operation failed");
      if (op == 0) CHK("C22", has(a, m) && Addr<C>(a) == aa, "a failed copy leaves the original alone");
      if (op == 2) CHK("C22", has(b, n) && Addr<C>(b) == ab, "a failed assignment leaves the source alone");
    }
    disarm();
    if (!failed) __vp_cover("operation done");
  }
  finish();
}
VP_ENTRY(composite) {
  switch (__vp_pick("config", 4)) {
    case 0: composite<C0>(); break;
    case 1: composite<CF_>(); break;
    case 2: composite<Cfg<1, 1, 1, 0>>(); break;
    default: composite<Cfg<1, 0, 1, 0, 1, 1>>(); break;
  }
}

// The types in each other: the owned object is itself an owner.
template <class C>
struct Inner {
  I_<C> i;
  P_<C> p;
  Inner(uint32_t v, uint32_t w, uint32_t tag) : i(std::allocator_arg, A_<VS, C>(tag, 1), VP_IN_PLACE, v), p(std::allocator_arg, A_<PB, C>(tag, 2), VP_IPT(D1), w) {}
};
template <class C>
static void nest() {
  using N = Inner<C>;
  using O = xyz::indirect<N, A_<N, C>>;
  start();
  {
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w"), x = __vp_nondet_u32("x"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    O a(std::allocator_arg, A_<N, C>(s, 4), VP_IN_PLACE, v, w, s), b(std::allocator_arg, A_<N, C>(t, 5), VP_IN_PLACE, x, x, t);
    const void* ib = &*b->i;
    uint8_t op = __vp_pick("operation", 5);
    arm(op == 2 && C::CM ? 0 : 1);
    bool failed = false;
    try {
      switch (op) {
        case 0: {
          O c(a);
          CHK("C22", c->i->t.v == v && c->p->t.v == w && &*c->i != &*a->i && &*c->p != &*a->p, "copying an owner of owners is deep");
          c->i->t.v = ~v;
          CHK("C22", a->i->t.v == v, "and independent");
          break;
        }
        case 1: a = static_cast<const O&>(b); CHK("C22", a->i->t.v == x && a->p->t.v == x && &*a->i != ib && &*b->i == ib, "copy-assigning an owner of owners is deep"); break;
        case 2: a = std::move(b); CHK("C22", a->i->t.v == x && a->p->t.v == x && ((&*a->i == ib) | !(C::AE || s == t)), "moving an owner of owners moves what it owns"); break;
        case 3: { O c(std::move(b)); CHK("C22", c->i->t.v == x && &*c->i == ib, "moving an owner of owners moves what it owns"); break; }
        default: a->i = b->i; CHK("C22", a->i->t.v == x && a->p->t.v == w && b->i->t.v == x, "assigning a nested member changes only it");
      }
    } catch (Fault&) {
      failed = true;
      __vp_cover("an operation failed");
      CHK("C22", !a.valueless_after_move() && !b.valueless_after_move(), "a failed operation leaves usable objects");
      if (op == 4) CHK("C22", a->i->t.v == v && a->p->t.v == w, "a failed assignment of a member changes nothing");
      if (op == 0 || op == 3) CHK("C22", a->i->t.v == v && a->p->t.v == w, "a failed copy leaves the original alone");
      if (op == 1) CHK("C22", b->i->t.v == x && b->p->t.v == x && &*b->i == ib, "a failed assignment leaves the source alone");
    }
    disarm();
    if (!failed) __vp_cover("operation done");
  }
  finish();
}
VP_ENTRY(nesting) {
  switch (__vp_pick("config", 3)) {
    case 0: nest<C0>(); break;
    case 1: nest<CF_>(); break;
    default: nest<Cfg<1, 1, 1, 0>>(); break;
  }
}

// std::optional
#if __cplusplus >= 201703L
template <class O, class MK, class RD>
static void optional(MK mk, RD rd) {
  using Q = std::optional<O>;
  start();
  {
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w");
    bool ea = __vp_pick_bool("a empty"), eb = __vp_pick_bool("b empty");
    Q a, b;
    if (!ea) a.emplace(mk(v, 1));
    if (!eb) b.emplace(mk(w, 2));
    const void* pb = eb ? nullptr : (const void*)&**b;
    uint8_t op = __vp_pick("operation", 5);
    arm(1);
    try {
      switch (op) {
        case 0: { Q c(a); CHK("C22", c.has_value() == !ea && (ea || (rd(*c) == v && &**c != &**a)), "a copied optional is deep"); break; }
        case 1: { Q c(std::move(b)); CHK("C22", c.has_value() == !eb && (eb || (rd(*c) == w && &**c == pb)), "a moved optional transfers the object"); break; }
        case 2: a = b; CHK("C22", a.has_value() == !eb && (eb || (rd(*a) == w && &**a != pb && rd(*b) == w)), "a copy-assigned optional is deep"); break;
        case 3: a.swap(b); CHK("C22", a.has_value() == !eb && b.has_value() == !ea && (eb || (rd(*a) == w && &**a == pb)) && (ea || rd(*b) == v), "swapped optionals exchange objects"); break;
        default: a.reset(); CHK("C22", !a.has_value() && (eb || rd(*b) == w), "reset releases only its own object"); break;
      }
      __vp_cover("operation done");
    } catch (Fault&) {
      __vp_cover("an operation failed");
      CHK("C22", eb || op == 1 || op == 3 || (rd(*b) == w && &**b == pb), "a failed operation leaves the source alone");
      if (op == 0) CHK("C22", ea || rd(*a) == v, "a failed copy leaves the original alone");
      if (op == 2 && !ea) CHK("C22", rd(*a) == v, "a failed assignment leaves the target alone");
    }
    disarm();
  }
  finish();
}
VP_ENTRY(optional_ind) {
  if (__vp_pick_bool("always equal")) optional<I_<CF_>>([](uint32_t v, uint32_t i) { return I_<CF_>(std::allocator_arg, A_<VS, CF_>(i, i), VP_IN_PLACE, v); }, [](const I_<CF_>& x) { return x->t.v; });
  else optional<I_<C0>>([](uint32_t v, uint32_t i) { return I_<C0>(std::allocator_arg, A_<VS, C0>(4, i), VP_IN_PLACE, v); }, [](const I_<C0>& x) { return x->t.v; });
}
VP_ENTRY(optional_pol) {
  if (__vp_pick_bool("always equal")) optional<P_<CF_>>([](uint32_t v, uint32_t i) { return P_<CF_>(std::allocator_arg, A_<PB, CF_>(i, i), VP_IPT(D1), v); }, [](const P_<CF_>& x) { return x->t.v; });
  else optional<P_<C0>>([](uint32_t v, uint32_t i) { return P_<C0>(std::allocator_arg, A_<PB, C0>(4, i), VP_IPT(D1), v); }, [](const P_<C0>& x) { return x->t.v; });
}
#endif

template <class O> static const void* where(const O& o) { return &*o; }
template <class C> static const void* where(const Comp<C>& o) { return &*o.i; }
// std::vector, growing while allocations and copies fail
// With always-equal allocators moves are noexcept, so growth hands over the
// owned objects instead of copying them.
template <class O, class MK, class RD>
static void vec(MK mk, RD rd, bool handover) {
  start();
  {
    uint32_t val[4];
    for (int i = 0; i < 4; i++) val[i] = __vp_nondet_u32("v");
    std::vector<O> q;
    q.reserve(2);
    q.push_back(mk(val[0]));
    q.push_back(mk(val[1]));
    const void *p0 = where(q[0]), *p1 = where(q[1]);
    uint8_t op = __vp_pick("operation", 6);
    size_t n = 2;
    arm(1);
    __vp_new_faults(true);
    bool failed = false;
    try {
      switch (op) {
        case 0: q.push_back(mk(val[2])); n = 3; CHK("C22", rd(q[2]) == val[2], "growth appends the value"); break;
        case 1: { std::vector<O> c(q); CHK("C22", c.size() == 2 && rd(c[0]) == val[0] && rd(c[1]) == val[1] && where(c[0]) != p0, "a copied vector is deep"); break; }
        case 2: { std::vector<O> c(std::move(q)); CHK("C22", c.size() == 2 && rd(c[0]) == val[0] && where(c[0]) == p0, "a moved vector transfers"); n = 0; break; }
        case 3: q.emplace_back(q[0]); n = 3; CHK("C22", rd(q[2]) == val[0] && where(q[2]) != where(q[0]), "growth by a copy of an element is deep"); break;
        case 4: q.erase(q.begin()); n = 1; CHK("C22", rd(q[0]) == val[1], "erase shifts values down"); break;
        default: q.insert(q.begin(), mk(val[3])); n = 3; CHK("C22", rd(q[0]) == val[3] && rd(q[1]) == val[0] && rd(q[2]) == val[1], "insert shifts values up"); break;
      }
      CHK("C22", q.size() == n, "the vector has the expected length");
      __vp_cover("operation done");
    } catch (Fault&) {
      failed = true;
    } catch (std::bad_alloc&) {
      failed = true;
    }
    __vp_new_faults(false);
    disarm();
    if (failed) {
      __vp_cover("an operation failed");
      if (op < 2) CHK("C22", q.size() == 2 && rd(q[0]) == val[0] && rd(q[1]) == val[1], "failed growth or copy leaves the vector's values alone");
    }
    if (!failed && (op == 0 || op == 3)) CHK("C22", rd(q[0]) == val[0] && rd(q[1]) == val[1], "growth keeps the values");
    if (handover && op < 4 && op != 2 && q.size() >= 2) CHK("C22", where(q[0]) == p0 && where(q[1]) == p1, "growth hands over the owned objects of always-equal allocators");
    if (handover && !failed && op == 4) CHK("C22", where(q[0]) == p1, "erase hands over the owned objects of always-equal allocators");
    if (handover && !failed && op == 5) CHK("C22", where(q[1]) == p0 && where(q[2]) == p1, "insert hands over the owned objects of always-equal allocators");
  }
  finish();
}
VP_ENTRY(vector_ind) {
  uint8_t how = __vp_pick("always equal", 3);
  if (how == 1) vec<I_<CF_>>([](uint32_t v) { return I_<CF_>(std::allocator_arg, A_<VS, CF_>(4, 1), VP_IN_PLACE, v); }, [](const I_<CF_>& x) { return x->t.v; }, true);
  else if (how == 2) vec<I_<CE_>>([](uint32_t v) { return I_<CE_>(std::allocator_arg, A_<VS, CE_>(4, 1), VP_IN_PLACE, v); }, [](const I_<CE_>& x) { return x->t.v; }, true);
  else vec<I_<C0>>([](uint32_t v) { return I_<C0>(std::allocator_arg, A_<VS, C0>(4, 1), VP_IN_PLACE, v); }, [](const I_<C0>& x) { return x->t.v; }, false);
}
VP_ENTRY(vector_pol) {
  uint8_t how = __vp_pick("always equal", 3);
  if (how == 1) vec<P_<CF_>>([](uint32_t v) { return P_<CF_>(std::allocator_arg, A_<PB, CF_>(4, 1), VP_IPT(D1), v); }, [](const P_<CF_>& x) { return x->t.v; }, true);
  else if (how == 2) vec<P_<CE_>>([](uint32_t v) { return P_<CE_>(std::allocator_arg, A_<PB, CE_>(4, 1), VP_IPT(D1), v); }, [](const P_<CE_>& x) { return x->t.v; }, true);
  else vec<P_<C0>>([](uint32_t v) { return P_<C0>(std::allocator_arg, A_<PB, C0>(4, 1), VP_IPT(D2), v); }, [](const P_<C0>& x) { return x->t.v; }, false);
}
VP_ENTRY(vector_comp) {
  vec<Comp<CF_>>([](uint32_t v) { return Comp<CF_>(v, v + 1, v + 2, true, 4); }, [](const Comp<CF_>& c) { return has(c, V3{c.i->t.v, c.i->t.v + 1, c.i->t.v + 2, true, false, false, false}) ? c.i->t.v : 0; }, true);
}
