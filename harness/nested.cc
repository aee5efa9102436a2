// Recursive types: assigning an owner from an object inside its own owned
// object (list = std::move(list->next), tree = tree->child).
#include "ind.h"
#include "pol.h"
using namespace vp;

// A minimal optional (std::optional needs C++17).
template <class X>
struct Opt {
  alignas(8) char buf[sizeof(void*) + 8];
  bool on;
  X& x() { static_assert(sizeof(X) <= sizeof buf && alignof(X) <= 8, "size"); return *reinterpret_cast<X*>(buf); }
  const X& x() const { return *reinterpret_cast<const X*>(buf); }
  Opt() : on(false) {}
  Opt(const Opt& o) : on(false) { if (o.on) { ::new ((void*)buf) X(o.x()); on = true; } }
  Opt(Opt&& o) : on(false) { if (o.on) { ::new ((void*)buf) X(std::move(o.x())); on = true; } }
  explicit Opt(X&& v) : on(true) { ::new ((void*)buf) X(std::move(v)); }
  ~Opt() { if (on) x().~X(); }
};
template <class C>
struct Node {
  using I = xyz::indirect<Node, A_<Node, C>>;
  static constexpr int kind = 6;
  Tracked<6> t;
  Opt<I> next;
  explicit Node(uint32_t v) : t(v) {}
  Node(uint32_t v, I&& n) : t(v), next(std::move(n)) {}
  Node(const Node&) = default;
  Node(Node&&) = default;
  Node& operator=(const Node& o) {  // strong: copy, then swap
    Node tmp(o);
    uint32_t x = t.v; t.v = tmp.t.v; tmp.t.v = x;
    // buffers change hands without a swap of unequal allocators
    Opt<I> a(std::move(next));
    reset_move(next, tmp.next);
    return *this;
  }
  static void reset_move(Opt<I>& d, Opt<I>& s) {
    if (d.on) { d.x().~I(); d.on = false; }
    if (s.on) { ::new ((void*)d.buf) I(std::move(s.x())); d.on = true; }
  }
};
template <class C>
struct NM {
  using N = Node<C>;
  using I = typename N::I;
  using A = A_<N, C>;
  static void run() {
    start();
    {
      uint32_t v0 = __vp_nondet_u32("v0"), v1 = __vp_nondet_u32("v1"), v2 = __vp_nondet_u32("v2");
      uint32_t t0 = __vp_nondet_u32("alloc0"), t1 = __vp_nondet_u32("alloc1");
      bool vl = __vp_nondet_bool("nested valueless"), deep = __vp_nondet_bool("deep"), copy = __vp_nondet_bool("copy");
      // a -> n1 -> n2; the nested object is a->next (or a->next->next)
      I n2(std::allocator_arg, A(t1, 3), VP_IN_PLACE, v2);
      if (vl) { I sink(std::move(n2)); }
      I n1(std::allocator_arg, A(deep ? t0 : t1, 2), VP_IN_PLACE, v1, std::move(n2));
      bool nvl = vl;
      if (!deep && vl) { I sink(std::move(n1)); }
      else if (!deep) nvl = false;
      I a(std::allocator_arg, A(t0, 1), VP_IN_PLACE, v0, std::move(n1));
      bool eq = C::AE || t0 == t1;
      I& nested = deep ? a->next.x()->next.x() : a->next.x();
      CHK("C21", nested.valueless_after_move() == nvl, "the nested object has the state it was built with");
      uint32_t want = deep ? v2 : v1;
      uint32_t elems = G.liveElems, blocks = G.liveBlocks;
      const void* addr = nvl ? nullptr : &*nested;
      bool region = C::CM && !eq && !copy;
      arm(region ? 0 : 1);
      try {
        if (copy) a = static_cast<const I&>(nested);
        else a = std::move(nested);
        disarm();
        CHK("C21", a.valueless_after_move() == nvl, "owner takes over the nested object's state");
        if (!nvl) {
          CHK("C21", a->t.v == want, "owner has the nested object's value");
          if (!copy && eq) CHK("C21,C03", &*a == addr, "equal allocators: ownership of the nested object is transferred");
          CHK("C21", a->next.on == !deep, "the rest of the chain stays attached");
          if (!deep && copy) CHK("C21", a->next.x()->t.v == v2, "the rest of the chain keeps its value");
        }
        A al = a.get_allocator();
        CHK("C21,C08", (copy ? C::CA : C::CM) ? (al.tag == t1) & (al.id == (deep ? 3u : 2u)) : (al.tag == t0) & (al.id == 1), "allocator propagates as the traits say");
        __vp_cover(copy ? "nested copy assignment" : "nested move assignment");
      } catch (Fault& f) {
        disarm();
        CHK("C21", f.seq == G.faults, "the original exception propagates");
        CHK("C21", !a.valueless_after_move() && a->t.v == v0, "a failed assignment leaves the owner its value");
        if (copy) CHK("C21", (G.liveElems == elems) & (G.liveBlocks == blocks), "a failed assignment leaks nothing");
        __vp_cover("nested assignment failed");
      }
      {
        // the result is an ordinary object
        I c(std::move(a));
        CHK("C21,C11", a.valueless_after_move(), "owner can be moved from afterwards");
      }
    }
    finish();
  }
};

// assigning the value of a nested object: owner = *owner->next
template <class C>
struct NV {
  using N = Node<C>;
  using I = typename N::I;
  using A = A_<N, C>;
  static void run() {
    start();
    {
      uint32_t v0 = __vp_nondet_u32("v0"), v1 = __vp_nondet_u32("v1"), v2 = __vp_nondet_u32("v2");
      uint32_t t0 = __vp_nondet_u32("alloc0"), t1 = __vp_nondet_u32("alloc1");
      bool self = __vp_pick_bool("own value"), copy = __vp_pick_bool("copy");
      I n2(std::allocator_arg, A(t1, 3), VP_IN_PLACE, v2);
      I n1(std::allocator_arg, A(t1, 2), VP_IN_PLACE, v1, std::move(n2));
      I a(std::allocator_arg, A(t0, 1), VP_IN_PLACE, v0, std::move(n1));
      const N* addr = &*a;
      N& from = self ? *a : *a->next.x();
      uint32_t elems = G.liveElems, blocks = G.liveBlocks;
      arm(1);
      try {
        if (copy) a = static_cast<const N&>(from);
        else a = std::move(from);
        disarm();
        CHK("C21,C15", !a.valueless_after_move() && &*a == addr, "assigning the value of a nested object reuses the owned object");
        CHK("C21", a->t.v == (self ? v0 : v1), "owner has the nested object's value");
        if (copy || !self) CHK("C21", a->next.on && a->next.x()->t.v == (self ? v1 : v2), "the rest of the chain keeps its value");
        __vp_cover("nested value assigned");
      } catch (Fault& f) {
        disarm();
        CHK("C21", f.seq == G.faults, "the original exception propagates");
        CHK("C21", &*a == addr && a->t.v == v0 && a->next.x()->t.v == v1, "a failed assignment changes nothing");
        CHK("C21", (G.liveElems == elems) & (G.liveBlocks == blocks), "a failed assignment leaks nothing");
        __vp_cover("nested value assignment failed");
      }
      A al = a.get_allocator();
      CHK("C21,C08", (al.tag == t0) & (al.id == 1), "value assignment keeps the allocator");
    }
    finish();
  }
};

// polymorphic: a tree of expressions
template <class C>
struct EB {
  using P = xyz::polymorphic<EB, A_<EB, C>>;
  static constexpr int kind = 6;
  Tracked<6> t;
  explicit EB(uint32_t v) : t(v) {}
  EB(const EB&) = default;
  EB(EB&&) = default;
  virtual ~EB() {}
  virtual P* child() { return nullptr; }
  virtual uint32_t who() const { return 1; }
};
template <class C>
struct EC : EB<C> {
  typename EB<C>::P c;
  Tracked<7> u;
  EC(uint32_t v, typename EB<C>::P&& n) : EB<C>(v), c(std::move(n)), u(v) {}
  EC(const EC&) = default;
  EC(EC&&) = default;
  typename EB<C>::P* child() override { return &c; }
  uint32_t who() const override { return 2; }
};
template <class C>
struct PN {
  using B = EB<C>;
  using P = typename B::P;
  using A = A_<B, C>;
  static void run() {
    start();
    {
      uint32_t v0 = __vp_nondet_u32("v0"), v1 = __vp_nondet_u32("v1"), v2 = __vp_nondet_u32("v2");
      uint32_t t0 = __vp_nondet_u32("alloc0"), t1 = __vp_nondet_u32("alloc1");
      bool vl = __vp_nondet_bool("nested valueless"), deep = __vp_nondet_bool("deep"), copy = __vp_nondet_bool("copy");
      P n2(std::allocator_arg, A(t1, 3), VP_IPT(B), v2);
      if (vl && deep) { P sink(std::move(n2)); }
      P n1(std::allocator_arg, A(deep ? t0 : t1, 2), VP_IPT(EC<C>), v1, std::move(n2));
      if (vl && !deep) { P sink(std::move(n1)); }
      P a(std::allocator_arg, A(t0, 1), VP_IPT(EC<C>), v0, std::move(n1));
      bool eq = C::AE || t0 == t1;
      P& nested = deep ? *(*a->child())->child() : *a->child();
      CHK("C21", nested.valueless_after_move() == vl, "the nested object has the state it was built with");
      uint32_t want = deep ? v2 : v1, who = deep ? 1 : 2;
      uint32_t elems = G.liveElems, blocks = G.liveBlocks;
      const void* addr = vl ? nullptr : &*nested;
      bool region = C::CM && !eq && !copy;
      arm(region ? 0 : 1);
      try {
        if (copy) a = static_cast<const P&>(nested);
        else a = std::move(nested);
        disarm();
        CHK("C21", a.valueless_after_move() == vl, "owner takes over the nested object's state");
        if (!vl) {
          CHK("C21,C02", (a->t.v == want) & (a->who() == who), "owner has the nested object's value and dynamic type");
          if (!copy && eq) CHK("C21,C03", &*a == addr, "equal allocators: ownership of the nested object is transferred");
          if (copy) CHK("C21", &*a != addr, "copy owns a separate object");
          if (!deep) CHK("C21", (*a->child())->t.v == v2, "the rest of the tree keeps its value");
        }
        A al = a.get_allocator();
        CHK("C21,C08", (copy ? C::CA : C::CM) ? (al.tag == t1) & (al.id == (deep ? 3u : 2u)) : (al.tag == t0) & (al.id == 1), "allocator propagates as the traits say");
        __vp_cover(copy ? "nested copy assignment" : "nested move assignment");
      } catch (Fault& f) {
        disarm();
        CHK("C21", f.seq == G.faults, "the original exception propagates");
        CHK("C21", !a.valueless_after_move() && (a->t.v == v0) & (a->who() == 2), "a failed assignment leaves the owner its value");
        if (copy) CHK("C21", (G.liveElems == elems) & (G.liveBlocks == blocks), "a failed assignment leaks nothing");
        __vp_cover("nested assignment failed");
      }
      {
        P c(std::move(a));
        CHK("C21,C11", a.valueless_after_move(), "owner can be moved from afterwards");
      }
    }
    finish();
  }
};
#define MACHINE(CF) NM<CF>
#include "configs.h"
#define BODY M::run()
VP_ENTRY(nested_ind) { CONFIGS }
#undef BODY
#define BODY PN<CF>::run()
VP_ENTRY(nested_pol) { CONFIGS }
#undef BODY
#define BODY NV<CF>::run()
VP_ENTRY(nested_value) { CONFIGS }
#undef BODY
