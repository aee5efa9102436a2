// One-step harness for indirect: every operation, from an arbitrary state of
// its operands, checked against a complete postcondition.
#ifndef VP_IND_H
#define VP_IND_H
#if VP_STD == 20
#include "indirect.h"
#define VP_IN_PLACE std::in_place
#else
#include "indirect_cxx14.h"
#define VP_IN_PLACE xyz::in_place_t{}
#endif
#include "env.h"

namespace vp {

template <class T_, class A_t, class C_>
struct IM {
  using T = T_;
  using A = A_t;
  using C = C_;
  using I = xyz::indirect<T, A>;
  static constexpr int K = T::kind;

  struct Snap {
    bool vl;
    const void* addr;
    uint32_t serial;
    uint32_t v;
    bool moved;
    uint32_t tag, id;
  };
  static Snap snap(const I& o) {
    Snap s;
    s.vl = o.valueless_after_move();
    s.addr = nullptr;
    s.serial = 0;
    s.v = 0;
    s.moved = false;
    A al = o.get_allocator();
    s.tag = al.tag;
    s.id = al.id;
    if (!s.vl) {
      const T& t = *o;
      s.addr = &t;
      ElemRec* r = find_elem(&t.t, K);
      CHK("*", r != nullptr, "the owned object is alive");
      s.serial = r->serial;
      s.v = t.t.v;
      s.moved = t.t.moved;
      CHK("C05", in_one_block(&t, sizeof(T), s.tag, C::AE), "owned object lies within one live block of an equal allocator");
      CHK("C05", ((uintptr_t)&t % alignof(T)) == 0, "owned object is aligned");
    }
    return s;
  }
  // identical in every respect
  static bool same(const Snap& a, const Snap& b) {
    return (a.vl == b.vl) & (a.addr == b.addr) & (a.serial == b.serial) & (a.v == b.v) & (a.moved == b.moved) & (a.tag == b.tag) & (a.id == b.id);
  }
  // same object, its value aside
  static bool same_shape(const Snap& a, const Snap& b) {
    return (a.vl == b.vl) & (a.addr == b.addr) & (a.serial == b.serial) & (a.tag == b.tag) & (a.id == b.id);
  }
  static bool alloc_is(const Snap& a, const Snap& from) { return (a.tag == from.tag) & (a.id == from.id); }
  static uint32_t n(Ev e) { return G.cnt[K][e]; }
  static uint32_t nblk(Ev e) { return G.cnt[0][e]; }
  static bool quiet() {  // nothing was done to any owned object, no storage obtained
    return (n(E_DCTOR) + n(E_VCTOR) + n(E_CCTOR) + n(E_MCTOR) + n(E_CASSIGN) + n(E_MASSIGN) + nblk(E_ALLOC)) == 0;
  }
  static uint32_t ctors() { return n(E_DCTOR) + n(E_VCTOR) + n(E_CCTOR) + n(E_NCCTOR) + n(E_MCTOR); }
  static uint32_t assigns() { return n(E_CASSIGN) + n(E_MASSIGN) + n(E_VASSIGN_L) + n(E_VASSIGN_CL) + n(E_VASSIGN_R); }

  // An object in an arbitrary state.
  struct H {
    I o;
    H(uint32_t v, uint32_t tag, uint32_t id, bool vl) : o(std::allocator_arg, A(tag, id), VP_IN_PLACE, v) {
      if (vl) {
        I sink(std::move(o));
        CHK("C03,C11", o.valueless_after_move(), "moved-from object is valueless");
      }
    }
    static H make();
  };
#define VP_IH(name, idv)                                             \
  bool name##_vl = __vp_nondet_bool(#name ".valueless");             \
  uint32_t name##_v = __vp_nondet_u32(#name ".value");               \
  uint32_t name##_t = __vp_nondet_u32(#name ".alloc");               \
  H name##_h(name##_v, name##_t, idv, name##_vl);                    \
  I& name = name##_h.o

  static bool eqAlloc(const Snap& a, const Snap& b) { return C::AE || a.tag == b.tag; }

  // ------------------------------------------------------------ copies
  // how: 0 copy ctor from const, 1 from a non-const lvalue, 2 allocator-extended
  static void copy_construct() {
    start();
    {
      VP_IH(b, 2);
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 3);
      uint32_t t3 = __vp_nondet_u32("new.alloc");
      Snap b0 = snap(b);
      uint32_t blocks = G.liveBlocks;
      arm(2);
      try {
        const I& cb = b;
        A al(t3, 3);
        struct Post {
          static void run(I& c, I& b, const Snap& b0, uint32_t tag, uint32_t id) {
            disarm();
            Snap c1 = snap(c), b1 = snap(b);
            CHK("C01,C11", c1.vl == b0.vl, "copy is valueless iff the source is");
            CHK("C01", same(b0, b1), "copying leaves the source untouched");
            CHK("C08", (c1.tag == tag) & (c1.id == id), "copy construction selects the right allocator");
            if (!b0.vl) {
              CHK("C01", (c1.v == b0.v) & (c1.moved == b0.moved), "copy has the source's value");
              CHK("C01", c1.addr != b0.addr, "copy owns a separate object");
              CHK("C01,C18", (n(E_CCTOR) == 1) & (ctors() == 1) & (assigns() == 0), "copy made by exactly one copy construction");
              CHK("C05,C18", nblk(E_ALLOC) == 1, "copy allocates exactly one block");
              if (C::HOOK) CHK("C05", n(E_HCONSTRUCT) == 1, "constructed through the allocator");
              // independence both ways
              uint32_t x = __vp_nondet_u32("x");
              c->t.v = x;
              CHK("C01", same(snap(b), b0), "modifying the copy leaves the source unchanged");
              b->t.v = x + 1;
              CHK("C01", snap(c).v == x, "modifying the source leaves the copy unchanged");
              b->t.v = b0.v;
              __vp_cover("copy of a value");
            } else {
              CHK("C01,C11", quiet(), "copying a valueless object does nothing else");
              __vp_cover("copy of valueless");
            }
          }
        };
        if (how == 0) {
          I c(cb);
          Post::run(c, b, b0, b0.tag + (C::SOC ? 1000 : 0), b0.id + (C::SOC ? 1000 : 0));
        } else if (how == 1) {
          I c(b);
          Post::run(c, b, b0, b0.tag + (C::SOC ? 1000 : 0), b0.id + (C::SOC ? 1000 : 0));
        } else {
          I c(std::allocator_arg, al, cb);
          Post::run(c, b, b0, t3, 3);
        }
        if (!b0.vl && C::HOOK) CHK("C05", n(E_HDESTROY) == 1, "destroyed through the allocator");
      } catch (Fault& f) {
        disarm();
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07,C01", same(snap(b), b0), "failed copy leaves the source unchanged");
        CHK("C07,C04", (G.liveBlocks == blocks) & (G.liveElems == (b0.vl ? 0u : 1u)), "failed copy leaks nothing");
        CHK("C11", snap(b).vl == b0.vl, "failure makes nothing valueless");
        __vp_cover("copy failed");
      }
      CHK("C01", same(snap(b), b0), "destroying the copy leaves the source unchanged");
      CHK("C04", G.liveBlocks == blocks, "destroying the copy releases its block");
    }
    finish();
  }

  // ------------------------------------------------------------ moves
  static void move_construct() {
    start();
    {
      VP_IH(b, 2);
      Snap b0 = snap(b);
      arm(2);
      {
        I c(std::move(b));
        disarm();
        Snap c1 = snap(c), b1 = snap(b);
        CHK("C03,C11", b1.vl, "source of a move construction is valueless");
        CHK("C03,C11", c1.vl == b0.vl, "target is valueless iff the source was");
        CHK("C03", (c1.addr == b0.addr) & (c1.serial == b0.serial) & (c1.v == b0.v), "move transfers the owned object");
        CHK("C03", quiet(), "move construction allocates nothing and touches no owned object");
        CHK("C08", alloc_is(c1, b0), "move construction takes the source's allocator");
        CHK("C08", alloc_is(b1, b0), "move construction keeps the source's allocator");
        __vp_cover(b0.vl ? "move of valueless" : "move of a value");
      }
      if (!b0.vl) CHK("C04", G.liveElems == 0, "moved object destroyed with its new owner");
    }
    finish();
  }
  static void ext_move_construct() {
    start();
    {
      VP_IH(b, 2);
      uint32_t t3 = __vp_nondet_u32("new.alloc");
      Snap b0 = snap(b);
      uint32_t blocks = G.liveBlocks;
      bool eq = C::AE || t3 == b0.tag;
      arm(2);
      try {
        I c(std::allocator_arg, A(t3, 3), std::move(b));
        disarm();
        Snap c1 = snap(c), b1 = snap(b);
        CHK("C08", (c1.tag == t3) & (c1.id == 3), "allocator-extended constructor uses the given allocator");
        CHK("C08", alloc_is(b1, b0), "source keeps its allocator");
        CHK("C03,C11", c1.vl == b0.vl, "target is valueless iff the source was");
        if (eq) {
          CHK("C03,C11", b1.vl, "source is valueless after an ownership transfer");
          CHK("C03", (c1.addr == b0.addr) & (c1.serial == b0.serial) & (c1.v == b0.v), "move transfers the owned object");
          CHK("C03", quiet(), "transfer allocates nothing and touches no owned object");
          __vp_cover("extended move, equal allocators");
        } else if (!b0.vl) {
          CHK("C03", (c1.v == b0.v) & (c1.addr != b0.addr), "unequal allocators: the value arrives in a new object");
          CHK("C03,C18", (n(E_MCTOR) == 1) & (ctors() == 1) & (assigns() == 0) & (nblk(E_ALLOC) == 1), "unequal allocators: re-created once, from an rvalue");
          CHK("C11", !b1.vl, "source of an unequal-allocator move is not valueless");
          __vp_cover("extended move, unequal allocators");
        } else {
          CHK("C03,C11", b1.vl & quiet(), "valueless source stays valueless");
        }
      } catch (Fault& f) {
        disarm();
        Snap b1 = snap(b);
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07", same_shape(b0, b1) & (b1.v == b0.v), "failed move construction leaves the source its object");
        CHK("C07,C04", G.liveBlocks == blocks, "failed move construction leaks nothing");
        CHK("C11", b1.vl == b0.vl, "failure makes nothing valueless");
        __vp_cover("extended move failed");
      }
    }
    finish();
  }

  // ------------------------------------------------------------ assignment
  static void copy_assign() {
    start();
    {
      VP_IH(a, 1);
      VP_IH(b, 2);
      copy_assign_op(a, b);
      use_after(a);
    }
    finish();
  }
  static void copy_assign_op(I& a, I& b) {
    Snap a0 = snap(a), b0 = snap(b);
    uint32_t blocks = G.liveBlocks, elems = G.liveElems;
    bool eq = eqAlloc(a0, b0);
    bool inplace = !a0.vl && !b0.vl && eq;
    arm(2);
    try {
      I& r = a = static_cast<const I&>(b);
      disarm();
      CHK("C01", &r == &a, "assignment returns the target");
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C01,C11", a1.vl == b0.vl, "target is valueless iff the source is");
      CHK("C01", same(b0, b1), "copy assignment leaves the source untouched");
      CHK("C08", alloc_is(a1, C::CA ? b0 : a0), "copy assignment propagates the allocator iff POCCA");
      if (!b0.vl) {
        CHK("C01", (a1.v == b0.v) & (a1.moved == b0.moved), "target has the source's value");
        CHK("C01", a1.addr != b0.addr, "target owns a separate object");
        if (inplace) {
          CHK("C15", (a1.addr == a0.addr) & (a1.serial == a0.serial), "equal allocators: the owned object is reused");
          CHK("C15", (n(E_CASSIGN) == 1) & (assigns() == 1) & (ctors() == 0) & (n(E_DTOR) == 0) & (nblk(E_ALLOC) == 0), "equal allocators: exactly one copy assignment, no allocation");
          __vp_cover("copy assignment in place");
        } else {
          CHK("C01,C18", (n(E_CCTOR) == 1) & (ctors() == 1) & (assigns() == 0), "new object made by exactly one copy construction");
          CHK("C05,C18", nblk(E_ALLOC) == 1, "exactly one allocation");
          CHK("C04", (n(E_DTOR) == (a0.vl ? 0u : 1u)) & (nblk(E_DEALLOC) == (a0.vl ? 0u : 1u)), "the previous object is destroyed and released once");
          __vp_cover("copy assignment by construction");
        }
        uint32_t x = __vp_nondet_u32("x");
        a->t.v = x;
        CHK("C01", same(snap(b), b0), "modifying the target leaves the source unchanged");
        b->t.v = x + 1;
        CHK("C01", snap(a).v == x, "modifying the source leaves the target unchanged");
        b->t.v = b0.v;
        a->t.v = a1.v;
      } else {
        CHK("C01,C04", quiet() & (n(E_DTOR) == (a0.vl ? 0u : 1u)), "assigning a valueless object only releases");
        __vp_cover("copy assignment from valueless");
      }
      CHK("C04,C05", G.liveBlocks == blocks - (a0.vl ? 0u : 1u) + (b0.vl ? 0u : 1u), "one block per object with a value");
    } catch (Fault& f) {
      disarm();
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C06", f.seq == G.faults, "the original exception propagates");
      CHK("C06,C01", same(b0, b1), "failed copy assignment leaves the source unchanged");
      if (inplace) CHK("C06", same_shape(a0, a1), "failed in-place assignment affects only the owned value");
      else CHK("C06", same(a0, a1), "failed copy assignment leaves the target unchanged");
      CHK("C08", alloc_is(a1, a0), "failed copy assignment keeps the allocator");
      CHK("C11", a1.vl == a0.vl, "failure makes nothing valueless");
      CHK("C06,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed copy assignment leaks nothing");
      __vp_cover("copy assignment failed");
    }
  }
  static void move_assign(bool pocmaUnequal) {
    start();
    {
      VP_IH(a, 1);
      VP_IH(b, 2);
      // Declared noexcept although it may allocate: that region is decided
      // separately (C17, see known_findings.txt).
      bool region = C::CM && !C::AE && a_t != b_t;
      if (pocmaUnequal) __vp_assume(region);
      move_assign_op(a, b, region && !pocmaUnequal ? 0 : 2);
      use_after(a);
      use_after(b);
    }
    finish();
  }
  static void move_assign_op(I& a, I& b, uint32_t budget) {
    Snap a0 = snap(a), b0 = snap(b);
    uint32_t blocks = G.liveBlocks, elems = G.liveElems;
    bool eq = eqAlloc(a0, b0);
    arm(budget);
    try {
      I& r = a = std::move(b);
      disarm();
      CHK("C03", &r == &a, "assignment returns the target");
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C03,C11", a1.vl == b0.vl, "target is valueless iff the source was");
      CHK("C08", alloc_is(a1, C::CM ? b0 : a0), "move assignment propagates the allocator iff POCMA");
      CHK("C08", alloc_is(b1, b0), "source keeps its allocator");
      if (b0.vl) {
        CHK("C03,C11", b1.vl & quiet(), "valueless source stays valueless");
        __vp_cover("move assignment from valueless");
      } else if (eq) {
        CHK("C03,C11", b1.vl, "source is valueless after an ownership transfer");
        CHK("C03", (a1.addr == b0.addr) & (a1.serial == b0.serial) & (a1.v == b0.v), "move assignment transfers the owned object");
        CHK("C03", quiet(), "transfer allocates nothing and touches no owned object");
        __vp_cover("move assignment, equal allocators");
      } else {
        CHK("C03", (a1.v == b0.v) & (a1.addr != b0.addr) & (a1.addr != a0.addr), "unequal allocators: the value arrives in a new object");
        CHK("C03,C18", (n(E_MCTOR) == 1) & (ctors() == 1) & (assigns() == 0) & (nblk(E_ALLOC) == 1), "unequal allocators: re-created once, from an rvalue");
        CHK("C11", !b1.vl, "source of an unequal-allocator move is not valueless");
        CHK("C03", (b1.addr == b0.addr) & (b1.serial == b0.serial), "source keeps its moved-from object");
        __vp_cover("move assignment, unequal allocators");
      }
      CHK("C04", (n(E_DTOR) == (a0.vl ? 0u : 1u)) & (nblk(E_DEALLOC) == (a0.vl ? 0u : 1u)), "the previous object is destroyed and released once");
    } catch (Fault& f) {
      disarm();
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C06", f.seq == G.faults, "the original exception propagates");
      CHK("C06", same(a0, a1), "failed move assignment leaves the target unchanged");
      CHK("C06", same_shape(b0, b1) & (b0.v == b1.v), "failed move assignment leaves the source its object");
      CHK("C08", alloc_is(a1, a0) & alloc_is(b1, b0), "failed move assignment keeps the allocators");
      CHK("C11", (a1.vl == a0.vl) & (b1.vl == b0.vl), "failure makes nothing valueless");
      CHK("C06,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed move assignment leaks nothing");
      __vp_cover("move assignment failed");
    }
  }
  static void self_ops() {
    start();
    {
      VP_IH(a, 1);
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 4);
      Snap a0 = snap(a);
      I& alias = a;
      arm(2);
      try {
        if (how == 0) a = static_cast<const I&>(alias);
        else if (how == 1) a = std::move(alias);
        else if (how == 2) a.swap(alias);
        else {
          using std::swap;
          swap(a, alias);
        }
      } catch (Fault&) {
        __vp_fail("C10:self-assignment or self-swap threw");
      }
      disarm();
      Snap a1 = snap(a);
      CHK("C10", same(a0, a1), "self-assignment and self-swap change nothing");
      CHK("C10", quiet() & (n(E_DTOR) == 0) & (nblk(E_DEALLOC) == 0), "self-assignment and self-swap do nothing to the owned object");
      __vp_cover(a0.vl ? "self op on valueless" : "self op on a value");
    }
    finish();
  }
  // ------------------------------------------------------------ swap
  static void swap_op(I& a, I& b, bool member) {
    Snap a0 = snap(a), b0 = snap(b);
    arm(2);
    try {
      if (member) a.swap(b);
      else {
        using std::swap;
        swap(a, b);
      }
    } catch (Fault&) {
      __vp_fail("C09,C17:swap threw");
    }
    disarm();
    Snap a1 = snap(a), b1 = snap(b);
    CHK("C09,C11", (a1.vl == b0.vl) & (b1.vl == a0.vl), "swap exchanges the valueless states");
    CHK("C09", (a1.addr == b0.addr) & (a1.serial == b0.serial) & (a1.v == b0.v) & (b1.addr == a0.addr) & (b1.serial == a0.serial) & (b1.v == a0.v),
        "swap exchanges the owned objects themselves");
    CHK("C09,C08", C::CS ? (alloc_is(a1, b0) & alloc_is(b1, a0)) : (alloc_is(a1, a0) & alloc_is(b1, b0)), "swap exchanges the allocators iff POCS");
    CHK("C09", quiet() & (n(E_DTOR) == 0) & (nblk(E_DEALLOC) == 0), "swap allocates nothing and touches no owned object");
    __vp_cover("swap");
  }
  static void swap() {
    start();
    {
      VP_IH(a, 1);
      VP_IH(b, 2);
      if (!C::CS && !C::AE) __vp_assume(a_t == b_t);
      swap_op(a, b, __vp_nondet_bool("member"));
      use_after(a);
      use_after(b);
    }
    finish();
  }
  // ------------------------------------------------------------ values
  static void value_assign() {
    start();
    {
      VP_IH(a, 1);
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 5);
      uint32_t x = __vp_nondet_u32("x");
      value_assign_op(a, how, x);
    }
    finish();
  }
  static void value_assign_op(I& a, uint8_t how, uint32_t x) {
    Snap a0 = snap(a);
    Arg arg{x};
    const Arg carg{x};
    T val(x);
    T* rv = &val;
    uint32_t blocks = G.liveBlocks, elems = G.liveElems;
    arm(2);
    try {
      if (how == 0) a = arg;
      else if (how == 1) a = carg;
      else if (how == 2) a = std::move(arg);
      else if (how == 3) a = static_cast<const T&>(val);
      else a = std::move(*rv);
      disarm();
      Snap a1 = snap(a);
      CHK("C15,C11", !a1.vl, "assigning a value gives a value");
      CHK("C15", (a1.v == x) & !a1.moved, "the value assigned is the value held");
      CHK("C15,C08", alloc_is(a1, a0), "value assignment keeps the allocator");
      if (!a0.vl) {
        CHK("C15", (a1.addr == a0.addr) & (a1.serial == a0.serial), "value assignment reuses the owned object");
        CHK("C15", (ctors() == 0) & (nblk(E_ALLOC) == 0) & (n(E_DTOR) == 0) & (assigns() == 1), "exactly one assignment, no allocation");
        __vp_cover("value assigned in place");
      } else {
        CHK("C15", (nblk(E_ALLOC) == 1) & (ctors() == 1), "valueless target: one construction");
        if (C::HOOK) CHK("C05", n(E_HCONSTRUCT) == 1, "constructed through the allocator");
        __vp_cover("value assigned to valueless");
      }
      if (how == 0) CHK("C15", n(E_VASSIGN_L) + n(E_XARG_L) == 1, "lvalue forwarded as lvalue");
      if (how == 1) CHK("C15", n(E_VASSIGN_CL) + n(E_XARG_CL) == 1, "const lvalue forwarded as const lvalue");
      if (how == 2) CHK("C15", n(E_VASSIGN_R) + n(E_XARG_R) == 1, "rvalue forwarded as rvalue");
      if (how == 3) CHK("C15", n(E_CASSIGN) + n(E_CCTOR) == 1, "lvalue value copied");
      if (how == 4) CHK("C15", n(E_MASSIGN) + n(E_MCTOR) == 1, "rvalue value moved");
    } catch (Fault& f) {
      disarm();
      Snap a1 = snap(a);
      CHK("C15,C06", f.seq == G.faults, "the original exception propagates");
      CHK("C15,C06", same_shape(a0, a1), "failed value assignment affects at most the owned value");
      CHK("C11", a1.vl == a0.vl, "failure makes nothing valueless");
      CHK("C04,C06", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed value assignment leaks nothing");
      __vp_cover("value assignment failed");
    }
  }
  // ------------------------------------------------------------ constructors
  static void check_built(I& c, uint32_t v, uint32_t tag, uint32_t id, Ev how) {
    disarm();
    Snap s = snap(c);
    CHK("C18,C11", !s.vl, "a fresh object is not valueless");
    CHK("C18", (s.v == v) & !s.moved, "the owned object is built from the given arguments");
    CHK("C08,C18", (s.tag == tag) & (s.id == id), "the given (or default) allocator is used");
    CHK("C18", (ctors() == 1) & (n(how) == 1) & (assigns() == 0) & (n(E_DTOR) == 0), "exactly one constructor call builds the owned object");
    CHK("C18,C05", nblk(E_ALLOC) == 1, "exactly one allocation");
    if (C::HOOK) CHK("C05", n(E_HCONSTRUCT) == 1, "constructed through the allocator");
    __vp_cover("constructed");
  }
  static void construct() {
    start();
    {
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 17);
      uint32_t t = __vp_nondet_u32("alloc"), x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y");
      A al(t, 3);
      T val(x);
      T* rv = &val;
      Arg arg{x};
      const Arg carg{x};
      const uint32_t DT = DEFAULT_TAG, DI = DEFAULT_ID;
      uint32_t elems = G.liveElems;
      arm(2);
      try {
        switch (how) {
          case 0: { I c; check_built(c, 0, DT, DI, E_DCTOR); break; }
          case 1: { I c(std::allocator_arg, al); check_built(c, 0, t, 3, E_DCTOR); break; }
          case 2: { I c(static_cast<const T&>(val)); check_built(c, x, DT, DI, E_CCTOR); break; }
          case 3: { I c(std::move(*rv)); check_built(c, x, DT, DI, E_MCTOR); break; }
          case 4: { I c(std::allocator_arg, al, static_cast<const T&>(val)); check_built(c, x, t, 3, E_CCTOR); break; }
          case 5: { I c(std::allocator_arg, al, std::move(*rv)); check_built(c, x, t, 3, E_MCTOR); break; }
          case 6: { I c(VP_IN_PLACE, x); check_built(c, x, DT, DI, E_VCTOR); break; }
          case 7: { I c(VP_IN_PLACE, x, y); check_built(c, x + y, DT, DI, E_VCTOR); break; }
          case 8: { I c(std::allocator_arg, al, VP_IN_PLACE, x); check_built(c, x, t, 3, E_VCTOR); break; }
          case 9: { I c(std::allocator_arg, al, VP_IN_PLACE, x, y); check_built(c, x + y, t, 3, E_VCTOR); break; }
          case 10: { I c(VP_IN_PLACE, {x, 5u}, y); check_built(c, x + y + 2, DT, DI, E_VCTOR); break; }
          case 11: { I c(std::allocator_arg, al, VP_IN_PLACE, {x, 5u, 6u}, y); check_built(c, x + y + 3, t, 3, E_VCTOR); break; }
          case 12: { I c(std::allocator_arg, al, VP_IN_PLACE, arg); check_built(c, x, t, 3, E_VCTOR); CHK("C18", (n(E_XARG_L) == 1) & (arg.v == x), "lvalue argument arrives as an lvalue"); break; }
          case 13: { I c(std::allocator_arg, al, VP_IN_PLACE, carg); check_built(c, x, t, 3, E_VCTOR); CHK("C18", n(E_XARG_CL) == 1, "const lvalue argument arrives as a const lvalue"); break; }
          case 14: { I c(std::allocator_arg, al, VP_IN_PLACE, std::move(arg)); check_built(c, x, t, 3, E_VCTOR); CHK("C18", n(E_XARG_R) == 1, "rvalue argument arrives as an rvalue"); break; }
          case 15: { I c(VP_IN_PLACE); check_built(c, 0, DT, DI, E_DCTOR); break; }
          default: { I c(std::allocator_arg, al, VP_IN_PLACE); check_built(c, 0, t, 3, E_DCTOR); break; }
        }
      } catch (Fault& f) {
        disarm();
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07,C04", (G.liveBlocks == 0) & (G.liveElems == elems), "failed construction leaks nothing");
        if (how == 3 || how == 5) CHK("C07", val.t.v == x, "failed construction leaves its argument usable");
        __vp_cover("construction failed");
      }
      CHK("C04", (G.liveBlocks == 0) & (G.liveElems == elems), "construction and destruction balance");
      if (C::HOOK) CHK("C05", n(E_HCONSTRUCT) == n(E_HDESTROY), "destroyed through the allocator");
    }
    finish();
  }
  // Whatever happened before, the object can be used, revived and destroyed.
  static void use_after(I& a) {
    Snap a0 = snap(a);
    uint32_t blocks = G.liveBlocks;
    I c(a);
    Snap c1 = snap(c);
    CHK("C11", c1.vl == a0.vl, "object can be copied");
    if (a0.vl) {
      a = Arg{5};
      Snap a1 = snap(a);
      CHK("C11", !a1.vl & (a1.v == 5), "valueless object can be given a value");
      CHK("C11,C05", G.liveBlocks == blocks + 1, "revival allocates one block");
      __vp_cover("revived");
    }
  }
};

}  // namespace vp
#endif
