// One-step harness for polymorphic; same scheme as ind.h, plus dynamic types.
#ifndef VP_POL_H
#define VP_POL_H
#if VP_STD == 20
#include "polymorphic.h"
#define VP_IPT(U) std::in_place_type<U>
#else
#include "polymorphic_cxx14.h"
#define VP_IPT(U) xyz::in_place_type_t<U>{}
#endif
#include "env.h"

namespace vp {

// Hierarchy with a virtual destructor.  Every class carries a Tracked member,
// so each level's construction, copy and destruction is observed and may fail.
struct PB {
  static constexpr int kind = 1;
  Tracked<1> t;
  PB() : t() {}
  explicit PB(uint32_t x) : t(x) {}
  PB(uint32_t x, uint32_t y) : t(x + y) {}
  PB(std::initializer_list<uint32_t> il, uint32_t y) : t((uint32_t)(y + *il.begin() + (uint32_t)il.size())) {}
  PB(const PB&) = default;
  PB(PB&&) = default;
  PB& operator=(const PB&) = default;
  PB& operator=(PB&&) = default;
  virtual ~PB() {}
  virtual uint32_t who() const { return 1; }
  virtual uint32_t leaf() const { return t.v + 1; }
  virtual const void* leaf_addr() const { return &t; }
  virtual uint32_t leaf_kind() const { return 1; }
  virtual void set(uint32_t x) { t.v = x; }
};
struct D1 : PB {  // small
  static constexpr int kind = 2;
  Tracked<2> u;
  D1() : PB(), u() {}
  explicit D1(uint32_t x) : PB(x), u(x + 1) {}
  D1(uint32_t x, uint32_t y) : PB(x, y), u(x + y + 1) {}
  D1(std::initializer_list<uint32_t> il, uint32_t y) : PB(il, y), u(t.v + 1) {}
  explicit D1(const Arg& a) : PB(a.v), u(a.v + 1) { note(E_XARG_CL, 2); }
  explicit D1(Arg& a) : PB(a.v), u(a.v + 1) { note(E_XARG_L, 2); }
  explicit D1(Arg&& a) : PB(a.v), u(a.v + 1) { a.v = ~a.v; note(E_XARG_R, 2); }
  uint32_t who() const override { return 2; }
  uint32_t leaf() const override { return u.v; }
  const void* leaf_addr() const override { return &u; }
  uint32_t leaf_kind() const override { return 2; }
  void set(uint32_t x) override { t.v = x; u.v = x + 1; }
};
struct Pre {
  uint64_t pad[3];
  virtual ~Pre() {}
  virtual uint32_t pre() const { return 9; }
};
struct alignas(64) D2 : Pre, PB {  // large, over-aligned, base at an offset
  static constexpr int kind = 3;
  char big[150];
  Tracked<3, false> u;
  explicit D2(uint32_t x) : PB(x), u(x + 1) {}
  uint32_t who() const override { return 3; }
  uint32_t leaf() const override { return u.v; }
  const void* leaf_addr() const override { return &u; }
  uint32_t leaf_kind() const override { return 3; }
  void set(uint32_t x) override { t.v = x; u.v = x + 1; }
};
struct D3 : virtual PB {  // virtual base
  static constexpr int kind = 4;
  Tracked<4> u;
  explicit D3(uint32_t x) : PB(x), u(x + 1) {}
  uint32_t who() const override { return 4; }
  uint32_t leaf() const override { return u.v; }
  const void* leaf_addr() const override { return &u; }
  uint32_t leaf_kind() const override { return 4; }
  void set(uint32_t x) override { t.v = x; u.v = x + 1; }
};
template <> struct KindOf<PB> { static constexpr int value = 1; };
template <> struct KindOf<D1> { static constexpr int value = 2; };
template <> struct KindOf<D2> { static constexpr int value = 3; };
template <> struct KindOf<D3> { static constexpr int value = 4; };

// Hierarchy without virtual functions: who destroys the object matters.
struct NB {
  static constexpr int kind = 1;
  Tracked<1> t;
  explicit NB(uint32_t x) : t(x) {}
  // the dynamic type, from the ghost registry
  uint32_t who() const;
  uint32_t leaf() const;
  void set(uint32_t x);
};
struct ND1 : NB {
  static constexpr int kind = 2;
  Tracked<2> u;
  explicit ND1(uint32_t x) : NB(x), u(x + 1) {}
};
struct ND2 : Pre, NB {
  static constexpr int kind = 3;
  Tracked<3, false> u;
  char big[100];
  explicit ND2(uint32_t x) : NB(x), u(x + 1) {}
};
struct ND3 : ND1 {
  static constexpr int kind = 4;
  Tracked<4> w;
  explicit ND3(uint32_t x) : ND1(x), w(x + 1) {}
};
template <> struct KindOf<NB> { static constexpr int value = 1; };
template <> struct KindOf<ND1> { static constexpr int value = 2; };
template <> struct KindOf<ND2> { static constexpr int value = 3; };
template <> struct KindOf<ND3> { static constexpr int value = 4; };
static inline const BlockRec* block_of(const void* p) {
  for (uint32_t i = 0; i < G.nblock; i++)
    if (G.block[i].live && (const char*)p >= G.block[i].p && (const char*)p < G.block[i].p + G.block[i].bytes) return &G.block[i];
  return nullptr;
}
// bit set of the tracked kinds alive inside the block holding p
static inline uint32_t kinds_in_block(const void* p) {
  const BlockRec* b = block_of(p);
  uint32_t m = 0;
  if (!b) return 0;
  for (uint32_t i = 0; i < G.nelem; i++) {
    const ElemRec& e = G.elem[i];
    if (e.alive && (const char*)e.p >= b->p && (const char*)e.p < b->p + b->bytes) m |= 1u << e.type;
  }
  return m;
}
inline uint32_t NB::who() const {
  uint32_t m = kinds_in_block(this);
  return m == 2 ? 1 : m == 6 ? 2 : m == 10 ? 3 : m == 22 ? 4 : 0;
}
inline uint32_t NB::leaf() const {
  switch (who()) {
    case 2: return static_cast<const ND1*>(this)->u.v;
    case 3: return static_cast<const ND2*>(this)->u.v;
    case 4: return static_cast<const ND3*>(this)->w.v;
    default: return t.v + 1;
  }
}
inline void NB::set(uint32_t x) {
  t.v = x;
  switch (who()) {
    case 2: static_cast<ND1*>(this)->u.v = x + 1; break;
    case 3: static_cast<ND2*>(this)->u.v = x + 1; break;
    case 4: static_cast<ND3*>(this)->u.v = static_cast<ND3*>(this)->w.v = x + 1; break;
  }
}
struct HV { using B = PB; using X1 = D1; using X2 = D2; using X3 = D3; static constexpr bool virt = true; };
struct HN { using B = NB; using X1 = ND1; using X2 = ND2; using X3 = ND3; static constexpr bool virt = false; };

template <class H_, class C_>
struct PM {
  using HY = H_;
  using C = C_;
  using T = typename HY::B;
  using A = A_<T, C>;
  using P = xyz::polymorphic<T, A>;

  struct Snap {
    bool vl;
    const void* addr;
    uint32_t serial, who, v, leaf;
    bool moved;
    uint32_t tag, id;
  };
  static uint32_t size_of(uint32_t who) {
    return who == 1 ? sizeof(typename HY::B) : who == 2 ? sizeof(typename HY::X1) : who == 3 ? sizeof(typename HY::X2) : sizeof(typename HY::X3);
  }
  static Snap snap(const P& o) {
    Snap s;
    s.vl = o.valueless_after_move();
    s.addr = nullptr;
    s.serial = s.who = s.v = s.leaf = 0;
    s.moved = false;
    A al = o.get_allocator();
    s.tag = al.tag;
    s.id = al.id;
    if (!s.vl) {
      const T& t = *o;
      s.addr = &t;
      ElemRec* r = find_elem(&t.t, 1);
      CHK("*", r != nullptr, "the owned object is alive");
      s.serial = r->serial;
      s.v = t.t.v;
      s.moved = t.t.moved;
      s.who = t.who();
      s.leaf = t.leaf();
      CHK("C02", s.who >= 1 && s.who <= 4, "owned object has one of the expected types");
      uint32_t m = kinds_in_block(&t);
      uint32_t want = s.who == 1 ? 2u : HY::virt || s.who != 4 ? (2u | 1u << s.who) : 22u;
      CHK("C02,C04", m == want, "exactly the subobjects of the dynamic type are alive");
      CHK("C05", in_one_block(&t.t, sizeof(t.t), s.tag, C::AE), "owned object lies within one live block of an equal allocator");
      const BlockRec* b = block_of(&t);
      CHK("C05", b && b->bytes >= size_of(s.who), "block is large enough for the dynamic type");
    }
    return s;
  }
  static bool same(const Snap& a, const Snap& b) {
    return (a.vl == b.vl) & (a.addr == b.addr) & (a.serial == b.serial) & (a.who == b.who) & (a.v == b.v) & (a.leaf == b.leaf) & (a.moved == b.moved) & (a.tag == b.tag) & (a.id == b.id);
  }
  static bool same_shape(const Snap& a, const Snap& b) {
    return (a.vl == b.vl) & (a.addr == b.addr) & (a.serial == b.serial) & (a.who == b.who) & (a.tag == b.tag) & (a.id == b.id);
  }
  static bool same_object(const Snap& a, const Snap& b) {
    return (a.addr == b.addr) & (a.serial == b.serial) & (a.who == b.who) & (a.v == b.v) & (a.leaf == b.leaf) & (a.moved == b.moved);
  }
  static bool alloc_is(const Snap& a, const Snap& from) { return (a.tag == from.tag) & (a.id == from.id); }
  static uint32_t nk(uint32_t k, Ev e) { return G.cnt[k][e]; }
  static uint32_t nblk(Ev e) { return G.cnt[0][e]; }
  static uint32_t all(Ev e) { return nk(1, e) + nk(2, e) + nk(3, e) + nk(4, e); }
  static uint32_t ctors() { return all(E_DCTOR) + all(E_VCTOR) + all(E_CCTOR) + all(E_NCCTOR) + all(E_MCTOR); }
  static uint32_t assigns() { return all(E_CASSIGN) + all(E_MASSIGN); }
  static bool quiet() { return (ctors() + assigns() + nblk(E_ALLOC)) == 0; }
  // exactly one object of type `who` was created, by event e
  static bool one(uint32_t who, Ev e) {
    uint32_t want = who == 1 ? 1 : !HY::virt && who == 4 ? 3 : 2;
    return (nk(1, e) == 1) & (nk(who, e) == 1) & (all(e) == want) & (ctors() == want) & (assigns() == 0);
  }
  static uint32_t subobjects(const Snap& s) { return s.vl ? 0 : s.who == 1 ? 1 : !HY::virt && s.who == 4 ? 3 : 2; }
  static bool hooks(uint32_t who, Ev e, uint32_t count) { return !C::HOOK || nk(who, e) == count; }

  struct H {
    alignas(P) char buf[sizeof(P)];
    P& o() { return *reinterpret_cast<P*>(buf); }
    H(uint32_t k, uint32_t v, uint32_t tag, uint32_t id, bool vl) {
      A al(tag, id);
      switch (k) {
        case 1: ::new ((void*)buf) P(std::allocator_arg, al, VP_IPT(typename HY::B), v); break;
        case 2: ::new ((void*)buf) P(std::allocator_arg, al, VP_IPT(typename HY::X1), v); break;
        case 3: ::new ((void*)buf) P(std::allocator_arg, al, VP_IPT(typename HY::X2), v); break;
        default: ::new ((void*)buf) P(std::allocator_arg, al, VP_IPT(typename HY::X3), v); break;
      }
      Snap s = snap(o());
      CHK("C02", (s.who == k) & (s.v == v) & (s.leaf == v + 1), "object has the requested dynamic type and value");
      if (vl) {
        P sink(std::move(o()));
        CHK("C03,C11", o().valueless_after_move(), "moved-from object is valueless");
      }
    }
    ~H() { o().~P(); }
  };
#define VP_PH(name, idv)                                 \
  uint8_t name##_k = __vp_nondet_u8(#name ".type");      \
  __vp_assume(name##_k >= 1 && name##_k <= 4);           \
  bool name##_vl = __vp_nondet_bool(#name ".valueless"); \
  uint32_t name##_v = __vp_nondet_u32(#name ".value");   \
  uint32_t name##_t = __vp_nondet_u32(#name ".alloc");   \
  H name##_h(name##_k, name##_v, name##_t, idv, name##_vl); \
  P& name = name##_h.o()

  static bool eqAlloc(const Snap& a, const Snap& b) { return C::AE || a.tag == b.tag; }

  static void check_copy(P& c, P& b, const Snap& b0, uint32_t tag, uint32_t id) {
    disarm();
    Snap c1 = snap(c), b1 = snap(b);
    CHK("C01,C11", c1.vl == b0.vl, "copy is valueless iff the source is");
    CHK("C01", same(b0, b1), "copying leaves the source untouched");
    CHK("C08", (c1.tag == tag) & (c1.id == id), "copy construction selects the right allocator");
    if (!b0.vl) {
      CHK("C02", c1.who == b0.who, "copy has the source's dynamic type");
      CHK("C01,C02", (c1.v == b0.v) & (c1.leaf == b0.leaf) & (c1.moved == b0.moved), "copy has the source's value");
      CHK("C01", c1.addr != b0.addr, "copy owns a separate object");
      CHK("C01,C18", one(b0.who, E_CCTOR), "copy made by exactly one copy construction");
      CHK("C05,C18", nblk(E_ALLOC) == 1, "copy allocates exactly one block");
      CHK("C05", hooks(b0.who, E_HCONSTRUCT, 1), "constructed through the allocator");
      uint32_t x = __vp_nondet_u32("x");
      (*c).set(x);
      CHK("C01", same(snap(b), b0), "modifying the copy leaves the source unchanged");
      (*b).set(x + 1);
      CHK("C01", snap(c).v == x, "modifying the source leaves the copy unchanged");
      (*b).set(b0.v);
      __vp_cover("copy of a value");
    } else {
      CHK("C01,C11", quiet(), "copying a valueless object does nothing else");
      __vp_cover("copy of valueless");
    }
  }
  static void copy_construct() {
    start();
    {
      VP_PH(b, 2);
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 3);
      uint32_t t3 = __vp_nondet_u32("new.alloc");
      Snap b0 = snap(b);
      uint32_t blocks = G.liveBlocks, elems = G.liveElems;
      arm(2);
      try {
        const P& cb = b;
        if (how == 0) {
          P c(cb);
          check_copy(c, b, b0, b0.tag + (C::SOC ? 1000 : 0), b0.id + (C::SOC ? 1000 : 0));
        } else if (how == 1) {
          P c(b);
          check_copy(c, b, b0, b0.tag + (C::SOC ? 1000 : 0), b0.id + (C::SOC ? 1000 : 0));
        } else {
          P c(std::allocator_arg, A(t3, 3), cb);
          check_copy(c, b, b0, t3, 3);
        }
        if (!b0.vl) CHK("C05", hooks(b0.who, E_HDESTROY, 1), "destroyed through the allocator");
        if (!b0.vl) CHK("C02,C04", nk(b0.who, E_DTOR) == 1, "destroyed as its dynamic type");
      } catch (Fault& f) {
        disarm();
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07,C01", same(snap(b), b0), "failed copy leaves the source unchanged");
        CHK("C11", snap(b).vl == b0.vl, "failure makes nothing valueless");
        CHK("C07,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed copy leaks nothing");
        __vp_cover("copy failed");
      }
      CHK("C01", same(snap(b), b0), "destroying the copy leaves the source unchanged");
      CHK("C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "destroying the copy releases everything");
    }
    finish();
  }
  static void move_construct() {
    start();
    {
      VP_PH(b, 2);
      Snap b0 = snap(b);
      arm(2);
      {
        P c(std::move(b));
        disarm();
        Snap c1 = snap(c), b1 = snap(b);
        CHK("C03,C11", b1.vl, "source of a move construction is valueless");
        CHK("C03,C11", c1.vl == b0.vl, "target is valueless iff the source was");
        CHK("C03,C02", same_object(c1, b0), "move transfers the owned object");
        CHK("C03", quiet(), "move construction allocates nothing and touches no owned object");
        CHK("C08", alloc_is(c1, b0), "move construction takes the source's allocator");
        CHK("C08", alloc_is(b1, b0), "move construction keeps the source's allocator");
        __vp_cover(b0.vl ? "move of valueless" : "move of a value");
      }
      if (!b0.vl) CHK("C02,C04", (G.liveElems == 0) & (nk(b0.who, E_DTOR) == 1), "moved object destroyed with its new owner, as its dynamic type");
    }
    finish();
  }
  static void ext_move_construct() {
    start();
    {
      VP_PH(b, 2);
      uint32_t t3 = __vp_nondet_u32("new.alloc");
      Snap b0 = snap(b);
      uint32_t blocks = G.liveBlocks, elems = G.liveElems;
      bool eq = C::AE || t3 == b0.tag;
      arm(2);
      try {
        P c(std::allocator_arg, A(t3, 3), std::move(b));
        disarm();
        Snap c1 = snap(c), b1 = snap(b);
        CHK("C08", (c1.tag == t3) & (c1.id == 3), "allocator-extended constructor uses the given allocator");
        CHK("C08", alloc_is(b1, b0), "source keeps its allocator");
        CHK("C03,C11", c1.vl == b0.vl, "target is valueless iff the source was");
        if (eq) {
          CHK("C03,C11", b1.vl, "source is valueless after an ownership transfer");
          CHK("C03,C02", same_object(c1, b0), "move transfers the owned object");
          CHK("C03", quiet(), "transfer allocates nothing and touches no owned object");
          __vp_cover("extended move, equal allocators");
        } else if (!b0.vl) {
          CHK("C02", c1.who == b0.who, "re-created object has the dynamic type");
          CHK("C03,C02", (c1.v == b0.v) & (c1.leaf == b0.leaf) & (c1.addr != b0.addr), "unequal allocators: the value arrives in a new object");
          CHK("C03,C18", one(b0.who, E_MCTOR) & (nblk(E_ALLOC) == 1), "unequal allocators: re-created once, from an rvalue");
          CHK("C11", !b1.vl, "source of an unequal-allocator move is not valueless");
          CHK("C05", hooks(b0.who, E_HCONSTRUCT, 1), "constructed through the allocator");
          __vp_cover("extended move, unequal allocators");
        } else {
          CHK("C03,C11", b1.vl & quiet(), "valueless source stays valueless");
        }
      } catch (Fault& f) {
        disarm();
        Snap b1 = snap(b);
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07", same_shape(b0, b1) & (b1.v == b0.v), "failed move construction leaves the source its object");
        CHK("C07,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed move construction leaks nothing");
        CHK("C11", b1.vl == b0.vl, "failure makes nothing valueless");
        __vp_cover("extended move failed");
      }
    }
    finish();
  }
  static void copy_assign() {
    start();
    {
      VP_PH(a, 1);
      VP_PH(b, 2);
      copy_assign_op(a, b);
      use_after(a);
    }
    finish();
  }
  static void copy_assign_op(P& a, P& b) {
    Snap a0 = snap(a), b0 = snap(b);
    uint32_t blocks = G.liveBlocks, elems = G.liveElems;
    arm(2);
    try {
      P& r = a = static_cast<const P&>(b);
      disarm();
      CHK("C01", &r == &a, "assignment returns the target");
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C01,C11", a1.vl == b0.vl, "target is valueless iff the source is");
      CHK("C01", same(b0, b1), "copy assignment leaves the source untouched");
      CHK("C08", alloc_is(a1, C::CA ? b0 : a0), "copy assignment propagates the allocator iff POCCA");
      if (!b0.vl) {
        CHK("C02", a1.who == b0.who, "target gets the source's dynamic type");
        CHK("C01,C02", (a1.v == b0.v) & (a1.leaf == b0.leaf) & (a1.moved == b0.moved), "target has the source's value");
        CHK("C01", a1.addr != b0.addr, "target owns a separate object");
        CHK("C01,C18", one(b0.who, E_CCTOR), "new object made by exactly one copy construction");
        CHK("C05,C18", nblk(E_ALLOC) == 1, "exactly one allocation");
        CHK("C05", hooks(b0.who, E_HCONSTRUCT, 1), "constructed through the allocator");
        uint32_t x = __vp_nondet_u32("x");
        (*a).set(x);
        CHK("C01", same(snap(b), b0), "modifying the target leaves the source unchanged");
        (*b).set(x + 1);
        CHK("C01", snap(a).v == x, "modifying the source leaves the target unchanged");
        (*b).set(b0.v);
        __vp_cover("copy assignment");
      } else {
        CHK("C01,C04", quiet(), "assigning a valueless object only releases");
        __vp_cover("copy assignment from valueless");
      }
      CHK("C04,C02", (all(E_DTOR) == subobjects(a0)) & (nblk(E_DEALLOC) == (a0.vl ? 0u : 1u)), "the previous object is destroyed and released once, as its dynamic type");
      if (!a0.vl) CHK("C05", hooks(a0.who, E_HDESTROY, 1), "destroyed through the allocator");
      CHK("C04,C05", G.liveBlocks == blocks - (a0.vl ? 0u : 1u) + (b0.vl ? 0u : 1u), "one block per object with a value");
    } catch (Fault& f) {
      disarm();
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C06", f.seq == G.faults, "the original exception propagates");
      CHK("C06,C01", same(b0, b1), "failed copy assignment leaves the source unchanged");
      CHK("C06", same(a0, a1), "failed copy assignment leaves the target unchanged");
      CHK("C08", alloc_is(a1, a0), "failed copy assignment keeps the allocator");
      CHK("C11", a1.vl == a0.vl, "failure makes nothing valueless");
      CHK("C06,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed copy assignment leaks nothing");
      __vp_cover("copy assignment failed");
    }
  }
  static void move_assign(bool pocmaUnequal) {
    start();
    {
      VP_PH(a, 1);
      VP_PH(b, 2);
      bool region = C::CM && !C::AE && a_t != b_t;
      if (pocmaUnequal) __vp_assume(region);
      move_assign_op(a, b, region && !pocmaUnequal ? 0 : 2);
      use_after(a);
      use_after(b);
    }
    finish();
  }
  static void move_assign_op(P& a, P& b, uint32_t budget) {
    Snap a0 = snap(a), b0 = snap(b);
    uint32_t blocks = G.liveBlocks, elems = G.liveElems;
    bool eq = eqAlloc(a0, b0);
    arm(budget);
    try {
      P& r = a = std::move(b);
      disarm();
      CHK("C03", &r == &a, "assignment returns the target");
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C03,C11", a1.vl == b0.vl, "target is valueless iff the source was");
      CHK("C08", alloc_is(a1, C::CM ? b0 : a0), "move assignment propagates the allocator iff POCMA");
      CHK("C08", alloc_is(b1, b0), "source keeps its allocator");
      if (b0.vl) {
        CHK("C03,C11", b1.vl & quiet(), "valueless source stays valueless");
        __vp_cover("move assignment from valueless");
      } else if (eq) {
        CHK("C03,C11", b1.vl, "source is valueless after an ownership transfer");
        CHK("C03,C02", same_object(a1, b0), "move assignment transfers the owned object");
        CHK("C03", quiet(), "transfer allocates nothing and touches no owned object");
        __vp_cover("move assignment, equal allocators");
      } else {
        CHK("C02", a1.who == b0.who, "re-created object has the dynamic type");
        CHK("C03,C02", (a1.v == b0.v) & (a1.leaf == b0.leaf) & (a1.addr != b0.addr) & (a1.addr != a0.addr), "unequal allocators: the value arrives in a new object");
        CHK("C03,C18", one(b0.who, E_MCTOR) & (nblk(E_ALLOC) == 1), "unequal allocators: re-created once, from an rvalue");
        CHK("C11", !b1.vl, "source of an unequal-allocator move is not valueless");
        CHK("C03", (b1.addr == b0.addr) & (b1.serial == b0.serial) & (b1.who == b0.who), "source keeps its moved-from object");
        __vp_cover("move assignment, unequal allocators");
      }
      CHK("C04,C02", (all(E_DTOR) == subobjects(a0)) & (nblk(E_DEALLOC) == (a0.vl ? 0u : 1u)), "the previous object is destroyed and released once, as its dynamic type");
    } catch (Fault& f) {
      disarm();
      Snap a1 = snap(a), b1 = snap(b);
      CHK("C06", f.seq == G.faults, "the original exception propagates");
      CHK("C06", same(a0, a1), "failed move assignment leaves the target unchanged");
      CHK("C06", same_shape(b0, b1) & (b0.v == b1.v), "failed move assignment leaves the source its object");
      CHK("C08", alloc_is(a1, a0) & alloc_is(b1, b0), "failed move assignment keeps the allocators");
      CHK("C11", (a1.vl == a0.vl) & (b1.vl == b0.vl), "failure makes nothing valueless");
      CHK("C06,C04", (G.liveBlocks == blocks) & (G.liveElems == elems), "failed move assignment leaks nothing");
      __vp_cover("move assignment failed");
    }
  }
  static void self_ops() {
    start();
    {
      VP_PH(a, 1);
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 4);
      Snap a0 = snap(a);
      P& alias = a;
      arm(2);
      try {
        if (how == 0) a = static_cast<const P&>(alias);
        else if (how == 1) a = std::move(alias);
        else if (how == 2) a.swap(alias);
        else {
          using std::swap;
          swap(a, alias);
        }
      } catch (Fault&) {
        __vp_fail("C10:self-assignment or self-swap threw");
      }
      disarm();
      CHK("C10", same(a0, snap(a)), "self-assignment and self-swap change nothing");
      CHK("C10", quiet() & (all(E_DTOR) == 0) & (nblk(E_DEALLOC) == 0), "self-assignment and self-swap do nothing to the owned object");
      __vp_cover(a0.vl ? "self op on valueless" : "self op on a value");
    }
    finish();
  }
  static void swap_op(P& a, P& b, bool member) {
    Snap a0 = snap(a), b0 = snap(b);
    arm(2);
    try {
      if (member) a.swap(b);
      else {
        using std::swap;
        swap(a, b);
      }
    } catch (Fault&) {
      __vp_fail("C09,C17:swap threw");
    }
    disarm();
    Snap a1 = snap(a), b1 = snap(b);
    CHK("C09,C11", (a1.vl == b0.vl) & (b1.vl == a0.vl), "swap exchanges the valueless states");
    CHK("C09,C02", same_object(a1, b0) & same_object(b1, a0), "swap exchanges the owned objects themselves");
    CHK("C09,C08", C::CS ? (alloc_is(a1, b0) & alloc_is(b1, a0)) : (alloc_is(a1, a0) & alloc_is(b1, b0)), "swap exchanges the allocators iff POCS");
    CHK("C09", quiet() & (all(E_DTOR) == 0) & (nblk(E_DEALLOC) == 0), "swap allocates nothing and touches no owned object");
    __vp_cover("swap");
  }
  static void swap() {
    start();
    {
      VP_PH(a, 1);
      VP_PH(b, 2);
      if (!C::CS && !C::AE) __vp_assume(a_t == b_t);
      swap_op(a, b, __vp_nondet_bool("member"));
      use_after(a);
      use_after(b);
    }
    finish();
  }
  static void check_built(P& c, uint32_t who, uint32_t v, uint32_t tag, uint32_t id, Ev how) {
    disarm();
    Snap s = snap(c);
    CHK("C18,C11", !s.vl, "a fresh object is not valueless");
    CHK("C02", s.who == who, "the requested dynamic type is constructed");
    CHK("C18,C02", (s.v == v) & (s.leaf == (how == E_DCTOR && who != 1 ? v : v + 1)) & !s.moved, "the owned object is built from the given arguments");
    CHK("C08,C18", (s.tag == tag) & (s.id == id), "the given (or default) allocator is used");
    CHK("C18", one(who, how) & (all(E_DTOR) == 0), "exactly one constructor call builds the owned object");
    CHK("C18,C05", nblk(E_ALLOC) == 1, "exactly one allocation");
    CHK("C05", hooks(who, E_HCONSTRUCT, 1), "constructed through the allocator");
    __vp_cover("constructed");
  }
  static void use_after(P& a) {
    Snap a0 = snap(a);
    uint32_t blocks = G.liveBlocks;
    {
      P c(a);
      CHK("C11", snap(c).vl == a0.vl, "object can be copied");
    }
    if (a0.vl) {
      P fresh(std::allocator_arg, A(a0.tag, 9), VP_IPT(typename HY::X1), 5u);
      a = fresh;
      Snap a1 = snap(a);
      CHK("C11", !a1.vl & (a1.v == 5) & (a1.who == 2), "valueless object can be given a value");
      CHK("C11,C05", G.liveBlocks == blocks + 2, "revival allocates one block");
      __vp_cover("revived");
    }
  }
};
// Constructor forms (virtual hierarchy only).
template <class C>
struct PC : PM<HV, C> {
  using M = PM<HV, C>;
  using P = typename M::P;
  using A = typename M::A;
  static void construct() {
    start();
    {
      uint8_t how = __vp_nondet_u8("how");
      __vp_assume(how < 24);
      uint32_t t = __vp_nondet_u32("alloc"), x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y");
      A al(t, 3);
      PB b(x);
      D1 d(x);
      D2 e(x);
      PB* rb = &b;
      D1* rd = &d;
      Arg arg{x};
      const Arg carg{x};
      const uint32_t DT = DEFAULT_TAG, DI = DEFAULT_ID;
      uint32_t elems = G.liveElems;
      arm(2);
      try {
        switch (how) {
          case 0: { P c; M::check_built(c, 1, 0, DT, DI, E_DCTOR); break; }
          case 1: { P c(std::allocator_arg, al); M::check_built(c, 1, 0, t, 3, E_DCTOR); break; }
          case 2: { P c(static_cast<const PB&>(b)); M::check_built(c, 1, x, DT, DI, E_CCTOR); break; }
          case 3: { P c(std::move(*rb)); M::check_built(c, 1, x, DT, DI, E_MCTOR); break; }
          case 4: { P c(d); M::check_built(c, 2, x, DT, DI, E_CCTOR); break; }
          case 5: { P c(std::move(*rd)); M::check_built(c, 2, x, DT, DI, E_MCTOR); break; }
          case 6: { P c(std::allocator_arg, al, static_cast<const D1&>(d)); M::check_built(c, 2, x, t, 3, E_CCTOR); break; }
          case 7: { P c(std::allocator_arg, al, std::move(*rd)); M::check_built(c, 2, x, t, 3, E_MCTOR); break; }
          case 8: { P c(VP_IPT(PB), x); M::check_built(c, 1, x, DT, DI, E_VCTOR); break; }
          case 9: { P c(VP_IPT(D1), x); M::check_built(c, 2, x, DT, DI, E_VCTOR); break; }
          case 10: { P c(VP_IPT(D1), x, y); M::check_built(c, 2, x + y, DT, DI, E_VCTOR); break; }
          case 11: { P c(VP_IPT(D2), x); M::check_built(c, 3, x, DT, DI, E_VCTOR); break; }
          case 12: { P c(VP_IPT(D3), x); M::check_built(c, 4, x, DT, DI, E_VCTOR); break; }
          case 13: { P c(std::allocator_arg, al, VP_IPT(D1), x, y); M::check_built(c, 2, x + y, t, 3, E_VCTOR); break; }
          case 14: { P c(std::allocator_arg, al, VP_IPT(D2), x); M::check_built(c, 3, x, t, 3, E_VCTOR); break; }
          case 15: { P c(VP_IPT(D1), {x, 5u}, y); M::check_built(c, 2, x + y + 2, DT, DI, E_VCTOR); break; }
          case 16: { P c(std::allocator_arg, al, VP_IPT(D1), {x, 5u, 6u}, y); M::check_built(c, 2, x + y + 3, t, 3, E_VCTOR); break; }
          case 17: { P c(std::allocator_arg, al, VP_IPT(PB), {x, 5u, 6u}, y); M::check_built(c, 1, x + y + 3, t, 3, E_VCTOR); break; }
          case 18: { P c(std::allocator_arg, al, VP_IPT(D1), arg); M::check_built(c, 2, x, t, 3, E_VCTOR); CHK("C18", (M::nk(2, E_XARG_L) == 1) & (arg.v == x), "lvalue argument arrives as an lvalue"); break; }
          case 19: { P c(VP_IPT(D1), carg); M::check_built(c, 2, x, DT, DI, E_VCTOR); CHK("C18", M::nk(2, E_XARG_CL) == 1, "const lvalue argument arrives as a const lvalue"); break; }
          case 20: { P c(VP_IPT(D1), std::move(arg)); M::check_built(c, 2, x, DT, DI, E_VCTOR); CHK("C18", M::nk(2, E_XARG_R) == 1, "rvalue argument arrives as an rvalue"); break; }
          case 21: { P c(e); M::check_built(c, 3, x, DT, DI, E_CCTOR); break; }
          case 22: { P c(std::allocator_arg, al, VP_IPT(D1)); M::check_built(c, 2, 0, t, 3, E_DCTOR); break; }
          default: { P c(VP_IPT(D1)); M::check_built(c, 2, 0, DT, DI, E_DCTOR); break; }
        }
      } catch (Fault& f) {
        disarm();
        CHK("C07", f.seq == G.faults, "the original exception propagates");
        CHK("C07,C04", (G.liveBlocks == 0) & (G.liveElems == elems), "failed construction leaks nothing");
        if (how == 3) CHK("C07", b.t.v == x, "failed construction leaves its argument usable");
        if (how == 5 || how == 7) CHK("C07", (d.t.v == x) & (d.u.v == x + 1), "failed construction leaves its argument usable");
        __vp_cover("construction failed");
      }
      CHK("C04", (G.liveBlocks == 0) & (G.liveElems == elems), "construction and destruction balance");
      if (C::HOOK) CHK("C05", M::nk(1, E_HCONSTRUCT) + M::nk(2, E_HCONSTRUCT) + M::nk(3, E_HCONSTRUCT) + M::nk(4, E_HCONSTRUCT) == M::all(E_HDESTROY), "destroyed through the allocator");
    }
    finish();
  }
};

}  // namespace vp
#endif
