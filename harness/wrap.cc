// The exploratory wrappers (C26): each owns one object, copies are deep, every
// object is destroyed once, failures leak nothing; composites of them and of
// the standard owners behave the same.
#include "env.h"
#include "exploration/incomplete_types.cc"
using namespace vp;

static uint32_t nextValue;
struct Obj {
  Tracked<1> t;
  char pad[5];
  Obj() : t(nextValue) {}
  VP_AMP(Obj)
  friend bool operator==(const Obj& a, const Obj& b) {
    alive(&a.t, 1);
    alive(&b.t, 1);
    return a.t.v == b.t.v;
  }
};
template <class W>
static W make(uint32_t v) {
  nextValue = v;
  return W();
}
template <class W>
struct Pair {  // a composite with generated members
  W a, b;
  bool operator==(const Pair&) const = default;
};
template <class W>
static void wrap() {
  start();
  {
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), x = __vp_nondet_u32("probe");
    nextValue = v;
    const W a;
    nextValue = w;
    W b;
    nextValue = x;
    const W probe;
    CHK("C26", G.liveElems == 3, "every wrapper owns one object");
    CHK("C26", (a == b) == (v == w) && (a == probe) == (v == x), "wrappers compare their objects");
    uint8_t op = __vp_pick("operation", 5);
    bool failed = false;
    arm(1);
    __vp_new_faults(true);
    try {
      switch (op) {
        case 0: {
          W c(a);
          disarm();
          CHK("C26", G.liveElems == 4, "a copy owns an object of its own");
          CHK("C26", G.cnt[1][E_CCTOR] == 1 && G.cnt[1][E_NCCTOR] == 0, "a copy copies the object once");
          CHK("C26", c == a && (c == probe) == (v == x) && (a == probe) == (v == x), "a copy has the value, the source keeps it");
          break;
        }
        case 1: {
          b = a;
          disarm();
          CHK("C26", G.liveElems == 3, "after assignment each wrapper owns an object of its own");
          CHK("C26", b == a && (b == probe) == (v == x), "assignment gives the value");
          break;
        }
        case 2: {
          W& r = b;
          b = r;
          disarm();
          CHK("C26", G.liveElems == 3 && (b == probe) == (w == x), "self-assignment changes nothing");
          break;
        }
        case 3: {
          Pair<W> p{a, b};
          Pair<W> q(p);
          q = p;
          disarm();
          CHK("C26", p == q && G.liveElems == 7, "a composite copies deeply");
          CHK("C26", q.b == b && (q.a == b) == (v == w), "a composite copies its members");
          break;
        }
        default: {
          W c(std::move(b));
          disarm();
          CHK("C26", (c == probe) == (w == x) && (b == probe) == (w == x) && G.liveElems == 4, "a moved-from wrapper still owns an object");
          break;
        }
      }
    } catch (Fault&) {
      failed = true;
    } catch (std::bad_alloc&) {
      failed = true;
    }
    __vp_new_faults(false);
    disarm();
    CHK("C26", (a == probe) == (v == x), "the source keeps its value");
    if (failed) {
      CHK("C26", (b == probe) == (w == x) && G.liveElems == 3, "a failed operation changes nothing and leaks nothing");
      __vp_cover("failed");
    } else
      __vp_cover("succeeded");
  }
  CHK("C26", G.liveElems == 0, "every object has been destroyed");
  __vp_leak_check("C26:no memory leaked");
  __vp_cover("end of harness reached");
}
VP_ENTRY(wrapper) {
  if (__vp_pick_bool("constrained")) wrap<xyz::constrained_wrapper<Obj>>();
  else wrap<xyz::wrapper<Obj>>();
}

// construction failing in the object or in operator new
VP_ENTRY(wrapper_make) {
  start();
  {
    nextValue = __vp_nondet_u32("value");
    arm(1);
    __vp_new_faults(true);
    try {
      if (__vp_pick_bool("constrained")) { xyz::constrained_wrapper<Obj> w; CHK("C26", G.liveElems == 1, "one object is built"); }
      else { xyz::wrapper<Obj> w; CHK("C26", G.liveElems == 1, "one object is built"); }
    } catch (Fault&) {
      __vp_cover("object failed");
    } catch (std::bad_alloc&) {
      __vp_cover("allocation failed");
    }
    __vp_new_faults(false);
    disarm();
  }
  CHK("C26", G.liveElems == 0, "every object has been destroyed");
  __vp_leak_check("C26:no memory leaked");
  __vp_cover("end of harness reached");
}

// the composites over an incomplete type
template <class M>
static void member() {
  start();
  {
    __vp_new_faults(true);
    try {
      M a;
      M b(a);
      M c(b);
      CHK("C26", a == b && b == c && a == c, "a copy of a composite equals its source");
      __vp_cover("composite copied");
    } catch (std::bad_alloc&) {
      __vp_cover("allocation failed");
    }
    __vp_new_faults(false);
  }
  __vp_leak_check("C26:no memory leaked");
  __vp_cover("end of harness reached");
}
VP_ENTRY(wrapper_members) {
  using namespace xyz::testing;
  switch (__vp_pick("composite", 6)) {
    case 0: member<VectorMember>(); break;
    case 1: member<UniquePtrMember>(); break;
    case 2: member<WrapperMember>(); break;
    case 3: member<ConstrainedWrapperMember>(); break;
    case 4: member<VariantWrapperMember>(); break;
    default: member<VariantVectorMember>(); break;
  }
}

// equality is the owned type's, whatever it answers
static double nextDouble;
struct DV {
  double d;
  DV() : d(nextDouble) {}
  friend bool operator==(const DV& a, const DV& b) { return a.d == b.d; }
};
template <class W>
static void equality() {
  start();
  {
    uint64_t v = __vp_nondet_u64("a.bits"), w = __vp_nondet_u64("b.bits");
    double x, y;
    memcpy(&x, &v, 8);
    memcpy(&y, &w, 8);
    nextDouble = x;
    W a;
    nextDouble = y;
    W b;
    W c(a);
    CHK("C26", (a == b) == (x == y), "wrappers compare as their objects do");
    CHK("C26", (a == a) == (x == x) && (a == c) == (x == x), "a wrapper equals itself and its copy as its object does");
    __vp_cover("compared");
  }
  __vp_leak_check("C26:no memory leaked");
}
VP_ENTRY(wrapper_equality) {
  if (__vp_pick_bool("constrained")) equality<xyz::constrained_wrapper<DV>>();
  else equality<xyz::wrapper<DV>>();
}
