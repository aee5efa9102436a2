// std::pmr::polymorphic_allocator: never propagates, copies select the default
// resource, assignment of allocators is deleted, and construct performs
// uses-allocator construction of the owned object.
#include "ind.h"
#include "pol.h"
#include <memory_resource>
using namespace vp;

struct Res : std::pmr::memory_resource {
  uint32_t tag;
  uint32_t group;  // resources of one group are interchangeable
  uint32_t live;
  explicit Res(uint32_t t) : tag(t), group(t), live(0) {}
  ~Res() {}
  void* do_allocate(size_t bytes, size_t al) override {
    void* p = block_alloc(bytes, 1, al, (const void*)(uintptr_t)al, group);
    live++;
    return p;
  }
  void do_deallocate(void* p, size_t bytes, size_t al) override {
    live--;
    block_free((char*)p, bytes, (const void*)(uintptr_t)al, group, false);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return group == static_cast<const Res&>(o).group; }
};
std::pmr::memory_resource::~memory_resource() {}
static Res* dflt;
namespace std { namespace pmr {
__attribute__((used)) memory_resource* get_default_resource() noexcept { return dflt; }
} }  // namespace std::pmr
template <class T> using PA = std::pmr::polymorphic_allocator<T>;

// the owned object of the indirect: itself an indirect, so that uses-allocator
// construction hands it the resource
using In = xyz::indirect<VS, PA<VS>>;
using II = xyz::indirect<In, PA<In>>;
using IV = xyz::indirect<VS, PA<VS>>;
using PV = xyz::polymorphic<PB, PA<PB>>;
template <class> struct Ops;
template <> struct Ops<IV> {
  static IV make(Res& r, uint32_t v, bool) { return IV(std::allocator_arg, PA<VS>(&r), VP_IN_PLACE, v); }
  static bool is(const IV& x, uint32_t v, bool) { return x->t.v == v && !x->t.moved; }
  static bool inner(const IV&, const Res&) { return true; }
  static const void* at(const IV& x) { return std::addressof(*x); }
  enum { N = 1 };
};
template <> struct Ops<II> {
  static II make(Res& r, uint32_t v, bool) { return II(std::allocator_arg, PA<In>(&r), VP_IN_PLACE, VP_IN_PLACE, v); }
  static bool is(const II& x, uint32_t v, bool) { return !x->valueless_after_move() && (*x)->t.v == v && !(*x)->t.moved; }
  static bool inner(const II& x, const Res& r) { return x->get_allocator().resource() == &r; }
  static const void* at(const II& x) { return std::addressof(*x); }
  enum { N = 2 };
};
template <> struct Ops<PV> {
  static PV make(Res& r, uint32_t v, bool d) { return d ? PV(std::allocator_arg, PA<PB>(&r), VP_IPT(D2), v) : PV(std::allocator_arg, PA<PB>(&r), VP_IPT(D1), v); }
  static bool is(const PV& x, uint32_t v, bool d) { return x->t.v == v && !x->t.moved && x->who() == (d ? 3u : 2u); }
  static bool inner(const PV&, const Res&) { return true; }
  static const void* at(const PV& x) { return std::addressof(*x); }
  enum { N = 1 };
};
template <class X>
static bool on(const X& x, Res& r) { return x.get_allocator().resource() == &r; }
template <class X>
static bool holds(const X& x, bool vl, const void* p, uint32_t v, bool d) {
  if (vl) return x.valueless_after_move();
  return !x.valueless_after_move() && Ops<X>::at(x) == p && Ops<X>::is(x, v, d);
}

template <class X>
static void pmr() {
  start();
  {
    Res r1(1), r2(2), rd(3);
    dflt = &rd;
    bool equal = __vp_pick_bool("resources interchangeable");
    if (equal) r2.group = r1.group;
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value");
    bool d = Ops<X>::N == 1 && __vp_pick_bool("a.derived"), e = Ops<X>::N == 1 && __vp_pick_bool("b.derived");
    Res& rb = __vp_pick_bool("same resource") ? r1 : r2;
    bool eq = &rb == &r1 || equal;
    X a = Ops<X>::make(r1, v, d), b = Ops<X>::make(rb, w, e);
    CHK("C18", Ops<X>::inner(a, r1) && Ops<X>::inner(b, rb), "construction hands the owned object the resource");
    CHK("C18", rd.live == 0, "construction with a resource uses that resource only");
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    if (va) { X s(std::move(a)); CHK("C03,C08", on(s, r1), "a move keeps the resource"); }
    if (vb) { X s(std::move(b)); }
    const void* pa = va ? nullptr : Ops<X>::at(a);
    const void* pb = vb ? nullptr : Ops<X>::at(b);
    uint8_t op = __vp_pick("operation", 7);
    if (op == 6) __vp_assume(eq);
    arm(1);
    bool failed = false;
    try {
      switch (op) {
        case 0: {
          X c(static_cast<const X&>(b));
          disarm();
          CHK("C08", on(c, rd), "copy construction selects the allocator for the copy");
          CHK("C01,C11", vb ? c.valueless_after_move() : Ops<X>::is(c, w, e) && Ops<X>::at(c) != pb, "the copy has the value");
          if (!vb) CHK("C18", Ops<X>::inner(c, rd), "copy construction hands the owned object the resource");
          CHK("C05", rd.live == (vb ? 0u : (uint32_t)Ops<X>::N), "the copy lives in its own resource");
          __vp_cover("copied");
          break;
        }
        case 1: {
          X c(std::allocator_arg, PA<VS>(&r1), static_cast<const X&>(b));
          disarm();
          CHK("C08", on(c, r1), "extended copy construction takes the given allocator");
          CHK("C01,C11", vb ? c.valueless_after_move() : Ops<X>::is(c, w, e) && Ops<X>::at(c) != pb, "the copy has the value");
          if (!vb) CHK("C18", Ops<X>::inner(c, r1), "copy construction hands the owned object the resource");
          CHK("C05", rd.live == 0, "the copy lives in its own resource");
          break;
        }
        case 2: {
          X c(std::move(b));
          disarm();
          CHK("C08", on(c, rb), "move construction takes the allocator along");
          CHK("C03", G.cnt[0][E_ALLOC] == 0 && b.valueless_after_move() && holds(c, vb, pb, w, e), "move construction hands the owned object over");
          vb = true;
          break;
        }
        case 3: {
          X c(std::allocator_arg, PA<VS>(&r1), std::move(b));
          disarm();
          CHK("C08", on(c, r1), "extended move construction takes the given allocator");
          if (vb)
            CHK("C11", c.valueless_after_move(), "moving from valueless gives valueless");
          else {
            CHK("C03", eq ? Ops<X>::at(c) == pb && G.cnt[0][E_ALLOC] == 0 : Ops<X>::at(c) != pb, "extended move construction takes the object exactly when the allocators are equal");
            CHK("C01,C03", Ops<X>::is(c, w, e), "the result has the value");
            if (!eq) CHK("C18", Ops<X>::inner(c, r1), "extended move construction hands the owned object the resource");
          }
          CHK("C11,C03", !eq || b.valueless_after_move(), "the source is left valueless when its object was taken");
          vb = b.valueless_after_move();
          pb = nullptr;
          __vp_cover("extended move");
          break;
        }
        case 4:
          a = static_cast<const X&>(b);
          disarm();
          CHK("C08", on(a, r1), "copy assignment keeps the allocator");
          CHK("C01,C11", vb ? a.valueless_after_move() : Ops<X>::is(a, w, e) && Ops<X>::at(a) != pb, "copy assignment gives an own object with the value");
          CHK("C05", rd.live == 0, "copy assignment allocates from the target's resource");
          if (!vb) CHK("C18", Ops<X>::inner(a, r1), "copy assignment hands the owned object the resource");
          break;
        case 5:
          a = std::move(b);
          disarm();
          CHK("C08", on(a, r1), "move assignment keeps the allocator");
          if (vb)
            CHK("C11", a.valueless_after_move(), "moving from valueless gives valueless");
          else {
            CHK("C03", eq ? Ops<X>::at(a) == pb && G.cnt[0][E_ALLOC] == 0 : Ops<X>::at(a) != pb, "move assignment takes the object exactly when the allocators are equal");
            CHK("C01,C03", Ops<X>::is(a, w, e), "move assignment gives the value");
            if (!eq) CHK("C18", Ops<X>::inner(a, r1), "move assignment hands the owned object the resource");
          }
          CHK("C05", rd.live == 0, "move assignment allocates from the target's resource");
          vb = b.valueless_after_move();
          pb = nullptr;
          __vp_cover("move assigned");
          break;
        default:
          swap(a, b);
          disarm();
          CHK("C08,C09", on(a, r1) && on(b, rb), "swap keeps the allocators");
          CHK("C09", holds(a, vb, pb, w, e) && holds(b, va, pa, v, d) && G.cnt[0][E_ALLOC] == 0, "swap exchanges the owned objects");
          break;
      }
    } catch (Fault&) {
      failed = true;
    }
    disarm();
    if (failed) {
      CHK("C08", on(a, r1) && on(b, rb), "a failed operation changes no allocator");
      CHK("C06,C07", holds(a, va, pa, v, d), "a failed operation changes nothing");
      bool moved = op == 3 || op == 5;
      if (!moved) CHK("C06,C07", holds(b, vb, pb, w, e), "a failed operation keeps its source");
      __vp_cover("failed");
    } else if (op < 4)
      CHK("C01", holds(a, va, pa, v, d), "an unrelated object is unaffected");
    if (op == 0 || op == 1 || op == 4) CHK("C01", holds(b, vb, pb, w, e), "copying leaves the source alone");
    // everything is given back to the resource it came from
    CHK("C05", rd.live == 0, "a released copy gives its memory back to its resource");
  }
  finish();
}
VP_ENTRY(pmr_ind) { pmr<IV>(); }
VP_ENTRY(pmr_nested) { pmr<II>(); }
VP_ENTRY(pmr_pol) { pmr<PV>(); }
