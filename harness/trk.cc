// The supplied tracking and tagged allocators (C23).
#include <memory>
#include <new>
#include "tagged_allocator.h"
#include "tracking_allocator.h"
#if VP_STD == 20
#include "indirect.h"
#include "polymorphic.h"
#define VP_IN_PLACE std::in_place
#define VP_IPT(U) std::in_place_type<U>
#else
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
#define VP_IN_PLACE xyz::in_place_t{}
#define VP_IPT(U) xyz::in_place_type_t<U>{}
#endif
#include "env.h"
using namespace vp;
#ifndef VP_STEPS
#define VP_STEPS 2
#endif

struct S3 { char c[3]; };
#if VP_STD == 20
#define OV_AL 32  // std::allocator honours it from C++17 on
#else
#define OV_AL 16
#endif
struct alignas(OV_AL) Ov { uint64_t a[5]; };
struct Base { uint32_t x; explicit Base(uint32_t v) : x(v) {} virtual ~Base() {} };
struct Der : Base { uint64_t y[4]; explicit Der(uint32_t v) : Base(v) { y[3] = v; } };

template <class AL>
static void use(AL& a, uint32_t n) {
  using T = typename AL::value_type;
  T* p = a.allocate(n);
  CHK("C23", p != nullptr && (uintptr_t)p % alignof(T) == 0, "storage is aligned");
  memset((void*)p, 0x5A, n * sizeof(T));  // all of it is usable
  a.deallocate(p, n);
}
static const size_t sizes[5] = {0, 1, 2, 3, 17};
// Any sequence of up to 3 allocations through the allocator, copies and
// rebound copies, with operator new failing anywhere.
VP_ENTRY(tracking_counts) {
  start();
  {
    unsigned na = __vp_nondet_u32("allocations so far"), nd = __vp_nondet_u32("deallocations so far");
    unsigned al = na, de = nd, tried = 0, freed = 0;
    xyz::TrackingAllocator<uint32_t> a(&al, &de);
    xyz::TrackingAllocator<uint32_t> b(a);
    xyz::TrackingAllocator<S3> c(a);
    std::allocator_traits<xyz::TrackingAllocator<uint32_t>>::rebind_alloc<Ov> d(b);
    __vp_new_faults(true);
    for (int i = 0; i < VP_STEPS; i++) {
      uint8_t w = __vp_pick("through", 5);
      size_t n = sizes[__vp_pick("size", 5)];
      try {
        if (w == 4) {
          break;
        }
        tried++;
        switch (w) {
          case 0: use(a, n); break;
          case 1: use(b, n); break;
          case 2: use(c, n); break;
          case 3: use(d, n); break;
        }
        freed++;
      } catch (std::bad_alloc&) {
        __vp_cover("allocation failed");
      }
      // whether a failed attempt counts is not specified
      CHK("C23", ((al == na + tried) | (al == na + freed)) & (de == nd + freed), "counters equal the allocations and deallocations made");
    }
    __vp_new_faults(false);
    __vp_cover("sequence done");
  }
  __vp_leak_check("C23:storage is returned");
}
// Blocks whose lifetimes overlap, given back in either order and through any
// equal allocator.
VP_ENTRY(tracking_overlap) {
  start();
  {
    unsigned al = __vp_nondet_u32("allocations so far"), de = __vp_nondet_u32("deallocations so far");
    const unsigned a0 = al, d0 = de;
    xyz::TrackingAllocator<uint32_t> a(&al, &de);
    xyz::TrackingAllocator<S3> c(a);
    xyz::TrackingAllocator<Ov> d(c);
    xyz::TrackingAllocator<uint32_t> b(d);
    size_t n = sizes[__vp_pick("first size", 5)], m = sizes[__vp_pick("second size", 5)];
    uint32_t* p = a.allocate(n);
    uint32_t* q = b.allocate(m);
    CHK("C23", al == a0 + 2 && de == d0, "every allocation counts once");
    CHK("C23", p != q, "blocks are distinct");
    if (n && m) {
      p[n - 1] = 1;
      q[m - 1] = 2;
      CHK("C23", p[n - 1] == 1, "blocks do not overlap");
    }
    bool swapped = __vp_pick_bool("through the other allocator");
    if (__vp_pick_bool("reverse order")) {
      (swapped ? a : b).deallocate(q, m);
      CHK("C23", al == a0 + 2 && de == d0 + 1, "every deallocation counts once");
      (swapped ? b : a).deallocate(p, n);
    } else {
      (swapped ? b : a).deallocate(p, n);
      CHK("C23", al == a0 + 2 && de == d0 + 1, "every deallocation counts once");
      (swapped ? a : b).deallocate(q, m);
    }
    CHK("C23", al == a0 + 2 && de == d0 + 2, "every deallocation counts once");
    __vp_cover("both returned");
  }
  __vp_leak_check("C23:storage is returned");
}
VP_ENTRY(tracking_equality) {
  unsigned c[4] = {0, 0, 0, 0};
  uint8_t i = __vp_nondet_u8("i"), j = __vp_nondet_u8("j"), k = __vp_nondet_u8("k"), l = __vp_nondet_u8("l");
  __vp_assume((i < 4) & (j < 4) & (k < 4) & (l < 4));
  xyz::TrackingAllocator<uint32_t> a(c + i, c + j), b(c + k, c + l);
  bool e = (i == k) & (j == l);
  CHK("C23", (a == b) == e, "tracking allocators are equal iff they share both counters");
  CHK("C23", (a != b) == !e, "!= is the negation");
  xyz::TrackingAllocator<uint32_t> a2(a);
  xyz::TrackingAllocator<S3> ra(a);
  xyz::TrackingAllocator<uint32_t> back(ra);
  CHK("C23", (a2 == a) & (back == a) & ((back == b) == e), "equality survives copying and rebinding");
  b = a;
  CHK("C23", b == a, "assignment makes equal");
  __vp_cover("equality");
}
VP_ENTRY(tagged) {
  start();
  {
    size_t s = __vp_nondet_u64("s"), t = __vp_nondet_u64("t");
    xyz::TaggedAllocator<uint32_t> a(s), b(t);
    CHK("C23", (a == b) == (s == t), "tagged allocators are equal iff their tags are");
    CHK("C23", (a != b) == (s != t), "!= is the negation");
    xyz::TaggedAllocator<uint32_t> a2(a);
    xyz::TaggedAllocator<Ov> ra(a);
    std::allocator_traits<xyz::TaggedAllocator<Ov>>::rebind_alloc<uint32_t> back(ra);
    CHK("C23", (a2 == a) & (back == a) & ((back == b) == (s == t)) & (back.tag == s), "equality survives copying and rebinding");
    size_t n = sizes[__vp_pick("size", 5)];
    __vp_new_faults(true);
    try {
      use(a, n);
      use(ra, n);
    } catch (std::bad_alloc&) {
    }
    __vp_new_faults(false);
    uint64_t buf = 0;
    a.construct((uint32_t*)&buf, (uint32_t)s);
    CHK("C23", (uint32_t)buf == (uint32_t)s, "construct builds the object from its arguments");
    __vp_cover("tagged");
  }
  __vp_leak_check("C23:storage is returned");
}
// Through the owners: the counters are the truth about what they allocate.
VP_ENTRY(tracking_owner) {
  start();
  {
    unsigned al = 0, de = 0;
    using TA = xyz::TrackingAllocator<Der>;
    using I = xyz::indirect<Der, TA>;
    using P = xyz::polymorphic<Base, xyz::TrackingAllocator<Base>>;
    uint32_t v = __vp_nondet_u32("v");
    uint8_t op = __vp_nondet_u8("op");
    __vp_assume(op < 6);
    {
      I a(std::allocator_arg, TA(&al, &de), VP_IN_PLACE, v);
      P p(std::allocator_arg, xyz::TrackingAllocator<Base>(&al, &de), VP_IPT(Der), v);
      CHK("C23", al - de == 2, "the counters account for every owned object");
      switch (op) {
        case 0: { I c(a); CHK("C23", (al - de == 3) & (c->x == v), "the counters account for a copy"); break; }
        case 1: { P c(p); CHK("C23", (al - de == 3) & (c->x == v), "the counters account for a copy"); break; }
        case 2: { I c(std::move(a)); CHK("C23", al - de == 2, "the counters account for a move"); break; }
        case 3: { P c(std::move(p)); CHK("C23", al - de == 2, "the counters account for a move"); break; }
        case 4: { I c(a); c = a; CHK("C23", al - de == 3, "the counters account for an assignment"); break; }
        default: { P c(p); c = p; CHK("C23", al - de == 3, "the counters account for an assignment"); break; }
      }
    }
    CHK("C23", al == de, "all allocations are deallocated through the allocator");
    __vp_cover("owners");
  }
  __vp_leak_check("C23:storage is returned");
}
VP_ENTRY(tagged_owner) {
  start();
  {
    using TA = xyz::TaggedAllocator<Der>;
    using I = xyz::indirect<Der, TA>;
    using P = xyz::polymorphic<Base, xyz::TaggedAllocator<Base>>;
    uint32_t v = __vp_nondet_u32("v");
    uint64_t s = __vp_nondet_u64("s"), t = __vp_nondet_u64("t");
    {
      I a(std::allocator_arg, TA(s), VP_IN_PLACE, v), b(std::allocator_arg, TA(t), VP_IN_PLACE, v + 1);
      P p(std::allocator_arg, xyz::TaggedAllocator<Base>(s), VP_IPT(Der), v);
      CHK("C23", (a.get_allocator().tag == s) & (p.get_allocator().tag == s), "the tag travels with the owner");
      a = b;
      CHK("C23", (a.get_allocator().tag == s) & (a->x == v + 1), "the tag stays on assignment");
      const void* pb = &*b;
      a = std::move(b);
      CHK("C23", (a.get_allocator().tag == s) & (a->x == v + 1) & ((&*a == pb) == (s == t)), "equal tags transfer, unequal ones do not");
      P q(std::allocator_arg, xyz::TaggedAllocator<Base>(t), p);
      CHK("C23", (q.get_allocator().tag == t) & (q->x == v), "the tag travels with the owner");
      __vp_cover("tagged owners");
    }
  }
  __vp_leak_check("C23:storage is returned");
}

// Very many blocks at once, through several allocators.
VP_ENTRY(tracking_many) {
  start();
  {
    unsigned al = __vp_nondet_u32("allocations so far"), de = __vp_nondet_u32("deallocations so far");
    unsigned a0 = al, d0 = de;
    constexpr unsigned N = 300;
    xyz::TrackingAllocator<uint32_t> a(&al, &de), b(a);
    xyz::TrackingAllocator<Ov> c(b);
    static uint32_t* p[N];
    static Ov* q[N];
    for (unsigned i = 0; i < N; i++) {
      p[i] = (i % 2 ? a : b).allocate(1 + i % 3);
      *p[i] = i;
      q[i] = c.allocate(1);
      q[i]->a[4] = i;
      CHK("C23", (al == a0 + 2 * i + 2) & (de == d0), "every allocation counts once");
    }
    bool back = __vp_pick_bool("last first");
    for (unsigned k = 0; k < N; k++) {
      unsigned i = back ? N - 1 - k : k;
      CHK("C23", (*p[i] == i) & (q[i]->a[4] == i), "blocks do not overlap");
      (i % 3 ? a : b).deallocate(p[i], 1 + i % 3);
      c.deallocate(q[i], 1);
      CHK("C23", (al == a0 + 2 * N) & (de == d0 + 2 * k + 2), "every deallocation counts once");
    }
    __vp_cover("done");
  }
  __vp_leak_check("C23:storage is returned");
}
// Rebinding between types of any size and alignment, back and forth.
struct Wide { char c[600]; };
struct End final {};
template <class T, class U, template <class> class AL, class... Args>
static void rebound(Args... args) {
  AL<T> a(args...);
  AL<U> b(a);
  AL<T> c(b);
  using R = typename std::allocator_traits<AL<T>>::template rebind_alloc<U>;
  const R d(c);
  AL<U> e(d);
  AL<T> other(e);
  CHK("C23", (c == a) & (other == a) & !(c != a) & (e == b) & (d == b), "rebinding preserves equality");
  size_t n = sizes[__vp_pick("size", 5)];
  U* p = e.allocate(n);
  memset((void*)p, 1, n * sizeof(U));
  b.deallocate(p, n);
  AL<T> asg(c);
  asg = other;
  CHK("C23", asg == a, "assignment preserves equality");
}
template <class T, template <class> class AL, class... Args>
static void rebounds(Args... args) {
  switch (__vp_pick("to", 6)) {
    case 0: rebound<T, char, AL>(args...); break;
    case 1: rebound<T, Wide, AL>(args...); break;
    case 2: rebound<T, Ov, AL>(args...); break;
    case 3: rebound<T, End, AL>(args...); break;
    case 4: rebound<T, Der, AL>(args...); break;
    default: rebound<T, void*, AL>(args...); break;
  }
}
template <template <class> class AL, class... Args>
static void rebounding(Args... args) {
  switch (__vp_pick("from", 6)) {
    case 0: rebounds<char, AL>(args...); break;
    case 1: rebounds<Wide, AL>(args...); break;
    case 2: rebounds<Ov, AL>(args...); break;
    case 3: rebounds<End, AL>(args...); break;
    case 4: rebounds<Der, AL>(args...); break;
    default: rebounds<double, AL>(args...); break;
  }
}
VP_ENTRY(rebind) {
  start();
  if (__vp_pick_bool("tagged")) {
    size_t s = __vp_nondet_u64("s");
    rebounding<xyz::TaggedAllocator>(s);
    xyz::TaggedAllocator<char> a(s);
    xyz::TaggedAllocator<Wide> b(a);
    CHK("C23", (a.tag == s) & (b.tag == s), "the tag survives");
  } else {
    unsigned al = __vp_nondet_u32("allocations so far"), de = __vp_nondet_u32("deallocations so far");
    unsigned a0 = al, d0 = de;
    rebounding<xyz::TrackingAllocator>(&al, &de);
    CHK("C23", (al == a0 + 1) & (de == d0 + 1), "every rebound copy counts in the same counters");
  }
  __vp_cover("rebound");
  __vp_leak_check("C23:storage is returned");
}
// What the tagged allocator constructs is what the arguments select.
struct Given { uint32_t v; };
struct Made {
  uint32_t v, how;
  Made(uint32_t a, uint32_t b) : v(a - b), how(1) {}
  Made(std::initializer_list<uint32_t> l) : v((uint32_t)l.size()), how(2) {}
  Made(const Given& a) : v(a.v), how(3) {}
  Made(Given&& a) : v(a.v), how(4) {}
  Made(const Made& o) : v(o.v), how(5) {}
  Made(Made&& o) : v(o.v), how(6) {}
  static void* operator new(size_t, void*) noexcept { __vp_fail("C23:placement operator new of the type was used"); }
};
VP_ENTRY(tagged_construct) {
  start();
  uint32_t x = __vp_nondet_u32("x"), y = __vp_nondet_u32("y");
  xyz::TaggedAllocator<uint32_t> a(1);
  alignas(Made) char buf[sizeof(Made)], src[sizeof(Made)];
  Made *p = (Made*)buf, *m = (Made*)src;
  Given g{x};
  uint8_t f = __vp_pick("form", 5);
  a.construct(m, x, y);
  switch (f) {
    case 0: a.construct(p, x, y); break;
    case 1: a.construct(p, static_cast<const Given&>(g)); break;
    case 2: a.construct(p, std::move(g)); break;
    case 3: a.construct(p, static_cast<const Made&>(*m)); break;
    default: a.construct(p, std::move(*m)); break;
  }
  const uint32_t how[5] = {1, 3, 4, 5, 6};
  CHK("C23", (p->how == how[f]) & (p->v == (f == 1 || f == 2 ? x : x - y)), "construct forwards its arguments");
  __vp_cover("constructed");
}
