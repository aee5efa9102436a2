// Allocators that offer exactly the operations their propagation traits
// promise and no others: swappable through their own swap only, move
// assignable only, copy assignable only.
#include "ind.h"
#include "pol.h"
using namespace vp;

static uint32_t swaps;

template <class T, int W>
struct Only {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, W == 2>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, W == 1>;
  using propagate_on_container_swap = std::integral_constant<bool, W == 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind { using other = Only<U, W>; };
  uint32_t tag, id;
  Only(uint32_t t, uint32_t i) noexcept : tag(t), id(i) {}
  Only(const Only&) = default;
  template <class U>
  Only(const Only<U, W>& o) noexcept : tag(o.tag), id(o.id) {}
  Only& operator=(const Only&) = delete;
  T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, tag); }
  void deallocate(T* p, size_t n) { block_free((char*)p, n, &Tid<T>::c, tag, false); }
  friend bool operator==(const Only& a, const Only& b) noexcept { return a.tag == b.tag; }
  friend bool operator!=(const Only& a, const Only& b) noexcept { return a.tag != b.tag; }
  friend void swap(Only& a, Only& b) noexcept {
    uint32_t t = a.tag, i = a.id;
    a.tag = b.tag;
    a.id = b.id;
    b.tag = t;
    b.id = i;
    swaps++;
  }
};
template <class T>
struct Only<T, 1> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::false_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::false_type;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind { using other = Only<U, 1>; };
  uint32_t tag, id;
  Only(uint32_t t, uint32_t i) noexcept : tag(t), id(i) {}
  Only(const Only&) = default;
  template <class U>
  Only(const Only<U, 1>& o) noexcept : tag(o.tag), id(o.id) {}
  Only& operator=(const Only&) = delete;
  Only& operator=(Only&&) = default;
  T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, tag); }
  void deallocate(T* p, size_t n) { block_free((char*)p, n, &Tid<T>::c, tag, false); }
  friend bool operator==(const Only& a, const Only& b) noexcept { return a.tag == b.tag; }
  friend bool operator!=(const Only& a, const Only& b) noexcept { return a.tag != b.tag; }
};
template <class T>
struct Only<T, 2> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::false_type;
  using propagate_on_container_swap = std::false_type;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind { using other = Only<U, 2>; };
  uint32_t tag, id;
  Only(uint32_t t, uint32_t i) noexcept : tag(t), id(i) {}
  Only(const Only&) = default;
  template <class U>
  Only(const Only<U, 2>& o) noexcept : tag(o.tag), id(o.id) {}
  Only& operator=(const Only&) = default;
  T* allocate(size_t n) { return (T*)block_alloc(n, sizeof(T), alignof(T), &Tid<T>::c, tag); }
  void deallocate(T* p, size_t n) { block_free((char*)p, n, &Tid<T>::c, tag, false); }
  friend bool operator==(const Only& a, const Only& b) noexcept { return a.tag == b.tag; }
  friend bool operator!=(const Only& a, const Only& b) noexcept { return a.tag != b.tag; }
};

template <int W> using OI = xyz::indirect<VS, Only<VS, W>>;
template <int W> using OP = xyz::polymorphic<PB, Only<PB, W>>;
template <class> struct Ops;
template <int W> struct Ops<OI<W>> {
  static OI<W> make(uint32_t t, uint32_t i, uint32_t v, bool) { return OI<W>(std::allocator_arg, Only<VS, W>(t, i), VP_IN_PLACE, v); }
  static bool is(const OI<W>& x, uint32_t v, bool) { return x->t.v == v && !x->t.moved; }
  enum { POL = 0 };
};
template <int W> struct Ops<OP<W>> {
  static OP<W> make(uint32_t t, uint32_t i, uint32_t v, bool d) { return d ? OP<W>(std::allocator_arg, Only<PB, W>(t, i), VP_IPT(D2), v) : OP<W>(std::allocator_arg, Only<PB, W>(t, i), VP_IPT(D1), v); }
  static bool is(const OP<W>& x, uint32_t v, bool d) { return x->t.v == v && !x->t.moved && x->who() == (d ? 3u : 2u); }
  enum { POL = 1 };
};
template <class X>
static bool holds(const X& x, bool vl, const void* p, uint32_t v, bool d) {
  if (vl) return x.valueless_after_move();
  return !x.valueless_after_move() && std::addressof(*x) == p && Ops<X>::is(x, v, d);
}
template <class X>
static bool on(const X& x, uint32_t t, uint32_t i) { return (x.get_allocator().tag == t) & (x.get_allocator().id == i); }

template <class X, int W>
static void only() {
  start();
  {
    uint32_t v = __vp_nondet_u32("a.value"), w = __vp_nondet_u32("b.value"), s = __vp_nondet_u32("a.alloc"), t = __vp_nondet_u32("b.alloc");
    bool d = Ops<X>::POL && __vp_pick_bool("a.derived"), e = Ops<X>::POL && __vp_pick_bool("b.derived");
    X a(Ops<X>::make(s, 1, v, d)), b(Ops<X>::make(t, 2, w, e));
    bool va = __vp_pick_bool("a.valueless"), vb = __vp_pick_bool("b.valueless");
    if (va) { X x(std::move(a)); }
    if (vb) { X x(std::move(b)); }
    const void* pa = va ? nullptr : std::addressof(*a);
    const void* pb = vb ? nullptr : std::addressof(*b);
    uint8_t op = __vp_pick("operation", 4);
    swaps = 0;
    // move assignment between unequal allocators that propagate is declared
    // noexcept although it allocates (known finding): no fault there
    arm(op == 1 && W == 1 ? 0 : 1);
    bool failed = false;
    try {
      switch (op) {
        case 0:
          a = static_cast<const X&>(b);
          disarm();
          CHK("C08", on(a, W == 2 ? t : s, W == 2 ? 2 : 1), "copy assignment replaces the allocator exactly when it propagates");
          CHK("C01,C11", vb ? a.valueless_after_move() : Ops<X>::is(a, w, e) && std::addressof(*a) != pb, "copy assignment gives an own object with the value");
          CHK("C01", holds(b, vb, pb, w, e) & on(b, t, 2), "copying leaves the source alone");
          __vp_cover("copied");
          break;
        case 1:
          a = std::move(b);
          disarm();
          CHK("C08", on(a, W == 1 ? t : s, W == 1 ? 2 : 1), "move assignment replaces the allocator exactly when it propagates");
          CHK("C03,C11", vb ? a.valueless_after_move() : Ops<X>::is(a, w, e), "move assignment gives the value");
          if (!vb && s == t) CHK("C03", std::addressof(*a) == pb && G.cnt[0][E_ALLOC] == 0 && b.valueless_after_move(), "equal allocators: the object is handed over");
          __vp_cover("moved");
          break;
        case 2: {
          if (W != 0) __vp_assume(s == t);
          bool member = __vp_pick_bool("member");
          if (member) a.swap(b); else swap(a, b);
          disarm();
          CHK("C08,C09", on(a, W == 0 ? t : s, W == 0 ? 2 : 1) & on(b, W == 0 ? s : t, W == 0 ? 1 : 2), "swap exchanges the allocators exactly when they propagate");
          CHK("C09", holds(a, vb, pb, w, e) && holds(b, va, pa, v, d) && G.cnt[0][E_ALLOC] == 0 && G.cnt[0][E_DEALLOC] == 0, "swap exchanges the owned objects");
          CHK("C08,C09", W == 0 || swaps == 0, "allocators that do not propagate are not swapped");
          __vp_cover("swapped");
          break;
        }
        default:
          a.swap(a);
          disarm();
          CHK("C10", holds(a, va, pa, v, d) & on(a, s, 1), "self-swap has no effect");
          break;
      }
    } catch (Fault&) {
      failed = true;
      __vp_cover("failed");
    }
    disarm();
    if (failed) {
      CHK("C06", holds(a, va, pa, v, d), "a failed assignment changes nothing");
      // a throwing move constructor may leave its source half moved from
      CHK("C06", op == 1 ? b.valueless_after_move() == vb : holds(b, vb, pb, w, e), "a failed assignment keeps its source");
      CHK("C06,C08", on(a, s, 1) & on(b, t, 2), "a failed assignment changes no allocator");
    }
  }
  finish();
}
VP_ENTRY(only_swap_ind) { only<OI<0>, 0>(); }
VP_ENTRY(only_move_ind) { only<OI<1>, 1>(); }
VP_ENTRY(only_copy_ind) { only<OI<2>, 2>(); }
VP_ENTRY(only_swap_pol) { only<OP<0>, 0>(); }
VP_ENTRY(only_move_pol) { only<OP<1>, 1>(); }
VP_ENTRY(only_copy_pol) { only<OP<2>, 2>(); }
