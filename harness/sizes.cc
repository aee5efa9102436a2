// Owned types of many sizes and alignments, trivial and not, under
// std::allocator and an allocator whose memory is aligned as asked and no
// better: every byte of the value is compared after each operation.
#include "ind.h"
#include "pol.h"
using namespace vp;
using u8 = unsigned char;
template <class T>
struct MA {
  using value_type = T;
  uint32_t tag;
  explicit MA(uint32_t t = 0) : tag(t) {}
  template <class U> MA(const MA<U>& o) noexcept : tag(o.tag) {}
  T* allocate(size_t n) { return (T*)__vp_heap_alloc(n * sizeof(T), alignof(T)); }
  void deallocate(T* p, size_t) { __vp_heap_free(p); }
  friend bool operator==(const MA& a, const MA& b) { return a.tag == b.tag; }
  friend bool operator!=(const MA& a, const MA& b) { return a.tag != b.tag; }
};
template <class A> struct Mka { static A get(uint32_t t) { return A(t); } };
template <class T> struct Mka<std::allocator<T>> { static std::allocator<T> get(uint32_t) { return {}; } };

template <unsigned N, unsigned AL, int KIND> struct alignas(AL) Z;
template <unsigned N, unsigned AL> struct alignas(AL) Z<N, AL, 0> { u8 b[N]; };  // an aggregate
template <unsigned N, unsigned AL> struct alignas(AL) Z<N, AL, 1> {               // copied by user code
  u8 b[N];
  Z() {}
  Z(const Z& o) { for (unsigned i = 0; i < N; i++) b[i] = o.b[i]; }
  Z& operator=(const Z& o) { for (unsigned i = 0; i < N; i++) b[i] = o.b[i]; return *this; }
  ~Z() { b[0] = 0; }
};
template <unsigned N> static void fill(u8 (&b)[N], u8 x) {
  for (unsigned i = 0; i < N; i++) b[i] = (u8)(i * 31 + (i >> 8) + 7);
  b[0] = x;
  b[N - 1] = x;
  b[N / 2] = x;
}
template <unsigned N> static bool is(const u8 (&b)[N], u8 x) {
  for (unsigned i = 1; i + 1 < N; i++)
    if (i != N / 2 && b[i] != (u8)(i * 31 + (i >> 8) + 7)) return false;
  return (b[0] == x) & (b[N - 1] == x) & (b[N / 2] == x);
}
static bool aligned(const void* p, unsigned a) { return (uintptr_t)p % a == 0; }

template <class O> struct Get;  // bytes of what an owner owns
template <unsigned N, unsigned AL, int K, class A> struct Get<xyz::indirect<Z<N, AL, K>, A>> {
  static u8 (&of(xyz::indirect<Z<N, AL, K>, A>& o))[N] { return o->b; }
};
struct ZB {
  uint64_t mark = 77;
  virtual unsigned who() const { return 0; }
  virtual ~ZB() {}
};
template <unsigned N, unsigned AL, int K> struct ZD : ZB {
  Z<N, AL, K> z;
  ZD(const Z<N, AL, K>& o) : z(o) {}
  unsigned who() const override { return N; }
};

template <class O, class D, unsigned N, unsigned AL, int K, class MK, class GET>
static void script(uint32_t t, uint32_t u, u8 x, u8 y, bool same, MK mk, GET get) {
  using ZZ = Z<N, AL, K>;
  using A = typename O::allocator_type;
  ZZ z;
  fill(z.b, x);
  A at = Mka<A>::get(t), au = Mka<A>::get(u);
  O a = mk(at, z);
  CHK("C01,C18,C02", is(get(a), x), "the value it was made from");
  CHK("C05", aligned(get(a), AL), "aligned");
  O b(a);
  CHK("C01,C02", is(get(b), x) && is(get(a), x) && get(b) != get(a), "a copy");
  CHK("C05", aligned(get(b), AL), "a copy is aligned");
  O c(std::allocator_arg, au, a);
  CHK("C01,C02", is(get(c), x) && get(c) != get(a), "a copy with another allocator");
  const void* pc = get(c);
  O d(std::allocator_arg, au, std::move(c));
  CHK("C03,C02", get(d) == pc && is(get(d), x) && c.valueless_after_move(), "a move to an equal allocator keeps the object");
  O e(std::allocator_arg, at, std::move(d));
  if (same) CHK("C03", get(e) == pc, "a move to an equal allocator keeps the object");
  CHK("C03,C02,C07", is(get(e), x), "a move with another allocator");
  CHK("C05", aligned(get(e), AL), "a moved object is aligned");
  fill(get(a), y);
  CHK("C01", is(get(b), x) && is(get(e), x), "copies are independent");
  b = a;
  CHK("C01,C15,C02", is(get(b), y) && is(get(a), y), "assignment copies the value");
  c = a;
  CHK("C01,C11,C02", is(get(c), y) && is(get(a), y), "assignment to a valueless object");
  b = std::move(e);
  CHK("C03,C02", is(get(b), x) && e.valueless_after_move(), "move assignment");
  c = std::move(b);
  CHK("C03,C02", is(get(c), x), "move assignment between allocators");
  swap(a, e);
  CHK("C09", is(get(e), y) && a.valueless_after_move(), "swap");
  O f = mk(at, z);
  swap(f, e);
  CHK("C09,C02", is(get(e), x) && is(get(f), y), "swap of two values");
  __vp_cover("script");
}
static struct {
  uint32_t t, u;
  u8 x, y;
  bool same;
} In;
static void inputs() {
  In.t = __vp_nondet_u32("tag");
  In.x = __vp_nondet_u8("x");
  In.y = __vp_nondet_u8("y");
  In.same = __vp_pick_bool("equal allocators");
  In.u = In.same ? In.t : __vp_nondet_u32("other tag");
  if (!In.same) __vp_assume(In.u != In.t);
}
template <template <class> class AL_, unsigned N, unsigned AL, int K>
static void oneI() {
  using ZZ = Z<N, AL, K>;
  using O = xyz::indirect<ZZ, AL_<ZZ>>;
  uint32_t t = In.t, u = In.u;
  u8 x = In.x, y = In.y;
  bool same = std::is_same<AL_<int>, std::allocator<int>>::value || In.same;
  {
    script<O, ZZ, N, AL, K>(t, u, x, y, same, [](const AL_<ZZ>& a, const ZZ& z) { return O(std::allocator_arg, a, VP_IN_PLACE, z); }, [](O& o) -> u8(&)[N] { return o->b; });
    ZZ z;
    fill(z.b, y);
    O o(std::allocator_arg, Mka<AL_<ZZ>>::get(t), VP_IN_PLACE);
    o = z;
    CHK("C15", is(o->b, y), "value assignment");
    O sink(std::move(o));
    o = z;
    CHK("C15,C11", is(o->b, y) && is(sink->b, y), "value assignment to a valueless object");
  }
  __vp_leak_check("C04:everything is released");
}
template <template <class> class AL_, unsigned N, unsigned AL, int K>
static void oneP() {
  using ZZ = Z<N, AL, K>;
  using D = ZD<N, AL, K>;
  using O = xyz::polymorphic<ZB, AL_<ZB>>;
  uint32_t t = In.t, u = In.u;
  u8 x = In.x, y = In.y;
  bool same = std::is_same<AL_<int>, std::allocator<int>>::value || In.same;
  {
    script<O, D, N, AL, K>(t, u, x, y, same, [](const AL_<ZB>& a, const ZZ& z) { return O(std::allocator_arg, a, VP_IPT(D), z); },
                           [](O& o) -> u8(&)[N] { CHK("C02", o->who() == N && o->mark == 77, "the dynamic type"); return static_cast<D&>(*o).z.b; });
  }
  __vp_leak_check("C04:everything is released");
}
template <class T> using SA = std::allocator<T>;
#ifdef __cpp_aligned_new
#define OV(a) a
#else
#define OV(a) 16  // std::allocator gives no more before C++17
#endif
#define SMALL(F, A, K) F<A, 1, 1, K>(); F<A, 2, 1, K>(); F<A, 3, 1, K>(); F<A, 4, 4, K>(); F<A, 5, 1, K>(); F<A, 6, 2, K>(); F<A, 7, 1, K>(); F<A, 8, 8, K>(); F<A, 9, 1, K>(); F<A, 12, 4, K>(); F<A, 15, 1, K>(); F<A, 16, 16, K>(); F<A, 17, 1, K>()
#define MEDIUM(F, A, K) F<A, 24, 8, K>(); F<A, 31, 1, K>(); F<A, 32, OV(32), K>(); F<A, 33, 1, K>(); F<A, 48, 16, K>(); F<A, 63, 1, K>(); F<A, 64, OV(64), K>(); F<A, 65, 1, K>(); F<A, 100, 4, K>(); F<A, 127, 1, K>(); F<A, 128, OV(128), K>(); F<A, 129, 1, K>(); F<A, 250, 2, K>()
#define LARGE(F, A, K) F<A, 256, OV(256), K>(); F<A, 257, 1, K>(); F<A, 515, 1, K>(); F<A, 1023, 1, K>(); F<A, 1028, 4, K>(); F<A, 2049, 1, K>(); F<A, 4104, 8, K>()
template <template <class> class A, int K> static void allI() {
  switch (__vp_pick("size", 3)) {
    case 0: SMALL(oneI, A, K); break;
    case 1: MEDIUM(oneI, A, K); break;
    default: LARGE(oneI, A, K);
  }
}
template <template <class> class A, int K> static void allP() {
  switch (__vp_pick("size", 3)) {
    case 0: SMALL(oneP, A, K); break;
    case 1: MEDIUM(oneP, A, K); break;
    default: LARGE(oneP, A, K);
  }
}
#define ALL(F)                               \
  switch (__vp_pick("kind", 4)) {            \
    case 0: F<SA, 0>(); break;               \
    case 1: F<SA, 1>(); break;               \
    case 2: F<MA, 0>(); break;               \
    default: F<MA, 1>();                     \
  }
#ifdef VP_POL
VP_ENTRY(sizes_pol) { inputs(); ALL(allP) }
#else
VP_ENTRY(sizes_ind) { inputs(); ALL(allI) }
#endif
