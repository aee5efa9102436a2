// Owned types of every trait class (trivial, trivially destructible, nothrow,
// copy-only, not assignable, final, empty, scalar), alone and as members of
// classes derived from bases of several kinds.
#ifndef SHAPES_H
#define SHAPES_H
#include "ind.h"
#include "pol.h"
namespace vp {
struct TTriv { uint32_t v; uint32_t w[3]; TTriv() = default; explicit TTriv(uint32_t x) : v(x) { w[2] = ~x; w[0] = w[1] = 0; } VP_AMP(TTriv) };
struct TDtor {  // trivial destructor only
  uint32_t v, w;
  explicit TDtor(uint32_t x) noexcept : v(x), w(x + 1) {}
  TDtor(const TDtor& o) noexcept : v(o.v), w(o.w) {}
  TDtor& operator=(const TDtor& o) noexcept { v = o.v; w = o.w; return *this; }
};
template <int K, bool NCOPY, bool NMOVE, bool HASMOVE>
struct TNo;  // nontrivial, with chosen noexcept
template <int K, bool NCOPY, bool NMOVE>
struct TNo<K, NCOPY, NMOVE, true> {
  uint32_t v;
  explicit TNo(uint32_t x) : v(x) { born(this, K); }
  TNo(const TNo& o) noexcept(NCOPY) : v(o.v) { if (!NCOPY) fault_point(); born(this, K); }
  TNo(TNo&& o) noexcept(NMOVE) : v(o.v) { if (!NMOVE) fault_point(); born(this, K); }
  TNo& operator=(const TNo& o) noexcept { v = o.v; return *this; }
  VP_AMP(TNo)
  ~TNo() { died(this, K); }
};
template <int K, bool NCOPY, bool NMOVE>
struct TNo<K, NCOPY, NMOVE, false> {
  uint32_t v;
  explicit TNo(uint32_t x) : v(x) { born(this, K); }
  TNo(const TNo& o) noexcept(NCOPY) : v(o.v) { if (!NCOPY) fault_point(); born(this, K); }
  TNo& operator=(const TNo& o) noexcept { v = o.v; return *this; }
  VP_AMP(TNo)
  ~TNo() { died(this, K); }
};
struct TBig { uint32_t v; char c[3000]; explicit TBig(uint32_t x) : v(x) { c[2999] = 9; } };  // its bytes are not all initialised
struct TFin final { uint32_t v; explicit TFin(uint32_t x) : v(x) {} };
struct TConst { const uint32_t v; explicit TConst(uint32_t x) : v(x) {} };
struct alignas(64) TOver { uint32_t v; char c[70]; explicit TOver(uint32_t x) : v(x) { memset(c, 1, sizeof c); } };
struct TEmp { constexpr TEmp() {} explicit TEmp(uint32_t) {} };
struct TPriv {  // refers to itself: must not be relocated bytewise
  uint32_t v;
  const TPriv* self;
  explicit TPriv(uint32_t x) noexcept : v(x), self(this) {}
  TPriv(const TPriv& o) noexcept : v(o.v), self(this) {}
  TPriv& operator=(const TPriv& o) noexcept { v = o.v; return *this; }
};
template <class T> static bool good(const T& t, uint32_t v) { return t.v == v; }
static bool good(const TTriv& t, uint32_t v) { return (t.v == v) & (t.w[2] == ~v); }
static bool good(const TDtor& t, uint32_t v) { return (t.v == v) & (t.w == v + 1); }
static bool good(const TOver& t, uint32_t v) { return (t.v == v) & (t.c[0] == 1) & (t.c[69] == 1); }
static bool good(const TBig& t, uint32_t v) { return (t.v == v) & (t.c[2999] == 9); }
static bool good(const TEmp&, uint32_t) { return true; }
static bool good(const TPriv& t, uint32_t v) { return (t.v == v) & (t.self == &t); }
static bool good(uint32_t t, uint32_t v) { return t == v; }
static bool good(uint8_t t, uint32_t v) { return t == (uint8_t)v; }
using T1 = TNo<5, true, true, true>;    // everything noexcept
using T2 = TNo<6, true, false, true>;   // copies never fail, moves do
using T3 = TNo<7, false, true, true>;   // moves never fail, copies do
using T4 = TNo<8, true, true, false>;   // no move constructor
using T5 = TNo<9, false, true, false>;

enum { HK = 4 };
#define HOOKED(X) template <> struct KindOf<X> { static constexpr int value = HK; };
HOOKED(TTriv) HOOKED(TBig) HOOKED(TDtor) HOOKED(TFin) HOOKED(TConst) HOOKED(TOver) HOOKED(TEmp) HOOKED(TPriv) HOOKED(T1) HOOKED(T2) HOOKED(T3) HOOKED(T4) HOOKED(T5) HOOKED(uint32_t) HOOKED(uint8_t)

template <class T, class C>
struct OI {
  using A = A_<T, C>;
  using X = T;
  using O = xyz::indirect<T, A>;
  static constexpr bool inplace = std::is_copy_assignable<T>::value, copies = inplace;
  static O make(uint8_t, uint32_t v, const A& al) { return O(std::allocator_arg, al, VP_IN_PLACE, v); }
  static bool is(const O& o, uint8_t, uint32_t v) { return good(*o, v); }
};
// the same types derived from a plain, an abstract and an empty base
struct B0 { uint32_t k; };
struct B1 { virtual uint32_t kind() const = 0; virtual ~B1() {} };
struct B2 {};
template <class B, class T> struct Der;
template <class T> struct Der<B0, T> : B0 { T t; explicit Der(uint32_t v) : B0(), t(v) { k = 1; } };
template <class T> struct Der<B1, T> : B1 { T t; explicit Der(uint32_t v) : t(v) {} uint32_t kind() const override { return 1; } };
template <class T> struct Der<B2, T> : B2 { T t; explicit Der(uint32_t v) : t(v) {} };
// no members at all; the base itself
template <> struct Der<B2, TEmp> : B2 { static constexpr TEmp t{}; Der() = default; explicit Der(uint32_t) {} };
struct BS { TTriv t; explicit BS(uint32_t v) : t(v) {} };
struct BE { static constexpr TEmp t{}; BE() = default; explicit BE(uint32_t) {} };
struct BV { T1 t; explicit BV(uint32_t v) : t(v) {} virtual ~BV() {} };
template <class T> struct Der<BS, T> : BS { T t; explicit Der(uint32_t v) : BS(v), t(v) {} };
template <class T> struct Der<BE, T> : BE { T t; explicit Der(uint32_t v) : t(v) {} };
template <class T> struct Der<BV, T> : BV { T t; explicit Der(uint32_t v) : BV(v), t(v) {} };
constexpr TEmp Der<B2, TEmp>::t, BE::t;
struct Self {};
template <class B, class T> struct DerSel { using type = Der<B, T>; };
template <class B> struct DerSel<B, Self> { using type = B; };
HOOKED(BS) HOOKED(BE) HOOKED(BV)
template <class B, class T> struct KindOf<Der<B, T>> { static constexpr int value = HK; };
struct DFin0 final : B0 { uint32_t v; explicit DFin0(uint32_t x) : B0(), v(x) { k = 1; } };
template <class B, class T, class C>
struct OP {
  using A = A_<B, C>;
  using O = xyz::polymorphic<B, A>;
  static constexpr bool inplace = false, copies = true;
  // a is made with type 0 (Der<B, T>), b with type 1 (another one)
  using D0 = typename DerSel<B, T>::type;
  using D1 = Der<B, TTriv>;
  using X = D0;
  static O make(uint8_t ty, uint32_t v, const A& al) { return ty ? O(std::allocator_arg, al, VP_IPT(D1), v) : O(std::allocator_arg, al, VP_IPT(D0), v); }
  static bool is(const O& o, uint8_t ty, uint32_t v) { return ty ? good(static_cast<const D1&>(*o).t, v) : good(static_cast<const D0&>(*o).t, v); }
};
}  // namespace vp
#endif
