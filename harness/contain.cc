// The types as elements of the standard library's containers and as the
// subjects of its algorithms (C22): whatever route the library takes, copies
// are deep, moves keep the owned objects, nothing is lost.
#include "ind.h"
#include "pol.h"
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
using namespace vp;
static uint32_t Live;
struct E_ {
  uint32_t v;
  const E_* self;
  E_(uint32_t x = 0) : v(x), self(this) { Live++; }
  E_(const E_& o) : v(o.v), self(this) { CHK("C22", o.self == &o, "copied from a live object"); Live++; }
  E_& operator=(const E_& o) { CHK("C22", self == this && o.self == &o, "assigned between live objects"); v = o.v; return *this; }
  ~E_() { CHK("C22", self == this, "destroyed once"); self = nullptr; Live--; }
  friend bool operator==(const E_& a, const E_& b) { return a.v == b.v; }
  friend bool operator!=(const E_& a, const E_& b) { return a.v != b.v; }
  friend bool operator<(const E_& a, const E_& b) { return a.v < b.v; }
  friend bool operator>(const E_& a, const E_& b) { return a.v > b.v; }
  friend bool operator<=(const E_& a, const E_& b) { return a.v <= b.v; }
  friend bool operator>=(const E_& a, const E_& b) { return a.v >= b.v; }
};
template <> struct std::hash<E_> {
  size_t operator()(const E_& e) const { return e.v & 7; }
};
struct S_ {
  virtual uint32_t get() const = 0;
  virtual uint32_t who() const = 0;
  virtual ~S_() {}
};
template <uint32_t W> struct SD : S_ {
  E_ e;
  char pad[W * 8];
  SD(uint32_t x) : e(x) {}
  uint32_t get() const override { return e.v; }
  uint32_t who() const override { return W; }
};
using I = xyz::indirect<E_>;
using P = xyz::polymorphic<S_>;
static I mi(uint32_t v) { return I(VP_IN_PLACE, v); }
static P mp(uint32_t v) { return (v & 1) ? P(VP_IPT(SD<1>), v) : P(VP_IPT(SD<2>), v); }
static uint32_t val(const I& i) { return i->v; }
static uint32_t val(const P& p) { CHK("C22,C02", p->who() == ((p->get() & 1) ? 1u : 2u), "the dynamic type goes with the value"); return p->get(); }
template <class O> static O mk(uint32_t v);
template <> I mk<I>(uint32_t v) { return mi(v); }
template <> P mk<P>(uint32_t v) { return mp(v); }
template <class O> struct Less { bool operator()(const O& a, const O& b) const { return val(a) < val(b); } };
template <class O> static const void* at(const O& o) { return &*o; }

enum { NV = 4 };
template <class O>
struct Set4 {  // which object owns which value
  const void* p[NV];
  uint32_t v[NV];
  Set4(const std::vector<O>& x) { for (int i = 0; i < NV; i++) { p[i] = at(x[i]); v[i] = val(x[i]); } }
  uint32_t of(const void* q) const { for (int i = 0; i < NV; i++) if (p[i] == q) return v[i]; __vp_fail("C22:an element owns an object that none of them owned before"); return 0; }
};
template <class O> static std::vector<O> four() {
  std::vector<O> x;
  for (int i = 0; i < NV; i++) x.push_back(mk<O>(__vp_nondet_u32("v") % 64));
  return x;
}
template <class O>
static void algorithms() {
  {
    std::vector<O> x = four<O>();
    Set4<O> s(x);
    switch (__vp_pick("algorithm", 9)) {
      case 0: std::sort(x.begin(), x.end(), Less<O>()); CHK("C22", val(x[0]) <= val(x[1]) && val(x[1]) <= val(x[2]) && val(x[2]) <= val(x[3]), "sorted"); break;
      case 1: std::stable_sort(x.begin(), x.end(), Less<O>()); CHK("C22", val(x[0]) <= val(x[1]) && val(x[1]) <= val(x[2]) && val(x[2]) <= val(x[3]), "sorted"); break;
      case 2: std::reverse(x.begin(), x.end()); CHK("C22", at(x[0]) == s.p[3] && at(x[3]) == s.p[0], "reversed"); break;
      case 3: std::rotate(x.begin(), x.begin() + 1, x.end()); CHK("C22", at(x[0]) == s.p[1] && at(x[3]) == s.p[0], "rotated"); break;
      case 4: std::swap_ranges(x.begin(), x.begin() + 2, x.begin() + 2); CHK("C22", at(x[0]) == s.p[2] && at(x[3]) == s.p[1], "ranges swapped"); break;
      case 5: std::partition(x.begin(), x.end(), [](const O& o) { return (val(o) & 1) == 0; }); break;
      case 6: {
        auto e = std::remove_if(x.begin(), x.end(), [](const O& o) { return (val(o) & 1) == 0; });
        uint32_t odd = 0;
        for (int i = 0; i < NV; i++) odd += s.v[i] & 1;
        CHK("C22", (uint32_t)(e - x.begin()) == odd, "as many as stay");
        x.erase(e, x.end());
        CHK("C22", Live == odd, "the others are destroyed");
        break;
      }
      case 7: { O t = std::move(x[0]); std::move(x.begin() + 1, x.end(), x.begin()); x[3] = std::move(t); CHK("C22", at(x[3]) == s.p[0] && at(x[0]) == s.p[1], "moved down"); break; }
      default: { std::make_heap(x.begin(), x.end(), Less<O>()); std::pop_heap(x.begin(), x.end(), Less<O>()); CHK("C22", val(x[3]) >= val(x[0]) && val(x[3]) >= val(x[1]) && val(x[3]) >= val(x[2]), "the greatest is last"); }
    }
    for (auto& o : x) CHK("C22,C03", s.of(at(o)) == val(o), "algorithms move the owners and leave the objects alone");
    for (size_t i = 0; i < x.size(); i++)
      for (size_t j = 0; j < i; j++) CHK("C22", at(x[i]) != at(x[j]), "no object has two owners");
    __vp_cover("algorithm");
  }
  CHK("C22,C04", Live == 0, "every object is destroyed");
  __vp_leak_check("C04,C22:everything is released");
}
template <class C> static void deep(const C& a, const C& b, uint32_t v) {
  CHK("C22,C01", val(*a.begin()) == v && val(*b.begin()) == v && at(*a.begin()) != at(*b.begin()), "a copied container holds copies");
}
template <class O, class C> static void sequence(uint32_t v, uint32_t w) {
  C c;
  c.push_back(mk<O>(v));
  const void* p = at(c.front());
  c.push_back(mk<O>(w));
  C d(c);
  deep(c, d, v);
  CHK("C22", at(c.front()) == p && val(c.back()) == w && val(d.back()) == w, "the elements");
  c.insert(c.begin(), mk<O>(w));
  auto i = c.begin();
  ++i;
  CHK("C22,C03", at(*i) == p && val(c.front()) == w, "insertion keeps the objects of the others");
  c.erase(c.begin());
  CHK("C22,C03", at(c.front()) == p && val(c.back()) == w, "and so does erasure");
  C e(std::move(c));
  CHK("C22,C03", at(e.front()) == p, "a moved container");
  e = d;
  deep(e, d, v);
  e.swap(d);
  e.clear();
  CHK("C22", Live == 2, "cleared");
  d.resize(1, mk<O>(w));
  CHK("C22", Live == 1 && val(d.front()) == v, "resized");
}
template <class O, class M> static void keyed(uint32_t v, uint32_t w) {
  M m;
  m.emplace(3, mk<O>(v));
  const void* p = at(m.find(3)->second);
  m.emplace(1, mk<O>(w));
  m.emplace(7, mk<O>(v));
  m.emplace(3, mk<O>(w));
  M n(m);
  CHK("C22,C01", n.size() == 3 && val(n.find(3)->second) == v && at(m.find(3)->second) == p && at(n.find(3)->second) != p, "a copied map");
  m.erase(1);
  m.find(3)->second = n.find(1)->second;
  CHK("C22,C01", val(m.find(3)->second) == w && val(n.find(3)->second) == v, "assigning a mapped value");
  M k(std::move(n));
  CHK("C22", k.size() == 3 && Live == 5, "objects in two maps");
  k = m;
  CHK("C22", k.size() == 2 && Live == 4 && val(k.find(3)->second) == w, "assigned");
}
template <class O>
static void containers() {
  {
    uint32_t v = __vp_nondet_u32("v"), w = __vp_nondet_u32("w");
    switch (__vp_pick("container", 8)) {
      case 0: sequence<O, std::vector<O>>(v, w); break;
      case 1: sequence<O, std::deque<O>>(v, w); break;
      case 2: sequence<O, std::list<O>>(v, w); break;
      case 3: keyed<O, std::map<int, O>>(v, w); break;
      case 4: keyed<O, std::unordered_map<int, O>>(v, w); break;
      case 5: {
        std::array<O, 2> a{{mk<O>(v), mk<O>(w)}}, b = a;
        deep(a, b, v);
        const void* p = at(a[0]);
        std::array<O, 2> c = std::move(a);
        CHK("C22,C03", at(c[0]) == p && a[0].valueless_after_move(), "a moved array");
        std::swap(b, c);
        CHK("C22,C09", at(b[0]) == p && val(c[1]) == w, "swapped arrays");
        std::pair<O, int> x(mk<O>(v), 1), y(x);
        y.first = mk<O>(w);
        CHK("C22,C01", val(x.first) == v && val(y.first) == w, "pairs");
        std::swap(x, y);
        CHK("C22,C09", val(x.first) == w, "swapped pairs");
        std::tuple<O, int, O> t(mk<O>(v), 2, mk<O>(w)), u(t);
        CHK("C22,C01", val(std::get<2>(u)) == w && at(std::get<0>(t)) != at(std::get<0>(u)), "tuples");
        break;
      }
      case 6: {
        O o = mk<O>(v);
        const void* p = at(o);
        std::unique_ptr<O> a(new O(std::move(o)));
        CHK("C22,C03", at(*a) == p, "moved into a new object");
        std::shared_ptr<O> s = std::make_shared<O>(*a);
        CHK("C22,C01", at(*s) != p && val(*s) == v, "copied into a shared object");
        O c = mk<O>(w);
        std::function<uint32_t()> f = [c] { return val(c); };
        std::function<uint32_t()> g = f;
        f = nullptr;
        CHK("C22,C01", g() == w && val(c) == w, "captured");
        O d = std::exchange(*a, std::move(c));
        CHK("C22,C03", at(d) == p && val(*a) == w && c.valueless_after_move(), "exchanged");
        auto h = [m = std::move(d)]() mutable { return std::move(m); };
        O r = h();
        CHK("C22,C03", at(r) == p, "moved through a closure");
        O* raw = new O[2]{mk<O>(v), mk<O>(w)};
        CHK("C22", val(raw[1]) == w, "an array");
        delete[] raw;
        break;
      }
      default: {
#if __cplusplus >= 201703L
        std::variant<int, O> a(mk<O>(v)), b(a);
        CHK("C22,C01", val(std::get<1>(a)) == v && at(std::get<1>(a)) != at(std::get<1>(b)), "variants");
        a = 3;
        std::variant<int, O> c(std::move(b));
        c.swap(a);
        CHK("C22", val(std::get<1>(a)) == v && c.index() == 0, "swapped variants");
        std::any x = mk<O>(w), y = x;
        CHK("C22,C01", val(std::any_cast<O&>(x)) == w && at(std::any_cast<O&>(x)) != at(std::any_cast<O&>(y)), "std::any");
        std::optional<O> o, q(mk<O>(v));
        o = q;
        q.reset();
        CHK("C22", o && val(*o) == v, "std::optional");
        o.swap(q);
        CHK("C22", !o && val(*q) == v, "swapped optionals");
#else
        std::vector<std::vector<O>> x(2), y;
        x[0].push_back(mk<O>(v));
        x[1].push_back(mk<O>(w));
        y = x;
        x[0].swap(x[1]);
        CHK("C22,C01", val(x[0][0]) == w && val(y[0][0]) == v, "vectors of vectors");
#endif
      }
    }
    __vp_cover("container");
  }
  CHK("C22,C04", Live == 0, "every object is destroyed");
  __vp_leak_check("C04,C22:everything is released");
}
VP_ENTRY(algorithms_ind) { algorithms<I>(); }
VP_ENTRY(algorithms_pol) { algorithms<P>(); }
VP_ENTRY(containers_ind) { containers<I>(); }
VP_ENTRY(containers_pol) { containers<P>(); }
// as keys: order, equality and hash of the owners are those of the values
template <class S> static void keys(S s, bool vl) {
  uint32_t a = __vp_nondet_u32("a") % 8, b = __vp_nondet_u32("b") % 8;
  s.insert(mi(a));
  bool two = s.insert(mi(b)).second;
  CHK("C22,C12,C14", two == (a != b) && s.count(mi(a)) == 1 && s.count(mi(b)) == 1, "equal values are one key");
  uint32_t n = two ? 2 : 1;
  if (vl) {
    I x = mi(1), y = mi(2);
    { I g(std::move(x)), h(std::move(y)); }
    CHK("C22,C12,C14", s.count(x) == 0, "no value is not there");
    CHK("C22,C12,C14", s.insert(x).second && !s.insert(y).second && s.count(y) == 1, "no value is one key");
    n++;
  }
  S t(s);
  s.erase(mi(a));
  CHK("C22,C12,C14", s.size() == n - 1 && t.size() == n && s.count(mi(a)) == 0, "erased by key");
  __vp_cover("keys");
}
VP_ENTRY(keys_ind) {
  switch (__vp_pick("container", 3)) {
    case 0: keys(std::set<I>(), true); break;
    case 1: keys(std::set<I, std::greater<I>>(), true); break;
    default: keys(std::unordered_set<I>(), true);
  }
  CHK("C22,C04", Live == 0, "every object is destroyed");
  __vp_leak_check("C04,C22:everything is released");
}
