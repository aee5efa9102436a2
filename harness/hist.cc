// Histories: VP_K operations chosen symbolically over two objects, each with
// at most VP_F faults anywhere, against a reference model of what a user sees.
// The one-step harnesses start from states built directly; here any state is
// reached by operations, so state hidden from them would show.
#include "ind.h"
#include "pol.h"
#ifndef VP_K
#define VP_K 2
#endif
#ifndef VP_F
#define VP_F 1
#endif
using namespace vp;

template <class C>
struct TI {  // indirect
  using M = IM<VS, A_<VS, C>, C>;
  using O = typename M::I;
  using A = typename M::A;
  static constexpr bool poly = false;
  static void make(void* at, uint32_t, uint32_t v, const A& al) { ::new (at) O(std::allocator_arg, al, VP_IN_PLACE, v); }
  static uint32_t who(const typename M::Snap&) { return 1; }
  static void set(O& o, uint32_t v) { o->t.v = v; }
  static void vassign(O& o, uint32_t v) { Arg a{v}; o = a; }
};
template <class C>
struct TP {  // polymorphic
  using M = PM<HV, C>;
  using O = typename M::P;
  using A = typename M::A;
  static constexpr bool poly = true;
  static void make(void* at, uint32_t who, uint32_t v, const A& al) {
    if (who == 2) ::new (at) O(std::allocator_arg, al, VP_IPT(D1), v);
    else ::new (at) O(std::allocator_arg, al, VP_IPT(D2), v);
  }
  static uint32_t who(const typename M::Snap& s) { return s.who; }
  static void set(O& o, uint32_t v) { (*o).set(v); }
  static void vassign(O&, uint32_t) {}
};
template <class TR, class C>
struct HX {
  using M = typename TR::M;
  using O = typename TR::O;
  using A = typename TR::A;
  struct Model {
    bool live, vl;
    uint32_t v, who, tag, id;
    uint32_t obj;  // which owned object
  };
  struct St {
    alignas(16) char buf[2][sizeof(O)];
    Model m[2];
    uint32_t nobj;
    uint32_t serial[40];  // ghost serial of owned object k
    uint32_t nextId;
    O& o(int i) { return *reinterpret_cast<O*>(buf[i]); }
  };
  static void check(St& s, bool failed) {
    uint32_t blocks = 0;
    for (int i = 0; i < 2; i++) {
      Model& m = s.m[i];
      if (!m.live) continue;
      typename M::Snap x = M::snap(s.o(i));
      CHK("C11,C01,C03", x.vl == m.vl, "history: valueless exactly when the model is");
      CHK("C08", (x.tag == m.tag) & (x.id == m.id), "history: the allocator is the model's");
      if (failed) CHK("C06,C07", (x.vl == m.vl) & (x.tag == m.tag) & (x.id == m.id), "history: a failed operation changes nothing");
      if (!m.vl) {
        blocks++;
        CHK("C01,C03", x.v == m.v, "history: the value is the model's");
        CHK("C02", TR::who(x) == m.who, "history: the dynamic type is the model's");
        if (failed) CHK("C06,C07", (x.v == m.v) & (TR::who(x) == m.who), "history: a failed operation keeps values");
        if (s.serial[m.obj] == 0) s.serial[m.obj] = x.serial;
        CHK("C03,C09,C15", s.serial[m.obj] == x.serial, "history: the owned object is the model's");
        if (failed) CHK("C06,C07", s.serial[m.obj] == x.serial, "history: a failed operation keeps owned objects");
        for (int j = 0; j < 2; j++)
          if (j != i && s.m[j].live && !s.m[j].vl) CHK("C01,C04", M::snap(s.o(j)).addr != x.addr, "history: no two objects share an owned object");
      }
    }
    CHK("C04,C05", G.liveBlocks == blocks, "history: one block per object with a value, nothing else");
  }
  static uint32_t fresh(St& s) {
    s.serial[s.nobj] = 0;
    return s.nobj++;
  }
  static void kill(St& s, int i) {
    if (s.m[i].live) s.o(i).~O();
    s.m[i].live = false;
  }
  static bool eq(const Model& a, const Model& b) { return C::AE || a.tag == b.tag; }

  static void step(St& s, uint8_t op, int i, int j, bool altTag, bool altType) {
    Model &a = s.m[i], &b = s.m[j];
    Model nb = b;
    Model n;
    n.live = true;
    n.vl = b.vl;
    n.v = b.v;
    n.who = b.who;
    n.obj = b.obj;
    uint32_t tag = altTag ? 5 : 4, id = s.nextId++;
    A al(tag, id);
    switch (op) {
      case 0: {  // fresh object
        kill(s, i);
        uint32_t v = id * 10;
        TR::make(s.buf[i], altType ? 3 : 2, v, al);
        a = Model{true, false, v, TR::poly ? (altType ? 3u : 2u) : 1u, tag, id, fresh(s)};
        return;
      }
      case 1:  // copy construction
        kill(s, i);
        ::new (s.buf[i]) O(static_cast<const O&>(s.o(j)));
        n.tag = b.tag + (C::SOC ? 1000 : 0);
        n.id = b.id + (C::SOC ? 1000 : 0);
        n.obj = b.vl ? 0 : fresh(s);
        a = n;
        return;
      case 2:  // move construction
        kill(s, i);
        ::new (s.buf[i]) O(std::move(s.o(j)));
        n.tag = b.tag;
        n.id = b.id;
        a = n;
        b.vl = true;
        return;
      case 3:  // allocator-extended copy
        kill(s, i);
        ::new (s.buf[i]) O(std::allocator_arg, al, static_cast<const O&>(s.o(j)));
        n.tag = tag;
        n.id = id;
        n.obj = b.vl ? 0 : fresh(s);
        a = n;
        return;
      case 4:  // allocator-extended move
        kill(s, i);
        ::new (s.buf[i]) O(std::allocator_arg, al, std::move(s.o(j)));
        n.tag = tag;
        n.id = id;
        if (C::AE || b.tag == tag) b.vl = true;
        else if (!b.vl) n.obj = fresh(s);
        a = n;
        return;
      case 5: {  // copy assignment
        s.o(i) = static_cast<const O&>(s.o(j));
        if (i == j) return;
        bool inplace = !TR::poly && !a.vl && !b.vl && eq(a, b);
        n.tag = C::CA ? b.tag : a.tag;
        n.id = C::CA ? b.id : a.id;
        n.obj = inplace ? a.obj : b.vl ? 0 : fresh(s);
        a = n;
        return;
      }
      case 6: {  // move assignment
        bool region = C::CM && !eq(a, b);  // see known_findings.txt (C17)
        if (region) G.armed = false;
        s.o(i) = std::move(s.o(j));
        G.armed = true;
        if (i == j) return;
        n.tag = C::CM ? b.tag : a.tag;
        n.id = C::CM ? b.id : a.id;
        if (eq(a, b)) b.vl = true;
        else if (!b.vl) n.obj = fresh(s);
        a = n;
        return;
      }
      case 7:  // swap
        if (!C::CS && !eq(a, b)) return;
        s.o(i).swap(s.o(j));
        if (i != j) {
          n = a;
          uint32_t t = a.tag, d = a.id, u = b.tag, e = b.id;
          a = b;
          b = n;
          if (!C::CS) { a.tag = t; a.id = d; b.tag = u; b.id = e; }
        }
        return;
      case 8:  // write through the owner
        if (a.vl) return;
        a.v = id * 10;
        TR::set(s.o(i), a.v);
        return;
      default:  // assignment of a value
        if (TR::poly) return;
        {
          uint32_t v = id * 10;
          TR::vassign(s.o(i), v);
          if (a.vl) a.obj = fresh(s);
          a.vl = false;
          a.v = v;
        }
    }
  }
  static void run() {
    start();
    {
      St s;
      s.nobj = 1;
      s.nextId = 1;
      s.m[0].live = s.m[1].live = false;
      bool same = __vp_pick_bool("equal allocators");
      step(s, 0, 0, 1, false, false);
      step(s, 0, 1, 0, !same, true);
      check(s, false);
      arm(VP_F);
      for (int k = 0; k < VP_K; k++) {
        uint8_t op = __vp_pick(k == 0 ? "operation 1" : k == 1 ? "operation 2" : k == 2 ? "operation 3" : "operation", TR::poly ? 9 : 10);
        bool first = __vp_pick_bool("target"), other = __vp_pick_bool("self");
        int i = first ? 0 : 1, j = other ? i : 1 - i;
        bool uses2 = op >= 1 && op <= 7, ctor = op >= 1 && op <= 4;
        if (ctor || !uses2) __vp_assume(!other);  // one way to say it
        if (uses2) __vp_assume(s.m[j].live);
        if (op >= 5) __vp_assume(s.m[i].live);
        bool altTag = (op == 0 || op == 3 || op == 4) ? __vp_pick_bool("other allocator") : false;
        bool altType = TR::poly && op == 0 ? __vp_pick_bool("other type") : false;
        bool failed = false;
        uint32_t seen = G.faults;
        try {
          step(s, op, i, j, altTag, altType);
        } catch (Fault& f) {
          CHK("C06,C07", f.seq == G.faults && f.seq == seen + 1, "history: the original exception propagates");
          failed = true;
#if VP_F
          __vp_cover("an operation failed");
#endif
        }
        G.armed = false;
        check(s, failed);
        G.armed = true;
      }
      disarm();
      kill(s, 0);
      kill(s, 1);
      __vp_cover("history completed");
    }
    finish();
  }
};
#define MACHINE(CF) HX<TI<CF>, CF>
#include "configs.h"
#define BODY M::run()
VP_ENTRY(hist_ind) { CONFIGS }
#undef BODY
#define BODY HX<TP<CF>, CF>::run()
VP_ENTRY(hist_pol) { CONFIGS }
#undef BODY
