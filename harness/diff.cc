// Differential check of the C++14 against the C++20 headers (C20): the same
// symbolic script is played on both and the two records must be identical.
#include "vp.h"
#include "diff.h"
#ifndef VP_K
#define VP_K 1
#endif
static DScript S;
static DRecord A20, A14;
static void same() {
  uint32_t n = A20.n < A14.n ? A20.n : A14.n;
  for (uint32_t i = 0; i < n; i++)
    __vp_assert(A20.w[i] == A14.w[i], "C20:the two implementations do and show the same, in the same order");
  __vp_assert(A20.n == A14.n, "C20:the two implementations do equally much");
  __vp_cover("script played on both");
}
template <bool POL>
static void go() {
  S.cfg = __vp_pick("config", 6);
  for (int i = 0; i < 2; i++) {
    S.type[i] = POL ? __vp_pick(i ? "b.type" : "a.type", 3) : 0;
    S.vl[i] = __vp_pick_bool(i ? "b.valueless" : "a.valueless");
    S.v[i] = __vp_nondet_u32(i ? "b.value" : "a.value");
    S.tag[i] = __vp_nondet_u32(i ? "b.alloc" : "a.alloc");
  }
  S.k = VP_K;
  for (int k = 0; k < VP_K; k++) {
    S.op[k] = __vp_pick(k ? "operation 2" : "operation 1", POL ? N_POL_OPS : N_IND_OPS);
    S.i[k] = k ? __vp_pick_bool("target") : 0;
    S.self[k] = S.op[k] >= 5 && S.op[k] <= 8 ? __vp_pick_bool("self") : 0;
    S.x[k] = __vp_nondet_u32("x");
    S.t[k] = __vp_nondet_u32("new.alloc");
  }
  S.faults = __vp_nondet_u64("faults");
  S.budget = 2;
  if (POL) { diff_pol_20(&S, &A20); diff_pol_14(&S, &A14); }
  else { diff_ind_20(&S, &A20); diff_ind_14(&S, &A14); }
  same();
}
VP_ENTRY(diff_ind) { go<false>(); }
VP_ENTRY(diff_pol) { go<true>(); }

// owned types of every trait class
template <bool POL>
static void shapes() {
  S.cfg = __vp_pick("config", 4);
  S.shape = __vp_pick("type", N_SHAPES);
  for (int i = 0; i < 2; i++) {
    S.vl[i] = __vp_pick_bool(i ? "b.valueless" : "a.valueless");
    S.v[i] = __vp_nondet_u32(i ? "b.value" : "a.value");
    S.tag[i] = __vp_nondet_u32(i ? "b.alloc" : "a.alloc");
  }
  S.k = 1;
  S.op[0] = __vp_pick("operation", N_SHAPE_OPS);
  S.x[0] = __vp_nondet_u32("x");
  S.t[0] = __vp_nondet_u32("new.alloc");
  S.faults = __vp_nondet_u64("faults");
  S.budget = 1;
  if (POL) { diff_pshape_20(&S, &A20); diff_pshape_14(&S, &A14); }
  else { diff_ishape_20(&S, &A20); diff_ishape_14(&S, &A14); }
  same();
}
VP_ENTRY(diff_ishape) { shapes<false>(); }
VP_ENTRY(diff_pshape) { shapes<true>(); }
// comparison and hashing of scalars and classes
VP_ENTRY(diff_cmp) {
  S.shape = __vp_pick("type", N_CMP);
  for (int i = 0; i < 2; i++) {
    S.vl[i] = __vp_pick_bool(i ? "b.valueless" : "a.valueless");
    S.wide[i] = __vp_nondet_u64(i ? "b.value" : "a.value");
  }
  diff_cmp_20(&S, &A20);
  diff_cmp_14(&S, &A14);
  same();
}
