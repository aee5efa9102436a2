// Runs BODY under every allocator configuration; the configuration is itself
// a symbolic choice.  MACHINE(cfg) names the harness class.
#define CASE(i, ca, cm, cs, ae, hk, so) \
  case i: { using CF = vp::Cfg<ca, cm, cs, ae, hk, so>; using M = MACHINE(CF); (void)sizeof(M); BODY; break; }
#define CONFIGS                       \
  uint8_t cfg = __vp_nondet_u8("config"); \
  __vp_assume(cfg < 16);              \
  switch (cfg) {                      \
    CASE(0, 0, 0, 0, 0, 0, 0)         \
    CASE(1, 1, 0, 0, 0, 1, 0)         \
    CASE(2, 0, 1, 0, 0, 0, 1)         \
    CASE(3, 1, 1, 0, 0, 0, 0)         \
    CASE(4, 0, 0, 1, 0, 1, 1)         \
    CASE(5, 1, 0, 1, 0, 0, 0)         \
    CASE(6, 0, 1, 1, 0, 0, 0)         \
    CASE(7, 1, 1, 1, 0, 0, 1)         \
    CASE(8, 0, 0, 0, 1, 0, 0)         \
    CASE(9, 1, 0, 0, 1, 0, 1)         \
    CASE(10, 0, 1, 0, 1, 1, 0)        \
    CASE(11, 1, 1, 0, 1, 0, 0)        \
    CASE(12, 0, 0, 1, 1, 0, 0)        \
    CASE(13, 1, 0, 1, 1, 0, 0)        \
    CASE(14, 0, 1, 1, 1, 0, 0)        \
    CASE(15, 1, 1, 1, 1, 1, 1)        \
  }
