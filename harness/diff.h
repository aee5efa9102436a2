// Script and record shared by the two sides of the differential check (C20).
#ifndef DIFF_H
#define DIFF_H
#include <cstdint>
enum { DK = 2, DREC = 400 };
struct DScript {
  uint8_t cfg, shape;
  uint8_t type[2], vl[2];
  uint32_t v[2], tag[2];
  uint8_t op[DK], i[DK], self[DK];
  uint32_t x[DK], t[DK];
  uint8_t k;
  uint64_t faults;
  uint64_t wide[2];
  uint32_t budget;
};
// what happened: words, in order
struct DRecord {
  uint32_t n;
  uint32_t w[DREC];
};
extern "C" {
void diff_ind_20(const DScript*, DRecord*);
void diff_ind_14(const DScript*, DRecord*);
void diff_pol_20(const DScript*, DRecord*);
void diff_pol_14(const DScript*, DRecord*);
void diff_ishape_20(const DScript*, DRecord*);
void diff_ishape_14(const DScript*, DRecord*);
void diff_pshape_20(const DScript*, DRecord*);
void diff_pshape_14(const DScript*, DRecord*);
void diff_cmp_20(const DScript*, DRecord*);
void diff_cmp_14(const DScript*, DRecord*);
}
enum { N_IND_OPS = 20, N_POL_OPS = 19, N_SHAPE_OPS = 13, N_SHAPES = 14, N_CMP = 5 };
#endif
