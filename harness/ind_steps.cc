// One-step harnesses for indirect over all allocator configurations.
#include "ind.h"
#ifndef VP_T
#define VP_T VS
#endif
using namespace vp;
template <class C> using Mach = IM<VP_T, A_<VP_T, C>, C>;
#define MACHINE(CF) Mach<CF>
#include "configs.h"
#define BODY M::copy_construct()
VP_ENTRY(copy_construct) { CONFIGS }
#undef BODY
#define BODY M::move_construct()
VP_ENTRY(move_construct) { CONFIGS }
#undef BODY
#define BODY M::ext_move_construct()
VP_ENTRY(ext_move_construct) { CONFIGS }
#undef BODY
#define BODY M::copy_assign()
VP_ENTRY(copy_assign) { CONFIGS }
#undef BODY
#define BODY M::move_assign(false)
VP_ENTRY(move_assign) { CONFIGS }
#undef BODY
#define BODY M::move_assign(true)
VP_ENTRY(move_assign_pocma) { CONFIGS }
#undef BODY
#define BODY M::self_ops()
VP_ENTRY(self_ops) { CONFIGS }
#undef BODY
#define BODY M::swap()
VP_ENTRY(swap) { CONFIGS }
#undef BODY
#define BODY M::value_assign()
VP_ENTRY(value_assign) { CONFIGS }
#undef BODY
#define BODY M::construct()
VP_ENTRY(construct) { CONFIGS }
#undef BODY
