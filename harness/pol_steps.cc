// One-step harnesses for polymorphic over all allocator configurations.
#include "pol.h"
#ifndef VP_HY
#define VP_HY HV
#endif
using namespace vp;
template <class C> using Mach = PM<VP_HY, C>;
#define MACHINE(CF) Mach<CF>
#include "configs.h"
#define BODY M::copy_construct()
VP_ENTRY(copy_construct) { CONFIGS }
#undef BODY
#define BODY M::move_construct()
VP_ENTRY(move_construct) { CONFIGS }
#undef BODY
#define BODY M::ext_move_construct()
VP_ENTRY(ext_move_construct) { CONFIGS }
#undef BODY
#define BODY M::copy_assign()
VP_ENTRY(copy_assign) { CONFIGS }
#undef BODY
#define BODY M::move_assign(false)
VP_ENTRY(move_assign) { CONFIGS }
#undef BODY
#define BODY M::move_assign(true)
VP_ENTRY(move_assign_pocma) { CONFIGS }
#undef BODY
#define BODY M::self_ops()
VP_ENTRY(self_ops) { CONFIGS }
#undef BODY
#define BODY M::swap()
VP_ENTRY(swap) { CONFIGS }
#undef BODY
#ifdef VP_CTORS
#define BODY PC<CF>::construct()
VP_ENTRY(construct) { CONFIGS }
#undef BODY
#endif
