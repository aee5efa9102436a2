// Interface between harnesses and the two engines that run them:
//  * symx (symbolic execution): every __vp_nondet_* is a fresh SMT variable;
//  * the native runtime vprt.cc (replay): values come from a replay file.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <new>
#include <cstring>

extern "C" {
uint8_t __vp_nondet_u8(const char* name);
uint32_t __vp_nondet_u32(const char* name);
uint64_t __vp_nondet_u64(const char* name);
bool __vp_nondet_bool(const char* name);
void __vp_assume(bool c);
// label: "C01,C04:text"; only labels naming the property under check count
void __vp_assert(bool c, const char* label);
[[noreturn]] void __vp_fail(const char* label);
void __vp_cover(const char* label);
void* __vp_heap_alloc(size_t n, size_t align);
void __vp_heap_free(void* p);
void __vp_leak_check(const char* label);  // no heap block may be live
void __vp_freeze();                       // all existing memory becomes read-only
void __vp_unfreeze();
void __vp_allow_write(const void* p, size_t n);  // exempt ghost state
void __vp_new_faults(bool on);            // operator new may throw bad_alloc
bool __vp_native();                       // true only in the native runtime
void __vp_throw_bad_alloc();
uint32_t __vp_concretize(uint32_t v);     // one path per feasible value
}
static inline uint8_t __vp_pick(const char* name, unsigned n) {
  uint8_t v = __vp_nondet_u8(name);
  __vp_assume(v < n);
  return (uint8_t)__vp_concretize(v);
}
static inline bool __vp_pick_bool(const char* name) {
  if (__vp_nondet_bool(name)) return true;
  return false;
}
#ifdef VP_UNWIND
// The whole entry runs while the stack is being unwound by some other exception.
struct __vp_unwinding {
  void (*body)();
  ~__vp_unwinding() noexcept(false) { body(); }
};
#define VP_ENTRY(name)                                             \
  static void vpB_##name();                                        \
  extern "C" __attribute__((used, noinline)) void vpH_##name() {   \
    try {                                                          \
      __vp_unwinding u{vpB_##name};                                \
      throw 7;                                                     \
    } catch (int) {                                                \
    }                                                              \
  }                                                                \
  static void vpB_##name()
#else
#define VP_ENTRY(name) extern "C" __attribute__((used, noinline)) void vpH_##name()
#endif
#endif
