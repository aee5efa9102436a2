// Native runtime: replays one solver model against the real code.
#include "vp.h"

#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

struct Nd { unsigned w; unsigned long long v; };
static std::vector<Nd> vals;
static size_t pos;
static std::string prop;
static long heapLive;
static std::map<void*, size_t> blocks;
static bool newFaults;
// With VP_PAGES set every block has pages of its own, which a freeze protects.
struct Pg { char* p; size_t len; bool live, open; };
static std::vector<Pg> pages;
static bool paged, frozen;
static void segv(int, siginfo_t*, void*) {
  static const char m[] = "VP-FROZEN-WRITE to memory that existed before the const operation\n";
  if (frozen) { (void)!write(2, m, sizeof m - 1); _Exit(77); }
  _Exit(67);
}
static void protect(int how) {
  for (auto& g : pages) if (g.live && !g.open) mprotect(g.p, g.len, how);
}
static void* page_alloc(size_t n) {
  size_t len = (n + 4096) / 4096 * 4096;
  char* p = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) abort();
  pages.push_back({p, len, true, frozen});
  return p;
}
static void page_free(void* p) {
  for (auto& g : pages) if (g.p == p && g.live) {
    if (frozen && !g.open) { fprintf(stderr, "VP-FROZEN-WRITE memory that existed before the const operation was freed\n"); _Exit(77); }
    g.live = false;
    munmap(g.p, g.len);
    return;
  }
  fprintf(stderr, "bad free\n");
  _Exit(66);
}

static unsigned long long next(unsigned w) {
  if (pos >= vals.size()) { pos++; return 0; }
  if (vals[pos].w != w) { fprintf(stderr, "REPLAY-DIVERGED width %u vs %u at %zu\n", vals[pos].w, w, pos); exit(99); }
  return vals[pos++].v;
}
static bool relevant(const char* l) {
  std::string s(l);
  if (prop.empty() || s[0] == '*') return true;
  s = s.substr(0, s.find(':'));
  size_t i = 0;
  for (;;) {
    size_t j = s.find(',', i);
    if (s.substr(i, j == std::string::npos ? j : j - i) == prop) return true;
    if (j == std::string::npos) return false;
    i = j + 1;
  }
}
extern "C" {
uint8_t __vp_nondet_u8(const char*) { return (uint8_t)next(8); }
uint32_t __vp_nondet_u32(const char*) { return (uint32_t)next(32); }
uint64_t __vp_nondet_u64(const char*) { return next(64); }
bool __vp_nondet_bool(const char*) { return next(1) & 1; }
void __vp_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-DIVERGED assumption false\n"); exit(99); } }
void __vp_assert(bool c, const char* l) { if (!c && relevant(l)) { fprintf(stderr, "VP-ASSERT-FAILED %s\n", l); fflush(stderr); _Exit(77); } }
void __vp_fail(const char* l) { if (relevant(l)) { fprintf(stderr, "VP-ASSERT-FAILED %s\n", l); fflush(stderr); _Exit(77); } fprintf(stderr, "VP-COMPLETED\n"); fflush(stderr); _Exit(0); }
void __vp_cover(const char*) {}
void* __vp_heap_alloc(size_t n, size_t a) {
  heapLive++;
  void* p = nullptr;
  if (paged) p = page_alloc(n);
  else {
    // aligned as asked and no better, as in the executor's memory
    size_t off = a < 1 ? 1 : a;
    if (posix_memalign(&p, 2 * off < 8 ? 8 : 2 * off, n + off)) abort();
    p = (char*)p + off;
    blocks[p] = off;
  }
  memset(p, 0xA5, n);
  return p;
}
void __vp_heap_free(void* p) {
  if (p) heapLive--;
  if (paged && p) page_free(p);
  else if (p) {
    auto i = blocks.find(p);
    if (i == blocks.end()) { fprintf(stderr, "VP-BADFREE\n"); fflush(stderr); _Exit(66); }
    p = (char*)p - i->second;
    blocks.erase(i);
    free(p);
  }
}
void __vp_leak_check(const char* l) { if (heapLive && relevant(l)) { fprintf(stderr, "VP-LEAK %s: %ld blocks live\n", l, heapLive); fflush(stderr); _Exit(77); } }
void __vp_freeze() { frozen = true; if (paged) protect(PROT_READ); }
void __vp_unfreeze() { frozen = false; if (paged) protect(PROT_READ | PROT_WRITE); }
void __vp_allow_write(const void* p, size_t) { for (auto& g : pages) if (p >= g.p && p < g.p + g.len) g.open = true; }
void __vp_new_faults(bool on) { newFaults = on; }
uint32_t __vp_concretize(uint32_t v) { return v; }
bool __vp_native() { return true; }
void __vp_nop() {}
}
#ifdef VP_NEW_HOOK
void* operator new(size_t n) {
  if (newFaults && (next(1) & 1)) __vp_throw_bad_alloc();
  heapLive++;
  void* p = malloc(n ? n : 1);
  return p;
}
#ifdef __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) {
  if (newFaults && (next(1) & 1)) __vp_throw_bad_alloc();
  heapLive++;
  void* p = nullptr;
  if (posix_memalign(&p, (size_t)a < 8 ? 8 : (size_t)a, n ? n : 1)) abort();
  return p;
}
#endif
void operator delete(void* p) noexcept { if (p) heapLive--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) heapLive--; free(p); }
#ifdef __cpp_aligned_new
void operator delete(void* p, std::align_val_t) noexcept { if (p) heapLive--; free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) heapLive--; free(p); }
#endif
#endif
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  if (!f) return 98;
  char buf[256];
  unsigned w; unsigned long long v; char nm[200];
  while (fgets(buf, sizeof buf, f)) {
    if (sscanf(buf, "prop %199s", nm) == 1) prop = nm;
    else if (sscanf(buf, "nd %u %llu", &w, &v) == 2) vals.push_back({w, v});
  }
  fclose(f);
  heapLive = 0;
  if (getenv("VP_PAGES")) {
    paged = true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = segv;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, nullptr);
  }
  void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!entry) return 98;
  entry();
  fprintf(stderr, "VP-COMPLETED\n");
  return 0;
}
