// symx: a small symbolic executor for LLVM 18 bitcode with the Itanium C++
// exception ABI, deciding path feasibility and assertions with Z3.
//
// Exploration: depth-first over decisions, by re-execution from the recorded
// decision prefix, with the Z3 solver's push/pop stack kept aligned with the
// decision stack.  Memory: one object per allocation, 1 MiB of address space
// each, byte-granular (concrete / symbolic / uninitialised).  Addresses are
// never reused, so use-after-free, use-after-scope, out-of-bounds and
// misaligned accesses are detected on every path.
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unistd.h>
#include <z3.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

[[noreturn]] static void fatal(const std::string& m) {
  fprintf(stderr, "symx: fatal: %s\n", m.c_str());
  fflush(stderr);
  _exit(3);
}

// ---------------------------------------------------------------- values
struct SV {
  uint32_t w = 0;  // bit width; 0 for aggregate / void
  Z3_ast e = nullptr;
  u64 c = 0;
  std::vector<SV>* agg = nullptr;
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline SV mkc(unsigned w, u64 v) {
  SV s;
  s.w = w;
  s.c = v & maskw(w);
  return s;
}
static inline i64 sx(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

// ---------------------------------------------------------------- options
static std::string optProp;          // only assertions whose label starts with this
static unsigned optMaxSteps = 400000;  // instructions per path
static unsigned optMaxDepth = 400;   // call depth
static double optTime = 600;         // seconds for the entry
static u64 optMaxPaths = 2000000;
static unsigned optMaxViol = 12;
static unsigned optTimeoutMs = 60000;
static std::string optLib;
static std::string optRepoPrefix = "/repo/";
static std::string optDumpQueries;
static bool optVerbose = false;

// ---------------------------------------------------------------- z3
static Z3_context Z;
static Z3_solver S;
static u64 nQueries, nSat, nUnsat, nUnknown;
static double tSolver;
static u64 nAssertQueries, nAssertConcrete, nAssertProved;
static std::unordered_map<unsigned, Z3_sort> bvSorts;
static FILE* dumpFile = nullptr;
static u64 dumped;

static void z3err(Z3_context c, Z3_error_code e) { fatal(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static Z3_ast keep(Z3_ast a) {
  Z3_inc_ref(Z, a);
  return a;
}
static Z3_sort bvs(unsigned w) {
  auto& s = bvSorts[w];
  if (!s) {
    s = Z3_mk_bv_sort(Z, w);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, s));
  }
  return s;
}
static Z3_ast simp(Z3_ast a) {
  keep(a);
  return keep(Z3_simplify(Z, a));
}
static Z3_ast num(unsigned w, u64 v) { return keep(Z3_mk_unsigned_int64(Z, v, bvs(w))); }
static Z3_ast ex(const SV& v) {
  if (v.e) return v.e;
  if (!v.w) fatal("ex() of aggregate");
  return num(v.w, v.c);
}
static SV norm(unsigned w, Z3_ast a) {
  SV s;
  s.w = w;
  if (w <= 64 && Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) {
    uint64_t u;
    if (!Z3_get_numeral_uint64(Z, a, &u)) fatal("numeral");
    s.c = u;
    return s;
  }
  s.e = a;
  return s;
}
static SV mk(unsigned w, Z3_ast a) { return norm(w, simp(a)); }
static Z3_ast zTrue, zFalse, bv1_1, bv1_0;
static SV fromBool(Z3_ast b) {
  b = simp(b);
  if (b == zTrue) return mkc(1, 1);
  if (b == zFalse) return mkc(1, 0);
  return norm(1, keep(Z3_mk_ite(Z, b, bv1_1, bv1_0)));
}
static Z3_ast toBool(const SV& v) {
  if (!v.e) return (v.c & 1) ? zTrue : zFalse;
  return simp(Z3_mk_eq(Z, v.e, bv1_1));
}

struct PathEnd {
  int kind;  // 0 normal, 1 infeasible assume, 2 violation
};

static Z3_model curModel = nullptr;
static void setModel(Z3_model m) {
  if (m) Z3_model_inc_ref(Z, m);
  if (curModel) Z3_model_dec_ref(Z, curModel);
  curModel = m;
}
// check pc && extra ; on sat returns model
static Z3_lbool check(Z3_ast extra, Z3_model* out) {
  double t = now();
  Z3_lbool r;
  if (dumpFile && dumped < 400) {
    Z3_solver_push(Z, S);
    if (extra) Z3_solver_assert(Z, S, extra);
    fprintf(dumpFile, ";;BEGIN\n%s(check-sat)\n;;END", Z3_solver_to_string(Z, S));
    Z3_solver_pop(Z, S, 1);
  }
  if (extra) {
    Z3_solver_push(Z, S);
    Z3_solver_assert(Z, S, extra);
  }
  r = Z3_solver_check(Z, S);
  if (r == Z3_L_TRUE && out) {
    *out = Z3_solver_get_model(Z, S);
    Z3_model_inc_ref(Z, *out);
  }
  if (extra) Z3_solver_pop(Z, S, 1);
  tSolver += now() - t;
  nQueries++;
  if (dumpFile && dumped < 400) {
    dumped++;
    fprintf(dumpFile, " %s\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown");
  }
  if (r == Z3_L_TRUE) nSat++;
  else if (r == Z3_L_FALSE) nUnsat++;
  else nUnknown++;
  if (r == Z3_L_UNDEF) fatal("solver returned unknown");
  return r;
}
static int modelBool(Z3_model m, Z3_ast b) {
  Z3_ast o;
  if (!Z3_model_eval(Z, m, b, true, &o)) return -1;
  keep(o);
  Z3_lbool v = Z3_get_bool_value(Z, o);
  return v == Z3_L_TRUE ? 1 : v == Z3_L_FALSE ? 0 : -1;
}
static u64 modelU64(Z3_model m, Z3_ast a) {
  Z3_ast o;
  if (!m || !Z3_model_eval(Z, m, a, true, &o)) return 0;
  keep(o);
  uint64_t u = 0;
  Z3_get_numeral_uint64(Z, o, &u);
  return u;
}

// ---------------------------------------------------------------- decisions
enum EvKind { BR, CONC, ASSUME, PROVED };
struct Ev {
  EvKind k;
  Z3_ast cond = nullptr;
  bool choice = false, other = false;
  unsigned levels = 0;
  u64 val = 0;
  std::vector<u64> excl;
  Z3_model otherModel = nullptr;
};
static std::vector<Ev> trace;
static size_t tpos;

static void pushAssert(Z3_ast a) {
  Z3_solver_push(Z, S);
  Z3_solver_assert(Z, S, a);
}
static Z3_ast mkNot(Z3_ast a) { return simp(Z3_mk_not(Z, a)); }

static bool decide(Z3_ast cond) {
  if (cond == zTrue) return true;
  if (cond == zFalse) return false;
  if (tpos < trace.size()) {
    Ev& e = trace[tpos++];
    if (e.k != BR || e.cond != cond) fatal("nondeterministic re-execution (branch)");
    return e.choice;
  }
  Ev e;
  e.k = BR;
  e.cond = cond;
  int mv = curModel ? modelBool(curModel, cond) : -1;
  Z3_model mt = nullptr, mf = nullptr;
  bool t, f;
  Z3_ast n = mkNot(cond);
  if (mv == 1) t = true;
  else t = check(cond, &mt) == Z3_L_TRUE;
  if (mv == 0) f = true;
  else f = check(n, &mf) == Z3_L_TRUE;
  if (t && f) {
    // explore the side of the current model first
    bool ch = mv == 0 ? false : true;
    e.choice = ch;
    e.other = true;
    e.otherModel = ch ? mf : mt;
    if (mv == -1) {
      setModel(ch ? mt : mf);
      Z3_model_dec_ref(Z, ch ? mt : mf);
    }
    pushAssert(ch ? cond : n);
    e.levels = 1;
  } else if (t) {
    e.choice = true;
    if (mt) setModel(mt), Z3_model_dec_ref(Z, mt);
  } else if (f) {
    e.choice = false;
    if (mf) setModel(mf), Z3_model_dec_ref(Z, mf);
  } else fatal("path condition became unsatisfiable");
  trace.push_back(e);
  tpos++;
  return e.choice;
}
static void doAssume(Z3_ast cond) {
  if (cond == zTrue) return;
  if (cond == zFalse) throw PathEnd{1};
  if (tpos < trace.size()) {
    Ev& e = trace[tpos++];
    if (e.k != ASSUME || e.cond != cond) fatal("nondeterministic re-execution (assume)");
    if (!e.choice) throw PathEnd{1};
    return;
  }
  Ev e;
  e.k = ASSUME;
  e.cond = cond;
  int mv = curModel ? modelBool(curModel, cond) : -1;
  if (mv == 1) e.choice = true;
  else {
    Z3_model m = nullptr;
    e.choice = check(cond, &m) == Z3_L_TRUE;
    if (m) setModel(m), Z3_model_dec_ref(Z, m);
  }
  if (e.choice) {
    pushAssert(cond);
    e.levels = 1;
  }
  trace.push_back(e);
  tpos++;
  if (!e.choice) throw PathEnd{1};
}
static u64 concretize(const SV& v) {
  if (!v.e) return v.c;
  if (tpos < trace.size()) {
    Ev& e = trace[tpos++];
    if (e.k != CONC || e.cond != v.e) fatal("nondeterministic re-execution (concretise)");
    return e.val;
  }
  Ev e;
  e.k = CONC;
  e.cond = v.e;
  if (!curModel) {
    Z3_model m = nullptr;
    if (check(nullptr, &m) != Z3_L_TRUE) fatal("pc unsat");
    setModel(m);
    Z3_model_dec_ref(Z, m);
  }
  e.val = modelU64(curModel, v.e);
  e.excl.push_back(e.val);
  pushAssert(simp(Z3_mk_eq(Z, v.e, num(v.w, e.val))));
  e.levels = 1;
  trace.push_back(e);
  tpos++;
  return e.val;
}
static bool backtrack() {
  while (!trace.empty()) {
    Ev& e = trace.back();
    if (e.levels) Z3_solver_pop(Z, S, e.levels), e.levels = 0;
    if (e.k == BR && e.other) {
      e.choice = !e.choice;
      e.other = false;
      pushAssert(e.choice ? e.cond : mkNot(e.cond));
      e.levels = 1;
      setModel(e.otherModel);
      if (e.otherModel) Z3_model_dec_ref(Z, e.otherModel);
      e.otherModel = nullptr;
      return true;
    }
    if (e.k == CONC) {
      unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e.cond));
      std::vector<Z3_ast> ds;
      for (u64 x : e.excl) ds.push_back(mkNot(simp(Z3_mk_eq(Z, e.cond, num(w, x)))));
      Z3_ast all = simp(Z3_mk_and(Z, ds.size(), ds.data()));
      Z3_model m = nullptr;
      if (all != zFalse && check(all, &m) == Z3_L_TRUE) {
        if (e.excl.size() > 300) fatal("too many concretisations");
        setModel(m);
        Z3_model_dec_ref(Z, m);
        e.val = modelU64(curModel, e.cond);
        e.excl.push_back(e.val);
        pushAssert(simp(Z3_mk_eq(Z, e.cond, num(w, e.val))));
        e.levels = 1;
        return true;
      }
    }
    trace.pop_back();
  }
  return false;
}

// ---------------------------------------------------------------- memory
enum { K_STACK, K_HEAP, K_GLOBAL, K_FUNC, K_EXC };
enum { B_CONC = 0, B_SYM = 1, B_UNDEF = 2 };
struct SymByte {
  Z3_ast e;
  uint32_t idx;
};
struct Obj {
  u64 base = 0;
  u64 size = 0;
  uint32_t align = 1;
  uint8_t kind = 0;
  uint8_t state = 1;  // 1 alive, 2 freed, 3 out of scope
  bool ro = false, frozen = false, leakok = false, tls = false;
  std::vector<uint8_t> d, st;
  std::vector<SymByte> sy;
  const Function* fn = nullptr;
  const GlobalVariable* gv = nullptr;
};
static const unsigned OBJ_SHIFT = 20;
static std::vector<Obj*> objs;        // index = id; path-local beyond nGlobalObjs
static std::vector<Obj*> freePool;
static size_t nGlobalObjs;
static std::vector<Obj> globalInit;   // pristine copy of mutable globals
static std::vector<uint8_t> globalDirty;
static bool frozenMode = false;
static unsigned guardDepth = 0;       // inside the guarded initialisation of a static
static size_t frozenLimit = 0;        // objects with id < limit are frozen
static std::vector<std::pair<u64, u64>> unfrozen;

static Obj* newObj(uint8_t kind, u64 size, u64 align) {
  Obj* o;
  if (!freePool.empty()) {
    o = freePool.back();
    freePool.pop_back();
  } else o = new Obj();
  u64 id = objs.size();
  if (align < 1) align = 1;
  if (size + 0x20000 > (1ull << OBJ_SHIFT)) fatal("object too large: " + std::to_string(size));
  o->base = (id << OBJ_SHIFT) + 0x10000 + (align < 16 && kind != K_FUNC ? align : align);
  o->size = size;
  o->align = align;
  o->kind = kind;
  o->state = 1;
  o->ro = o->frozen = o->leakok = o->tls = false;
  o->d.assign(size, 0);
  o->st.assign(size, B_UNDEF);
  o->sy.clear();
  o->fn = nullptr;
  o->gv = nullptr;
  objs.push_back(o);
  return o;
}
static Obj* findObj(u64 addr) {
  u64 id = addr >> OBJ_SHIFT;
  if (id == 0 || id >= objs.size()) return nullptr;
  return objs[id];
}

// ---------------------------------------------------------------- program
struct Opnd {
  int slot = -1;
  SV c;
  bool undef = false;
  Type* uty = nullptr;
};
struct FI;
struct CI {
  Instruction* I = nullptr;
  unsigned op = 0;
  int dst = -1;
  std::vector<Opnd> ops;
  unsigned w = 0;           // result width (ints/ptr/fp), 0 otherwise
  Type* ty = nullptr;
  // gep
  i64 goff = 0;
  std::vector<std::pair<unsigned, i64>> gidx;  // operand index, scale
  // control
  int b0 = -1, b1 = -1;
  Function* callee = nullptr;
  int covId = -1;
  unsigned align = 1;
  bool atomicAcc = false;
};
struct BB {
  std::vector<CI> ins;
  BasicBlock* bb;
  int nphi = 0;
};
struct FI {
  Function* F;
  std::vector<BB> bbs;
  int nslots = 0;
  bool nounwind = false;
  bool executed = false;
};
static Module* M;
static const DataLayout* DL;
static LLVMContext* CTX;
static DenseMap<const Function*, FI*> finfo;
static DenseMap<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> addrFn;
static std::map<std::pair<std::string, unsigned>, int> covIds;
static std::vector<std::pair<std::string, unsigned>> covNames;
static std::vector<uint8_t> covHit;

static unsigned tyW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static std::deque<std::vector<SV>> aggPool;
static size_t aggUsed;
static std::vector<SV>* newAgg(size_t n) {
  if (aggUsed == aggPool.size()) aggPool.emplace_back();
  auto* a = &aggPool[aggUsed++];
  a->assign(n, SV());
  return a;
}

// path state
struct Frame {
  FI* f;
  int bb = 0, pc = 0, prevbb = -1;
  std::vector<SV> regs;
  std::vector<u64> allocas;
  const CI* callsite = nullptr;  // instruction in the caller
  bool discardRet = false;
  int onRet = 0;  // special continuation
};
static std::deque<Frame> frames;
static u64 nInstr, nPaths, nInfeasible, nViolPaths, nCompleted, maxSteps;
static u64 pathSteps;
static unsigned undefCtr, nondetCtr;
struct ND {
  std::string name;
  unsigned w;
  Z3_ast e;
};
static std::vector<ND> nds;
static std::set<std::string> covers;
static std::unordered_map<std::string, u64> assertCount;
struct Exc {
  u64 obj, ti, dtor;
  int handlers = 0;
  bool live = true;
  u64 adj = 0;  // of the handler's type within the object
};
static std::vector<Exc> excs;
static std::vector<int> caught;
static int inflight = -1;
static int uncaughtCount = 0;
static bool newFaults = false;
static u64 heapLive;
static std::vector<std::pair<std::string, Z3_ast>> undefVarList;
static std::unordered_set<Z3_ast> undefVars;
static std::unordered_map<Z3_ast, bool> undefDep;

struct Viol {
  std::string kind, label, loc, stack;
  std::vector<std::pair<std::string, u64>> nd;
  std::vector<unsigned> ndw;
};
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
static bool stopAll = false;

static std::string locOf(const Instruction* I) {
  if (const DebugLoc& dl = I->getDebugLoc()) {
    auto* sc = cast<DIScope>(dl.getScope());
    return (sc->getFilename() + ":" + Twine(dl.getLine())).str();
  }
  return "?";
}
static const CI* curCI = nullptr;
static std::string stackStr() {
  std::string s;
  int n = 0;
  for (auto it = frames.rbegin(); it != frames.rend() && n < 14; ++it, ++n) {
    const CI* ci = it == frames.rbegin() ? curCI : (it - 1)->callsite;
    std::string fn = demangle(it->f->F->getName().str());
    if (fn.size() > 140) fn = fn.substr(0, 140) + "...";
    s += fn + " @ " + (ci ? locOf(ci->I) : std::string("?")) + "\n";
  }
  return s;
}
static void record(const std::string& kind, const std::string& label, Z3_model m) {
  std::string loc = curCI ? locOf(curCI->I) : "?";
  // innermost frame in the repository gives a stabler location
  Viol v;
  v.kind = kind;
  v.label = label;
  v.loc = loc;
  v.stack = stackStr();
  std::string key = kind + "|" + label;
  if (violKeys.count(key)) return;
  violKeys.insert(key);
  for (auto& n : nds) {
    u64 x = n.e && m ? modelU64(m, n.e) : 0;
    v.nd.push_back({n.name, x});
    v.ndw.push_back(n.w);
  }
  viols.push_back(v);
  if (viols.size() >= optMaxViol) stopAll = true;
}
[[noreturn]] static void violate(const std::string& kind, const std::string& label) {
  if (!curModel) {
    Z3_model m = nullptr;
    if (check(nullptr, &m) == Z3_L_TRUE) setModel(m), Z3_model_dec_ref(Z, m);
  }
  record(kind, label, curModel);
  throw PathEnd{2};
}

static bool depUndef(Z3_ast a) {
  if (undefVarList.empty()) return false;
  auto it = undefDep.find(a);
  if (it != undefDep.end()) return it->second;
  bool r = false;
  if (undefVars.count(a)) r = true;
  else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, ap);
    for (unsigned i = 0; i < n && !r; i++) r = depUndef(Z3_get_app_arg(Z, ap, i));
  }
  undefDep[a] = r;
  return r;
}
static std::vector<Z3_ast> undefVarsByIdx, undefVarsPrime;
static Z3_ast freshUndef(unsigned w) {
  // all undef bytes are 8-bit variables
  std::vector<Z3_ast> bs;
  for (unsigned i = 0; i < (w + 7) / 8; i++) {
    unsigned k = undefCtr++;
    if (k >= undefVarsByIdx.size()) {
      std::string nm = "undef!" + std::to_string(k);
      Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(8)));
      Z3_ast p = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, (nm + "'").c_str()), bvs(8)));
      undefVarsByIdx.push_back(v);
      undefVarsPrime.push_back(p);
      undefVarList.push_back({nm, v});
      undefVars.insert(v);
    }
    bs.push_back(undefVarsByIdx[k]);
  }
  Z3_ast r = bs[0];
  for (size_t i = 1; i < bs.size(); i++) r = keep(Z3_mk_concat(Z, bs[i], r));
  if (w % 8) r = simp(Z3_mk_extract(Z, w - 1, 0, r));
  return r;
}
static void checkUndefBool(Z3_ast cond, const char* what) {
  if (!depUndef(cond)) return;
  // does the outcome really depend on uninitialised bytes?
  Z3_ast prime = keep(Z3_substitute(Z, cond, undefVarsByIdx.size(), undefVarsByIdx.data(), undefVarsPrime.data()));
  Z3_ast args[2] = {cond, mkNot(prime)};
  Z3_ast q = simp(Z3_mk_and(Z, 2, args));
  Z3_model m = nullptr;
  if (q != zFalse && check(q, &m) == Z3_L_TRUE) {
    setModel(m);
    Z3_model_dec_ref(Z, m);
    violate("uninit", std::string(what) + " depends on uninitialised memory");
  }
}

// ------------- checked memory access
static std::string hexs(u64 a) {
  char b[40];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  return b;
}
static Obj* access(u64 addr, u64 n, bool write, unsigned align, const char* what, bool atomicAcc = false) {
  Obj* o = findObj(addr);
  if (!o) {
    violate("memory", std::string(what) + ((addr < 0x1000) ? ": null pointer access" : ": access to an invalid address"));
  }
  if (o->state == 2) violate("memory", std::string(what) + ": use after free");
  if (o->state == 3) violate("memory", std::string(what) + ": use of a local object after its scope ended");
  if (addr < o->base || addr - o->base > o->size || n > o->size - (addr - o->base))
    violate("memory", std::string(what) + ": out of bounds access");
  if (align > 1 && (addr & (align - 1))) violate("memory", std::string(what) + ": misaligned access");
  if (o->kind == K_FUNC) violate("memory", "data access to a function");
  if (write) {
    if (o->ro) violate("memory", std::string(what) + ": write to constant memory");
    if (frozenMode && !guardDepth && (addr >> OBJ_SHIFT) < frozenLimit && n && !o->tls) {
      bool ok = false;
      for (auto& r : unfrozen)
        if (addr >= r.first && addr + n <= r.first + r.second) ok = true;
      if (!ok) violate("frozen-write", "const operation wrote to pre-existing memory");
    }
    u64 id = addr >> OBJ_SHIFT;
    if (id < nGlobalObjs) globalDirty[id] = 1;
  }
  return o;
}
static SV loadBytes(Obj* o, u64 off, unsigned n, unsigned w) {
  bool allc = true;
  for (unsigned i = 0; i < n; i++)
    if (o->st[off + i] != B_CONC) {
      allc = false;
      break;
    }
  if (allc && n <= 8) {
    u64 v = 0;
    for (unsigned i = 0; i < n; i++) v |= (u64)o->d[off + i] << (8 * i);
    return mkc(w, v);
  }
  // whole symbolic expression?
  if (o->st[off] == B_SYM && o->sy[off].idx == 0) {
    Z3_ast e = o->sy[off].e;
    unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e));
    if (ew == n * 8) {
      bool same = true;
      for (unsigned i = 1; i < n && same; i++)
        same = o->st[off + i] == B_SYM && o->sy[off + i].e == e && o->sy[off + i].idx == i;
      if (same) {
        if (w == ew) return norm(w, e);
        return mk(w, Z3_mk_extract(Z, w - 1, 0, e));
      }
    }
  }
  Z3_ast r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Z3_ast b;
    if (o->st[off + i] == B_CONC) b = num(8, o->d[off + i]);
    else if (o->st[off + i] == B_SYM) b = keep(Z3_mk_extract(Z, o->sy[off + i].idx * 8 + 7, o->sy[off + i].idx * 8, o->sy[off + i].e));
    else {
      // give the byte a name and make it stick, so that later loads agree
      b = freshUndef(8);
      if (o->sy.size() < o->size) o->sy.resize(o->size);
      o->st[off + i] = B_SYM;
      o->sy[off + i] = {b, 0};
      u64 id = o->base >> OBJ_SHIFT;
      if (id < nGlobalObjs) globalDirty[id] = 1;
    }
    r = r ? keep(Z3_mk_concat(Z, b, r)) : b;
  }
  if (w < n * 8) r = keep(Z3_mk_extract(Z, w - 1, 0, r));
  return mk(w, r);
}
static void storeBytes(Obj* o, u64 off, unsigned n, const SV& v) {
  if (!v.e) {
    for (unsigned i = 0; i < n; i++) {
      o->d[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
      o->st[off + i] = B_CONC;
    }
    return;
  }
  Z3_ast e = v.e;
  if (v.w < n * 8) e = simp(Z3_mk_zero_ext(Z, n * 8 - v.w, e));
  if (o->sy.size() < o->size) o->sy.resize(o->size);
  for (unsigned i = 0; i < n; i++) {
    o->st[off + i] = B_SYM;
    o->sy[off + i] = {e, i};
  }
}
static SV loadTy(u64 addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    SV r;
    auto* a = newAgg(st->getNumElements());
    for (unsigned i = 0; i < st->getNumElements(); i++) (*a)[i] = loadTy(addr + sl->getElementOffset(i), st->getElementType(i));
    r.agg = a;
    return r;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    SV r;
    auto* a = newAgg(at->getNumElements());
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) (*a)[i] = loadTy(addr + i * es, at->getElementType());
    r.agg = a;
    return r;
  }
  unsigned w = tyW(t);
  if (!w) fatal("load of unsupported type");
  unsigned n = (w + 7) / 8;
  Obj* o = access(addr, n, false, 1, "load");
  return loadBytes(o, addr - o->base, n, w);
}
static void storeTy(u64 addr, const SV& v, Type* t, bool atomicAcc = false) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(addr + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(addr + i * es, (*v.agg)[i], at->getElementType());
    return;
  }
  unsigned w = tyW(t);
  if (!w) fatal("store of unsupported type");
  unsigned n = (w + 7) / 8;
  Obj* o = access(addr, n, true, 1, "store", atomicAcc);
  storeBytes(o, addr - o->base, n, v);
}
static void memCopy(u64 dst, u64 src, u64 n, const char* what) {
  if (!n) return;
  Obj* s = access(src, n, false, 1, what);
  Obj* d = access(dst, n, true, 1, what);
  u64 so = src - s->base, dof = dst - d->base;
  bool anySym = false;
  for (u64 i = 0; i < n; i++) anySym |= s->st[so + i] == B_SYM;
  if (anySym && d->sy.size() < d->size) d->sy.resize(d->size);
  std::vector<uint8_t> td(s->d.begin() + so, s->d.begin() + so + n), ts(s->st.begin() + so, s->st.begin() + so + n);
  std::vector<SymByte> ty;
  if (anySym) ty.assign(s->sy.begin() + so, s->sy.begin() + so + n);
  for (u64 i = 0; i < n; i++) {
    d->d[dof + i] = td[i];
    d->st[dof + i] = ts[i];
    if (ts[i] == B_SYM) d->sy[dof + i] = ty[i];
  }
}

// ---------------------------------------------------------------- constants
static SV constSV(const Constant* C);
static SV undefSV(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < st->getNumElements(); i++) a->push_back(undefSV(st->getElementType(i)));
    r.agg = a;
    return r;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < at->getNumElements(); i++) a->push_back(undefSV(at->getElementType()));
    r.agg = a;
    return r;
  }
  unsigned w = tyW(t);
  if (!w) fatal("undef of unsupported type");
  return norm(w, freshUndef(w));
}
static SV zeroSV(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < st->getNumElements(); i++) a->push_back(zeroSV(st->getElementType(i)));
    r.agg = a;
    return r;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < at->getNumElements(); i++) a->push_back(zeroSV(at->getElementType()));
    r.agg = a;
    return r;
  }
  unsigned w = tyW(t);
  if (!w) fatal("zero of unsupported type");
  if (w > 64) return norm(w, num(w, 0));
  return mkc(w, 0);
}
static std::string tstr(const Value* v) {
  std::string s;
  raw_string_ostream os(s);
  v->print(os);
  return s.substr(0, 400);
}
static SV constSV(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() > 64) {
      SmallString<64> str;
      ci->getValue().toString(str, 10, false);
      return norm(ci->getBitWidth(), keep(Z3_mk_numeral(Z, str.c_str(), bvs(ci->getBitWidth()))));
    }
    return mkc(ci->getBitWidth(), ci->getZExtValue());
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) {
    unsigned w = tyW(cf->getType());
    if (!w) fatal("fp constant type");
    return mkc(w, cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(C)) return mkc(64, 0);
  if (auto* gv = dyn_cast<GlobalValue>(C)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constSV(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) fatal("no address for global " + gv->getName().str());
    return mkc(64, it->second);
  }
  if (isa<UndefValue>(C)) return zeroSV(C->getType());
  if (isa<ConstantAggregateZero>(C)) return zeroSV(C->getType());
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < ca->getNumOperands(); i++) a->push_back(constSV(cast<Constant>(ca->getOperand(i))));
    r.agg = a;
    return r;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    SV r;
    auto* a = new std::vector<SV>();
    for (unsigned i = 0; i < cd->getNumElements(); i++) a->push_back(constSV(cd->getElementAsConstant(i)));
    r.agg = a;
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) fatal("const gep");
        SV b = constSV(cast<Constant>(g->getPointerOperand()));
        return mkc(64, b.c + off.getSExtValue());
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::Trunc: {
        SV b = constSV(ce->getOperand(0));
        return mkc(tyW(ce->getType()), b.c);
      }
      case Instruction::Sub: return mkc(tyW(ce->getType()), constSV(ce->getOperand(0)).c - constSV(ce->getOperand(1)).c);
      case Instruction::Add: return mkc(tyW(ce->getType()), constSV(ce->getOperand(0)).c + constSV(ce->getOperand(1)).c);
      default: fatal("constant expression " + tstr(ce));
    }
  }
  fatal("constant " + tstr(C));
}
static void initStore(Obj* o, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    u64 n = DL->getTypeAllocSize(t);
    for (u64 i = 0; i < n; i++) o->d[off + i] = 0, o->st[off + i] = B_CONC;
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues();
    for (size_t i = 0; i < raw.size(); i++) o->d[off + i] = raw[i], o->st[off + i] = B_CONC;
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
    u64 n = DL->getTypeAllocSize(t);
    for (u64 i = 0; i < n; i++) o->st[off + i] = B_CONC;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      u64 eo;
      if (auto* st = dyn_cast<StructType>(t)) eo = DL->getStructLayout(st)->getElementOffset(i);
      else eo = i * DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      initStore(o, off + eo, cast<Constant>(ca->getOperand(i)));
    }
    return;
  }
  SV v = constSV(C);
  storeBytes(o, off, (tyW(t) + 7) / 8, v);
}

static FI* prep(Function* F) {
  auto it = finfo.find(F);
  if (it != finfo.end()) return it->second;
  FI* fi = new FI();
  finfo[F] = fi;
  fi->F = F;
  fi->nounwind = F->doesNotThrow();
  DenseMap<const Value*, int> slot;
  int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  for (auto& I : instructions(*F))
    if (!I.getType()->isVoidTy()) slot[&I] = n++;
  fi->nslots = n;
  DenseMap<const BasicBlock*, int> bbn;
  int bi = 0;
  for (auto& B : *F) bbn[&B] = bi++;
  for (auto& B : *F) {
    fi->bbs.emplace_back();
    BB& bb = fi->bbs.back();
    bb.bb = &B;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      bb.ins.emplace_back();
      CI& c = bb.ins.back();
      c.I = &I;
      c.op = I.getOpcode();
      c.ty = I.getType();
      c.w = tyW(c.ty);
      if (!c.ty->isVoidTy()) c.dst = slot[&I];
      auto mkop = [&](Value* v) {
        Opnd o;
        auto si = slot.find(v);
        if (si != slot.end()) o.slot = si->second;
        else if (isa<UndefValue>(v)) o.undef = true, o.uty = v->getType();
        else if (auto* k = dyn_cast<Constant>(v)) {
          if (isa<Function>(k) || !k->containsUndefOrPoisonElement()) o.c = constSV(k);
          else o.c = constSV(k);
        }
        return o;
      };
      if (isa<PHINode>(I)) {
        bb.nphi++;
        auto* p = cast<PHINode>(&I);
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
          c.ops.push_back(mkop(p->getIncomingValue(i)));
          c.gidx.push_back({(unsigned)bbn[p->getIncomingBlock(i)], 0});
        }
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value* v = cb->getArgOperand(i);
          if (isa<MetadataAsValue>(v)) {
            c.ops.emplace_back();
            continue;
          }
          c.ops.push_back(mkop(v));
        }
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        c.callee = dyn_cast<Function>(cv);
        if (!c.callee) {
          if (isa<InlineAsm>(cv)) fatal("inline asm");
          c.ops.push_back(mkop(cb->getCalledOperand()));
        }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) {
          c.b0 = bbn[iv->getNormalDest()];
          c.b1 = bbn[iv->getUnwindDest()];
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        c.b0 = bbn[br->getSuccessor(0)];
        if (br->isConditional()) {
          c.ops.push_back(mkop(br->getCondition()));
          c.b1 = bbn[br->getSuccessor(1)];
        }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        c.ops.push_back(mkop(sw->getCondition()));
        c.b0 = bbn[sw->getDefaultDest()];
        for (auto& cs : sw->cases()) c.gidx.push_back({(unsigned)bbn[cs.getCaseSuccessor()], (i64)cs.getCaseValue()->getZExtValue()});
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        for (auto& o : I.operands()) c.ops.push_back(mkop(o.get()));
        unsigned k = 1;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
          Value* ix = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) c.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) c.goff += sc * ci->getSExtValue();
            else c.gidx.push_back({k, sc});
          }
        }
      } else {
        for (auto& o : I.operands())
          if (!isa<BasicBlock>(o.get())) c.ops.push_back(mkop(o.get()));
      }
      if (auto* l = dyn_cast<LoadInst>(&I)) c.align = l->getAlign().value(), c.atomicAcc = l->isAtomic();
      if (auto* s = dyn_cast<StoreInst>(&I)) c.align = s->getAlign().value(), c.atomicAcc = s->isAtomic();
      if (const DebugLoc& dl = I.getDebugLoc()) {
        auto* sc = cast<DIScope>(dl.getScope());
        std::string fn = sc->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = (sc->getDirectory() + "/" + fn).str();
        if (fn.compare(0, optRepoPrefix.size(), optRepoPrefix) == 0 && dl.getLine()) {
          auto key = std::make_pair(fn, (unsigned)dl.getLine());
          auto ci2 = covIds.find(key);
          if (ci2 == covIds.end()) {
            ci2 = covIds.emplace(key, (int)covNames.size()).first;
            covNames.push_back(key);
            covHit.push_back(0);
          }
          c.covId = ci2->second;
        }
      }
    }
  }
  return fi;
}

// ---------------------------------------------------------------- execution
static inline SV opv(Frame& f, const Opnd& o) {
  if (o.slot >= 0) return f.regs[o.slot];
  if (o.undef) return undefSV(o.uty);
  return o.c;
}
static u64 ptrOf(const SV& v, const char* what) {
  if (!v.e) return v.c;
  if (depUndef(v.e)) {
    // pointer built from uninitialised memory
    Z3_ast prime = keep(Z3_substitute(Z, v.e, undefVarsByIdx.size(), undefVarsByIdx.data(), undefVarsPrime.data()));
    Z3_ast q = mkNot(simp(Z3_mk_eq(Z, v.e, prime)));
    if (q != zFalse && check(q, nullptr) == Z3_L_TRUE) violate("uninit", std::string(what) + " through an uninitialised pointer");
  }
  return concretize(v);
}
static double asF(const SV& v) {
  if (v.w == 32) {
    float f;
    uint32_t u = v.c;
    memcpy(&f, &u, 4);
    return f;
  }
  double d;
  memcpy(&d, &v.c, 8);
  return d;
}
static SV mkF(unsigned w, double d) {
  if (w == 32) {
    float f = (float)d;
    uint32_t u;
    memcpy(&u, &f, 4);
    return mkc(32, u);
  }
  u64 u;
  memcpy(&u, &d, 8);
  return mkc(64, u);
}
static Z3_sort fps(unsigned w) {
  static Z3_sort s32, s64;
  Z3_sort& s = w == 32 ? s32 : s64;
  if (!s) {
    s = w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, s));
  }
  return s;
}
static Z3_ast toFP(const SV& v) { return keep(Z3_mk_fpa_to_fp_bv(Z, ex(v), fps(v.w))); }

static SV binop(unsigned op, const SV& a, const SV& b) {
  unsigned w = a.w;
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return mkc(w, x + y);
      case Instruction::Sub: return mkc(w, x - y);
      case Instruction::Mul: return mkc(w, x * y);
      case Instruction::And: return mkc(w, x & y);
      case Instruction::Or: return mkc(w, x | y);
      case Instruction::Xor: return mkc(w, x ^ y);
      case Instruction::Shl:
        if (y >= w) violate("ub", "shift too large");
        return mkc(w, x << y);
      case Instruction::LShr:
        if (y >= w) violate("ub", "shift too large");
        return mkc(w, x >> y);
      case Instruction::AShr:
        if (y >= w) violate("ub", "shift too large");
        return mkc(w, (u64)(sx(x, w) >> y));
      case Instruction::UDiv:
        if (!y) violate("ub", "division by zero");
        return mkc(w, x / y);
      case Instruction::URem:
        if (!y) violate("ub", "division by zero");
        return mkc(w, x % y);
      case Instruction::SDiv:
        if (!y || (sx(y, w) == -1 && x == (1ull << (w - 1)))) violate("ub", "division overflow");
        return mkc(w, (u64)(sx(x, w) / sx(y, w)));
      case Instruction::SRem:
        if (!y || (sx(y, w) == -1 && x == (1ull << (w - 1)))) violate("ub", "division overflow");
        return mkc(w, (u64)(sx(x, w) % sx(y, w)));
    }
    fatal("binop");
  }
  Z3_ast x = ex(a), y = ex(b);
  switch (op) {
    case Instruction::Add: return mk(w, Z3_mk_bvadd(Z, x, y));
    case Instruction::Sub: return mk(w, Z3_mk_bvsub(Z, x, y));
    case Instruction::Mul: return mk(w, Z3_mk_bvmul(Z, x, y));
    case Instruction::And: return mk(w, Z3_mk_bvand(Z, x, y));
    case Instruction::Or: return mk(w, Z3_mk_bvor(Z, x, y));
    case Instruction::Xor: return mk(w, Z3_mk_bvxor(Z, x, y));
    case Instruction::Shl: return mk(w, Z3_mk_bvshl(Z, x, y));
    case Instruction::LShr: return mk(w, Z3_mk_bvlshr(Z, x, y));
    case Instruction::AShr: return mk(w, Z3_mk_bvashr(Z, x, y));
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem: {
      Z3_ast z = simp(Z3_mk_eq(Z, y, num(w, 0)));
      if (decide(z)) violate("ub", "division by zero");
      if (op == Instruction::UDiv) return mk(w, Z3_mk_bvudiv(Z, x, y));
      if (op == Instruction::URem) return mk(w, Z3_mk_bvurem(Z, x, y));
      if (op == Instruction::SDiv) return mk(w, Z3_mk_bvsdiv(Z, x, y));
      return mk(w, Z3_mk_bvsrem(Z, x, y));
    }
  }
  fatal("binop");
}
static SV icmp(CmpInst::Predicate p, const SV& a, const SV& b) {
  unsigned w = a.w;
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    i64 s = sx(x, w), t = sx(y, w);
    bool r;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = s > t; break;
      case CmpInst::ICMP_SGE: r = s >= t; break;
      case CmpInst::ICMP_SLT: r = s < t; break;
      case CmpInst::ICMP_SLE: r = s <= t; break;
      default: fatal("icmp");
    }
    return mkc(1, r);
  }
  Z3_ast x = ex(a), y = ex(b);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromBool(Z3_mk_eq(Z, x, y));
    case CmpInst::ICMP_NE: return fromBool(Z3_mk_not(Z, keep(Z3_mk_eq(Z, x, y))));
    case CmpInst::ICMP_UGT: return fromBool(Z3_mk_bvugt(Z, x, y));
    case CmpInst::ICMP_UGE: return fromBool(Z3_mk_bvuge(Z, x, y));
    case CmpInst::ICMP_ULT: return fromBool(Z3_mk_bvult(Z, x, y));
    case CmpInst::ICMP_ULE: return fromBool(Z3_mk_bvule(Z, x, y));
    case CmpInst::ICMP_SGT: return fromBool(Z3_mk_bvsgt(Z, x, y));
    case CmpInst::ICMP_SGE: return fromBool(Z3_mk_bvsge(Z, x, y));
    case CmpInst::ICMP_SLT: return fromBool(Z3_mk_bvslt(Z, x, y));
    case CmpInst::ICMP_SLE: return fromBool(Z3_mk_bvsle(Z, x, y));
    default: fatal("icmp");
  }
}
static SV fcmp(CmpInst::Predicate p, const SV& a, const SV& b) {
  if (!a.e && !b.e) {
    double x = asF(a), y = asF(b);
    bool un = std::isnan(x) || std::isnan(y), r = false;
    bool eq = x == y, lt = x < y, gt = x > y;
    unsigned q = (unsigned)p;  // FCMP encoding: U L G E bits
    r = (un && (q & 8)) || (lt && (q & 4)) || (gt && (q & 2)) || (eq && (q & 1));
    return mkc(1, r);
  }
  Z3_ast x = toFP(a), y = toFP(b);
  std::vector<Z3_ast> d;
  unsigned q = (unsigned)p;
  if (q & 8) {
    d.push_back(keep(Z3_mk_fpa_is_nan(Z, x)));
    d.push_back(keep(Z3_mk_fpa_is_nan(Z, y)));
  }
  if (q & 4) d.push_back(keep(Z3_mk_fpa_lt(Z, x, y)));
  if (q & 2) d.push_back(keep(Z3_mk_fpa_gt(Z, x, y)));
  if (q & 1) d.push_back(keep(Z3_mk_fpa_eq(Z, x, y)));
  if (d.empty()) return mkc(1, 0);
  return fromBool(keep(Z3_mk_or(Z, d.size(), d.data())));
}
static SV castw(unsigned op, const SV& a, unsigned w) {
  switch (op) {
    case Instruction::Trunc:
      if (!a.e) return mkc(w, a.c);
      return mk(w, Z3_mk_extract(Z, w - 1, 0, a.e));
    case Instruction::ZExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (w == a.w) return a;
      if (w < a.w) {
        if (!a.e) return mkc(w, a.c);
        return mk(w, Z3_mk_extract(Z, w - 1, 0, a.e));
      }
      if (!a.e && w <= 64) return mkc(w, a.c);
      return mk(w, Z3_mk_zero_ext(Z, w - a.w, ex(a)));
    case Instruction::SExt:
      if (!a.e && w <= 64) return mkc(w, (u64)sx(a.c, a.w));
      return mk(w, Z3_mk_sign_ext(Z, w - a.w, ex(a)));
  }
  fatal("cast");
}

static std::string cstrAt(u64 a) {
  std::string s;
  for (;;) {
    Obj* o = access(a, 1, false, 1, "string");
    if (o->st[a - o->base] != B_CONC) fatal("symbolic string");
    char ch = (char)o->d[a - o->base];
    if (!ch) return s;
    s += ch;
    a++;
  }
}

static void pushFrame(Function* F, const std::vector<SV>& args, const CI* site) {
  if (frames.size() >= optMaxDepth) violate("bound", "call depth exceeds " + std::to_string(optMaxDepth) + " (runaway recursion)");
  FI* fi = prep(F);
  fi->executed = true;
  frames.emplace_back();
  Frame& f = frames.back();
  f.f = fi;
  f.regs.assign(fi->nslots, SV());
  f.callsite = site;
  unsigned i = 0;
  for (auto& a : F->args()) {
    if (i >= args.size()) fatal("too few arguments to " + F->getName().str());
    if (a.hasByValAttr()) {
      u64 n = DL->getTypeAllocSize(a.getParamByValType());
      Obj* o = newObj(K_STACK, n, std::max<u64>(8, a.getParamAlign().valueOrOne().value()));
      memCopy(o->base, args[i].c, n, "byval copy");
      f.allocas.push_back(o->base);
      f.regs[i] = mkc(64, o->base);
    } else f.regs[i] = args[i];
    i++;
  }
}
static void popFrame() {
  for (u64 a : frames.back().allocas) {
    Obj* o = objs[a >> OBJ_SHIFT];
    o->state = 3;
  }
  frames.pop_back();
}
static void gotoBB(Frame& f, int b) {
  f.prevbb = f.bb;
  f.bb = b;
  f.pc = 0;
  BB& bb = f.f->bbs[b];
  if (bb.nphi) {
    std::vector<SV> vals(bb.nphi);
    for (int i = 0; i < bb.nphi; i++) {
      CI& c = bb.ins[i];
      bool found = false;
      for (size_t k = 0; k < c.ops.size(); k++)
        if ((int)c.gidx[k].first == f.prevbb) {
          vals[i] = opv(f, c.ops[k]);
          found = true;
          break;
        }
      if (!found) fatal("phi");
    }
    for (int i = 0; i < bb.nphi; i++) f.regs[bb.ins[i].dst] = vals[i];
    f.pc = bb.nphi;
  }
}

// typeinfo matching
static std::map<u64, int> tiIds;
static int tiId(u64 ti) {
  auto it = tiIds.find(ti);
  if (it == tiIds.end()) it = tiIds.emplace(ti, (int)tiIds.size() + 1).first;
  return it->second;
}
static const GlobalVariable* gvAt(u64 a) {
  Obj* o = findObj(a);
  return o && o->base == a ? o->gv : nullptr;
}
// adj: offset of the wanted base class within the thrown object
static bool tiDerives(u64 thrown, u64 want, u64* adj = nullptr) {
  if (adj) *adj = 0;
  if (thrown == want) return true;
  const GlobalVariable *t = gvAt(thrown), *w = gvAt(want);
  if (!t || !w) return false;
  if (t->getName() == w->getName()) return true;
  if (!t->hasInitializer()) {
    if (t->getName() == "_ZTISt9bad_alloc" || t->getName() == "_ZTISt20bad_array_new_length" || t->getName() == "_ZTISt11logic_error" || t->getName() == "_ZTISt13runtime_error")
      return w->getName() == "_ZTISt9exception";
    return false;
  }
  auto* cs = dyn_cast<ConstantStruct>(t->getInitializer());
  if (!cs) return false;
  // __si_class_type_info: vtable, name, base;
  // __vmi_class_type_info: vtable, name, flags, count, (base, offset << 8 | public 2 | virtual 1)...
  for (unsigned i = 2; i < cs->getNumOperands(); i++)
    if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i))) {
      u64 off = 0, sub = 0;
      if (i + 1 < cs->getNumOperands())
        if (auto* of = dyn_cast<ConstantInt>(cs->getOperand(i + 1))) {
          u64 fl = of->getZExtValue();
          if (!(fl & 2)) continue;
          if (fl & 1) fatal("exception type with a virtual base");
          off = fl >> 8;
        }
      if (tiDerives(gaddr[b], want, &sub)) {
        if (adj) *adj = off + sub;
        return true;
      }
    }
  return false;
}

// Unwind the in-flight exception from the top frame's current call site.
static void unwindFrom(const CI* site) {
  for (;;) {
    Frame& f = frames.back();
    if (site && site->op == Instruction::Invoke) {
      BB& lpb = f.f->bbs[site->b1];
      const CI* lpci = nullptr;
      for (auto& c : lpb.ins)
        if (c.op == Instruction::LandingPad) {
          lpci = &c;
          break;
        }
      if (!lpci) fatal("no landingpad");
      auto* lp = cast<LandingPadInst>(lpci->I);
      Exc& e = excs[inflight];
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        Constant* cl = lp->getClause(i);
        if (lp->isCatch(i)) {
          SV v = constSV(cl);
          e.adj = 0;
          if (v.c == 0 || tiDerives(e.ti, v.c, &e.adj)) sel = tiId(v.c);
        } else {
          auto* at = cast<ArrayType>(cl->getType());
          bool any = false;
          if (at->getNumElements())
            for (auto& o : cast<User>(cl)->operands())
              if (tiDerives(e.ti, constSV(cast<Constant>(o.get())).c)) any = true;
          if (!any) sel = 0x7fff;
        }
      }
      if (sel >= 0 || lp->isCleanup()) {
        gotoBB(f, site->b1);
        // landingpad is first non-phi
        SV r;
        auto* a = newAgg(2);
        (*a)[0] = mkc(64, (u64)0xE0000000000ull + inflight);
        (*a)[1] = mkc(32, sel >= 0 ? sel : 0);
        r.agg = a;
        f.regs[lpci->dst] = r;
        f.pc = (int)(lpci - &lpb.ins[0]) + 1;
        return;
      }
    }
    if (f.f->nounwind) violate("terminate", "exception escapes a noexcept function");
    const CI* cs = f.callsite;
    int onRet = f.onRet;
    popFrame();
    if (onRet) violate("terminate", "exception thrown by an exception object's destructor");
    if (frames.empty()) violate("uncaught", "uncaught exception leaves the harness");
    site = cs;
  }
}

static Function* fnByName(const char* n) {
  Function* F = M->getFunction(n);
  return F && !F->isDeclaration() ? F : nullptr;
}

struct Pin {
  std::string name;
  u64 lo, hi;
};
static std::vector<Pin> pins;  // --assume name:lo:hi, splits one entry over several processes
static SV nondet(const std::string& name, unsigned w) {
  std::string nm = "n" + std::to_string(nondetCtr++) + "_" + name;
  Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(w)));
  nds.push_back({name, w, v});
  for (auto& p : pins)
    if (p.name == name) {
      doAssume(simp(Z3_mk_bvuge(Z, v, num(w, p.lo))));
      doAssume(simp(Z3_mk_bvule(Z, v, num(w, p.hi))));
    }
  SV s;
  s.w = w;
  s.e = v;
  return s;
}

static bool fixedAssertSkip(const std::string& label) {
  if (optProp.empty()) return false;
  if (!label.empty() && label[0] == '*') return false;
  // label "C03,C04:text": comma separated property list before ':'
  size_t c = label.find(':');
  std::string ps = c == std::string::npos ? label : label.substr(0, c);
  size_t i = 0;
  while (i <= ps.size()) {
    size_t j = ps.find(',', i);
    if (j == std::string::npos) j = ps.size();
    if (ps.compare(i, j - i, optProp) == 0 && j - i == optProp.size()) return false;
    i = j + 1;
  }
  return true;
}

static void doAssert(const SV& cond, const std::string& label) {
  if (fixedAssertSkip(label)) return;
  assertCount[label]++;
  if (!cond.e) {
    nAssertConcrete++;
    if (!(cond.c & 1)) violate("assert", label);
    return;
  }
  SV c1 = cond.w == 1 ? cond : fromBool(Z3_mk_not(Z, keep(Z3_mk_eq(Z, cond.e, num(cond.w, 0)))));
  Z3_ast b = toBool(c1);
  if (b == zTrue) {
    nAssertConcrete++;
    return;
  }
  if (tpos < trace.size()) {
    Ev& e = trace[tpos++];
    if (e.k != PROVED || e.cond != b) fatal("nondeterministic re-execution (assert)");
    if (e.levels == 0 && !e.choice) return;
    return;
  }
  checkUndefBool(b, "assertion");
  nAssertQueries++;
  Ev e;
  e.k = PROVED;
  e.cond = b;
  Z3_model m = nullptr;
  Z3_ast n = mkNot(b);
  if (check(n, &m) == Z3_L_TRUE) {
    record("assert", label, m);
    nViolPaths++;
    Z3_model_dec_ref(Z, m);
    Z3_model m2 = nullptr;
    if (b == zFalse || check(b, &m2) != Z3_L_TRUE) throw PathEnd{2};
    setModel(m2);
    Z3_model_dec_ref(Z, m2);
    pushAssert(b);
    e.levels = 1;
    e.choice = true;
  } else nAssertProved++;
  trace.push_back(e);
  tpos++;
}

static u64 heapAlloc(u64 n, u64 al) {
  Obj* o = newObj(K_HEAP, n, al);
  heapLive++;
  return o->base;
}
// mode: the deallocation interface used
static void heapFree(u64 p, const char* what, i64 size, i64 align) {
  if (!p) return;
  Obj* o = findObj(p);
  if (!o || o->kind != K_HEAP) violate("memory", std::string(what) + ": freeing something that is not a heap block");
  if (o->base != p) violate("memory", std::string(what) + ": freeing the interior of a block");
  if (o->state == 2) violate("memory", std::string(what) + ": double free");
  if (size >= 0 && (u64)size != o->size) violate("memory", std::string(what) + ": deallocation size differs from the allocation size");
  if (align >= 0 && (u64)align != o->align) violate("memory", std::string(what) + ": deallocation alignment differs from the allocation alignment");
  if (frozenMode && (p >> OBJ_SHIFT) < frozenLimit) {
    bool ok = false;
    for (auto& r : unfrozen)
      if (p >= r.first && p < r.first + r.second) ok = true;
    if (!ok) violate("frozen-write", "const operation freed pre-existing memory");
  }
  o->state = 2;
  heapLive--;
}

enum Ext {
  X_UNKNOWN, X_NONDET8, X_NONDET32, X_NONDET64, X_NONDETB, X_ASSUME, X_ASSERT, X_COVER, X_ALLOC, X_FREE, X_FREEZE, X_UNFREEZE,
  X_ALLOW, X_LEAKCHECK, X_NEWFAULT, X_SYMBOLIC, X_NATIVE, X_FAIL, X_NEW, X_NEWAL, X_DEL, X_DELSZ, X_DELAL, X_DELSZAL,
  X_CXAALLOC, X_CXAFREE, X_CXATHROW, X_CXABEGIN, X_CXAEND, X_CXARETHROW, X_TERMINATE, X_ABORT, X_ASSERTFAIL, X_PUREVIRT, X_NOP,
  X_MEMCPY, X_MEMSET, X_MEMCMP, X_STRLEN, X_STRCMP, X_GUARDACQ, X_GUARDREL, X_GUARDABORT, X_UNCAUGHT, X_THROWLIB, X_HASHBYTES, X_ATEXIT,
  X_EQPTR, X_CALLFREEZE, X_DYNCAST, X_BADARR, X_CONCRETIZE
};
static std::unordered_map<const Function*, int> extCache;
static int extOf(const Function* F) {
  auto it = extCache.find(F);
  if (it != extCache.end()) return it->second;
  static const std::map<std::string, int> T = {
      {"__vp_nondet_u8", X_NONDET8}, {"__vp_nondet_u32", X_NONDET32}, {"__vp_nondet_u64", X_NONDET64}, {"__vp_nondet_bool", X_NONDETB},
      {"__vp_assume", X_ASSUME}, {"__vp_assert", X_ASSERT}, {"__vp_cover", X_COVER}, {"__vp_heap_alloc", X_ALLOC}, {"__vp_heap_free", X_FREE},
      {"__vp_concretize", X_CONCRETIZE}, {"__vp_freeze", X_FREEZE}, {"__vp_unfreeze", X_UNFREEZE}, {"__vp_allow_write", X_ALLOW}, {"__vp_leak_check", X_LEAKCHECK},
      {"__vp_new_faults", X_NEWFAULT}, {"__vp_is_symbolic", X_SYMBOLIC}, {"__vp_native", X_NATIVE}, {"__vp_fail", X_FAIL},
      {"_Znwm", X_NEW}, {"_Znam", X_NEW}, {"_ZnwmSt11align_val_t", X_NEWAL}, {"_ZnamSt11align_val_t", X_NEWAL}, {"_ZdlPv", X_DEL}, {"_ZdaPv", X_DEL},
      {"_ZdlPvm", X_DELSZ}, {"_ZdaPvm", X_DELSZ}, {"_ZdlPvSt11align_val_t", X_DELAL}, {"_ZdaPvSt11align_val_t", X_DELAL}, {"_ZdlPvmSt11align_val_t", X_DELSZAL},
      {"__cxa_allocate_exception", X_CXAALLOC}, {"__cxa_free_exception", X_CXAFREE}, {"__cxa_throw", X_CXATHROW}, {"__cxa_begin_catch", X_CXABEGIN},
      {"__cxa_end_catch", X_CXAEND}, {"__cxa_rethrow", X_CXARETHROW}, {"_ZSt9terminatev", X_TERMINATE}, {"abort", X_ABORT},
      {"__assert_fail", X_ASSERTFAIL}, {"__cxa_pure_virtual", X_PUREVIRT}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET},
      {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"strlen", X_STRLEN}, {"strcmp", X_STRCMP}, {"__cxa_guard_acquire", X_GUARDACQ}, {"__cxa_guard_release", X_GUARDREL},
      {"__cxa_guard_abort", X_GUARDABORT}, {"_ZSt18uncaught_exceptionv", X_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", X_UNCAUGHT},
      {"_ZSt11_Hash_bytesPKvmm", X_HASHBYTES}, {"__cxa_atexit", X_ATEXIT}, {"__cxa_thread_atexit", X_ATEXIT}, {"_ZNSt9bad_allocD1Ev", X_NOP}, {"_ZNSt9bad_allocD2Ev", X_NOP}, {"_ZNSt9exceptionD2Ev", X_NOP},
      {"_ZNSt9exceptionD1Ev", X_NOP}, {"__dynamic_cast", X_DYNCAST}, {"_ZSt28__throw_bad_array_new_lengthv", X_BADARR}, {"_ZSt17__throw_bad_allocv", X_BADARR},
      {"__cxa_throw_bad_array_new_length", X_BADARR}};
  int r = X_UNKNOWN;
  auto k = T.find(F->getName().str());
  if (k != T.end()) r = k->second;
  else if (F->getName().starts_with("_ZSt") && F->getName().contains("__throw_")) r = X_THROWLIB;
  extCache[F] = r;
  return r;
}

static void setRes(Frame& f, const CI& c, SV v) {
  if (c.dst >= 0) f.regs[c.dst] = v;
}
static void advance(Frame& f, const CI& c) {
  if (c.op == Instruction::Invoke) gotoBB(f, c.b0);
  else f.pc++;
}

static void returnFrom(const SV& rv) {
  const CI* cs = frames.back().callsite;
  bool disc = frames.back().discardRet;
  popFrame();
  if (frames.empty()) return;
  Frame& f = frames.back();
  if (!disc && cs) {
    setRes(f, *cs, rv);
    advance(f, *cs);
  } else if (cs) advance(f, *cs);
}

static u64 vtbl_typeinfo(u64 objp, i64* offTop) {
  SV vp = loadTy(objp, PointerType::get(*CTX, 0));
  u64 v = ptrOf(vp, "vptr");
  SV ot = loadTy(v - 16, Type::getInt64Ty(*CTX));
  SV ti = loadTy(v - 8, PointerType::get(*CTX, 0));
  *offTop = (i64)ot.c;
  return ti.c;
}
// find subobject of type `want` in object at addr of type `ti`; returns 0 if none/ambiguous (public bases only)
static void subobjs(u64 addr, u64 ti, u64 want, std::set<u64>& out) {
  if (ti == want) {
    out.insert(addr);
    return;
  }
  const GlobalVariable* t = gvAt(ti);
  if (!t || !t->hasInitializer()) return;
  auto* cs = dyn_cast<ConstantStruct>(t->getInitializer());
  if (!cs || cs->getNumOperands() < 3) return;
  if (cs->getNumOperands() == 3) {
    if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2))) subobjs(addr, gaddr[b], want, out);
    return;
  }
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
    auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i));
    auto* of = dyn_cast<ConstantInt>(cs->getOperand(i + 1));
    if (!b || !of) continue;
    i64 v = of->getSExtValue();
    if (!(v & 2)) continue;  // not public
    i64 off = v >> 8;
    u64 a = addr;
    if (v & 1) {
      SV vp = loadTy(addr, PointerType::get(*CTX, 0));
      SV vo = loadTy(vp.c + off, Type::getInt64Ty(*CTX));
      a = addr + (i64)vo.c;
    } else a = addr + off;
    subobjs(a, gaddr[b], want, out);
  }
}

static void throwObj(u64 obj, u64 ti, u64 dtor, const CI* site) {
  excs.push_back({obj, ti, dtor, 0, true});
  inflight = (int)excs.size() - 1;
  uncaughtCount++;
  unwindFrom(site);
}

static void handleExt(Frame& f, const CI& c, Function* F, std::vector<SV>& a) {
  int x = extOf(F);
  SV r;
  switch (x) {
    case X_NONDET8:
    case X_NONDET32:
    case X_NONDET64:
    case X_NONDETB: {
      std::string nm = cstrAt(a[0].c);
      if (x == X_NONDETB) {
        SV v = nondet(nm, 1);
        r = v;
      } else r = nondet(nm, x == X_NONDET8 ? 8 : x == X_NONDET32 ? 32 : 64);
      break;
    }
    case X_ASSUME: {
      SV v = a[0];
      doAssume(v.w == 1 ? toBool(v) : simp(Z3_mk_not(Z, keep(Z3_mk_eq(Z, ex(v), num(v.w, 0))))));
      break;
    }
    case X_ASSERT: doAssert(a[0], cstrAt(a[1].c)); break;
    case X_FAIL: {
      std::string l = cstrAt(a[0].c);
      if (!fixedAssertSkip(l)) violate("assert", l);
      throw PathEnd{1};
    }
    case X_CONCRETIZE: r = mkc(32, concretize(a[0])); break;  // forks over all feasible values
    case X_COVER: covers.insert(cstrAt(a[0].c)); break;
    case X_ALLOC: r = mkc(64, heapAlloc(concretize(a[0]), concretize(a[1]))); break;
    case X_FREE: heapFree(ptrOf(a[0], "free"), "deallocate", -1, -1); break;
    case X_FREEZE:
      frozenMode = true;
      frozenLimit = objs.size();
      break;
    case X_UNFREEZE: frozenMode = false; break;
    case X_ALLOW: unfrozen.push_back({a[0].c, a[1].c}); break;
    case X_LEAKCHECK: {
      std::string l = cstrAt(a[0].c);
      if (fixedAssertSkip(l)) break;
      assertCount[l]++;
      nAssertConcrete++;
      if (heapLive) violate("leak", l);
      break;
    }
    case X_NEWFAULT: newFaults = a[0].c != 0; break;
    case X_SYMBOLIC: r = mkc(32, a[0].e ? 1 : 0); break;
    case X_NATIVE: r = mkc(32, 0); break;
    case X_NEW:
    case X_NEWAL: {
      u64 n = concretize(a[0]);
      u64 al = x == X_NEWAL ? concretize(a[1]) : 16;
      if (newFaults) {
        SV v = nondet("newfail", 1);
        if (decide(toBool(v))) {
          Function* tb = fnByName("__vp_throw_bad_alloc");
          if (!tb) fatal("__vp_throw_bad_alloc missing");
          pushFrame(tb, {}, &c);
          return;
        }
      }
      if (n > 500000) violate("memory", "operator new: absurd size");
      r = mkc(64, heapAlloc(n, al));
      break;
    }
    case X_DEL: heapFree(ptrOf(a[0], "delete"), "operator delete", -1, 16); break;
    case X_DELSZ: heapFree(ptrOf(a[0], "delete"), "operator delete", (i64)concretize(a[1]), 16); break;
    case X_DELAL: heapFree(ptrOf(a[0], "delete"), "operator delete", -1, (i64)a[1].c); break;
    case X_DELSZAL: heapFree(ptrOf(a[0], "delete"), "operator delete", (i64)concretize(a[1]), (i64)a[2].c); break;
    case X_CXAALLOC: {
      Obj* o = newObj(K_EXC, a[0].c, 16);
      r = mkc(64, o->base);
      break;
    }
    case X_CXAFREE: objs[a[0].c >> OBJ_SHIFT]->state = 2; break;
    case X_CXATHROW: throwObj(a[0].c, a[1].c, a[2].c, &c); return;
    case X_CXABEGIN: {
      int id = (int)(a[0].c - 0xE0000000000ull);
      if (id < 0 || id >= (int)excs.size()) fatal("begin_catch");
      Exc& e = excs[id];
      e.handlers++;
      caught.push_back(id);
      uncaughtCount--;
      inflight = -1;
      r = mkc(64, e.obj + e.adj);
      break;
    }
    case X_CXAEND: {
      if (caught.empty()) fatal("end_catch");
      int id = caught.back();
      caught.pop_back();
      Exc& e = excs[id];
      e.handlers--;
      if (e.handlers == 0 && e.live) {
        e.live = false;
        if (e.dtor) {
          Function* D = nullptr;
          auto it = addrFn.find(e.dtor);
          if (it != addrFn.end()) D = it->second;
          if (D && !D->isDeclaration()) {
            pushFrame(D, {mkc(64, e.obj)}, &c);
            frames.back().discardRet = true;
            return;
          }
        }
      }
      break;
    }
    case X_CXARETHROW: {
      if (caught.empty()) violate("terminate", "rethrow without a current exception");
      int id = caught.back();
      // the following __cxa_end_catch must not destroy it
      Exc cp = excs[id];
      excs[id].live = false;
      excs.push_back({cp.obj, cp.ti, cp.dtor, 0, true});
      inflight = (int)excs.size() - 1;
      uncaughtCount++;
      unwindFrom(&c);
      return;
    }
    case X_TERMINATE: violate("terminate", "std::terminate called (exception escapes a noexcept function)");
    case X_ABORT: violate("terminate", "abort called");
    case X_BADARR: violate("terminate", "library throws bad_alloc/bad_array_new_length");
    case X_ASSERTFAIL: violate("libassert", "library assertion failed: " + cstrAt(a[0].c));
    case X_PUREVIRT: violate("ub", "pure virtual function called");
    case X_NOP: break;
    case X_MEMCPY: memCopy(ptrOf(a[0], "memcpy"), ptrOf(a[1], "memcpy"), concretize(a[2]), "memcpy"); r = a[0]; break;
    case X_MEMSET: {
      u64 p = ptrOf(a[0], "memset"), n = concretize(a[2]);
      if (n) {
        Obj* o = access(p, n, true, 1, "memset");
        SV b = castw(Instruction::Trunc, a[1], 8);
        for (u64 i = 0; i < n; i++) storeBytes(o, p - o->base + i, 1, b);
      }
      r = a[0];
      break;
    }
    case X_MEMCMP: {
      u64 p = ptrOf(a[0], "memcmp"), q = ptrOf(a[1], "memcmp"), n = concretize(a[2]);
      for (u64 i = 0; i < n; i++) {
        SV s = loadTy(p + i, Type::getInt8Ty(*CTX)), t = loadTy(q + i, Type::getInt8Ty(*CTX));
        SV eq = icmp(CmpInst::ICMP_EQ, s, t);
        checkUndefBool(toBool(eq), "memcmp");
        if (!decide(toBool(eq))) {
          SV lt = icmp(CmpInst::ICMP_ULT, s, t);
          r = mkc(32, decide(toBool(lt)) ? (u64)-1 : 1);
          setRes(f, c, r);
          advance(f, c);
          return;
        }
      }
      r = mkc(32, 0);
      break;
    }
    case X_STRLEN: r = mkc(64, cstrAt(a[0].c).size()); break;
    case X_STRCMP: r = mkc(32, (u64)(int)cstrAt(a[0].c).compare(cstrAt(a[1].c))); break;
    case X_GUARDACQ: {
      SV b = loadTy(a[0].c, Type::getInt8Ty(*CTX));
      r = mkc(32, b.c ? 0 : 1);
      if (!b.c) guardDepth++;  // thread-safe by the language's own guarantee
      break;
    }
    case X_GUARDREL: {
      storeTy(a[0].c, mkc(8, 1), Type::getInt8Ty(*CTX), true);
      if (guardDepth) guardDepth--;
      break;
    }
    case X_GUARDABORT: if (guardDepth) guardDepth--; break;
    case X_UNCAUGHT: r = mkc(c.w ? c.w : 32, uncaughtCount); break;
    case X_HASHBYTES: {
      // model: an injective-enough deterministic function of concrete bytes only
      u64 p = a[0].c, n = concretize(a[1]);
      u64 h = 1469598103934665603ull ^ a[2].c;
      bool symb = false;
      for (u64 i = 0; i < n; i++) {
        SV b = loadTy(p + i, Type::getInt8Ty(*CTX));
        if (b.e) symb = true;
        h = (h ^ b.c) * 1099511628211ull;
      }
      if (symb) fatal("_Hash_bytes on symbolic data");
      r = mkc(64, h);
      break;
    }
    case X_ATEXIT: r = mkc(32, 0); break;
    case X_DYNCAST: {
      i64 ot;
      u64 ti = vtbl_typeinfo(a[0].c, &ot);
      std::set<u64> out;
      subobjs(a[0].c + ot, ti, a[2].c, out);
      r = mkc(64, out.size() == 1 ? *out.begin() : 0);
      break;
    }
    case X_THROWLIB: violate("terminate", "library error thrown: " + F->getName().str());
    default: fatal("call to unmodelled external function " + F->getName().str() + "  from " + stackStr());
  }
  setRes(f, c, r);
  advance(f, c);
}

static void handleIntrinsic(Frame& f, const CI& c, Function* F, std::vector<SV>& a) {
  SV r;
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline: {
      u64 n = concretize(a[2]);
      memCopy(ptrOf(a[0], "memcpy"), ptrOf(a[1], "memcpy"), n, "memcpy");
      break;
    }
    case Intrinsic::memset: {
      u64 p = ptrOf(a[0], "memset"), n = concretize(a[2]);
      if (n) {
        Obj* o = access(p, n, true, 1, "memset");
        for (u64 i = 0; i < n; i++) storeBytes(o, p - o->base + i, 1, a[1]);
      }
      break;
    }
    case Intrinsic::lifetime_start: {
      Obj* o = findObj(a[1].c);
      if (o && o->kind == K_STACK) {
        o->state = 1;
        std::fill(o->st.begin(), o->st.end(), B_UNDEF);
      }
      break;
    }
    case Intrinsic::lifetime_end: {
      Obj* o = findObj(a[1].c);
      if (o && o->kind == K_STACK) o->state = 3;
      break;
    }
    case Intrinsic::eh_typeid_for: r = mkc(32, tiId(a[0].c)); break;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address: r = a[0]; break;
    case Intrinsic::assume: {
      Z3_ast b = toBool(a[0]);
      if (!decide(b)) violate("ub", "compiler assumption violated");
      break;
    }
    case Intrinsic::is_constant: r = mkc(1, 0); break;
    case Intrinsic::objectsize: r = mkc(c.w, ~0ull); break;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
    case Intrinsic::debugtrap: violate("ub", "trap");
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing:
    case Intrinsic::stackrestore:
    case Intrinsic::var_annotation:
    case Intrinsic::prefetch: break;
    case Intrinsic::stacksave: r = mkc(64, 0); break;
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end: r = mkc(64, 0); break;
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
      unsigned w = a[0].w;
      bool lead = F->getIntrinsicID() == Intrinsic::ctlz;
      Z3_ast x = ex(a[0]), res = num(w, w);
      for (unsigned k = 0; k < w; k++) {  // the last bit tested has priority
        unsigned bit = lead ? k : w - 1 - k;
        res = keep(Z3_mk_ite(Z, keep(Z3_mk_eq(Z, keep(Z3_mk_extract(Z, bit, bit, x)), bv1_1)), num(w, lead ? w - 1 - bit : bit), res));
      }
      r = mk(w, res);
      break;
    }
    case Intrinsic::ctpop: {
      unsigned w = a[0].w;
      Z3_ast x = ex(a[0]), res = num(w, 0);
      for (unsigned k = 0; k < w; k++) {
        Z3_ast b = keep(Z3_mk_extract(Z, k, k, x));
        res = keep(Z3_mk_bvadd(Z, res, w > 1 ? keep(Z3_mk_zero_ext(Z, w - 1, b)) : b));
      }
      r = mk(w, res);
      break;
    }
    case Intrinsic::bswap: {
      unsigned w = a[0].w;
      Z3_ast x = ex(a[0]), res = keep(Z3_mk_extract(Z, 7, 0, x));
      for (unsigned k = 8; k < w; k += 8) res = keep(Z3_mk_concat(Z, res, keep(Z3_mk_extract(Z, k + 7, k, x))));
      r = mk(w, res);
      break;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      unsigned w = a[0].w;
      Z3_ast cc = keep(Z3_mk_concat(Z, ex(a[0]), ex(a[1])));
      Z3_ast sh = keep(Z3_mk_zero_ext(Z, w, keep(Z3_mk_bvurem(Z, ex(a[2]), num(w, w)))));
      r = F->getIntrinsicID() == Intrinsic::fshl ? mk(w, keep(Z3_mk_extract(Z, 2 * w - 1, w, keep(Z3_mk_bvshl(Z, cc, sh)))))
                                                 : mk(w, keep(Z3_mk_extract(Z, w - 1, 0, keep(Z3_mk_bvlshr(Z, cc, sh)))));
      break;
    }
    case Intrinsic::abs: r = decide(toBool(icmp(CmpInst::ICMP_SLT, a[0], mkc(a[0].w, 0)))) ? binop(Instruction::Sub, mkc(a[0].w, 0), a[0]) : a[0]; break;
    case Intrinsic::umax: r = decide(toBool(icmp(CmpInst::ICMP_UGT, a[0], a[1]))) ? a[0] : a[1]; break;
    case Intrinsic::umin: r = decide(toBool(icmp(CmpInst::ICMP_ULT, a[0], a[1]))) ? a[0] : a[1]; break;
    case Intrinsic::smax: r = decide(toBool(icmp(CmpInst::ICMP_SGT, a[0], a[1]))) ? a[0] : a[1]; break;
    case Intrinsic::smin: r = decide(toBool(icmp(CmpInst::ICMP_SLT, a[0], a[1]))) ? a[0] : a[1]; break;
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow: {
      unsigned w = a[0].w;
      bool sg = F->getIntrinsicID() == Intrinsic::sadd_with_overflow || F->getIntrinsicID() == Intrinsic::ssub_with_overflow || F->getIntrinsicID() == Intrinsic::smul_with_overflow;
      Z3_ast x = ex(a[0]), y = ex(a[1]);
      x = keep(sg ? Z3_mk_sign_ext(Z, w, x) : Z3_mk_zero_ext(Z, w, x));
      y = keep(sg ? Z3_mk_sign_ext(Z, w, y) : Z3_mk_zero_ext(Z, w, y));
      Z3_ast z;
      switch (F->getIntrinsicID()) {
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow: z = Z3_mk_bvadd(Z, x, y); break;
        case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow: z = Z3_mk_bvsub(Z, x, y); break;
        default: z = Z3_mk_bvmul(Z, x, y);
      }
      keep(z);
      Z3_ast lo = simp(Z3_mk_extract(Z, w - 1, 0, z));
      Z3_ast back = keep(sg ? Z3_mk_sign_ext(Z, w, lo) : Z3_mk_zero_ext(Z, w, lo));
      auto* g = newAgg(2);
      (*g)[0] = norm(w, lo);
      (*g)[1] = fromBool(Z3_mk_not(Z, keep(Z3_mk_eq(Z, back, z))));
      r.agg = g;
      break;
    }
    default: fatal("intrinsic " + F->getName().str());
  }
  setRes(f, c, r);
  advance(f, c);
}

static bool branchOn(const SV& v, const char* what) {
  Z3_ast b = toBool(v);
  if (b != zTrue && b != zFalse) {
    if (tpos >= trace.size()) checkUndefBool(b, what);
  }
  return decide(b);
}

static SV selectSV(const SV& cnd, const SV& x, const SV& y, bool isptr) {
  if (!cnd.e) return (cnd.c & 1) ? x : y;
  if (x.agg || isptr || x.w == 0) return branchOn(cnd, "select") ? x : y;
  return mk(x.w, Z3_mk_ite(Z, toBool(cnd), ex(x), ex(y)));
}

static void step() {
  Frame& f = frames.back();
  const CI& c = f.f->bbs[f.bb].ins[f.pc];
  curCI = &c;
  nInstr++;
  if (++pathSteps > optMaxSteps) violate("bound", "path longer than " + std::to_string(optMaxSteps) + " instructions (non-termination?)");
  if (c.covId >= 0) covHit[c.covId] = 1;
  switch (c.op) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(c.I);
      u64 n = DL->getTypeAllocSize(ai->getAllocatedType());
      if (ai->isArrayAllocation()) n *= concretize(opv(f, c.ops[0]));
      Obj* o = newObj(K_STACK, n, ai->getAlign().value());
      f.allocas.push_back(o->base);
      f.regs[c.dst] = mkc(64, o->base);
      f.pc++;
      return;
    }
    case Instruction::Load: {
      u64 p = ptrOf(opv(f, c.ops[0]), "load");
      if (c.w) {
        unsigned n = (c.w + 7) / 8;
        Obj* o = access(p, n, false, c.align, "load");
        f.regs[c.dst] = loadBytes(o, p - o->base, n, c.w);
      } else f.regs[c.dst] = loadTy(p, c.ty);
      f.pc++;
      return;
    }
    case Instruction::Store: {
      SV v = opv(f, c.ops[0]);
      u64 p = ptrOf(opv(f, c.ops[1]), "store");
      Type* t = cast<StoreInst>(c.I)->getValueOperand()->getType();
      unsigned w = tyW(t);
      if (w) {
        unsigned n = (w + 7) / 8;
        Obj* o = access(p, n, true, c.align, "store", c.atomicAcc);
        storeBytes(o, p - o->base, n, v);
      } else storeTy(p, v, t);
      f.pc++;
      return;
    }
    case Instruction::GetElementPtr: {
      SV b = opv(f, c.ops[0]);
      SV r = c.goff ? binop(Instruction::Add, b, mkc(64, (u64)c.goff)) : b;
      for (auto& g : c.gidx) {
        SV ix = opv(f, c.ops[g.first]);
        if (ix.w < 64) ix = castw(Instruction::SExt, ix, 64);
        r = binop(Instruction::Add, r, binop(Instruction::Mul, ix, mkc(64, (u64)g.second)));
      }
      f.regs[c.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::Br:
      if (c.ops.empty()) gotoBB(f, c.b0);
      else gotoBB(f, branchOn(opv(f, c.ops[0]), "branch") ? c.b0 : c.b1);
      return;
    case Instruction::Switch: {
      SV v = opv(f, c.ops[0]);
      if (!v.e) {
        for (auto& g : c.gidx)
          if ((u64)g.second == v.c) {
            gotoBB(f, g.first);
            return;
          }
        gotoBB(f, c.b0);
        return;
      }
      for (auto& g : c.gidx)
        if (branchOn(icmp(CmpInst::ICMP_EQ, v, mkc(v.w, g.second)), "switch")) {
          gotoBB(f, g.first);
          return;
        }
      gotoBB(f, c.b0);
      return;
    }
    case Instruction::Ret: {
      SV r;
      if (!c.ops.empty()) r = opv(f, c.ops[0]);
      returnFrom(r);
      return;
    }
    case Instruction::Unreachable: violate("ub", "unreachable code reached");
    case Instruction::ICmp: f.regs[c.dst] = icmp(cast<CmpInst>(c.I)->getPredicate(), opv(f, c.ops[0]), opv(f, c.ops[1])); f.pc++; return;
    case Instruction::FCmp: f.regs[c.dst] = fcmp(cast<CmpInst>(c.I)->getPredicate(), opv(f, c.ops[0]), opv(f, c.ops[1])); f.pc++; return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      f.regs[c.dst] = binop(c.op, opv(f, c.ops[0]), opv(f, c.ops[1]));
      f.pc++;
      return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      SV a = opv(f, c.ops[0]), b = opv(f, c.ops[1]);
      if (a.e || b.e) {
        auto op = c.op == Instruction::FAdd ? Z3_mk_fpa_add : c.op == Instruction::FSub ? Z3_mk_fpa_sub : c.op == Instruction::FMul ? Z3_mk_fpa_mul : Z3_mk_fpa_div;
        f.regs[c.dst] = mk(c.w, keep(Z3_mk_fpa_to_ieee_bv(Z, keep(op(Z, keep(Z3_mk_fpa_rne(Z)), toFP(a), toFP(b))))));
        f.pc++;
        return;
      }
      double x = asF(a), y = asF(b);
      f.regs[c.dst] = mkF(c.w, c.op == Instruction::FAdd ? x + y : c.op == Instruction::FSub ? x - y : c.op == Instruction::FMul ? x * y : x / y);
      f.pc++;
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      f.regs[c.dst] = castw(c.op, opv(f, c.ops[0]), c.w);
      f.pc++;
      return;
    case Instruction::BitCast: f.regs[c.dst] = opv(f, c.ops[0]); f.pc++; return;
    case Instruction::FPExt: case Instruction::FPTrunc: {
      SV a = opv(f, c.ops[0]);
      if (a.e) {
        // a NaN stays one; its bits are not specified
        f.regs[c.dst] = mk(c.w, keep(Z3_mk_fpa_to_ieee_bv(Z, keep(Z3_mk_fpa_to_fp_float(Z, keep(Z3_mk_fpa_rne(Z)), toFP(a), fps(c.w))))));
      } else
        f.regs[c.dst] = mkF(c.w, asF(a));
      f.pc++;
      return;
    }
    case Instruction::FNeg: f.regs[c.dst] = binop(Instruction::Xor, opv(f, c.ops[0]), mkc(c.w, 1ull << (c.w - 1))); f.pc++; return;
    case Instruction::FPToSI: case Instruction::FPToUI: {
      // out of range: any value (z3 leaves it unspecified, as C++ does)
      SV a = opv(f, c.ops[0]);
      bool sg = c.op == Instruction::FPToSI;
      if (a.e)
        f.regs[c.dst] = mk(c.w, keep((sg ? Z3_mk_fpa_to_sbv : Z3_mk_fpa_to_ubv)(Z, keep(Z3_mk_fpa_rtz(Z)), toFP(a), c.w)));
      else
        f.regs[c.dst] = mkc(c.w, sg ? (u64)(int64_t)asF(a) : (u64)asF(a));
      f.pc++;
      return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      SV a = opv(f, c.ops[0]);
      bool sg = c.op == Instruction::SIToFP;
      if (a.e) {
        Z3_ast fp = keep((sg ? Z3_mk_fpa_to_fp_signed : Z3_mk_fpa_to_fp_unsigned)(Z, keep(Z3_mk_fpa_rne(Z)), ex(a), fps(c.w)));
        f.regs[c.dst] = mk(c.w, keep(Z3_mk_fpa_to_ieee_bv(Z, fp)));
      } else if (c.w == 32)
        f.regs[c.dst] = mkF(32, sg ? (double)(float)sx(a.c, a.w) : (double)(float)a.c);
      else
        f.regs[c.dst] = mkF(c.w, sg ? (double)sx(a.c, a.w) : (double)a.c);
      f.pc++;
      return;
    }
    case Instruction::Freeze: f.regs[c.dst] = opv(f, c.ops[0]); f.pc++; return;
    case Instruction::Select: f.regs[c.dst] = selectSV(opv(f, c.ops[0]), opv(f, c.ops[1]), opv(f, c.ops[2]), c.ty->isPointerTy()); f.pc++; return;
    case Instruction::ExtractValue: {
      SV v = opv(f, c.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(c.I)->getIndices()) {
        SV t = (*v.agg)[i];
        v = t;
      }
      f.regs[c.dst] = v;
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(c.I);
      if (iv->getNumIndices() != 1) fatal("nested insertvalue");
      SV v = opv(f, c.ops[0]);
      SV r;
      r.agg = newAgg(0);
      *r.agg = *v.agg;
      (*r.agg)[iv->getIndices()[0]] = opv(f, c.ops[1]);
      f.regs[c.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::Resume: {
      SV v = opv(f, c.ops[0]);
      inflight = (int)((*v.agg)[0].c - 0xE0000000000ull);
      unwindFrom(nullptr);
      return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto* ar = cast<AtomicRMWInst>(c.I);
      u64 p = ptrOf(opv(f, c.ops[0]), "atomicrmw");
      SV old = loadTy(p, c.ty), v = opv(f, c.ops[1]), nv;
      switch (ar->getOperation()) {
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v); break;
        default: fatal("atomicrmw");
      }
      storeTy(p, nv, c.ty, true);
      f.regs[c.dst] = old;
      f.pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      u64 p = ptrOf(opv(f, c.ops[0]), "cmpxchg");
      SV e = opv(f, c.ops[1]), n = opv(f, c.ops[2]);
      Type* t = cast<AtomicCmpXchgInst>(c.I)->getNewValOperand()->getType();
      SV old = loadTy(p, t);
      bool eq = branchOn(icmp(CmpInst::ICMP_EQ, old, e), "cmpxchg");
      if (eq) storeTy(p, n, t, true);
      SV r;
      r.agg = newAgg(2);
      (*r.agg)[0] = old;
      (*r.agg)[1] = mkc(1, eq);
      f.regs[c.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke: {
      Function* F = c.callee;
      std::vector<SV> a;
      size_t na = c.ops.size() - (F ? 0 : 1);
      a.reserve(na);
      for (size_t i = 0; i < na; i++) a.push_back(opv(f, c.ops[i]));
      if (!F) {
        u64 p = ptrOf(opv(f, c.ops[na]), "indirect call");
        auto it = addrFn.find(p);
        if (it == addrFn.end()) {
          Obj* o = findObj(p);
          if (o && o->state != 1) violate("memory", "call through a dangling pointer");
          violate("memory", "call through an invalid function pointer");
        }
        F = it->second;
      }
      if (F->isIntrinsic()) handleIntrinsic(f, c, F, a);
      else if (F->isDeclaration()) handleExt(f, c, F, a);
      else if (F->getName() == "__vp_nop") advance(f, c);
      else pushFrame(F, a, &c);
      return;
    }
    default: fatal(std::string("instruction ") + c.I->getOpcodeName());
  }
}

// ---------------------------------------------------------------- setup/run
static void layoutGlobals() {
  objs.push_back(nullptr);  // id 0 = null
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    Obj* o = newObj(K_FUNC, 1, 16);
    o->fn = &F;
    o->ro = true;
    gaddr[&F] = o->base;
    addrFn[o->base] = &F;
  }
  for (auto& G : M->globals()) {
    u64 n = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    if (!G.hasInitializer() && n < 64) n = 64;
    Obj* o = newObj(K_GLOBAL, n, std::max<u64>(G.getAlign().valueOrOne().value(), 8));
    o->gv = &G;
    gaddr[&G] = o->base;
  }
  for (auto& G : M->globals()) {
    Obj* o = objs[gaddr[&G] >> OBJ_SHIFT];
    if (G.hasInitializer()) {
      if (G.getName().starts_with("llvm.")) continue;
      initStore(o, 0, G.getInitializer());
      o->ro = G.isConstant();
      o->tls = G.isThreadLocal();
    } else {
      std::fill(o->st.begin(), o->st.end(), B_CONC);
      o->ro = true;
    }
  }
  nGlobalObjs = objs.size();
  globalInit.resize(nGlobalObjs);
  globalDirty.assign(nGlobalObjs, 0);
  for (size_t i = 1; i < nGlobalObjs; i++) globalInit[i] = *objs[i];
}
static void resetPath() {
  for (size_t i = nGlobalObjs; i < objs.size(); i++) freePool.push_back(objs[i]);
  objs.resize(nGlobalObjs);
  for (size_t i = 1; i < nGlobalObjs; i++)
    if (globalDirty[i]) {
      *objs[i] = globalInit[i];
      globalDirty[i] = 0;
    }
  frames.clear();
  excs.clear();
  caught.clear();
  nds.clear();
  inflight = -1;
  uncaughtCount = 0;
  heapLive = 0;
  newFaults = false;
  frozenMode = false;
  guardDepth = 0;
  unfrozen.clear();
  undefCtr = nondetCtr = 0;
  aggUsed = 0;
  pathSteps = 0;
  tpos = 0;
}
static std::vector<Function*> ctorsList() {
  std::vector<std::pair<u64, Function*>> v;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o.get());
        v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())});
      }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Function*> r;
  for (auto& p : v) r.push_back(p.second);
  return r;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') o += '\\', o += ch;
    else if (ch == '\n') o += "\\n";
    else if (ch < 32) o += ' ';
    else o += ch;
  }
  return o;
}

// Per entry: the assertion and cover labels in code reachable from it
// (through calls, function addresses and vtables).
static int scanModule() {
  printf("{");
  bool firstE = true;
  for (auto& E : *M) {
    if (E.isDeclaration() || !E.getName().starts_with("vpH_")) continue;
    std::set<const Value*> seen;
    std::vector<const Value*> work{&E};
    std::set<std::string> as, co;
    auto push = [&](const Value* v) {
      if ((isa<Function>(v) || isa<Constant>(v)) && seen.insert(v).second) work.push_back(v);
    };
    std::function<void(const Value*, std::set<std::string>&)> strs = [&](const Value* v, std::set<std::string>& out) {
      if (auto* se = dyn_cast<SelectInst>(v)) return strs(se->getTrueValue(), out), strs(se->getFalseValue(), out);
      if (auto* ph = dyn_cast<PHINode>(v)) {
        for (auto& x : ph->incoming_values()) strs(x, out);
        return;
      }
      StringRef r;
      if (getConstantStringInfo(v, r)) out.insert(r.str());
    };
    while (!work.empty()) {
      const Value* v = work.back();
      work.pop_back();
      if (auto* F = dyn_cast<Function>(v)) {
        for (auto& B : *F)
          for (auto& I : B) {
            if (auto* cb = dyn_cast<CallBase>(&I))
              if (auto* cf = cb->getCalledFunction()) {
                if (cf->getName() == "__vp_assert") strs(cb->getArgOperand(1), as);
                if (cf->getName() == "__vp_fail" || cf->getName() == "__vp_leak_check") strs(cb->getArgOperand(0), as);
                if (cf->getName() == "__vp_cover") strs(cb->getArgOperand(0), co);
              }
            for (auto& op : I.operands()) push(op.get());
          }
      } else if (auto* G = dyn_cast<GlobalVariable>(v)) {
        if (G->hasInitializer()) push(G->getInitializer());
      } else if (auto* C = dyn_cast<Constant>(v)) {
        for (auto& op : C->operands()) push(op.get());
      }
    }
    printf("%s\"%s\":{\"asserts\":[", firstE ? "" : ",\n", E.getName().str().c_str());
    firstE = false;
    bool f = true;
    for (auto& x : as) printf("%s\"%s\"", f ? "" : ",", jesc(x).c_str()), f = false;
    printf("],\"covers\":[");
    f = true;
    for (auto& x : co) printf("%s\"%s\"", f ? "" : ",", jesc(x).c_str()), f = false;
    printf("]}");
  }
  printf("}\n");
  return 0;
}

int main(int argc, char** argv) {
  std::string bc, entry, out;
  bool list = false, scan = false;
  unsigned optSamples = 0;
  std::vector<std::vector<std::pair<unsigned, u64>>> samples;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") optProp = nx();
    else if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") optTime = atof(nx().c_str());
    else if (a == "--max-steps") optMaxSteps = atoi(nx().c_str());
    else if (a == "--max-depth") optMaxDepth = atoi(nx().c_str());
    else if (a == "--max-paths") optMaxPaths = atoll(nx().c_str());
    else if (a == "--max-viol") optMaxViol = atoi(nx().c_str());
    else if (a == "--lib") optLib = nx();
    else if (a == "--repo") optRepoPrefix = nx();
    else if (a == "--dump") optDumpQueries = nx();
    else if (a == "-v") optVerbose = true;
    else if (a == "--list") list = true;
    else if (a == "--scan") scan = true;
    else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--assume") {
      std::string v = nx();
      size_t i = v.find(':'), j = v.find(':', i + 1);
      pins.push_back({v.substr(0, i), strtoull(v.c_str() + i + 1, 0, 0), strtoull(v.c_str() + j + 1, 0, 0)});
    }
    else bc = a;
  }
  LLVMContext ctx;
  CTX = &ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) fatal("cannot read " + bc);
  M = mod.get();
  DL = &M->getDataLayout();
  if (list) {
    for (auto& F : *M)
      if (!F.isDeclaration() && F.getName().starts_with("vpH_")) printf("%s\n", F.getName().str().c_str());
    return 0;
  }
  if (scan) return scanModule();
  if (!optLib.empty()) {
    auto lib = parseIRFile(optLib, err, ctx);
    if (!lib) fatal("cannot read " + optLib);
    if (Linker::linkModules(*mod, std::move(lib), Linker::Flags::LinkOnlyNeeded)) fatal("cannot link " + optLib);
  }
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, z3err);
  S = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, S);
  {
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), optTimeoutMs);
    Z3_solver_set_params(Z, S, p);
  }
  zTrue = keep(Z3_mk_true(Z));
  zFalse = keep(Z3_mk_false(Z));
  bv1_1 = num(1, 1);
  bv1_0 = num(1, 0);
  if (!optDumpQueries.empty()) dumpFile = fopen(optDumpQueries.c_str(), "w");
  layoutGlobals();
  Function* E = M->getFunction(entry);
  if (!E || E->isDeclaration()) fatal("no entry " + entry);
  auto ctors = ctorsList();
  double t0 = now();
  bool complete = true;
  std::string why;
  for (;;) {
    resetPath();
    int endKind = 0;
    try {
      for (Function* C : ctors) {
        pushFrame(C, {}, nullptr);
        while (!frames.empty()) step();
      }
      pushFrame(E, {}, nullptr);
      while (!frames.empty()) step();
    } catch (PathEnd& pe) { endKind = pe.kind; }
    nPaths++;
    if (pathSteps > maxSteps) maxSteps = pathSteps;
    if (endKind == 0) {
      nCompleted++;
      if (samples.size() < optSamples && (nCompleted & (nCompleted - 1)) == 0) {
        std::vector<std::pair<unsigned, u64>> sm;
        for (auto& n : nds) sm.push_back({n.w, n.e && curModel ? modelU64(curModel, n.e) : 0});
        samples.push_back(sm);
      }
    }
    else if (endKind == 1) nInfeasible++;
    else nViolPaths++;
    if (stopAll) {
      complete = false;
      why = "stopped after the maximum number of violations";
      break;
    }
    if (!backtrack()) break;
    if (now() - t0 > optTime) {
      complete = false;
      why = "time limit";
      break;
    }
    if (nPaths >= optMaxPaths) {
      complete = false;
      why = "path limit";
      break;
    }
  }
  double el = now() - t0;
  if (dumpFile) fclose(dumpFile);
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"entry\":\"%s\",\"complete\":%s,\"why\":\"%s\",\"paths\":%llu,\"completed\":%llu,\"infeasible\":%llu,\"violating\":%llu,\"instructions\":%llu,\"longest_path\":%llu,\n",
          entry.c_str(), complete ? "true" : "false", why.c_str(), (unsigned long long)nPaths, (unsigned long long)nCompleted, (unsigned long long)nInfeasible,
          (unsigned long long)nViolPaths, (unsigned long long)nInstr, (unsigned long long)maxSteps);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"assert_queries\":%llu,\"assert_proved\":%llu,\"assert_concrete\":%llu,\n",
          (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, tSolver, el, (unsigned long long)nAssertQueries,
          (unsigned long long)nAssertProved, (unsigned long long)nAssertConcrete);
  fprintf(o, "\"asserts\":{");
  bool first = true;
  for (auto& p : assertCount) fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second), first = false;
  fprintf(o, "},\n\"covers\":[");
  first = true;
  for (auto& p : covers) fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p).c_str()), first = false;
  fprintf(o, "],\n\"functions\":[");
  first = true;
  for (auto& p : finfo) {
    if (!p.second->executed) continue;
    auto* sp = p.first->getSubprogram();
    if (!sp) continue;
    std::string fn = sp->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = (sp->getDirectory() + "/" + fn).str();
    if (fn.compare(0, optRepoPrefix.size(), optRepoPrefix) != 0) continue;
    fprintf(o, "%s\"%s:%u %s\"", first ? "" : ",", jesc(fn.substr(optRepoPrefix.size())).c_str(), sp->getLine(), jesc(sp->getName().str()).c_str());
    first = false;
  }
  fprintf(o, "],\n\"lines\":[");
  first = true;
  for (size_t i = 0; i < covNames.size(); i++)
    if (covHit[i]) fprintf(o, "%s\"%s:%u\"", first ? "" : ",", jesc(covNames[i].first.substr(optRepoPrefix.size())).c_str(), covNames[i].second), first = false;
  fprintf(o, "],\n\"samples\":[");
  for (size_t k = 0; k < samples.size(); k++) {
    fprintf(o, "%s[", k ? "," : "");
    for (size_t i = 0; i < samples[k].size(); i++) fprintf(o, "%s[%u,%llu]", i ? "," : "", samples[k][i].first, (unsigned long long)samples[k][i].second);
    fprintf(o, "]");
  }
  fprintf(o, "],\n\"violations\":[");
  first = true;
  for (auto& v : viols) {
    fprintf(o, "%s{\"kind\":\"%s\",\"label\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"nondet\":[", first ? "" : ",\n", jesc(v.kind).c_str(), jesc(v.label).c_str(), jesc(v.loc).c_str(), jesc(v.stack).c_str());
    for (size_t i = 0; i < v.nd.size(); i++) fprintf(o, "%s[\"%s\",%u,%llu]", i ? "," : "", jesc(v.nd[i].first).c_str(), v.ndw[i], (unsigned long long)v.nd[i].second);
    fprintf(o, "]}");
    first = false;
  }
  fprintf(o, "]}\n");
  fclose(o);
  fflush(stdout);
  _exit(viols.empty() ? (complete ? 0 : 2) : 1);
}
