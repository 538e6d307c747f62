// Symbolic executor for whole-program LLVM IR (textual). Every path keeps a path condition over the
// symbolic inputs; Z3 decides each branch, assumption and check. Paths are explored by fork().
#include "ir.h"
#include <atomic>
#include <map>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

// ------------------------------------------------------------------ shared state
struct Label { char name[120]; std::atomic<u64> hits, viol; int kind; };
struct Shared {
  std::atomic<int> tokens, lock, nlabels, nviol, err, stop;
  std::atomic<u64> paths, infeasible, queries, sat, unsat, solverNs, instrs, forks, checks, blockedOk, maxDepth, limitPaths, unexplored;
  char errmsg[4096];
  Label labels[1024];
  std::atomic<u8> cov[1 << 20];
  // addresses that several threads use atomically, not all of them only reading
  std::atomic<u64> conflicts[1 << 16];
  std::atomic<u64> nconflicts, newConflicts, threadBudget, maxPoints;
};
static Shared *sh;
static string outdir, harness;
static u64 deadline = 0, pathLimit = 300000000ull;
static int maxViol = 12;
static u64 nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
struct Lock {
  Lock() { int z; do { z = 0; } while (!sh->lock.compare_exchange_weak(z, 1)); }
  ~Lock() { sh->lock = 0; }
};
static u64 instrs = 0, flushed = 0;
// A trial run follows one path only, to find out which functions to parse before exploring (each forked process would parse them again).
static int trial = 0;
static u64 trialSeed = 1;
static bool ownToken = false; // this process took a token that it must give back
[[noreturn]] static void finish(int rc) {
  if (trial) _exit(0);
  sh->instrs += instrs - flushed;
  if (ownToken) sh->tokens++;
  _exit(rc);
}
static string backtrace();
void fatal(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (!sh) { fprintf(stderr, "symex: %s\n", b); exit(3); }
  if (trial) finish(0);
  string bt = backtrace();
  { Lock l; if (!sh->err) { sh->err = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "%s\n%s", b, bt.c_str()); } }
  finish(3);
}
enum { L_CHECK, L_REACH };
static Label *label(const string &n, int kind) {
  Lock l;
  for (int i = 0; i < sh->nlabels; i++) if (sh->labels[i].kind == kind && n == sh->labels[i].name) return &sh->labels[i];
  int i = sh->nlabels;
  if (i >= 1024) { sh->lock = 0; fatal("too many labels"); }
  snprintf(sh->labels[i].name, sizeof sh->labels[i].name, "%s", n.c_str());
  sh->labels[i].kind = kind;
  sh->nlabels++;
  return &sh->labels[i];
}

// ------------------------------------------------------------------ state
static Module M;
static Exprs X;
static vector<u128> model;
static vector<const Ex *> pc;
static std::unordered_map<const Ex *, bool> known;
static Z3_solver solver;
struct Input { const Ex *e; };
static vector<const Ex *> inputs; // creation order
static vector<string> inputNames;
static u64 depth = 0;
static bool pathViolated = false;

static const u64 BASE = 0x2000000000ull, GSZ = 256ull << 20, HSZ = 3ull << 30, SSZ = 256ull << 20, TOTAL = GSZ + HSZ + SSZ;
static const u64 HEAP = BASE + GSZ, STK = HEAP + HSZ, END = BASE + TOTAL;
static u64 gtop = BASE + 4096, htop = HEAP, sp = STK;
static u8 *gflag;
static std::unordered_map<u64, const Ex *> smem;
static V *vstack, *vtop, *vend, *vend0;
struct Frame { Func *f; int bb, ip; V *r; u64 sp; const Ins *ci; };
static vector<Frame> fr;
static u64 errnoAddr = 0, vclock = 1000ull * 1000000000ull;
static V lpad[2];
// Threads run one at a time. Control passes when a thread waits, ends or yields, and, as often as the harness allows, before
// any atomic operation (symbolic: the number of the operation, counted while another thread could run).
enum { T_RUN, T_FUTEX, T_JOIN, T_DONE };
struct Thread {
  vector<Frame> fr;
  u64 sp = 0, stackEnd = 0, errnoAddr = 0, htop = 0, hend = 0, tls = 0, wait = 0, until = 0, order = 0;
  V *vtop = 0, *vend = 0, lp[2] = {}, *slot = 0;
  int st = T_RUN;
  bool skip = false;
  vector<std::pair<u64, u64>> dtors;
};
static vector<Thread> th(1);
static int cur = 0;
static u64 stackEnd = STK + SSZ / 2, tlsBase = 0, tlsEnd = 0, points = 0, waits = 0, budget = 0;
static const int MAXTH = 8;
static u64 hend = HEAP + HSZ / 2;
static vector<u8> tlsImage;
static const Ex *nextPreempt = 0;
static u64 roundCap = 0, preempted = 0; // this round's bound on interruptions, and how many there were
static std::unordered_map<u64, std::pair<u8, u8>> users; // address -> threads that read / wrote it
static bool isConflict(u64 a) {
  for (u64 h = (a * 0x9E3779B97F4A7C15ull) >> 48;; h = (h + 1) & 0xffff) { u64 v = sh->conflicts[h]; if (v == a) return true; if (!v) return false; }
}
static void addConflict(u64 a) {
  for (u64 h = (a * 0x9E3779B97F4A7C15ull) >> 48;; h = (h + 1) & 0xffff) {
    u64 v = 0;
    if (sh->conflicts[h].compare_exchange_strong(v, a)) { sh->newConflicts++; if (++sh->nconflicts > 50000) fatal("too many shared addresses"); return; }
    if (v == a) return;
  }
}

static string backtrace() {
  string s;
  for (int i = (int)fr.size() - 1, k = 0; i >= 0 && k < 14; i--, k++) s += "    " + fr[i].f->name.substr(0, 180) + "\n";
  return s;
}
// ------------------------------------------------------------------ solver
static bool check(const Ex *extra) {
  if (deadline && nowNs() > deadline) { sh->stop = 1; }
  if (sh->stop) { sh->unexplored++; finish(0); }
  u64 t = nowNs();
  Z3_solver_push(X.z, solver);
  Z3_solver_assert(X.z, solver, X.tob(extra));
  Z3_lbool r = Z3_solver_check(X.z, solver);
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(X.z, solver);
    Z3_model_inc_ref(X.z, m);
    vector<u128> nm(X.vars.size(), 0);
    for (size_t i = 0; i < nm.size(); i++) {
      Z3_ast v = 0;
      if (i < model.size()) nm[i] = model[i];
      Z3_func_decl d = Z3_get_app_decl(X.z, Z3_to_app(X.z, X.toz(X.varex[i])));
      v = Z3_model_get_const_interp(X.z, m, d);
      u64 u;
      if (v && Z3_get_numeral_uint64(X.z, v, &u)) nm[i] = u;
    }
    Z3_model_dec_ref(X.z, m);
    model = nm;
  }
  Z3_solver_pop(X.z, solver, 1);
  sh->solverNs += nowNs() - t;
  sh->queries++;
  if (r == Z3_L_UNDEF) fatal("solver returned unknown");
  if (r == Z3_L_TRUE) sh->sat++; else sh->unsat++;
  return r == Z3_L_TRUE;
}
static void addpc(const Ex *e) {
  if (e->op == O_CONST) return;
  pc.push_back(e);
  known[e] = true;
  known[X.notb(e)] = false;
  Z3_solver_assert(X.z, solver, X.tob(e));
}
static bool evalb(const Ex *e) { X.newEval(); return X.eval(e, model) & 1; }
// explore the alternative in a forked process; returns true in the process that takes the alternative
static bool forkAlt() {
  sh->forks++;
  depth++;
  { u64 d = sh->maxDepth; while (d < depth && !sh->maxDepth.compare_exchange_weak(d, depth)) {} }
  int t = sh->tokens;
  bool got = false;
  while (t > 0 && !(got = sh->tokens.compare_exchange_weak(t, t - 1))) {}
  pid_t p = fork();
  if (p < 0) fatal("fork: %s", strerror(errno));
  if (p == 0) { flushed = instrs; ownToken = got; return true; }
  if (!got) {
    int st;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) fatal("waitpid");
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { if (!sh->err) fatal("child process died (status %x)", st); finish(3); }
  }
  return false;
}
static bool decide(const Ex *e) {
  if (e->op == O_CONST) return e->k & 1;
  auto it = known.find(e);
  if (it != known.end()) return it->second;
  bool v = evalb(e);
  if (trial) return v;
  const Ex *same = v ? e : X.notb(e), *other = v ? X.notb(e) : e;
  vector<u128> keep = model;
  if (check(other)) {
    if (forkAlt()) { addpc(other); return !v; }
    model = keep;
    addpc(same);
  } else { known[same] = true; known[other] = false; }
  return v;
}
static u128 concretize(const Ex *e) {
  if (e->op == O_CONST) return e->k;
  for (;;) {
    X.newEval();
    u128 v = X.eval(e, model);
    if (decide(X.bin(O_EQ, e, X.cst(v, e->w)))) return v;
  }
}
static inline u128 conc(const V &v) { return v.s ? concretize(v.s) : v.v; }

static void violation(const string &lab, const vector<u128> &m) {
  if (trial) finish(0);
  Label *l = label(lab, L_CHECK);
  pathViolated = true;
  u64 n = l->viol++;
  if (n >= 2) return;
  int id = sh->nviol++;
  string fn = outdir + "/viol-" + std::to_string(id) + ".txt";
  FILE *f = fopen(fn.c_str(), "w");
  fprintf(f, "label %s\n", lab.c_str());
  for (size_t i = 0; i < inputs.size(); i++) {
    X.newEval();
    fprintf(f, "in %s %llu\n", inputNames[i].c_str(), inputs[i] == nextPreempt ? 0xffffffffull : (unsigned long long)X.eval(inputs[i], m));
  }
  string bt = backtrace();
  fprintf(f, "backtrace\n%s", bt.c_str());
  fclose(f);
  if (sh->nviol >= maxViol) sh->stop = 1;
}
static u64 traceHash = 14695981039346656037ull, traceLen = 0;
static void trace(char kind, const string &l) {
  traceLen++;
  auto mix = [&](u8 c) { traceHash = (traceHash ^ c) * 1099511628211ull; };
  mix(kind);
  for (char c : l) mix((u8)c);
}
// A completed path. The solver's model of some of them is written out, with the sequence of checks and
// reach labels passed, so that the run can be repeated natively and compared.
[[noreturn]] static void endPath(bool sample = true) {
  if (trial) finish(0);
  u64 n = ++sh->paths;
  if (sample && !pathViolated && (n & (n - 1)) == 0) {
    FILE *f = fopen((outdir + "/pass-" + std::to_string(n) + ".txt").c_str(), "w");
    for (size_t i = 0; i < inputs.size(); i++) {
      X.newEval();
      fprintf(f, "in %s %llu\n", inputNames[i].c_str(), inputs[i] == nextPreempt ? 0xffffffffull : (unsigned long long)X.eval(inputs[i], model));
    }
    fprintf(f, "trace %llu %llu\n", (unsigned long long)traceHash, (unsigned long long)traceLen);
    fclose(f);
  }
  finish(0);
}
[[noreturn]] static void dieViolation(const string &lab) { violation(lab, model); endPath(); }

// ------------------------------------------------------------------ memory
static inline void chk(u64 a, u64 n) {
  if (__builtin_expect(a < BASE || a + n > END || a + n < a, 0)) dieViolation("memory: invalid access");
}
static inline bool flagged(u64 a, u64 n) {
  u64 g = (a - BASE) >> 6, h = (a + n - 1 - BASE) >> 6;
  for (; g <= h; g++) if (gflag[g]) return true;
  return false;
}
static void clearSym(u64 a, u64 n) {
  if (!n || !flagged(a, n)) return;
  if (n > smem.size() * 2) { for (auto it = smem.begin(); it != smem.end();) if (it->first >= a && it->first < a + n) it = smem.erase(it); else ++it; return; }
  for (u64 i = 0; i < n; i++) smem.erase(a + i);
}
static inline V load(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  chk(a, n);
  u128 v = 0;
  if (!flagged(a, n)) {
    switch (n) {
    case 1: v = *(u8 *)a; break;
    case 4: v = *(u32 *)a; break;
    case 8: v = *(u64 *)a; break;
    default: memcpy(&v, (void *)a, n);
    }
    if (w & 7) v &= maskw(w);
    return {v, 0};
  }
  memcpy(&v, (void *)a, n);
  bool any = false;
  for (unsigned i = 0; i < n; i++) if (smem.count(a + i)) any = true;
  if (!any) return {v & maskw(w), 0};
  const Ex *e = 0;
  for (unsigned i = 0; i < n; i++) {
    auto it = smem.find(a + i);
    const Ex *b = it != smem.end() ? it->second : X.cst((u8)(v >> (8 * i)), 8);
    e = e ? X.concat(b, e) : b;
  }
  if (e->w != w) e = X.extract(e, 0, w);
  if (e->op == O_CONST) return {e->k, 0};
  return {0, e};
}
static inline void store(u64 a, unsigned w, const V &x) {
  unsigned n = (w + 7) / 8;
  chk(a, n);
  if (!x.s) {
    if (flagged(a, n)) clearSym(a, n);
    switch (n) {
    case 1: *(u8 *)a = (u8)x.v; break;
    case 4: *(u32 *)a = (u32)x.v; break;
    case 8: *(u64 *)a = (u64)x.v; break;
    default: memcpy((void *)a, &x.v, n);
    }
    return;
  }
  const Ex *e = x.s;
  if (e->w != n * 8) e = X.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    const Ex *b = X.extract(e, 8 * i, 8);
    if (b->op == O_CONST) { smem.erase(a + i); *(u8 *)(a + i) = (u8)b->k; }
    else { smem[a + i] = b; *(u8 *)(a + i) = 0xA5; gflag[(a + i - BASE) >> 6] = 1; }
  }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  chk(d, n); chk(s, n);
  if (!flagged(s, n)) { clearSym(d, n); memmove((void *)d, (void *)s, n); return; }
  vector<std::pair<u64, const Ex *>> t;
  for (u64 i = 0; i < n; i++) { auto it = smem.find(s + i); if (it != smem.end()) t.push_back({i, it->second}); }
  clearSym(d, n);
  memmove((void *)d, (void *)s, n);
  for (auto &p : t) { smem[d + p.first] = p.second; gflag[(d + p.first - BASE) >> 6] = 1; }
}
static u64 halloc(u64 n, u64 al) {
  if (al < 16) al = 16;
  u64 a = (htop + al - 1) / al * al;
  // header word below the block keeps its size for realloc
  a = (a + 16 + al - 1) / al * al;
  if (n > (1ull << 28) || a + n > hend) return 0;
  *(u64 *)(a - 16) = n;
  htop = a + (n ? n : 1);
  return a;
}
static string str(u64 p, u64 n) { chk(p, n ? n : 1); return string((char *)p, n); }

// ------------------------------------------------------------------ builtins
enum BI {
  B_NONE, B_NOP, B_UNSUP, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN,
  B_RAISE, B_RET0, B_RETM1, B_SYSCALL, B_ERRNO, B_ABORT, B_CLOCK, B_GETRANDOM, B_WRITE, B_GETTID, B_SYSCONF, B_PSELF, B_KEYCREATE,
  B_BT, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_UADDSAT, B_USUBSAT, B_SADDSAT, B_SSUBSAT,
  B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_FSHL, B_FSHR, B_CTTZ, B_CTLZ, B_CTPOP, B_BSWAP, B_BITREV, B_UCMP, B_SCMP,
  B_TLS, B_EXPECT, B_RED_ADD, B_RED_AND, B_RED_OR, B_RED_XOR, B_RED_UMAX, B_RED_UMIN, B_RED_MUL, B_STACKSAVE, B_STACKRESTORE, B_ASSUME, B_OBJSIZE, B_MEMCHR, B_FLOAT,
  B_SYM_U64, B_SYM_CHOOSE, B_SYM_BYTES, B_SYM_ASSUME, B_SYM_CHECK, B_SYM_REACH, B_SYM_BLOCKOK, B_SYM_DONE, B_PTHREAD_CREATE, B_JOIN, B_YIELD, B_ATEXIT, B_SYM_THREADS
};
static int builtinOf(const string &n) {
  static const std::unordered_map<string, int> ex = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_MEMALIGN},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"bcmp", B_MEMCMP}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR},
    {"_Unwind_RaiseException", B_RAISE}, {"_Unwind_DeleteException", B_NOP}, {"_Unwind_Backtrace", B_BT}, {"_Unwind_GetIP", B_RET0},
    {"syscall", B_SYSCALL}, {"__errno_location", B_ERRNO}, {"abort", B_ABORT}, {"clock_gettime", B_CLOCK}, {"getrandom", B_GETRANDOM},
    {"write", B_WRITE}, {"writev", B_WRITE}, {"getenv", B_RET0}, {"gettid", B_GETTID}, {"sysconf", B_SYSCONF}, {"pthread_self", B_PSELF},
    {"pthread_key_create", B_KEYCREATE}, {"pthread_key_delete", B_RET0}, {"pthread_setspecific", B_RET0}, {"pthread_getspecific", B_RET0},
    {"__cxa_thread_atexit_impl", B_ATEXIT}, {"dl_iterate_phdr", B_RET0}, {"sched_yield", B_YIELD}, {"pthread_join", B_JOIN}, {"pthread_detach", B_RET0}, {"dlsym", B_RET0}, {"pthread_setname_np", B_RET0}, {"prctl", B_RET0}, {"sym_threads", B_SYM_THREADS}, {"getauxval", B_RET0}, {"getcwd", B_RET0}, {"munmap", B_RET0}, {"close", B_RET0},
    {"open64", B_RETM1}, {"open", B_RETM1}, {"readlink", B_RETM1}, {"sigaltstack", B_RET0}, {"sched_getaffinity", B_RETM1}, {"pthread_create", B_PTHREAD_CREATE},
    {"pthread_attr_init", B_RET0}, {"pthread_attr_destroy", B_RET0}, {"pthread_attr_setstacksize", B_RET0},
    {"sym_u64", B_SYM_U64}, {"sym_choose", B_SYM_CHOOSE}, {"sym_bytes", B_SYM_BYTES}, {"sym_assume", B_SYM_ASSUME}, {"sym_check", B_SYM_CHECK},
    {"sym_reach", B_SYM_REACH}, {"sym_block_ok", B_SYM_BLOCKOK}, {"sym_note", B_NOP}, {"sym_done", B_SYM_DONE}};
  auto it = ex.find(n);
  if (it != ex.end()) return it->second;
  static const vector<std::pair<string, int>> pre = {
    {"llvm.lifetime.", B_NOP}, {"llvm.assume", B_ASSUME}, {"llvm.experimental.noalias", B_NOP}, {"llvm.dbg.", B_NOP}, {"llvm.x86.sse2.pause", B_YIELD}, {"llvm.prefetch", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.invariant", B_NOP},
    {"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMCPY}, {"llvm.memset", B_MEMSET}, {"llvm.trap", B_ABORT}, {"llvm.ubsantrap", B_ABORT},
    {"llvm.umin.", B_UMIN}, {"llvm.umax.", B_UMAX}, {"llvm.smin.", B_SMIN}, {"llvm.smax.", B_SMAX}, {"llvm.abs.", B_ABS},
    {"llvm.uadd.sat", B_UADDSAT}, {"llvm.usub.sat", B_USUBSAT}, {"llvm.sadd.sat", B_SADDSAT}, {"llvm.ssub.sat", B_SSUBSAT},
    {"llvm.uadd.with", B_UADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.smul.with", B_SMULO},
    {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR}, {"llvm.cttz", B_CTTZ}, {"llvm.ctlz", B_CTLZ}, {"llvm.ctpop", B_CTPOP}, {"llvm.bswap", B_BSWAP}, {"llvm.bitreverse", B_BITREV},
    {"llvm.ucmp", B_UCMP}, {"llvm.scmp", B_SCMP}, {"llvm.threadlocal.address", B_TLS}, {"llvm.is.constant", B_RET0}, {"llvm.expect", B_EXPECT}, {"llvm.launder", B_EXPECT}, {"llvm.strip", B_EXPECT},
    {"llvm.vector.reduce.add", B_RED_ADD}, {"llvm.vector.reduce.and", B_RED_AND}, {"llvm.vector.reduce.or", B_RED_OR}, {"llvm.vector.reduce.xor", B_RED_XOR}, {"llvm.vector.reduce.umax", B_RED_UMAX}, {"llvm.vector.reduce.umin", B_RED_UMIN}, {"llvm.vector.reduce.mul", B_RED_MUL},
    {"llvm.stacksave", B_STACKSAVE}, {"llvm.stackrestore", B_STACKRESTORE}, {"llvm.objectsize", B_OBJSIZE},
    {"llvm.fabs", B_FLOAT}, {"llvm.floor", B_FLOAT}, {"llvm.ceil", B_FLOAT}, {"llvm.round", B_FLOAT}, {"llvm.trunc.f", B_FLOAT}, {"llvm.rint", B_FLOAT}, {"llvm.fptoui.sat", B_FLOAT}, {"llvm.fptosi.sat", B_FLOAT}, {"llvm.fmuladd", B_FLOAT}, {"llvm.maxnum", B_FLOAT}, {"llvm.minnum", B_FLOAT}, {"llvm.maximumnum", B_FLOAT}, {"llvm.minimumnum", B_FLOAT}, {"llvm.pow.f", B_FLOAT}};
  for (auto &p : pre) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
  return B_UNSUP;
}

// ------------------------------------------------------------------ interpreter
static inline V &reg(Frame &f, int op) { return op >= 0 ? f.r[op] : f.f->consts[~op]; }
static inline const Ex *ex(const V &v, unsigned w) { return v.s ? v.s : X.cst(v.v, w); }
static inline V mkv(const Ex *e) { if (e->op == O_CONST) return {e->k, 0}; return {0, e}; }
static V binop(Op op, unsigned w, const V &a, const V &b) {
  if (!a.s && !b.s) {
    if (w <= 64) {
      u64 x = (u64)a.v, y = (u64)b.v, m = w == 64 ? ~0ull : (1ull << w) - 1;
      switch (op) {
      case O_ADD: return {(x + y) & m, 0};
      case O_SUB: return {(x - y) & m, 0};
      case O_MUL: return {(x * y) & m, 0};
      case O_AND: return {x & y, 0};
      case O_OR: return {x | y, 0};
      case O_XOR: return {x ^ y, 0};
      case O_SHL: return {y >= w ? 0 : (x << y) & m, 0};
      case O_LSHR: return {y >= w ? 0 : x >> y, 0};
      default: break;
      }
    }
    if ((op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) && b.v == 0) dieViolation("division by zero");
    return {foldop(op, w, a.v, b.v, w), 0};
  }
  return mkv(X.bin(op, ex(a, w), ex(b, w)));
}
static V icmp(Pred p, unsigned w, const V &a, const V &b) {
  if (!a.s && !b.s) {
    bool r;
    switch (p) {
    case P_EQ: r = a.v == b.v; break;
    case P_NE: r = a.v != b.v; break;
    case P_UGT: r = a.v > b.v; break;
    case P_UGE: r = a.v >= b.v; break;
    case P_ULT: r = a.v < b.v; break;
    case P_ULE: r = a.v <= b.v; break;
    case P_SGT: r = sgn(a.v, w) > sgn(b.v, w); break;
    case P_SGE: r = sgn(a.v, w) >= sgn(b.v, w); break;
    case P_SLT: r = sgn(a.v, w) < sgn(b.v, w); break;
    default: r = sgn(a.v, w) <= sgn(b.v, w); break;
    }
    return {r, 0};
  }
  const Ex *x = ex(a, w), *y = ex(b, w);
  switch (p) {
  case P_EQ: return mkv(X.bin(O_EQ, x, y));
  case P_NE: return mkv(X.notb(X.bin(O_EQ, x, y)));
  case P_UGT: return mkv(X.bin(O_ULT, y, x));
  case P_UGE: return mkv(X.bin(O_ULE, y, x));
  case P_ULT: return mkv(X.bin(O_ULT, x, y));
  case P_ULE: return mkv(X.bin(O_ULE, x, y));
  case P_SGT: return mkv(X.bin(O_SLT, y, x));
  case P_SGE: return mkv(X.bin(O_SLE, y, x));
  case P_SLT: return mkv(X.bin(O_SLT, x, y));
  default: return mkv(X.bin(O_SLE, x, y));
  }
}
static V selectv(const V &c, const V &a, const V &b, unsigned w) {
  if (!c.s) return c.v & 1 ? a : b;
  auto it = known.find(c.s);
  if (it != known.end()) return it->second ? a : b;
  return mkv(X.ite(c.s, ex(a, w), ex(b, w)));
}
static double todbl(u128 v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
static u128 frdbl(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

static void pushFrame(Func *f, const vector<V> &args) {
  if (!f->parsed) { Parser p(M); p.parse(f); }
  if (f->id < (int)sizeof(sh->cov)) sh->cov[f->id] = 1;
  Frame n;
  n.f = f; n.bb = 0; n.ip = 0; n.r = vtop; n.sp = sp; n.ci = 0;
  vtop += f->nslots + 1;
  if (vtop >= vend || fr.size() > 20000) dieViolation("stack overflow");
  size_t k = 0;
  for (size_t i = 0; i < f->params.size(); i++)
    for (int j = 0; j < f->paramSlots[i]; j++) { if (k < args.size()) n.r[f->params[i] + j] = args[k]; k++; }
  fr.push_back(n);
}
static void popFrame() { Frame &f = fr.back(); vtop = f.r; sp = f.sp; fr.pop_back(); }
static vector<V> tmpv;
static inline void takeEdge(Frame &f, int ei) {
  const Edge &e = f.f->edges[ei];
  if (e.copies.size() == 1 && e.copies[0].n == 1) f.r[e.copies[0].dst] = reg(f, e.copies[0].src);
  else if (!e.copies.empty()) {
    tmpv.clear();
    for (auto &c : e.copies) for (int i = 0; i < c.n; i++) tmpv.push_back(c.src >= 0 ? f.r[c.src + i] : f.f->consts[(~c.src) + i]);
    size_t k = 0;
    for (auto &c : e.copies) for (int i = 0; i < c.n; i++) f.r[c.dst + i] = tmpv[k++];
  }
  f.bb = e.bb;
  f.ip = 0;
}
// unwind from the current top frame (whose current instruction is a call or resume)
static void unwind(const V &exc, const V &sel) {
  // search phase: is there any handler?
  bool any = false;
  for (int i = (int)fr.size() - 1; i >= 0; i--) if (fr[i].ci && fr[i].ci->side && fr[i].ci->side->unwind >= 0) { any = true; break; }
  if (!any) dieViolation("panic: escaped the harness");
  lpad[0] = exc; lpad[1] = sel;
  for (;;) {
    Frame &f = fr.back();
    if (f.ci && f.ci->side && f.ci->side->unwind >= 0) { takeEdge(f, f.ci->side->unwind); f.ci = 0; return; }
    popFrame();
  }
}
[[noreturn]] static void blocked(const char *what);
static bool blockOk = false;
static void blocked(const char *what) {
  if (blockOk) { sh->blockedOk++; endPath(false); }
  dieViolation(string("blocked: ") + what);
}
static V freshVar(const string &n, unsigned w) {
  const Ex *e = X.var(n, w);
  model.resize(X.vars.size(), 0);
  inputs.push_back(e);
  inputNames.push_back(n);
  return {0, e};
}
static const Ex *popcnt(const Ex *e, unsigned w) { const Ex *r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(O_ADD, r, X.zext(X.extract(e, i, 1), w)); return r; }

// ------------------------------------------------------------------ threads
static void switchTo(int k);
static void pass(int k) {
  trace('s', std::to_string(k) + "@" + std::to_string(points));
  switchTo(k);
}
static void switchTo(int k) {
  Thread &o = th[cur];
  o.fr.swap(fr);
  o.sp = sp; o.htop = htop; o.hend = hend; o.stackEnd = stackEnd; o.errnoAddr = errnoAddr; o.vtop = vtop; o.vend = vend; o.lp[0] = lpad[0]; o.lp[1] = lpad[1];
  cur = k;
  Thread &n = th[k];
  n.fr.swap(fr);
  sp = n.sp; htop = n.htop; hend = n.hend; stackEnd = n.stackEnd; errnoAddr = n.errnoAddr; vtop = n.vtop; vend = n.vend; lpad[0] = n.lp[0]; lpad[1] = n.lp[1];
}
static bool otherRunnable() { for (int i = 0; i < (int)th.size(); i++) if (i != cur && th[i].st == T_RUN) return true; return false; }
static size_t nextPreemptIx = 0;
static void newPreempt() {
  nextPreempt = 0;
  if (!budget) return;
  nextPreemptIx = X.vars.size();
  nextPreempt = freshVar("preempt", 32).s;
  if (X.vars.size() != nextPreemptIx + 1) fatal("preempt variable");
}
// Which of the threads that can run (other than the current one) goes on: any of them.
static int pickOther() {
  int r[MAXTH], n = 0;
  for (int i = 0; i < (int)th.size(); i++) if (i != cur && th[i].st == T_RUN) r[n++] = i;
  if (n <= 1) return n ? r[0] : -1;
  if (trial) return r[0];
  V v = freshVar("thread", 8);
  addpc(X.bin(O_ULT, v.s, X.cst(n, 8)));
  return r[(int)concretize(v.s)];
}
// The current thread cannot go on.
static void leave() {
  int k = pickOther();
  if (k < 0) { // nobody can run: the earliest timeout passes
    for (int i = 0; i < (int)th.size(); i++)
      if (th[i].st == T_FUTEX && th[i].until && (k < 0 || th[i].until < th[k].until)) k = i;
    if (k < 0) blocked("thread waits forever");
    if (th[k].until > vclock) vclock = th[k].until;
    th[k].st = T_RUN; th[k].until = 0;
    if (th[k].slot) *th[k].slot = {maskw(64), 0};
    *(u32 *)(k == cur ? errnoAddr : th[k].errnoAddr) = 110;
  }
  if (k != cur) pass(k);
}
static void use(u64 a, bool write) {
  auto &u = users[a];
  u8 bit = (u8)(1 << cur);
  (write ? u.second : u.first) |= bit;
  u8 all = u.first | u.second;
  if (u.second && (all & (all - 1)) && !isConflict(a)) addConflict(a);
}
// Before an atomic operation on address a: true if the thread is interrupted here. Interrupting before an operation on an address
// that no other thread uses (or which all only read) is the same as interrupting before the thread's next one. Which addresses are
// used by several threads is collected while exploring; rounds are repeated until one discovers no more of them.
static bool point(u64 a) {
  if (th[cur].skip) { th[cur].skip = false; return false; }
  if (!budget || !otherRunnable()) return false;
  points++;
  if (preempted >= roundCap || !isConflict(a)) return false;
  { u64 d = sh->maxPoints; while (d < points && !sh->maxPoints.compare_exchange_weak(d, points)) {} }
  if (!forkAlt()) return false;
  // nextPreempt is an input nothing is known about, but that it is later than the points passed
  addpc(X.bin(O_EQ, nextPreempt, X.cst(points, 32)));
  model[nextPreemptIx] = points;
  budget--; preempted++;
  int k = pickOther();
  newPreempt();
  th[cur].skip = true;
  fr.back().ip--;
  pass(k);
  return true;
}
#define POINT(write) do { if (__builtin_expect(I.atomic && th.size() > 1, 0)) { u64 pa = (u64)conc(reg(f, I.a)); if (point(pa)) goto interrupted; use(pa, write); } } while (0)
static void complete(Frame &f, const Ins &I, u64 v) {
  if (I.dst >= 0) f.r[I.dst] = {(u128)v & maskw(I.side->retW ? I.side->retW : 64), 0};
  f.ci = 0;
  if (I.side->normal >= 0) takeEdge(f, I.side->normal);
}
// The current thread's function has returned.
static void threadEnds() {
  Thread &t = th[cur];
  if (!t.dtors.empty()) {
    auto d = t.dtors.back(); t.dtors.pop_back();
    Func *c = M.byAddr(d.first);
    if (!c) fatal("thread destructor");
    pushFrame(c, {V{d.second, 0}});
    return;
  }
  t.st = T_DONE;
  for (auto &o : th) if (o.st == T_JOIN && o.wait == (u64)cur) o.st = T_RUN;
  leave();
}

// returns true if control flow changed (frame manipulation done)
static bool builtin(Frame &f, const Ins &I, Func *c, vector<V> &a, vector<V> &out) {
  Side *s = I.side;
  auto A = [&](int i) -> u64 { return (u64)conc(a[i]); };
  auto ret = [&](u64 v) { if (s->retSlots > 0) { unsigned w = s->retW ? s->retW : 64; out.push_back({(u128)v & maskw(w), 0}); } };
  unsigned w = s->argW.empty() ? 0 : s->argW[0];
  int n = s->retSlots;
  switch (c->builtin) {
  case B_NOP: return false;
  case B_ASSUME: return false;
  case B_RET0: for (int i = 0; i < s->retSlots; i++) out.push_back({0, 0}); return false;
  case B_RETM1: ret(~0ull); *(u32 *)errnoAddr = 2; return false;
  case B_MALLOC: ret(halloc(A(0), 16)); return false;
  case B_CALLOC: { u64 k = A(0) * A(1); ret(halloc(k, 16)); return false; }
  case B_MEMALIGN: { u64 p = halloc(A(2), A(1)); store(A(0), 64, {p, 0}); ret(p ? 0 : 12); return false; }
  case B_REALLOC: {
    u64 p = A(0), k = A(1), q = halloc(k, 16);
    if (p && q) { u64 o = *(u64 *)(p - 16); copyMem(q, p, std::min(o, k)); }
    ret(q);
    return false;
  }
  case B_FREE: return false;
  case B_MEMCPY: { u64 k = A(2); copyMem(A(0), A(1), k); if (s->retSlots) out.push_back(a[0]); return false; }
  case B_MEMSET: {
    u64 d = A(0), k = A(2);
    if (k) {
      chk(d, k);
      if (a[1].s) { for (u64 i = 0; i < k; i++) store(d + i, 8, mkv(X.extract(a[1].s, 0, 8))); }
      else { clearSym(d, k); memset((void *)d, (int)a[1].v, k); }
    }
    if (s->retSlots) out.push_back(a[0]);
    return false;
  }
  case B_MEMCMP: {
    u64 p = A(0), q = A(1), k = A(2);
    if (k) { chk(p, k); chk(q, k); }
    if (!k || (!flagged(p, k) && !flagged(q, k))) { int r = k ? memcmp((void *)p, (void *)q, k) : 0; out.push_back({(u128)(u32)r, 0}); return false; }
    const Ex *r = X.cst(0, 32);
    for (u64 i = k; i-- > 0;) {
      const Ex *x = ex(load(p + i, 8), 8), *y = ex(load(q + i, 8), 8);
      r = X.ite(X.bin(O_EQ, x, y), r, X.bin(O_SUB, X.zext(x, 32), X.zext(y, 32)));
    }
    out.push_back(mkv(r));
    return false;
  }
  case B_MEMCHR: {
    u64 p = A(0), ch = A(1) & 255, k = A(2);
    for (u64 i = 0; i < k; i++) if ((u8)conc(load(p + i, 8)) == ch) { ret(p + i); return false; }
    ret(0);
    return false;
  }
  case B_STRLEN: { u64 p = A(0), i = 0; while ((u8)conc(load(p + i, 8))) i++; ret(i); return false; }
  case B_RAISE: unwind(a[0], {1, 0}); return true;
  case B_BT: ret(5); return false;
  case B_ERRNO: ret(errnoAddr); return false;
  case B_ABORT: dieViolation("abort");
  case B_CLOCK: { u64 p = A(1); store(p, 64, {vclock / 1000000000, 0}); store(p + 8, 64, {vclock % 1000000000, 0}); ret(0); return false; }
  case B_GETRANDOM: { u64 p = A(0), k = A(1); for (u64 i = 0; i < k; i++) store(p + i, 8, {(u128)(u8)(i * 37 + 11), 0}); ret(k); return false; }
  case B_WRITE: {
    if (c->name == "write") { if (getenv("SYMEX_STDERR")) { u64 p = A(1), k = A(2); if (::write(2, (void *)p, k)) {} } ret(A(2)); }
    else { u64 t = 0; for (u64 i = 0; i < A(2); i++) { u64 p = *(u64 *)(A(1) + 16 * i), k = *(u64 *)(A(1) + 16 * i + 8); if (getenv("SYMEX_STDERR") && ::write(2, (void *)p, k)) {} t += k; } ret(t); }
    return false;
  }
  case B_GETTID: ret(4242 + cur); return false;
  case B_ATEXIT: if (cur) th[cur].dtors.push_back({A(0), A(1)}); ret(0); return false;
  case B_YIELD: {
    if (!otherRunnable()) { ret(0); return false; }
    complete(f, I, 0);
    int k = cur;
    do k = (k + 1) % (int)th.size(); while (th[k].st != T_RUN);
    pass(k);
    return true;
  }
  case B_JOIN: {
    u64 k = (A(0) - STK) / 16;
    if (k >= th.size()) fatal("join");
    if (th[k].st == T_DONE) { ret(0); return false; }
    th[cur].st = T_JOIN; th[cur].wait = k;
    complete(f, I, 0);
    leave();
    return true;
  }
  case B_SYM_THREADS:
    budget = A(0);
    { u64 d = sh->threadBudget; while (d < budget && !sh->threadBudget.compare_exchange_weak(d, budget)) {} }
    newPreempt();
    return false;
  case B_SYSCONF: ret(A(0) == 30 ? 4096 : A(0) == 84 ? 1 : 4096); return false;
  case B_PSELF: ret(STK + 16 * cur); return false;
  case B_KEYCREATE: { static u32 keys = 1; store(A(0), 32, {keys++, 0}); ret(0); return false; }
  case B_SYSCALL: {
    u64 nr = A(0);
    if (nr == 202) {
      u64 addr = A(1), op = A(2) & 127;
      if (th.size() > 1) { if (point(addr)) return true; use(addr, true); }
      if (op == 0 || op == 9) {
        u64 val = A(3) & 0xffffffff;
        if ((u64)conc(load(addr, 32)) != val) { *(u32 *)errnoAddr = 11; ret(~0ull); return false; }
        u64 to = A(4), t = 0;
        if (to) {
          t = *(u64 *)to * 1000000000ull + *(u64 *)(to + 8);
          if (op == 0) t += vclock;
          if (!otherRunnable() && th.size() < 2) { if (t > vclock) vclock = t; *(u32 *)errnoAddr = 110; ret(~0ull); return false; }
        }
        Thread &me = th[cur];
        me.st = T_FUTEX; me.wait = addr; me.until = to ? std::max<u64>(t, 1) : 0; me.order = ++waits;
        me.slot = I.dst >= 0 ? &f.r[I.dst] : 0;
        complete(f, I, 0);
        leave();
        return true;
      }
      if (op != 1 && op != 10) fatal("unsupported futex operation");
      u64 n = 0, lim = A(3) & 0xffffffff;
      while (n < lim) {
        int k = -1;
        for (int i = 0; i < (int)th.size(); i++) if (th[i].st == T_FUTEX && th[i].wait == addr && (k < 0 || th[i].order < th[k].order)) k = i;
        if (k < 0) break;
        th[k].st = T_RUN; th[k].until = 0; n++;
      }
      ret(n);
      return false;
    }
    if (nr == 318) { u64 p = A(1), k = A(2); for (u64 i = 0; i < k; i++) store(p + i, 8, {(u128)(u8)(i * 37 + 11), 0}); ret(k); return false; }
    if (nr == 186) { ret(4242); return false; }
    fatal("unsupported syscall %llu", (unsigned long long)nr);
  }
  case B_PTHREAD_CREATE: {
    if (th.size() >= (size_t)MAXTH) { ret(11); return false; }
    u64 fn = A(2), arg = A(3);
    int k = (int)th.size();
    Func *g = M.byAddr(fn);
    if (!g) fatal("pthread_create");
    store(A(0), 64, {STK + 16 * (u64)k, 0});
    th.emplace_back();
    Thread &t = th[k];
    u64 ssz = SSZ / 2 / MAXTH;
    V *base = vstack + (vend0 - vstack) / 2;
    size_t vsz = (vend0 - base) / MAXTH;
    t.sp = STK + SSZ / 2 + ssz * (k - 1); t.stackEnd = t.sp + ssz;
    t.vtop = base + vsz * (k - 1); t.vend = t.vtop + vsz - 100000;
    t.htop = HEAP + HSZ / 2 + HSZ / 2 / MAXTH * (k - 1); t.hend = t.htop + HSZ / 2 / MAXTH;
    t.errnoAddr = halloc(64, 64);
    u64 n = tlsEnd - tlsBase, blk = halloc(n + 64, 64);
    memcpy((void *)blk, tlsImage.data(), n);
    t.tls = blk - tlsBase;
    // its first frame
    ret(0);
    int me = cur;
    switchTo(k);
    pushFrame(g, {V{arg, 0}});
    switchTo(me);
    return false;
  }
  case B_TLS: out.push_back({(u128)(A(0) + th[cur].tls), 0}); return false;
  case B_EXPECT: for (int i = 0; i < n; i++) out.push_back(a[i]); return false;
  case B_STACKSAVE: ret(sp); return false;
  case B_STACKRESTORE: return false;
  case B_OBJSIZE: ret(~0ull); return false;
  case B_UMIN: for (int i = 0; i < n; i++) out.push_back(selectv(icmp(P_ULT, w, a[i], a[n + i]), a[i], a[n + i], w)); return false;
  case B_UMAX: for (int i = 0; i < n; i++) out.push_back(selectv(icmp(P_ULT, w, a[i], a[n + i]), a[n + i], a[i], w)); return false;
  case B_SMIN: for (int i = 0; i < n; i++) out.push_back(selectv(icmp(P_SLT, w, a[i], a[n + i]), a[i], a[n + i], w)); return false;
  case B_SMAX: for (int i = 0; i < n; i++) out.push_back(selectv(icmp(P_SLT, w, a[i], a[n + i]), a[n + i], a[i], w)); return false;
  case B_ABS: for (int i = 0; i < n; i++) out.push_back(selectv(icmp(P_SLT, w, a[i], V{0, 0}), binop(O_SUB, w, V{0, 0}, a[i]), a[i], w)); return false;
  case B_UADDSAT: for (int i = 0; i < n; i++) { V r = binop(O_ADD, w, a[i], a[n + i]); out.push_back(selectv(icmp(P_ULT, w, r, a[i]), V{maskw(w), 0}, r, w)); } return false;
  case B_USUBSAT: for (int i = 0; i < n; i++) { V r = binop(O_SUB, w, a[i], a[n + i]); out.push_back(selectv(icmp(P_ULT, w, a[i], a[n + i]), V{0, 0}, r, w)); } return false;
  case B_UADDO: { V r = binop(O_ADD, w, a[0], a[1]); out.push_back(r); out.push_back(icmp(P_ULT, w, r, a[0])); return false; }
  case B_USUBO: { V r = binop(O_SUB, w, a[0], a[1]); out.push_back(r); out.push_back(icmp(P_ULT, w, a[0], a[1])); return false; }
  case B_UMULO: {
    if (w > 64) fatal("umulo 128");
    if (!a[0].s && !a[1].s) { u128 r = a[0].v * a[1].v; out.push_back({r & maskw(w), 0}); out.push_back({r > maskw(w), 0}); return false; }
    const Ex *r = X.bin(O_MUL, X.zext(ex(a[0], w), 2 * w), X.zext(ex(a[1], w), 2 * w));
    out.push_back(mkv(X.extract(r, 0, w)));
    out.push_back(mkv(X.notb(X.bin(O_EQ, X.extract(r, w, w), X.cst(0, w)))));
    return false;
  }
  case B_SADDO: case B_SSUBO: case B_SMULO: {
    if (w > 64) fatal("s*o 128");
    unsigned W = 2 * w;
    Op op = c->builtin == B_SADDO ? O_ADD : c->builtin == B_SSUBO ? O_SUB : O_MUL;
    const Ex *r = X.bin(op, X.sext(ex(a[0], w), W), X.sext(ex(a[1], w), W));
    out.push_back(mkv(X.extract(r, 0, w)));
    out.push_back(mkv(X.notb(X.bin(O_EQ, r, X.sext(X.extract(r, 0, w), W)))));
    return false;
  }
  case B_FSHL: case B_FSHR: {
    for (int i = 0; i < n; i++) {
      u64 sh_ = (u64)(conc(a[2 * n + i]) % w);
      if (c->builtin == B_FSHR) sh_ = (w - sh_) % w, sh_ = sh_;
      // fshl: (a << s) | (b >> (w-s)); fshr by k equals fshl by w-k except k==0 gives b
      bool zero = (conc(a[2 * n + i]) % w) == 0;
      if (zero) { out.push_back(c->builtin == B_FSHL ? a[i] : a[n + i]); continue; }
      out.push_back(binop(O_OR, w, binop(O_SHL, w, a[i], V{sh_, 0}), binop(O_LSHR, w, a[n + i], V{w - sh_, 0})));
    }
    return false;
  }
  case B_CTPOP: for (int i = 0; i < n; i++) { if (!a[i].s) out.push_back({(u128)(__builtin_popcountll((u64)a[i].v) + __builtin_popcountll((u64)(a[i].v >> 64))), 0}); else out.push_back(mkv(popcnt(a[i].s, w))); } return false;
  case B_CTTZ: case B_CTLZ:
    for (int i = 0; i < n; i++) {
      bool tz = c->builtin == B_CTTZ;
      if (!a[i].s) { u64 k = 0; while (k < w && !((a[i].v >> (tz ? k : w - 1 - k)) & 1)) k++; out.push_back({k, 0}); }
      else {
        const Ex *r = X.cst(w, w);
        for (unsigned k = w; k-- > 0;) { unsigned bit = tz ? k : w - 1 - k; r = X.ite(X.extract(a[i].s, bit, 1), X.cst(k, w), r); }
        out.push_back(mkv(r));
      }
    }
    return false;
  case B_BSWAP: for (int i = 0; i < n; i++) {
      if (!a[i].s) { u128 r = 0; for (unsigned k = 0; k < w / 8; k++) r = (r << 8) | ((a[i].v >> (8 * k)) & 255); out.push_back({r, 0}); }
      else { const Ex *r = 0; for (unsigned k = 0; k < w / 8; k++) { const Ex *b = X.extract(a[i].s, 8 * k, 8); r = r ? X.concat(r, b) : b; } out.push_back(mkv(r)); }
    } return false;
  case B_BITREV: for (int i = 0; i < n; i++) { u128 v = conc(a[i]), r = 0; for (unsigned k = 0; k < w; k++) r = (r << 1) | ((v >> k) & 1); out.push_back({r, 0}); } return false;
  case B_UCMP: case B_SCMP: {
    bool u = c->builtin == B_UCMP;
    unsigned rw = s->retW;
    V lt = icmp(u ? P_ULT : P_SLT, w, a[0], a[1]), eq = icmp(P_EQ, w, a[0], a[1]);
    out.push_back(selectv(lt, V{maskw(rw), 0}, selectv(eq, V{0, 0}, V{1, 0}, rw), rw));
    return false;
  }
  case B_RED_ADD: case B_RED_AND: case B_RED_OR: case B_RED_XOR: case B_RED_MUL: case B_RED_UMAX: case B_RED_UMIN: {
    V r = a[0];
    for (int i = 1; i < s->argSlots[0]; i++) {
      switch (c->builtin) {
      case B_RED_ADD: r = binop(O_ADD, w, r, a[i]); break;
      case B_RED_AND: r = binop(O_AND, w, r, a[i]); break;
      case B_RED_OR: r = binop(O_OR, w, r, a[i]); break;
      case B_RED_XOR: r = binop(O_XOR, w, r, a[i]); break;
      case B_RED_MUL: r = binop(O_MUL, w, r, a[i]); break;
      case B_RED_UMAX: r = selectv(icmp(P_ULT, w, r, a[i]), a[i], r, w); break;
      default: r = selectv(icmp(P_ULT, w, r, a[i]), r, a[i], w);
      }
    }
    out.push_back(r);
    return false;
  }
  case B_FLOAT: {
    double x = todbl(conc(a[0]), w);
    const string &nm = c->name;
    if (nm.find("fptoui.sat") != string::npos) { double mx = (double)maskw(s->retW); u64 r = !(x > 0) ? 0 : x >= mx ? (u64)maskw(s->retW) : (u64)x; ret(r); return false; }
    if (nm.find("fptosi.sat") != string::npos) { i64 r = x != x ? 0 : x >= 9.2e18 ? INT64_MAX : x <= -9.2e18 ? INT64_MIN : (i64)x; ret((u64)r); return false; }
    double y = a.size() > 1 ? todbl(conc(a[1]), w) : 0;
    double r = nm.find("fabs") != string::npos ? __builtin_fabs(x) : nm.find("floor") != string::npos ? __builtin_floor(x) : nm.find("ceil") != string::npos ? __builtin_ceil(x) : nm.find("round") != string::npos ? __builtin_round(x)
      : nm.find("trunc") != string::npos ? __builtin_trunc(x) : nm.find("rint") != string::npos ? __builtin_rint(x) : nm.find("maxnum") != string::npos ? __builtin_fmax(x, y) : nm.find("minnum") != string::npos || nm.find("minimumnum") != string::npos ? __builtin_fmin(x, y)
      : nm.find("maximumnum") != string::npos ? __builtin_fmax(x, y) : nm.find("pow") != string::npos ? __builtin_pow(x, y) : 0;
    if (nm.find("fmuladd") != string::npos) r = x * y + todbl(conc(a[2]), w);
    out.push_back({frdbl(r, w), 0});
    return false;
  }
  case B_SYM_U64: out.push_back(freshVar(str(A(0), A(1)), 64)); return false;
  case B_SYM_CHOOSE: {
    u64 k = A(0);
    if (k > 255) fatal("choose > 255");
    if (k <= 1) { // still an input so that replay stays aligned
      inputs.push_back(X.cst(0, 8)); inputNames.push_back(str(A(1), A(2))); ret(0); return false;
    }
    V v = freshVar(str(A(1), A(2)), 8);
    if (trial) { trialSeed = trialSeed * 6364136223846793005ull + 1442695040888963407ull; ret(trial == 1 ? 0 : (trialSeed >> 33) % k); return false; }
    addpc(X.bin(O_ULT, v.s, X.cst(k, 8)));
    // the value steers control: enumerate the feasible values through the solver
    out.push_back({concretize(v.s), 0});
    return false;
  }
  case B_SYM_BYTES: { u64 p = A(0), k = A(1); string nm = str(A(2), A(3)); for (u64 i = 0; i < k; i++) store(p + i, 8, freshVar(nm + "." + std::to_string(i), 8)); return false; }
  case B_SYM_ASSUME: {
    const Ex *e = ex(a[0], w);
    if (e->w != 1) e = X.extract(e, 0, 1);
    if (e->op == O_CONST) { if (!e->k) { if (!trial) sh->infeasible++; finish(0); } return false; }
    if (trial) { if (!evalb(e)) finish(0); return false; }
    if (!evalb(e) && !check(e)) { sh->infeasible++; finish(0); }
    addpc(e);
    return false;
  }
  case B_SYM_CHECK: {
    string lab = str(A(1), A(2));
    if (!trial) { sh->checks++; label(lab, L_CHECK)->hits++; }
    trace('c', lab);
    const Ex *e = ex(a[0], w);
    if (e->w != 1) e = X.extract(e, 0, 1);
    if (e->op == O_CONST) { if (!e->k) dieViolation(lab); return false; }
    auto it = known.find(e);
    if (trial || (it != known.end() && it->second)) return false;
    vector<u128> keep = model;
    if (check(X.notb(e))) {
      violation(lab, model);
      model = keep;
      if (!evalb(e) && !check(e)) endPath();
      addpc(e);
    } else known[e] = true;
    return false;
  }
  case B_SYM_REACH: { string lab = str(A(0), A(1)); if (!trial) label(lab, L_REACH)->hits++; trace('r', lab); return false; }
  case B_SYM_BLOCKOK: blockOk = A(0) & 1; return false;
  case B_SYM_DONE: endPath();
  default: fatal("call to unsupported external function %s", c->name.c_str());
  }
}

static void run(Func *entry) {
  pushFrame(entry, {});
  vector<V> args, out;
  for (;;) {
    Frame &f = fr.back();
    const Ins &I = f.f->bbs[f.bb].ins[f.ip++];
    if ((++instrs & 0xfffff) == 0) {
      if (trial) finish(0);
      if (instrs > pathLimit) { sh->limitPaths++; dieViolation("no-progress: instruction limit"); }
      if (deadline && nowNs() > deadline) sh->stop = 1;
      if (sh->stop) { sh->unexplored++; finish(0); }
    }
    switch (I.op) {
    case I_NOP: break;
    case I_ALLOCA: {
      u64 al = I.b;
      sp = (sp + al - 1) / al * al;
      f.r[I.dst] = {sp, 0};
      clearSym(sp, I.imm ? I.imm : 1);
      sp += I.imm ? I.imm : 1;
      if (sp > stackEnd) dieViolation("stack overflow");
      break;
    }
    case I_LOAD: {
      POINT(false);
      u64 a = (u64)conc(reg(f, I.a));
      if (!I.side) f.r[I.dst] = load(a, I.w);
      else if (I.side->bitpacked) {
        V v = load(a, I.w * I.n);
        for (int i = 0; i < I.n; i++) f.r[I.dst + i] = v.s ? mkv(X.extract(v.s, i * I.w, I.w)) : V{(v.v >> (i * I.w)) & maskw(I.w), 0};
      } else for (size_t i = 0; i < I.side->lv.size(); i++) f.r[I.dst + i] = load(a + I.side->lv[i].off, I.side->lv[i].w);
      break;
    }
    case I_STORE: {
      POINT(true);
      u64 a = (u64)conc(reg(f, I.a));
      if (!I.side) store(a, I.w, reg(f, I.b));
      else if (I.side->bitpacked) {
        const Ex *e = 0;
        for (int i = 0; i < I.n; i++) { const Ex *x = ex(I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i], I.w); e = e ? X.concat(x, e) : x; }
        store(a, I.w * I.n, mkv(e));
      } else for (size_t i = 0; i < I.side->lv.size(); i++) store(a + I.side->lv[i].off, I.side->lv[i].w, I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i]);
      break;
    }
    case I_GEP: {
      V b = reg(f, I.a);
      if (I.imm) b = binop(O_ADD, 64, b, V{I.imm, 0});
      for (auto &g : I.side->gi) {
        const V &x = reg(f, g.op);
        if (!x.s && !b.s) { u64 ix = g.w == 64 ? (u64)x.v : (u64)(i64)sgn(x.v, g.w); b.v = (u64)((u64)b.v + ix * g.scale); }
        else {
          V y = x;
          if (g.w < 64) y = x.s ? mkv(X.sext(x.s, 64)) : V{(u128)(u64)(i64)sgn(x.v, g.w), 0};
          b = binop(O_ADD, 64, b, binop(O_MUL, 64, y, V{g.scale, 0}));
        }
      }
      f.r[I.dst] = b;
      break;
    }
    case I_BR: takeEdge(f, I.a); break;
    case I_CBR: {
      const V &c = reg(f, I.c);
      bool t = c.s ? decide(c.s) : (c.v & 1);
      takeEdge(f, t ? I.a : I.b);
      break;
    }
    case I_SWITCH: {
      const V v = reg(f, I.a);
      int e = I.side->deflt;
      if (!v.s) { for (auto &c : I.side->cases) if (c.first == v.v) { e = c.second; break; } }
      else for (auto &c : I.side->cases) if (decide(X.bin(O_EQ, v.s, X.cst(c.first, I.w)))) { e = c.second; break; }
      takeEdge(f, e);
      break;
    }
    case I_CALL: {
      Side *s = I.side;
      Func *c = s->callee;
      if (s->isAsm) { for (int k = 0; I.dst >= 0 && k < s->retSlots; k++) f.r[I.dst + k] = {}; break; } // cpuid: a processor without extensions
      if (!s->direct) {
        u64 a = (u64)conc(reg(f, s->calleeOp));
        c = M.byAddr(a);
        if (!c) dieViolation("memory: call through invalid pointer");
      }
      args.clear();
      for (size_t i = 0; i < s->args.size(); i++) {
        int o = s->args[i];
        for (int j = 0; j < s->argSlots[i]; j++) args.push_back(o >= 0 ? f.r[o + j] : f.f->consts[~o + j]);
      }
      if (c->builtin < 0) c->builtin = (c->defined && c->name.compare(0, 4, "sym_")) ? B_NONE : builtinOf(c->name);
      if (c->builtin != B_NONE) {
        f.ci = &I;
        out.clear();
        size_t fi = fr.size() - 1;
        if (builtin(f, I, c, args, out)) break;
        Frame &g = fr[fi];
        if (I.dst >= 0) for (size_t i = 0; i < out.size(); i++) g.r[I.dst + i] = out[i];
        g.ci = 0;
        if (s->normal >= 0) takeEdge(g, s->normal);
        break;
      }
      f.ci = &I;
      pushFrame(c, args);
      break;
    }
    case I_RET: {
      out.clear();
      for (int i = 0; i < I.n; i++) out.push_back(I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i]);
      popFrame();
      if (fr.empty()) { if (!cur) endPath(); threadEnds(); break; }
      Frame &g = fr.back();
      const Ins *ci = g.ci;
      g.ci = 0;
      if (ci->dst >= 0) for (size_t i = 0; i < out.size(); i++) g.r[ci->dst + i] = out[i];
      if (ci->side->normal >= 0) takeEdge(g, ci->side->normal);
      break;
    }
    case I_UNREACH: dieViolation("unreachable executed");
    case I_SELECT: {
      if (!I.vcond && I.n > 1) {
        V c = reg(f, I.c);
        bool t = c.s ? decide(c.s) : (c.v & 1);
        int o = t ? I.a : I.b;
        tmpv.clear();
        for (int i = 0; i < I.n; i++) tmpv.push_back(o >= 0 ? f.r[o + i] : f.f->consts[~o + i]);
        for (int i = 0; i < I.n; i++) f.r[I.dst + i] = tmpv[i];
      } else
        for (int i = 0; i < I.n; i++) {
          V c = I.c >= 0 ? f.r[I.c + (I.vcond ? i : 0)] : f.f->consts[~I.c + (I.vcond ? i : 0)];
          f.r[I.dst + i] = selectv(c, I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i], I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i], I.w);
        }
      break;
    }
    case I_ICMP:
      if (I.n == 1) f.r[I.dst] = icmp((Pred)I.sub, I.w, reg(f, I.a), reg(f, I.b));
      else for (int i = 0; i < I.n; i++) f.r[I.dst + i] = icmp((Pred)I.sub, I.w, I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i], I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i]);
      break;
    case I_BIN:
      if (I.n == 1) f.r[I.dst] = binop((Op)I.sub, I.w, reg(f, I.a), reg(f, I.b));
      else for (int i = 0; i < I.n; i++) f.r[I.dst + i] = binop((Op)I.sub, I.w, I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i], I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i]);
      break;
    case I_TRUNC: case I_ZEXT: case I_SEXT:
      for (int i = 0; i < I.n; i++) {
        const V v = I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i];
        V r;
        if (!v.s) r = {I.op == I_SEXT ? (u128)sgn(v.v, I.w) & maskw(I.w2) : v.v & maskw(I.w2), 0};
        else r = mkv(I.op == I_TRUNC ? X.extract(v.s, 0, I.w2) : I.op == I_ZEXT ? X.zext(v.s, I.w2) : X.sext(v.s, I.w2));
        f.r[I.dst + i] = r;
      }
      break;
    case I_COPY:
      for (int i = 0; i < I.n; i++) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i];
      break;
    case I_BITCAST: {
      const Ex *e = 0;
      bool cn = true;
      u128 acc = 0;
      for (int i = 0; i < I.c; i++) { const V &v = I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i]; if (v.s) cn = false; else if (i * I.w < 128) acc |= v.v << (i * I.w); }
      if (cn) { for (int i = 0; i < I.n; i++) f.r[I.dst + i] = {(acc >> (i * I.w2)) & maskw(I.w2), 0}; break; }
      for (int i = 0; i < I.c; i++) { const Ex *x = ex(I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i], I.w); e = e ? X.concat(x, e) : x; }
      for (int i = 0; i < I.n; i++) f.r[I.dst + i] = mkv(X.extract(e, i * I.w2, I.w2));
      break;
    }
    case I_INSV: {
      if (I.a != I.dst) for (int i = 0; i < I.n; i++) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i];
      for (u64 i = 0; i < I.imm; i++) f.r[I.dst + I.c + i] = I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i];
      break;
    }
    case I_EXTELT: { u64 ix = (u64)conc(reg(f, I.b)); f.r[I.dst] = I.a >= 0 ? f.r[I.a + ix] : f.f->consts[~I.a + ix]; break; }
    case I_INSELT: {
      u64 ix = (u64)conc(reg(f, I.c));
      V v = reg(f, I.b);
      for (int i = 0; i < I.n; i++) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i];
      f.r[I.dst + ix] = v;
      break;
    }
    case I_SHUF: {
      tmpv.clear();
      for (int m : I.side->mask) {
        if (m < 0) { tmpv.push_back({0, 0}); continue; }
        int o = m < I.c ? I.a : I.b, k = m < I.c ? m : m - I.c;
        tmpv.push_back(o >= 0 ? f.r[o + k] : f.f->consts[~o + k]);
      }
      for (size_t i = 0; i < tmpv.size(); i++) f.r[I.dst + i] = tmpv[i];
      break;
    }
    case I_CMPXCHG: {
      POINT(true);
      u64 a = (u64)conc(reg(f, I.a));
      V exp = reg(f, I.b), nw = reg(f, I.c), cur = load(a, I.w);
      V eq = icmp(P_EQ, I.w, cur, exp);
      bool t = eq.s ? decide(eq.s) : (eq.v & 1);
      if (t) store(a, I.w, nw);
      f.r[I.dst] = cur;
      f.r[I.dst + 1] = {t, 0};
      break;
    }
    case I_RMW: {
      POINT(true);
      u64 a = (u64)conc(reg(f, I.a));
      V x = reg(f, I.b), cur = load(a, I.w), r;
      switch (I.sub) {
      case R_XCHG: r = x; break;
      case R_ADD: r = binop(O_ADD, I.w, cur, x); break;
      case R_SUB: r = binop(O_SUB, I.w, cur, x); break;
      case R_AND: r = binop(O_AND, I.w, cur, x); break;
      case R_NAND: r = binop(O_XOR, I.w, binop(O_AND, I.w, cur, x), V{maskw(I.w), 0}); break;
      case R_OR: r = binop(O_OR, I.w, cur, x); break;
      case R_XOR: r = binop(O_XOR, I.w, cur, x); break;
      case R_MAX: r = selectv(icmp(P_SGT, I.w, cur, x), cur, x, I.w); break;
      case R_MIN: r = selectv(icmp(P_SLT, I.w, cur, x), cur, x, I.w); break;
      case R_UMAX: r = selectv(icmp(P_UGT, I.w, cur, x), cur, x, I.w); break;
      default: r = selectv(icmp(P_ULT, I.w, cur, x), cur, x, I.w); break;
      }
      store(a, I.w, r);
      f.r[I.dst] = cur;
      break;
    }
    case I_LPAD: f.r[I.dst] = lpad[0]; f.r[I.dst + 1] = lpad[1]; break;
    case I_RESUME: {
      V e = reg(f, I.a), s2 = I.a >= 0 ? f.r[I.a + 1] : f.f->consts[~I.a + 1];
      popFrame();
      unwind(e, s2);
      break;
    }
    case I_FBIN:
      for (int i = 0; i < I.n; i++) {
        double x = todbl(conc(I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i]), I.w), y = todbl(conc(I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i]), I.w);
        double r = I.sub == 'a' ? x + y : I.sub == 's' ? x - y : I.sub == 'm' ? x * y : x / y;
        f.r[I.dst + i] = {frdbl(r, I.w), 0};
      }
      break;
    case I_FCMP:
      for (int i = 0; i < I.n; i++) {
        double x = todbl(conc(I.a >= 0 ? f.r[I.a + i] : f.f->consts[~I.a + i]), I.w), y = todbl(conc(I.b >= 0 ? f.r[I.b + i] : f.f->consts[~I.b + i]), I.w);
        bool uno = x != x || y != y, r;
        switch (I.sub & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x < y || x > y; break; default: r = !uno; }
        if (I.sub >= 8) { r = uno; switch (I.sub) { case 9: r |= x == y; break; case 10: r |= x > y; break; case 11: r |= x >= y; break; case 12: r |= x < y; break; case 13: r |= x <= y; break; case 14: r |= x != y; break; case 15: r = true; break; } }
        f.r[I.dst + i] = {r, 0};
      }
      break;
    case I_FCAST: {
      u128 v = conc(reg(f, I.a));
      u128 r;
      switch (I.sub) {
      case 0: r = frdbl((double)(u64)v, I.w2); break;
      case 1: r = frdbl((double)(i64)sgn(v, I.w), I.w2); break;
      case 2: r = (u128)(u64)todbl(v, I.w) & maskw(I.w2); break;
      case 3: r = (u128)(i64)todbl(v, I.w) & maskw(I.w2); break;
      default: r = frdbl(todbl(v, I.w), I.w2);
      }
      f.r[I.dst] = {r, 0};
      break;
    }
    default: fatal("unsupported instruction in %s (bb %d ip %d)", f.f->name.c_str(), f.bb, f.ip - 1);
    }
    interrupted:;
  }
}

// ------------------------------------------------------------------ globals
static void writeConst(Parser &ps, Cur &c, Type *t, u64 a) {
  char ch = c.peek();
  if (c.word("zeroinitializer") || c.word("undef") || c.word("poison")) return;
  if (t->k == Type::Struct) {
    bool pk = false;
    if (ch == '<') { c.p++; pk = true; }
    c.need('{');
    for (size_t i = 0; i < t->el.size(); i++) { if (i) c.need(','); Type *et = ps.type(c); writeConst(ps, c, et, a + t->off[i]); }
    c.need('}');
    if (pk) c.need('>');
    return;
  }
  if (t->k == Type::Array) {
    if (ch == 'c') { c.p++; c.ws(); string s = c.name(); memcpy((void *)a, s.data(), s.size()); return; }
    c.need('[');
    for (u64 i = 0; i < t->n; i++) { if (i) c.need(','); Type *et = ps.type(c); writeConst(ps, c, et, a + i * et->size); }
    c.need(']');
    return;
  }
  vector<V> o;
  ps.constant(c, t, o);
  vector<Leaf> lv;
  leaves(t, 0, lv);
  for (size_t i = 0; i < o.size() && i < lv.size(); i++) { u128 v = o[i].v; memcpy((void *)(a + lv[i].off), &v, (lv[i].w + 7) / 8); }
}
static void layoutGlobals() {
  Parser ps(M);
  struct G { Global *g; const char *p, *e; };
  vector<G> gs;
  for (auto *g : M.gls) {
    Cur c(g->text);
    for (;;) {
      const char *s = c.p;
      string_view w = c.ident();
      if (w == "global" || w == "constant") break;
      if (w.empty()) { c.ws(); if (*c.p == '#') { c.p++; continue; } if (*c.p == '(') { c.balanced(); continue; } fatal("global %s: %.60s", g->name.c_str(), string(s, 60).c_str()); }
      if (w == "thread_local") g->tls = true;
      if (w == "external" || w == "extern_weak") g->ext = true;
      if (w == "extern_weak") g->weak = true;
    }
    g->t = ps.type(c);
    if (g->name.compare(0, 5, "llvm.") == 0) g->ext = true;
    u64 al = std::max<u64>(g->t->align, 16);
    size_t q = g->text.rfind(", align ");
    if (q != string_view::npos && g->text.find('"', q) == string_view::npos) al = std::max<u64>(al, atoi(string(g->text.substr(q + 8, 8)).c_str()));
    size_t sc = g->text.rfind(", section \"");
    if (sc != string_view::npos) {
      g->section = string(g->text.substr(sc + 11, g->text.find('"', sc + 11) - sc - 11));
      g->align = q == string_view::npos ? g->t->align : atoi(string(g->text.substr(q + 8, 8)).c_str());
    }
    if (!g->ext) gs.push_back({g, c.p, c.e});
    if (g->tls && !g->ext) continue;
    if (!g->section.empty()) continue;
    gtop = (gtop + al - 1) / al * al;
    g->addr = g->weak ? 0 : gtop;
    gtop += std::max<u64>(g->t->size, 1);
    if (gtop > BASE + GSZ) fatal("globals too large");
  }
  // thread locals lie together: each thread has its copy
  gtop = tlsBase = (gtop + 63) / 64 * 64;
  for (auto *g : M.gls) if (g->tls && !g->ext) { u64 al = std::max<u64>(g->t->align, 64); gtop = (gtop + al - 1) / al * al; g->addr = gtop; gtop += std::max<u64>(g->t->size, 1); }
  tlsEnd = gtop;
  // sections are contiguous, with linker-defined bounds
  std::map<string, vector<Global *>> sections;
  for (auto *g : M.gls) if (!g->section.empty()) sections[g->section].push_back(g);
  for (auto *g : M.gls) if (g->ext && (g->name.compare(0, 8, "__start_") == 0 || g->name.compare(0, 7, "__stop_") == 0)) sections[g->name.substr(g->name[4] == 'a' ? 8 : 7)];
  for (auto &s : sections) {
    gtop = (gtop + 63) / 64 * 64;
    u64 start = gtop;
    for (auto *g : s.second) {
      gtop = (gtop + g->align - 1) / g->align * g->align;
      g->addr = gtop;
      gtop += g->t->size;
    }
    for (auto *g : M.gls) {
      if (g->name == "__start_" + s.first) g->addr = start;
      if (g->name == "__stop_" + s.first) g->addr = gtop;
    }
    gtop++;
  }
  ps.type0("ptr");
  for (auto &x : gs) { Cur c(string_view(x.p, x.e - x.p)); writeConst(ps, c, x.g->t, x.g->addr); }
  tlsImage.assign((u8 *)tlsBase, (u8 *)tlsEnd);
}
static void segv(int sig, siginfo_t *si, void *) {
  static bool in = false;
  if (in) _exit(4);
  in = true;
  fatal("executor crashed: signal %d addr %p", sig, si->si_addr);
}
int main(int argc, char **argv) {
  string ll;
  int jobs = 8;
  double tmax = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "-o") outdir = argv[++i];
    else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "-t") tmax = atof(argv[++i]);
    else if (a == "-l") pathLimit = strtoull(argv[++i], 0, 10);
    else if (a == "-v") maxViol = atoi(argv[++i]);
    else if (ll.empty()) ll = a;
    else harness = a;
  }
  if (ll.empty() || harness.empty()) { fprintf(stderr, "usage: symex IR harness -o DIR [-j N] [-t SEC]\n"); return 3; }
  u64 t0 = nowNs();
  sh = 0;
  M.load(ll.c_str());
  M.scan();
  for (auto *f : M.fns) if (f->weak && builtinOf(f->name) != B_UNSUP) f->weak = false;
  if (mmap((void *)BASE, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)BASE) fatal("mmap arena");
  gflag = (u8 *)mmap(0, TOTAL / 64 + 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 VN = 8ull << 20;
  vstack = (V *)mmap(0, VN * sizeof(V), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  vtop = vstack;
  vend0 = vstack + VN;
  vend = vstack + VN / 2 - 100000;
  layoutGlobals();
  errnoAddr = gtop = (gtop + 63) / 64 * 64;
  gtop += 64;
  auto it = M.fn.find(harness);
  if (it == M.fn.end() || !it->second->defined) fatal("harness %s not found in the IR", harness.c_str());
  Shared *s = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s->tokens = jobs - 1;
  sh = s;
  if (tmax > 0) deadline = t0 + (u64)(tmax * 1e9);
  u64 rounds = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  bool bad = false;
  auto parseSeen = [&] {
    for (auto *fn : M.fns) if (fn->defined && !fn->parsed && fn->id < (int)sizeof(s->cov) && s->cov[fn->id]) { Parser ps(M); ps.parse(fn); }
  };
  for (int t = 1; t <= 6; t++) {
    pid_t p = fork();
    if (p == 0) {
      trial = t;
      trialSeed = t * 7919;
      sigaction(SIGSEGV, 0, 0);
      rlimit rl = {512ull << 20, 512ull << 20};
      setrlimit(RLIMIT_STACK, &rl);
      X.initz3();
      solver = Z3_mk_simple_solver(X.z);
      Z3_solver_inc_ref(X.z, solver);
      run(it->second);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    parseSeen();
  }
  for (auto &c : s->cov) c = 0;
  for (;;) {
  s->newConflicts = 0;
  if (rounds) parseSeen();
  pid_t p = fork();
  if (p == 0) {
    stack_t ss = {};
    ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, 0);
    struct sigaction sa = {};
    sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    rlimit rl = {512ull << 20, 512ull << 20};
    setrlimit(RLIMIT_STACK, &rl);
    X.initz3();
    solver = Z3_mk_simple_solver(X.z);
    Z3_solver_inc_ref(X.z, solver);
    run(it->second);
    finish(0);
  }
  for (;;) {
    int st;
    pid_t r = waitpid(-1, &st, 0);
    if (r < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true;
  }
  rounds++;
  if (!s->threadBudget || bad || s->err || s->stop || s->nviol) break;
  if (roundCap < s->threadBudget) roundCap++;
  else if (!s->newConflicts) break;
  else if (rounds > 30) { s->unexplored++; break; }
  // once more, knowing more of the addresses that threads share
  s->paths = s->infeasible = s->forks = s->checks = s->blockedOk = s->maxDepth = s->limitPaths = 0;
  for (int i = 0; i < s->nlabels; i++) s->labels[i].hits = 0;
  if (DIR *d = opendir(outdir.c_str())) {
    while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "pass-", 5)) unlink((outdir + "/" + e->d_name).c_str());
    closedir(d);
  }
  }
  // ---- report
  auto js = [](const string &x) { string r; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; };
  string o = outdir + "/result.json";
  FILE *f = fopen(o.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", o.c_str()); return 3; }
  fprintf(f, "{\"harness\":\"%s\",\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"depth\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"checks\":%llu,\"blocked_ok\":%llu,\"limit_paths\":%llu,\"unexplored\":%llu,\"wall_s\":%.2f,\"preemptions\":%llu,\"rounds\":%llu,\"shared_addresses\":%llu,\"points\":%llu,\n",
    harness.c_str(), (unsigned long long)s->paths, (unsigned long long)s->infeasible, (unsigned long long)s->forks, (unsigned long long)s->maxDepth, (unsigned long long)s->queries, (unsigned long long)s->sat, (unsigned long long)s->unsat, s->solverNs / 1e9, (unsigned long long)s->instrs, (unsigned long long)s->checks, (unsigned long long)s->blockedOk, (unsigned long long)s->limitPaths, (unsigned long long)s->unexplored, (nowNs() - t0) / 1e9, (unsigned long long)s->threadBudget, (unsigned long long)rounds, (unsigned long long)s->nconflicts, (unsigned long long)s->maxPoints);
  fprintf(f, "\"error\":%s%s%s,\n\"complete\":%s,\n", s->err || bad ? "\"" : "", s->err ? js(s->errmsg).c_str() : bad ? "a worker process died" : "null", s->err || bad ? "\"" : "", (s->err || bad || s->unexplored || s->stop) ? "false" : "true");
  fprintf(f, "\"labels\":[");
  for (int i = 0; i < s->nlabels; i++) fprintf(f, "%s\n {\"label\":\"%s\",\"kind\":\"%s\",\"hits\":%llu,\"violations\":%llu}", i ? "," : "", js(s->labels[i].name).c_str(), s->labels[i].kind ? "reach" : "check", (unsigned long long)s->labels[i].hits, (unsigned long long)s->labels[i].viol);
  fprintf(f, "],\n\"violations\":%d,\n\"functions\":[", (int)s->nviol);
  bool first = true;
  for (auto *fn : M.fns) if (fn->defined && s->cov[fn->id]) { fprintf(f, "%s\n\"%s\"", first ? "" : ",", js(fn->name).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  return s->err || bad ? 3 : 0;
}
