// symx: symbolic executor for LLVM IR with GF(2)-polynomial bit terms and z3.
// See /verif/DESIGN.md, section "Engine".
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <signal.h>
#include <sys/time.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/UnifyFunctionExitNodes.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <z3++.h>
#include <cmath>
#include <memory>
#include <set>
#include <unordered_set>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#undef O_TRUNC
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

static PolyCtx *PC;

// ------------------------------------------------------------------ values
struct SymWord { u32 rc; u64 mask; P b[64]; };
static std::vector<SymWord *> freeWords;
static SymWord *newWord() {
  SymWord *w;
  if (!freeWords.empty()) { w = freeWords.back(); freeWords.pop_back(); } else w = (SymWord *)malloc(sizeof(SymWord));
  w->rc = 1; w->mask = 0; return w;
}
static SymWord UNINIT_W = {1u << 30, 0, {0}};
struct Val {
  u64 c; SymWord *s;
  Val() : c(0), s(nullptr) {}
  Val(u64 x) : c(x), s(nullptr) {}
  Val(const Val &o) : c(o.c), s(o.s) { if (s) s->rc++; }
  Val(Val &&o) noexcept : c(o.c), s(o.s) { o.s = nullptr; }
  Val &operator=(const Val &o) { if (o.s) o.s->rc++; drop(); c = o.c; s = o.s; return *this; }
  Val &operator=(Val &&o) noexcept { if (this != &o) { drop(); c = o.c; s = o.s; o.s = nullptr; } return *this; }
  ~Val() { drop(); }
  void drop() { if (s && --s->rc == 0) freeWords.push_back(s); s = nullptr; }
  bool conc() const { return !s; }
  bool uninit() const { return s == &UNINIT_W; }
  P bit(int i) const { if (s && (s->mask >> i & 1)) return s->b[i]; return (c >> i) & 1; }
};
struct WB { // word builder
  SymWord *w = nullptr; u64 c = 0;
  void set(int i, P p) {
    if (p < 2) c |= (u64)p << i;
    else { if (!w) w = newWord(); w->mask |= 1ULL << i; w->b[i] = p; }
  }
  Val done() { Val v; v.c = c; v.s = w; w = nullptr; return v; }
};
static inline u64 wmask(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline u64 smask(const Val &v) { return v.s ? v.s->mask : 0; }
static bool sameVal(const Val &a, const Val &b) {
  if (a.s == b.s) return a.c == b.c;
  if (a.uninit() || b.uninit()) return false;
  if (smask(a) != smask(b) || a.c != b.c) return false;
  u64 m = smask(a); while (m) { int i = __builtin_ctzll(m); m &= m - 1; if (a.s->b[i] != b.s->b[i]) return false; }
  return true;
}

// ------------------------------------------------------------------ program
enum Op : u8 { O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_ICMP,
  O_SELECT, O_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_CALL, O_BR, O_CONDBR, O_SWITCH, O_RET,
  O_UNREACH, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_UNSUP, O_NOP, O_XVAL, O_IVAL };
struct Inst {
  Op op; u8 w = 64, w2 = 64, pred = 0; bool ptr = false; int dst = -1; int a = 0, b = 0, c = 0; u64 imm = 0;
  std::vector<int> ops; std::vector<std::pair<u64, int>> cases; struct Fn *callee = nullptr; const Instruction *I = nullptr;
  int mergeFails = 0, mergeOk = 0, active = 0; int nres = 1; std::vector<std::pair<int, u64>> byval;
};
struct Phi { int dst; u8 w; bool ptr; std::vector<std::pair<int, int>> in; };
struct BB { std::vector<Phi> phis; std::vector<Inst> insts; int ipdom = -1; };
struct Fn { Function *F; std::string name; int idx; int nargs = 0, nregs = 0; bool prepared = false, isDecl = false, vararg = false; int builtin = -1; std::vector<BB> bbs; std::vector<Val> consts; };

struct Obj { u64 size; std::vector<Val> cells; u8 kind; bool freed = false; u32 epoch = 0; const char *site = ""; };
enum { K_GLOBAL, K_HEAP, K_STACK };

struct Shared {
  u64 instrs, symInstrs, paths, forks, merges, mergeRejects, queries, sat, unsat, unknown, solverUs, assertBits, assertTrivial, violations, undecided, symLoads, maxTerms, inputs, trivialPaths;
  double t0; int stop; u8 fn[8192]; char undecidedWhy[256]; u64 branchSolver, digest;
};
static Shared *SH;

struct SpecFail { const char *why; };
struct PathEnd {};

static LLVMContext LC;
static std::unique_ptr<Module> MOD;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fnMap;
static std::vector<Fn *> fns;
static std::unordered_map<const GlobalVariable *, u64> gAddr;
static std::vector<Obj *> objs(1, nullptr);
static const u64 FNBASE = 0x40000000ULL;

struct Frame { Fn *fn; std::vector<Val> regs; int bb = 0, prev = -1; size_t ip = 0; int retDst = -1; std::vector<u32> allocas; std::vector<Val> varargs; u32 vaObj = 0; };
static std::vector<Frame> frames;
struct Jent { u32 obj; u32 cell; Val old; bool data; };
static std::vector<Jent> journal;
static int specDepth = 0;
static u64 specSteps = 0, specLimit = 20000000;
static std::vector<P> guards;
static std::vector<u32> allocLog; static u32 specFirstObj = 0;
static std::vector<P> pathConds;
static u64 live[NS];
struct Fail { P cond; std::string msg; };
static std::vector<Fail> fails; static std::set<P> failSeen;
struct InRec { u8 n; std::vector<P> vars; std::string name; };
static std::vector<InRec> inputs;
static P expectDie = NONE; static bool dying = false; static size_t dieDepth = 0; static std::string dieMsg;
static u64 trackedMark = 0;

// options
static bool concreteMode = false; static u64 seed = 1; static double timeLimit = 60; static u64 maxPaths = 100000; static std::string outFile, cexFile;
static u64 memLimitMB = 3500; static unsigned qTimeoutMs = 20000; static std::vector<long> params; static u64 prngState; static u64 maxViol = 1; static bool traceMode=false; static u64 maxInstr = ~0ULL;
static bool checkLeaks = true, dump = false;
static u64 digest = 1469598103934665603ULL;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void flushStats();
static u64 localInstrs = 0, localSym = 0, lastCheck = 0;

[[noreturn]] static void undecided(const std::string &why) {
  SH->undecided++;
  snprintf(SH->undecidedWhy, sizeof SH->undecidedWhy, "%s", why.c_str());
  if (traceMode) fprintf(stderr, "UNDECIDED %s\n", why.c_str());
  throw PathEnd();
}
static void observe(u64 v) { digest = (digest ^ v) * 1099511628211ULL; }

static std::string where() {
  std::string r;
  int n = 0;
  for (int i = (int)frames.size() - 1; i >= 0 && n < 6; i--, n++) {
    Frame &f = frames[i]; int line = 0;
    if (f.bb >= 0 && f.bb < (int)f.fn->bbs.size()) {
      size_t ip = f.ip; if (i != (int)frames.size() - 1 && ip) ip--;
      if (ip < f.fn->bbs[f.bb].insts.size()) { auto *I = f.fn->bbs[f.bb].insts[ip].I; if (I && I->getDebugLoc()) line = I->getDebugLoc().getLine(); }
    }
    if (n) r += " <- ";
    r += f.fn->name + ":" + std::to_string(line);
  }
  return r;
}

// ------------------------------------------------------------------ solver
static z3::context *Z; static std::vector<z3::expr *> zpoly, zvar;
static z3::expr zPoly(P p);
static z3::expr zVar(Vr v) {
  if (zvar.size() <= v) zvar.resize(v + 1, nullptr);
  if (zvar[v]) return *zvar[v];
  VarInfo &x = PC->vars[v]; z3::expr e(*Z);
  if (x.kind == V_BASE) e = Z->bool_const(("x" + std::to_string(v)).c_str());
  else e = Z->bool_const(((x.kind == V_DEF ? "d" : "z") + std::to_string(v)).c_str()); // defined by an equation, see zDefs
  if (zvar.size() <= v) zvar.resize(v + 1, nullptr);
  zvar[v] = new z3::expr(e); return e;
}
static z3::expr zPoly(P p) {
  if (p == 0) return Z->bool_val(false);
  if (p == 1) return Z->bool_val(true);
  if (zpoly.size() <= p) zpoly.resize(p + 1, nullptr);
  if (zpoly[p]) return *zpoly[p];
  std::vector<z3::expr> terms;
  for (size_t i = 0; i < PC->len(p); i++) {
    auto m = PC->monos[PC->pdata[PC->polys[p].off + i]];
    if (m.len == 0) { terms.push_back(Z->bool_val(true)); continue; }
    std::vector<Vr> vs(PC->mdata.begin() + m.off, PC->mdata.begin() + m.off + m.len);
    if (vs.size() == 1) { terms.push_back(zVar(vs[0])); continue; }
    z3::expr_vector ev(*Z); for (Vr v : vs) ev.push_back(zVar(v));
    terms.push_back(z3::mk_and(ev));
  }
  // balanced xor tree
  while (terms.size() > 1) {
    std::vector<z3::expr> n;
    for (size_t i = 0; i + 1 < terms.size(); i += 2) n.push_back(z3::expr(*Z, Z3_mk_xor(*Z, terms[i], terms[i + 1])));
    if (terms.size() & 1) n.push_back(terms.back());
    terms.swap(n);
  }
  if (zpoly.size() <= p) zpoly.resize(p + 1, nullptr);
  zpoly[p] = new z3::expr(terms[0]); return terms[0];
}
// the equations of the auxiliary variables a query depends on
static std::unordered_map<P, std::vector<Vr>> auxMemo; static std::vector<z3::expr *> zdef;
static const std::vector<Vr> &auxOf(P p) {
  auto it = auxMemo.find(p); if (it != auxMemo.end()) return it->second;
  std::set<Vr> s; for (size_t i = 0; i < PC->len(p); i++) { auto m = PC->monos[PC->pdata[PC->polys[p].off + i]]; for (int k = 0; k < m.len; k++) { Vr v = PC->mdata[m.off + k]; if (PC->vars[v].kind != V_BASE) s.insert(v); } }
  return auxMemo[p] = std::vector<Vr>(s.begin(), s.end());
}
static void zDefs(z3::solver &s, const std::vector<P> &roots) {
  std::vector<P> work(roots); std::unordered_set<Vr> seen;
  while (!work.empty()) {
    P p = work.back(); work.pop_back(); if (p < 2) continue;
    auto aux = auxOf(p);
    for (Vr v : aux) if (seen.insert(v).second) {
      std::vector<P> args; if (PC->vars[v].kind == V_DEF) args.push_back(PC->vars[v].def); else args = PC->nors[PC->vars[v].nor].args;
      if (zdef.size() <= v) zdef.resize(v + 1, nullptr);
      if (!zdef[v]) {
        z3::expr x = zVar(v);
        if (PC->vars[v].kind == V_DEF) zdef[v] = new z3::expr(x == zPoly(args[0]));
        else { z3::expr_vector ev(*Z); for (P a : args) ev.push_back(zPoly(a)); zdef[v] = new z3::expr(x == !z3::mk_or(ev)); }
      }
      s.add(*zdef[v]); for (P a : args) work.push_back(a);
    }
  }
}
static void refreshLive() {
  for (int k = 0; k < NS; k++) live[k] = ~0ULL;
  for (P c : pathConds) { Sample s = PC->eval(c); for (int k = 0; k < NS; k++) live[k] &= s.w[k]; }
}
static void setSampleFromModel(int slot, z3::model &m) {
  int k = slot >> 6; u64 bit = 1ULL << (slot & 63);
  for (Vr v = 0; v < PC->vars.size(); v++) if (PC->vars[v].kind == V_BASE) {
    bool val = false;
    if (v < zvar.size() && zvar[v]) { z3::expr e = m.eval(*zvar[v], true); val = e.is_true(); }
    if (val) PC->vars[v].s.w[k] |= bit; else PC->vars[v].s.w[k] &= ~bit;
  }
  PC->recomputeSamples();
}
// 1 sat, 0 unsat, -1 unknown.  On sat a sample slot holds the model.
static int nextSlot = 0; static int modelSlot = -1;
static volatile int zInterrupted; static void onAlarm(int) { zInterrupted = 1; Z3_interrupt(*Z); struct itimerval it = {{0, 0}, {0, 200000}}; setitimer(ITIMER_REAL, &it, nullptr); }
static int solve(const std::vector<P> &extraAny, bool any, unsigned tmo) {
  double t = now(); if (t - SH->t0 > timeLimit + 5) undecided("time limit");
  SH->queries++;
  z3::solver s(*Z, "QF_FD");
  { bool f = false; for (P c : pathConds) f |= c == 0; for (P c : guards) f |= c == 0; bool ex = false, tr = false; for (P c : extraAny) { ex |= c == 0; tr |= c != 0; } if (any ? !tr : ex) f = true; if (f) { SH->unsat++; return 0; } }
  { std::vector<P> roots(pathConds); roots.insert(roots.end(), guards.begin(), guards.end()); roots.insert(roots.end(), extraAny.begin(), extraAny.end()); zDefs(s, roots); }
  for (P c : pathConds) s.add(zPoly(c));
  for (P c : guards) s.add(zPoly(c));
  if (any) { z3::expr_vector ev(*Z); for (P c : extraAny) ev.push_back(zPoly(c)); s.add(z3::mk_or(ev)); }
  else for (P c : extraAny) s.add(zPoly(c));
  // z3's own time limit uses threads, which do not survive fork(): interrupt it from a timer signal instead
  struct itimerval it = {{0, 0}, {(time_t)(tmo / 1000), (suseconds_t)(tmo % 1000) * 1000}}, off = {{0, 0}, {0, 0}};
  zInterrupted = 0; signal(SIGALRM, onAlarm); setitimer(ITIMER_REAL, &it, nullptr);
  z3::check_result r = z3::unknown;
  if (getenv("SYMX_Q")) { FILE *qf = fopen(getenv("SYMX_Q"), "w"); fprintf(qf, "%s\n(check-sat)\n", Z3_solver_to_string(*Z, s)); fclose(qf); }
  try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; }
  setitimer(ITIMER_REAL, &off, nullptr);
  if (getenv("SYMX_DUMPQ") && now() - t > 1) { FILE *f = fopen(getenv("SYMX_DUMPQ"), "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(*Z, s)); fclose(f); }
  SH->solverUs += (u64)((now() - t) * 1e6);
  if (r == z3::sat) {
    SH->sat++;
    z3::model m = s.get_model();
    modelSlot = nextSlot; nextSlot = (nextSlot + 1) % (64 * NS - 1);
    setSampleFromModel(modelSlot, m);
    refreshLive();
    return 1;
  }
  if (r == z3::unsat) { SH->unsat++; return 0; }
  SH->unknown++; return -1;
}
static bool sampleHas(const Sample &s, bool val, int *slot = nullptr) {
  u64 g[NS]; for (int k = 0; k < NS; k++) g[k] = live[k];
  for (P c : guards) { Sample t = PC->eval(c); for (int k = 0; k < NS; k++) g[k] &= t.w[k]; }
  for (int k = 0; k < NS; k++) { u64 x = g[k] & (val ? s.w[k] : ~s.w[k]); if (x) { if (slot) *slot = k * 64 + __builtin_ctzll(x); return true; } }
  return false;
}
static bool factLookup(P p, bool &v);
static int quickFeasible(P c) {
  if (c == 0) return 0;
  { bool v; if (factLookup(c, v) && !v) return 0; }
  if (c == 1 && guards.empty()) return 1;
  return sampleHas(PC->eval(c), true) ? 1 : -1;
}
static bool feasible(P c) { // can c be 1 here?
  if (c == 0) return false;
  { bool v; if (factLookup(c, v)) { if (!v) return false; } }
  if (c == 1 && guards.empty()) return true;
  if (sampleHas(PC->eval(c), true)) return true;
  SH->branchSolver++;
  int r = solve({c}, false, qTimeoutMs);
  if (r < 0) { if (specDepth) throw SpecFail{"solver"}; undecided("branch feasibility: solver unknown"); }
  return r == 1;
}

// ------------------------------------------------------------------ substitution
static Val substVal(const Val &v, Vr x, P q, std::unordered_map<P, P> &memo) {
  WB b; b.c = v.c; u64 m = v.s->mask; bool ch = false;
  SymWord *w = v.s;
  P nb[64];
  for (u64 mm = m; mm;) { int i = __builtin_ctzll(mm); mm &= mm - 1;
    P p = w->b[i]; auto it = memo.find(p); P r;
    if (it != memo.end()) r = it->second; else { r = PC->subst1(p, x, q); memo[p] = r; }
    nb[i] = r; if (r != p) ch = true; }
  if (!ch) return v;
  for (u64 mm = m; mm;) { int i = __builtin_ctzll(mm); mm &= mm - 1; b.set(i, nb[i]); }
  return b.done();
}
static std::unordered_map<P, bool> facts; // non-linear polynomials with a value fixed by the path condition
static void addFact(P p, bool v) { if (p > 1) { facts[p] = v; facts[PC->Not(p)] = !v; } }
static std::unordered_set<P> factTried;
static bool simplifyWith(P p);
static bool substAll(Vr x, P q) {
  std::unordered_map<P, P> memo;
  PC->vars[x].subst = q;
  for (Obj *o : objs) if (o && !o->freed) { bool ch = false; for (Val &v : o->cells) if (v.s && v.s != &UNINIT_W) { SymWord *old = v.s; v = substVal(v, x, q, memo); if (v.s != old) ch = true; } if (ch) o->epoch++; }
  for (Frame &f : frames) { for (Val &v : f.regs) if (v.s) v = substVal(v, x, q, memo); for (Val &v : f.varargs) if (v.s) v = substVal(v, x, q, memo); }
  for (Fail &f : fails) f.cond = PC->subst1(f.cond, x, q);
  if (expectDie != NONE) expectDie = PC->subst1(expectDie, x, q);
  { std::unordered_map<P, bool> nf; for (auto &f : facts) { P c = PC->subst1(f.first, x, q); if (c > 1) nf[c] = f.second; } facts.swap(nf); }
  PC->norParts.clear(); PC->norMemo.clear(); PC->norConflict.clear();
  PC->aliasMemo.clear();
  // simplify the rules of the NOR atoms
  std::vector<std::pair<Vr, P>> todo;
  for (Vr v = 0; v < PC->vars.size(); v++) if (PC->vars[v].kind == V_NOR && PC->vars[v].subst == NONE) {
    NorInfo &n = PC->nors[PC->vars[v].nor];
    bool dep = false; for (auto &r : n.rules) if (r.first == x || PC->hasVar(r.second, x)) dep = true;
    if (!dep) for (P a : n.args) if (a > 1 && PC->hasVar(a, x)) { dep = true; break; }
    if (!dep) continue;
    std::vector<std::pair<Vr, P>> rules; bool inc = false; bool allZero = true; std::vector<P> curv;
    // current form of the arguments = apply all substitutions
    for (P a : n.args) {
      P c = a;
      for (int it = 0; it < 1000; it++) { // apply known substitutions until stable
        bool again = false;
        std::vector<Vr> vs; const auto &pp = PC->polys[c];
        for (size_t i = 0; i < pp.len; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) vs.push_back(PC->mdata[m.off + k]); }
        for (Vr y : vs) if (PC->vars[y].subst != NONE) { c = PC->subst1(c, y, PC->vars[y].subst); again = true; break; }
        if (!again) break;
      }
      if (c != 0) allZero = false;
      curv.push_back(c);
      if (PC->isBaseAffine(c)) PC->addRule(rules, c, inc);
    }
    n.rules = rules; std::sort(curv.begin(), curv.end()); n.cur = curv;
    if (inc) todo.push_back({v, 0}); else if (allZero) todo.push_back({v, 1});
  }
  for (auto &t : todo) if (PC->vars[t.first].subst == NONE) substAll(t.first, t.second);
  return true;
}
static bool factLookup(P p, bool &v) { auto it = facts.find(p); if (it == facts.end()) return false; v = it->second; return true; }
static P curForm(P c) {
  for (int it = 0; it < 100000; it++) {
    Vr f = NONE; const auto &pp = PC->polys[c];
    for (size_t i = 0; i < pp.len && f == NONE; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) if (PC->vars[PC->mdata[m.off + k]].subst != NONE) { f = PC->mdata[m.off + k]; break; } }
    if (f == NONE) return c;
    c = PC->subst1(c, f, PC->vars[f].subst);
  }
  return c;
}
static bool simplifyWith(P p) { // p == 1 holds from here on
  p = curForm(p);
  if (p == 1) return true;
  if (p == 0) return false;
  Vr v;
  if (PC->isVar(p, &v) && PC->vars[v].kind != V_BASE) {
    substAll(v, 1);
    if (PC->vars[v].kind == V_DEF) return simplifyWith(PC->vars[v].def);
    std::vector<P> args = PC->nors[PC->vars[v].nor].args;
    for (P a : args) if (!simplifyWith(PC->Not(a))) return false;
    return true;
  }
  P np = PC->Not(p);
  if (PC->isVar(np, &v) && PC->vars[v].kind != V_BASE) {
    substAll(v, 0);
    if (PC->vars[v].kind == V_DEF) return simplifyWith(PC->Not(PC->vars[v].def));
    return true;
  }
  if (PC->isBaseAffine(p)) {
    Vr t = PC->topVar(p);
    P rhs = PC->Xor(PC->Not(p), PC->varPoly[t]); // t = rhs
    substAll(t, rhs);
    return true;
  }
  if (PC->len(p) == 1) { // a product that must be one
    auto m = PC->monos[PC->pdata[PC->polys[p].off]];
    std::vector<Vr> vs(PC->mdata.begin() + m.off, PC->mdata.begin() + m.off + m.len);
    for (Vr x : vs) if (!simplifyWith(PC->varPoly[x])) return false;
    return true;
  }
  { auto it = facts.find(p); if (it != facts.end()) return it->second; }
  { // single bits that p forces
    std::unordered_map<Vr, u32> cnt; const auto pp = PC->polys[p]; if (pp.len < 5000) for (size_t i = 0; i < pp.len; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) cnt[PC->mdata[m.off + k]]++; }
    std::vector<Vr> f1, f0; for (auto &c : cnt) if (PC->vars[c.first].kind == V_BASE) { if (c.second == pp.len) f1.push_back(c.first); else if (2 * (u64)c.second == pp.len) f0.push_back(c.first); }
    if (!f1.empty()) { Vr x = *std::min_element(f1.begin(), f1.end()); return simplifyWith(PC->varPoly[x]) && simplifyWith(p); } // in every monomial
    std::sort(f0.begin(), f0.end());
    for (Vr x : f0) if (PC->subst1(p, x, 1) == 0) return simplifyWith(PC->Not(PC->varPoly[x])) && simplifyWith(p); // in exactly half of the monomials and cancelling
  }
  addFact(p, true);
  return true;
}
static bool settleFacts() { // facts that have become simple under later substitutions
  for (int it = 0; it < 1000; it++) {
    P hit = 0;
    for (auto &f : facts) if (f.second && f.first > 1) { Vr v; P c = f.first; if (PC->isBaseAffine(c) || PC->len(c) == 1 || (PC->len(c) == 2 && PC->isVar(PC->Not(c), &v)) || PC->norParts.count(c)) { hit = c; break; } if (!factTried.count(c)) { factTried.insert(c); hit = c; break; } }
    if (!hit) return true;
    facts.erase(hit); facts.erase(PC->Not(hit));
    if (!simplifyWith(hit)) return false;
  }
  return true;
}
static bool assume(P p) {
  if (p == 1) return true;
  if (p == 0) return false;
  pathConds.push_back(p);
  bool ok = simplifyWith(p) && settleFacts();
  PC->recomputeSamples(); refreshLive();
  return ok;
}

// ------------------------------------------------------------------ reporting
static void jsonEsc(FILE *f, const std::string &s) { fputc('"', f); for (char ch : s) { if (ch == '"' || ch == '\\') fputc('\\', f); if ((unsigned char)ch >= 32) fputc(ch, f); } fputc('"', f); }
static void reportViolation(const std::string &kind, const std::string &msg, int slot) {
  if (SH->violations >= maxViol) { SH->stop = 1; throw PathEnd(); }
  SH->violations++;
  u64 id = SH->violations;
  std::string fn = cexFile; if (id > 1) fn += "." + std::to_string(id);
  FILE *f = fopen(fn.c_str(), "w");
  if (f) {
    fprintf(f, "# kind %s\n# msg %s\n# where %s\n", kind.c_str(), msg.c_str(), where().c_str());
    for (auto &in : inputs) {
      u64 v = 0;
      for (int i = 0; i < in.n; i++) {
        P p = in.vars[i]; bool bit;
        if (slot >= 0) { Sample s = PC->eval(p); bit = s.w[slot >> 6] >> (slot & 63) & 1; } else bit = false;
        v |= (u64)bit << i;
      }
      fprintf(f, "%llx %d %s\n", (unsigned long long)v, in.n, in.name.c_str());
    }
    fclose(f);
  }
  if (traceMode) fprintf(stderr, "VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), where().c_str());
  if (SH->violations >= maxViol) SH->stop = 1;
}
static int anyLiveSlot() {
  int slot; Sample one; for (int k = 0; k < NS; k++) one.w[k] = ~0ULL;
  if (sampleHas(one, true, &slot)) return slot;
  int r = solve({}, false, qTimeoutMs);
  if (r == 1) return modelSlot;
  return r == 0 ? -2 : -1;
}
[[noreturn]] static void errorPath(const std::string &kind, const std::string &msg) {
  if (specDepth) throw SpecFail{"error in branch"};
  if (concreteMode) { fprintf(stderr, "CONCRETE-ERROR %s: %s at %s\n", kind.c_str(), msg.c_str(), where().c_str()); SH->violations++; throw PathEnd(); }
  int s = anyLiveSlot();
  if (s == -2) throw PathEnd(); // infeasible path
  if (s == -1) undecided("error path: solver unknown");
  reportViolation(kind, msg, s);
  throw PathEnd();
}
static bool memOnly = false; static std::set<Vr> taintVars; static bool tainted(P c);
static void addFail(P cond, const std::string &msg) {
  for (P g : guards) cond = PC->And(cond, g);
  SH->assertBits++;
  { bool v; if (factLookup(cond, v) && !v) { SH->assertTrivial++; return; } }
  if (cond == 0) { SH->assertTrivial++; return; }
  if (concreteMode) { fprintf(stderr, "CONCRETE-FAIL %s at %s\n", msg.c_str(), where().c_str()); SH->violations++; return; }
  if (!failSeen.insert(cond).second) return;
  fails.push_back({cond, msg + " @ " + where()});
  // definite or sampled failure: stop early
  if (!specDepth && (cond == 1 || fails.size() > 20000)) {}
}
static P expandDefs(P c) {
  P best = c;
  for (int it = 0; it < 10000 && c > 1; it++) {
    Vr d = NONE; size_t cnt = 0; const auto &pp = PC->polys[c];
    for (size_t i = 0; i < pp.len; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) { Vr v = PC->mdata[m.off + k]; if (PC->vars[v].kind == V_DEF && (d == NONE || v > d)) d = v; } }
    if (d == NONE) return c;
    for (size_t i = 0; i < pp.len; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) if (PC->mdata[m.off + k] == d) cnt++; }
    P def = curForm(PC->vars[d].def);
    if (cnt * PC->len(def) > 300000 || PC->pdata.size() > PC->memLimitWords * 8 / 10) return best;
    c = PC->subst1(c, d, def);
  }
  return c;
}
static void finishPath() {
  // decide: path condition and (some assertion fails)
  if (expectDie != NONE && !dying) addFail(expectDie, "call returned although the arguments must be rejected");
  SH->paths++;
  if (concreteMode) return;
  for (auto &f : fails) { // a sample already shows it
    f.cond = curForm(f.cond);
    { bool v; if (factLookup(f.cond, v) && !v) f.cond = 0; }
    if (f.cond == 0) continue;
    int slot; if (sampleHas(PC->eval(f.cond), true, &slot)) { reportViolation(f.msg.compare(0, 5, "leak:") ? "assert" : "leak", f.msg, slot); return; }
  }
  { // write out the abbreviations in what is left: the normal form then often closes it
    size_t tl = PC->termLimit; PC->termLimit = 2000000; double t0 = now();
    for (auto &f : fails) if (f.cond && now() - t0 < 20) f.cond = expandDefs(f.cond);
    PC->termLimit = tl;
    for (auto &f : fails) if (f.cond) { int slot; if (sampleHas(PC->eval(f.cond), true, &slot)) { reportViolation(f.msg.compare(0, 5, "leak:") ? "assert" : "leak", f.msg, slot); return; } }
  }
  std::vector<P> conds; for (auto &f : fails) if (f.cond) conds.push_back(f.cond);
  if (getenv("SYMX_RESID")) { int k = 0; for (auto &f : fails) if (f.cond && k++ < 6) fprintf(stderr, "RESID %s: %s\n", f.msg.c_str(), PC->str(f.cond).c_str());
    for (Vr v = 0; v < PC->vars.size() && k; v++) if (PC->vars[v].kind == V_NOR) { fprintf(stderr, " z%u: NOR", v); for (P a : PC->nors[PC->vars[v].nor].args) fprintf(stderr, " [%s]", PC->str(a).c_str()); fprintf(stderr, "\n"); } else if (PC->vars[v].kind == V_DEF) fprintf(stderr, " d%u: %s\n", v, PC->str(PC->vars[v].def).c_str()); }
  int r = solve(conds, true, qTimeoutMs * 3);
  if (r == 0) { if (conds.empty()) SH->trivialPaths++; return; }
  if (r < 0) { SH->undecided++; snprintf(SH->undecidedWhy, sizeof SH->undecidedWhy, "final query unknown (%zu residual conditions)", conds.size()); return; }
  for (auto &f : fails) if (f.cond) { Sample s = PC->eval(f.cond); if (s.w[modelSlot >> 6] >> (modelSlot & 63) & 1) { reportViolation(f.msg.compare(0, 5, "leak:") ? "assert" : "leak", f.msg, modelSlot); return; } }
  SH->undecided++; snprintf(SH->undecidedWhy, sizeof SH->undecidedWhy, "model does not evaluate");
}
static void reachCheck() { // reachability witness: the path condition is satisfiable
  if (concreteMode) return;
  int s = anyLiveSlot();
  if (s < 0) { SH->undecided++; snprintf(SH->undecidedWhy, sizeof SH->undecidedWhy, "path without witness"); }
}

// ------------------------------------------------------------------ forking
static void prepare(Fn *f);
static bool forkOn(P cond) { // returns the side taken by this process
  if (specDepth) throw SpecFail{"fork"};
  if (memOnly && tainted(cond)) errorPath("uninit", "branch on uninitialised memory");
  SH->forks++; if (dump) fprintf(stderr, "FORK %s %s\n", PC->str(cond).c_str(), where().c_str());
  if (SH->stop) throw PathEnd();
  if (SH->paths > maxPaths) undecided("path limit");
  fflush(stdout); fflush(stderr); flushStats();
  pid_t pid = fork();
  if (pid < 0) undecided("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!assume(cond)) throw PathEnd();
    return true;
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->undecided++; snprintf(SH->undecidedWhy, sizeof SH->undecidedWhy, "child ended abnormally (%d)", st); }
  if (SH->stop) throw PathEnd();
  for (size_t i = 0; i < fns.size() && i < 8192; i++) if (SH->fn[i] && !fns[i]->prepared && !fns[i]->isDecl) prepare(fns[i]); // functions the child needed will be needed again
  if (!assume(PC->Not(cond))) throw PathEnd();
  return false;
}
static bool branchOn(P cond) { // decide or fork
  if (cond < 2) return cond;
  bool t = feasible(cond), f = feasible(PC->Not(cond));
  if (t && !f) return true;
  if (f && !t) return false;
  if (!t && !f) { if (specDepth) throw SpecFail{"infeasible"}; throw PathEnd(); }
  return forkOn(cond);
}
static u64 concretise(Val &v, int w) {
  if (!v.s) return v.c;
  { // a few bits that are affine in the inputs: branch bit by bit, which leaves affine facts only
    int nb = 0; bool aff = true; for (int i = 0; i < w; i++) if (smask(v) >> i & 1) { nb++; if (!PC->isBaseAffine(v.s->b[i])) aff = false; }
    if (aff && nb > 1 && nb <= 16) {
      u64 val = v.c; Val keep = v;
      for (int i = 0; i < w; i++) if (smask(keep) >> i & 1) { P b = curForm(keep.s->b[i]); if (branchOn(b)) val |= 1ULL << i; else val &= ~(1ULL << i); }
      v = Val(val); return val;
    }
  }
  for (int n = 0; n < 4096; n++) {
    // pick a candidate value from a sample
    int slot; Sample one; for (int k = 0; k < NS; k++) one.w[k] = ~0ULL;
    if (!sampleHas(one, true, &slot)) { int r = solve({}, false, qTimeoutMs); if (r == 0) { if (specDepth) throw SpecFail{"infeasible"}; throw PathEnd(); } if (r < 0) { if (specDepth) throw SpecFail{"solver"}; undecided("concretise: unknown"); } slot = modelSlot; }
    u64 val = v.c; std::vector<P> diff;
    for (int i = 0; i < w; i++) if (smask(v) >> i & 1) {
      Sample s = PC->eval(v.s->b[i]); bool bit = s.w[slot >> 6] >> (slot & 63) & 1;
      if (bit) val |= 1ULL << i;
      diff.push_back(bit ? PC->Not(v.s->b[i]) : v.s->b[i]);
    }
    P eq = PC->Nor(diff);
    if (eq == 1 || !feasible(PC->Not(eq))) { v = Val(val); return val; }
    if (forkOn(eq)) { // the bits are substituted by assume; v itself may be a temporary copy
      for (size_t i = diff.size(); i-- > 0;) { P d = curForm(diff[i]); if (d > 1) simplifyWith(PC->Not(d)); }
      settleFacts();
      PC->recomputeSamples(); refreshLive();
      v = Val(val); return val;
    }
    // refresh v under the new substitutions
    WB b; b.c = v.c; for (int i = 0; i < 64; i++) if (smask(v) >> i & 1) b.set(i, curForm(v.s->b[i]));
    v = b.done();
    if (!v.s) return v.c;
  }
  undecided("too many values");
}

// ------------------------------------------------------------------ memory
static u64 newObj(u64 size, u8 kind, bool zero, const char *site) {
  if (traceMode && getenv("SYMX_OBJ") && objs.size() == (size_t)atoi(getenv("SYMX_OBJ"))) fprintf(stderr, "OBJ %s\n", where().c_str());
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->site = site;
  u64 n = (size + 7) / 8;
  if (n > (1u << 25)) undecided("allocation too large");
  o->cells.resize(n);
  if (!zero) for (Val &v : o->cells) { v.s = &UNINIT_W; UNINIT_W.rc++; }
  objs.push_back(o);
  u64 id = objs.size() - 1;
  if (specDepth) allocLog.push_back(id);
  return id << 32;
}
static void freeObj(u64 id) {
  Obj *o = objs[id]; o->freed = true; o->cells.clear(); o->cells.shrink_to_fit();
}
static inline Obj *getObj(u64 addr, u64 n, bool write) {
  u64 id = addr >> 32;
  if (__builtin_expect(id == 0 || id >= objs.size(), 0)) { char b[64]; snprintf(b, 64, "invalid pointer %llx", (unsigned long long)addr); errorPath("memory", b); }
  Obj *o = objs[id];
  if (__builtin_expect(o->freed, 0)) errorPath("memory", std::string(write ? "write to" : "read of") + " freed object");
  u64 off = addr & 0xffffffffu;
  if (__builtin_expect(off + n > o->size, 0)) { char b[128]; snprintf(b, 128, "%s out of bounds: offset %lld size %llu of %s", write ? "write" : "read", (long long)(int32_t)off, (unsigned long long)o->size, o->site); errorPath("memory", b); }
  return o;
}
static bool tainted(P c) { // does the value depend on uninitialised memory?
  if (taintVars.empty() || c < 2) return false;
  std::set<P> seen; std::vector<P> todo{curForm(c)};
  while (!todo.empty()) { P q = todo.back(); todo.pop_back(); if (q < 2 || !seen.insert(q).second) continue; const auto &pp = PC->polys[q];
    for (size_t i = 0; i < pp.len; i++) { auto m = PC->monos[PC->pdata[pp.off + i]]; for (int k = 0; k < m.len; k++) { Vr v = PC->mdata[m.off + k]; if (taintVars.count(v)) return true; auto &x = PC->vars[v]; if (x.kind == V_DEF) todo.push_back(curForm(x.def)); else if (x.kind == V_NOR) for (P a : PC->nors[x.nor].args) todo.push_back(curForm(a)); } } }
  return false;
}
static void materialise(Val &cell) {
  WB b; for (int i = 0; i < 64; i++) { P p = concreteMode ? 0 : PC->newBase(); Vr v; if (!concreteMode && PC->isVar(p, &v)) taintVars.insert(v); b.set(i, p); }
  cell.drop(); cell = b.done();
}
static Val extractBits(const Val &v, int sh, int w) {
  u64 m = wmask(w);
  if (!v.s) return Val((v.c >> sh) & m);
  WB b; b.c = (v.c >> sh) & m; u64 mm = (v.s->mask >> sh) & m;
  if (!mm) return Val(b.c);
  if (sh == 0 && w == 64) return v;
  while (mm) { int i = __builtin_ctzll(mm); mm &= mm - 1; b.set(i, v.s->b[i + sh]); }
  return b.done();
}
static Val insertBits(const Val &v, const Val &x, int sh, int w) {
  u64 m = wmask(w) << sh;
  if (!v.s && !x.s) return Val((v.c & ~m) | ((x.c << sh) & m));
  WB b; b.c = (v.c & ~m) | ((x.c << sh) & m);
  u64 mm = smask(v) & ~m; while (mm) { int i = __builtin_ctzll(mm); mm &= mm - 1; b.set(i, v.s->b[i]); }
  mm = (smask(x) << sh) & m; while (mm) { int i = __builtin_ctzll(mm); mm &= mm - 1; b.set(i, x.s->b[i - sh]); }
  return b.done();
}
static inline Val loadC(u64 addr, int bytes) {
  Obj *o = getObj(addr, bytes, false);
  u64 off = addr & 0xffffffffu; u64 ci = off >> 3; int sh = (off & 7) * 8;
  if (bytes == 8 && sh == 0) { Val &c = o->cells[ci]; if (__builtin_expect(c.s == &UNINIT_W, 0)) materialise(c); return c; }
  if (sh + bytes * 8 <= 64) { Val &c = o->cells[ci]; if (c.s == &UNINIT_W) materialise(c); return extractBits(c, sh, bytes * 8); }
  Val r(0);
  for (int i = 0; i < bytes; i++) { u64 a = off + i; Val &c = o->cells[a >> 3]; if (c.s == &UNINIT_W) materialise(c); r = insertBits(r, extractBits(c, (a & 7) * 8, 8), i * 8, 8); }
  return r;
}
static inline void setCell(u64 id, Obj *o, u64 ci, Val v, bool data) {
  if (specDepth) journal.push_back({(u32)id, (u32)ci, o->cells[ci], data});
  o->cells[ci] = std::move(v); o->epoch++;
}
static inline void storeC(u64 addr, int bytes, const Val &v, bool data) {
  Obj *o = getObj(addr, bytes, true); u64 id = addr >> 32;
  u64 off = addr & 0xffffffffu; u64 ci = off >> 3; int sh = (off & 7) * 8;
  if (bytes == 8 && sh == 0) { setCell(id, o, ci, v, data); return; }
  for (int i = 0; i < bytes;) {
    u64 a = off + i; int s = (a & 7) * 8; int n = std::min<int>(bytes - i, 8 - (a & 7));
    Val &c = o->cells[a >> 3]; if (c.s == &UNINIT_W) materialise(c);
    setCell(id, o, a >> 3, insertBits(c, extractBits(v, i * 8, n * 8), s, n * 8), false);
    i += n;
  }
}
// load through a symbolic address: a multiplexer over all addresses it can take
struct TabEnt { std::vector<std::pair<u32, u32>> deps; std::vector<std::pair<u32, u64>> coef; };
static std::map<std::vector<u32>, TabEnt> tabCache;
static Val symLoad(Val addr, int bytes, bool wantPtr) {
  SH->symLoads++;
  std::vector<int> pos; std::vector<P> pb;
  for (u64 m = addr.s->mask; m;) { int i = __builtin_ctzll(m); m &= m - 1; pos.push_back(i); pb.push_back(addr.s->b[i]); }
  // components of bits connected by variables
  size_t n = pb.size();
  std::map<Vr, int> owner; std::vector<int> par(n); for (size_t i = 0; i < n; i++) par[i] = i;
  auto fnd = [&](int x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; };
  std::vector<std::set<Vr>> vset(n);
  for (size_t i = 0; i < n; i++) { auto q = PC->polys[pb[i]]; for (size_t k = 0; k < q.len; k++) { auto m = PC->monos[PC->pdata[q.off + k]]; for (int j = 0; j < m.len; j++) { Vr v = PC->mdata[m.off + j]; vset[i].insert(v); auto it = owner.find(v); if (it == owner.end()) owner[v] = i; else par[fnd(i)] = fnd(it->second); } } }
  std::vector<P> basis;           // basis polynomials
  std::map<Vr, int> bvar;         // basis element that is a variable
  std::map<P, int> bpoly;
  std::vector<int> mode(n, 0);
  std::map<int, std::vector<int>> comps; for (size_t i = 0; i < n; i++) comps[fnd(i)].push_back(i);
  for (auto &c : comps) {
    std::set<Vr> vs; std::set<P> ps;
    for (int i : c.second) { vs.insert(vset[i].begin(), vset[i].end()); ps.insert(pb[i]); }
    if (vs.size() <= ps.size()) { for (Vr v : vs) { bvar[v] = basis.size(); basis.push_back(PC->varPoly[v]); } for (int i : c.second) mode[i] = 1; }
    else for (P p : ps) { bpoly[p] = basis.size(); basis.push_back(p); }
  }
  size_t nb = basis.size();
  if (nb > 17) { u64 a = concretise(addr, 64); return loadC(a, bytes); }
  // local ANF of each address bit
  std::vector<u32> key; key.push_back(addr.c >> 32); key.push_back((u32)addr.c); key.push_back(bytes); key.push_back(nb);
  std::vector<std::vector<u32>> anf(n);
  for (size_t i = 0; i < n; i++) {
    if (mode[i] == 0) anf[i].push_back(1u << bpoly[pb[i]]);
    else { auto q = PC->polys[pb[i]]; for (size_t k = 0; k < q.len; k++) { auto m = PC->monos[PC->pdata[q.off + k]]; u32 mk = 0; for (int j = 0; j < m.len; j++) mk |= 1u << bvar[PC->mdata[m.off + j]]; anf[i].push_back(mk); } }
    std::sort(anf[i].begin(), anf[i].end());
    key.push_back(0xffffff00u + pos[i]); key.insert(key.end(), anf[i].begin(), anf[i].end());
  }
  size_t N = (size_t)1 << nb;
  TabEnt *te = nullptr;
  auto it = tabCache.find(key);
  if (it != tabCache.end()) { te = &it->second; for (auto &d : te->deps) if (objs[d.first]->freed || objs[d.first]->epoch != d.second) { te = nullptr; break; } }
  std::vector<Val> pv; bool polyValued = false;
  TabEnt fresh;
  if (!te) {
    std::vector<u64> addrs(N, addr.c);
    std::vector<u8> tt(N);
    for (size_t i = 0; i < n; i++) {
      std::fill(tt.begin(), tt.end(), 0);
      for (u32 m : anf[i]) tt[m] ^= 1;
      for (size_t h = 1; h < N; h <<= 1) for (size_t x = 0; x < N; x++) if (x & h) tt[x] ^= tt[x ^ h];
      for (size_t x = 0; x < N; x++) if (tt[x]) addrs[x] |= 1ULL << pos[i];
    }
    std::vector<u64> vals(N, 0); std::vector<u32> bad; std::set<u32> deps;
    u32 lastObj = NONE;
    for (size_t x = 0; x < N; x++) {
      u64 a = addrs[x]; u64 id = a >> 32;
      if (id == 0 || id >= objs.size() || objs[id]->freed || (a & 0xffffffffu) + bytes > objs[id]->size) { bad.push_back(x); continue; }
      if (id != lastObj) { deps.insert(id); lastObj = id; }
      Val v = loadC(a, bytes);
      if (v.s) { if (!polyValued) { polyValued = true; pv.resize(N); for (size_t y = 0; y < x; y++) pv[y] = Val(vals[y]); } pv[x] = v; }
      else { vals[x] = v.c; if (polyValued) pv[x] = v; }
    }
    if (!bad.empty()) {
      std::vector<u8> t2(N, 0); for (u32 x : bad) t2[x] = 1;
      for (size_t h = 1; h < N; h <<= 1) for (size_t x = 0; x < N; x++) if (x & h) t2[x] ^= t2[x ^ h];
      P inv = 0; for (size_t x = 0; x < N; x++) if (t2[x]) { P pr = 1; for (size_t b = 0; b < nb; b++) if (x >> b & 1) pr = PC->And(pr, basis[b]); inv = PC->Xor(inv, pr); }
      if (feasible(inv)) {
        if (specDepth) throw SpecFail{"oob"};
        if (branchOn(inv)) errorPath("memory", "read through an index that can leave the table");
        return symLoad(([&] { WB b; b.c = addr.c; for (size_t i = 0; i < n; i++) b.set(pos[i], curForm(pb[i])); return b.done(); })(), bytes, wantPtr);
      }
    }
    if (!polyValued) {
      for (size_t h = 1; h < N; h <<= 1) for (size_t x = 0; x < N; x += 2 * h) for (size_t y = x; y < x + h; y++) vals[y + h] ^= vals[y];
      for (size_t x = 0; x < N; x++) if (vals[x]) fresh.coef.push_back({(u32)x, vals[x]});
      for (u32 d : deps) fresh.deps.push_back({d, objs[d]->epoch});
      if (tabCache.size() > 256) tabCache.clear();
      te = &(tabCache[key] = fresh);
    }
  }
  // aliases for compound basis elements
  bool compound = false; for (P b : basis) if (PC->len(b) > 1) compound = true;
  size_t nc = te ? te->coef.size() : N;
  if (compound && (wantPtr || nc > 4096)) for (P &b : basis) b = PC->alias(b);
  std::unordered_map<u32, P> prod; prod[0] = 1;
  std::function<P(u32)> mk = [&](u32 m) -> P { auto i = prod.find(m); if (i != prod.end()) return i->second; u32 l = m & -m; P r = PC->And(mk(m ^ l), basis[__builtin_ctz(l)]); prod[m] = r; return r; };
  WB out;
  if (te) {
    u64 any = 0; for (auto &c : te->coef) any |= c.second;
    std::vector<std::vector<u32>> ms(64);
    for (auto &c : te->coef) { P p = mk(c.first); u64 m = c.second; while (m) { int i = __builtin_ctzll(m); m &= m - 1; for (size_t k = 0; k < PC->len(p); k++) ms[i].push_back(PC->pdata[PC->polys[p].off + k]); } }
    for (int i = 0; i < bytes * 8; i++) {
      auto &v = ms[i]; if (v.empty()) { out.set(i, 0); continue; }
      std::sort(v.begin(), v.end()); size_t w = 0;
      for (size_t a = 0; a < v.size();) { size_t b = a; while (b < v.size() && v[b] == v[a]) b++; if ((b - a) & 1) v[w++] = v[a]; a = b; }
      v.resize(w); P r = PC->intern(v); if (w > PC->termLimit) r = PC->alias(r); out.set(i, r);
    }
  } else {
    u64 bits = 0; u64 c0 = 0; for (auto &v : pv) { bits |= smask(v); bits |= v.c; }
    (void)c0;
    std::vector<P> col(N);
    for (int i = 0; i < bytes * 8; i++) {
      if (!(bits >> i & 1)) continue;
      for (size_t x = 0; x < N; x++) col[x] = pv[x].bit(i);
      for (size_t h = 1; h < N; h <<= 1) for (size_t x = 0; x < N; x += 2 * h) for (size_t y = x; y < x + h; y++) col[y + h] = PC->Xor(col[y + h], col[y]);
      P r = 0; for (size_t x = 0; x < N; x++) if (col[x]) r = PC->Xor(r, PC->And(col[x], mk(x)));
      out.set(i, r);
    }
  }
  return out.done();
}

// ------------------------------------------------------------------ arithmetic
static Val vXor(const Val &a, const Val &b) {
  if (!a.s && !b.s) return Val(a.c ^ b.c);
  u64 m = smask(a) | smask(b); WB r; r.c = (a.c ^ b.c) & ~m;
  while (m) { int i = __builtin_ctzll(m); m &= m - 1; r.set(i, PC->Xor(a.bit(i), b.bit(i))); }
  return r.done();
}
static Val vAnd(const Val &a, const Val &b) {
  if (!a.s && !b.s) return Val(a.c & b.c);
  u64 m = smask(a) | smask(b); WB r; r.c = (a.c & b.c) & ~m;
  while (m) { int i = __builtin_ctzll(m); m &= m - 1; P x = a.bit(i); if (!x) continue; P y = b.bit(i); if (!y) continue; r.set(i, PC->And(x, y)); }
  return r.done();
}
static Val vOr(const Val &a, const Val &b) {
  if (!a.s && !b.s) return Val(a.c | b.c);
  u64 m = smask(a) | smask(b); WB r; r.c = (a.c | b.c) & ~m;
  while (m) { int i = __builtin_ctzll(m); m &= m - 1; r.set(i, PC->Or(a.bit(i), b.bit(i))); }
  return r.done();
}
static Val vAddC(const Val &a, const Val &b, P carry, int w) {
  WB r; P c = carry;
  for (int i = 0; i < w; i++) {
    P x = a.bit(i), y = b.bit(i); P xy = PC->Xor(x, y);
    r.set(i, PC->Xor(xy, c));
    if (i + 1 < w) { if (x == y) c = x; else c = PC->Xor(PC->And(x, y), PC->And(c, xy)); }
  }
  return r.done();
}
static Val vNot(const Val &a, int w) { return vXor(a, Val(wmask(w))); }
static Val vShl(const Val &a, int k, int w) { u64 m = wmask(w); if (!a.s) return Val((a.c << k) & m); WB r; r.c = (a.c << k) & m; u64 mm = (a.s->mask << k) & m; while (mm) { int i = __builtin_ctzll(mm); mm &= mm - 1; r.set(i, a.s->b[i - k]); } return r.done(); }
static Val vShr(const Val &a, int k) { return extractBits(a, k, 64 - k); }
static Val vMux(P c, const Val &t, const Val &f) {
  if (c == 1) return t;
  if (c == 0) return f;
  u64 m = smask(t) | smask(f) | (t.c ^ f.c); WB r; r.c = t.c & ~m;
  while (m) { int i = __builtin_ctzll(m); m &= m - 1; r.set(i, PC->Mux(c, t.bit(i), f.bit(i))); }
  return r.done();
}
static Val vAshr(const Val &a, int k, int w) {
  if (!a.s) { int64_t x = (int64_t)(a.c << (64 - w)) >> (64 - w); return Val((u64)(x >> k) & wmask(w)); }
  WB r; for (int i = 0; i < w; i++) r.set(i, a.bit(std::min(w - 1, i + k))); return r.done();
}
static P vEq(const Val &a, const Val &b) {
  if (!a.s && !b.s) return a.c == b.c;
  u64 m = smask(a) | smask(b);
  if ((a.c ^ b.c) & ~m) return 0;
  std::vector<P> d; while (m) { int i = __builtin_ctzll(m); m &= m - 1; P x = PC->Xor(a.bit(i), b.bit(i)); if (x == 1) return 0; if (x) d.push_back(x); }
  return PC->Nor(d);
}
static P vUlt(const Val &a, const Val &b, int w, bool sgn) {
  P lt = 0;
  for (int i = 0; i < w; i++) {
    P x = a.bit(i), y = b.bit(i);
    if (sgn && i == w - 1) std::swap(x, y);
    if (x == y) continue;
    lt = PC->Mux(PC->Xor(x, y), y, lt);
  }
  return lt;
}
static inline int64_t sx(u64 v, int w) { return (int64_t)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ translation
static Fn *getFn(const Function *F);
static u64 constAddr(const Constant *C);
static std::vector<std::pair<const GlobalVariable *, u64>> pendingInit;
static u64 globalAddr(const GlobalVariable *G) {
  auto it = gAddr.find(G); if (it != gAddr.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(G->getValueType());
  std::string *nm = new std::string(G->getName().str());
  u64 a = newObj(sz, K_GLOBAL, true, nm->c_str()); gAddr[G] = a;
  return a;
}
static void initMem(u64 addr, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *CI = dyn_cast<ConstantInt>(C)) { storeC(addr, DL->getTypeStoreSize(T), Val(CI->getZExtValue()), false); return; }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { storeC(addr, 8, Val(CF->getValueAPF().bitcastToAPInt().getZExtValue()), false); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(CD->getElementType()); for (unsigned i = 0; i < CD->getNumElements(); i++) initMem(addr + i * es, CD->getElementAsConstant(i)); return; }
  if (auto *CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initMem(addr + i * es, CA->getOperand(i)); return; }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) { auto *SL = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) initMem(addr + SL->getElementOffset(i), CS->getOperand(i)); return; }
  if (T->isPointerTy()) { storeC(addr, 8, Val(constAddr(C)), false); return; }
  errs() << "unsupported initialiser " << *C << "\n"; exit(3);
}
static u64 constAddr(const Constant *C) {
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *G = dyn_cast<GlobalVariable>(C)) return globalAddr(G);
  if (auto *F = dyn_cast<Function>(C)) { Fn *f = getFn(F); return (FNBASE + f->idx) << 32; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constAddr(A->getAliasee());
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) return constAddr(CE->getOperand(0)) + off.getSExtValue(); }
    if (CE->isCast()) return constAddr(CE->getOperand(0));
  }
  errs() << "unsupported constant " << *C << "\n"; exit(3);
}
static const char *BUILTINS[] = {"malloc", "calloc", "free", "posix_memalign", "realloc", "abort", "exit", "printf", "fprintf", "sprintf", "snprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "fwrite",
  "m4ri_die", "__assert_fail", "sqrt", "log2", "log", "ceil", "floor", "pow", "random", "rand", "srandom", "srand", "sym_bits", "sym_assume", "sym_assert", "sym_assert_eq", "sym_param", "sym_observe", "sym_expect_die", "sym_live_heap", "sym_concrete",
  "sym_tick", "memset", "memcpy", "memmove", "sym_ite", "sym_note", "sym_is_engine", "sym_gfmul", "fabs", "sym_printed_count", "sym_printed", "strlen", "memcmp", "sym_cond_fork", "m4ri_random_word", "sym_heap_bytes", "abs", "sym_reps", "sym_feasible", "sym_out_begin", "sym_out_len", "sym_out", nullptr};
enum { B_MALLOC, B_CALLOC, B_FREE, B_PMEMALIGN, B_REALLOC, B_ABORT, B_EXIT, B_PRINTF, B_FPRINTF, B_SPRINTF, B_SNPRINTF, B_PUTS, B_PUTCHAR, B_FPUTS, B_FPUTC, B_PUTC, B_FFLUSH, B_FWRITE,
  B_DIE, B_ASSERTFAIL, B_SQRT, B_LOG2, B_LOG, B_CEIL, B_FLOOR, B_POW, B_RANDOM, B_RAND, B_SRANDOM, B_SRAND, B_SYMBITS, B_ASSUME, B_ASSERT, B_ASSERTEQ, B_PARAM, B_OBSERVE, B_EXPECTDIE, B_LIVEHEAP, B_CONCRETE,
  B_TICK, B_MEMSET, B_MEMCPY, B_MEMMOVE, B_ITE, B_NOTE, B_ISENGINE, B_GFMUL, B_FABS, B_PRINTEDCNT, B_PRINTED, B_STRLEN, B_MEMCMP, B_CONDFORK, B_RANDWORD, B_HEAPBYTES, B_ABS, B_REPS, B_FEAS, B_OUTBEGIN, B_OUTLEN, B_OUT, B_IGNORE, B_FSHL, B_FSHR, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_BITREV, B_FMULADD, B_UNSUP };

static Fn *getFn(const Function *F) {
  auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
  Fn *f = new Fn(); f->F = const_cast<Function *>(F); f->name = F->getName().str(); f->idx = fns.size(); fns.push_back(f); fnMap[F] = f;
  f->isDecl = F->isDeclaration(); f->vararg = F->isVarArg(); f->nargs = F->arg_size();
  for (int i = 0; BUILTINS[i]; i++) if (f->name == BUILTINS[i]) { f->builtin = i; f->isDecl = true; }
  if (f->isDecl && f->builtin < 0) {
    StringRef n = F->getName();
    if (n.starts_with("llvm.memset")) f->builtin = B_MEMSET;
    else if (n.starts_with("llvm.memcpy")) f->builtin = B_MEMCPY;
    else if (n.starts_with("llvm.memmove")) f->builtin = B_MEMMOVE;
    else if (n.starts_with("llvm.ceil")) f->builtin = B_CEIL;
    else if (n.starts_with("llvm.floor")) f->builtin = B_FLOOR;
    else if (n.starts_with("llvm.sqrt")) f->builtin = B_SQRT;
    else if (n.starts_with("llvm.log2")) f->builtin = B_LOG2;
    else if (n.starts_with("llvm.log")) f->builtin = B_LOG;
    else if (n.starts_with("llvm.fabs")) f->builtin = B_FABS;
    else if (n.starts_with("llvm.abs")) f->builtin = B_ABS;
    else if (n.starts_with("llvm.fshl")) f->builtin = B_FSHL;
    else if (n.starts_with("llvm.fshr")) f->builtin = B_FSHR;
    else if (n.starts_with("llvm.smax")) f->builtin = B_SMAX;
    else if (n.starts_with("llvm.smin")) f->builtin = B_SMIN;
    else if (n.starts_with("llvm.umax")) f->builtin = B_UMAX;
    else if (n.starts_with("llvm.umin")) f->builtin = B_UMIN;
    else if (n.starts_with("llvm.ctpop")) f->builtin = B_CTPOP;
    else if (n.starts_with("llvm.ctlz")) f->builtin = B_CTLZ;
    else if (n.starts_with("llvm.cttz")) f->builtin = B_CTTZ;
    else if (n.starts_with("llvm.bswap")) f->builtin = B_BSWAP;
    else if (n.starts_with("llvm.bitreverse")) f->builtin = B_BITREV;
    else if (n.starts_with("llvm.fmuladd")) f->builtin = B_FMULADD;
    else if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.va_end") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.stack") || n.starts_with("llvm.experimental.noalias")) f->builtin = B_IGNORE;
    else f->builtin = B_UNSUP;
  }
  return f;
}
static bool flatTy(Type *T, std::vector<Type *> &out) { // first-class aggregates of scalars
  if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) if (!flatTy(E, out)) return false; return true; }
  if (auto *A = dyn_cast<ArrayType>(T)) { if (A->getNumElements() > 16) return false; for (u64 i = 0; i < A->getNumElements(); i++) if (!flatTy(A->getElementType(), out)) return false; return true; }
  if (T->isPointerTy() || T->isDoubleTy() || T->isIntegerTy()) { out.push_back(T); return true; }
  return false;
}
static int flatN(Type *T) { std::vector<Type *> v; return flatTy(T, v) ? (int)v.size() : 1; }
static int flatIndex(Type *T, ArrayRef<unsigned> idx) {
  if (idx.empty()) return 0;
  int r = 0; unsigned k = idx[0];
  for (unsigned i = 0; i < k; i++) r += flatN(isa<StructType>(T) ? cast<StructType>(T)->getElementType(i) : cast<ArrayType>(T)->getElementType());
  return r + flatIndex(isa<StructType>(T) ? cast<StructType>(T)->getElementType(k) : cast<ArrayType>(T)->getElementType(), idx.drop_front());
}
static int tyW(Type *T) { if (T->isPointerTy() || T->isDoubleTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); return 0; }

static void prepare(Fn *f) {
  if (f->prepared) return;
  f->prepared = true;
  Function &F = *f->F;
  if (F.isMaterializable()) { if (auto e = F.materialize()) { fprintf(stderr, "materialize\n"); exit(3); } }
  std::unordered_map<const Value *, int> reg; int nr = 0;
  for (auto &A : F.args()) reg[&A] = nr++;
  std::unordered_map<const BasicBlock *, int> bbi; int nb = 0;
  for (auto &B : F) { bbi[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += I.getType()->isAggregateType() ? flatN(I.getType()) : 1; } }
  f->nregs = nr; f->bbs.resize(nb);
  std::unordered_map<const Value *, int> cidx;
  auto opnd = [&](const Value *V) -> int {
    auto it = reg.find(V); if (it != reg.end()) return it->second;
    auto ic = cidx.find(V); if (ic != cidx.end()) return ic->second;
    Val v;
    if (auto *CI = dyn_cast<ConstantInt>(V)) v = Val(CI->getZExtValue());
    else if (auto *CF = dyn_cast<ConstantFP>(V)) v = Val(CF->getValueAPF().bitcastToAPInt().getZExtValue());
    else if (isa<UndefValue>(V)) v = Val(0);
    else if (auto *C = dyn_cast<Constant>(V)) v = Val(constAddr(C));
    else if (isa<MetadataAsValue>(V)) v = Val(0);
    else { errs() << "operand " << *V << "\n"; exit(3); }
    f->consts.push_back(v); int r = ~(int)(f->consts.size() - 1); cidx[V] = r; return r;
  };
  PostDominatorTree PDT(F); DominatorTree DT(F); LoopInfo LI(DT);
  for (auto &B : F) {
    BB &bb = f->bbs[bbi[&B]];
    if (!B.getParent()->hasFnAttribute("symx-nomerge")) if (auto *node = PDT.getNode(&B)) if (auto *id = node->getIDom()) if (id->getBlock()) bb.ipdom = bbi[id->getBlock()];
    for (auto &I : B) {
      if (auto *PN = dyn_cast<PHINode>(&I)) {
        Phi p; p.dst = reg[PN]; p.w = tyW(PN->getType()); p.ptr = PN->getType()->isPointerTy();
        for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) p.in.push_back({bbi[PN->getIncomingBlock(i)], opnd(PN->getIncomingValue(i))});
        bb.phis.push_back(p); continue;
      }
      Inst n; n.I = &I; n.op = O_UNSUP; if (!I.getType()->isVoidTy()) { n.dst = reg[&I]; n.w = tyW(I.getType()); n.ptr = I.getType()->isPointerTy(); if (n.w == 0 || n.w > 64) n.w = 0; }
      bool agg = I.getType()->isAggregateType(); if (agg) n.nres = flatN(I.getType());
      bool bad = n.dst >= 0 && n.w == 0 && !(agg && (isa<CallInst>(I) || isa<InsertValueInst>(I) || isa<ExtractValueInst>(I)));
      auto bin = [&](Op o) { n.op = o; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); };
      switch (bad ? 0 : I.getOpcode()) {
      case Instruction::Add: bin(O_ADD); break; case Instruction::Sub: bin(O_SUB); break; case Instruction::Mul: bin(O_MUL); break;
      case Instruction::UDiv: bin(O_UDIV); break; case Instruction::SDiv: bin(O_SDIV); break; case Instruction::URem: bin(O_UREM); break; case Instruction::SRem: bin(O_SREM); break;
      case Instruction::Shl: bin(O_SHL); break; case Instruction::LShr: bin(O_LSHR); break; case Instruction::AShr: bin(O_ASHR); break;
      case Instruction::And: bin(O_AND); break; case Instruction::Or: bin(O_OR); break; case Instruction::Xor: bin(O_XOR); break;
      case Instruction::FAdd: bin(O_FADD); break; case Instruction::FSub: bin(O_FSUB); break; case Instruction::FMul: bin(O_FMUL); break; case Instruction::FDiv: bin(O_FDIV); break;
      case Instruction::FNeg: n.op = O_FNEG; n.a = opnd(I.getOperand(0)); break;
      case Instruction::ICmp: bin(O_ICMP); n.pred = cast<ICmpInst>(I).getPredicate(); n.w2 = tyW(I.getOperand(0)->getType());
        if (I.getOperand(0)->getType()->isIntegerTy(32)) if (Loop *L = LI.getLoopFor(&B)) if (L->isLoopExiting(&B)) if (auto *BI = dyn_cast<BranchInst>(B.getTerminator())) n.imm = BI->isConditional() && BI->getCondition() == &I;
        if (Loop *L = LI.getLoopFor(&B)) if (L->getExitingBlock() == &B) if (auto *PN = dyn_cast<PHINode>(I.getOperand(0))) if (PN->getParent() == L->getHeader()) n.c = 1;
        break;
      case Instruction::FCmp: bin(O_FCMP); n.pred = cast<FCmpInst>(I).getPredicate(); break;
      case Instruction::Select: n.op = O_SELECT; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); n.c = opnd(I.getOperand(2)); break;
      case Instruction::Trunc: n.op = O_TRUNC; n.a = opnd(I.getOperand(0)); break;
      case Instruction::ZExt: n.op = O_COPY; n.a = opnd(I.getOperand(0)); break;
      case Instruction::SExt: n.op = O_SEXT; n.a = opnd(I.getOperand(0)); n.w2 = tyW(I.getOperand(0)->getType()); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: n.op = (n.w < 64 && I.getOpcode() == Instruction::PtrToInt) ? O_TRUNC : O_COPY; n.a = opnd(I.getOperand(0)); break;
      case Instruction::SIToFP: n.op = O_SITOFP; n.a = opnd(I.getOperand(0)); n.w2 = tyW(I.getOperand(0)->getType()); break;
      case Instruction::UIToFP: n.op = O_UITOFP; n.a = opnd(I.getOperand(0)); break;
      case Instruction::FPToSI: n.op = O_FPTOSI; n.a = opnd(I.getOperand(0)); break;
      case Instruction::FPToUI: n.op = O_FPTOUI; n.a = opnd(I.getOperand(0)); break;
      case Instruction::GetElementPtr: {
        n.op = O_GEP; auto *G = cast<GEPOperator>(&I); n.a = opnd(G->getPointerOperand());
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (!G->collectOffset(*DL, 64, vo, co)) { n.op = O_UNSUP; break; }
        n.imm = co.getSExtValue();
        for (auto &x : vo) { n.ops.push_back(opnd(x.first)); n.cases.push_back({x.second.getSExtValue(), tyW(x.first->getType())}); }
        break; }
      case Instruction::Load: { n.op = O_LOAD; n.a = opnd(I.getOperand(0)); n.imm = DL->getTypeStoreSize(I.getType()); break; }
      case Instruction::Store: { n.op = O_STORE; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); Type *T = I.getOperand(0)->getType(); n.imm = DL->getTypeStoreSize(T); n.ptr = T->isPointerTy(); n.w2 = tyW(T); if (!n.w2) n.op = O_UNSUP; break; }
      case Instruction::Alloca: { n.op = O_ALLOCA; auto *AI = cast<AllocaInst>(&I); n.imm = DL->getTypeAllocSize(AI->getAllocatedType()); n.a = opnd(AI->getArraySize()); break; }
      case Instruction::Call: {
        auto *CI = cast<CallInst>(&I); Function *cf = CI->getCalledFunction();
        if (CI->isInlineAsm()) break;
        if (cf) {
          StringRef nm = cf->getName();
          if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume")) { n.op = O_NOP; break; }
          if (nm.starts_with("llvm.expect")) { n.op = O_COPY; n.a = opnd(CI->getArgOperand(0)); break; }
          n.callee = getFn(cf);
          if (nm.starts_with("llvm.va_start")) n.imm = 1;
        } else n.c = opnd(CI->getCalledOperand());
        n.op = O_CALL; for (auto &A : CI->args()) n.ops.push_back(opnd(A.get()));
        for (unsigned k = 0; k < CI->arg_size(); k++) if (CI->isByValArgument(k)) if (Type *T = CI->getParamByValType(k)) n.byval.push_back({(int)k, DL->getTypeAllocSize(T)});
        break; }
      case Instruction::Br: { auto *BI = cast<BranchInst>(&I); if (BI->isConditional()) { n.op = O_CONDBR; { Loop *L = LI.getLoopFor(&B); auto *IC = dyn_cast<ICmpInst>(BI->getCondition()); // the only way out of a loop is a test of a loop-carried value: fork, do not merge
            n.imm = L && L->getExitingBlock() == &B && IC && isa<PHINode>(IC->getOperand(0)) && cast<PHINode>(IC->getOperand(0))->getParent() == L->getHeader(); } n.a = opnd(BI->getCondition()); n.b = bbi[BI->getSuccessor(0)]; n.c = bbi[BI->getSuccessor(1)]; } else { n.op = O_BR; n.b = bbi[BI->getSuccessor(0)]; } break; }
      case Instruction::Switch: { n.op = O_SWITCH; auto *SI = cast<SwitchInst>(&I); n.a = opnd(SI->getCondition()); n.w2 = tyW(SI->getCondition()->getType()); n.b = bbi[SI->getDefaultDest()]; for (auto c : SI->cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
      case Instruction::Ret: n.op = O_RET; n.imm = I.getNumOperands(); n.nres = 1;
        if (n.imm && I.getOperand(0)->getType()->isAggregateType()) { auto it = reg.find(I.getOperand(0)); if (it == reg.end()) { n.op = O_UNSUP; break; } n.a = it->second; n.nres = flatN(I.getOperand(0)->getType()); }
        else n.a = I.getNumOperands() ? opnd(I.getOperand(0)) : 0;
        break;
      case Instruction::ExtractValue: { auto *X = cast<ExtractValueInst>(&I); auto it = reg.find(X->getAggregateOperand()); if (it == reg.end()) break; n.op = O_XVAL; n.a = it->second + flatIndex(X->getAggregateOperand()->getType(), X->getIndices()); break; }
      case Instruction::InsertValue: { auto *X = cast<InsertValueInst>(&I); if (X->getInsertedValueOperand()->getType()->isAggregateType()) break; auto it = reg.find(X->getAggregateOperand()); n.op = O_IVAL; n.a = it == reg.end() ? NONE : it->second; n.b = opnd(X->getInsertedValueOperand()); n.c = flatIndex(I.getType(), X->getIndices()); break; }
      case Instruction::Unreachable: n.op = O_UNREACH; break;
      default: break;
      }
      bb.insts.push_back(std::move(n));
    }
  }
}

// ------------------------------------------------------------------ interpreter
static inline const Val &R(Frame &f, int i) { return i >= 0 ? f.regs[i] : f.fn->consts[~i]; }
static void budget() {
  double t = now();
  if (t - SH->t0 > timeLimit) undecided("time limit");
  struct rusage ru; (void)ru;
  FILE *f = fopen("/proc/self/statm", "r"); long tot = 0, rss = 0; if (f) { if (fscanf(f, "%ld %ld", &tot, &rss) != 2) rss = 0; fclose(f); }
  if ((u64)rss * 4096 > memLimitMB * 1024 * 1024) undecided("memory limit");
  if (SH->stop) throw PathEnd();
}
static void flushStats() { SH->instrs += localInstrs; SH->symInstrs += localSym; localInstrs = localSym = 0; }
static void pushFrame(Fn *fn, std::vector<Val> &&args, int retDst) {
  prepare(fn);
  if (fn->idx < 8192) SH->fn[fn->idx] = 1;
  if (frames.size() > 3000) undecided("recursion depth");
  frames.emplace_back();
  Frame &f = frames.back(); f.fn = fn; f.regs.resize(fn->nregs); f.retDst = retDst;
  for (int i = 0; i < fn->nargs && i < (int)args.size(); i++) f.regs[i] = args[i];
  for (size_t i = fn->nargs; i < args.size(); i++) f.varargs.push_back(args[i]);
}
static void popFrame() { for (u32 id : frames.back().allocas) freeObj(id); frames.pop_back(); }
static Val phiVal(Frame &f, const Phi &p, int prev) { for (auto &x : p.in) if (x.first == prev) return R(f, x.second); fprintf(stderr, "phi without edge\n"); exit(3); }
static void enterPhis(Frame &f) {
  BB &bb = f.fn->bbs[f.bb]; f.ip = 0;
  if (bb.phis.empty()) return;
  if (bb.phis.size() == 1) { f.regs[bb.phis[0].dst] = phiVal(f, bb.phis[0], f.prev); return; }
  std::vector<Val> vs; for (auto &p : bb.phis) vs.push_back(phiVal(f, p, f.prev));
  for (size_t i = 0; i < vs.size(); i++) f.regs[bb.phis[i].dst] = std::move(vs[i]);
}
enum RunRes { REACHED, FINISHED };
static RunRes run(size_t stopDepth, int stopBlock, const Inst *noReenter);
static double asD(const Val &v) { double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d) { u64 u; memcpy(&u, &d, 8); return Val(u); }
static Val symInput(int n, const std::string &name) {
  if (specDepth) throw SpecFail{"input"};
  InRec r; r.n = n; r.name = name;
  if (concreteMode) { prngState += 0x9e3779b97f4a7c15ULL; u64 v = mix64(prngState) & wmask(n); return Val(v); }
  WB b; for (int i = 0; i < n; i++) { P p = PC->newBase(); r.vars.push_back(p); b.set(i, p); }
  inputs.push_back(r); SH->inputs = std::max<u64>(SH->inputs, PC->vars.size());
  return b.done();
}
static std::string readStr(u64 a) { std::string r; for (int i = 0; i < 2000; i++) { Val v = loadC(a + i, 1); if (v.s || !v.c) break; r += (char)v.c; } return r; }
static std::vector<Val> outStream; // characters written to stdout, possibly symbolic
static std::vector<Val> readSym(u64 p) { // a C string whose characters may be symbolic
  std::vector<Val> r;
  for (int i = 0; i < 65536; i++) { Val v = loadC(p + i, 1); if (v.s) { if (branchOn(vEq(v, Val(0)))) break; } else if (!v.c) break; r.push_back(v); }
  return r;
}
static void renderFmt(const std::string &fmt, std::vector<Val> &a, size_t ai, std::vector<Val> &out) {
  auto put = [&](const char *t) { for (; *t; t++) out.push_back(Val((u64)(u8)*t)); };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out.push_back(Val((u64)(u8)fmt[i])); continue; }
    if (fmt[i + 1] == '%') { out.push_back(Val((u64)'%')); i++; continue; }
    std::string fl; int width = 0, prec = -1, lng = 0; i++;
    while (i < fmt.size() && strchr("-+ #0", fmt[i])) fl += fmt[i++];
    if (fmt[i] == '*') { width = (int)concretise(a[ai], 64); ai++; i++; if (width < 0) { fl += '-'; width = -width; } } else while (isdigit(fmt[i])) width = width * 10 + fmt[i++] - '0';
    if (fmt[i] == '.') { prec = 0; i++; if (fmt[i] == '*') { prec = (int)concretise(a[ai], 64); ai++; i++; } else while (isdigit(fmt[i])) prec = prec * 10 + fmt[i++] - '0'; }
    while (fmt[i] && strchr("lhzjt", fmt[i])) { lng += fmt[i] != 'h'; i++; }
    if (ai >= a.size()) undecided("printf: missing argument");
    char cv = fmt[i]; Val v = a[ai++]; bool left = fl.find('-') != std::string::npos, zero = fl.find('0') != std::string::npos && !left && prec < 0;
    if (cv == 's') { auto t = readSym(concretise(v, 64)); if (prec >= 0 && (int)t.size() > prec) t.resize(prec); if (!left) for (int k = (int)t.size(); k < width; k++) out.push_back(Val((u64)' ')); for (auto &x : t) out.push_back(x); if (left) for (int k = (int)t.size(); k < width; k++) out.push_back(Val((u64)' ')); continue; }
    if (cv == 'c') { if (width > 1) undecided("printf: %c with a width"); out.push_back(extractBits(v, 0, 8)); continue; }
    if (v.uninit()) errorPath("uninit", "uninitialised value printed");
    if (!lng) v = extractBits(v, 0, 32);
    if ((cv == 'x' || cv == 'X') && v.s && prec < 0 && fl.find('#') == std::string::npos) {
      int top = 0; for (int k = 0; k < 64; k++) if (v.bit(k) != 0) top = k;
      int nd = top / 4 + 1; bool vary = nd > 1 && (left || nd > width);
      auto nib = [&](int d) { return extractBits(v, 4 * d, 4); };
      if (vary) while (nd > 1 && branchOn(vEq(nib(nd - 1), Val(0)))) nd--;
      for (int k = nd; k < width && !left; k++) out.push_back(Val((u64)(zero ? '0' : ' ')));
      P lead = vary ? 0 : 1; // all digits above are zero
      for (int d = nd - 1; d >= 0; d--) {
        Val n = nib(d); P isz = vEq(n, Val(0));
        Val ch = Val(0); for (int t = 15; t >= 0; t--) ch = vMux(vEq(n, Val((u64)t)), Val((u64)(u8)(cv == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[t]), ch);
        if (d > 0 && !zero) { lead = PC->And(lead, isz); ch = vMux(lead, Val((u64)' '), ch); }
        out.push_back(ch);
      }
      if (left) for (int k = nd; k < width; k++) out.push_back(Val((u64)' '));
      continue;
    }
    u64 c = concretise(v, 64); char sp[64], b[128];
    if (prec >= 0) snprintf(sp, 64, "%%%s%d.%dll%c", fl.c_str(), width, prec, cv); else if (width) snprintf(sp, 64, "%%%s%dll%c", fl.c_str(), width, cv); else snprintf(sp, 64, "%%%sll%c", fl.c_str(), cv);
    if (cv == 'd' || cv == 'i') snprintf(b, 128, sp, lng ? (long long)c : (long long)(int)c); else if (strchr("xXuo", cv)) snprintf(b, 128, sp, (unsigned long long)c); else undecided("printf conversion");
    put(b);
  }
}

struct SideResult { std::map<std::pair<u32, u32>, std::pair<Val, bool>> writes; std::vector<Val> phis; };
static bool boolish(const Val &v) { return (v.c & ~3ULL) == 0 && (smask(v) & ~3ULL) == 0; }

// execute one side of a branch speculatively until the join block; throws SpecFail
static void runSide(size_t depth, int from, int to, int join, P g, const Inst *br, SideResult &res) {
  Frame &f0 = frames[depth];
  std::vector<Val> savedRegs = f0.regs; // registers (loop phis) as before the branch
  size_t jmark = journal.size(), amark = allocLog.size();
  guards.push_back(g); specDepth++;
  u32 savedFirst = specFirstObj; specFirstObj = objs.size();
  std::string err;
  auto rollback = [&] {
    for (size_t i = journal.size(); i > jmark; i--) { Jent &e = journal[i - 1]; Obj *o = objs[e.obj]; if (!o->freed) { o->cells[e.cell] = std::move(e.old); o->epoch++; } }
    journal.resize(jmark);
    for (size_t i = amark; i < allocLog.size(); i++) if (!objs[allocLog[i]]->freed) freeObj(allocLog[i]);
    allocLog.resize(amark);
    specFirstObj = savedFirst; specDepth--; guards.pop_back();
    frames[depth].regs = std::move(savedRegs);
  };
  try {
    f0.prev = from; f0.bb = to; f0.ip = 0;
    if (to != join) { enterPhis(f0); run(depth, join, br); }
    Frame &f = frames[depth];
    for (size_t i = amark; i < allocLog.size(); i++) { Obj *o = objs[allocLog[i]]; if (!o->freed) throw SpecFail{"allocation escapes"}; }
    for (auto &p : f.fn->bbs[join].phis) res.phis.push_back(f.prev == -2 ? f.regs[p.dst] : phiVal(f, p, f.prev));
    for (size_t i = jmark; i < journal.size(); i++) { Jent &e = journal[i]; if (objs[e.obj]->freed) continue; auto k = std::make_pair(e.obj, e.cell); auto it = res.writes.find(k); if (it == res.writes.end()) res.writes[k] = {objs[e.obj]->cells[e.cell], e.data}; else it->second.second &= e.data; }
  } catch (...) {
    while (frames.size() > depth + 1) popFrame();
    rollback(); throw;
  }
  rollback();
}
static bool noMerge = false; // --nomerge: every symbolic branch forks
static bool tryMerge(size_t depth, P cond, Inst &in) {
  Frame &f = frames[depth]; int from = f.bb, join = f.fn->bbs[from].ipdom; size_t ip = f.ip; int prev = f.prev;
  if (join < 0 || in.mergeFails >= 3 + in.mergeOk / 4) return false;
  u64 saveSteps = specSteps; if (!specDepth) specSteps = 0;
  SideResult T, F; std::vector<Val> phis; std::vector<std::pair<std::pair<u32, u32>, std::pair<Val, bool>>> merged;
  struct Act { int &a; Act(int &x) : a(x) { a++; } ~Act() { a--; } } act(in.active);
  try {
    runSide(depth, from, in.b, join, cond, &in, T);
    runSide(depth, from, in.c, join, PC->Not(cond), &in, F);
    Frame &g = frames[depth];
    auto &ph = g.fn->bbs[join].phis;
    for (size_t i = 0; i < ph.size(); i++) {
      if (sameVal(T.phis[i], F.phis[i])) { phis.push_back(T.phis[i]); continue; }
      if (T.phis[i].uninit() || F.phis[i].uninit()) throw SpecFail{"uninit"};
      if (ph[i].ptr) throw SpecFail{"pointer phi"};
      if (ph[i].w != 64 && ph[i].w != 1 && !(boolish(T.phis[i]) && boolish(F.phis[i]))) throw SpecFail{"int phi"};
      phis.push_back(vMux(cond, T.phis[i], F.phis[i]));
    }
    std::set<std::pair<u32, u32>> keys; for (auto &k : T.writes) keys.insert(k.first); for (auto &k : F.writes) keys.insert(k.first);
    for (auto &k : keys) {
      auto a = T.writes.find(k), b = F.writes.find(k);
      Val cur = objs[k.first]->cells[k.second]; bool data = true;
      Val va = cur, vb = cur;
      if (a != T.writes.end()) { va = a->second.first; data &= a->second.second; }
      if (b != F.writes.end()) { vb = b->second.first; data &= b->second.second; }
      if (sameVal(va, vb)) { merged.push_back({k, {va, data}}); continue; }
      if (!data) throw SpecFail{"non-data cell"};
      if (va.uninit()) materialise(va);
      if (vb.uninit()) materialise(vb);
      merged.push_back({k, {vMux(cond, va, vb), data}});
    }
  } catch (SpecFail &e) {
    if (traceMode) fprintf(stderr, "merge reject (%s) %s\n", e.why, where().c_str());
    in.mergeFails++; SH->mergeRejects++;
    Frame &g = frames[depth]; g.bb = from; g.ip = ip; g.prev = prev; specSteps = saveSteps;
    return false;
  }
  Frame &g = frames[depth];
  for (auto &m : merged) setCell(m.first.first, objs[m.first.first], m.first.second, m.second.first, m.second.second);
  g.bb = join; g.prev = -2; g.ip = 0;
  auto &ph = g.fn->bbs[join].phis;
  for (size_t i = 0; i < ph.size(); i++) g.regs[ph[i].dst] = phis[i];
  SH->merges++; in.mergeOk++;
  return true;
}

static Val callBuiltin(Frame &f, Inst &in, std::vector<Val> &a, bool &pushed) {
  auto conc = [&](size_t i) -> u64 { return concretise(a[i], 64); };
  switch (in.callee ? in.callee->builtin : B_UNSUP) {
  case B_MALLOC: return Val(newObj(conc(0), K_HEAP, false, "malloc"));
  case B_CALLOC: return Val(newObj(conc(0) * conc(1), K_HEAP, true, "calloc"));
  case B_PMEMALIGN: { u64 p = newObj(conc(2), K_HEAP, false, "posix_memalign"); storeC(conc(0), 8, Val(p), false); return Val(0); }
  case B_FREE: {
    u64 p = conc(0); if (!p) return Val(0);
    u64 id = p >> 32; if (id >= objs.size() || !id || objs[id]->kind != K_HEAP || (u32)p) errorPath("memory", "invalid free");
    if (objs[id]->freed) errorPath("memory", "double free");
    if (specDepth && id < specFirstObj) throw SpecFail{"free"};
    freeObj(id); return Val(0); }
  case B_REALLOC: {
    u64 p = conc(0), n = conc(1); if (!p) return Val(newObj(n, K_HEAP, false, "realloc"));
    u64 id = p >> 32; if (id >= objs.size() || !id || objs[id]->kind != K_HEAP || (u32)p) errorPath("memory", "invalid realloc");
    if (objs[id]->freed) errorPath("memory", "realloc of freed object");
    if (specDepth) throw SpecFail{"realloc"};
    u64 q = newObj(n, K_HEAP, false, "realloc"); Obj *o = objs[id], *m = objs[q >> 32];
    for (size_t i = 0; i < o->cells.size() && i < m->cells.size(); i++) m->cells[i] = o->cells[i];
    freeObj(id); return Val(q); }
  case B_ABORT: if (dying) throw PathEnd(); errorPath("abort", "abort called");
  case B_EXIT: errorPath("abort", "exit called");
  case B_PRINTF: { if (specDepth) throw SpecFail{"io"}; size_t n0 = outStream.size(); std::string fmt = readStr(conc(0)); renderFmt(fmt, a, 1, outStream); return Val((u64)(outStream.size() - n0)); }
  case B_FPRINTF: { if (specDepth) throw SpecFail{"io"}; renderFmt(readStr(conc(1)), a, 2, outStream); return Val(0); }
  case B_FFLUSH: case B_FWRITE: if (specDepth) throw SpecFail{"io"}; if (in.callee->builtin == B_FWRITE) { u64 n = conc(1) * conc(2), p = conc(0); for (u64 i = 0; i < n; i++) outStream.push_back(loadC(p + i, 1)); return Val(conc(2)); } return Val(0);
  case B_PUTS: case B_PUTCHAR: case B_FPUTS: case B_FPUTC: case B_PUTC:
    if (specDepth) throw SpecFail{"io"};
    if (in.callee->builtin == B_PUTS || in.callee->builtin == B_FPUTS) { for (auto &ch : readSym(conc(0))) outStream.push_back(ch); if (in.callee->builtin == B_PUTS) outStream.push_back(Val((u64)'\n')); return Val(1); }
    outStream.push_back(extractBits(a[0], 0, 8)); return a[0];
  case B_SPRINTF: case B_SNPRINTF: {
    if (specDepth) throw SpecFail{"io"};
    int k = in.callee->builtin == B_SPRINTF ? 1 : 2; std::vector<Val> o; renderFmt(readStr(conc(k)), a, k + 1, o);
    size_t n = o.size(); if (k == 2) { u64 lim = conc(1); if (!lim) return Val((u64)n); if (o.size() > lim - 1) o.resize(lim - 1); }
    u64 d = conc(0); for (size_t i = 0; i <= o.size(); i++) storeC(d + i, 1, i < o.size() ? o[i] : Val(0), false);
    return Val((u64)n); }
  case B_PRINTEDCNT: case B_PRINTED: return Val(0);
  case B_OUTBEGIN: outStream.clear(); return Val(0);
  case B_OUTLEN: return Val((u64)outStream.size());
  case B_OUT: { u64 i = conc(0); return i < outStream.size() ? outStream[i] : Val(0); }
  case B_FEAS: { P p = PC->Not(vEq(a[0], Val(0))); if (specDepth) throw SpecFail{"feasible"}; if (concreteMode) return Val(1); return Val((u64)feasible(p)); }
  case B_DIE: case B_ASSERTFAIL: {
    std::string m; { u64 p = conc(0); if (p) m = readStr(p); }
    for (char &c : m) if (c == '\n') c = ' ';
    if (specDepth) throw SpecFail{"die"};
    if (in.callee->builtin == B_DIE && expectDie != NONE) {
      dying = true;
      addFail(PC->Not(expectDie), "valid arguments rejected: " + m);
      Function *H = MOD->getFunction("on_die");
      if (H && !H->isDeclaration()) { std::vector<Val> none; dieDepth = frames.size(); pushFrame(getFn(H), std::move(none), -1); pushed = true; return Val(0); }
      throw PathEnd();
    }
    if (concreteMode) { fprintf(stderr, "CONCRETE-DIE %s at %s\n", m.c_str(), where().c_str()); }
    errorPath(in.callee->builtin == B_DIE ? "die" : "assertion", m); }
  case B_SQRT: return fromD(sqrt(asD(a[0])));
  case B_LOG2: return fromD(log2(asD(a[0])));
  case B_LOG: return fromD(log(asD(a[0])));
  case B_CEIL: return fromD(ceil(asD(a[0])));
  case B_FLOOR: return fromD(floor(asD(a[0])));
  case B_FABS: return fromD(fabs(asD(a[0])));
  case B_POW: return fromD(pow(asD(a[0]), asD(a[1])));
  case B_RANDOM: return symInput(31, "random");
  case B_RAND: return symInput(31, "rand");
  case B_RANDWORD: return symInput(64, "random_word");
  case B_SRANDOM: case B_SRAND: return Val(0);
  case B_SYMBITS: { int n = conc(0); return symInput(n, a.size() > 1 ? readStr(conc(1)) : "in"); }
  case B_ASSUME: {
    if (specDepth) throw SpecFail{"assume"};
    P c = PC->Not(vEq(a[0], Val(0)));
    if (c == 0) throw PathEnd();
    if (c != 1) { if (concreteMode) throw PathEnd(); if (!feasible(c)) throw PathEnd(); if (!assume(c)) throw PathEnd(); }
    return Val(0); }
  case B_ASSERT: { P c = vEq(a[0], Val(0)); if (memOnly) { if (tainted(c)) errorPath("uninit", "result depends on uninitialised memory"); if (readStr(conc(1)).compare(0, 5, "leak:")) return Val(0); } if (concreteMode) observe(a[0].c != 0); addFail(c, a.size() > 1 ? readStr(conc(1)) : "assert"); return Val(0); }
  case B_ASSERTEQ: {
    if (concreteMode) observe(a[0].c);
    if (memOnly) { if (!taintVars.empty()) for (u64 q = smask(a[0]); q; q &= q - 1) if (tainted(a[0].bit(__builtin_ctzll(q)))) errorPath("uninit", "result depends on uninitialised memory: " + readStr(conc(2))); return Val(0); }
    u64 m = smask(a[0]) | smask(a[1]) | (a[0].c ^ a[1].c);
    std::string msg = readStr(conc(2)); if (a.size() > 3) { char b[80]; snprintf(b, 80, " (%lld", (long long)conc(3)); msg += b; if (a.size() > 4) { snprintf(b, 80, ",%lld", (long long)conc(4)); msg += b; } msg += ")"; }
    if (!m) { SH->assertBits++; SH->assertTrivial++; return Val(0); }
    while (m) { int i = __builtin_ctzll(m); m &= m - 1; addFail(PC->Xor(a[0].bit(i), a[1].bit(i)), msg); }
    return Val(0); }
  case B_PARAM: { u64 i = conc(0); return Val(i < params.size() ? (u64)params[i] : 0); }
  case B_OBSERVE: if (concreteMode) observe(a[0].c); return Val(0);
  case B_EXPECTDIE: { if (specDepth) throw SpecFail{"expect"}; expectDie = PC->Not(vEq(a[0], Val(0))); return Val(0); }
  case B_LIVEHEAP: { u64 n = 0; if (getenv("SYMX_LIVE")) for (size_t i = 0; i < objs.size(); i++) if (objs[i] && objs[i]->kind == K_HEAP && !objs[i]->freed) fprintf(stderr, "LIVE %zu %s %llu\n", i, objs[i]->site, (unsigned long long)objs[i]->size); for (Obj *o : objs) if (o && o->kind == K_HEAP && !o->freed) n++; return Val(n); }
  case B_HEAPBYTES: { u64 n = 0; for (Obj *o : objs) if (o && o->kind == K_HEAP && !o->freed) n += o->size; return Val(n); }
  case B_CONCRETE: { u64 v = conc(0); return Val(v); }
  case B_TICK: return Val(0);
  case B_REPS: return Val(1);
  case B_FMULADD: { double x, y, z; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); memcpy(&z, &a[2].c, 8); return fromD(x * y + z); }
  case B_ABS: { int w = in.w; Val x = a[0]; P sg = x.bit(w - 1); if (sg == 0) return x; return vMux(sg, vAddC(Val(0), vNot(x, w), 1, w), x); }
  case B_FSHL: case B_FSHR: { int w = in.w; u64 k = concretise(a[2], w) % w; if (in.callee->builtin == B_FSHR) { if (!k) return a[1]; k = w - k; } else if (!k) return a[0]; return vOr(vShl(a[0], k, w), extractBits(a[1], w - k, k)); }
  case B_SMAX: return vMux(vUlt(a[0], a[1], in.w, true), a[1], a[0]);
  case B_SMIN: return vMux(vUlt(a[0], a[1], in.w, true), a[0], a[1]);
  case B_UMAX: return vMux(vUlt(a[0], a[1], in.w, false), a[1], a[0]);
  case B_UMIN: return vMux(vUlt(a[0], a[1], in.w, false), a[0], a[1]);
  case B_CTPOP: { Val r(0); for (int i = 0; i < in.w; i++) { WB b; b.set(0, a[0].bit(i)); r = vAddC(r, b.done(), 0, 8); } return r; }
  case B_CTLZ: { int w = in.w; Val r((u64)w); for (int i = 0; i < w; i++) r = vMux(a[0].bit(i), Val((u64)(w - 1 - i)), r); return r; }
  case B_CTTZ: { int w = in.w; Val r((u64)w); for (int i = w - 1; i >= 0; i--) r = vMux(a[0].bit(i), Val((u64)i), r); return r; }
  case B_BSWAP: { int w = in.w; WB b; for (int i = 0; i < w; i++) b.set(i, a[0].bit((w - 8 - (i & ~7)) + (i & 7))); return b.done(); }
  case B_BITREV: { int w = in.w; WB b; for (int i = 0; i < w; i++) b.set(i, a[0].bit(w - 1 - i)); return b.done(); }
  case B_NOTE: if (traceMode) fprintf(stderr, "note %s\n", readStr(conc(0)).c_str()); return Val(0);
  case B_ISENGINE: return Val(1);
  case B_CONDFORK: { P c = PC->Not(vEq(a[0], Val(0))); return Val(branchOn(c)); }
  case B_ITE: { P c = PC->Not(vEq(a[0], Val(0))); return vMux(c, a[1], a[2]); }
  case B_GFMUL: { // sym_gfmul(a, b, minpoly, e): specification of the field product
    int e = conc(3); u64 mp = conc(2); P r[64]; for (int i = 0; i < 64; i++) r[i] = 0;
    for (int i = 0; i < e; i++) { P x = a[0].bit(i); if (!x) continue; for (int j = 0; j < e; j++) { P y = a[1].bit(j); if (y) r[i + j] = PC->Xor(r[i + j], PC->And(x, y)); } }
    for (int i = 2 * e - 2; i >= e; i--) if (r[i]) { for (int j = 0; j < e; j++) if (mp >> j & 1) r[i - e + j] = PC->Xor(r[i - e + j], r[i]); r[i] = 0; }
    WB b; for (int i = 0; i < e; i++) b.set(i, r[i]); return b.done(); }
  case B_MEMSET: {
    u64 d = conc(0), n = conc(2); if (n == 0) return a[0];
    if (a[1].s) undecided("memset symbolic");
    u64 v = a[1].c & 0xff; v |= v << 8; v |= v << 16; v |= v << 32;
    getObj(d, n, true);
    u64 i = 0; while (i < n) { if (((d + i) & 7) == 0 && i + 8 <= n) { storeC(d + i, 8, Val(v), true); i += 8; } else { storeC(d + i, 1, Val(v & 0xff), false); i++; } }
    return a[0]; }
  case B_MEMCPY: case B_MEMMOVE: {
    u64 d = conc(0), s = conc(1), n = conc(2); if (n == 0) return a[0];
    getObj(d, n, true); Obj *so = getObj(s, n, false);
    if (in.callee->builtin == B_MEMCPY && (d >> 32) == (s >> 32) && d < s + n && s < d + n && d != s) errorPath("memory", "memcpy overlap");
    if (((d | s) & 7) == 0) {
      std::vector<Val> tmp; u64 w = n / 8; for (u64 i = 0; i < w; i++) tmp.push_back(so->cells[((u32)s >> 3) + i]);
      for (u64 i = 0; i < w; i++) { Obj *o = objs[d >> 32]; setCell(d >> 32, o, ((u32)d >> 3) + i, tmp[i], true); }
      for (u64 i = w * 8; i < n; i++) storeC(d + i, 1, loadC(s + i, 1), false);
    } else { std::vector<Val> tmp; for (u64 i = 0; i < n; i++) tmp.push_back(loadC(s + i, 1)); for (u64 i = 0; i < n; i++) storeC(d + i, 1, tmp[i], false); }
    return a[0]; }
  case B_STRLEN: return Val(readStr(conc(0)).size());
  case B_MEMCMP: { u64 x = conc(0), y = conc(1), n = conc(2); P eq = 1; for (u64 i = 0; i < n; i++) { Val p = loadC(x + i, 1), q = loadC(y + i, 1); if (!p.s && !q.s && p.c != q.c && eq == 1) return Val(p.c < q.c ? 0xffffffffu : 1); eq = PC->And(eq, vEq(p, q)); } WB b; b.set(0, PC->Not(eq)); return b.done(); }
  case B_IGNORE: return Val(0);
  default: undecided("unsupported call " + (in.callee ? in.callee->name : "?"));
  }
  (void)f;
}

static RunRes run(size_t stopDepth, int stopBlock, const Inst *noReenter) {
  for (;;) {
    Frame *f = &frames.back();
    BB *bb = &f->fn->bbs[f->bb];
    Inst &in = bb->insts[f->ip];
    localInstrs++;
    if ((localInstrs & 0xffff) == 0 || (localSym & 0x3ff) == 0x3ff) { double t = now(); static double last = 0; if (t - last > 0.2) { last = t; flushStats(); if (specDepth == 0) budget(); else if (t - SH->t0 > timeLimit) throw SpecFail{"time"}; } }
    if (specDepth && ++specSteps > specLimit) throw SpecFail{"too long"};
#define A R(*f, in.a)
#define B R(*f, in.b)
#define C R(*f, in.c)
#define SET(v) do { Val _v = (v); frames.back().regs[in.dst] = std::move(_v); } while (0)
    switch (in.op) {
    case O_ADD: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val((a.c + b.c) & wmask(in.w)); else { localSym++; SET(vAddC(a, b, 0, in.w)); } break; }
    case O_SUB: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val((a.c - b.c) & wmask(in.w)); else { localSym++; SET(vAddC(a, vNot(b, in.w), 1, in.w)); } break; }
    case O_MUL: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val((a.c * b.c) & wmask(in.w)); else { localSym++; Val x = a, y = b; if (y.s && !x.s) std::swap(x, y); Val r(0); for (int i = 0; i < in.w; i++) { P t = y.bit(i); if (!t) continue; Val sh = vShl(x, i, in.w); if (t != 1) { WB m; for (int k = 0; k < in.w; k++) m.set(k, PC->And(t, sh.bit(k))); sh = m.done(); } r = vAddC(r, sh, 0, in.w); } SET(r); } break; }
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
      Val a = A, b = B; int w = in.w;
      if (b.s) concretise(b, w);
      if (b.c == 0) errorPath("arith", "division by zero");
      if (a.s && (in.op == O_UDIV || in.op == O_UREM) && !(b.c & (b.c - 1))) { int k = __builtin_ctzll(b.c); SET(in.op == O_UDIV ? vShr(a, k) : vAnd(a, Val(b.c - 1))); break; }
      if (a.s && (in.op == O_SDIV || in.op == O_SREM) && !(b.c & (b.c - 1)) && a.bit(w - 1) == 0) { int k = __builtin_ctzll(b.c); SET(in.op == O_SDIV ? vShr(a, k) : vAnd(a, Val(b.c - 1))); break; }
      if (a.s) concretise(a, w);
      u64 r; if (in.op == O_UDIV) r = a.c / b.c; else if (in.op == O_UREM) r = a.c % b.c; else { int64_t x = sx(a.c, w), y = sx(b.c, w); r = in.op == O_SDIV ? (y == -1 ? -(u64)x : (u64)(x / y)) : (y == -1 ? 0 : (u64)(x % y)); }
      SET(Val(r & wmask(w))); break; }
    case O_SHL: case O_LSHR: case O_ASHR: {
      Val a = A; Val b = B; int w = in.w;
      if (!b.s) {
        u64 k = b.c; if (memOnly && k >= (u64)w) errorPath("shift", "shift amount out of range"); if (k >= (u64)w) k &= w > 32 ? 63 : 31; if (k >= (u64)w) { SET(Val(0)); break; } // poison in IR; the x86 result
        if (!a.s) { f->regs[in.dst] = in.op == O_SHL ? Val((a.c << k) & wmask(w)) : in.op == O_LSHR ? Val(a.c >> k) : Val((u64)(sx(a.c, w) >> k) & wmask(w)); break; }
        localSym++; SET(in.op == O_SHL ? vShl(a, k, w) : in.op == O_LSHR ? extractBits(a, k, w - k) : vAshr(a, k, w)); break;
      }
      localSym++;
      { // barrel shifter; amounts >= width give 0 (poison in IR)
        int nbits = 0; u64 hm = smask(b); while (hm) { nbits++; hm &= hm - 1; }
        if (nbits > 7) { concretise(b, w); u64 k = b.c; SET(k >= (u64)w ? Val(0) : in.op == O_SHL ? vShl(a, k, w) : in.op == O_LSHR ? extractBits(a, k, w - k) : vAshr(a, k, w)); break; }
        Val r = a;
        for (int i = 0; i < w; i++) { P t = b.bit(i); if (!t) continue; int k = i < 7 ? (1 << i) : 128; Val s = k >= w ? (in.op == O_ASHR ? vAshr(r, w - 1, w) : Val(0)) : in.op == O_SHL ? vShl(r, k, w) : in.op == O_LSHR ? extractBits(r, k, w - k) : vAshr(r, k, w); r = vMux(t, s, r); }
        SET(r); }
      break; }
    case O_AND: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val(a.c & b.c); else { localSym++; SET(vAnd(a, b)); } break; }
    case O_OR: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val(a.c | b.c); else { localSym++; SET(vOr(a, b)); } break; }
    case O_XOR: { const Val &a = A, &b = B; if (!a.s && !b.s) f->regs[in.dst] = Val(a.c ^ b.c); else { localSym++; SET(vXor(a, b)); } break; }
    case O_ICMP: {
      if (in.imm) { // a loop counter: one path per value
        if (in.a >= 0 && f->regs[in.a].s && !boolish(f->regs[in.a])) { Val v = f->regs[in.a]; concretise(v, 32); f = &frames.back(); f->regs[in.a] = v; }
        if (in.b >= 0 && f->regs[in.b].s && !boolish(f->regs[in.b])) { Val v = f->regs[in.b]; concretise(v, 32); f = &frames.back(); f->regs[in.b] = v; }
      }
      if (noMerge && in.c == 1 && in.a >= 0 && f->regs[in.a].s) { Val v = f->regs[in.a]; concretise(v, in.w2); f = &frames.back(); f->regs[in.a] = v; }
      const Val &a = A, &b = B; int w = in.w2;
      if (!a.s && !b.s) {
        bool r; int64_t x = sx(a.c, w), y = sx(b.c, w);
        switch (in.pred) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; }
        f->regs[in.dst] = Val(r);
      } else {
        localSym++; P p;
        switch (in.pred) { case CmpInst::ICMP_EQ: p = vEq(a, b); break; case CmpInst::ICMP_NE: p = PC->Not(vEq(a, b)); break; case CmpInst::ICMP_ULT: p = vUlt(a, b, w, false); break; case CmpInst::ICMP_ULE: p = PC->Not(vUlt(b, a, w, false)); break; case CmpInst::ICMP_UGT: p = vUlt(b, a, w, false); break; case CmpInst::ICMP_UGE: p = PC->Not(vUlt(a, b, w, false)); break; case CmpInst::ICMP_SLT: p = vUlt(a, b, w, true); break; case CmpInst::ICMP_SLE: p = PC->Not(vUlt(b, a, w, true)); break; case CmpInst::ICMP_SGT: p = vUlt(b, a, w, true); break; default: p = PC->Not(vUlt(a, b, w, true)); }
        WB x; x.set(0, p); SET(x.done());
      }
      break; }
    case O_SELECT: {
      P c = A.bit(0); if (c < 2) { Val v = c ? B : C; f->regs[in.dst] = std::move(v); break; }
      localSym++;
      Val t = B, e = C;
      if (sameVal(t, e)) { SET(t); break; }
      if (in.ptr || (in.w != 64 && in.w != 1 && !(boolish(t) && boolish(e)))) { bool r = branchOn(c); f = &frames.back(); SET(r ? R(*f, in.b) : R(*f, in.c)); break; }
      SET(vMux(c, t, e)); break; }
    case O_TRUNC: { const Val &a = A; if (!a.s) f->regs[in.dst] = Val(a.c & wmask(in.w)); else SET(extractBits(a, 0, in.w)); break; }
    case O_COPY: { Val v = A; f->regs[in.dst] = std::move(v); break; }
    case O_SEXT: { const Val &a = A; if (!a.s) f->regs[in.dst] = Val((u64)sx(a.c, in.w2) & wmask(in.w)); else { WB b; for (int i = 0; i < in.w; i++) b.set(i, a.bit(std::min<int>(i, in.w2 - 1))); SET(b.done()); } break; }
    case O_GEP: {
      bool sym = A.s != nullptr; for (int o : in.ops) if (R(*f, o).s) sym = true;
      if (!sym) { u64 r = A.c + in.imm; for (size_t i = 0; i < in.ops.size(); i++) r += in.cases[i].first * (u64)sx(R(*f, in.ops[i]).c, in.cases[i].second); f->regs[in.dst] = Val(r); break; }
      localSym++;
      Val r = vAddC(A, Val(in.imm), 0, 64);
      for (size_t i = 0; i < in.ops.size(); i++) {
        Val x = R(*f, in.ops[i]); int w = in.cases[i].second; u64 sc = in.cases[i].first;
        if (!x.s) { r = vAddC(r, Val(sc * (u64)sx(x.c, w)), 0, 64); continue; }
        if (w < 64) { WB b; for (int k = 0; k < 64; k++) b.set(k, x.bit(std::min(k, w - 1))); x = b.done(); }
        for (int k = 0; k < 64; k++) if (sc >> k & 1) r = vAddC(r, vShl(x, k, 64), 0, 64);
      }
      SET(r); break; }
    case O_LOAD: {
      const Val &a = A;
      if (!a.s) { Val v = loadC(a.c, in.imm); if (in.w < 8 * in.imm) v = extractBits(v, 0, in.w); f->regs[in.dst] = std::move(v); }
      else { localSym++; Val v = symLoad(a, in.imm, in.ptr); if (in.w < 8 * (int)in.imm) v = extractBits(v, 0, in.w); SET(v); }
      break; }
    case O_STORE: { Val p = B; Val v = A; if (p.s) { concretise(p, 64); f = &frames.back(); v = R(*f, in.a); } storeC(p.c, in.imm, v, !in.ptr && in.w2 == 64); break; }
    case O_ALLOCA: { Val n = A; u64 k = concretise(n, 64); u64 p = newObj(in.imm * k, K_STACK, false, "stack"); frames.back().allocas.push_back(p >> 32); SET(Val(p)); break; }
    case O_CALL: {
      Fn *cf = in.callee;
      if (in.imm == 1) { // va_start
        Frame &fr = *f; u64 ap = R(fr, in.ops[0]).c;
        u64 o = newObj(8 * fr.varargs.size() + 8, K_STACK, true, "varargs"); fr.allocas.push_back(o >> 32);
        for (size_t i = 0; i < fr.varargs.size(); i++) storeC(o + 8 * i, 8, fr.varargs[i], false);
        storeC(ap, 4, Val(48), false); storeC(ap + 4, 4, Val(304), false); storeC(ap + 8, 8, Val(o), false); storeC(ap + 16, 8, Val(0), false);
        break;
      }
      if (!cf) { Val p = C; u64 a = concretise(p, 64); f = &frames.back(); u64 i = (a >> 32) - FNBASE; if (i >= fns.size()) errorPath("memory", "call of invalid function pointer"); cf = fns[i]; }
      std::vector<Val> args; args.reserve(in.ops.size()); for (int o : in.ops) args.push_back(R(*f, o));
      if (cf->isDecl) {
        bool pushed = false; Inst tmp; Inst *pi = &in; if (!in.callee) { tmp = in; tmp.callee = cf; pi = &tmp; }
        Val r = callBuiltin(*f, *pi, args, pushed);
        if (pushed) { continue; }
        if (in.dst >= 0) { if (in.w < 64) r = extractBits(r, 0, in.w); frames.back().regs[in.dst] = std::move(r); }
        break;
      }
      std::vector<u32> bv;
      for (auto &x : in.byval) { u64 p = newObj(x.second, K_STACK, false, "byval"); u64 q = args[x.first].c; for (u64 i = 0; i + 8 <= x.second; i += 8) storeC(p + i, 8, loadC(q + i, 8), false); for (u64 i = x.second & ~7ULL; i < x.second; i++) storeC(p + i, 1, loadC(q + i, 1), false); args[x.first] = Val(p); bv.push_back(p >> 32); }
      f->ip++;
      pushFrame(cf, std::move(args), in.dst);
      for (u32 o : bv) frames.back().allocas.push_back(o);
      enterPhis(frames.back());
      continue; }
    case O_RET: {
      if (in.nres > 1) {
        int dst = f->retDst; std::vector<Val> rv; for (int k = 0; k < in.nres; k++) rv.push_back(f->regs[in.a + k]);
        if (specDepth && frames.size() - 1 == stopDepth) throw SpecFail{"return"};
        popFrame(); if (frames.empty()) return FINISHED;
        if (dst >= 0) for (int k = 0; k < in.nres; k++) frames.back().regs[dst + k] = rv[k];
        continue;
      }
      Val r; if (in.imm) r = A;
      int dst = f->retDst;
      if (specDepth && frames.size() - 1 == stopDepth) throw SpecFail{"return"};
      popFrame();
      if (frames.empty()) return FINISHED;
      if (dying && frames.size() == dieDepth) throw PathEnd();
      if (dst >= 0) frames.back().regs[dst] = std::move(r);
      continue; }
    case O_BR: f->prev = f->bb; f->bb = in.b; f->ip = 0;
      if (frames.size() - 1 == stopDepth && f->bb == stopBlock) return REACHED;
      enterPhis(*f); continue;
    case O_CONDBR: {
      const Val &a = A; P c = a.bit(0); bool t;
      if (c < 2) t = c;
      else {
        localSym++;
        int ft = quickFeasible(c), ff = quickFeasible(PC->Not(c)); // 1 yes, 0 no, -1 not known
        size_t d = frames.size() - 1;
        if (ft != 0 && ff != 0) {
          if (in.active >= 40) throw SpecFail{"re-enter"};
          u64 lim = specLimit; if (ft < 0 || ff < 0) specLimit = std::min<u64>(specLimit, specSteps * (specDepth > 0) + 3000000);
          bool merged = !noMerge && in.b != in.c && !in.imm && tryMerge(d, c, in);
          specLimit = lim;
          if (merged) {
            if (frames.size() - 1 == stopDepth && frames.back().bb == stopBlock) return REACHED; // prev == -2: phis already in registers
            continue;
          }
          if (ft < 0) ft = feasible(c);
          if (ff < 0) ff = feasible(PC->Not(c));
        }
        if (ft && ff) {
          if (specDepth) throw SpecFail{"nested branch"};
          t = forkOn(c);
        } else if (ft) t = true; else if (ff) t = false;
        else { if (specDepth) throw SpecFail{"infeasible"}; throw PathEnd(); }
        f = &frames.back();
      }
      f->prev = f->bb; f->bb = t ? in.b : in.c; f->ip = 0;
      if (frames.size() - 1 == stopDepth && f->bb == stopBlock) return REACHED;
      enterPhis(*f); continue; }
    case O_SWITCH: {
      Val v = A; int to = in.b;
      if (v.s) { for (auto &c : in.cases) { P q = vEq(v, Val(c.first)); q = curForm(q); if (q == 0) continue; if (branchOn(q)) { to = c.second; break; } f = &frames.back(); v = A; } f = &frames.back(); }
      else for (auto &c : in.cases) if (c.first == v.c) to = c.second;
      f->prev = f->bb; f->bb = to; f->ip = 0;
      if (frames.size() - 1 == stopDepth && f->bb == stopBlock) return REACHED;
      enterPhis(*f); continue; }
    case O_UNREACH: errorPath("unreachable", "unreachable executed");
    case O_FADD: SET(fromD(asD(A) + asD(B))); break;
    case O_FSUB: SET(fromD(asD(A) - asD(B))); break;
    case O_FMUL: SET(fromD(asD(A) * asD(B))); break;
    case O_FDIV: SET(fromD(asD(A) / asD(B))); break;
    case O_FNEG: SET(fromD(-asD(A))); break;
    case O_FCMP: { double x = asD(A), y = asD(B); bool r = false; switch (in.pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; default: undecided("fcmp"); } SET(Val(r)); break; }
    case O_SITOFP: { Val v = A; u64 x = concretise(v, in.w2); SET(fromD((double)sx(x, in.w2))); break; }
    case O_UITOFP: { Val v = A; u64 x = concretise(v, 64); SET(fromD((double)x)); break; }
    case O_FPTOSI: SET(Val((u64)(int64_t)asD(A) & wmask(in.w))); break;
    case O_FPTOUI: SET(Val((u64)asD(A) & wmask(in.w))); break;
    case O_NOP: break;
    case O_XVAL: { std::vector<Val> t; for (int k = 0; k < in.nres; k++) t.push_back(f->regs[in.a + k]); for (int k = 0; k < in.nres; k++) f->regs[in.dst + k] = t[k]; break; }
    case O_IVAL: { Val v = B; std::vector<Val> t(in.nres); if (in.a != (int)NONE) for (int k = 0; k < in.nres; k++) t[k] = f->regs[in.a + k]; for (int k = 0; k < in.nres; k++) f->regs[in.dst + k] = t[k]; f->regs[in.dst + in.c] = v; break; }
    default: { std::string s; raw_string_ostream os(s); if (in.I) in.I->print(os); undecided("unsupported instruction " + os.str()); }
    }
    frames.back().ip++;
  }
}

#undef A
#undef B
#undef C
int main(int argc, char **argv) {
  std::vector<std::string> files; std::string entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nxt = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
    if (a == "--entry") entry = nxt(); else if (a == "--concrete") { concreteMode = true; seed = std::stoull(nxt()); }
    else if (a == "--time") timeLimit = std::stod(nxt()); else if (a == "--nomerge") noMerge = true; else if (a == "--memonly") memOnly = true; else if (a == "--paths") maxPaths = std::stoull(nxt()); else if (a == "--mem") memLimitMB = std::stoull(nxt());
    else if (a == "--out") outFile = nxt(); else if (a == "--cex") cexFile = nxt(); else if (a == "--qtimeout") qTimeoutMs = std::stoul(nxt()); else if (a == "--trace") traceMode = true; else if (a == "--forks") dump = true;
    else if (a == "--seed") seed = std::stoull(nxt());
    else if (a == "--prep") { // prepare a bitcode file: link, optimise lightly, write
      std::string o = nxt(); SMDiagnostic Err; std::unique_ptr<Module> M;
      for (i++; i < argc; i++) { auto m = parseIRFile(argv[i], Err, LC); if (!m) { Err.print("symx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3; }
      PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
      PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
      ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "function(sroa,early-cse,simplifycfg,jump-threading,simplifycfg)")) { errs() << "pipeline\n"; return 3; }
      MPM.run(*M, MAM);
      for (Function &F : *M) { // short switches become comparisons (they can be merged)
        std::vector<SwitchInst *> sw; for (BasicBlock &B : F) if (auto *SI = dyn_cast<SwitchInst>(B.getTerminator())) if (SI->getNumCases() <= 4) sw.push_back(SI);
        for (SwitchInst *SI : sw) {
          BasicBlock *B = SI->getParent(), *D = SI->getDefaultDest(); Value *V = SI->getCondition(); DebugLoc dl = SI->getDebugLoc();
          std::vector<std::pair<ConstantInt *, BasicBlock *>> cs; for (auto &c : SI->cases()) if (c.getCaseSuccessor() != D) cs.push_back({c.getCaseValue(), c.getCaseSuccessor()});
          std::set<BasicBlock *> succ(succ_begin(B), succ_end(B)); std::vector<std::pair<PHINode *, Value *>> ph;
          for (BasicBlock *S : succ) for (PHINode &p : S->phis()) { Value *x = p.getIncomingValueForBlock(B); ph.push_back({&p, x}); while (p.getBasicBlockIndex(B) >= 0) p.removeIncomingValue(B, false); }
          auto edge = [&](BasicBlock *from, BasicBlock *to) { for (auto &x : ph) if (x.first->getParent() == to) x.first->addIncoming(x.second, from); };
          SI->eraseFromParent(); BasicBlock *cur = B;
          if (cs.empty()) { BranchInst::Create(D, B)->setDebugLoc(dl); edge(B, D); continue; }
          for (size_t k = 0; k < cs.size(); k++) {
            BasicBlock *nx = k + 1 < cs.size() ? BasicBlock::Create(LC, "sw", &F) : D;
            auto *c = new ICmpInst(*cur, ICmpInst::ICMP_EQ, V, cs[k].first); c->setDebugLoc(dl);
            BranchInst::Create(cs[k].second, nx, c, cur)->setDebugLoc(dl); edge(cur, cs[k].second); if (nx == D) edge(cur, D); cur = nx;
          }
        }
      }
      for (Function &F : *M) if (!F.isDeclaration()) { // merging relies on loop-closed SSA form, which needs natural loops
        DominatorTree DT(F); LoopInfo LI(DT); ReversePostOrderTraversal<const Function *> RPO(&F);
        if (containsIrreducibleCFG<const BasicBlock *>(RPO, LI)) F.addFnAttr("symx-nomerge");
      }
      ModulePassManager MP2; FunctionAnalysisManager FAM2; ModuleAnalysisManager MAM2; CGSCCAnalysisManager CAM2; LoopAnalysisManager LAM2; PassBuilder PB2;
      PB2.registerModuleAnalyses(MAM2); PB2.registerCGSCCAnalyses(CAM2); PB2.registerFunctionAnalyses(FAM2); PB2.registerLoopAnalyses(LAM2); PB2.crossRegisterProxies(LAM2, FAM2, CAM2, MAM2);
      if (auto e = PB2.parsePassPipeline(MP2, "function(lcssa)")) { errs() << "pipeline\n"; return 3; }
      MP2.run(*M, MAM2);
      std::error_code EC; raw_fd_ostream os(o, EC); WriteBitcodeToFile(*M, os); return 0;
    } else if (a == "--link") { // harness + prepared library in one bitcode file, loaded lazily later
      std::string o = nxt(); SMDiagnostic Err; std::unique_ptr<Module> M;
      for (i++; i < argc; i++) { auto m = parseIRFile(argv[i], Err, LC); if (!m) { Err.print("symx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3; }
      std::error_code EC; raw_fd_ostream os(o, EC); WriteBitcodeToFile(*M, os); return 0;
    } else if (a == "--") { for (i++; i < argc; i++) params.push_back(std::stol(argv[i])); }
    else files.push_back(a);
  }
  signal(SIGPIPE, SIG_IGN);
  SMDiagnostic Err;
  if (files.size() == 1) { MOD = getLazyIRFileModule(files[0], Err, LC); if (!MOD) { Err.print("symx", errs()); return 3; } }
  else for (auto &fn : files) { auto m = parseIRFile(fn, Err, LC); if (!m) { Err.print("symx", errs()); return 3; } if (!MOD) MOD = std::move(m); else if (Linker::linkModules(*MOD, std::move(m))) { fprintf(stderr, "link failed\n"); return 3; } }
  if (!MOD) return 3;
  DL = &MOD->getDataLayout();
  PC = new PolyCtx(); PC->rng = seed * 77777 + 5; Z = new z3::context();
  prngState = seed;
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(SH, 0, sizeof *SH); SH->t0 = now();
  for (int k = 0; k < NS; k++) live[k] = ~0ULL;
  for (auto &F : *MOD) getFn(&F);
  for (auto &G : MOD->globals()) globalAddr(&G);
  for (auto &G : MOD->globals()) if (G.hasInitializer()) initMem(globalAddr(&G), G.getInitializer());
  Function *E = MOD->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  pid_t root = getpid();
  try {
    std::vector<Val> none; pushFrame(getFn(E), std::move(none), -1); enterPhis(frames.back());
    bool ended = false;
    try { run((size_t)-1, -1, nullptr); } catch (PathEnd &) { ended = true; }
    if (!ended || dying) { if (ended || true) { reachCheck(); finishPath(); } }
  } catch (PathEnd &) {
  } catch (SpecFail &e) { SH->undecided++; snprintf(SH->undecidedWhy, 255, "internal: stray speculation failure %s", e.why);
  } catch (OutOfBudget &e) { SH->undecided++; snprintf(SH->undecidedWhy, 255, "%s", e.what());
  } catch (std::bad_alloc &) { SH->undecided++; snprintf(SH->undecidedWhy, 255, "out of memory");
  } catch (z3::exception &e) { SH->undecided++; snprintf(SH->undecidedWhy, 255, "z3: %s", e.msg()); }
  flushStats();
  SH->maxTerms = std::max<u64>(SH->maxTerms, PC->polys.size());
  if (getpid() != root) _exit(0);
  double wall = now() - SH->t0;
  FILE *o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
  if (!o) return 3;
  const char *st = SH->violations ? "violation" : SH->undecided ? "undecided" : SH->paths ? "holds" : "vacuous";
  fprintf(o, "{\"status\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"merge_rejects\":%llu,\"instrs\":%llu,\"sym_instrs\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"assert_bits\":%llu,\"assert_const\":%llu,\"normalised_paths\":%llu,\"sym_loads\":%llu,\"terms\":%llu,\"vars\":%llu,\"violations\":%llu,\"undecided\":%llu,\"digest\":\"%016llx\",\"wall_s\":%.3f,\"why\":", st,
    (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->merges, (unsigned long long)SH->mergeRejects, (unsigned long long)SH->instrs, (unsigned long long)SH->symInstrs, (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, SH->solverUs / 1e6, (unsigned long long)SH->assertBits, (unsigned long long)SH->assertTrivial, (unsigned long long)SH->trivialPaths, (unsigned long long)SH->symLoads, (unsigned long long)SH->maxTerms, (unsigned long long)PC->vars.size(), (unsigned long long)SH->violations, (unsigned long long)SH->undecided, (unsigned long long)digest, wall);
  jsonEsc(o, SH->undecidedWhy);
  fprintf(o, ",\"functions\":[");
  bool first = true; for (size_t i = 0; i < fns.size() && i < 8192; i++) if (SH->fn[i]) { if (!first) fputc(',', o); first = false; DISubprogram *sp = fns[i]->F->getSubprogram(); jsonEsc(o, fns[i]->name + "@" + (sp && sp->getFile() ? (sp->getFile()->getFilename()).str() : std::string())); }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
  fflush(stdout); _exit(0);
}
