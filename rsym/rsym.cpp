// rsym: path-wise symbolic executor for whole-program LLVM bitcode produced by rustc (fat LTO),
// deciding branch feasibility and assertions with Z3 (QF_BV).  One run = one harness function:
// every feasible path is explored; an assertion is discharged when  path /\ !assertion  is unsat.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- z3 layer
static Z3_context Z;
static Z3_solver S;
struct E {
  Z3_ast a = nullptr;
  E() {}
  E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  E(const E &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  E(E &&o) noexcept : a(o.a) { o.a = nullptr; }
  E &operator=(const E &o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  E &operator=(E &&o) noexcept { std::swap(a, o.a); return *this; }
  ~E() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a != nullptr; }
};
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); _exit(3); }
static E simp(const E &e) { return E(Z3_simplify(Z, e.a)); }
static bool isNum(const E &e) { return Z3_get_ast_kind(Z, e.a) == Z3_NUMERAL_AST; }
static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static E bvn(u128 v, unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> so;
  Z3_sort &s = so[w];
  if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
  if (w <= 64) return E(Z3_mk_unsigned_int64(Z, (u64)v, s));
  if (w <= 128) {
    E hi(bvn(v >> 64, w - 64)), lo(bvn((u64)v, 64));
    return simp(E(Z3_mk_concat(Z, hi.a, lo.a)));
  }
  return E(Z3_mk_zero_ext(Z, w - 128, bvn(v, 128).a));
}
static u128 numVal(const E &e) {
  std::string s = Z3_get_numeral_string(Z, e.a);
  u128 r = 0; for (char c : s) r = r * 10 + (c - '0');
  return r;
}
static E mkTrue() { return E(Z3_mk_true(Z)); }
static E mkNot(const E &e) { return simp(E(Z3_mk_not(Z, e.a))); }
static E mkAnd(const E &x, const E &y) { Z3_ast v[2] = {x.a, y.a}; return simp(E(Z3_mk_and(Z, 2, v))); }
static E mkOr(const E &x, const E &y) { Z3_ast v[2] = {x.a, y.a}; return simp(E(Z3_mk_or(Z, 2, v))); }
static E mkIte(const E &c, const E &x, const E &y) { return simp(E(Z3_mk_ite(Z, c.a, x.a, y.a))); }
static E mkEq(const E &x, const E &y) { return simp(E(Z3_mk_eq(Z, x.a, y.a))); }
static int boolVal(const E &e) { Z3_lbool b = Z3_get_bool_value(Z, e.a); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1; }

// ---------------------------------------------------------------- values
struct Val {
  unsigned w = 0;           // bits; 0 = void/aggregate
  u128 c = 0;               // concrete value (when !e && !agg)
  E e;                      // symbolic: Bool sort when w==1, else BV(w)
  std::shared_ptr<std::vector<Val>> agg;
  bool sym() const { return (bool)e; }
};
static Val C(u128 v, unsigned w) { Val r; r.w = w; r.c = v & mask(w); return r; }
static Val mk(const E &e0, unsigned w) { // normalise
  Val r; r.w = w;
  if (w == 1) { int b = boolVal(e0); if (b >= 0) { r.c = b; return r; } r.e = e0; return r; }
  if (w <= 128 && isNum(e0)) { r.c = numVal(e0); return r; }
  r.e = e0; return r;
}
static E toBV(const Val &v) { // BV(w) expression, w==1 becomes BV(1)
  if (v.w == 1) { if (!v.sym()) return bvn(v.c, 1); return mkIte(v.e, bvn(1, 1), bvn(0, 1)); }
  return v.sym() ? v.e : bvn(v.c, v.w);
}
static E toBool(const Val &v) { if (v.w != 1) { fprintf(stderr, "toBool width %u\n", v.w); abort(); } return v.sym() ? v.e : (v.c ? mkTrue() : E(Z3_mk_false(Z))); }
static Val fromBool(const E &e) { return mk(e, 1); }
static Val fromBV(const E &e, unsigned w) { if (w == 1) return fromBool(mkEq(e, bvn(1, 1))); return mk(e, w); }
static i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

// ---------------------------------------------------------------- memory
struct SB { E e; uint8_t idx = 0; }; // byte idx (little endian) of expression e
struct Obj {
  u64 base, size; bool ro = false; const char *kind = "";
  std::vector<uint8_t> by; std::vector<SB> sy; // sy empty or size
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
  struct FnInfo *fi; unsigned bb = 0, pc = 0; int prevbb = -1;
  std::vector<Val> regs; const CallBase *call = nullptr; std::vector<u64> allocas;
};
struct Input { std::string name; std::vector<E> bytes; };
struct State {
  std::vector<Frame> st; std::map<u64, ObjP> mem; std::vector<E> pc;
  std::shared_ptr<Z3_model> model; std::vector<Input> inputs; std::vector<std::string> trace; u64 steps = 0; u64 nextAddr; std::map<unsigned, std::pair<E, u128>> known; E pend; unsigned hard = 0;
};

struct Ins { const Instruction *I; int dst = -1; std::vector<int> ops; std::vector<Val> k; };
struct FnInfo { Function *F; std::vector<std::vector<Ins>> bbs; std::unordered_map<const BasicBlock *, unsigned> bbix; unsigned nregs = 0; std::unordered_map<const Value *, int> slot; std::string name, dem; int special = 0; };

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fis;
static std::unordered_map<const GlobalValue *, u64> gaddr; static std::map<u64, const Function *> faddr;
static std::map<u64, ObjP> roMem; // constant globals shared by all states
static u64 brk_ = 0x100000, fbrk = 0x1000;
static std::vector<std::unique_ptr<State>> work;
static u64 nQueries = 0, nPaths = 0, nSteps = 0, nAsserts = 0, nUnknown = 0, nForks = 0, nCachedSat = 0; static double tSolve = 0, t0, maxq = 0;
static std::set<std::string> fnsSeen; static std::map<std::string, u64> covers, asserts; static std::string lastUnknown;
static double timeLimit = 600; static u64 maxSteps = 400000000ull; static bool verbose = false;
static std::string outPath;
struct Viol { std::string label, kind; std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs; std::string where; };
static std::vector<Viol> viols; static unsigned maxViols = 1; static std::string failure; // engine failure
struct Stop {}; // abort whole run
static std::vector<std::vector<std::pair<std::string, std::vector<uint8_t>>>> samples; static unsigned maxSamples = 4; static u64 nDone = 0;
struct PathEnd {};
static std::vector<std::string> ignoreIds;

static std::string where(State &s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && i >= (int)s.st.size() - 8; i--) { r += s.st[i].fi->dem; r += " <- "; }
  return r;
}
[[noreturn]] static void die(State *s, const std::string &m) { failure = m + (s ? " at " + where(*s) : ""); throw Stop(); }

// ---------------------------------------------------------------- solver
static std::vector<E> stk; // asserted stack
static void sync(State &s) {
  size_t i = 0; while (i < stk.size() && i < s.pc.size() && stk[i].a == s.pc[i].a) i++;
  if (stk.size() > i) { Z3_solver_pop(Z, S, stk.size() - i); stk.resize(i); }
  for (; i < s.pc.size(); i++) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, s.pc[i].a); stk.push_back(s.pc[i]); }
}
static std::shared_ptr<Z3_model> getModel() {
  Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
  return std::shared_ptr<Z3_model>(new Z3_model(m), [](Z3_model *p) { Z3_model_dec_ref(Z, *p); delete p; });
}
static int evalBool(State &s, const E &c) {
  if (!s.model) return -1;
  Z3_ast r; if (!Z3_model_eval(Z, *s.model, c.a, true, &r)) return -1;
  E k(r); int b = boolVal(k); return b;
}
static u128 evalBV(State &s, const E &c) { Z3_ast r; Z3_model_eval(Z, *s.model, c.a, true, &r); E k(r); k = simp(k); return numVal(k); }
// Decide pc /\ extra: the incremental solver first, with a short budget; when that runs out, a fresh
// one-shot run of Z3's qfbv tactic over the same constraints (much stronger on arithmetic).
static Z3_solver S1; static u64 nOneShot = 0; static unsigned incLimit = 500000;
// resource limits, not wall-clock timeouts: deterministic, and no timer threads inside Z3
static void setLimit(Z3_solver sv, unsigned n) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), n); Z3_solver_set_params(Z, sv, p); Z3_params_dec_ref(Z, p); }
static void freshIncremental() {
  if (S) Z3_solver_dec_ref(Z, S); stk.clear();
  S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, S); setLimit(S, incLimit);
}
static Z3_lbool solve(State &s, const std::vector<E> &extra, std::shared_ptr<Z3_model> *m) {
  nQueries++; double t = now(); Z3_lbool r = Z3_L_UNDEF; bool inc = s.hard < 3;
  if (inc) {
    sync(s); Z3_solver_push(Z, S); for (auto &e : extra) Z3_solver_assert(Z, S, e.a);
    r = Z3_solver_check(Z, S); if (r == Z3_L_TRUE && m) *m = getModel();
    Z3_solver_pop(Z, S, 1);
  }
  if (r == Z3_L_UNDEF) {
    if (inc) freshIncremental(); // an interrupted incremental solver is not reused
    s.hard++; nOneShot++;
    if (!S1) { Z3_tactic tc = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tc); S1 = Z3_mk_solver_from_tactic(Z, tc); Z3_solver_inc_ref(Z, S1); }
    Z3_solver_reset(Z, S1); for (auto &e : s.pc) Z3_solver_assert(Z, S1, e.a); for (auto &e : extra) Z3_solver_assert(Z, S1, e.a);
    r = Z3_solver_check(Z, S1); if (r == Z3_L_TRUE && m) { Z3_model mm = Z3_solver_get_model(Z, S1); Z3_model_inc_ref(Z, mm); *m = std::shared_ptr<Z3_model>(new Z3_model(mm), [](Z3_model *p) { Z3_model_dec_ref(Z, *p); delete p; }); }
  }
  double d = now() - t; tSolve += d; if (d > maxq) maxq = d; if (!inc && d < 0.02 && s.hard > 3) s.hard--;
  if (now() - t0 > timeLimit) die(&s, "time limit");
  if (r == Z3_L_UNDEF) { nUnknown++; lastUnknown = where(s); die(&s, "solver unknown (timeout)"); }
  return r;
}
// 1 sat, 0 unsat
static int check(State &s, const E &extra, std::shared_ptr<Z3_model> *m) {
  int b = boolVal(extra); if (b == 0) return 0;
  return solve(s, {extra}, m) == Z3_L_TRUE ? 1 : 0;
}
static void addPC(State &s, const E &c) {
  if (boolVal(c) == 1) return;
  s.pc.push_back(c);
  if (Z3_get_ast_kind(Z, c.a) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, c.a))) == Z3_OP_EQ) {
    Z3_ast x = Z3_get_app_arg(Z, Z3_to_app(Z, c.a), 0), y = Z3_get_app_arg(Z, Z3_to_app(Z, c.a), 1);
    if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST || Z3_get_ast_kind(Z, y) == Z3_NUMERAL_AST) s.pend = c;
  }
}
// An equality with a constant may fix an input variable: then replace the variable by its value
// everywhere in the state (path condition, registers, memory), so the rest of the path is concrete.
static u64 nPins = 0;
static bool soleVar(Z3_ast a, Z3_ast &v, unsigned &budget) {
  if (budget == 0) return false; budget--;
  if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) return true;
  if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return false;
  Z3_app p = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, p);
  if (n == 0) { if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p)) != Z3_OP_UNINTERPRETED) return true; if (v && v != a) return false; v = a; return true; }
  for (unsigned i = 0; i < n; i++) if (!soleVar(Z3_get_app_arg(Z, p, i), v, budget)) return false;
  return true;
}
static void pin(State &s) {
  E c = s.pend; s.pend = E(); Z3_ast v = nullptr; unsigned budget = 60;
  if (!soleVar(c.a, v, budget) || !v) return;
  E var(v); unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, v)); if (w > 128) return;
  if (!s.model) { std::shared_ptr<Z3_model> m; if (check(s, mkTrue(), &m) != 1) throw PathEnd(); s.model = m; }
  E val = bvn(evalBV(s, var), w);
  E ne = mkNot(mkEq(var, val)); if (check(s, ne, nullptr) == 1) return;
  nPins++;
  Z3_ast from = var.a, to = val.a; std::unordered_map<Z3_ast, E> memo; std::vector<E> keep;
  auto sub = [&](const E &e) -> E { auto it = memo.find(e.a); if (it != memo.end()) return it->second; E r = simp(E(Z3_substitute(Z, e.a, 1, &from, &to))); keep.push_back(e); memo[e.a] = r; return r; };
  std::vector<E> npc; for (auto &e : s.pc) { E r = sub(e); if (boolVal(r) != 1) npc.push_back(r); } npc.push_back(E(Z3_mk_eq(Z, var.a, val.a))); s.pc = npc;
  std::function<void(Val &)> fix = [&](Val &x) {
    if (x.agg) { bool any = false; std::function<bool(const Val &)> has = [&](const Val &y) { if (y.agg) { for (auto &z : *y.agg) if (has(z)) return true; return false; } return y.sym(); }; any = has(x); if (!any) return; x.agg = std::make_shared<std::vector<Val>>(*x.agg); for (auto &z : *x.agg) fix(z); return; }
    if (!x.sym()) return; E r = sub(x.e); if (r.a != x.e.a) x = mk(r, x.w); };
  for (auto &f : s.st) for (auto &r : f.regs) fix(r);
  for (auto &p : s.mem) { Obj *o = p.second.get(); if (o->sy.empty()) continue; bool ch = false;
    for (u64 i = 0; i < o->size && !ch; i++) if (o->sy[i].e && sub(o->sy[i].e).a != o->sy[i].e.a) ch = true;
    if (!ch) continue; if (p.second.use_count() > 1) { p.second = std::make_shared<Obj>(*o); o = p.second.get(); }
    for (u64 i = 0; i < o->size; i++) { SB &b = o->sy[i]; if (!b.e) continue; E r = sub(b.e); if (r.a == b.e.a) continue;
      unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, r.a));
      if (isNum(r) && ew <= 128) { o->by[i] = (uint8_t)(numVal(r) >> (8 * b.idx)); b.e = E(); b.idx = 0; } else b.e = r; } }
}
static std::unique_ptr<State> clone(State &s) { nForks++; return std::make_unique<State>(s); }

static void report(State &s, const std::string &kind, const std::string &label) {
  Viol v; v.label = label; v.kind = kind; v.where = where(s);
  for (auto &in : s.inputs) {
    std::vector<uint8_t> b; for (auto &e : in.bytes) b.push_back((uint8_t)evalBV(s, e));
    v.inputs.push_back({in.name, b});
  }
  viols.push_back(v);
  if (viols.size() >= maxViols) throw Stop();
}
static void ensureModel(State &s);
static void sample(State &s) { // a completed path: keep concrete inputs that drive it, for native replay
  nDone++; if (samples.size() >= maxSamples || (nDone & (nDone - 1))) return;
  ensureModel(s); samples.emplace_back();
  for (auto &in : s.inputs) { std::vector<uint8_t> b; for (auto &e : in.bytes) b.push_back((uint8_t)evalBV(s, e)); samples.back().push_back({in.name, b}); }
}
static void ensureModel(State &s) { if (!s.model) { std::shared_ptr<Z3_model> m; int r = check(s, mkTrue(), &m); if (r != 1) throw PathEnd(); s.model = m; } }

// ---------------------------------------------------------------- memory ops
static ObjP newObj(State &s, u64 size, const char *kind, u64 align = 16) {
  if (align < 16) align = 16;
  u64 b = (s.nextAddr + align - 1) / align * align; s.nextAddr = b + size + 32;
  auto o = std::make_shared<Obj>(); o->base = b; o->size = size; o->kind = kind; o->by.assign(size, 0); s.mem[b] = o; return o;
}
static Obj *findObj(State &s, u64 a, u64 n) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; Obj *o = it->second.get(); if (a >= o->base && a + n <= o->base + o->size) return o; }
  auto j = roMem.upper_bound(a);
  if (j != roMem.begin()) { --j; Obj *o = j->second.get(); if (a >= o->base && a + n <= o->base + o->size) return o; }
  return nullptr;
}
static Obj *wObj(State &s, u64 a, u64 n) {
  auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it;
  if (!(a >= it->second->base && a + n <= it->second->base + it->second->size)) return nullptr;
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static Val rdBytes(Obj *o, u64 off, unsigned n) { // returns BV(8n)
  bool anysym = false;
  if (!o->sy.empty()) for (unsigned i = 0; i < n; i++) if (o->sy[off + i].e) { anysym = true; break; }
  if (!anysym) {
    if (n <= 16) { u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o->by[off + i] << (8 * i); return C(v, 8 * n); }
  }
  // group
  E acc; unsigned i = 0;
  while (i < n) {
    E part;
    if (o->sy.empty() || !o->sy[off + i].e) {
      unsigned j = i; u128 v = 0; while (j < n && j - i < 8 && (o->sy.empty() || !o->sy[off + j].e)) { v |= (u128)o->by[off + j] << (8 * (j - i)); j++; }
      part = bvn(v, 8 * (j - i)); i = j;
    } else {
      SB &b = o->sy[off + i]; unsigned j = i + 1;
      while (j < n && o->sy[off + j].e.a == b.e.a && o->sy[off + j].idx == b.idx + (j - i)) j++;
      unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, b.e.a));
      if (b.idx == 0 && (j - i) * 8 == ew) part = b.e;
      else part = simp(E(Z3_mk_extract(Z, (b.idx + (j - i)) * 8 - 1, b.idx * 8, b.e.a)));
      i = j;
    }
    acc = acc ? E(Z3_mk_concat(Z, part.a, acc.a)) : part;
  }
  return mk(simp(acc), 8 * n);
}
static void wrBytes(Obj *o, u64 off, const Val &v, unsigned n) { // v.w == 8n
  if (!v.sym()) {
    for (unsigned i = 0; i < n; i++) { o->by[off + i] = i < 16 ? (uint8_t)(v.c >> (8 * i)) : 0; if (!o->sy.empty()) o->sy[off + i].e = E(); }
    return;
  }
  if (o->sy.empty()) o->sy.resize(o->size);
  for (unsigned i = 0; i < n; i++) { o->sy[off + i].e = v.e; o->sy[off + i].idx = i; }
}
// Resolve a possibly symbolic address of an n-byte access.  Returns the candidate addresses (all
// inside one object); forks the current state for the part of the address space outside it.
static bool enumVals(State &s, const E &e, unsigned limit, std::vector<u128> &out) {
  out.clear(); ensureModel(s);
  bool ok = true; std::vector<E> nes; std::shared_ptr<Z3_model> m;
  u128 v = evalBV(s, e); unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e.a));
  for (;;) {
    out.push_back(v); if (out.size() > limit) { ok = false; break; }
    nes.push_back(mkNot(mkEq(e, bvn(v, w)))); if (boolVal(nes.back()) == 0 || solve(s, nes, &m) != Z3_L_TRUE) break;
    Z3_ast rr; Z3_model_eval(Z, *m, e.a, true, &rr); { E k(rr); k = simp(k); v = numVal(k); }
  }
  return ok;
}
// make v concrete by forking on every feasible value
static u128 concretize(State &s, Val &v, unsigned limit = 600) {
  if (!v.sym()) return v.c;
  std::vector<u128> vs; E bv = toBV(v);
  unsigned id = Z3_get_ast_id(Z, bv.a); { auto k = s.known.find(id); if (k != s.known.end()) { v = C(k->second.second, v.w); return v.c; } }
  if (!enumVals(s, bv, limit, vs)) die(&s, "too many values to concretise");
  for (size_t i = 1; i < vs.size(); i++) { auto n = clone(s); addPC(*n, mkEq(bv, bvn(vs[i], v.w))); n->known[id] = {bv, vs[i]}; n->model.reset(); work.push_back(std::move(n)); }
  s.known[id] = {bv, vs[0]}; if (vs.size() > 1) addPC(s, mkEq(bv, bvn(vs[0], v.w))); // vs[0] is the value in the current model; re-executed instruction sees one value
  v = C(vs[0], v.w); return v.c;
}
static void memError(State &s, u64 a, u64 n, const char *what) { if (verbose) { std::string str; raw_string_ostream os(str); s.st.back().fi->bbs[s.st.back().bb][s.st.back().pc].I->print(os); fprintf(stderr, "memError: %s\n", str.c_str()); auto it = s.mem.upper_bound(a); if (it != s.mem.begin()) { --it; fprintf(stderr, "nearest %s base=%llx size=%llu\n", it->second->kind, (unsigned long long)it->second->base, (unsigned long long)it->second->size); } Frame &f = s.st.back(); for (size_t i = 0; i < f.regs.size(); i++) if (!f.regs[i].sym() && !f.regs[i].agg) fprintf(stderr, " r%zu=%llx", i, (unsigned long long)f.regs[i].c); fprintf(stderr, "\n"); } ensureModel(s); char b[100]; snprintf(b, sizeof b, "invalid memory %s addr=%llx len=%llu", what, (unsigned long long)a, (unsigned long long)n); report(s, "memory", b); throw PathEnd(); }
static Val ldRaw(State &s, Val addr, unsigned n);
static Obj *resolveSym(State &s, const Val &addr, u64 n, std::vector<u128> &addrs, bool &many) {
  { auto k = s.known.find(Z3_get_ast_id(Z, addr.e.a)); if (k != s.known.end()) { addrs.assign(1, k->second.second); many = false; Obj *o = findObj(s, (u64)addrs[0], n); if (!o) memError(s, (u64)addrs[0], n, "access"); return o; } }
  ensureModel(s);
  u64 a0 = (u64)evalBV(s, addr.e);
  Obj *o = findObj(s, a0, n);
  if (!o) memError(s, a0, n, "access (symbolic)");
  E lo(Z3_mk_bvuge(Z, addr.e.a, bvn(o->base, 64).a)), hi(Z3_mk_bvule(Z, addr.e.a, bvn(o->base + o->size - n, 64).a));
  E in = mkAnd(lo, hi), out = mkNot(in);
  std::shared_ptr<Z3_model> m;
  if (boolVal(out) != 0 && check(s, out, &m) == 1) { auto ns = clone(s); addPC(*ns, out); ns->model = m; work.push_back(std::move(ns)); addPC(s, in); }
  many = !enumVals(s, addr.e, 40, addrs);
  if (addrs.size() == 1) s.known[Z3_get_ast_id(Z, addr.e.a)] = {addr.e, addrs[0]};
  return o;
}
static E iteTree(Obj *o, const E &addr, unsigned n, u64 stride, u64 off0, u64 lo, u64 hi) { // leaves lo..hi (inclusive) index
  if (lo == hi) { return toBV(rdBytes(o, off0 + lo * stride, n)); }
  u64 mid = (lo + hi + 1) / 2;
  E a = iteTree(o, addr, n, stride, off0, lo, mid - 1), b = iteTree(o, addr, n, stride, off0, mid, hi);
  if (a.a == b.a) return a;
  E c(Z3_mk_bvult(Z, addr.a, bvn(o->base + off0 + mid * stride, 64).a));
  return E(Z3_mk_ite(Z, c.a, a.a, b.a));
}
static Val ldRaw(State &s, Val addr, unsigned n) { // BV(8n)
  if (n == 0) return C(0, 8);
  if (!addr.sym()) { Obj *o = findObj(s, (u64)addr.c, n); if (!o) memError(s, (u64)addr.c, n, "read"); return rdBytes(o, (u64)addr.c - o->base, n); }
  std::vector<u128> as; bool many; Obj *o = resolveSym(s, addr, n, as, many);
  if (!many) {
    std::sort(as.begin(), as.end());
    E acc = toBV(rdBytes(o, (u64)as[0] - o->base, n));
    for (size_t i = 1; i < as.size(); i++) acc = mkIte(mkEq(addr.e, bvn(as[i], 64)), toBV(rdBytes(o, (u64)as[i] - o->base, n)), acc);
    return fromBV(acc, 8 * n);
  }
  // stride: largest power-of-two-or-odd divisor provable
  u64 strides[] = {64, 48, 40, 32, 24, 16, 12, 8, 6, 4, 3, 2, 1}; u64 a0 = (u64)as[0]; u64 g = 0; for (auto a : as) { u64 d = (u64)a > a0 ? (u64)a - a0 : a0 - (u64)a; u64 x = g, y = d; while (y) { u64 t = x % y; x = y; y = t; } g = x; }
  for (u64 st : strides) {
    if (g % st) continue;
    u64 r = (a0 - o->base) % st;
    if (st > 1) {
      E rel(Z3_mk_bvsub(Z, addr.e.a, bvn(o->base + r, 64).a)); E rem(Z3_mk_bvurem(Z, rel.a, bvn(st, 64).a)); E bad = mkNot(mkEq(rem, bvn(0, 64)));
      if (boolVal(bad) != 0 && check(s, bad, nullptr) == 1) continue;
    }
    u64 cnt = (o->size - n - r) / st + 1; if (cnt > 70000) die(&s, "symbolic read of huge object");
    E t = iteTree(o, addr.e, n, st, r, 0, cnt - 1);
    return fromBV(t, 8 * n);
  }
  die(&s, "symbolic read");
}
static void stRaw(State &s, Val addr, const Val &v, unsigned n) {
  if (n == 0) return;
  if (!addr.sym()) { Obj *o = wObj(s, (u64)addr.c, n); if (!o) memError(s, (u64)addr.c, n, "write"); wrBytes(o, (u64)addr.c - o->base, v, n); return; }
  std::vector<u128> as; bool many; Obj *o = resolveSym(s, addr, n, as, many);
  if (many) { if (!enumVals(s, addr.e, 600, as)) die(&s, "symbolic write with too many targets"); }
  o = wObj(s, (u64)as[0], n); if (!o) memError(s, (u64)as[0], n, "write (ro)");
  for (auto a : as) { u64 off = (u64)a - o->base; Val old = rdBytes(o, off, n); Val nv = fromBV(mkIte(mkEq(addr.e, bvn(a, 64)), toBV(v), toBV(old)), 8 * n); wrBytes(o, off, nv, n); }
}
static Val zextTo(const Val &v, unsigned w) { if (v.w == w) return v; if (!v.sym()) { if (w <= 128) return C(v.c, w); return mk(simp(bvn(v.c, w)), w); } return mk(simp(E(Z3_mk_zero_ext(Z, w - v.w, toBV(v).a))), w); }
static Val truncTo(const Val &v, unsigned w) { if (v.w == w) return v; if (!v.sym()) return C(v.c, w); return fromBV(simp(E(Z3_mk_extract(Z, w - 1, 0, toBV(v).a))), w); }
static Val sextTo(const Val &v, unsigned w) { if (v.w == w) return v; if (!v.sym() && w <= 128) return C((u128)sx(v.c, v.w), w); return mk(simp(E(Z3_mk_sign_ext(Z, w - v.w, toBV(v).a))), w); }
static Val addrAdd(const Val &a, u64 off) { if (!a.sym()) return C(a.c + off, 64); return mk(simp(E(Z3_mk_bvadd(Z, a.e.a, bvn(off, 64).a))), 64); }
static unsigned bits(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80; if (t->isFP128Ty()) return 128;
  return 0;
}
static Val load(State &s, Type *t, const Val &addr) {
  if (auto *st = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(load(s, st->getElementType(i), addrAdd(addr, sl->getElementOffset(i)))); return r; }
  if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(load(s, at->getElementType(), addrAdd(addr, i * es))); return r; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>(); unsigned eb = bits(vt->getElementType());
    if (eb % 8) { unsigned n = DL->getTypeStoreSize(t); Val raw = ldRaw(s, addr, n); for (unsigned i = 0; i < vt->getNumElements(); i++) { E x(Z3_mk_extract(Z, (i + 1) * eb - 1, i * eb, toBV(raw).a)); r.agg->push_back(fromBV(simp(x), eb)); } return r; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(load(s, vt->getElementType(), addrAdd(addr, (u64)i * eb / 8))); return r; }
  unsigned w = bits(t); if (!w) die(&s, "load of unsupported type");
  unsigned n = (w + 7) / 8; Val v = ldRaw(s, addr, n); return v.w == w ? v : truncTo(v, w);
}
static void store(State &s, Type *t, const Val &v, const Val &addr) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store(s, st->getElementType(i), (*v.agg)[i], addrAdd(addr, sl->getElementOffset(i))); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) store(s, at->getElementType(), (*v.agg)[i], addrAdd(addr, i * es)); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned eb = bits(vt->getElementType()); if (eb % 8) die(&s, "store of bit vector"); for (unsigned i = 0; i < vt->getNumElements(); i++) store(s, vt->getElementType(), (*v.agg)[i], addrAdd(addr, (u64)i * eb / 8)); return; }
  unsigned w = bits(t); if (!w) die(&s, "store of unsupported type"); unsigned n = (w + 7) / 8; stRaw(s, addr, zextTo(v, n * 8), n);
}

// ---------------------------------------------------------------- constants / globals
static Val constVal(State *s, const Constant *c);
static u64 addrOf(const GlobalValue *g);
static void initConst(Obj *o, u64 off, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(ca->getElementType()); for (unsigned i = 0; i < ca->getNumElements(); i++) initConst(o, off + i * es, ca->getElementAsConstant(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) initConst(o, off + i * es, cv->getOperand(i)); return; }
  Val v = constVal(nullptr, c); unsigned n = (v.w + 7) / 8; wrBytes(o, off, zextTo(v, n * 8), n);
}
static std::vector<const GlobalVariable *> mutGlobals;
static u64 addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) { u64 a = fbrk; fbrk += 16; gaddr[g] = a; faddr[a] = f; return a; }
  if (auto *al = dyn_cast<GlobalAlias>(g)) { Val v = constVal(nullptr, al->getAliasee()); gaddr[g] = (u64)v.c; return (u64)v.c; }
  auto *v = cast<GlobalVariable>(g); u64 sz = DL->getTypeAllocSize(v->getValueType()); u64 al = std::max<u64>(16, DL->getPreferredAlign(v).value());
  u64 b = (brk_ + al - 1) / al * al; brk_ = b + std::max<u64>(sz, 1) + 32; gaddr[g] = b;
  return b;
}
static ObjP globalObj(const GlobalVariable *v) {
  auto o = std::make_shared<Obj>(); o->base = addrOf(v); o->size = DL->getTypeAllocSize(v->getValueType()); o->by.assign(o->size, 0); o->kind = "global"; o->ro = v->isConstant();
  if (v->hasInitializer()) initConst(o.get(), 0, v->getInitializer());
  return o;
}
static Val constVal(State *s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); const APInt &a = ci->getValue(); if (w <= 64) return C(a.getZExtValue(), w); u128 v = a.getRawData()[0]; v |= (u128)a.getRawData()[1] << 64; if (w <= 128) return C(v, w); E e; for (unsigned i = 0; i < w; i += 64) { unsigned k = std::min(64u, w - i); E p = bvn(a.extractBitsAsZExtValue(k, i), k); e = e ? E(Z3_mk_concat(Z, p.a, e.a)) : p; } Val r; r.w = w; r.e = simp(e); return r; }
  if (isa<ConstantPointerNull>(c)) return C(0, 64);
  if (auto *g = dyn_cast<GlobalValue>(c)) return C(addrOf(g), 64);
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return C(v, a.getBitWidth()); }
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto *et : st->elements()) r.agg->push_back(constVal(s, Constant::getNullValue(et))); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(constVal(s, Constant::getNullValue(at->getElementType()))); return r; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(C(0, bits(vt->getElementType()))); return r; }
    unsigned w = bits(t); return C(0, w ? w : 1);
  }
  if (auto *cs = dyn_cast<ConstantAggregate>(c)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &op : cs->operands()) r.agg->push_back(constVal(s, cast<Constant>(op.get()))); return r; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constVal(s, cd->getElementAsConstant(i))); return r; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) die(s, "const gep"); Val b = constVal(s, cast<Constant>(g->getPointerOperand())); return C(b.c + (u64)off.getSExtValue(), 64); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val v = constVal(s, ce->getOperand(0)); unsigned w = bits(t); return w < v.w ? truncTo(v, w) : zextTo(v, w); }
    case Instruction::Sub: { Val a = constVal(s, ce->getOperand(0)), b = constVal(s, ce->getOperand(1)); return C(a.c - b.c, a.w); }
    case Instruction::Add: { Val a = constVal(s, ce->getOperand(0)), b = constVal(s, ce->getOperand(1)); return C(a.c + b.c, a.w); }
    case Instruction::Trunc: return truncTo(constVal(s, ce->getOperand(0)), bits(t));
    case Instruction::ZExt: return zextTo(constVal(s, ce->getOperand(0)), bits(t));
    case Instruction::ICmp: { Val a = constVal(s, ce->getOperand(0)), b = constVal(s, ce->getOperand(1)); auto p = ce->getPredicate(); bool r = p == CmpInst::ICMP_EQ ? a.c == b.c : p == CmpInst::ICMP_NE ? a.c != b.c : p == CmpInst::ICMP_ULT ? a.c < b.c : p == CmpInst::ICMP_UGT ? a.c > b.c : false; return C(r, 1); }
    case Instruction::Select: { Val a = constVal(s, ce->getOperand(0)); return constVal(s, ce->getOperand(a.c ? 1 : 2)); }
    default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os); die(s, "unsupported constant " + str.substr(0, 200));
}

// ---------------------------------------------------------------- arithmetic
static Val binop(State &s, unsigned op, const Val &a, const Val &b) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(s, op, (*a.agg)[i], (*b.agg)[i])); return r; }
  unsigned w = a.w;
  if (!a.sym() && !b.sym() && w <= 128) {
    u128 x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add: return C(x + y, w); case Instruction::Sub: return C(x - y, w); case Instruction::Mul: return C(x * y, w);
    case Instruction::UDiv: if (!y) { report(s, "ub", "division by zero"); throw PathEnd(); } return C(x / y, w); case Instruction::URem: if (!y) { report(s, "ub", "division by zero"); throw PathEnd(); } return C(x % y, w);
    case Instruction::SDiv: if (!y) { report(s, "ub", "division by zero"); throw PathEnd(); } return C((u128)(sx(x, w) / sx(y, w)), w); case Instruction::SRem: if (!y) { report(s, "ub", "division by zero"); throw PathEnd(); } if (sx(y, w) == -1) return C(0, w); return C((u128)(sx(x, w) % sx(y, w)), w);
    case Instruction::Shl: return y >= w ? C(0, w) : C(x << (unsigned)y, w); case Instruction::LShr: return y >= w ? C(0, w) : C(x >> (unsigned)y, w); case Instruction::AShr: return C((u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)), w);
    case Instruction::And: return C(x & y, w); case Instruction::Or: return C(x | y, w); case Instruction::Xor: return C(x ^ y, w);
    }
  }
  if (w == 1) {
    E x = toBool(a), y = toBool(b);
    switch (op) { case Instruction::And: case Instruction::Mul: return fromBool(mkAnd(x, y)); case Instruction::Or: return fromBool(mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(simp(E(Z3_mk_xor(Z, x.a, y.a)))); default: break; }
  }
  E x = toBV(a), y = toBV(b); Z3_ast r = nullptr;
  switch (op) {
  case Instruction::Add: r = Z3_mk_bvadd(Z, x.a, y.a); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
  case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break; case Instruction::URem: r = Z3_mk_bvurem(Z, x.a, y.a); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
  case Instruction::Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
  case Instruction::And: r = Z3_mk_bvand(Z, x.a, y.a); break; case Instruction::Or: r = Z3_mk_bvor(Z, x.a, y.a); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
  default: die(&s, "binop");
  }
  return fromBV(simp(E(r)), w);
}
static Val icmp(State &s, unsigned p, const Val &a, const Val &b) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmp(s, p, (*a.agg)[i], (*b.agg)[i])); return r; }
  unsigned w = a.w;
  if (!a.sym() && !b.sym()) {
    u128 x = a.c, y = b.c; i128 sxx = sx(x, w), syy = sx(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sxx > syy; break; case CmpInst::ICMP_SGE: r = sxx >= syy; break; case CmpInst::ICMP_SLT: r = sxx < syy; break; case CmpInst::ICMP_SLE: r = sxx <= syy; break; }
    return C(r, 1);
  }
  if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { E e = mkEq(toBool(a), toBool(b)); return fromBool(p == CmpInst::ICMP_EQ ? e : mkNot(e)); }
  E x = toBV(a), y = toBV(b); Z3_ast r = nullptr;
  switch (p) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x.a, y.a); break; case CmpInst::ICMP_NE: { E q = mkEq(x, y); return fromBool(mkNot(q)); } case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x.a, y.a); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x.a, y.a); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break; }
  return fromBool(simp(E(r)));
}
static Val sel(const Val &c, const Val &a, const Val &b) {
  if (!c.sym()) return c.c ? a : b;
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(sel(c, (*a.agg)[i], (*b.agg)[i])); return r; }
  if (a.w == 1) return fromBool(mkIte(c.e, toBool(a), toBool(b)));
  return mk(mkIte(c.e, toBV(a), toBV(b)), a.w);
}
// ---------------------------------------------------------------- function preparation
static FnInfo *info(Function *F) {
  auto it = fis.find(F); if (it != fis.end()) return it->second;
  auto *fi = new FnInfo; fi->F = F; fi->name = F->getName().str(); fi->dem = demangle(fi->name);
  unsigned n = 0; for (auto &a : F->args()) fi->slot[&a] = n++;
  unsigned bi = 0; for (auto &bb : *F) { fi->bbix[&bb] = bi++; for (auto &I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = n++; }
  fi->nregs = n;
  for (auto &bb : *F) {
    std::vector<Ins> v;
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins x; x.I = &I; auto d = fi->slot.find(&I); x.dst = d == fi->slot.end() ? -1 : d->second;
      for (auto &op : I.operands()) {
        const Value *o = op.get(); auto f = fi->slot.find(o);
        if (f != fi->slot.end()) { x.ops.push_back(f->second); x.k.emplace_back(); }
        else if (isa<Constant>(o) && !isa<Function>(o) ) { x.ops.push_back(-1); x.k.push_back(constVal(nullptr, cast<Constant>(o))); }
        else if (auto *ff = dyn_cast<Function>(o)) { x.ops.push_back(-1); x.k.push_back(C(addrOf(ff), 64)); }
        else { x.ops.push_back(-2); x.k.emplace_back(); }
      }
      v.push_back(std::move(x));
    }
    fi->bbs.push_back(std::move(v));
  }
  fis[F] = fi; return fi;
}
static const Val &op(Frame &f, const Ins &x, unsigned i) { return x.ops[i] >= 0 ? f.regs[x.ops[i]] : x.k[i]; }

static std::string readStr(State &s, const Val &p, const Val &n) { std::string r; if (p.sym() || n.sym()) return "<sym>"; for (u64 i = 0; i < (u64)n.c; i++) { Val b = ldRaw(s, C(p.c + i, 64), 1); r.push_back((char)b.c); } return r; }

// decide a symbolic condition: continue this state on one side, queue the other when feasible
static bool decide(State &s, const E &cond) {
  int b = boolVal(cond); if (b >= 0) return b;
  ensureModel(s);
  int side = evalBool(s, cond); if (side < 0) side = 1;
  E sideC = side ? cond : mkNot(cond), oth = side ? mkNot(cond) : cond;
  nCachedSat++;
  std::shared_ptr<Z3_model> m; int r = check(s, oth, &m);
  if (r == 1) { auto n = clone(s); addPC(*n, oth); n->model = m; work.push_back(std::move(n)); addPC(s, sideC); }
  return side;
}

static void copyMem(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return; Obj *so = findObj(s, sr, n); if (!so) memError(s, sr, n, "memcpy read");
  std::vector<uint8_t> by(so->by.begin() + (sr - so->base), so->by.begin() + (sr - so->base) + n); std::vector<SB> sy; if (!so->sy.empty()) sy.assign(so->sy.begin() + (sr - so->base), so->sy.begin() + (sr - so->base) + n);
  Obj *o = wObj(s, d, n); if (!o) memError(s, d, n, "memcpy write"); u64 off = d - o->base;
  std::copy(by.begin(), by.end(), o->by.begin() + off);
  if (!sy.empty()) { if (o->sy.empty()) o->sy.resize(o->size); std::copy(sy.begin(), sy.end(), o->sy.begin() + off); }
  else if (!o->sy.empty()) for (u64 i = 0; i < n; i++) o->sy[off + i].e = E();
}
static bool nameHas(const std::string &n, const char *x) { return n.find(x) != std::string::npos; }

enum { R_NEXT, R_PUSHED };
static void enter(State &s, Function *F, std::vector<Val> args, const CallBase *cb) {
  FnInfo *fi = info(F); if (fnsSeen.insert(fi->dem).second && verbose) fprintf(stderr, "enter %s\n", fi->dem.c_str());
  if (s.st.size() > 2000) die(&s, "stack depth");
  s.st.emplace_back(); Frame &f = s.st.back(); f.fi = fi; f.regs.resize(fi->nregs); f.call = cb;
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) f.regs[i] = std::move(args[i]);
}
static void setRes(State &s, const Ins &x, Val v) { if (x.dst >= 0) s.st.back().regs[x.dst] = std::move(v); }
static Val mulOv(State &s, const Val &a, const Val &b, bool sg, bool &isSym, E &ov, bool &cov) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym() && w <= 64) { isSym = false; if (!sg) { u128 p = a.c * b.c; cov = (p >> w) != 0; return C(p, w); } i128 p = sx(a.c, w) * sx(b.c, w); Val r = C((u128)p, w); cov = sx(r.c, w) != p; return r; }
  if (!a.sym() && !b.sym() && w == 128 && !sg) { isSym = false; cov = a.c != 0 && b.c > (~(u128)0) / a.c; return C(a.c * b.c, w); }
  isSym = true; E x = toBV(a), y = toBV(b);
  if (!sg) { // exact: zero-extended product has high bits
    E nov(Z3_mk_bvmul_no_overflow(Z, x.a, y.a, false)); ov = mkNot(simp(nov)); }
  else { E n1(Z3_mk_bvmul_no_overflow(Z, x.a, y.a, true)), n2(Z3_mk_bvmul_no_underflow(Z, x.a, y.a)); ov = mkNot(mkAnd(n1, n2)); }
  return mk(simp(E(Z3_mk_bvmul(Z, x.a, y.a))), w);
}
static Val pairVB(const Val &a, const Val &b) { Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(a); r.agg->push_back(b); return r; }
static Val intrin1(State &s, unsigned id, const Val &a, const Val &b, const Val &c, bool hasC);
static Val ctop(State &s, const Val &a, int kind) { // 0 ctpop 1 ctlz 2 cttz
  unsigned w = a.w;
  if (!a.sym()) { unsigned r = 0; if (kind == 0) { for (unsigned i = 0; i < w; i++) r += (a.c >> i) & 1; } else if (kind == 1) { r = w; for (unsigned i = 0; i < w; i++) if ((a.c >> i) & 1) r = w - 1 - i; } else { r = w; for (int i = w - 1; i >= 0; i--) if ((a.c >> i) & 1) r = i; } return C(r, w); }
  E x = toBV(a), r;
  if (kind == 0) { r = bvn(0, w); for (unsigned i = 0; i < w; i++) { E b(Z3_mk_extract(Z, i, i, x.a)); E z(Z3_mk_zero_ext(Z, w - 1, b.a)); r = E(Z3_mk_bvadd(Z, r.a, z.a)); } }
  else { r = bvn(w, w); for (unsigned k = 0; k < w; k++) { unsigned i = kind == 1 ? k : w - 1 - k; E b(Z3_mk_extract(Z, i, i, x.a)); E c = E(Z3_mk_eq(Z, b.a, bvn(1, 1).a)); r = E(Z3_mk_ite(Z, c.a, bvn(kind == 1 ? w - 1 - i : i, w).a, r.a)); } }
  return fromBV(simp(r), w);
}
static bool doIntrinsic(State &s, const Ins &x, const IntrinsicInst *I) {
  Frame &f = s.st.back(); auto A = [&](unsigned i) -> const Val & { return op(f, x, i); };
  switch (I->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Val d = A(0), sr = A(1), n = A(2); u64 nn = (u64)concretize(s, n); if (nn) { u64 dd = (u64)concretize(s, d), ss = (u64)concretize(s, sr); copyMem(s, dd, ss, nn); } return true; }
  case Intrinsic::memset: { Val d = A(0), v = A(1), n = A(2); u64 nn = (u64)concretize(s, n); if (!nn) return true; u64 dd = (u64)concretize(s, d); Obj *o = wObj(s, dd, nn); if (!o) memError(s, dd, nn, "memset"); for (u64 i = 0; i < nn; i++) wrBytes(o, dd - o->base + i, v, 1); return true; }
  case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::threadlocal_address: setRes(s, x, A(0)); return true;
  case Intrinsic::is_constant: setRes(s, x, C(0, 1)); return true;
  case Intrinsic::objectsize: setRes(s, x, C(~(u128)0, bits(I->getType()))); return true;
  case Intrinsic::ptrmask: setRes(s, x, binop(s, Instruction::And, A(0), A(1))); return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
    const Val &a = A(0), &b = A(1); unsigned w = a.w; unsigned id = I->getIntrinsicID(); bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow, sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
    Val r = binop(s, sub ? Instruction::Sub : Instruction::Add, a, b), o;
    if (!sg) o = icmp(s, CmpInst::ICMP_ULT, sub ? a : r, sub ? b : a);
    else { Val xa = icmp(s, CmpInst::ICMP_SLT, a, C(0, w)), xb = icmp(s, CmpInst::ICMP_SLT, b, C(0, w)), xr = icmp(s, CmpInst::ICMP_SLT, r, C(0, w)); Val same = sub ? icmp(s, CmpInst::ICMP_NE, xa, xb) : icmp(s, CmpInst::ICMP_EQ, xa, xb); o = binop(s, Instruction::And, same, icmp(s, CmpInst::ICMP_NE, xa, xr)); }
    setRes(s, x, pairVB(r, o)); return true; }
  case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: { bool is; E ov; bool c = false; Val r = mulOv(s, A(0), A(1), I->getIntrinsicID() == Intrinsic::smul_with_overflow, is, ov, c); setRes(s, x, pairVB(r, is ? fromBool(ov) : C(c, 1))); return true; }
  case Intrinsic::uadd_sat: { Val r = binop(s, Instruction::Add, A(0), A(1)); Val o = icmp(s, CmpInst::ICMP_ULT, r, A(0)); setRes(s, x, sel(o, C(~(u128)0, r.w), r)); return true; }
  case Intrinsic::usub_sat: { if (A(0).agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < A(0).agg->size(); i++) { const Val &a = (*A(0).agg)[i], &b = (*A(1).agg)[i]; r.agg->push_back(sel(icmp(s, CmpInst::ICMP_ULT, a, b), C(0, a.w), binop(s, Instruction::Sub, a, b))); } setRes(s, x, r); return true; } Val r = binop(s, Instruction::Sub, A(0), A(1)); Val o = icmp(s, CmpInst::ICMP_ULT, A(0), A(1)); setRes(s, x, sel(o, C(0, r.w), r)); return true; }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
    unsigned id = I->getIntrinsicID(); unsigned p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
    std::function<Val(const Val &, const Val &)> g = [&](const Val &a, const Val &b) -> Val { if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(g((*a.agg)[i], (*b.agg)[i])); return r; } return sel(icmp(s, p, a, b), a, b); };
    setRes(s, x, g(A(0), A(1))); return true; }
  case Intrinsic::abs: { Val a = A(0); Val n = binop(s, Instruction::Sub, C(0, a.w), a); setRes(s, x, sel(icmp(s, CmpInst::ICMP_SLT, a, C(0, a.w)), n, a)); return true; }
  case Intrinsic::ctpop: setRes(s, x, ctop(s, A(0), 0)); return true; case Intrinsic::ctlz: setRes(s, x, ctop(s, A(0), 1)); return true; case Intrinsic::cttz: setRes(s, x, ctop(s, A(0), 2)); return true;
  case Intrinsic::bswap: { Val a = A(0); if (a.agg) die(&s, "vector bswap"); unsigned n = a.w / 8; if (!a.sym()) { u128 r = 0; for (unsigned i = 0; i < n; i++) r |= ((a.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); setRes(s, x, C(r, a.w)); } else { E r; for (unsigned i = 0; i < n; i++) { E p(Z3_mk_extract(Z, 8 * i + 7, 8 * i, a.e.a)); r = r ? E(Z3_mk_concat(Z, r.a, p.a)) : p; } setRes(s, x, mk(simp(r), a.w)); } return true; }
  case Intrinsic::bitreverse: { Val a = A(0); u128 r = 0; if (a.sym()) die(&s, "bitreverse"); for (unsigned i = 0; i < a.w; i++) if ((a.c >> i) & 1) r |= (u128)1 << (a.w - 1 - i); setRes(s, x, C(r, a.w)); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val a = A(0), b = A(1), c = A(2); unsigned w = a.w; bool l = I->getIntrinsicID() == Intrinsic::fshl;
    if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) { const Val &p = (*a.agg)[i], &q = (*b.agg)[i], &ci = (*c.agg)[i]; if (ci.sym()) die(&s, "vector fsh"); unsigned k = (unsigned)(ci.c % p.w); r.agg->push_back(k == 0 ? (l ? p : q) : binop(s, Instruction::Or, binop(s, Instruction::Shl, p, C(l ? k : p.w - k, p.w)), binop(s, Instruction::LShr, q, C(l ? p.w - k : k, p.w)))); } setRes(s, x, r); return true; }
    if (c.sym()) { E wv = toBV(a), y = toBV(b), n(Z3_mk_bvurem(Z, toBV(c).a, bvn(w, w).a)); E cc(Z3_mk_concat(Z, wv.a, y.a)); E nn(Z3_mk_zero_ext(Z, w, n.a)); E sh(l ? Z3_mk_bvshl(Z, cc.a, nn.a) : Z3_mk_bvlshr(Z, cc.a, nn.a)); setRes(s, x, mk(simp(E(l ? Z3_mk_extract(Z, 2 * w - 1, w, sh.a) : Z3_mk_extract(Z, w - 1, 0, sh.a))), w)); return true; }
    unsigned k = (unsigned)(c.c % w); if (k == 0) { setRes(s, x, l ? a : b); return true; }
    Val hi = binop(s, Instruction::Shl, a, C(l ? k : w - k, w)), lo = binop(s, Instruction::LShr, b, C(l ? w - k : k, w)); setRes(s, x, binop(s, Instruction::Or, hi, lo)); return true; }
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: { const Val &a = A(0); Val r = (*a.agg)[0]; unsigned id = I->getIntrinsicID(); for (size_t i = 1; i < a.agg->size(); i++) { const Val &b = (*a.agg)[i]; if (id == Intrinsic::vector_reduce_umax) r = sel(icmp(s, CmpInst::ICMP_UGT, r, b), r, b); else if (id == Intrinsic::vector_reduce_umin) r = sel(icmp(s, CmpInst::ICMP_ULT, r, b), r, b); else r = binop(s, id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_xor ? Instruction::Xor : Instruction::Add, r, b); } setRes(s, x, r); return true; }
  case Intrinsic::trap: case Intrinsic::debugtrap: ensureModel(s); report(s, "trap", "abort/trap"); throw PathEnd();
  case Intrinsic::stacksave: setRes(s, x, C(0, 64)); return true; case Intrinsic::stackrestore: return true;
  default: { std::string n = I->getCalledFunction()->getName().str(); die(&s, "unsupported intrinsic " + n); }
  }
}
static void doPanic(State &s, const std::string &what) { ensureModel(s); report(s, "panic", what); throw PathEnd(); }

// returns true when handled
static bool external(State &s, const Ins &x, const CallBase *cb, Function *F, const std::string &n, bool isDecl) {
  Frame &f = s.st.back(); auto A = [&](unsigned i) -> Val { return op(f, x, i); };
  auto has = [&](const char *k) { return n == k; };
  if (n.compare(0, 5, "rsym_") == 0) {
    if (has("rsym_symbolic")) { // (ptr,len,name,namelen)
      Val p = A(0), l = A(1); std::string nm = readStr(s, A(2), A(3)); Input in; in.name = nm + "#" + std::to_string(s.inputs.size()); u64 len = (u64)l.c;
      // group into one wide variable when <=16 bytes
      if (len == 0) { s.inputs.push_back(in); return true; }
      u64 i = 0; while (i < len) { unsigned k = (unsigned)std::min<u64>(len - i, len <= 16 ? 16 : 1); Z3_sort so = Z3_mk_bv_sort(Z, k * 8); std::string vn = in.name + "." + std::to_string(i); E v(Z3_mk_const(Z, Z3_mk_string_symbol(Z, vn.c_str()), so)); Val vv; vv.w = k * 8; vv.e = v; stRaw(s, addrAdd(p, i), vv, k); for (unsigned j = 0; j < k; j++) in.bytes.push_back(k == 1 ? v : simp(E(Z3_mk_extract(Z, j * 8 + 7, j * 8, v.a)))); i += k; }
      s.inputs.push_back(in); return true; }
    if (has("rsym_assume")) { Val c = A(0); Val b = icmp(s, CmpInst::ICMP_NE, c, C(0, c.w)); if (!b.sym()) { if (!b.c) throw PathEnd(); return true; } int ev = evalBool(s, b.e); if (ev != 1) { std::shared_ptr<Z3_model> m; if (check(s, b.e, &m) == 0) throw PathEnd(); s.model = m; } addPC(s, b.e); return true; }
    if (has("rsym_assert")) { Val c = A(0); std::string lab = readStr(s, A(1), A(2)); asserts[lab]++; nAsserts++; Val b = icmp(s, CmpInst::ICMP_NE, c, C(0, c.w)); if (!b.sym()) { if (!b.c) { ensureModel(s); report(s, "assert", lab); throw PathEnd(); } return true; }
      std::shared_ptr<Z3_model> m; E nb = mkNot(b.e); int ev = evalBool(s, nb); int r; if (ev == 1) { r = 1; m = s.model; } else r = check(s, nb, &m);
      if (r == 1) { auto keep = s.model; s.model = m; report(s, "assert", lab); s.model = keep; if (evalBool(s, b.e) != 1) { std::shared_ptr<Z3_model> m2; if (check(s, b.e, &m2) == 0) throw PathEnd(); s.model = m2; } }
      addPC(s, b.e); return true; }
    if (has("rsym_cover")) { Val p_ = A(0), l_ = A(1); concretize(s, p_); concretize(s, l_); std::string lab = readStr(s, p_, l_); covers[lab]++; return true; }
    if (has("rsym_concretize")) { Val v = A(0); concretize(s, v); setRes(s, x, v); return true; }
    if (has("rsym_is_symbolic_run")) { setRes(s, x, C(1, 32)); return true; }
    if (has("rsym_note")) { s.trace.push_back(readStr(s, A(0), A(1))); return true; }
    if (has("rsym_ite64")) { Val c = A(0); setRes(s, x, sel(icmp(s, CmpInst::ICMP_NE, c, C(0, c.w)), A(1), A(2))); return true; }
    if (has("rsym_byteseq")) { // (p,q,n)->i32 : 1 when equal, no forking
      Val p = A(0), q = A(1), l = A(2); u64 nn = (u64)concretize(s, l); Val r = C(1, 1); for (u64 i = 0; i < nn; i++) r = binop(s, Instruction::And, r, icmp(s, CmpInst::ICMP_EQ, ldRaw(s, addrAdd(p, i), 1), ldRaw(s, addrAdd(q, i), 1))); setRes(s, x, zextTo(r, 32)); return true; }
    die(&s, "unknown rsym fn " + n);
  }
  // allocator
  if (has("__rust_alloc") || has("__rdl_alloc") || has("__rust_alloc_zeroed") || has("__rdl_alloc_zeroed") || has("__rg_alloc")) { Val sz = A(0), al = A(1); u64 k = (u64)concretize(s, sz); u64 a2 = (u64)concretize(s, al); if (k > (1u << 26)) die(&s, "huge allocation"); auto o = newObj(s, k, "heap", a2); setRes(s, x, C(o->base, 64)); return true; }
  if (has("__rust_dealloc") || has("__rdl_dealloc")) { Val p = A(0); u64 a = (u64)concretize(s, p); auto it = s.mem.find(a); if (it == s.mem.end()) memError(s, a, 0, "dealloc"); s.mem.erase(it); return true; }
  if (has("__rust_realloc") || has("__rdl_realloc")) { Val p = A(0), os = A(1), al = A(2), ns = A(3); u64 a = (u64)concretize(s, p); u64 o = (u64)concretize(s, os), k = (u64)concretize(s, ns); auto nobj = newObj(s, k, "heap", (u64)al.c); copyMem(s, nobj->base, a, std::min(o, k)); s.mem.erase(a); setRes(s, x, C(nobj->base, 64)); return true; }
  if (has("malloc")) { Val sz = A(0); u64 k = (u64)concretize(s, sz); auto o = newObj(s, k, "heap"); setRes(s, x, C(o->base, 64)); return true; }
  if (has("calloc")) { Val a = A(0), b = A(1); u64 k = (u64)(concretize(s, a) * concretize(s, b)); auto o = newObj(s, k, "heap"); setRes(s, x, C(o->base, 64)); return true; }
  if (has("free")) { Val p = A(0); u64 a = (u64)concretize(s, p); if (a) s.mem.erase(a); return true; }
  if (has("realloc")) { Val p = A(0), ns = A(1); u64 a = (u64)concretize(s, p), k = (u64)concretize(s, ns); auto nobj = newObj(s, k, "heap"); if (a) { u64 o = s.mem[a]->size; copyMem(s, nobj->base, a, std::min(o, k)); s.mem.erase(a); } setRes(s, x, C(nobj->base, 64)); return true; }
  if (has("posix_memalign")) { Val pp = A(0), al = A(1), sz = A(2); u64 k = (u64)concretize(s, sz); auto o = newObj(s, k, "heap", (u64)al.c); stRaw(s, pp, C(o->base, 64), 8); setRes(s, x, C(0, 32)); return true; }
  if (has("memcpy") || has("memmove")) { Val d = A(0), sr = A(1), l = A(2); u64 nn = (u64)concretize(s, l); if (nn) copyMem(s, (u64)concretize(s, d), (u64)concretize(s, sr), nn); setRes(s, x, d); return true; }
  if (has("memset")) { Val d = A(0), v = A(1), l = A(2); u64 nn = (u64)concretize(s, l), dd = (u64)concretize(s, d); Obj *o = nn ? wObj(s, dd, nn) : nullptr; if (nn && !o) memError(s, dd, nn, "memset"); for (u64 i = 0; i < nn; i++) wrBytes(o, dd - o->base + i, truncTo(v, 8), 1); setRes(s, x, d); return true; }
  if (has("bcmp") || has("memcmp")) {
    Val p = A(0), q = A(1), l = A(2); u64 nn = (u64)concretize(s, l);
    if (has("bcmp")) { Val r = C(1, 1); u64 i = 0; while (i < nn) { unsigned k = (unsigned)std::min<u64>(8, nn - i); r = binop(s, Instruction::And, r, icmp(s, CmpInst::ICMP_EQ, ldRaw(s, addrAdd(p, i), k), ldRaw(s, addrAdd(q, i), k))); i += k; } setRes(s, x, sel(r, C(0, 32), C(1, 32))); return true; }
    Val r = C(0, 32); for (u64 k = nn; k-- > 0;) { Val a = ldRaw(s, addrAdd(p, k), 1), b = ldRaw(s, addrAdd(q, k), 1); r = sel(icmp(s, CmpInst::ICMP_EQ, a, b), r, sel(icmp(s, CmpInst::ICMP_ULT, a, b), C((u128)-1, 32), C(1, 32))); }
    setRes(s, x, r); return true; }
  if (has("strlen")) { Val p = A(0); u64 a = (u64)concretize(s, p), i = 0; for (;; i++) { Val b = ldRaw(s, C(a + i, 64), 1); if (b.sym()) die(&s, "strlen sym"); if (!b.c) break; } setRes(s, x, C(i, 64)); return true; }
  // panics
  if (has("rust_begin_unwind") || has("rust_panic") || has("__rust_start_panic") || has("abort") || has("__rust_alloc_error_handler")) doPanic(s, "panic via " + n);
  FnInfo *fi_ = info(F);
  if (fi_->special != 1 && (F->getName().starts_with("_ZN") || F->getName().starts_with("_R"))) {
    static const char *pk[] = {"core::panicking::", "std::panicking::", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail", "alloc::raw_vec::capacity_overflow", "alloc::alloc::handle_alloc_error", "core::cell::panic_already", "core::slice::copy_from_slice_impl", "copy_from_slice::len_mismatch_fail", "alloc::vec::Vec<T,A>::swap_remove::assert_failed", "assert_failed", "std::process::abort", "std::process::exit", "panic_const"};
    const std::string &d = info(F)->dem;
    for (auto k : pk) if (nameHas(d, k)) { if (nameHas(d, "panicking::try") || nameHas(d, "panic_count") || nameHas(d, "panicking::panicking")) continue; std::string msg = d; doPanic(s, "panic: " + msg); }
    if (nameHas(d, "hashmap_random_keys")) { setRes(s, x, pairVB(C(0x0123456789abcdefull, 64), C(0xfedcba9876543210ull, 64))); return true; }
    if (nameHas(d, "thread_local_dtor::register_dtor")) return true;
    if (nameHas(d, "std::io::stdio::_eprint") || nameHas(d, "std::io::stdio::_print")) return true;
    fi_->special = 1;
  }
  if (!isDecl) return false;
  if (has("write") || has("writev")) { setRes(s, x, A(2)); return true; }
  if (has("__cxa_thread_atexit_impl")) { setRes(s, x, C(0, 32)); return true; }
  if (has("getenv")) { setRes(s, x, C(0, 64)); return true; }
  if (has("pthread_atfork") || has("pthread_key_create") || has("pthread_setspecific") || has("pthread_mutex_lock") || has("pthread_mutex_unlock") || has("pthread_mutex_trylock") || has("pthread_mutex_destroy") || has("pthread_key_delete")) { setRes(s, x, C(0, 32)); return true; }
  if (has("__errno_location")) { static u64 er = 0; (void)er; auto o = newObj(s, 8, "errno"); setRes(s, x, C(o->base, 64)); return true; }
  if (has("getrandom")) { setRes(s, x, A(1)); return true; }
  if (has("syscall")) { Val nr = A(0); if (!nr.sym() && nr.c == 318) { setRes(s, x, A(2)); return true; } die(&s, "syscall"); }
  if (has("getauxval") || has("sysconf")) { setRes(s, x, C(0, 64)); return true; }
  if (has("exit") || has("_exit")) throw PathEnd();
  die(&s, "unsupported external " + n);
}

static void jump(State &s, const BasicBlock *from, const BasicBlock *to) {
  Frame &f = s.st.back(); unsigned ti = f.fi->bbix[to]; auto &blk = f.fi->bbs[ti];
  // phis in parallel
  std::vector<std::pair<int, Val>> tmp; size_t i = 0;
  for (; i < blk.size(); i++) { auto *ph = dyn_cast<PHINode>(blk[i].I); if (!ph) break; int ix = ph->getBasicBlockIndex(from); tmp.push_back({blk[i].dst, op(f, blk[i], ix)}); }
  for (auto &t : tmp) f.regs[t.first] = std::move(t.second);
  f.bb = ti; f.pc = (unsigned)i;
}
static double asF(const Val &v) { if (v.w == 32) { float x; uint32_t b = (uint32_t)v.c; memcpy(&x, &b, 4); return x; } double x; u64 b = (u64)v.c; memcpy(&x, &b, 8); return x; }
static Val ofF(double d, unsigned w) { if (w == 32) { float x = (float)d; uint32_t b; memcpy(&b, &x, 4); return C(b, 32); } u64 b; memcpy(&b, &d, 8); return C(b, 64); }
static E fpOf(const Val &v) { Z3_sort fs = v.w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); return E(Z3_mk_fpa_to_fp_bv(Z, toBV(v).a, fs)); }

// execute one instruction of s; may throw PathEnd
static void step(State &s) {
  if (s.pend) pin(s);
  Frame &f = s.st.back(); const Ins &x = f.fi->bbs[f.bb][f.pc]; const Instruction *I = x.I;
  s.steps++; nSteps++;
  if ((nSteps & 0xfffff) == 0 && now() - t0 > timeLimit) die(&s, "time limit");
  if (s.steps > maxSteps) die(&s, "step limit on one path");
  auto A = [&](unsigned i) -> const Val & { return op(f, x, i); };
  switch (I->getOpcode()) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    f.regs[x.dst] = binop(s, I->getOpcode(), A(0), A(1)); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Val b = A(1); if (b.sym()) { Val z = icmp(s, CmpInst::ICMP_EQ, b, C(0, b.w)); if (z.sym()) { if (decide(s, z.e)) { ensureModel(s); report(s, "ub", "division by zero"); throw PathEnd(); } } }
    f.regs[x.dst] = binop(s, I->getOpcode(), A(0), A(1)); break; }
  case Instruction::ICmp: f.regs[x.dst] = icmp(s, cast<ICmpInst>(I)->getPredicate(), A(0), A(1)); break;
  case Instruction::Select: { const Val &c = A(0); if (c.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(sel((*c.agg)[i], (*A(1).agg)[i], (*A(2).agg)[i])); f.regs[x.dst] = r; } else { Val r = sel(c, A(1), A(2)); f.regs[x.dst] = r; } break; }
  case Instruction::ZExt: { unsigned w = bits(I->getType()->getScalarType()); const Val &a = A(0); if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &e : *a.agg) r.agg->push_back(zextTo(e, w)); f.regs[x.dst] = r; } else f.regs[x.dst] = zextTo(a, w); break; }
  case Instruction::SExt: { unsigned w = bits(I->getType()->getScalarType()); const Val &a = A(0); if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &e : *a.agg) r.agg->push_back(sextTo(e, w)); f.regs[x.dst] = r; } else f.regs[x.dst] = sextTo(a, w); break; }
  case Instruction::Trunc: { unsigned w = bits(I->getType()->getScalarType()); const Val &a = A(0); if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &e : *a.agg) r.agg->push_back(truncTo(e, w)); f.regs[x.dst] = r; } else f.regs[x.dst] = truncTo(a, w); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val &a = A(0); unsigned w = bits(I->getType()); f.regs[x.dst] = w < a.w ? truncTo(a, w) : zextTo(a, w); break; }
  case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[x.dst] = A(0); break;
  case Instruction::BitCast: {
    const Val &a = A(0); Type *to = I->getType();
    if (!a.agg && !to->isVectorTy()) { f.regs[x.dst] = a; break; }
    // flatten to one BV then split
    std::vector<Val> src; if (a.agg) src = *a.agg; else src.push_back(a);
    E all; unsigned tw = 0; for (auto &v : src) { E b = toBV(v); all = all ? E(Z3_mk_concat(Z, b.a, all.a)) : b; tw += v.w; }
    if (auto *vt = dyn_cast<FixedVectorType>(to)) { unsigned eb = bits(vt->getElementType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(fromBV(simp(E(Z3_mk_extract(Z, (i + 1) * eb - 1, i * eb, all.a))), eb)); f.regs[x.dst] = r; }
    else f.regs[x.dst] = fromBV(simp(all), tw);
    break; }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I); if (I->getType()->isVectorTy()) die(&s, "vector gep");
    Val p = A(0); unsigned i = 1;
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
      if (StructType *st = it.getStructTypeOrNull()) { u64 off = DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(g->getOperand(i))->getZExtValue()); if (off) p = addrAdd(p, off); }
      else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); const Val &ix = A(i); if (!ix.sym()) { u64 off = (u64)((i128)sx(ix.c, ix.w) * (i128)es); if (off) p = addrAdd(p, off); } else { Val w = sextTo(ix, 64); Val m = binop(s, Instruction::Mul, w, C(es, 64)); p = binop(s, Instruction::Add, p, m); } }
    }
    f.regs[x.dst] = p; break; }
  case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); Val n = A(0); u64 cnt = (u64)concretize(s, n); u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * cnt; auto o = newObj(s, std::max<u64>(sz, 1), "stack", al->getAlign().value()); s.st.back().allocas.push_back(o->base); s.st.back().regs[x.dst] = C(o->base, 64); break; }
  case Instruction::Load: { Val v = load(s, I->getType(), A(0)); s.st.back().regs[x.dst] = v; break; }
  case Instruction::Store: { Val v = A(0), p = A(1); store(s, I->getOperand(0)->getType(), v, p); break; }
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); Val p = A(0), v = A(1); Val o = load(s, I->getType(), p), nv; switch (r->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, o, v); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, o, v); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, o, v); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, o, v); break; default: die(&s, "atomicrmw"); } store(s, I->getType(), nv, p); f.regs[x.dst] = o; break; }
  case Instruction::AtomicCmpXchg: { Val p = A(0), c = A(1), n = A(2); Type *t = I->getOperand(1)->getType(); Val o = load(s, t, p); Val eq = icmp(s, CmpInst::ICMP_EQ, o, c); store(s, t, sel(eq, n, o), p); f.regs[x.dst] = pairVB(o, eq); break; }
  case Instruction::ExtractValue: { const Val *v = &A(0); for (unsigned ix : cast<ExtractValueInst>(I)->indices()) v = &(*v->agg)[ix]; Val r = *v; f.regs[x.dst] = r; break; }
  case Instruction::InsertValue: { Val r = A(0); Val nv = A(1); auto ixs = cast<InsertValueInst>(I)->getIndices(); std::function<void(Val &, unsigned)> g = [&](Val &v, unsigned k) { v.agg = std::make_shared<std::vector<Val>>(*v.agg); if (k + 1 == ixs.size()) (*v.agg)[ixs[k]] = nv; else g((*v.agg)[ixs[k]], k + 1); }; g(r, 0); f.regs[x.dst] = r; break; }
  case Instruction::ExtractElement: { Val ix = A(1); u64 k = (u64)concretize(s, ix); Val r = (*op(s.st.back(), x, 0).agg)[k]; s.st.back().regs[x.dst] = r; break; }
  case Instruction::InsertElement: { Val r = A(0), nv = A(1), ix = A(2); u64 k = (u64)concretize(s, ix); r.agg = std::make_shared<std::vector<Val>>(*r.agg); (*r.agg)[k] = nv; s.st.back().regs[x.dst] = r; break; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); const Val &a = A(0), &b = A(1); Val r; r.agg = std::make_shared<std::vector<Val>>(); size_t n = a.agg->size(); for (int m : sv->getShuffleMask()) { if (m < 0) r.agg->push_back(C(0, (*a.agg)[0].w)); else r.agg->push_back((size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } f.regs[x.dst] = r; break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Val a = A(0), b = A(1); if (a.agg || a.sym() || b.sym()) die(&s, "symbolic float arithmetic"); double p = asF(a), q = asF(b); unsigned o = I->getOpcode(); f.regs[x.dst] = ofF(o == Instruction::FAdd ? p + q : o == Instruction::FSub ? p - q : o == Instruction::FMul ? p * q : p / q, a.w); break; }
  case Instruction::FNeg: { Val a = A(0); f.regs[x.dst] = binop(s, Instruction::Xor, a, C((u128)1 << (a.w - 1), a.w)); break; }
  case Instruction::FCmp: { Val a = A(0), b = A(1); auto p = cast<FCmpInst>(I)->getPredicate();
      if (a.sym() || b.sym()) { E fa = fpOf(a), fb = fpOf(b); E un(mkOr(E(Z3_mk_fpa_is_nan(Z, fa.a)), E(Z3_mk_fpa_is_nan(Z, fb.a)))); E r; switch (p & 7) { case 0: r = E(Z3_mk_false(Z)); break; case 1: r = E(Z3_mk_fpa_eq(Z, fa.a, fb.a)); break; case 2: r = E(Z3_mk_fpa_gt(Z, fa.a, fb.a)); break; case 3: r = E(Z3_mk_fpa_geq(Z, fa.a, fb.a)); break; case 4: r = E(Z3_mk_fpa_lt(Z, fa.a, fb.a)); break; case 5: r = E(Z3_mk_fpa_leq(Z, fa.a, fb.a)); break; case 6: { E q(Z3_mk_fpa_eq(Z, fa.a, fb.a)); r = mkAnd(mkNot(q), mkNot(un)); break; } default: r = mkNot(un); } if (p & 8) r = mkOr(r, un); f.regs[x.dst] = fromBool(simp(r)); break; }
      double u = asF(a), v = asF(b); bool nan = u != u || v != v; bool r = false; switch (p & 7) { case 1: r = u == v; break; case 2: r = u > v; break; case 3: r = u >= v; break; case 4: r = u < v; break; case 5: r = u <= v; break; case 6: r = u != v && !nan; break; case 7: r = !nan; break; } if ((p & 8) && nan) r = true; f.regs[x.dst] = C(r, 1); break; }
  case Instruction::UIToFP: { Val a = A(0); if (a.sym()) die(&s, "uitofp"); f.regs[x.dst] = ofF((double)a.c, bits(I->getType())); break; }
  case Instruction::SIToFP: { Val a = A(0); if (a.sym()) die(&s, "sitofp"); f.regs[x.dst] = ofF((double)sx(a.c, a.w), bits(I->getType())); break; }
  case Instruction::FPToUI: { Val a = A(0); if (a.sym()) die(&s, "fptoui"); f.regs[x.dst] = C((u128)asF(a), bits(I->getType())); break; }
  case Instruction::FPToSI: { Val a = A(0); if (a.sym()) die(&s, "fptosi"); f.regs[x.dst] = C((u128)(i128)asF(a), bits(I->getType())); break; }
  case Instruction::FPExt: case Instruction::FPTrunc: { Val a = A(0); if (a.sym()) die(&s, "fpext"); f.regs[x.dst] = ofF(asF(a), bits(I->getType())); break; }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I); const BasicBlock *cur = I->getParent();
    if (b->isUnconditional()) { jump(s, cur, b->getSuccessor(0)); return; }
    Val c = A(0); bool t = c.sym() ? decide(s, c.e) : (bool)c.c; jump(s, cur, b->getSuccessor(t ? 0 : 1)); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I); Val c = A(0); const BasicBlock *cur = I->getParent();
    if (!c.sym()) { const BasicBlock *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) { const APInt &k = cs.getCaseValue()->getValue(); u128 kv = k.getRawData()[0]; if (k.getBitWidth() > 64) kv |= (u128)k.getRawData()[1] << 64; if ((kv & mask(c.w)) == c.c) { d = cs.getCaseSuccessor(); break; } } jump(s, cur, d); return; }
    if (sw->getNumCases() > 16) { // value already fixed by the path?
      ensureModel(s); E cb = toBV(c); u128 v0 = evalBV(s, cb); E ne = mkNot(mkEq(cb, bvn(v0, c.w)));
      if (check(s, ne, nullptr) == 0) { const BasicBlock *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) { const APInt &k = cs.getCaseValue()->getValue(); u128 kv = k.getRawData()[0]; if (k.getBitWidth() > 64) kv |= (u128)k.getRawData()[1] << 64; if ((kv & mask(c.w)) == v0) { d = cs.getCaseSuccessor(); break; } } jump(s, cur, d); return; } }
    // cases as merged intervals per destination (computed once per switch)
    struct SwInfo { std::map<u128, const BasicBlock *> dest; std::map<const BasicBlock *, std::vector<std::pair<u128, u128>>> iv; std::vector<std::pair<u128, u128>> any; };
    static std::unordered_map<const SwitchInst *, SwInfo> swc; SwInfo &wi = swc[sw]; E cv = toBV(c);
    if (wi.dest.empty()) {
      for (auto &cs : sw->cases()) { Val k = constVal(&s, cs.getCaseValue()); wi.dest[k.c] = cs.getCaseSuccessor(); }
      auto add = [](std::vector<std::pair<u128, u128>> &v, u128 k) { if (!v.empty() && v.back().second + 1 == k) v.back().second = k; else v.push_back({k, k}); };
      for (auto &p : wi.dest) { add(wi.iv[p.second], p.first); if (p.second != sw->getDefaultDest()) add(wi.any, p.first); } }
    auto inIv = [&](std::vector<std::pair<u128, u128>> &v) -> E { std::vector<E> es; std::vector<Z3_ast> as; for (auto &p : v) { if (p.first == p.second) es.push_back(mkEq(cv, bvn(p.first, c.w))); else { E l(Z3_mk_bvuge(Z, cv.a, bvn(p.first, c.w).a)), h(Z3_mk_bvule(Z, cv.a, bvn(p.second, c.w).a)); es.push_back(mkAnd(l, h)); } as.push_back(es.back().a); } return as.empty() ? E(Z3_mk_false(Z)) : as.size() == 1 ? es[0] : simp(E(Z3_mk_or(Z, as.size(), as.data()))); };
    E any = inIv(wi.any), def = mkNot(any); auto &dest = wi.dest; auto disjD = [&](const BasicBlock *d) { return inIv(wi.iv[d]); };
    ensureModel(s); const BasicBlock *take = nullptr; E takeC;
    struct Succ { const BasicBlock *d; E c; std::shared_ptr<Z3_model> m; }; std::vector<Succ> succ;
    { std::vector<E> nes; u128 cvv = evalBV(s, cv); std::shared_ptr<Z3_model> m = s.model;
      for (;;) {
        auto di = dest.find(cvv); const BasicBlock *d = di == dest.end() ? sw->getDefaultDest() : di->second; E cnd = d == sw->getDefaultDest() ? def : disjD(d);
        succ.push_back({d, cnd, m});
        E ne = mkNot(cnd); int bb = boolVal(ne); if (bb == 0) break; nes.push_back(ne);
        if (solve(s, nes, &m) != Z3_L_TRUE) break;
        Z3_ast rr; Z3_model_eval(Z, *m, cv.a, true, &rr); E k(rr); k = simp(k); cvv = numVal(k);
      }
    }
    // the default successor only needs to exclude the feasible cases: the path excludes the others
    for (auto &x : succ) if (x.d == sw->getDefaultDest()) { std::vector<E> ne; std::vector<Z3_ast> na; for (auto &y : succ) if (y.d != x.d) { ne.push_back(mkNot(y.c)); na.push_back(ne.back().a); } x.c = na.empty() ? mkTrue() : simp(E(Z3_mk_and(Z, na.size(), na.data()))); }
    take = succ[0].d; takeC = succ[0].c;
    for (size_t i = 1; i < succ.size(); i++) { auto n = clone(s); addPC(*n, succ[i].c); n->model = succ[i].m; jump(*n, cur, succ[i].d); work.push_back(std::move(n)); }
    if (!take) throw PathEnd(); addPC(s, takeC); jump(s, cur, take); return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(I);
    if (auto *II = dyn_cast<IntrinsicInst>(I)) { doIntrinsic(s, x, II); break; }
    if (cb->isInlineAsm()) { if (!I->getType()->isVoidTy()) setRes(s, x, constVal(&s, Constant::getNullValue(I->getType()))); break; }
    Function *F = cb->getCalledFunction();
    if (!F) { if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(al->getAliaseeObject()); else F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); }
    if (!F) { unsigned ci = I->getNumOperands() - 1; if (isa<InvokeInst>(I)) ci = I->getNumOperands() - 3 + 2; // callee is last
      ci = cb->getCalledOperandUse().getOperandNo(); Val c = A(ci); u64 a = (u64)concretize(s, c); auto it = faddr.find(a); if (it == faddr.end()) { memError(s, a, 0, "indirect call"); } F = const_cast<Function *>(it->second); }
    std::string n = F->getName().str();
    if (n[0] == '\1') n = n.substr(1);
    if (external(s, x, cb, F, n, F->isDeclaration())) break;
    { Frame &ff = s.st.back(); std::vector<Val> args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(op(ff, x, i)); 
      enter(s, F, std::move(args), cb); } return; }
  case Instruction::Ret: {
    Val r; if (I->getNumOperands()) r = A(0);
    for (u64 a : f.allocas) s.mem.erase(a);
    s.st.pop_back(); if (s.st.empty()) { sample(s); throw PathEnd(); }
    Frame &c = s.st.back(); const Ins &cx = c.fi->bbs[c.bb][c.pc]; if (cx.dst >= 0) c.regs[cx.dst] = std::move(r);
    if (auto *iv = dyn_cast<InvokeInst>(cx.I)) { jump(s, iv->getParent(), iv->getNormalDest()); return; }
    c.pc++; return; }
  case Instruction::Unreachable: ensureModel(s); report(s, "ub", "unreachable executed"); throw PathEnd();
  default: { std::string str; raw_string_ostream os(str); I->print(os); die(&s, "unsupported instruction " + str); }
  }
  { Frame &c = s.st.back(); const Ins &cx = c.fi->bbs[c.bb][c.pc]; if (auto *iv = dyn_cast<InvokeInst>(cx.I)) { jump(s, iv->getParent(), iv->getNormalDest()); return; } c.pc++; }
}
static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void onAlarm(int) { // inside one long query: no verdict
  std::string r = "{\"entry\":\"\",\"result\":\"inconclusive\",\"reason\":\"time limit inside a query\",\"paths\":0,\"steps\":0,\"queries\":0,\"one_shot\":0,\"solver_s\":0,\"max_query_s\":0,\"asserts\":0,\"forks\":0,\"wall_s\":0,\"covers\":{},\"assert_labels\":{},\"functions\":[],\"completed\":0,\"samples\":[],\"violations\":[]}\n";
  int fd = outPath.empty() ? 1 : open(outPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(fd, r.data(), r.size()) < 0) {} _exit(2);
}
int main(int argc, char **argv) {
  std::string bc, entry; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); }; if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--inc-limit") incLimit = atoi(nx().c_str()); else if (a == "--max-viol") maxViols = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "-o") outPath = nx(); else if (bc.empty()) bc = a; else entry = a; }
  t0 = now(); LLVMContext ctx; SMDiagnostic err; M = parseIRFile(bc, err, ctx); if (!M) { err.print("rsym", errs()); return 3; }
  { // the reader upgrades the layout (i128 16-aligned); rustc 1.76 / LLVM 17 compiled with i128 8-aligned
    std::string d = M->getDataLayoutStr(); size_t k = d.find("-i128:128"); if (k != std::string::npos) { d.erase(k, 9); M->setDataLayout(d); } }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, zerr);
  freshIncremental();
  signal(SIGALRM, onAlarm); alarm((unsigned)timeLimit + 5);
  Function *F = M->getFunction(entry); std::string fail;
  if (!F) { fprintf(stderr, "no function %s\n", entry.c_str()); fflush(stderr); _exit(3); }
  try {
    auto s = std::make_unique<State>();
    for (auto &g : M->globals()) addrOf(&g);
    for (auto &g : M->functions()) addrOf(&g);
    for (auto &g : M->globals()) { if (g.isDeclaration()) { auto o = std::make_shared<Obj>(); o->base = addrOf(&g); o->size = DL->getTypeAllocSize(g.getValueType()); if (!o->size) o->size = 1; o->by.assign(o->size, 0); s->mem[o->base] = o; continue; } auto o = globalObj(&g); if (g.isConstant()) roMem[o->base] = o; else s->mem[o->base] = o; }
    s->nextAddr = 0x40000000; enter(*s, F, {}, nullptr); work.push_back(std::move(s));
    while (!work.empty()) {
      auto cur = std::move(work.back()); work.pop_back();
      try { for (;;) step(*cur); } catch (PathEnd &) { nPaths++; }
    }
  } catch (Stop &) { }
  std::string r; bool ok = failure.empty() && viols.empty();
  r += "{\"entry\":\"" + esc(entry) + "\",\"result\":\"" + (viols.size() ? "violation" : failure.size() ? "inconclusive" : "holds") + "\",\"reason\":\"" + esc(failure) + "\"";
  char b[600]; snprintf(b, sizeof b, ",\"paths\":%llu,\"steps\":%llu,\"queries\":%llu,\"one_shot\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"forks\":%llu,\"wall_s\":%.3f", (unsigned long long)nPaths, (unsigned long long)nSteps, (unsigned long long)nQueries, (unsigned long long)nOneShot, tSolve, maxq, (unsigned long long)nAsserts, (unsigned long long)nForks, now() - t0); r += b;
  auto mp = [&](const char *k, std::map<std::string, u64> &m) { r += std::string(",\"") + k + "\":{"; bool fst = true; for (auto &p : m) { if (!fst) r += ","; fst = false; r += "\"" + esc(p.first) + "\":" + std::to_string(p.second); } r += "}"; };
  mp("covers", covers); mp("assert_labels", asserts);
  r += ",\"functions\":["; { bool fst = true; for (auto &n : fnsSeen) { if (!fst) r += ","; fst = false; r += "\"" + esc(n) + "\""; } } r += "]";
  r += ",\"completed\":" + std::to_string(nDone) + ",\"samples\":["; { bool f1 = true; for (auto &v : samples) { if (!f1) r += ","; f1 = false; r += "["; bool f2 = true; for (auto &in : v) { if (!f2) r += ","; f2 = false; r += "[\"" + esc(in.first) + "\",\""; char h[3]; for (auto by : in.second) { snprintf(h, 3, "%02x", by); r += h; } r += "\"]"; } r += "]"; } } r += "]";
  r += ",\"violations\":["; { bool fst = true; for (auto &v : viols) { if (!fst) r += ","; fst = false; r += "{\"label\":\"" + esc(v.label) + "\",\"kind\":\"" + esc(v.kind) + "\",\"where\":\"" + esc(v.where) + "\",\"inputs\":["; bool f2 = true; for (auto &in : v.inputs) { if (!f2) r += ","; f2 = false; r += "[\"" + esc(in.first) + "\",\""; char h[3]; for (auto by : in.second) { snprintf(h, 3, "%02x", by); r += h; } r += "\"]"; } r += "]}"; } } r += "]}\n";
  if (outPath.empty()) fputs(r.c_str(), stdout); else { std::ofstream o(outPath); o << r; }
  fflush(stdout); _exit(ok ? 0 : viols.size() ? 1 : 2);
}
