// Symbolic executor: runs harness entry points of the linked LLVM IR over symbolic inputs.
#include "ll.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
using std::string; using std::vector; using std::pair;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shared state between workers
struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<int> viol; std::atomic<int> inc; std::atomic<int> nworkers; std::atomic<u64> sampled; };
static Shared* sh;
static int g_jobs = 8, g_tier = 0, g_sampleN = 12, g_maxViol = 3; static double g_deadline = 0; static string g_outDir, g_harness; static u64 g_seed = 1;
static FILE* g_out = nullptr; static int g_verbose = 0; static u64 g_rlimit = 0; static u64 g_rlimit2 = 0;
static string g_src = "/repo/src/"; static u64 g_stepLimit = 700000000ull; static size_t g_memLimit = 0;

struct Stats {
  u64 paths = 0, steps = 0, maxPath = 0, symBranches = 0, forks = 0, asserts = 0, assertRw = 0, assertDom = 0, assertSat = 0, queries = 0, qSat = 0, qUnsat = 0, qUnknown = 0, cacheHits = 0, domHits = 0, modelHits = 0, assumes = 0, killed = 0, panics = 0, ovf = 0, guessed = 0, qGf2 = 0;
  double solver = 0, maxQ = 0; u64 rwChecked = 0, rwBad = 0;
} st;
static std::map<string, u64> g_reach;

static string jesc(const string& s) { string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }

// ---------------------------------------------------------------- memory
struct Cell { Expr* e; u32 byte; };
struct Obj {
  int rc = 1; u64 base = 0, size = 0, cap = 0, hi = 0, align = 1; Expr* symSize = nullptr; u8 *data = nullptr, *st = nullptr; Cell* cells = nullptr; bool zeroed = false, ro = false, heap = false;
};
static Obj* newObj(u64 base, u64 size, u64 align, bool zeroed) {
  Obj* o = new Obj; o->base = base; o->size = size; o->align = align; o->zeroed = zeroed; u64 n = size ? size : 1; o->cap = n;
  o->data = (u8*)calloc(n, 1); o->st = (u8*)calloc(n, 1);
  if (!o->data || !o->st) { fprintf(stderr, "out of memory\n"); _exit(7); }
  return o;
}
static void freeObj(Obj* o) { if (--o->rc == 0) { free(o->data); free(o->st); free(o->cells); delete o; } }
static Obj* cloneObj(Obj* o) {
  Obj* n = newObj(o->base, o->size, o->align, o->zeroed); n->symSize = o->symSize; n->ro = o->ro; n->heap = o->heap; n->hi = o->hi;
  memcpy(n->data, o->data, o->hi); memcpy(n->st, o->st, o->hi);
  if (o->cells) { n->cells = (Cell*)calloc(n->cap, sizeof(Cell)); memcpy(n->cells, o->cells, o->hi * sizeof(Cell)); }
  return n;
}
static inline int bst(Obj* o, u64 i) { u8 s = o->st[i]; return s ? s : (o->zeroed ? 1 : 0); }

struct ObjVec { // vector of refcounted objects
  vector<Obj*> v;
  ObjVec() {}
  ObjVec(const ObjVec& o) : v(o.v) { for (Obj* x : v) if (x) x->rc++; }
  ObjVec& operator=(const ObjVec&) = delete;
  ~ObjVec() { for (Obj* x : v) if (x) freeObj(x); }
};

// ---------------------------------------------------------------- small variable domains
struct Bits { u64 b[4]; bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); } bool has(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; } void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); } };
static Bits operator&(const Bits& x, const Bits& y) { return {{x.b[0] & y.b[0], x.b[1] & y.b[1], x.b[2] & y.b[2], x.b[3] & y.b[3]}}; }
static bool operator==(const Bits& x, const Bits& y) { return !memcmp(&x, &y, sizeof x); }
static Bits fullBits(int w) { Bits r{{0, 0, 0, 0}}; for (int i = 0; i < (1 << w); i++) r.set(i); return r; }
static std::unordered_map<Expr*, Bits> satCache;
static const Bits& satset(Expr* c) {
  auto it = satCache.find(c); if (it != satCache.end()) return it->second;
  int v = c->sv; int w = g_vars[v].w; Bits r{{0, 0, 0, 0}}; Model m(v + 1, 0);
  for (int i = 0; i < (1 << w); i++) { m[v] = i; if (evalExpr(c, m, freshStamp())) r.set(i); }
  return satCache[c] = r;
}
static inline bool smallVar(int v) { return v >= 0 && g_vars[v].w <= 8; }

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver zs, zs2; static Z3_sort sorts[130];
static Z3_sort bvs(int w) { if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(Z, w); } return sorts[w]; }
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(8); }
static Z3_ast zconst(u128 v, int w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, bvs(w));
  Z3_ast lo = Z3_mk_unsigned_int64(Z, (u64)v, bvs(64)), hi = Z3_mk_unsigned_int64(Z, (u64)((v >> 64) & maskw(w - 64)), bvs(w - 64));
  return Z3_mk_concat(Z, hi, lo);
}
static Z3_ast toBV(Expr* e); static Z3_ast toBool(Expr* e);
static Z3_ast zTable(Z3_ast idx, int iw, TableInfo& t, u64 lo, u64 hi) { // balanced decision tree over [lo,hi)
  if (hi - lo == 1) return zconst(t.v[lo], t.ew);
  u64 mid = (lo + hi) / 2; Z3_ast a = zTable(idx, iw, t, lo, mid), b = zTable(idx, iw, t, mid, hi);
  return Z3_mk_ite(Z, Z3_mk_bvult(Z, idx, zconst(mid, iw)), a, b);
}
static Z3_ast toBV(Expr* e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r; int w = e->w;
  switch (e->kind) {
    case K_CONST: r = zconst(e->c, w); break;
    case K_VAR: { char b[32]; snprintf(b, 32, "v%u_%d", e->aux, w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(w)); break; }
    case K_UNDEF: r = Z3_mk_fresh_const(Z, "undef", bvs(w)); break;
    case K_LIN: {
      r = nullptr;
      for (u32 i = 0; i < e->n; i++) { Z3_ast t = toBV(e->args[i]); u128 k = e->coef[i];
        bool neg = false; u128 kk = k; if (k == maskw(w)) { neg = true; kk = 1; }
        Z3_ast x = kk == 1 ? t : Z3_mk_bvmul(Z, zconst(kk, w), t);
        if (!r) r = neg ? Z3_mk_bvneg(Z, x) : x; else r = neg ? Z3_mk_bvsub(Z, r, x) : Z3_mk_bvadd(Z, r, x); }
      if (e->c) r = Z3_mk_bvadd(Z, r, zconst(e->c, w)); break; }
    case K_MUL: r = Z3_mk_bvmul(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_UDIV: r = Z3_mk_bvudiv(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_SDIV: r = Z3_mk_bvsdiv(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_UREM: r = Z3_mk_bvurem(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_SREM: r = Z3_mk_bvsrem(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_SHL: r = Z3_mk_bvshl(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_LSHR: r = Z3_mk_bvlshr(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_ASHR: r = Z3_mk_bvashr(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_AND: case K_OR: case K_XOR: {
      if (w == 1) { r = Z3_mk_ite(Z, toBool(e), zconst(1, 1), zconst(0, 1)); break; }
      r = toBV(e->args[0]);
      for (u32 i = 1; i < e->n; i++) { Z3_ast x = toBV(e->args[i]); r = e->kind == K_AND ? Z3_mk_bvand(Z, r, x) : e->kind == K_OR ? Z3_mk_bvor(Z, r, x) : Z3_mk_bvxor(Z, r, x); }
      if (e->kind == K_XOR && e->c) r = Z3_mk_bvxor(Z, r, zconst(e->c, w));
      break; }
    case K_EQ: case K_ULT: case K_SLT: r = Z3_mk_ite(Z, toBool(e), zconst(1, 1), zconst(0, 1)); break;
    case K_ITE: r = Z3_mk_ite(Z, toBool(e->args[0]), toBV(e->args[1]), toBV(e->args[2])); break;
    case K_CONCAT: r = toBV(e->args[0]); for (u32 i = 1; i < e->n; i++) r = Z3_mk_concat(Z, toBV(e->args[i]), r); break;
    case K_EXTRACT: r = Z3_mk_extract(Z, e->aux + w - 1, e->aux, toBV(e->args[0])); break;
    case K_SEXT: r = Z3_mk_sign_ext(Z, w - e->args[0]->w, toBV(e->args[0])); break;
    case K_TABLE: { TableInfo& t = g_tables[e->aux]; r = zTable(toBV(e->args[0]), e->args[0]->w, t, 0, t.v.size()); break; }
    default: abort();
  }
  e->zbv = (void*)r; return r;
}
static Z3_ast toBool(Expr* e) {
  assert(e->w == 1); if (e->zbool) return (Z3_ast)e->zbool; Z3_ast r;
  switch (e->kind) {
    case K_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case K_EQ: r = Z3_mk_eq(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_ULT: r = Z3_mk_bvult(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_SLT: r = Z3_mk_bvslt(Z, toBV(e->args[0]), toBV(e->args[1])); break;
    case K_AND: case K_OR: { vector<Z3_ast> a; for (u32 i = 0; i < e->n; i++) a.push_back(toBool(e->args[i])); r = e->kind == K_AND ? Z3_mk_and(Z, a.size(), a.data()) : Z3_mk_or(Z, a.size(), a.data()); break; }
    case K_XOR: { r = toBool(e->args[0]); for (u32 i = 1; i < e->n; i++) r = Z3_mk_xor(Z, r, toBool(e->args[i])); if (e->c) r = Z3_mk_not(Z, r); break; }
    case K_ITE: r = Z3_mk_ite(Z, toBool(e->args[0]), toBool(e->args[1]), toBool(e->args[2])); break;
    default: r = Z3_mk_eq(Z, toBV(e), zconst(1, 1)); break;
  }
  e->zbool = (void*)r; return r;
}
// wall-clock limit per solver call (the resource limit does not bound every phase of z3)
static void onAlarm(int) { if (Z) Z3_interrupt(Z); }
static void armTimer(int secs) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_REAL, &t, nullptr); }
static void initZ3() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  Z3_config c = Z3_mk_config(); Z = Z3_mk_context(c); Z3_set_error_handler(Z, zerr);
  zs = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, zs);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), g_rlimit); Z3_solver_set_params(Z, zs, p);
  Z3_tactic t = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, t); zs2 = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, zs2);
  Z3_params p2 = Z3_mk_params(Z); Z3_params_inc_ref(Z, p2); Z3_params_set_uint(Z, p2, Z3_mk_string_symbol(Z, "rlimit"), g_rlimit2); Z3_solver_set_params(Z, zs2, p2);
}
static string g_dumpDir; static u64 g_dumpCtr = 0;
static std::unordered_map<Expr*, vector<u32>> varsCache;
static const vector<u32>& varsOf(Expr* e) { auto it = varsCache.find(e); if (it != varsCache.end()) return it->second; vector<u32> v; collectVars(e, v); return varsCache[e] = v; }
struct QRes { int r; vector<pair<u32, u64>> m; };
struct VecHash { size_t operator()(const vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<vector<u32>, QRes, VecHash> qCache;

// arithmetic that is expensive to bit-blast: try a few assignments before asking the solver (a hit is a model, a miss says nothing)
static std::unordered_map<Expr*, char> heavyCache;
static bool heavy(Expr* e) {
  if (e->n == 0) return false;
  auto it = heavyCache.find(e); if (it != heavyCache.end()) return it->second;
  bool h = e->kind == K_MUL || e->kind == K_SDIV || e->kind == K_UDIV || e->kind == K_SREM || e->kind == K_UREM || (e->kind == K_LIN && e->n >= 4);
  for (u32 i = 0; i < e->n && !h; i++) h = heavy(e->args[i]);
  return heavyCache[e] = h;
}
static bool guess(const vector<Expr*>& cs, vector<pair<u32, u64>>& out) {
  bool h = false; for (Expr* e : cs) if (heavy(e)) { h = true; break; }
  if (!h) return false;
  std::set<u32> vs; for (Expr* e : cs) for (u32 v : varsOf(e)) vs.insert(v);
  Model m(g_vars.size(), 0); u64 rng = 0x9e3779b97f4a7c15ull + cs.back()->id;
  for (int t = 0; t < 24; t++) {
    for (u32 v : vs) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; int w = g_vars[v].e->w; u64 mk = w >= 64 ? ~0ull : (1ull << w) - 1; u64 x = rng;
      if (t == 0) x = 0; else if (t == 1) x = ~0ull; else if (t == 2) x = 1ull << (w - 1); else if (t == 3) x = (1ull << (w - 1)) - 1; else if (t & 1) { switch (rng >> 60 & 3) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 1ull << (w - 1); break; default: x = (1ull << (w - 1)) - 1; } }
      m[v] = x & mk; }
    u64 stp = freshStamp(); bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (!(evalExpr(cs[i], m, stp) & 1)) { ok = false; break; }
    if (ok) { for (u32 v : vs) out.push_back({v, m[v]}); return true; }
  }
  return false;
}
static void dumpQuery(const vector<Expr*>& cs) {
  if (!g_dumpDir.empty() && (++g_dumpCtr % 16 == 1) && g_dumpCtr < 4000) {
    Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); for (Expr* e : cs) Z3_solver_assert(Z, s, toBool(e));
    string fn = g_dumpDir + "/" + g_harness + "." + std::to_string(getpid()) + "." + std::to_string(g_dumpCtr) + ".smt2"; FILE* f = fopen(fn.c_str(), "w");
    if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z, s)); fclose(f); } Z3_solver_dec_ref(Z, s);
  }
}
// decide the conjunction; on sat fill model values for the involved variables
static QRes solve(const vector<Expr*>& cs, const Model& base) {
  vector<u32> key; for (Expr* e : cs) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qCache.find(key); if (it != qCache.end()) { st.cacheHits++; return it->second; }
  QRes q; double t0 = now(); st.queries++;
  if (guess(cs, q.m)) { q.r = 1; st.qSat++; st.guessed++; st.solver += now() - t0; qCache[key] = q; return q; }
  { int g = -1; Model gm; u64 rng = 0x9e3779b97f4a7c15ull + cs.back()->id;
    for (int t = 0; t < 24; t++) { // models of the linear part around several starting points
      gm = base; vector<Expr*> simp;
      if (t) { std::set<u32> vs; for (Expr* e : cs) for (u32 v : varsOf(e)) vs.insert(v); for (u32 v : vs) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; if (gm.size() <= v) gm.resize(v + 1, 0); int w = g_vars[v].e->w; u64 x = t == 1 ? 0 : t == 2 ? ~0ull : (rng & 0x100) ? rng >> 9 : gm[v]; gm[v] = w >= 64 ? x : x & ((1ull << w) - 1); } }
      g = gf2Solve(cs, gm, simp); if (g != 1) break;
      u64 stp = freshStamp(); bool ok = true; for (Expr* e : cs) if (!(evalExpr(e, gm, stp) & 1)) { ok = false; if (g_verbose > 1) fprintf(stderr, "cand fails on %s\n", show(e, 9).c_str()); break; }
      if (ok) break; g = -1;
    }
    if (g >= 0) { q.r = g; st.qGf2++; if (g) { st.qSat++; std::set<u32> vs; for (Expr* e : cs) for (u32 v : varsOf(e)) vs.insert(v); for (u32 v : vs) q.m.push_back({v, v < gm.size() ? gm[v] : 0}); } else st.qUnsat++;
      double dt = now() - t0; st.solver += dt; if (dt > st.maxQ) st.maxQ = dt; if (!g) dumpQuery(cs); qCache[key] = q; return q; } }
  Z3_model mdl = nullptr; Z3_lbool r = Z3_L_UNDEF;
  for (int pass = 0; pass < 2 && r == Z3_L_UNDEF; pass++) {
    Z3_solver s = pass ? zs2 : zs;
    if (pass == 0) Z3_solver_push(Z, s); else Z3_solver_reset(Z, s);
    for (Expr* e : cs) Z3_solver_assert(Z, s, toBool(e));
    armTimer(g_tier ? (pass ? 300 : 60) : (pass ? 60 : 20)); r = Z3_solver_check(Z, s); armTimer(0);
    if (r == Z3_L_TRUE) {
      mdl = Z3_solver_get_model(Z, s); if (mdl) Z3_model_inc_ref(Z, mdl);
      std::set<u32> vs; for (Expr* e : cs) for (u32 v : varsOf(e)) vs.insert(v);
      for (u32 v : vs) { Z3_ast val; if (!Z3_model_eval(Z, mdl, toBV(g_vars[v].e), true, &val)) continue; uint64_t x = 0; Z3_get_numeral_uint64(Z, val, &x); q.m.push_back({v, x}); }
      Z3_model_dec_ref(Z, mdl);
    }
    if (pass == 0) Z3_solver_pop(Z, s, 1); else Z3_solver_reset(Z, s);
  }
  double dt = now() - t0; st.solver += dt; if (dt > st.maxQ) st.maxQ = dt;
  q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (q.r == 1) st.qSat++; else if (q.r == 0) st.qUnsat++; else st.qUnknown++;
  if (g_verbose && dt > 2) { fprintf(stderr, "[%d] slow query %.1fs -> %d: %zu conjuncts; last %s\n", getpid(), dt, q.r, cs.size(), show(cs.back(), 5).c_str()); if (g_verbose > 1) for (Expr* e : cs) fprintf(stderr, "   conj %s\n", show(e, 6).c_str()); }
  if (q.r == 0) dumpQuery(cs);
  qCache[key] = q; return q;
}

// ---------------------------------------------------------------- states
struct Frame { Func* f; int pc; u32 base; int ret; u32 stackBase; };
struct Input { Expr* e; u64 c; int w; };
struct State {
  vector<V> regs; vector<Frame> frames; ObjVec stack, heap; std::unordered_map<u32, Obj*> gl;
  vector<Expr*> cons; Model model; u64 stamp = 0; vector<Bits> dom; vector<u8> multi; int nvars = 0;
  vector<Input> inputs; vector<V> obs; i64 forced = -1; bool expectPanic = false; Expr* allocLimit = nullptr; Expr* base = nullptr; Expr* live = nullptr; u64 peak = 0; u64 steps = 0; vector<string> trace;
  State() {}
  State(const State& o) : regs(o.regs), frames(o.frames), stack(o.stack), heap(o.heap), gl(o.gl), cons(o.cons), model(o.model), stamp(o.stamp), dom(o.dom), multi(o.multi), nvars(o.nvars), inputs(o.inputs), obs(o.obs), forced(o.forced), expectPanic(o.expectPanic), allocLimit(o.allocLimit), base(o.base), live(o.live), peak(o.peak), steps(o.steps) { for (auto& p : gl) p.second->rc++; }
  ~State() { for (auto& p : gl) freeObj(p.second); }
};
static std::deque<State*> work;
struct PathEnd {}; struct Inconclusive { string why; };
static void unsup(const string& w) { throw Inconclusive{w}; }
static Expr* X(const V& v, int w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V R(Expr* e) { if (e->kind == K_CONST && e->w <= 64) return V{nullptr, (u64)e->c}; return V{e, 0}; }
static u64 cval(const V& v) { return v.e ? (u64)v.e->c : v.c; }

static string stackJson(State* s) { string r = "["; for (int i = (int)s->frames.size() - 1, k = 0; i >= 0 && k < 24; i--, k++) { if (k) r += ","; r += "\"" + jesc(s->frames[i].f->name) + "\""; } return r + "]"; }
static string inputsJson(State* s, const Model& m) {
  string r = "["; bool first = true; u64 stp = freshStamp(); char b[64];
  for (auto& i : s->inputs) { u64 v = i.e ? (u64)evalExpr(i.e, m, stp) : i.c; snprintf(b, 64, "%s[%d,\"%llx\"]", first ? "" : ",", i.w, (unsigned long long)v); r += b; first = false; }
  return r + "]";
}
static void violation(State* s, const string& msg, const char* kind) {
  fprintf(g_out, "{\"t\":\"viol\",\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":%s,\"inputs\":%s}\n", kind, jesc(msg).c_str(), stackJson(s).c_str(), inputsJson(s, s->model).c_str()); fflush(g_out);
  if (g_verbose) fprintf(stderr, "[%d] VIOL %s: %s\n   %s\n", getpid(), kind, msg.c_str(), stackJson(s).c_str());
  if (++sh->viol >= g_maxViol) sh->stop = 1;
  throw PathEnd{};
}
static void inconclusive(State* s, const string& why) { fprintf(g_out, "{\"t\":\"inc\",\"why\":\"%s\",\"stack\":%s}\n", jesc(why).c_str(), s ? stackJson(s).c_str() : "[]"); fflush(g_out); if (++sh->inc > 200) sh->stop = 1; if (g_verbose) fprintf(stderr, "[%d] INC %s %s\n", getpid(), why.c_str(), s ? stackJson(s).c_str() : ""); }

static void splitConj(Expr* c, vector<Expr*>& out) {
  if (c->kind == K_AND && c->w == 1) { for (u32 i = 0; i < c->n; i++) splitConj(c->args[i], out); return; }
  if (c->kind == K_XOR && c->w == 1 && c->c == 1 && c->n == 1 && c->args[0]->kind == K_OR) { Expr* o = c->args[0]; for (u32 i = 0; i < o->n; i++) splitConj(mkNot(o->args[i]), out); return; }
  out.push_back(c);
}
static void addCons(State* s, Expr* c) {
  vector<Expr*> cs; splitConj(c, cs);
  for (Expr* e : cs) {
    if (isTrue(e)) continue;
    bool dup = false; for (size_t i = s->cons.size(); i-- > 0 && s->cons.size() - i < 24;) if (s->cons[i] == e) { dup = true; break; }
    if (dup) continue;
    if (smallVar(e->sv)) { s->dom[e->sv] = s->dom[e->sv] & satset(e); }
    else if (e->sv >= 0) s->multi[e->sv] = 1;
    else for (u32 v : varsOf(e)) s->multi[v] = 1;
    s->cons.push_back(e);
  }
}
static bool mtrue(State* s, Expr* c) { return evalExpr(c, s->model, s->stamp) != 0; }
static vector<vector<pair<u32, u64>>> recentModels;
// Is path ∧ c satisfiable?  1 yes (nm = model), 0 no, -1 unknown.
static int feasible(State* s, Expr* c, Model& nm) {
  if (isC(c)) { nm = s->model; return c->c ? 1 : 0; }
  if (mtrue(s, c)) { nm = s->model; return 1; }
  vector<Expr*> cs; splitConj(c, cs);
  for (Expr* e : cs) {
    if (isFalse(e)) return 0;
    if (smallVar(e->sv)) { Bits b = s->dom[e->sv] & satset(e); if (b.empty()) { st.domHits++; return 0; } }
  }
  if (smallVar(c->sv) && !s->multi[c->sv]) {
    Bits b = s->dom[c->sv] & satset(c); st.domHits++;
    if (b.empty()) return 0;
    nm = s->model; if ((int)nm.size() <= c->sv) nm.resize(c->sv + 1, 0);
    unsigned i = 0; while (!b.has(i)) i++; nm[c->sv] = i; return 1;
  }
  // syntactic contradiction
  { Expr* nc = mkNot(c); for (Expr* k : s->cons) if (k == nc) { st.domHits++; return 0; }
    if (c->kind == K_XOR && c->w == 1 && c->n == 1 && c->args[0]->kind == K_AND) { Expr* a = c->args[0]; u32 hit = 0; for (u32 i = 0; i < a->n; i++) for (Expr* k : s->cons) if (k == a->args[i]) { hit++; break; } if (hit == a->n) { st.domHits++; return 0; } } }
  for (Expr* e : cs) { Expr* ne = mkNot(e); for (Expr* k : s->cons) if (k == ne) { st.domHits++; return 0; } }
  // independent slice
  vector<char> in(s->nvars + 1, 0); vector<u32> wl; for (Expr* e : cs) for (u32 v : varsOf(e)) if (v < in.size() && !in[v]) { in[v] = 1; wl.push_back(v); } else if (v >= in.size()) { }
  vector<Expr*> slice; vector<char> used(s->cons.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s->cons.size(); i++) if (!used[i]) { const auto& vs = varsOf(s->cons[i]); bool hit = false; for (u32 v : vs) if (in[v]) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; slice.push_back(s->cons[i]); for (u32 v : vs) in[v] = 1; } } }
  auto tryModel = [&](const vector<pair<u32, u64>>& pv) { Model m = s->model; for (auto& p : pv) { if (p.first >= in.size() || !in[p.first]) continue; if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    u64 stp = freshStamp(); for (Expr* e : cs) if (!evalExpr(e, m, stp)) return false; for (Expr* e : slice) if (!evalExpr(e, m, stp)) return false; nm = m; return true; };
  for (size_t i = recentModels.size(); i-- > 0 && recentModels.size() - i <= 8;) if (tryModel(recentModels[i])) { st.modelHits++; return 1; }
  slice.insert(slice.end(), cs.begin(), cs.end());
  QRes q = solve(slice, s->model);
  if (q.r == 1) {
    recentModels.push_back(q.m); if (recentModels.size() > 64) recentModels.erase(recentModels.begin(), recentModels.begin() + 32);
    nm = s->model; for (auto& p : q.m) { if (nm.size() <= p.first) nm.resize(p.first + 1, 0); nm[p.first] = p.second; }
    u64 stp = freshStamp(); for (Expr* e : slice) if (!e->undef && !evalExpr(e, nm, stp)) { fprintf(stderr, "model does not satisfy %s\n", show(e).c_str()); _exit(9); }
  }
  return q.r;
}
static void setModel(State* s, Model&& m) { s->model = std::move(m); s->stamp = freshStamp(); }

// ---------------------------------------------------------------- work sharing
static void flushStats();
static vector<string> g_samples;
static void becomeWorker(State* keep) {
  // runs in the forked child
  work.clear(); work.push_back(keep); st = Stats(); g_samples.clear(); g_reach.clear(); for (Func* f : g_funcs) { std::fill(f->blockHit.begin(), f->blockHit.end(), 0); f->calls = 0; }
  g_rw.clear(); g_rwEvery = 0;
  int id = sh->nworkers++; string fn = g_outDir + "/" + g_harness + ".w" + std::to_string(id) + ".jsonl"; g_out = fopen(fn.c_str(), "w");
  if (!g_out) _exit(6);
}
static bool maybeShare(size_t min) { // true in a freshly forked worker
  if (work.size() < min) return false;
  int a = sh->active.load();
  while (a < g_jobs) {
    if (sh->active.compare_exchange_weak(a, a + 1)) {
      State* give = work.front(); fflush(g_out);
      pid_t p = fork();
      if (p < 0) { sh->active--; return false; }
      if (p == 0) { becomeWorker(give); return true; }
      work.pop_front(); delete give; if (work.size() < min) return false; a = sh->active.load();
    }
  }
  return false;
}
static bool g_isChild = false;

// fork the state: clone restarts the current instruction
static State* cloneState(State* s) { st.forks++; return new State(*s); }
static void push(State* n) { work.push_back(n); }

static void undefUse(State* s, const char* what) { violation(s, string("result depends on uninitialised memory (") + what + ")", "uninit"); }

// decide a condition, forking when both outcomes are possible
static bool branch(State* s, Expr* c) {
  if (isC(c)) return c->c;
  if (c->undef) undefUse(s, "branch");
  st.symBranches++;
  bool v = mtrue(s, c); Expr* other = v ? mkNot(c) : c; Expr* mine = v ? c : mkNot(c);
  Model nm; int f = feasible(s, other, nm);
  if (f == 1) { State* n = cloneState(s); addCons(n, other); setModel(n, std::move(nm)); push(n); }
  else if (f < 0) inconclusive(s, "solver gave no answer on a branch");
  if (f != 0) addCons(s, mine);
  return v;
}
static u64 concretize(State* s, Expr* e, int slot) {
  if (isC(e)) return (u64)e->c;
  if (e->undef) undefUse(s, "address or size");
  u64 v = (u64)evalExpr(e, s->model, s->stamp); Expr* eq = mkEq(e, mkConst(v, e->w)); Expr* ne = mkNot(eq);
  Model nm; int f = feasible(s, ne, nm);
  if (f == 1) { static int dbg = getenv("VFORK") ? 200 : 0; if (dbg > 0) { dbg--; fprintf(stderr, "split in"); for (int i = (int)s->frames.size(); i-- > 0 && i > (int)s->frames.size() - 4;) fprintf(stderr, " %s", s->frames[i].f->name.c_str()); fprintf(stderr, "\n"); } State* n = cloneState(s); addCons(n, ne); setModel(n, std::move(nm)); push(n); }
  else if (f < 0) inconclusive(s, "solver gave no answer on a value split");
  if (f != 0) addCons(s, eq);
  if (slot >= 0) s->regs[s->frames.back().base + slot] = mkV(v);
  return v;
}
static u64 conc(State* s, const Opnd& o) { V v = o.slot >= 0 ? s->regs[s->frames.back().base + o.slot] : o.v; if (!v.e) return v.c; return concretize(s, v.e, o.slot); }

// ---------------------------------------------------------------- objects
static std::unordered_map<u32, Obj*> constObjs;
static Obj* globalObj(State* s, u32 id, bool wr) {
  Global* g = g_globals[id - 1];
  auto mk = [&]() { initGlobal(g); Obj* o = newObj((u64)id << 32, g->size, 16, false); memcpy(o->data, g->data.data(), g->size); memcpy(o->st, g->st.data(), g->size); o->hi = g->size; o->ro = g->isConst; return o; };
  if (g->ext) unsup("external global " + g->name);
  if (g->isConst) { auto it = constObjs.find(id); if (it != constObjs.end()) return it->second; return constObjs[id] = mk(); }
  auto it = s->gl.find(id); if (it == s->gl.end()) { Obj* o = mk(); s->gl[id] = o; return o; }
  if (wr && it->second->rc > 1) { Obj* o = cloneObj(it->second); it->second->rc--; it->second = o; }
  return it->second;
}
static Obj* findObj(State* s, u64 addr, bool wr) {
  u64 id = addr >> 32;
  if (id == 0) return nullptr;
  Obj** p;
  if (id >= STACK0) { u64 k = id - STACK0; if (k >= s->stack.v.size()) return nullptr; p = &s->stack.v[k]; }
  else if (id >= HEAP0) { u64 k = id - HEAP0; if (k >= s->heap.v.size()) return nullptr; p = &s->heap.v[k]; }
  else if (id >= FUNC0) return nullptr;
  else { if (id > g_globals.size()) return nullptr; return globalObj(s, id, wr); }
  if (!*p) return nullptr;
  if (wr && (*p)->rc > 1) { Obj* o = cloneObj(*p); (*p)->rc--; *p = o; }
  return *p;
}
static Obj* access(State* s, u64 addr, u64 n, bool wr, const char* what) {
  Obj* o = findObj(s, addr, wr);
  if (!o) violation(s, string(what) + " through an invalid pointer", "memory");
  u64 off = addr & 0xffffffffull;
  if (off + n > o->size) violation(s, string(what) + " out of bounds", "memory");
  if (o->symSize) { Expr* ok = mkNot(mkUlt(o->symSize, mkConst(off + n, 64))); Model nm; int f = feasible(s, mkNot(ok), nm); if (f == 1) { setModel(s, std::move(nm)); violation(s, string(what) + " out of bounds", "memory"); } if (f < 0) inconclusive(s, "solver gave no answer on a bounds check"); }
  if (wr && o->ro) violation(s, "write to constant memory", "memory");
  return o;
}
static V loadBytes(State* s, Obj* o, u64 off, int w) {
  u64 n = (w + 7) / 8; bool conc = true; u64 v = 0;
  if (n <= 8) {
    for (u64 i = 0; i < n; i++) { if (bst(o, off + i) != 1) { conc = false; break; } v |= (u64)o->data[off + i] << (8 * i); }
    if (conc) return mkV(w < 64 ? v & ((1ull << w) - 1) : v);
  }
  vector<Expr*> ps; u64 i = 0;
  while (i < n) {
    int b = bst(o, off + i);
    if (b == 0) { ps.push_back(mkUndef(8)); i++; }
    else if (b == 1) { ps.push_back(mkConst(o->data[off + i], 8)); i++; }
    else { Cell c = o->cells[off + i]; u64 k = 1; while (i + k < n && o->st[off + i + k] == 2 && o->cells[off + i + k].e == c.e && o->cells[off + i + k].byte == c.byte + k) k++;
      int lo = c.byte * 8; ps.push_back(mkExtract(c.e, lo, (int)k * 8)); i += k; }
  }
  Expr* e = ps.size() == 1 ? ps[0] : mkConcat(ps);
  if (e->w > w) e = mkExtract(e, 0, w);
  return R(e);
}
static void storeBytes(Obj* o, u64 off, const V& v0, int w) {
  u64 n = (w + 7) / 8; if (off + n > o->hi) o->hi = off + n;
  V v = v0;
  if (v.e && v.e->kind == K_UNDEF) { if (o->zeroed) { // cannot represent "uninit" in a zeroed object: materialise
      for (u64 i = 0; i < o->size; i++) if (!o->st[i]) o->st[i] = 1; o->zeroed = false; o->hi = o->size; }
    memset(o->st + off, 0, n); return; }
  if (v.e && v.e->kind == K_CONST) { u128 c = v.e->c; for (u64 i = 0; i < n; i++) { o->data[off + i] = (u8)(c >> (8 * i)); o->st[off + i] = 1; } return; }
  if (!v.e) { for (u64 i = 0; i < n; i++) { o->data[off + i] = (u8)(v.c >> (8 * i)); o->st[off + i] = 1; } return; }
  Expr* e = v.e; if ((u64)e->w < n * 8) e = mkZExt(e, n * 8);
  if (!o->cells) o->cells = (Cell*)calloc(o->cap, sizeof(Cell));
  if (e->kind == K_CONCAT) { // keep constant and uninitialised parts visible
    bool split = false; int p = 0; for (u32 i = 0; i < e->n; i++) { if (p % 8) { split = false; break; } if (isC(e->args[i]) || e->args[i]->kind == K_UNDEF) split = true; p += e->args[i]->w; }
    if (split) { bool ok = true; p = 0; for (u32 i = 0; i < e->n; i++) { if (p % 8 || e->args[i]->w % 8) ok = false; p += e->args[i]->w; }
      if (ok) { p = 0; for (u32 i = 0; i < e->n; i++) { storeBytes(o, off + p / 8, R(e->args[i]), e->args[i]->w); p += e->args[i]->w; } return; } }
  }
  for (u64 i = 0; i < n; i++) { o->cells[off + i] = {e, (u32)i}; o->st[off + i] = 2; }
}
static void copyBytes(Obj* d, u64 doff, Obj* s, u64 soff, u64 n) {
  if (n == 0) return; if (doff + n > d->hi) d->hi = doff + n;
  bool any2 = false, any0 = false; for (u64 i = 0; i < n; i++) { int b = bst(s, soff + i); if (b == 2) any2 = true; if (b == 0) any0 = true; }
  if (any0 && d->zeroed) { for (u64 i = 0; i < d->size; i++) if (!d->st[i]) d->st[i] = 1; d->zeroed = false; d->hi = d->size; }
  if (any2 && !d->cells) d->cells = (Cell*)calloc(d->cap, sizeof(Cell));
  memmove(d->data + doff, s->data + soff, n);
  if (d == s && doff > soff) { if (any2) memmove(d->cells + doff, s->cells + soff, n * sizeof(Cell)); for (u64 i = n; i-- > 0;) d->st[doff + i] = bst(s, soff + i); }
  else { if (any2) memmove(d->cells + doff, s->cells + soff, n * sizeof(Cell)); for (u64 i = 0; i < n; i++) d->st[doff + i] = bst(s, soff + i); }
}
// a load through a symbolic address of read-only data becomes a table lookup
static bool tableLoad(State* s, Expr* a, const vector<Leaf>& lv, vector<V>& out) {
  u64 base = (a->umin >> 32) << 32; if (!base || (a->umax >> 32) != (a->umin >> 32)) {
    u64 v = (u64)evalExpr(a, s->model, s->stamp); base = (v >> 32) << 32; }
  Obj* o = findObj(s, base, false); if (!o || o->symSize || o->size == 0) return false;
  bool isConst = o->ro; u64 need = 0; for (auto& l : lv) need = std::max(need, l.off + (l.w + 7) / 8);
  if (o->size > (1 << 16) || need > o->size) return false;
  if (!isConst) { if (o->size > 4096) return false; for (u64 i = 0; i < o->size; i++) if (bst(o, i) != 1) return false; }
  Expr* off = mkSub(a, mkConst(base, 64));
  Expr* ok = mkNot(mkUlt(mkConst(o->size - need, 64), off));
  if (!isTrue(ok)) { Model nm; int f = feasible(s, mkNot(ok), nm); if (f == 1) { setModel(s, std::move(nm)); violation(s, "load out of bounds", "memory"); } if (f < 0) inconclusive(s, "solver gave no answer on a bounds check"); }
  u64 scale = 1, add = 0; Expr* idx = off;
  if (off->kind == K_LIN && off->n == 1 && off->args[0]->kind == K_CONCAT) { // constant high part of the scaled index
    Expr* c = off->args[0]; Expr* top = c->args[c->n - 1];
    if (isC(top) && top->c) { int lo = c->w - top->w; off = mkAdd(mkMul(mkConst(off->coef[0], 64), mkZExt(mkExtract(c, 0, lo), 64)), mkConst(off->c + off->coef[0] * (top->c << lo), 64)); idx = off; }
  }
  if (off->kind == K_LIN && off->n == 1 && (u64)off->coef[0] > (u64)-4096) { // c - s*y: index by the complement of y
    u64 sc = -(u64)off->coef[0], M = (u64)possibleBits(off->args[0]); u64 nc = (u64)off->c - sc * M;
    if (M < o->size && nc < o->size) { scale = sc; add = nc; idx = mkXor(off->args[0], mkConst(M, 64)); off = idx; }
  }
  if (off->kind == K_LIN && off->n == 1 && off->coef[0] < 4096 && (u64)off->c < o->size) { scale = (u64)off->coef[0]; add = (u64)off->c; idx = off->args[0]; }
  if (idx->kind == K_CONCAT && isC(idx->args[0])) { int tz = 0; while (tz < idx->args[0]->w && tz < 12 && !((idx->args[0]->c >> tz) & 1)) tz++; if (tz) { scale <<= tz; idx = mkLShrC(idx, tz); } }
  if (add >= scale && (idx->kind == K_CONCAT || idx->kind == K_XOR)) { u64 k = add / scale; if (!(possibleBits(idx) & k)) { idx = mkOr(idx, mkConst(k, idx->w)); add %= scale; } } // constant bits of the index
  u64 cnt = add + need > o->size ? 0 : (o->size - need - add) / scale + 1;
  u64 avail = cnt; if (idx->w <= 64 && idx->umax + 1 < cnt) cnt = idx->umax + 1;
  if (!cnt) return false;
  int nb = 1; while ((1ull << nb) < cnt) nb++;
  if ((1ull << nb) <= avail) cnt = 1ull << nb; // whole power of two, so that linear tables stay linear
  Expr* ti = mkExtract(idx, 0, nb); u64 full = 1ull << nb;
  for (auto& l : lv) {
    vector<u64> tv; for (u64 i = 0; i < cnt; i++) { for (int k = 0; k < (l.w + 7) / 8; k++) if (bst(o, add + i * scale + l.off + k) != 1) return false; V v = loadBytes(s, o, add + i * scale + l.off, l.w); if (v.e) return false; tv.push_back(v.c); }
    while (tv.size() < full) tv.push_back(tv.back());
    out.push_back(R(mkTable(ti, internTable(tv, l.w))));
  }
  return true;
}

// ---------------------------------------------------------------- builtins
enum { BI_NONE = 0, BI_MEMCPY, BI_MEMMOVE, BI_MEMSET, BI_CTLZ, BI_CTTZ, BI_CTPOP, BI_BSWAP, BI_BITREV, BI_FSHL, BI_FSHR, BI_UMIN, BI_UMAX, BI_SMIN, BI_SMAX, BI_ABS,
  BI_UADDO, BI_USUBO, BI_UMULO, BI_SADDO, BI_SSUBO, BI_SMULO, BI_UADDS, BI_USUBS, BI_SADDS, BI_SSUBS, BI_EXPECT, BI_ISCONST, BI_OBJSIZE, BI_TRAP, BI_TLS, BI_PTRMASK, BI_UCMP, BI_SCMP, BI_STACKSAVE, BI_STACKREST,
  BI_ALLOC, BI_ALLOCZ, BI_DEALLOC, BI_REALLOC, BI_NOOP, BI_BCMP, BI_MEMCMP, BI_STRLEN, BI_ABORT, BI_MALLOC, BI_CALLOC, BI_FREE,
  BI_S_U8, BI_S_U16, BI_S_U32, BI_S_U64, BI_S_BITS, BI_S_CHOOSE, BI_S_ASSUME, BI_S_ASSERT, BI_S_OBSERVE, BI_S_REACH, BI_S_EXPECT_PANIC, BI_S_ALLOC_LIMIT, BI_S_TIER, BI_S_END, BI_S_LIVE, BI_S_CONC, BI_S_TAINT, BI_S_FILL, BI_ZERO };
static int lookupBuiltin0(const string& n) {
  auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; }; auto suf = [&](const char* p) { size_t l = strlen(p); return n.size() >= l && n.compare(n.size() - l, l, p) == 0; };
  static const std::map<string, int> ex = {{"bcmp", BI_BCMP}, {"memcmp", BI_MEMCMP}, {"strlen", BI_STRLEN}, {"abort", BI_ABORT}, {"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"free", BI_FREE}, {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMMOVE}, {"memset", BI_MEMSET},
    {"sym_u8", BI_S_U8}, {"sym_u16", BI_S_U16}, {"sym_u32", BI_S_U32}, {"sym_u64", BI_S_U64}, {"sym_bits", BI_S_BITS}, {"sym_choose", BI_S_CHOOSE}, {"sym_assume", BI_S_ASSUME}, {"sym_assert", BI_S_ASSERT}, {"sym_observe", BI_S_OBSERVE}, {"sym_reach", BI_S_REACH}, {"sym_expect_panic", BI_S_EXPECT_PANIC}, {"sym_alloc_limit", BI_S_ALLOC_LIMIT}, {"sym_tier", BI_S_TIER}, {"sym_end", BI_S_END}, {"sym_live", BI_S_LIVE}, {"sym_conc", BI_S_CONC}, {"sym_is_init", BI_S_TAINT}, {"sym_fill", BI_S_FILL}, {"__cxa_thread_atexit_impl", BI_ZERO}, {"__cxa_atexit", BI_ZERO}, {"sched_yield", BI_ZERO}};
  auto it = ex.find(n); if (it != ex.end()) return it->second;
  if (suf("12___rust_alloc")) return BI_ALLOC; if (suf("19___rust_alloc_zeroed")) return BI_ALLOCZ; if (suf("14___rust_dealloc")) return BI_DEALLOC; if (suf("14___rust_realloc")) return BI_REALLOC; if (suf("___rust_no_alloc_shim_is_unstable_v2") || suf("___rust_no_alloc_shim_is_unstable")) return BI_NOOP;
  if (!pre("llvm.")) return BI_NONE;
  static const pair<const char*, int> ll[] = {{"llvm.memcpy", BI_MEMCPY}, {"llvm.memmove", BI_MEMMOVE}, {"llvm.memset", BI_MEMSET}, {"llvm.ctlz", BI_CTLZ}, {"llvm.cttz", BI_CTTZ}, {"llvm.ctpop", BI_CTPOP}, {"llvm.bswap", BI_BSWAP}, {"llvm.bitreverse", BI_BITREV}, {"llvm.fshl", BI_FSHL}, {"llvm.fshr", BI_FSHR}, {"llvm.umin", BI_UMIN}, {"llvm.umax", BI_UMAX}, {"llvm.smin", BI_SMIN}, {"llvm.smax", BI_SMAX}, {"llvm.abs", BI_ABS},
    {"llvm.uadd.with", BI_UADDO}, {"llvm.usub.with", BI_USUBO}, {"llvm.umul.with", BI_UMULO}, {"llvm.sadd.with", BI_SADDO}, {"llvm.ssub.with", BI_SSUBO}, {"llvm.smul.with", BI_SMULO}, {"llvm.uadd.sat", BI_UADDS}, {"llvm.usub.sat", BI_USUBS}, {"llvm.sadd.sat", BI_SADDS}, {"llvm.ssub.sat", BI_SSUBS}, {"llvm.expect", BI_EXPECT}, {"llvm.is.constant", BI_ISCONST}, {"llvm.objectsize", BI_OBJSIZE}, {"llvm.trap", BI_TRAP}, {"llvm.threadlocal", BI_TLS}, {"llvm.ptrmask", BI_PTRMASK}, {"llvm.ucmp", BI_UCMP}, {"llvm.scmp", BI_SCMP}, {"llvm.stacksave", BI_STACKSAVE}, {"llvm.stackrestore", BI_STACKREST}};
  for (auto& p : ll) if (pre(p.first)) return p.second;
  return BI_NONE;
}
int lookupBuiltin(const string& n) { return lookupBuiltin0(n); }

static Expr* condOf(State*, Expr* e) { return e; }
static void assertHolds(State* s, Expr* c, const string& msg) {
  st.asserts++;
  if (isTrue(c)) { st.assertRw++; return; }
  if (c->undef) undefUse(s, ("assertion " + msg).c_str());
  Expr* n = mkNot(c); u64 q0 = st.queries + st.cacheHits; Model nm; int f = feasible(s, n, nm);
  if (f == 0) { if (st.queries + st.cacheHits != q0) st.assertSat++; else st.assertDom++; return; }
  if (f < 0) { inconclusive(s, "solver gave no answer on assertion: " + msg); throw PathEnd{}; }
  setModel(s, std::move(nm)); violation(s, msg, "assert");
}
static u64 heapAlloc(State* s, const V& szv, u64 align, bool zero) {
  Expr* symSize = nullptr; u64 cap;
  Expr* szE = X(szv, 64);
  if (szv.e) {
    if (szv.e->undef) undefUse(s, "allocation size");
    Expr* e = szv.e; symSize = e; cap = e->umax;
    // find the largest feasible size by bisection over the path condition
    u64 lo = (u64)evalExpr(e, s->model, s->stamp), hi = cap;
    while (lo < hi) { u64 mid = lo + (hi - lo) / 2; Model nm; int f = feasible(s, mkUlt(mkConst(mid, 64), e), nm); if (f < 0) unsup("allocation size undecided"); if (f == 1) lo = (u64)evalExpr(e, nm, freshStamp()); else hi = mid; }
    cap = lo;
  } else cap = szv.c;
  Expr* live = mkAdd(s->live ? s->live : mkConst(0, 64), szE);
  if (s->allocLimit) {
    Expr* bad = mkUlt(s->allocLimit, live); st.asserts++;
    Model nm; int f = feasible(s, bad, nm); if (f == 1) { setModel(s, std::move(nm)); violation(s, "live heap memory exceeds the limit", "alloc"); } if (f < 0) inconclusive(s, "solver gave no answer on an allocation limit");
  }
  s->live = live;
  if (cap > 0xf0000000ull) unsup("allocation larger than the engine's address model");
  u64 id = HEAP0 + s->heap.v.size(); Obj* o = newObj(id << 32, cap, align, zero); o->symSize = symSize; o->heap = true; s->heap.v.push_back(o);
  return id << 32;
}
static void heapFree(State* s, u64 p, const V& sz, u64 align) {
  u64 id = p >> 32; if (id < HEAP0 || id >= STACK0 || id - HEAP0 >= s->heap.v.size() || (p & 0xffffffffull) || !s->heap.v[id - HEAP0]) violation(s, "deallocation of an invalid pointer", "memory");
  Obj*& o = s->heap.v[id - HEAP0];
  Expr* osz = o->symSize ? o->symSize : mkConst(o->size, 64);
  if (align) { Expr* same = mkEq(osz, X(sz, 64)); if (!isTrue(same)) { Model nm; int f = feasible(s, mkNot(same), nm); if (f == 1) violation(s, "deallocation with a different size", "memory"); if (f < 0) inconclusive(s, "solver gave no answer on dealloc"); } if (o->align != align) violation(s, "deallocation with a different alignment", "memory"); }
  s->live = mkSub(s->live, osz); freeObj(o); o = nullptr;
}
static Expr* symVar(State* s, int w) {
  // variables are shared between paths by (index, width)
  static std::map<pair<int, int>, u32> tab; int k = s->nvars; (void)k;
  static std::map<pair<int, int>, u32> byOrd; int ord = s->inputs.size(); auto it = byOrd.find({ord, w}); u32 id;
  if (it != byOrd.end()) id = it->second; else { id = newVar(w, "i" + std::to_string(ord)); byOrd[{ord, w}] = id; }
  if ((int)id >= s->nvars) { s->nvars = id + 1; s->dom.resize(s->nvars, fullBits(8)); s->multi.resize(s->nvars, 0); }
  if (w <= 8) s->dom[id] = fullBits(w); else s->multi[id] = 1;
  s->multi[id] = w > 8;
  return mkVar(id);
}
static void finishPath(State* s, const char* end) {
  st.paths++;
  static u64 rx = 88172645463325252ull; rx ^= rx << 13; rx ^= rx >> 7; rx ^= rx << 17;
  size_t slot; if (g_samples.size() < (size_t)g_sampleN) { slot = g_samples.size(); g_samples.push_back(""); } else { slot = rx % st.paths; if (slot >= (size_t)g_sampleN) return; }
  // diversify the free inputs
  Model m = s->model; u64 x = g_seed * 0x2545F4914F6CDD1Dull + st.paths * 77 + getpid() * 0; auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }; for (int i = 0; i < 8; i++) rnd();
  m.resize(s->nvars, 0);
  std::vector<char> inCons(s->nvars, 0); for (Expr* e : s->cons) if (e->sv == -2) for (u32 v : varsOf(e)) inCons[v] = 1; else if (e->sv >= 0 && !smallVar(e->sv)) inCons[e->sv] = 1;
  for (int v = 0; v < s->nvars; v++) if (!inCons[v]) { if (g_vars[v].w <= 8) { unsigned k = rnd() & 255; Bits d = s->dom[v]; if (d.empty()) continue; while (!d.has(k & 255)) k++; m[v] = k & 255 & (u64)maskw(g_vars[v].w); } else m[v] = rnd() & (u64)maskw(g_vars[v].w); }
  u64 stp = freshStamp(); bool ok = true; for (Expr* e : s->cons) if (!evalExpr(e, m, stp)) { ok = false; break; }
  if (!ok) { m = s->model; stp = freshStamp(); }
  string r; char b[40]; bool first = true; for (auto& o : s->obs) { u64 v = o.e ? (u64)evalExpr(o.e, m, stp) : o.c; snprintf(b, 40, "%s\"%llx\"", first ? "" : ",", (unsigned long long)v); r += b; first = false; }
  g_samples[slot] = string("{\"t\":\"path\",\"end\":\"") + end + "\",\"inputs\":" + inputsJson(s, m) + ",\"obs\":[" + r + "]}";
}

static string readStr(State* s, u64 p, u64 n) { Obj* o = access(s, p, n, false, "read"); return string((char*)o->data + (p & 0xffffffffull), n); }

static void retTo(State* s, const vector<V>& vals) { // return from current frame
  Frame fr = s->frames.back(); s->frames.pop_back();
  while (s->stack.v.size() > fr.stackBase) { freeObj(s->stack.v.back()); s->stack.v.pop_back(); }
  s->regs.resize(fr.base);
  if (s->frames.empty()) { finishPath(s, "ret"); throw PathEnd{}; }
  Frame& c = s->frames.back();
  for (size_t i = 0; i < vals.size(); i++) s->regs[c.base + fr.ret + i] = vals[i];
}
static void enter(State* s, Func* f, const V* args, size_t nargs, int ret) {
  if (!f->decoded) { try { decodeFunc(f); } catch (...) { unsup("cannot decode " + f->name); } }
  if (s->frames.size() > 20000) violation(s, "no end to the recursion", "hang");
  Frame fr; fr.f = f; fr.pc = 0; fr.base = s->regs.size(); fr.ret = ret; fr.stackBase = s->stack.v.size();
  vector<V> a(args, args + nargs);
  s->regs.resize(fr.base + f->nslots, V{nullptr, 0});
  size_t k = 0; for (size_t i = 0; i < f->paramSlot.size(); i++) for (int j = 0; j < f->paramSlots[i] && k < nargs; j++) s->regs[fr.base + f->paramSlot[i] + j] = a[k++];
  s->frames.push_back(fr); f->calls++; if (!f->blockHit.empty()) f->blockHit[0] = 1;
}
static void jump(State* s, Frame& fr, const Edge& e) {
  if (!e.moves.empty()) {
    V tmp[64]; size_t n = e.moves.size(); vector<V> big; V* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { const Opnd& o = e.moves[i].src; t[i] = o.slot >= 0 ? s->regs[fr.base + o.slot] : o.v; }
    for (size_t i = 0; i < n; i++) s->regs[fr.base + e.moves[i].dst] = t[i];
  }
  fr.pc = fr.f->blockStart[e.block]; fr.f->blockHit[e.block] = 1;
}
static Expr* binE(State* s, int op, Expr* a, Expr* b) {
  switch (op) {
    case B_ADD: return mkAdd(a, b); case B_SUB: return mkSub(a, b); case B_MUL: return mkMul(a, b);
    case B_UDIV: return mkUDiv(a, b); case B_SDIV: return mkSDiv(a, b); case B_UREM: return mkURem(a, b); case B_SREM: return mkSRem(a, b);
    case B_AND: return mkAnd(a, b); case B_OR: return mkOr(a, b); case B_XOR: return mkXor(a, b);
    case B_SHL: return mkShl(a, b); case B_LSHR: return mkLShr(a, b); case B_ASHR: return mkAShr(a, b);
  }
  abort();
}
static Expr* cmpE(int p, Expr* a, Expr* b) {
  switch (p) {
    case P_EQ: return mkEq(a, b); case P_NE: return mkNot(mkEq(a, b)); case P_ULT: return mkUlt(a, b); case P_ULE: return mkNot(mkUlt(b, a)); case P_UGT: return mkUlt(b, a); case P_UGE: return mkNot(mkUlt(a, b));
    case P_SLT: return mkSlt(a, b); case P_SLE: return mkNot(mkSlt(b, a)); case P_SGT: return mkSlt(b, a); case P_SGE: return mkNot(mkSlt(a, b));
  }
  abort();
}
static bool cmpC(int p, u64 a, u64 b, int w) {
  i64 x = (i64)(a << (64 - w)) >> (64 - w), y = (i64)(b << (64 - w)) >> (64 - w);
  switch (p) { case P_EQ: return a == b; case P_NE: return a != b; case P_ULT: return a < b; case P_ULE: return a <= b; case P_UGT: return a > b; case P_UGE: return a >= b; case P_SLT: return x < y; case P_SLE: return x <= y; case P_SGT: return x > y; case P_SGE: return x >= y; }
  return false;
}

// returns true when the pc has been handled
static bool callBuiltin(State* s, Inst& in) {
  Frame& fr = s->frames.back(); u32 base = fr.base;
  auto A = [&](int i) -> V { const Opnd& o = in.o[i]; return o.slot >= 0 ? s->regs[s->frames.back().base + o.slot] : o.v; };
  auto set = [&](V v, int k = 0) { if (in.dst >= 0) s->regs[base + in.dst + k] = v; };
  auto W = [&](int i) { return in.o[i].w; };
  switch (in.builtin) {
    case BI_NOOP: case BI_STACKREST: break;
    case BI_STACKSAVE: set(mkV(0)); break;
    case BI_MEMCPY: case BI_MEMMOVE: {
      u64 n = conc(s, in.o[2]); if (n == 0) break; u64 d = conc(s, in.o[0]), sr = conc(s, in.o[1]);
      access(s, sr, n, false, "copy"); Obj* dd = access(s, d, n, true, "copy"); Obj* so = findObj(s, sr, false);
      u64 doff = d & 0xffffffffull, soff = sr & 0xffffffffull;
      if (in.builtin == BI_MEMCPY && dd == so && doff < soff + n && soff < doff + n && doff != soff) violation(s, "overlapping memcpy", "memory");
      copyBytes(dd, doff, so, soff, n); if (in.callee && in.callee->name[0] == 'm') set(mkV(d)); break; }
    case BI_MEMSET: { u64 n = conc(s, in.o[2]); if (n == 0) break; u64 d = conc(s, in.o[0]); V v = A(1); Obj* o = access(s, d, n, true, "fill"); u64 off = d & 0xffffffffull; if (v.e && v.e->w > 8) v = R(mkExtract(v.e, 0, 8));
      for (u64 i = 0; i < n; i++) storeBytes(o, off + i, v, 8); if (in.callee && in.callee->name[0] == 'm') set(mkV(d)); break; }
    case BI_CTLZ: case BI_CTTZ: {
      V v = A(0); int w = W(0); bool lz = in.builtin == BI_CTLZ;
      if (!v.e) { int r = w; for (int i = 0; i < w; i++) { int bit = lz ? w - 1 - i : i; if ((v.c >> bit) & 1) { r = i; break; } } set(mkV(r)); break; }
      // one path per count
      Expr* e = v.e; if (e->undef) undefUse(s, "ctlz");
      u64 mv = (u64)evalExpr(e, s->model, s->stamp); int r = w; for (int i = 0; i < w; i++) { int bit = lz ? w - 1 - i : i; if ((mv >> bit) & 1) { r = i; break; } }
      Expr* is; if (r == w) is = mkEq(e, mkConst(0, w)); else if (lz) is = mkEq(mkExtract(e, w - 1 - r, r + 1), mkConst(1, r + 1)); else is = mkEq(mkExtract(e, 0, r + 1), mkConst((u128)1 << r, r + 1));
      branch(s, is); set(mkV(r)); break; }
    case BI_CTPOP: { V v = A(0); int w = W(0); if (!v.e) { set(mkV(__builtin_popcountll(v.c))); break; } Expr* r = mkConst(0, w); for (int i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(v.e, i, 1), w)); set(R(r)); break; }
    case BI_BSWAP: { V v = A(0); int w = W(0); Expr* e = X(v, w); vector<Expr*> ps; for (int i = w / 8 - 1; i >= 0; i--) ps.push_back(mkExtract(e, i * 8, 8)); set(R(mkConcat(ps))); break; }
    case BI_BITREV: { int w = W(0); Expr* e = X(A(0), w); vector<Expr*> ps; for (int i = w - 1; i >= 0; i--) ps.push_back(mkExtract(e, i, 1)); set(R(mkConcat(ps))); break; }
    case BI_FSHL: case BI_FSHR: { int w = W(0); u64 k = conc(s, in.o[2]) % w; Expr *a = X(A(0), w), *b = X(A(1), w); if (in.builtin == BI_FSHR) k = k ? w - k : 0; else if (k == 0) { set(R(a)); break; }
      if (k == 0) { set(R(in.builtin == BI_FSHR ? b : a)); break; } set(R(mkConcat({mkExtract(b, w - k, k), mkExtract(a, 0, w - k)}))); break; }
    case BI_UMIN: case BI_UMAX: case BI_SMIN: case BI_SMAX: { int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); bool sg = in.builtin >= BI_SMIN, mx = in.builtin == BI_UMAX || in.builtin == BI_SMAX; Expr* lt = sg ? mkSlt(a, b) : mkUlt(a, b); set(R(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); break; }
    case BI_ABS: { int w = W(0); Expr* a = X(A(0), w); set(R(mkIte(mkExtract(a, w - 1, 1), mkSub(mkConst(0, w), a), a))); break; }
    case BI_UADDO: case BI_USUBO: case BI_UMULO: case BI_SADDO: case BI_SSUBO: case BI_SMULO: {
      int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); int k = in.builtin; bool sg = k >= BI_SADDO; int m = k - (sg ? BI_SADDO : BI_UADDO);
      Expr* r = m == 0 ? mkAdd(a, b) : m == 1 ? mkSub(a, b) : mkMul(a, b); set(R(r)); Expr* ov = nullptr;
      if (w <= 64) { // decide from intervals when possible
        if (sg) { i128 lo, hi; if (m == 0) { lo = (i128)a->smin + b->smin; hi = (i128)a->smax + b->smax; } else if (m == 1) { lo = (i128)a->smin - b->smax; hi = (i128)a->smax - b->smin; } else { i128 c[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax}; lo = hi = c[0]; for (int q = 1; q < 4; q++) { lo = std::min(lo, c[q]); hi = std::max(hi, c[q]); } }
          if (lo >= sxt((u128)1 << (w - 1), w) && hi <= (i128)(maskw(w) >> 1)) ov = mkConst(0, 1); }
        else { i128 lo, hi; if (m == 0) { hi = (i128)a->umax + b->umax; lo = 0; } else if (m == 1) { lo = (i128)a->umin - b->umax; hi = 0; } else { lo = 0; u128 h = (u128)a->umax * b->umax; hi = h >> 64 ? (i128)maskw(100) : (i128)h; } if (lo >= 0 && hi <= (i128)maskw(w)) ov = mkConst(0, 1); }
      }
      if (w > 64) { i128 a1, a2, b1, b2; const i128 H = (i128)1 << 63; if (sbounds(a, a1, a2) && sbounds(b, b1, b2) && w > 115) { if (m != 2) { if (sg || (m == 0 && a1 >= 0 && b1 >= 0)) ov = mkConst(0, 1); } else if (a1 >= -H && a2 < H && b1 >= -H && b2 < H && (sg || (a1 >= 0 && b1 >= 0))) ov = mkConst(0, 1); } }
      if (!ov && sg && m != 2) { Expr *x = mkExtract(a, w - 1, 1), *y = mkExtract(b, w - 1, 1), *z = mkExtract(r, w - 1, 1); if (w > 64) ov = mkAnd(m == 0 ? mkEq(x, y) : mkNot(mkEq(x, y)), mkNot(mkEq(x, z))); }
      if (!ov) {
        if (!sg && m == 0) ov = mkUlt(r, a);
        else if (!sg && m == 1) ov = mkUlt(a, b);
        else { int ww = m == 2 ? 2 * w : w + 1; if (ww > 128) unsup("wide overflow check"); Expr *xa = sg ? mkSExt(a, ww) : mkZExt(a, ww), *xb = sg ? mkSExt(b, ww) : mkZExt(b, ww); Expr* x = m == 0 ? mkAdd(xa, xb) : m == 1 ? mkSub(xa, xb) : mkMul(xa, xb); Expr* back = mkExtract(x, 0, w); ov = mkNot(mkEq(x, sg ? mkSExt(back, ww) : mkZExt(back, ww))); }
      }
      set(R(ov), 1); break; }
    case BI_UADDS: { int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); Expr* r = mkAdd(a, b); set(R(mkIte(mkUlt(r, a), mkConst(maskw(w), w), r))); break; }
    case BI_USUBS: { int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); set(R(mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b)))); break; }
    case BI_SADDS: case BI_SSUBS: { int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); Expr* x = in.builtin == BI_SADDS ? mkAdd(mkSExt(a, w + 1), mkSExt(b, w + 1)) : mkSub(mkSExt(a, w + 1), mkSExt(b, w + 1)); Expr* lo = mkConst((u128)1 << (w - 1), w); Expr* hi = mkConst(maskw(w - 1), w);
      Expr* r = mkExtract(x, 0, w); r = mkIte(mkSlt(mkSExt(hi, w + 1), x), hi, r); r = mkIte(mkSlt(x, mkSExt(lo, w + 1)), lo, r); set(R(r)); break; }
    case BI_EXPECT: set(A(0)); break;
    case BI_ISCONST: set(mkV(0)); break;
    case BI_OBJSIZE: set(mkV(~0ull)); break;
    case BI_TRAP: case BI_ABORT: violation(s, "abort", "abort"); break;
    case BI_ZERO: set(mkV(0)); break;
    case BI_TLS: set(A(0)); break;
    case BI_PTRMASK: set(R(mkAnd(X(A(0), 64), X(A(1), 64)))); break;
    case BI_UCMP: case BI_SCMP: { int w = W(0); Expr *a = X(A(0), w), *b = X(A(1), w); bool sg = in.builtin == BI_SCMP; int rw = 8; // result width from the callee name suffix
      const string& n = in.callee->name; size_t d = n.find(".i"); if (d != string::npos) rw = atoi(n.c_str() + d + 2);
      Expr *lt = sg ? mkSlt(a, b) : mkUlt(a, b), *gt = sg ? mkSlt(b, a) : mkUlt(b, a); set(R(mkIte(lt, mkConst(maskw(rw), rw), mkIte(gt, mkConst(1, rw), mkConst(0, rw))))); break; }
    case BI_ALLOC: case BI_ALLOCZ: { u64 al = conc(s, in.o[1]); set(mkV(heapAlloc(s, A(0), al, in.builtin == BI_ALLOCZ))); break; }
    case BI_MALLOC: set(mkV(heapAlloc(s, A(0), 16, false))); break;
    case BI_CALLOC: set(mkV(heapAlloc(s, R(mkMul(X(A(0), 64), X(A(1), 64))), 16, true))); break;
    case BI_FREE: { u64 p = conc(s, in.o[0]); if (p) heapFree(s, p, mkV(0), 0); break; }
    case BI_DEALLOC: { u64 p = conc(s, in.o[0]); u64 al = conc(s, in.o[2]); heapFree(s, p, A(1), al); break; }
    case BI_REALLOC: { u64 p = conc(s, in.o[0]); u64 al = conc(s, in.o[2]); V osz = A(1), nsz = A(3);
      u64 q = heapAlloc(s, nsz, al, false); Obj* o = findObj(s, p, false); Obj* n = findObj(s, q, true); if (!o) violation(s, "realloc of an invalid pointer", "memory");
      u64 k = std::min(o->hi, n->size); copyBytes(n, 0, o, 0, k); heapFree(s, p, osz, al); set(mkV(q)); break; }
    case BI_BCMP: case BI_MEMCMP: { u64 n = conc(s, in.o[2]); if (n == 0) { set(mkV(0)); break; } u64 a = conc(s, in.o[0]), b = conc(s, in.o[1]); Obj *oa = access(s, a, n, false, "compare"), *ob = access(s, b, n, false, "compare"); u64 ao = a & 0xffffffffull, bo = b & 0xffffffffull;
      Expr* r = mkConst(0, 32);
      if (in.builtin == BI_BCMP) { Expr* eq = mkConst(1, 1); for (u64 i = 0; i < n; i++) eq = mkAnd(eq, mkEq(X(loadBytes(s, oa, ao + i, 8), 8), X(loadBytes(s, ob, bo + i, 8), 8))); r = mkIte(eq, mkConst(0, 32), mkConst(1, 32)); }
      else for (u64 i = n; i-- > 0;) { Expr *x = X(loadBytes(s, oa, ao + i, 8), 8), *y = X(loadBytes(s, ob, bo + i, 8), 8); r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
      set(R(r)); break; }
    case BI_STRLEN: { u64 p = conc(s, in.o[0]); u64 n = 0; while (true) { Obj* o = access(s, p + n, 1, false, "strlen"); V v = loadBytes(s, o, (p + n) & 0xffffffffull, 8); if (v.e) unsup("symbolic strlen"); if (!v.c) break; n++; } set(mkV(n)); break; }
    case BI_S_U8: case BI_S_U16: case BI_S_U32: case BI_S_U64: { int w = in.builtin == BI_S_U8 ? 8 : in.builtin == BI_S_U16 ? 16 : in.builtin == BI_S_U32 ? 32 : 64; Expr* e;
      if (w <= 8) { e = symVar(s, w); s->inputs.push_back({e, 0, w}); set(R(e)); }
      else { // wider inputs are built from byte variables so that small domains stay decidable
        vector<Expr*> ps; for (int i = 0; i < w / 8; i++) { Expr* b = symVar(s, 8); s->inputs.push_back({b, 0, 8}); ps.push_back(b); } set(R(mkConcat(ps))); }
      break; }
    case BI_S_BITS: { u64 n = conc(s, in.o[0]); if (n == 0) { set(mkV(0)); break; } vector<Expr*> ps; u64 k = n; while (k) { int w = k > 8 ? 8 : (int)k; Expr* b = symVar(s, w); s->inputs.push_back({b, 0, w}); ps.push_back(b); k -= w; } Expr* e = mkConcat(ps); set(R(n < 64 ? mkZExt(e, 64) : e)); break; }
    case BI_S_FILL: { u64 p = conc(s, in.o[0]), n = conc(s, in.o[1]); if (!n) break; Obj* o = access(s, p, n, true, "fill"); u64 off = p & 0xffffffffull; for (u64 i = 0; i < n; i++) { Expr* e = symVar(s, 8); s->inputs.push_back({e, 0, 8}); storeBytes(o, off + i, V{e, 0}, 8); } break; }
    case BI_S_CHOOSE: { u64 n = conc(s, in.o[0]); u64 v; if (s->forced >= 0) { v = s->forced; s->forced = -1; } else { for (u64 k = n; k-- > 1;) { State* c = cloneState(s); c->forced = k; push(c); } v = 0; } s->inputs.push_back({nullptr, v, 32}); set(mkV(v)); break; }
    case BI_S_ASSUME: { V v = A(0); st.assumes++; if (!v.e) { if (!v.c) { st.killed++; throw PathEnd{}; } break; } Expr* c = v.e; if (c->w > 1) c = mkNot(mkEq(c, mkConst(0, c->w))); if (c->undef) undefUse(s, "assume"); Model nm; int f = feasible(s, c, nm); if (f == 0) { st.killed++; throw PathEnd{}; } if (f < 0) { inconclusive(s, "solver gave no answer on an assumption"); throw PathEnd{}; } setModel(s, std::move(nm)); addCons(s, c); break; }
    case BI_S_ASSERT: { V v = A(0); u64 p = conc(s, in.o[1]), n = conc(s, in.o[2]); Expr* c = X(v, in.o[0].w); if (c->w > 1) c = mkNot(mkEq(c, mkConst(0, c->w))); string msg = readStr(s, p, n); if (isFalse(c)) { st.asserts++; violation(s, msg, "assert"); } assertHolds(s, condOf(s, c), msg); break; }
    case BI_S_OBSERVE: { V v = A(0); if (v.e && v.e->undef) undefUse(s, "observed value"); s->obs.push_back(v); break; }
    case BI_S_TAINT: { u64 p = conc(s, in.o[0]), n = conc(s, in.o[1]); if (!n) { set(mkV(1)); break; } Obj* o = access(s, p, n, false, "read"); u64 off = p & 0xffffffffull; bool ok = true; for (u64 i = 0; i < n; i++) { int b = bst(o, off + i); if (b == 0 || (b == 2 && o->cells[off + i].e->undef)) ok = false; } if (!ok) undefUse(s, "exposed buffer"); set(mkV(1)); break; }
    case BI_S_REACH: { u64 p = conc(s, in.o[0]), n = conc(s, in.o[1]); g_reach[readStr(s, p, n)]++; break; }
    case BI_S_EXPECT_PANIC: { u64 v = conc(s, in.o[0]); s->expectPanic = v != 0; break; }
    case BI_S_ALLOC_LIMIT: { Expr* v = X(A(0), 64); if (!s->live) s->live = mkConst(0, 64); s->base = s->live; s->allocLimit = isC(v) && !v->c ? nullptr : mkAdd(v, s->live); break; }
    case BI_S_LIVE: { Expr* l = s->live ? s->live : mkConst(0, 64); if (s->base) l = mkSub(l, s->base); set(R(l)); break; }
    case BI_S_TIER: set(mkV(g_tier)); break;
    case BI_S_CONC: { u64 v = conc(s, in.o[0]); set(mkV(v)); break; }
    case BI_S_END: finishPath(s, "ret"); throw PathEnd{};
    default: unsup("call to " + in.callee->name);
  }
  return false;
}

static void exec(State* s) {
  u64 cnt = 0;
  while (true) {
    if ((++cnt & 0xfff) == 0) { if (sh->stop || (g_deadline && now() > g_deadline)) { sh->stop = 1; work.push_back(s); throw (int)1; } }
    if ((st.steps & 0xfff) == 0 && (s->steps += 4096) > st.maxPath) { st.maxPath = s->steps; if (s->steps > g_stepLimit) violation(s, "no end after " + std::to_string(s->steps / 1000000) + " million steps", "hang"); }
    Frame& fr = s->frames.back(); Inst& in = fr.f->code[fr.pc]; V* r = s->regs.data() + fr.base; st.steps++;
    auto G = [&](const Opnd& o) -> V { return o.slot >= 0 ? r[o.slot] : o.v; };
    switch (in.op) {
      case OP_NOP: break;
      case OP_BIN: {
        V a = G(in.o[0]), b = G(in.o[1]); int w = in.w;
        if (!a.e && !b.e && w <= 64) {
          u64 m = w == 64 ? ~0ull : (1ull << w) - 1, x = a.c, y = b.c, z;
          switch (in.sub) {
            case B_ADD: z = x + y; break; case B_SUB: z = x - y; break; case B_MUL: z = x * y; break; case B_AND: z = x & y; break; case B_OR: z = x | y; break; case B_XOR: z = x ^ y; break;
            case B_SHL: if (y >= (u64)w) { r[in.dst] = V{mkUndef(w), 0}; goto next; } z = x << y; break;
            case B_LSHR: if (y >= (u64)w) { r[in.dst] = V{mkUndef(w), 0}; goto next; } z = x >> y; break;
            case B_ASHR: if (y >= (u64)w) { r[in.dst] = V{mkUndef(w), 0}; goto next; } z = (u64)((i64)(x << (64 - w)) >> (64 - w) >> y); break;
            default: if (y == 0) violation(s, "division by zero", "arith"); z = (u64)foldBin(in.sub == B_UDIV ? K_UDIV : in.sub == B_SDIV ? K_SDIV : in.sub == B_UREM ? K_UREM : K_SREM, x, y, w);
          }
          r[in.dst] = mkV(z & m); break;
        }
        if (in.sub >= B_SHL && in.sub <= B_ASHR) { u64 k = conc(s, in.o[1]); r = s->regs.data() + fr.base; if (k >= (u64)w) { r[in.dst] = V{mkUndef(w), 0}; break; } Expr* x = X(G(in.o[0]), w); r[in.dst] = R(in.sub == B_SHL ? mkShlC(x, k) : in.sub == B_LSHR ? mkLShrC(x, k) : mkAShrC(x, k)); break; }
        Expr *x = X(a, w), *y = X(b, w);
        if (in.sub >= B_UDIV && in.sub <= B_SREM) { Expr* z = mkEq(y, mkConst(0, w)); if (!isFalse(z)) { Model nm; int f = feasible(s, z, nm); if (f == 1) { setModel(s, std::move(nm)); violation(s, "division by zero", "arith"); } if (f < 0) inconclusive(s, "division check undecided"); } }
        r[in.dst] = R(binE(s, in.sub, x, y)); break; }
      case OP_ICMP: { V a = G(in.o[0]), b = G(in.o[1]); if (!a.e && !b.e) r[in.dst] = mkV(cmpC(in.sub, a.c, b.c, in.w)); else r[in.dst] = R(cmpE(in.sub, X(a, in.w), X(b, in.w))); break; }
      case OP_LOAD: {
        V p = G(in.o[0]);
        if (p.e) { vector<V> out; if (tableLoad(s, p.e, in.leaves, out)) { for (size_t i = 0; i < out.size(); i++) r[in.dst + i] = out[i]; break; } }
        u64 a = conc(s, in.o[0]); u64 n = 0; for (auto& l : in.leaves) n = std::max(n, l.off + (l.w + 7) / 8);
        if (!n) break;
        Obj* o = access(s, a, n, false, "load"); u64 off = a & 0xffffffffull; r = s->regs.data() + fr.base;
        for (size_t i = 0; i < in.leaves.size(); i++) r[in.dst + i] = loadBytes(s, o, off + in.leaves[i].off, in.leaves[i].w);
        break; }
      case OP_STORE: {
        u64 n = 0; for (auto& l : in.leaves) n = std::max(n, l.off + (l.w + 7) / 8); if (!n) break;
        u64 a = conc(s, in.o[0]); Obj* o = access(s, a, n, true, "store"); u64 off = a & 0xffffffffull; r = s->regs.data() + fr.base;
        for (size_t i = 0; i < in.leaves.size(); i++) storeBytes(o, off + in.leaves[i].off, G(in.o[1 + i]), in.leaves[i].w);
        break; }
      case OP_GEP: {
        V b = G(in.o[0]); bool sym = b.e; u64 a = b.c + in.goff;
        for (size_t i = 0; i < in.scale.size() && !sym; i++) { V x = G(in.o[1 + i]); if (x.e) sym = true; else { int w = in.o[1 + i].w; i64 ix = (i64)(x.c << (64 - w)) >> (64 - w); a += (u64)(ix * in.scale[i]); } }
        if (!sym) { r[in.dst] = mkV(a); break; }
        Expr* e = mkAdd(X(b, 64), mkConst((u64)in.goff, 64));
        for (size_t i = 0; i < in.scale.size(); i++) { V x = G(in.o[1 + i]); int w = in.o[1 + i].w; Expr* ix = X(x, w); if (w < 64) ix = mkSExt(ix, 64); e = mkAdd(e, mkMul(ix, mkConst((u64)in.scale[i], 64))); }
        r[in.dst] = R(e); break; }
      case OP_BR: jump(s, fr, in.edges[0]); continue;
      case OP_CBR: { V c = G(in.o[0]); bool t = c.e ? branch(s, c.e) : (c.c & 1); jump(s, fr, in.edges[t ? 0 : 1]); continue; }
      case OP_SWITCH: {
        V c = G(in.o[0]); int t = 0;
        if (c.e) { if (c.e->undef) undefUse(s, "switch"); u64 mv = (u64)evalExpr(c.e, s->model, s->stamp); int k = -1; for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == mv) { k = i; break; }
          Expr* is; if (k >= 0) is = mkEq(c.e, mkConst(in.cases[k], in.w)); else { is = mkConst(1, 1); for (auto cv : in.cases) is = mkAnd(is, mkNot(mkEq(c.e, mkConst(cv, in.w)))); }
          if (!isTrue(is)) branch(s, is); t = k + 1; }
        else for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == c.c) { t = i + 1; break; }
        jump(s, fr, in.edges[t]); continue; }
      case OP_RET: { vector<V> vs; for (auto& o : in.o) vs.push_back(G(o)); retTo(s, vs); continue; }
      case OP_SELECT: {
        V c = G(in.o[0]); size_t n = (in.o.size() - 1) / 2;
        if (!c.e) { V tmp[8]; vector<V> big; V* t = tmp; if (n > 8) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = G(in.o[1 + ((c.c & 1) ? 0 : n) + i]); for (size_t i = 0; i < n; i++) r[in.dst + i] = t[i]; break; }
        if (c.e->undef) undefUse(s, "select");
        bool fork = false; for (size_t i = 0; i < n; i++) { V a = G(in.o[1 + i]), b = G(in.o[1 + n + i]); if ((a.e && a.e->undef) || (b.e && b.e->undef)) fork = true; if (in.o[1 + i].w == 64 && !a.e && !b.e && ((a.c >> 32) != (b.c >> 32)) && (a.c >> 32) + (b.c >> 32) >= GLOBAL0) fork = true; }
        if (fork) { bool t = branch(s, c.e); r = s->regs.data() + fr.base; vector<V> v; for (size_t i = 0; i < n; i++) v.push_back(G(in.o[1 + (t ? 0 : n) + i])); for (size_t i = 0; i < n; i++) r[in.dst + i] = v[i]; break; }
        vector<V> v; for (size_t i = 0; i < n; i++) { int w = in.o[1 + i].w; v.push_back(R(mkIte(c.e, X(G(in.o[1 + i]), w), X(G(in.o[1 + n + i]), w)))); }
        for (size_t i = 0; i < n; i++) r[in.dst + i] = v[i]; break; }
      case OP_ZEXT: { V a = G(in.o[0]); if (!a.e && in.w <= 64) r[in.dst] = a; else r[in.dst] = R(mkZExt(X(a, in.o[0].w), in.w)); break; }
      case OP_SEXT: { V a = G(in.o[0]); int w = in.o[0].w; if (!a.e && in.w <= 64) { i64 x = (i64)(a.c << (64 - w)) >> (64 - w); r[in.dst] = mkV(in.w == 64 ? (u64)x : (u64)x & ((1ull << in.w) - 1)); } else r[in.dst] = R(mkSExt(X(a, w), in.w)); break; }
      case OP_TRUNC: { V a = G(in.o[0]); if (!a.e) r[in.dst] = mkV(in.w == 64 ? a.c : a.c & ((1ull << in.w) - 1)); else r[in.dst] = R(mkExtract(a.e, 0, in.w)); break; }
      case OP_MOV: { size_t n = in.o.size(); if (n == 1) { r[in.dst] = G(in.o[0]); break; } vector<V> v; for (auto& o : in.o) v.push_back(G(o)); for (size_t i = 0; i < n; i++) r[in.dst + i] = v[i]; break; }
      case OP_ALLOCA: { u64 id = STACK0 + s->stack.v.size(); Obj* o = newObj(id << 32, in.goff, 16, false); s->stack.v.push_back(o); r[in.dst] = mkV(id << 32); break; }
      case OP_UNREACHABLE: violation(s, "unreachable code executed", "unreachable"); break;
      case OP_RMW: {
        u64 a = conc(s, in.o[0]); Obj* o = access(s, a, (in.w + 7) / 8, true, "atomic"); u64 off = a & 0xffffffffull; r = s->regs.data() + fr.base; V old = loadBytes(s, o, off, in.w); V v = G(in.o[1]); Expr *x = X(old, in.w), *y = X(v, in.w), *z;
        switch (in.sub) { case B_XCHG: z = y; break; case B_UMAX: z = mkIte(mkUlt(x, y), y, x); break; case B_UMIN: z = mkIte(mkUlt(x, y), x, y); break; case B_SMAX: z = mkIte(mkSlt(x, y), y, x); break; case B_SMIN: z = mkIte(mkSlt(x, y), x, y); break; default: z = binE(s, in.sub, x, y); }
        storeBytes(o, off, R(z), in.w); if (in.dst >= 0) r[in.dst] = old; break; }
      case OP_CMPXCHG: { u64 a = conc(s, in.o[0]); Obj* o = access(s, a, (in.w + 7) / 8, true, "atomic"); u64 off = a & 0xffffffffull; r = s->regs.data() + fr.base; V old = loadBytes(s, o, off, in.w); bool eq = branch(s, mkEq(X(old, in.w), X(G(in.o[1]), in.w))); r = s->regs.data() + fr.base; if (eq) storeBytes(access(s, a, (in.w + 7) / 8, true, "atomic"), off, G(in.o[2]), in.w); r[in.dst] = old; r[in.dst + 1] = mkV(eq); break; }
      case OP_CALL: {
        Func* f = in.callee; size_t k = 0;
        if (in.sub == 1) { u64 a = conc(s, in.o[0]); r = s->regs.data() + fr.base; u64 id = a >> 32; if (id < FUNC0 || id >= HEAP0 || id - FUNC0 >= g_funcs.size() || (a & 0xffffffffull)) violation(s, "call through an invalid function pointer", "memory"); f = g_funcs[id - FUNC0]; if (f->builtin == -1) f->builtin = lookupBuiltin(f->name); k = 1; if (f->builtin > 0) unsup("indirect call of builtin " + f->name); }
        else if (in.builtin > 0) { callBuiltin(s, in); break; }
        if (f->isPanic) {
          st.panics++;
          if (f->name.find("nounwind") != string::npos || f->name.find("cannot_unwind") != string::npos) violation(s, "the precondition of an unsafe operation is broken", "memory");
          if (s->expectPanic) { finishPath(s, "panic"); throw PathEnd{}; }
          violation(s, "panic", "panic");
        }
        if (!f->defined) unsup("call to external function " + f->name);
        vector<V> args; for (size_t i = k; i < in.o.size(); i++) args.push_back(G(in.o[i]));
        int dst = in.dst; fr.pc++; enter(s, f, args.data(), args.size(), dst < 0 ? 0 : dst); continue; }
      case OP_UNSUP: unsup("instruction: " + in.text);
    }
  next:
    s->frames.back().pc++;
    if (!work.empty() && (cnt & 0x3f) == 0 && sh->active.load(std::memory_order_relaxed) < g_jobs && maybeShare(1)) throw PathEnd{};
  }
}

static void flushStats() {
  string reach; for (auto& p : g_reach) { if (!reach.empty()) reach += ","; reach += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
  string fn; for (Func* f : g_funcs) if (f->calls) { u64 hit = 0; string bm; for (size_t i = 0; i < f->blockHit.size(); i++) { hit += f->blockHit[i]; bm += f->blockHit[i] ? '1' : '0'; } if (!fn.empty()) fn += ","; fn += "{\"f\":\"" + jesc(f->name) + "\",\"ours\":" + (f->ours ? "1" : "0") + ",\"calls\":" + std::to_string(f->calls) + ",\"blocks\":\"" + (f->ours ? bm : "") + "\"}"; }
  std::map<string, std::set<int>> lines; std::set<string> fns;
  { std::unordered_set<u32> seen; vector<SrcPos> ch; for (Func* f : g_funcs) if (f->calls && f->decoded) for (size_t b = 0; b < f->blockHit.size(); b++) if (f->blockHit[b]) { size_t lo = f->blockStart[b], hi = b + 1 < f->blockStart.size() ? f->blockStart[b + 1] : f->code.size(); for (size_t k = lo; k < hi; k++) { u32 id = f->code[k].dbg; if (!id || !seen.insert(id).second) continue; ch.clear(); dbgChain(id, ch); for (auto& p : ch) if (p.file->compare(0, g_src.size(), g_src) == 0) { if (p.line) lines[p.file->substr(g_src.size())].insert(p.line); fns.insert(*p.fn); } } } }
  string lj, fj; for (auto& p : lines) { if (!lj.empty()) lj += ","; lj += "\"" + jesc(p.first) + "\":["; bool first = true; for (int x : p.second) { if (!first) lj += ","; first = false; lj += std::to_string(x); } lj += "]"; } for (auto& x : fns) { if (!fj.empty()) fj += ","; fj += "\"" + jesc(x) + "\""; }
  fprintf(g_out, "{\"t\":\"cov\",\"lines\":{%s},\"fns\":[%s]}\n", lj.c_str(), fj.c_str());
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(g_out, "{\"t\":\"stats\",\"paths\":%llu,\"steps\":%llu,\"maxPath\":%llu,\"symBranches\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assertRw\":%llu,\"assertDom\":%llu,\"assertSat\":%llu,\"queries\":%llu,\"qSat\":%llu,\"qUnsat\":%llu,\"qUnknown\":%llu,\"cacheHits\":%llu,\"domHits\":%llu,\"modelHits\":%llu,\"assumes\":%llu,\"killed\":%llu,\"panics\":%llu,\"guessed\":%llu,\"qGf2\":%llu,\"solver\":%.3f,\"maxQ\":%.3f,\"rwChecked\":%llu,\"rwBad\":%llu,\"nodes\":%llu,\"rss\":%ld,\"reach\":{%s},\"funcs\":[%s]}\n",
    (unsigned long long)st.paths, (unsigned long long)st.steps, (unsigned long long)st.maxPath, (unsigned long long)st.symBranches, (unsigned long long)st.forks, (unsigned long long)st.asserts, (unsigned long long)st.assertRw, (unsigned long long)st.assertDom, (unsigned long long)st.assertSat, (unsigned long long)st.queries, (unsigned long long)st.qSat, (unsigned long long)st.qUnsat, (unsigned long long)st.qUnknown, (unsigned long long)st.cacheHits, (unsigned long long)st.domHits, (unsigned long long)st.modelHits, (unsigned long long)st.assumes, (unsigned long long)st.killed, (unsigned long long)st.panics, (unsigned long long)st.guessed, (unsigned long long)st.qGf2, st.solver, st.maxQ, (unsigned long long)st.rwChecked, (unsigned long long)st.rwBad, (unsigned long long)g_nodes, ru.ru_maxrss, reach.c_str(), fn.c_str());
  for (auto& x : g_samples) fprintf(g_out, "%s\n", x.c_str());
  fclose(g_out);
}

// confirm sampled rewrites with the solver
static void checkRewrites(double budget) {
  double t0 = now(); g_rwEvery = 0; size_t n = g_rw.size(); size_t stepk = n > 400 ? n / 400 : 1;
  Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 300000); Z3_solver_set_params(Z, s, p);
  for (size_t i = 0; i < n && now() - t0 < budget; i += stepk) {
    RwRec& q = g_rw[i]; Z3_ast l = nullptr; int w = q.a->w; if (q.r->undef || q.a->undef) continue;
    Z3_ast a = toBV(q.a), b = q.b ? toBV(q.b) : nullptr, r = toBV(q.r); (void)w;
    auto B2 = [&](Z3_ast c) { return Z3_mk_ite(Z, c, zconst(1, 1), zconst(0, 1)); };
    switch (q.k) {
      case K_LIN: l = Z3_mk_bvadd(Z, a, b); break; case K_MUL: l = Z3_mk_bvmul(Z, a, b); break; case K_AND: l = Z3_mk_bvand(Z, a, b); break; case K_OR: l = Z3_mk_bvor(Z, a, b); break; case K_XOR: l = Z3_mk_bvxor(Z, a, b); break;
      case K_SHL: l = Z3_mk_bvshl(Z, a, b); break; case K_LSHR: l = Z3_mk_bvlshr(Z, a, b); break; case K_ASHR: l = Z3_mk_bvashr(Z, a, b); break;
      case K_EQ: l = B2(Z3_mk_eq(Z, a, b)); break; case K_ULT: l = B2(Z3_mk_bvult(Z, a, b)); break; case K_SLT: l = B2(Z3_mk_bvslt(Z, a, b)); break;
      case K_ITE: l = Z3_mk_ite(Z, Z3_mk_eq(Z, a, zconst(1, 1)), b, toBV(q.c)); break;
      default: continue;
    }
    Z3_solver_push(Z, s); Z3_solver_assert(Z, s, Z3_mk_not(Z, Z3_mk_eq(Z, l, r))); Z3_lbool res = Z3_solver_check(Z, s);
    if (res == Z3_L_TRUE) { st.rwBad++; fprintf(stderr, "REWRITE UNSOUND kind %d: %s , %s -> %s\n", q.k, show(q.a).c_str(), q.b ? show(q.b).c_str() : "", show(q.r).c_str()); }
    else if (res == Z3_L_FALSE) st.rwChecked++;
    Z3_solver_pop(Z, s, 1);
  }
}

int main(int argc, char** argv) {
  string ll; double maxT = 0, rwBudget = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--ll") ll = nx(); else if (a == "--harness") g_harness = nx(); else if (a == "--out") g_outDir = nx(); else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--tier") g_tier = atoi(nx().c_str());
    else if (a == "--time") maxT = atof(nx().c_str()); else if (a == "--samples") g_sampleN = atoi(nx().c_str()); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "-v") g_verbose++;
    else if (a == "--rlimit") g_rlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit2") g_rlimit2 = strtoull(nx().c_str(), 0, 10); else if (a == "--rw") { g_rwEvery = atoi(nx().c_str()); } else if (a == "--rwbudget") rwBudget = atof(nx().c_str()); else if (a == "--dump") g_dumpDir = nx(); else if (a == "--maxviol") g_maxViol = atoi(nx().c_str());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYM_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ull << 30) ? (1ull << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  if (g_tier) g_stepLimit *= 10; if (!g_rlimit) g_rlimit = 3000000; if (!g_rlimit2) g_rlimit2 = g_tier ? 400000000 : 60000000;
  double t0 = now(); if (maxT) g_deadline = t0 + maxT;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof(Shared)); sh->active = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  try { loadModule(ll); } catch (...) { fprintf(stderr, "cannot load module\n"); return 3; }
  Func* f = findFunc(g_harness); if (!f || !f->defined) { fprintf(stderr, "no harness %s\n", g_harness.c_str()); return 3; }
  initZ3();
  sh->nworkers = 1; pid_t root = getpid(); g_out = fopen((g_outDir + "/" + g_harness + ".w0.jsonl").c_str(), "w"); if (!g_out) { perror("out"); return 3; }
  State* s0 = new State; s0->stamp = freshStamp(); s0->live = mkConst(0, 64);
  try { enter(s0, f, nullptr, 0, 0); } catch (Inconclusive& e) { fprintf(stderr, "%s\n", e.why.c_str()); return 3; }
  work.push_back(s0); bool stopped = false;
  while (!work.empty()) {
    maybeShare(2);
    State* s = work.back(); work.pop_back();
    try { exec(s); }
    catch (PathEnd&) { delete s; }
    catch (Inconclusive& e) { inconclusive(s, e.why); delete s; }
    catch (int) { stopped = true; break; }
    if (sh->stop || (g_deadline && now() > g_deadline)) { if (!work.empty()) { stopped = true; break; } }
  }
  if (stopped && !work.empty() && sh->viol < g_maxViol) inconclusive(nullptr, "time budget exhausted with " + std::to_string(work.size()) + " pending states");
  if (getpid() == root && rwBudget > 0) checkRewrites(rwBudget);
  flushStats(); sh->active--;
  if (getpid() != root) _exit(0);
  int bad = 0; while (true) { int stt; pid_t p = wait(&stt); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad++; sh->stop = 1; } }
  FILE* o = fopen((g_outDir + "/" + g_harness + ".root.json").c_str(), "w");
  fprintf(o, "{\"harness\":\"%s\",\"wall\":%.3f,\"viol\":%d,\"inc\":%d,\"workers\":%d,\"died\":%d}\n", g_harness.c_str(), now() - t0, (int)sh->viol, (int)sh->inc, (int)sh->nworkers, bad); fclose(o);
  return bad ? 5 : 0;
}
