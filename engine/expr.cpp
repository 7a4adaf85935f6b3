#include "expr.h"
#include <map>
#include <unordered_map>
using std::vector;

vector<VarInfo> g_vars;
vector<TableInfo> g_tables;
u64 g_nodes = 0;
vector<RwRec> g_rw; u32 g_rwEvery = 0;
static u32 rwCount = 0; static int rwDepth = 0;
struct RwGuard {
  bool on;
  RwGuard() { on = (rwDepth++ == 0) && g_rwEvery; }
  ~RwGuard() { rwDepth--; }
  Expr* done(Kind k, Expr* a, Expr* b, Expr* c, int p, int q, Expr* r) {
    if (on && !isC(r) | (on && !(isC(a) && (!b || isC(b))))) {
      if (++rwCount % g_rwEvery == 0 && g_rw.size() < 100000 && !r->undef) {
        bool big = false;
        (void)big;
        g_rw.push_back({k, a, b, c, p, q, r});
      }
    }
    return r;
  }
};

// ---------------------------------------------------------------- arena + hash-consing
static char* arenaPtr = nullptr; static size_t arenaLeft = 0;
static void* arenaAlloc(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (n > arenaLeft) {
    size_t sz = std::max<size_t>(n, 1 << 20);
    arenaPtr = (char*)aligned_alloc(16, (sz + 15) & ~(size_t)15);
    arenaLeft = sz;
  }
  void* p = arenaPtr; arenaPtr += n; arenaLeft -= n; return p;
}
static vector<Expr*> htab; static size_t hcount = 0;
static inline u32 hmix(u32 h, u64 v) {
  u64 x = (u64)h * 0x9E3779B97F4A7C15ull ^ v; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (u32)x ^ (u32)(x >> 17);
}
static void rehash() {
  vector<Expr*> old; old.swap(htab);
  htab.assign(old.empty() ? (1 << 16) : old.size() * 2, nullptr);
  size_t m = htab.size() - 1;
  for (Expr* e : old) if (e) { size_t i = e->hash & m; while (htab[i]) i = (i + 1) & m; htab[i] = e; }
}
static void ranges(Expr* e);

static Expr* node(Kind k, int w, u32 aux, u128 c, Expr* const* args, u32 n, const u128* coef = nullptr) {
  u32 h = hmix(k * 131 + w, aux); h = hmix(h, (u64)c); h = hmix(h, (u64)(c >> 64));
  for (u32 i = 0; i < n; i++) { h = hmix(h, args[i]->id); if (coef) { h = hmix(h, (u64)coef[i]); } }
  if (htab.empty() || hcount * 3 > htab.size() * 2) rehash();
  size_t m = htab.size() - 1, i = h & m;
  while (Expr* e = htab[i]) {
    if (e->hash == h && e->kind == k && e->w == w && e->aux == aux && e->c == c && e->n == n) {
      bool ok = true;
      for (u32 j = 0; j < n && ok; j++) { if (e->args[j] != args[j]) ok = false; else if (coef && e->coef[j] != coef[j]) ok = false; }
      if (ok) return e;
    }
    i = (i + 1) & m;
  }
  size_t sz = sizeof(Expr) + n * sizeof(Expr*);
  sz = (sz + 15) & ~(size_t)15;
  size_t tot = sz + (coef ? n * sizeof(u128) : 0);
  char* p = (char*)arenaAlloc(tot);
  Expr* e = (Expr*)p; memset(e, 0, sizeof(Expr));
  e->args = (Expr**)(p + sizeof(Expr)); e->coef = coef ? (u128*)(p + sz) : nullptr;
  e->kind = k; e->w = w; e->aux = aux; e->c = c; e->n = n; e->hash = h; e->id = (u32)(++g_nodes);
  e->sv = -1;
  for (u32 j = 0; j < n; j++) {
    e->args[j] = args[j]; if (coef) e->coef[j] = coef[j];
    e->undef |= args[j]->undef;
    int s = args[j]->sv;
    if (s != -1) { if (e->sv == -1) e->sv = s; else if (e->sv != s) e->sv = -2; }
  }
  if (k == K_VAR) e->sv = aux;
  if (k == K_UNDEF) { e->undef = 1; e->sv = -2; }
  ranges(e);
  htab[i] = e; hcount++;
  return e;
}

static void fullRange(Expr* e) {
  int w = e->w; if (w > 64) { return; }
  e->umin = 0; e->umax = (u64)maskw(w);
  e->smin = (i64)sxt((u128)1 << (w - 1), w); e->smax = (i64)((u64)maskw(w) >> 1);
}
// tighten signed from unsigned and vice versa
static void fixRange(Expr* e) {
  int w = e->w; if (w > 64) return;
  u64 smaxp = (u64)maskw(w) >> 1;
  if (e->umax <= smaxp) { if (e->smin < (i64)e->umin) e->smin = (i64)e->umin; if (e->smax > (i64)e->umax) e->smax = (i64)e->umax; }
  else if (e->umin > smaxp) {
    i64 lo = (i64)sxt(e->umin, w), hi = (i64)sxt(e->umax, w);
    if (e->smin < lo) e->smin = lo; if (e->smax > hi) e->smax = hi;
  }
  if (e->smin >= 0) { if (e->umin < (u64)e->smin) e->umin = e->smin; if (e->umax > (u64)e->smax) e->umax = e->smax; }
  else if (e->smax < 0) {
    u64 lo = (u64)e->smin & (u64)maskw(w), hi = (u64)e->smax & (u64)maskw(w);
    if (e->umin < lo) e->umin = lo; if (e->umax > hi) e->umax = hi;
  }
}
static bool mulOv(i128 a, i128 b, i128* r) { return __builtin_mul_overflow(a, b, r); }
static void ranges(Expr* e) {
  int w = e->w;
  if (w > 64) return;
  fullRange(e);
  switch (e->kind) {
    case K_CONST: e->umin = e->umax = (u64)e->c; e->smin = e->smax = (i64)sxt(e->c, w); return;
    case K_LIN: {
      i128 slo = sxt(e->c, w), shi = slo, ulo = slo, uhi = slo; bool ok = true;
      i128 ulo2 = (i128)(u64)e->c, uhi2 = ulo2; // constant seen as unsigned
      for (u32 i = 0; i < e->n && ok; i++) {
        i128 k = sxt(e->coef[i], w); Expr* t = e->args[i]; i128 a, b;
        if (mulOv(k, t->smin, &a) || mulOv(k, t->smax, &b)) { ok = false; break; }
        if (a > b) std::swap(a, b);
        if (__builtin_add_overflow(slo, a, &slo) || __builtin_add_overflow(shi, b, &shi)) { ok = false; break; }
        if (mulOv(k, (i128)t->umin, &a) || mulOv(k, (i128)t->umax, &b)) { ok = false; break; }
        if (a > b) std::swap(a, b);
        if (__builtin_add_overflow(ulo, a, &ulo) || __builtin_add_overflow(uhi, b, &uhi)) { ok = false; break; }
        ulo2 += a; uhi2 += b;
      }
      if (ok) {
        if (slo >= sxt((u128)1 << (w - 1), w) && shi <= (i128)(maskw(w) >> 1)) { e->smin = (i64)slo; e->smax = (i64)shi; }
        if (ulo >= 0 && uhi <= (i128)maskw(w)) { e->umin = (u64)ulo; e->umax = (u64)uhi; }
        else if (ulo2 >= 0 && uhi2 <= (i128)maskw(w)) { e->umin = (u64)ulo2; e->umax = (u64)uhi2; }
      }
      break;
    }
    case K_MUL: {
      Expr *a = e->args[0], *b = e->args[1];
      i128 c[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
      i128 lo = c[0], hi = c[0]; for (int i = 1; i < 4; i++) { lo = std::min(lo, c[i]); hi = std::max(hi, c[i]); }
      if (lo >= sxt((u128)1 << (w - 1), w) && hi <= (i128)(maskw(w) >> 1)) { e->smin = (i64)lo; e->smax = (i64)hi; }
      u128 uh = (u128)a->umax * b->umax; if (uh <= maskw(w)) { e->umin = a->umin * b->umin; e->umax = (u64)uh; }
      break;
    }
    case K_UDIV: if (e->args[1]->umin > 0) { e->umin = e->args[0]->umin / e->args[1]->umax; e->umax = e->args[0]->umax / e->args[1]->umin; } break;
    case K_UREM: if (e->args[1]->umin > 0) { e->umin = 0; e->umax = std::min(e->args[0]->umax, e->args[1]->umax - 1); } break;
    case K_AND: { u64 m = ~0ull; for (u32 i = 0; i < e->n; i++) m = std::min(m, e->args[i]->umax); e->umax = m; break; }
    case K_OR: { u64 m = 0, o = 0; for (u32 i = 0; i < e->n; i++) { m = std::max(m, e->args[i]->umin); o |= e->args[i]->umax; }
      int b = o ? 64 - __builtin_clzll(o) : 0; e->umin = m; e->umax = std::min((u64)maskw(w), (u64)maskw(b)); if (b == 0) e->umax = 0; break; }
    case K_XOR: { u64 o = (u64)e->c; for (u32 i = 0; i < e->n; i++) o |= e->args[i]->umax;
      int b = o ? 64 - __builtin_clzll(o) : 0; e->umax = std::min((u64)maskw(w), (u64)maskw(b)); break; }
    case K_ITE: e->umin = std::min(e->args[1]->umin, e->args[2]->umin); e->umax = std::max(e->args[1]->umax, e->args[2]->umax);
      e->smin = std::min(e->args[1]->smin, e->args[2]->smin); e->smax = std::max(e->args[1]->smax, e->args[2]->smax); break;
    case K_CONCAT: { u64 lo = 0, hi = 0; int sh = 0;
      for (u32 i = 0; i < e->n; i++) { lo |= e->args[i]->umin << sh; hi |= e->args[i]->umax << sh; sh += e->args[i]->w; }
      e->umin = lo; e->umax = hi;
      Expr* t = e->args[e->n - 1];
      if (t->w > 1 || true) { // signed range from the top part
        int ts = w - t->w; i128 a = (i128)t->smin << ts, b = ((i128)t->smax << ts) + (i128)(ts ? maskw(ts) : 0);
        if (a >= sxt((u128)1 << (w - 1), w) && b <= (i128)(maskw(w) >> 1)) { e->smin = std::max(e->smin, (i64)a); e->smax = std::min(e->smax, (i64)b); }
      }
      break; }
    case K_EXTRACT: { Expr* a = e->args[0]; int lo = e->aux; if (a->w > 64) break;
      if ((a->umin >> lo) >> (w - 1) >> 1 == (a->umax >> lo) >> (w - 1) >> 1 ) { u64 x = (a->umin >> lo) & (u64)maskw(w), y = (a->umax >> lo) & (u64)maskw(w); if (x <= y) { e->umin = x; e->umax = y; } }
      if (lo + w == a->w) { e->smin = std::max(e->smin, a->smin >> lo); e->smax = std::min(e->smax, a->smax >> lo); }
      else { i64 x = a->smin >> lo, y = a->smax >> lo; if (x >= e->smin && y <= e->smax) { e->smin = x; e->smax = y; } }
      break; }
    case K_SEXT: { Expr* a = e->args[0]; e->smin = a->smin; e->smax = a->smax; break; }
    case K_TABLE: { TableInfo& t = g_tables[e->aux]; u64 lo = ~0ull, hi = 0; Expr* ix = e->args[0];
      if (ix->w <= 64 && ix->umax - ix->umin < 4096) { for (u64 i = ix->umin; i <= ix->umax && i < t.v.size(); i++) { lo = std::min(lo, t.v[i]); hi = std::max(hi, t.v[i]); } if (lo > hi) { lo = t.lo; hi = t.hi; } }
      else { lo = t.lo; hi = t.hi; }
      e->umin = lo; e->umax = hi; break; }
    default: break;
  }
  fixRange(e);
}

Expr* mkConst(u128 v, int w) { v &= maskw(w); return node(K_CONST, w, 0, v, nullptr, 0); }
u32 newVar(int w, const std::string& name) { g_vars.push_back({w, name, nullptr}); u32 id = g_vars.size() - 1; g_vars[id].e = node(K_VAR, w, id, 0, nullptr, 0); return id; }
Expr* mkVar(u32 v) { return g_vars[v].e; }
Expr* mkUndef(int w) { return node(K_UNDEF, w, 0, 0, nullptr, 0); }

u32 internTable(const vector<u64>& v, int ew) {
  static std::unordered_map<std::string, u32> tab;
  std::string key((const char*)v.data(), v.size() * 8); key += (char)ew;
  auto it = tab.find(key); if (it != tab.end()) return it->second;
  TableInfo t; t.v = v; t.ew = ew; t.linear = false; t.lo = ~0ull; t.hi = 0;
  for (u64 x : v) { t.lo = std::min(t.lo, x); t.hi = std::max(t.hi, x); }
  size_t n = v.size();
  if (n >= 2 && (n & (n - 1)) == 0) {
    bool lin = true;
    for (size_t i = 1; i < n && lin; i++) { u64 x = v[0]; for (size_t b = 1; b < n; b <<= 1) if (i & b) x ^= v[b] ^ v[0]; if (x != v[i]) lin = false; }
    t.linear = lin;
  }
  g_tables.push_back(t); u32 id = g_tables.size() - 1; tab[key] = id; return id;
}

// ---------------------------------------------------------------- folding
u128 foldBin(Kind k, u128 a, u128 b, int w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (k) {
    case K_UDIV: return b ? (a / b) & m : m;
    case K_UREM: return b ? (a % b) & m : a;
    case K_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case K_LSHR: return b >= (u128)w ? 0 : (a >> (int)b);
    case K_ASHR: { i128 x = sxt(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_MUL: return (a * b) & m; case K_LIN: return (a + b) & m;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_SLT: return sxt(a, w) < sxt(b, w);
    default: abort();
  }
}

// ---------------------------------------------------------------- concat / extract
static inline u128 cbits(Expr* c, int lo, int w) { return (c->c >> lo) & maskw(w); }

static int linTz(Expr* e) {
  u128 m = e->c; for (u32 i = 0; i < e->n; i++) m |= e->coef[i];
  int t = 0; while (t < e->w - 1 && !((m >> t) & 1)) t++; return t;
}
static Expr* extract0(Expr* e, int lo, int w);
// signed bounds of expressions wider than 64 bits, when no part of them can wrap
bool sbounds(Expr* e, i128& lo, i128& hi, int depth) {
  const i128 M = (i128)1 << 112; if (depth > 40) return false;
  if (e->kind == K_CONST) { lo = hi = sxt(e->c, e->w); return lo > -M && lo < M; }
  if (e->w <= 64) { lo = e->smin; hi = e->smax; return true; }
  auto mul = [&](i128 a, i128 b, i128 c, i128 d) { auto big = [](i128 x) { return x >= ((i128)1 << 62) || x <= -((i128)1 << 62); }; bool ab = big(a) || big(b), cd = big(c) || big(d); auto huge = [](i128 x) { return x >= ((i128)1 << 63) || x < -((i128)1 << 63); };
    if ((ab && cd) || huge(a) || huge(b) || huge(c) || huge(d)) { auto one = [](i128 x) { return x >= -1 && x <= 1; }; if (!(one(a) && one(b)) && !(one(c) && one(d))) return false; } i128 q[4] = {a * c, a * d, b * c, b * d}; lo = hi = q[0]; for (int i = 1; i < 4; i++) { lo = std::min(lo, q[i]); hi = std::max(hi, q[i]); } return lo > -M && hi < M; };
  if (e->kind == K_SEXT) return sbounds(e->args[0], lo, hi, depth + 1);
  if (e->kind == K_MUL) { i128 a, b, c, d; if (e->n != 2 || !sbounds(e->args[0], a, b, depth + 1) || !sbounds(e->args[1], c, d, depth + 1)) return false; return mul(a, b, c, d); }
  if (e->kind == K_LIN) { i128 L = sxt(e->c, e->w), H = L; if (L <= -M || L >= M) return false; for (u32 i = 0; i < e->n; i++) { i128 a, b, k = sxt(e->coef[i], e->w); if (!sbounds(e->args[i], a, b, depth + 1) || !mul(a, b, k, k)) return false; L += lo; H += hi; if (L <= -M || H >= M) return false; } lo = L; hi = H; return true; }
  if (e->kind == K_CONCAT && e->n == 2 && e->args[1]->kind == K_CONST && e->args[1]->c == 0 && e->args[0]->w <= 64) { lo = 0; hi = (i128)maskw(e->args[0]->w); return true; }
  return false;
}
Expr* mkExtract(Expr* e, int lo, int w) {
  assert(lo >= 0 && w >= 1 && lo + w <= e->w);
  if (lo == 0 && w == e->w) return e;
  if (lo > 0 && e->w > 64 && (e->kind == K_LIN || e->kind == K_MUL)) { // a wide number that fits 64 bits is the extension of its low half
    i128 a, b; const i128 H = (i128)1 << 63;
    if (sbounds(e, a, b) && a >= -H && b < H) { Expr* t = mkExtract(e, 0, 64); return lo + w <= 64 ? mkExtract(t, lo, w) : lo < 64 ? mkSExt(mkExtract(t, lo, 64 - lo), w) : mkSExt(mkExtract(t, 63, 1), w); }
  }
  if (e->kind != K_LIN && e->kind != K_ITE) return extract0(e, lo, w);
  // sums of nested shifts would otherwise be taken apart again and again
  static std::unordered_map<u64, Expr*> memo; u64 key = (u64)e->id << 14 | (u64)lo << 7 | (u64)(w - 1);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  Expr* r = extract0(e, lo, w); memo[key] = r; return r;
}
static Expr* extract0(Expr* e, int lo, int w) {
  switch (e->kind) {
    case K_CONST: return mkConst(e->c >> lo, w);
    case K_UNDEF: return mkUndef(w);
    case K_EXTRACT: return mkExtract(e->args[0], lo + e->aux, w);
    case K_CONCAT: {
      vector<Expr*> ps; int pos = 0;
      for (u32 i = 0; i < e->n; i++) {
        int pw = e->args[i]->w; int a = std::max(lo, pos), b = std::min(lo + w, pos + pw);
        if (a < b) ps.push_back(mkExtract(e->args[i], a - pos, b - a));
        pos += pw;
      }
      if (ps.size() == 1) return ps[0];
      return mkConcat(ps);
    }
    case K_SEXT: {
      Expr* a = e->args[0];
      if (lo + w <= a->w) return mkExtract(a, lo, w);
      if (lo >= a->w - 1) return mkSExt(mkExtract(a, a->w - 1, 1), w);
      return mkSExt(mkExtract(a, lo, a->w - lo), w);
    }
    case K_AND: case K_OR: case K_XOR: {
      Expr* r = nullptr;
      for (u32 i = 0; i < e->n; i++) { Expr* x = mkExtract(e->args[i], lo, w); r = !r ? x : e->kind == K_AND ? mkAnd(r, x) : e->kind == K_OR ? mkOr(r, x) : mkXor(r, x); }
      if (e->kind == K_XOR) { u128 c = (e->c >> lo) & maskw(w); if (c) r = mkXor(r, mkConst(c, w)); }
      return r;
    }
    case K_ITE: return mkIte(e->args[0], mkExtract(e->args[1], lo, w), mkExtract(e->args[2], lo, w));
    case K_LIN: case K_MUL: {
      if (lo == 0) {
        if (e->kind == K_MUL) return mkMul(mkExtract(e->args[0], 0, w), mkExtract(e->args[1], 0, w));
        Expr* r = mkConst(e->c, w);
        for (u32 i = 0; i < e->n; i++) r = mkAdd(r, mkMul(mkConst(e->coef[i], w), mkExtract(e->args[i], 0, w)));
        return r;
      }
      if (lo + w < e->w) return mkExtract(mkExtract(e, 0, lo + w), lo, w);
      if (e->kind == K_LIN) { // a common power of two
        int t = linTz(e); if (t > lo) t = lo;
        if (t > 0) {
          Expr* r = mkConst(e->c >> t, e->w - t);
          for (u32 i = 0; i < e->n; i++) r = mkAdd(r, mkMul(mkConst(e->coef[i] >> t, e->w - t), mkExtract(e->args[i], 0, e->w - t)));
          return mkExtract(r, lo - t, w);
        }
      }
      break;
    }
    default: break;
  }
  if (e->w <= 64 && lo < 64) { // known high zero bits
    if (e->umax >> lo == 0) return mkConst(0, w);
  }
  return node(K_EXTRACT, w, lo, 0, &e, 1);
}

static Expr* tryMerge(Expr* p, Expr* q) { // p below q
  if (isC(p) && isC(q)) { if (p->w + q->w <= 128) return mkConst((q->c << p->w) | p->c, p->w + q->w); return nullptr; }
  if (p->undef || q->undef) { if (p->kind == K_UNDEF && q->kind == K_UNDEF) return mkUndef(p->w + q->w); }
  if (isC(p) || isC(q)) return nullptr;
  if (q->kind == K_EXTRACT) {
    int lo2 = q->aux - p->w;
    if (lo2 >= 0) { Expr* b = q->args[0];
      bool can = false;
      if (p->kind == K_EXTRACT) can = (p->args[0] == b && (int)p->aux == lo2) || (b->kind == K_LIN || b->kind == K_MUL);
      else can = lo2 == 0 || b->kind == K_LIN || b->kind == K_MUL;
      if (can) { Expr* c = mkExtract(b, lo2, p->w); if (c == p) return mkExtract(b, lo2, p->w + q->w); } }
  }
  // sign-extension recognition
  Expr* s = q->kind == K_SEXT ? q->args[0] : q;
  if (s->w == 1 && (q->kind == K_SEXT || q->w == 1)) {
    bool sign = false;
    if (s->kind == K_EXTRACT) {
      Expr* b = s->args[0];
      if (b == p && (int)s->aux == p->w - 1) sign = true;
      else if (p->kind == K_EXTRACT && p->args[0] == b && p->aux + p->w - 1 == s->aux) sign = true;
      else if (p->kind == K_SEXT && p->args[0] == b && (int)s->aux == b->w - 1) sign = true;
      else if (p->kind == K_LIN || p->kind == K_MUL) sign = mkExtract(p, p->w - 1, 1) == s;
    }
    if (!sign && p->kind == K_SEXT && (p->args[0] == s || mkExtract(p, p->w - 1, 1) == s)) sign = true;
    if (!sign && p == s) sign = true;
    if (!sign && p->kind == K_XOR && s->kind == K_XOR) sign = mkExtract(p, p->w - 1, 1) == s;
    if (sign) return mkSExt(p, p->w + q->w);
  }
  if (q->kind == K_SEXT && q->args[0]->w > 1) if (Expr* m = tryMerge(p, q->args[0])) return mkSExt(m, p->w + q->w);
  return nullptr;
}

Expr* mkConcat(const vector<Expr*>& in) {
  vector<Expr*> ps; ps.reserve(in.size());
  std::function<void(Expr*)> push = [&](Expr* e) {
    if (e->kind == K_CONCAT) { for (u32 i = 0; i < e->n; i++) push(e->args[i]); return; }
    if (!ps.empty()) { Expr* m = tryMerge(ps.back(), e); if (m) { ps.pop_back(); push(m); return; } }
    ps.push_back(e);
  };
  for (Expr* e : in) push(e);
  if (ps.size() == 1) return ps[0];
  int w = 0; for (Expr* p : ps) w += p->w;
  assert(w <= 128);
  return node(K_CONCAT, w, 0, 0, ps.data(), ps.size());
}
Expr* mkZExt(Expr* e, int w) { if (w == e->w) return e; assert(w > e->w); if (isC(e)) return mkConst(e->c, w); return mkConcat({e, mkConst(0, w - e->w)}); }
Expr* mkSExt(Expr* e, int w) {
  if (w == e->w) return e; assert(w > e->w);
  if (isC(e)) return mkConst((u128)sxt(e->c, e->w), w);
  if (e->kind == K_UNDEF) return mkUndef(w);
  if (e->kind == K_SEXT) return mkSExt(e->args[0], w);
  if (e->w <= 64 && e->smin >= 0) return mkZExt(e, w);
  if (e->kind == K_CONCAT && e->args[e->n - 1]->kind == K_SEXT) { vector<Expr*> ps(e->args, e->args + e->n); ps.back() = ps.back()->args[0]; return mkSExt(mkConcat(ps), w); }
  return node(K_SEXT, w, 0, 0, &e, 1);
}

// ---------------------------------------------------------------- bitwise
static Expr* bitwise(Kind k, Expr* a, Expr* b);
static Expr* mkBitAtom(Kind k, Expr* a, Expr* b) {
  int w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), w);
  if (isC(a)) std::swap(a, b);
  if (k == K_AND) {
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a; }
    if (a == b) return a;
  } else if (k == K_OR) {
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; }
    if (a == b) return a;
  } else {
    if (isC(b) && b->c == 0) return a;
    if (a == b && !a->undef) return mkConst(0, w);
  }
  if (k != K_XOR && isC(b)) return bitwise(k, a, b); // a piece that turned out to be a mixed constant
  // SEXT of equal shape: operate below the extension
  if (a->kind == K_SEXT && b->kind == K_SEXT && a->args[0]->w == b->args[0]->w) {
    Expr* x = k == K_AND ? mkAnd(a->args[0], b->args[0]) : k == K_OR ? mkOr(a->args[0], b->args[0]) : mkXor(a->args[0], b->args[0]);
    return mkSExt(x, w);
  }
  if (k == K_XOR && a->kind == K_SEXT && isC(b) && b->c == maskw(w)) return mkSExt(mkNot(a->args[0]), w);
  // n-ary merge
  u128 c = 0; vector<Expr*> ts; ts.reserve(8);
  auto add = [&](Expr* e) {
    if (e->kind == k) { for (u32 i = 0; i < e->n; i++) ts.push_back(e->args[i]); c ^= e->c; }
    else if (isC(e)) { assert(k == K_XOR); c ^= e->c; }
    else ts.push_back(e);
  };
  add(a); add(b);
  std::sort(ts.begin(), ts.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
  vector<Expr*> us; us.reserve(ts.size());
  if (k == K_XOR) {
    for (Expr* t : ts) { if (!us.empty() && us.back() == t) us.pop_back(); else us.push_back(t); }
    if (us.empty()) return mkConst(c, w);
    if (us.size() == 1 && c == 0) return us[0];
  } else {
    for (Expr* t : ts) { if (us.empty() || us.back() != t) us.push_back(t); }
    if (us.size() == 1) return us[0];
    if (w == 1) { // complementary literals
      for (Expr* t : us) if (t->kind == K_XOR && t->n == 1 && t->c == 1) for (Expr* s : us) if (s == t->args[0]) return mkConst(k == K_AND ? 0 : 1, 1);
    }
    c = 0;
  }
  return node(k, w, 0, c, us.data(), us.size());
}
static Expr* bitwise(Kind k, Expr* a, Expr* b) {
  assert(a->w == b->w);
  int w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), w);
  bool split = a->kind == K_CONCAT || b->kind == K_CONCAT;
  if (!split && k != K_XOR) { Expr* c = isC(a) ? a : isC(b) ? b : nullptr; if (c && c->c != 0 && c->c != maskw(w)) split = true; }
  if (!split) return mkBitAtom(k, a, b);
  u128 cut = 0; // bit i set: boundary before bit i
  for (Expr* e : {a, b}) {
    if (e->kind == K_CONCAT) { int p = 0; for (u32 i = 0; i < e->n; i++) { p += e->args[i]->w; if (p < w) cut |= (u128)1 << p; } }
    if (isC(e) && k != K_XOR) { u128 x = e->c ^ (e->c << 1); cut |= x & maskw(w) & ~(u128)1; }
  }
  vector<Expr*> ps; int pos = 0;
  for (int i = 1; i <= w; i++) {
    if (i == w || (cut >> i) & 1) { ps.push_back(mkBitAtom(k, mkExtract(a, pos, i - pos), mkExtract(b, pos, i - pos))); pos = i; }
  }
  return mkConcat(ps);
}
Expr* mkAnd(Expr* a, Expr* b) { RwGuard g; return g.done(K_AND, a, b, 0, 0, 0, bitwise(K_AND, a, b)); }
Expr* mkOr(Expr* a, Expr* b) { RwGuard g; return g.done(K_OR, a, b, 0, 0, 0, bitwise(K_OR, a, b)); }
Expr* mkXor(Expr* a, Expr* b) { RwGuard g; return g.done(K_XOR, a, b, 0, 0, 0, bitwise(K_XOR, a, b)); }
Expr* mkNot(Expr* a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }

// ---------------------------------------------------------------- linear arithmetic
static u128 pmask(Expr* e) {
  if (isC(e)) return e->c;
  if (e->kind == K_CONCAT) { u128 m = 0; int p = 0; for (u32 i = 0; i < e->n; i++) { m |= (isC(e->args[i]) ? e->args[i]->c : maskw(e->args[i]->w)) << p; p += e->args[i]->w; } return m; }
  return maskw(e->w);
}
struct LinAcc {
  int w; u128 c = 0; vector<std::pair<Expr*, u128>> t;
  void add(Expr* e, u128 k) {
    k &= maskw(w); if (!k) return;
    switch (e->kind) {
      case K_CONST: c += k * e->c; return;
      case K_LIN: c += k * e->c; for (u32 i = 0; i < e->n; i++) t.push_back({e->args[i], k * e->coef[i]}); return;
      case K_XOR: if (e->n == 1 && e->c == maskw(w)) { c -= k; add(e->args[0], (u128)0 - k); return; } break;
      case K_SEXT: if (e->args[0]->kind == K_XOR && e->args[0]->n == 1 && e->args[0]->c == maskw(e->args[0]->w)) { c -= k; add(mkSExt(e->args[0]->args[0], w), (u128)0 - k); return; }
        if (e->args[0]->kind == K_CONCAT && lead(e->args[0])) { c -= k; add(mkSExt(mkNot(e->args[0]), w), (u128)0 - k); return; } break;
      case K_CONCAT: {
        Expr* p0 = e->args[0];
        if (isC(p0) && e->n >= 2) {
          int z = p0->w; c += k * p0->c;
          vector<Expr*> rest(e->args + 1, e->args + e->n);
          Expr* last = rest.back(); Expr* T;
          if (rest.size() == 1 && last->kind == K_EXTRACT && last->aux == 0 && last->args[0]->w == w) T = last->args[0];
          else if (last->kind == K_SEXT) { rest.back() = mkSExt(last, last->w + z); T = mkConcat(rest); }
          else { T = mkZExt(mkConcat(rest), w); }
          if (T == e) break;
          add(T, k << z); return;
        }
        { // constant parts go into the constant
          u128 cc = 0; int p = 0; vector<Expr*> ps(e->args, e->args + e->n);
          for (auto& x : ps) { if (isC(x) && x->c) { cc |= x->c << p; x = mkConst(0, x->w); } p += x->w; }
          if (cc) { Expr* T = mkConcat(ps); if (T != e) { c += k * cc; add(T, k); return; } }
        }
        { // arithmetic in the top part (its overflow is cut off anyway) is merged with the sum
          Expr* last = e->args[e->n - 1];
          if (e->n >= 2 && last->kind == K_LIN) {
            int p = w - last->w; vector<Expr*> ps(e->args, e->args + e->n - 1); ps.push_back(mkConst(0, last->w));
            add(mkConcat(ps), k); c += (k << p) * last->c;
            for (u32 i = 0; i < last->n; i++) add(mkZExt(last->args[i], w), (k << p) * last->coef[i]);
            return;
          }
        }
        if (lead(e)) { c -= k; add(mkNot(e), (u128)0 - k); return; }
        break;
      }
      default: break;
    }
    t.push_back({e, k});
  }
  static bool lead(Expr* e) { // the lowest symbolic part is negated
    for (u32 i = 0; i < e->n; i++) { Expr* x = e->args[i]; if (isC(x)) continue; if (x->kind == K_SEXT) x = x->args[0]; return x->kind == K_XOR && x->n == 1 && x->c == maskw(x->w); }
    return false;
  }
  // with a coefficient divisible by 2^tz the top tz bits of the term do not matter: prefer the wider form
  bool widen(Expr* e, u128 k) {
    int tz = 0; while (tz < w && !((k >> tz) & 1)) tz++;
    if (!tz || e->kind != K_CONCAT) return false;
    Expr* top = e->args[e->n - 1]; if (!isC(top) || top->c || top->w > tz) return false;
    int z = top->w; vector<Expr*> ps(e->args, e->args + e->n - 1); Expr* l = ps.back();
    if (l->kind == K_EXTRACT) { int x = std::min(z, (int)l->args[0]->w - (int)l->aux - l->w); if (x <= 0) ps.back() = mkSExt(l, l->w + z); else { ps.back() = mkExtract(l->args[0], l->aux, l->w + x); if (z > x) ps.push_back(mkConst(0, z - x)); } }
    else if (l->kind == K_SEXT) ps.back() = mkSExt(l->args[0], l->w + z);
    else if (l->kind == K_LIN && ps.size() == 1) { c += k * l->c; for (u32 i = 0; i < l->n; i++) add(mkZExt(l->args[i], w), k * l->coef[i]); return true; }
    else return false;
    add(mkConcat(ps), k); return true;
  }
  Expr* done(int round = 0) {
    c &= maskw(w);
    std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    vector<Expr*> a; vector<u128> k;
    for (size_t i = 0; i < t.size();) {
      u128 s = 0; Expr* e = t[i].first; size_t j = i;
      while (j < t.size() && t[j].first == e) s += t[j++].second;
      s &= maskw(w); if (s) { a.push_back(e); k.push_back(s); }
      i = j;
    }
    if (round < 4) {
      t.clear(); bool ch = false;
      for (size_t i = 0; i < a.size(); i++) { if (!(k[i] & 1) && widen(a[i], k[i])) ch = true; else t.push_back({a[i], k[i]}); }
      if (ch) return done(round + 1);
    }
    // 2^t * (x >> t) + (x mod 2^t) is x
    if (round < 8 && a.size() >= 2) for (size_t i = 0; i < a.size(); i++) {
      Expr* x = a[i]->kind == K_SEXT ? a[i]->args[0] : a[i]; if (x->kind != K_EXTRACT || !x->aux || (int)x->aux >= w) continue;
      Expr* l = x->args[0]; int sh = x->aux; if (sh + x->w != l->w || (a[i]->kind == K_SEXT ? l->w > w : false)) continue;
      bool can = false; for (size_t j = 0; j < a.size() && !can; j++) can = j != i && ((k[j] << sh) & maskw(w)) == k[i] && a[j]->kind == K_CONCAT && !(pmask(a[j]) >> sh);
      if (!can) continue;
      Expr* y = mkZExt(mkExtract(l, 0, sh), w);
      for (size_t j = 0; j < a.size(); j++) if (a[j] == y && j != i && ((k[j] << sh) & maskw(w)) == k[i]) {
        Expr* f = l->w < w ? mkSExt(l, w) : mkExtract(l, 0, w); u128 kf = k[j];
        t.clear(); for (size_t q = 0; q < a.size(); q++) if (q != i && q != j) t.push_back({a[q], k[q]});
        add(f, kf); return done(round + 1);
      }
    }
    if (a.empty()) return mkConst(c, w);
    if (a.size() == 1) {
      if (k[0] == 1 && c == 0) return a[0];
      if (k[0] == maskw(w) && c == maskw(w) && a[0]->kind != K_MUL) return mkNot(a[0]);
      if (c == 0 && (k[0] & (k[0] - 1)) == 0 && a[0]->kind != K_MUL) {
        int s = 0; while (!((k[0] >> s) & 1)) s++;
        return mkConcat({mkConst(0, s), mkExtract(a[0], 0, w - s)});
      }
    }
    return node(K_LIN, w, 0, c, a.data(), a.size(), k.data());
  }
};
u128 possibleBits(Expr* e) { return pmask(e); }
Expr* mkAdd(Expr* a, Expr* b) {
  assert(a->w == b->w);
  if (isC(a) && a->c == 0) return b;
  if (isC(b) && b->c == 0) return a;
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
  RwGuard g;
  if (a->w == 1) return g.done(K_LIN, a, b, 0, 0, 0, mkXor(a, b));
  if ((a->kind == K_CONCAT || b->kind == K_CONCAT) && (pmask(a) & pmask(b)) == 0) return g.done(K_LIN, a, b, 0, 0, 0, mkOr(a, b));
  for (int i = 0; i < 2; i++) { Expr *x = i ? b : a, *y = i ? a : b; // low bits put back below a multiple of a power of two: kept if they fit together
    if (x->kind != K_LIN || y->kind != K_CONCAT) continue;
    int t = linTz(x); if (!t || (pmask(y) >> t)) continue;
    Expr* r = mkOr(a, b); if (r->kind != K_CONCAT || r->args[0]->w > t) return g.done(K_LIN, a, b, 0, 0, 0, r);
  }
  LinAcc l; l.w = a->w; l.add(a, 1); l.add(b, 1); return g.done(K_LIN, a, b, 0, 0, 0, l.done());
}
Expr* mkSub(Expr* a, Expr* b) {
  assert(a->w == b->w);
  if (isC(b)) return mkAdd(a, mkConst((u128)0 - b->c, a->w));
  if (a->w == 1) return mkXor(a, b);
  if (isC(a) && a->c == maskw(a->w)) return mkNot(b);
  LinAcc l; l.w = a->w; l.add(a, 1); l.add(b, (u128)0 - 1); return l.done();
}
Expr* mkMul(Expr* a, Expr* b) {
  assert(a->w == b->w);
  int w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c * b->c, w);
    if (b->c == 1) return a; if (b->c == 0) return b;
    if (w == 1) return mkAnd(a, b);
    RwGuard g;
    LinAcc l; l.w = w; l.add(a, b->c); return g.done(K_MUL, a, b, 0, 0, 0, l.done());
  }
  if (w == 1) return mkAnd(a, b);
  RwGuard g; Expr *a0 = a, *b0 = b;
  u128 k = 1;
  for (Expr** p : {&a, &b}) while ((*p)->kind == K_LIN && (*p)->n == 1 && (*p)->c == 0) { k *= (*p)->coef[0]; *p = (*p)->args[0]; }
  if (a->id > b->id) std::swap(a, b);
  Expr* args[2] = {a, b};
  Expr* m = node(K_MUL, w, 0, 0, args, 2);
  k &= maskw(w);
  Expr* r = m;
  if (k != 1) { LinAcc l; l.w = w; l.add(m, k); r = l.done(); }
  return g.done(K_MUL, a0, b0, 0, 0, 0, r);
}
static Expr* divNode(Kind k, Expr* a, Expr* b) {
  if (isC(a) && isC(b) && b->c) return mkConst(foldBin(k, a->c, b->c, a->w), a->w);
  Expr* args[2] = {a, b}; return node(k, a->w, 0, 0, args, 2);
}
static int log2c(Expr* b) { if (!isC(b) || b->c == 0 || (b->c & (b->c - 1))) return -1; int s = 0; while (!((b->c >> s) & 1)) s++; return s; }
Expr* mkUDiv(Expr* a, Expr* b) {
  int s = log2c(b); if (s >= 0) return mkLShrC(a, s);
  if (a->w <= 64 && a->umax < b->umin) return mkConst(0, a->w);
  if (a == b && a->w <= 64 && a->umin > 0) return mkConst(1, a->w);
  return divNode(K_UDIV, a, b);
}
Expr* mkURem(Expr* a, Expr* b) {
  int s = log2c(b); if (s == 0) return mkConst(0, a->w); if (s > 0) return mkZExt(mkExtract(a, 0, s), a->w);
  if (a->w <= 64 && a->umax < b->umin) return a;
  return divNode(K_UREM, a, b);
}
Expr* mkSDiv(Expr* a, Expr* b) {
  if (isC(b) && b->c == 1) return a;
  if (a->w <= 64 && a->smin >= 0 && b->smin >= 0) return mkUDiv(a, b);
  int s = log2c(b);
  if (s > 0 && s < a->w - 1) { // round towards zero: negative values are raised first, unless the division is exact
    RwGuard g; Expr* z = mkExtract(a, 0, s);
    if (isC(z) && z->c == 0) return g.done(K_SDIV, a, b, 0, 0, 0, mkAShrC(a, s));
    return g.done(K_SDIV, a, b, 0, 0, 0, mkAShrC(mkAdd(a, mkZExt(mkSExt(mkExtract(a, a->w - 1, 1), s), a->w)), s));
  }
  return divNode(K_SDIV, a, b);
}
Expr* mkSRem(Expr* a, Expr* b) {
  if (a->w <= 64 && a->smin >= 0 && b->smin >= 0) return mkURem(a, b);
  return divNode(K_SREM, a, b);
}
Expr* mkShlC(Expr* a, int k) {
  int w = a->w; if (k == 0) return a; if (k >= w) return mkConst(0, w);
  RwGuard g; Expr* kc = mkConst(k, w);
  if (a->kind == K_LIN || a->kind == K_MUL) { LinAcc l; l.w = w; l.add(a, (u128)1 << k); return g.done(K_SHL, a, kc, 0, 0, 0, l.done()); }
  return g.done(K_SHL, a, kc, 0, 0, 0, mkConcat({mkConst(0, k), mkExtract(a, 0, w - k)}));
}
Expr* mkLShrC(Expr* a, int k) { int w = a->w; if (k == 0) return a; if (k >= w) return mkConst(0, w); RwGuard g; return g.done(K_LSHR, a, mkConst(k, w), 0, 0, 0, mkZExt(mkExtract(a, k, w - k), w)); }
Expr* mkAShrC(Expr* a, int k) { int w = a->w; if (k == 0) return a; if (k >= w) k = w - 1; RwGuard g; return g.done(K_ASHR, a, mkConst(k, w), 0, 0, 0, mkSExt(mkExtract(a, k, w - k), w)); }
static Expr* shNode(Kind k, Expr* a, Expr* b) { Expr* args[2] = {a, b}; return node(k, a->w, 0, 0, args, 2); }
Expr* mkShl(Expr* a, Expr* b) { if (isC(b)) return mkShlC(a, b->c > 200 ? 200 : (int)b->c); return shNode(K_SHL, a, b); }
Expr* mkLShr(Expr* a, Expr* b) { if (isC(b)) return mkLShrC(a, b->c > 200 ? 200 : (int)b->c); return shNode(K_LSHR, a, b); }
Expr* mkAShr(Expr* a, Expr* b) { if (isC(b)) return mkAShrC(a, b->c > 200 ? 200 : (int)b->c); return shNode(K_ASHR, a, b); }

// ---------------------------------------------------------------- comparisons
static u128 invOdd(u128 a) { u128 x = a; for (int i = 0; i < 7; i++) x *= 2 - a * x; return x; }

// ---------------------------------------------------------------- GF(2) normal form of XOR sums
struct BitForm { vector<Expr*> at; bool c; };
static void bfXor(BitForm& d, const BitForm& x) {
  vector<Expr*> r; r.reserve(d.at.size() + x.at.size());
  std::set_symmetric_difference(d.at.begin(), d.at.end(), x.at.begin(), x.at.end(), std::back_inserter(r), [](Expr* p, Expr* q) { return p->id < q->id; });
  d.at.swap(r); d.c ^= x.c;
}
static vector<BitForm> bitForms(Expr* e, int lo, int n) {
  vector<BitForm> r(n, BitForm{{}, false});
  switch (e->kind) {
    case K_CONST: for (int i = 0; i < n; i++) r[i].c = (e->c >> (lo + i)) & 1; return r;
    case K_XOR:
      for (u32 k = 0; k < e->n; k++) { auto x = bitForms(e->args[k], lo, n); for (int i = 0; i < n; i++) bfXor(r[i], x[i]); }
      for (int i = 0; i < n; i++) r[i].c ^= (e->c >> (lo + i)) & 1;
      return r;
    case K_CONCAT: { int p = 0; for (u32 k = 0; k < e->n; k++) { int pw = e->args[k]->w, a = std::max(lo, p), b = std::min(lo + n, p + pw); if (a < b) { auto x = bitForms(e->args[k], a - p, b - a); for (int i = a; i < b; i++) r[i - lo] = x[i - a]; } p += pw; } return r; }
    case K_SEXT: { int aw = e->args[0]->w; for (int i = 0; i < n; i++) r[i] = bitForms(e->args[0], std::min(lo + i, aw - 1), 1)[0]; return r; }
    default: for (int i = 0; i < n; i++) { Expr* x = mkExtract(e, lo + i, 1); if (x->kind == K_XOR || x->kind == K_CONST) r[i] = bitForms(x, 0, 1)[0]; else r[i].at.push_back(x); } return r;
  }
}
static bool hasXorSum(Expr* e) {
  if (e->kind == K_XOR) return e->n >= 2;
  if (e->kind == K_CONCAT) { for (u32 i = 0; i < e->n; i++) if (hasXorSum(e->args[i])) return true; }
  if (e->kind == K_SEXT) return hasXorSum(e->args[0]);
  return false;
}
// a == b as reduced linear equations over GF(2); null when that is not worth it
static Expr* eqGf2(Expr* a, Expr* b) {
  if (a->undef || b->undef || a->w > 64 || !(hasXorSum(a) || hasXorSum(b))) return nullptr;
  int w = a->w; auto x = bitForms(a, 0, w), y = bitForms(b, 0, w); size_t mx = 0;
  for (int i = 0; i < w; i++) { mx = std::max(mx, std::max(x[i].at.size(), y[i].at.size())); bfXor(x[i], y[i]); }
  vector<BitForm> rows;
  for (auto& r0 : x) { // reduce, then eliminate the new pivot from the earlier rows
    BitForm r = r0;
    for (auto& p : rows) if (std::binary_search(r.at.begin(), r.at.end(), p.at[0], [](Expr* s, Expr* t) { return s->id < t->id; })) bfXor(r, p);
    if (r.at.empty()) { if (r.c) return mkConst(0, 1); continue; }
    for (auto& p : rows) if (std::binary_search(p.at.begin(), p.at.end(), r.at[0], [](Expr* s, Expr* t) { return s->id < t->id; })) bfXor(p, r);
    rows.push_back(r);
  }
  if (rows.empty()) return mkConst(1, 1);
  if (mx < 3) return nullptr;
  Expr* r = mkConst(1, 1);
  for (auto& p : rows) { Expr* t = mkConst(p.c ? 0 : 1, 1); for (Expr* q : p.at) t = mkXor(t, q); r = mkAnd(r, t); }
  return r;
}
// rewrite a conjunction modulo its linear equations over GF(2); false when they are inconsistent
static bool bfHas(const BitForm& f, Expr* p) { return std::binary_search(f.at.begin(), f.at.end(), p, [](Expr* s, Expr* t) { return s->id < t->id; }); }
static Expr* gf2Reduce(Expr* e, const vector<BitForm>& rows) {
  if (e->w != 1 || isC(e)) return e;
  if (e->kind == K_AND || e->kind == K_OR) { Expr* r = nullptr; for (u32 i = 0; i < e->n; i++) { Expr* x = gf2Reduce(e->args[i], rows); r = !r ? x : e->kind == K_AND ? mkAnd(r, x) : mkOr(r, x); } return r; }
  BitForm f = bitForms(e, 0, 1)[0];
  for (auto& p : rows) if (bfHas(f, p.at[0])) bfXor(f, p);
  Expr* t = mkConst(f.c, 1); for (Expr* q : f.at) t = mkXor(t, q->kind == K_AND || q->kind == K_OR ? gf2Reduce(q, rows) : q);
  return t;
}
static bool gf2AddRow(vector<BitForm>& rows, BitForm r) { // r: sum of atoms + c = 0
  for (auto& p : rows) if (bfHas(r, p.at[0])) bfXor(r, p);
  if (r.at.empty()) return !r.c;
  for (auto& p : rows) if (bfHas(p, r.at[0])) bfXor(p, r);
  rows.push_back(r); return true;
}
static Expr* varBit(Expr* e) { return e->kind == K_VAR ? e : e->kind == K_EXTRACT && e->args[0]->kind == K_VAR ? e->args[0] : nullptr; }
// The linear part of a conjunction: 0 inconsistent, 1 a model of the linear part extending `m` (to be checked against
// the rest), -1 not applicable
int gf2Solve(const vector<Expr*>& cs, vector<u64>& m, vector<Expr*>& simplified) {
  bool worth = false; for (Expr* e : cs) { if (e->undef) return -1; if (e->w == 1 && e->kind == K_XOR && e->n >= 3) worth = true; }
  if (!worth) return -1;
  vector<BitForm> rows; vector<Expr*> rest; bool pure = true;
  for (Expr* e : cs) {
    if (e->kind == K_AND || e->kind == K_OR || (e->kind == K_XOR && e->n == 1 && (e->args[0]->kind == K_AND || e->args[0]->kind == K_OR))) { rest.push_back(e); continue; }
    if (e->kind == K_EQ && isC(e->args[1]) && varBit(e->args[0]) && e->args[0]->w <= 64) { Expr* x = e->args[0]; for (int i = 0; i < x->w; i++) { BitForm r = bitForms(x, i, 1)[0]; r.c ^= (e->args[1]->c >> i) & 1; if (!gf2AddRow(rows, r)) return 0; } continue; }
    BitForm r = bitForms(e, 0, 1)[0]; r.c ^= 1;
    if (!gf2AddRow(rows, r)) return 0;
  }
  for (auto& p : rows) { Expr* t = mkConst(p.c ? 0 : 1, 1); for (Expr* q : p.at) t = mkXor(t, q); if (isFalse(t)) return 0; if (!isTrue(t)) simplified.push_back(t); }
  for (Expr* e : rest) { Expr* t = gf2Reduce(e, rows); if (isFalse(t)) return 0; if (isTrue(t)) continue; simplified.push_back(t);
    // one of several sums must fail: take the first that can
    if (t->kind == K_XOR && t->n == 1 && t->args[0]->kind == K_AND) { Expr* a = t->args[0]; for (u32 i = 0; i < a->n; i++) { BitForm r = bitForms(a->args[i], 0, 1)[0]; auto save = rows; if (gf2AddRow(rows, r)) break; rows = save; } } }
  // rows over variable bits: the pivot follows from the others
  (void)pure;
  auto bit = [&](Expr* q) { Expr* v = varBit(q); u64 x = v->aux < (int)m.size() ? m[v->aux] : 0; return (x >> (q->kind == K_VAR ? 0 : q->aux)) & 1; };
  for (auto& p : rows) { pure = true; for (Expr* q : p.at) if (!varBit(q)) pure = false; if (!pure) continue; u64 x = p.c; for (size_t i = 1; i < p.at.size(); i++) x ^= bit(p.at[i]); Expr* v = varBit(p.at[0]); if ((int)m.size() <= v->aux) m.resize(v->aux + 1, 0); if (bit(p.at[0]) != x) m[v->aux] ^= 1ull << (p.at[0]->kind == K_VAR ? 0 : p.at[0]->aux); }
  return 1;
}
// sums that cannot overflow are carried out in the full width, arithmetic shifts of them in the least width: one form for
// computations of different widths (used to decide equalities only)
static bool linExact(Expr* e) {
  i128 lo = sxt(e->c, e->w), hi = lo;
  for (u32 i = 0; i < e->n; i++) { i128 k = sxt(e->coef[i], e->w), a, b;
    if (mulOv(k, e->args[i]->smin, &a) || mulOv(k, e->args[i]->smax, &b)) return false;
    if (a > b) std::swap(a, b);
    if (__builtin_add_overflow(lo, a, &lo) || __builtin_add_overflow(hi, b, &hi)) return false; }
  return lo >= sxt((u128)1 << (e->w - 1), e->w) && hi <= (i128)(maskw(e->w) >> 1);
}
// A sum as an integer combination of single bits, unsigned atoms and signed atoms, modulo 2^w.
struct BitSum { int w; std::map<std::pair<u32, int>, std::pair<Expr*, u128>> m; u128 c = 0; size_t fuel = 20000; };
static Expr* flat(Expr* e, int depth);
static void bitAtom(BitSum& s, Expr* x, int bit, u128 k) {
  k &= maskw(s.w); if (!k) return;
  auto& p = s.m[{x->id, bit}]; p.first = x; p.second = (p.second + k) & maskw(s.w); if (!p.second) s.m.erase({x->id, bit});
}
static void bitSum(BitSum& s, Expr* e, u128 k, bool sg) { // adds k * value(e), signed or unsigned
  k &= maskw(s.w); if (!k || !s.fuel) return; s.fuel--;
  if (e->w < 128 && !((k << e->w) & maskw(s.w))) sg = false; // the sign makes no difference
  if (sg && e->w <= 64 && e->smin >= 0) sg = false;
  switch (e->kind) {
    case K_CONST: s.c = (s.c + k * (sg ? (u128)sxt(e->c, e->w) : e->c)) & maskw(s.w); return;
    case K_CONCAT: { int o = 0; for (u32 i = 0; i < e->n && o < s.w; i++) { bitSum(s, e->args[i], k << o, sg && i + 1 == e->n); o += e->args[i]->w; } return; }
    case K_SEXT: if (sg || (e->w < 128 && !((k << e->w) & maskw(s.w)))) { bitSum(s, e->args[0], k, true); return; } break;
    case K_LIN: if (e->w >= s.w || !((k << e->w) & maskw(s.w))) { s.c = (s.c + k * e->c) & maskw(s.w); for (u32 i = 0; i < e->n; i++) bitSum(s, flat(e->args[i], 0), k * e->coef[i], false); return; }
      if (e->w <= 64 && (sg || e->smin >= 0) && linExact(e)) { s.c = (s.c + k * (u128)sxt(e->c, e->w)) & maskw(s.w); for (u32 i = 0; i < e->n; i++) bitSum(s, flat(e->args[i], 0), k * (u128)sxt(e->coef[i], e->w), true); return; }
      break;
    case K_VAR: case K_EXTRACT: { Expr* v = e->kind == K_VAR ? e : e->args[0]; if (v->kind != K_VAR) break; int lo = e->kind == K_VAR ? 0 : e->aux;
      for (int i = 0; i < e->w; i++) { u128 q = k << i; bitAtom(s, v, lo + i, sg && i + 1 == e->w ? -q : q); } return; }
    default: break;
  }
  if (e->w > s.w) { Expr* x = flat(mkExtract(e, 0, s.w), 0); if (x->kind != e->kind) { bitSum(s, x, k, false); return; } e = x; }
  bitAtom(s, e, sg ? -2 : -1, k);
}
static Expr* fromSum(BitSum& s) { // one expression per combination; the usual simplifications of sums are not applied
  vector<Expr*> a; vector<u128> k;
  for (auto& p : s.m) { Expr* x = p.second.first; int bit = p.first.second; // where the sign makes no difference, signed, for a smaller range
    bool sg = bit == -2 || (bit == -1 && x->w < s.w && x->smin < 0 && !((p.second.second << x->w) & maskw(s.w)));
    a.push_back(bit >= 0 ? mkZExt(mkExtract(x, bit, 1), s.w) : sg ? mkSExt(x, s.w) : mkZExt(x, s.w)); k.push_back(p.second.second); }
  if (a.empty()) return mkConst(s.c, s.w);
  if (a.size() == 1 && k[0] == 1 && s.c == 0) return a[0];
  return node(K_LIN, s.w, 0, s.c, a.data(), a.size(), k.data());
}
static Expr* flatTop(Expr* l, int lo, int w, int depth, Expr* e) { // bits lo.. of an exact sum, sign-extended to w
  Expr* f = flat(mkSExt(l, 64), depth + 1); int m = lo + 1; while (m < 64 && (f->smin < -((i64)1 << (m - 1)) || f->smax >= ((i64)1 << (m - 1)))) m++;
  if (m - lo > w) return e;
  { // an exact division: the same sum with smaller coefficients, in the full width
    BitSum a; a.w = 64; bitSum(a, f, 1, false); i128 mn = sxt(a.c, 64), mx = mn; u128 all = a.c; bool ok = a.fuel > 0;
    for (auto& p : a.m) { Expr* x = p.second.first; int bit = p.first.second; i128 k = sxt(p.second.second, 64); all |= p.second.second;
      i128 u = k * (bit >= 0 ? 0 : bit == -1 ? (i128)x->umin : (i128)x->smin), v = k * (bit >= 0 ? 1 : bit == -1 ? (i128)x->umax : (i128)x->smax);
      mn += std::min(u, v); mx += std::max(u, v); if (bit < 0 && x->w > w) ok = false; }
    if (ok && mn >= INT64_MIN && mx <= INT64_MAX && !(all & maskw(lo))) {
      BitSum r; r.w = w; r.c = (u128)(sxt(a.c, 64) >> lo) & maskw(w);
      for (auto& p : a.m) { u128 k = (u128)(sxt(p.second.second, 64) >> lo) & maskw(w); if (k) r.m[p.first] = {p.second.first, k}; }
      return fromSum(r);
    }
  }
  BitSum s; s.w = m; bitSum(s, f, 1, false); if (!s.fuel) return e;
  u128 all = s.c; for (auto& p : s.m) all |= p.second.second; int t = 0; while (t < lo && !((all >> t) & 1)) t++;
  if (t) { BitSum r; r.w = m - t; r.c = s.c >> t; for (auto& p : s.m) { Expr* x = p.second.first; if (x->w > r.w && p.first.second < 0) { r.fuel = 0; break; } r.m[p.first] = {x, p.second.second >> t}; } if (!r.fuel) return e; s = r; m -= t; lo -= t; }
  Expr* q = fromSum(s); if (lo) q = q->kind == K_LIN ? node(K_EXTRACT, m - lo, lo, 0, &q, 1) : mkExtract(q, lo, m - lo);
  return mkSExt(q, w);
}
static Expr* flat0(Expr* e, int depth) {
  int w = e->w; BitSum s; s.w = w;
  if (e->kind == K_LIN) { s.c = e->c; for (u32 i = 0; i < e->n; i++) bitSum(s, flat(e->args[i], depth + 1), e->coef[i], false); return s.fuel ? fromSum(s) : e; }
  if (e->kind == K_SEXT && e->args[0]->kind == K_LIN && linExact(e->args[0])) { Expr* x = e->args[0];
    s.c = (u128)sxt(x->c, x->w) & maskw(w); for (u32 i = 0; i < x->n; i++) bitSum(s, flat(mkSExt(x->args[i], w), depth + 1), (u128)sxt(x->coef[i], x->w), false); return s.fuel ? fromSum(s) : e; }
  if (e->kind == K_EXTRACT && e->args[0]->kind == K_LIN && (int)e->aux + w == e->args[0]->w && e->args[0]->w <= 64 && linExact(e->args[0])) return flatTop(e->args[0], e->aux, w, depth, e);
  if (e->kind == K_SEXT && e->args[0]->kind == K_EXTRACT) { Expr* x = e->args[0]; Expr* l = x->args[0]; int lo = x->aux;
    if (l->kind == K_LIN && lo + x->w == l->w && l->w <= 64 && linExact(l)) return flatTop(l, lo, w, depth, e); }
  if ((e->kind == K_SEXT && e->args[0]->kind == K_CONCAT) || e->kind == K_CONCAT) { Expr* x = e->kind == K_CONCAT ? e : e->args[0]; int o = 0;
    for (u32 i = 0; i + 1 < x->n; i++) { bitSum(s, x->args[i], (u128)1 << o, false); o += x->args[i]->w; }
    Expr* t = x->args[x->n - 1]; bitSum(s, flat(e->kind == K_SEXT ? mkSExt(t, w) : mkZExt(t, w), depth + 1), (u128)1 << o, false); return s.fuel ? fromSum(s) : e; }
  return e;
}
static std::unordered_map<Expr*, Expr*> flatMemo;
static Expr* flat(Expr* e, int depth) {
  if (e->w > 64 || depth > 400 || e->undef || e->n == 0) return e;
  auto it = flatMemo.find(e); if (it != flatMemo.end()) return it->second;
  Expr* r = flat0(e, depth); assert(r->w == e->w); flatMemo[e] = r; return r;
}
// a sum with arithmetic right shifts in it is zero exactly when a multiple of it is, provided that neither overflows; in the
// multiple, 2^t * (x >> t) is x - x mod 2^t
static bool unshift(BitSum& s) {
  auto shift = [](Expr* x, int bit) { return (bit == -2 || (bit == -1 && x->kind == K_EXTRACT && x->args[0]->w <= 64 && x->args[0]->smin >= 0)) && x->kind == K_EXTRACT && x->aux && x->args[0]->kind == K_LIN && x->args[0]->w <= 64 && (int)x->aux + x->w == x->args[0]->w ? (int)x->aux : 0; };
  int T = 0; i128 mn = sxt(s.c, s.w), mx = mn;
  for (auto& p : s.m) { Expr* x = p.second.first; int bit = p.first.second; i128 k = sxt(p.second.second, s.w), u, v; T = std::max(T, shift(x, bit));
    if (bit < 0 && x->w > 64) return false;
    if (mulOv(k, bit >= 0 ? 0 : bit == -1 ? (i128)x->umin : (i128)x->smin, &u) || mulOv(k, bit >= 0 ? 1 : bit == -1 ? (i128)x->umax : (i128)x->smax, &v)) return false;
    if (__builtin_add_overflow(mn, std::min(u, v), &mn) || __builtin_add_overflow(mx, std::max(u, v), &mx)) return false; }
  if (!T || T > 16) return false;
  i128 lim = (i128)1 << std::min(s.w, 126 - T); if (mn <= -lim || mx >= lim) return false;
  BitSum r; r.w = 128; r.c = (u128)sxt(s.c, s.w) << T;
  for (auto& p : s.m) { Expr* x = p.second.first; u128 k = (u128)sxt(p.second.second, s.w); int t = shift(x, p.first.second);
    if (!t) { bitAtom(r, x, p.first.second, k << T); continue; }
    Expr* l = x->args[0]; bitSum(r, flat(mkSExt(l, 64), 0), k << (T - t), true); bitSum(r, mkExtract(l, 0, t), (u128)0 - (k << (T - t)), false); }
  if (!r.fuel) return false;
  s = r; return true;
}
static Expr* flatDiff(Expr* a, Expr* b) { BitSum s; s.w = a->w; bitSum(s, flat(a, 0), 1, false); bitSum(s, flat(b, 0), (u128)-1, false); if (!s.fuel) return nullptr;
  for (int i = 0; i < 64 && !s.m.empty() && unshift(s); i++) ;
  return fromSum(s); }
static bool hasLin(Expr* e) { if (e->kind == K_LIN) return true; if (e->kind == K_SEXT) { Expr* x = e->args[0]; return x->kind == K_LIN || (x->kind == K_EXTRACT && x->args[0]->kind == K_LIN); } return false; }
static Expr* eq0(Expr* a, Expr* b) {
  assert(a->w == b->w); int w = a->w;
  if (a == b && !a->undef) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (w <= 64) { if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkConst(0, 1); }
  if (isC(b)) {
    if (a->kind == K_SEXT) { Expr* x = a->args[0]; u128 t = b->c & maskw(x->w); if ((u128)(sxt(t, x->w)) == (u128)sxt(b->c, w)) return mkEq(x, mkConst(t, x->w)); return mkConst(0, 1); }
    if (a->kind == K_XOR && a->c) { Expr* r = mkXor(a, mkConst(a->c, w)); return mkEq(r, mkConst(b->c ^ a->c, w)); }
    if (a->kind == K_ITE) {
      Expr *x = a->args[1], *y = a->args[2];
      if (isC(x) && isC(y)) { bool p = x->c == b->c, q = y->c == b->c; if (p && q) return mkConst(1, 1); if (p) return a->args[0]; if (q) return mkNot(a->args[0]); return mkConst(0, 1); }
      if (isC(x) || isC(y)) return mkIte(a->args[0], mkEq(x, b), mkEq(y, b));
    }
    if (a->kind == K_LIN && a->n == 1) {
      if (a->coef[0] & 1) { return mkEq(a->args[0], mkConst((b->c - a->c) * invOdd(a->coef[0]), w)); }
    } else if (a->kind == K_LIN && a->c) return mkEq(mkSub(a, mkConst(a->c, w)), mkConst(b->c - a->c, w));
  } else {
    for (int k = 0; k < 2; k++, std::swap(a, b)) if (a->kind == K_LIN) {
      int t = linTz(a), z = 0; while (z < t && isC(mkExtract(b, z, 1))) z++;
      if (t && z == t) { Expr* l = mkExtract(b, 0, t); if (isC(l)) { if (l->c) return mkConst(0, 1); return mkEq(mkExtract(a, t, w - t), mkExtract(b, t, w - t)); } }
    }
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->args[0]->w == b->args[0]->w) return mkEq(a->args[0], b->args[0]);
    if (a->kind == K_LIN || b->kind == K_LIN) {
      Expr* d = mkSub(a, b);
      if (isC(d)) return mkConst(d->c == 0, 1);
      if (d->kind == K_LIN && d->n == 1) return mkEq(d, mkConst(0, w));
    }
  }
  if (Expr* g = eqGf2(a, b)) return g;
  if (!isC(b) && w <= 64 && hasLin(a) && hasLin(b)) if (Expr* d = flatDiff(a, b)) { if (isC(d)) return mkConst(d->c == 0, 1); if (getenv("VFLAT")) fprintf(stderr, "FLAT %s\n", show(d, 9).c_str()); }
  bool ca = a->kind == K_CONCAT, cb = b->kind == K_CONCAT;
  if ((ca && (isC(b) || cb)) || ((ca || cb) && a->kind != K_LIN && b->kind != K_LIN && a->kind != K_MUL && b->kind != K_MUL && a->kind != K_TABLE && b->kind != K_TABLE && a->kind != K_ITE && b->kind != K_ITE)) {
    u128 cut = 0;
    for (Expr* e : {a, b}) if (e->kind == K_CONCAT) { int p = 0; for (u32 i = 0; i < e->n; i++) { p += e->args[i]->w; if (p < w) cut |= (u128)1 << p; } }
    Expr* r = mkConst(1, 1); int pos = 0;
    for (int i = 1; i <= w; i++) if (i == w || (cut >> i) & 1) {
      Expr* q = mkEq(mkExtract(a, pos, i - pos), mkExtract(b, pos, i - pos)); pos = i;
      if (isFalse(q)) return q;
      r = mkAnd(r, q);
    }
    return r;
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  Expr* args[2] = {a, b}; return node(K_EQ, 1, 0, 0, args, 2);
}
Expr* mkEq(Expr* a, Expr* b) { RwGuard g; return g.done(K_EQ, a, b, 0, 0, 0, eq0(a, b)); }
static int topZeros(Expr* e) {
  if (isC(e)) { int z = 0; while (z < e->w && !((e->c >> (e->w - 1 - z)) & 1)) z++; return z; }
  if (e->kind == K_CONCAT) { Expr* t = e->args[e->n - 1]; if (isC(t)) return topZeros(t); }
  return 0;
}
static Expr* ult0(Expr* a, Expr* b) {
  assert(a->w == b->w); int w = a->w;
  if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
  if (a == b && !a->undef) return mkConst(0, 1);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (w <= 64) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
  if (isC(b) && b->c == 0) return mkConst(0, 1);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
  if (isC(a) && a->c == maskw(w)) return mkConst(0, 1);
  int z = std::min(topZeros(a), topZeros(b));
  if (z > 0 && z < w) return mkUlt(mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
  if (isC(b) && a->kind == K_ITE && isC(a->args[1]) && isC(a->args[2])) return mkIte(a->args[0], mkUlt(a->args[1], b), mkUlt(a->args[2], b));
  if (isC(a) && b->kind == K_ITE && isC(b->args[1]) && isC(b->args[2])) return mkIte(b->args[0], mkUlt(a, b->args[1]), mkUlt(a, b->args[2]));
  if (isC(b) && !(b->c & (b->c - 1))) { // below a power of two: the bits from there on are zero; keep it when that is a single bit
    int k = 0; while (!((b->c >> k) & 1)) k++; Expr* h = mkExtract(a, k, w - k);
    if (h->w == 1) return mkNot(h);
    if (h->kind == K_CONCAT) { Expr* one = nullptr; int cnt = 0, at = 0, q = 0; bool zero = true; for (u32 i = 0; i < h->n; i++) { Expr* x = h->args[i]; if (isC(x)) { if (x->c) zero = false; } else { cnt++; one = x; at = q; } q += x->w; } if (zero && cnt == 1 && one->w == 1) { (void)at; return mkNot(one); } }
  }
  if (isC(b) && b->c == (u128)1 << (w - 1)) return mkNot(mkExtract(a, w - 1, 1));
  if (isC(a) && a->c == ((u128)1 << (w - 1)) - 1) return mkExtract(b, w - 1, 1);
  if (isC(b) && b->c && !(b->c & (b->c - 1)) && a->kind != K_LIN && a->kind != K_MUL) { int k = 0; while (!((b->c >> k) & 1)) k++; return mkEq(mkExtract(a, k, w - k), mkConst(0, w - k)); }
  if (isC(a) && !((a->c + 1) & a->c) && a->c != maskw(w) && b->kind != K_LIN && b->kind != K_MUL) { int k = 0; while ((a->c >> k) & 1) k++; return mkNot(mkEq(mkExtract(b, k, w - k), mkConst(0, w - k))); }
  if (a->kind == K_SEXT && b->kind == K_SEXT && a->args[0]->w == b->args[0]->w) return mkUlt(a->args[0], b->args[0]);
  // low const parts: (x ++ lowbits) < const with the same low boundary
  if (a->kind == K_CONCAT && isC(b)) { // drop low part when it cannot matter
    Expr* p0 = a->args[0]; int l = p0->w; u128 bl = b->c & maskw(l);
    if (bl == 0) return mkUlt(mkExtract(a, l, w - l), mkConst(b->c >> l, w - l));
  }
  if (b->kind == K_CONCAT && isC(a)) {
    Expr* p0 = b->args[0]; int l = p0->w; u128 al = a->c & maskw(l);
    if (al == maskw(l)) return mkUlt(mkConst(a->c >> l, w - l), mkExtract(b, l, w - l));
  }
  Expr* args[2] = {a, b}; return node(K_ULT, 1, 0, 0, args, 2);
}
Expr* mkUlt(Expr* a, Expr* b) { RwGuard g; return g.done(K_ULT, a, b, 0, 0, 0, ult0(a, b)); }
static Expr* slt0(Expr* a, Expr* b) {
  assert(a->w == b->w); int w = a->w;
  if (isC(a) && isC(b)) return mkConst(sxt(a->c, w) < sxt(b->c, w), 1);
  if (a == b && !a->undef) return mkConst(0, 1);
  if (w == 1) return mkAnd(a, mkNot(b));
  if (w <= 64) {
    if (a->smax < b->smin) return mkConst(1, 1); if (a->smin >= b->smax) return mkConst(0, 1);
    if (a->smin >= 0 && b->smin >= 0) return mkUlt(a, b);
  }
  if (isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  Expr *x = a->kind == K_SEXT ? a->args[0] : nullptr, *y = b->kind == K_SEXT ? b->args[0] : nullptr;
  if (x && y && x->w == y->w) return mkSlt(x, y);
  if (x && isC(b)) { u128 t = b->c & maskw(x->w); if (sxt(t, x->w) == sxt(b->c, w)) return mkSlt(x, mkConst(t, x->w)); }
  if (y && isC(a)) { u128 t = a->c & maskw(y->w); if (sxt(t, y->w) == sxt(a->c, w)) return mkSlt(mkConst(t, y->w), y); }
  Expr* args[2] = {a, b}; return node(K_SLT, 1, 0, 0, args, 2);
}
Expr* mkSlt(Expr* a, Expr* b) { RwGuard g; return g.done(K_SLT, a, b, 0, 0, 0, slt0(a, b)); }

static Expr* ite0(Expr* c, Expr* a, Expr* b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  int w = a->w;
  if (c->kind == K_XOR && c->c == 1) { return mkIte(mkNot(c), b, a); }
  if (w == 1) {
    if (isTrue(a)) return mkOr(c, b); if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a); if (isFalse(b)) return mkAnd(c, a);
    if (a == c) return mkOr(c, b); if (b == c) return mkAnd(c, a);
  } else {
    if (isC(a) && isC(b)) {
      if (a->c == maskw(w) && b->c == 0) return mkSExt(c, w);
      if (a->c == 0 && b->c == maskw(w)) return mkSExt(mkNot(c), w);
      if (b->c == 0 && a->c == 1) return mkZExt(c, w);
      if (a->c == 0 && b->c == 1) return mkZExt(mkNot(c), w);
      u128 d = a->c ^ b->c; int lo = 0; while (!((d >> lo) & 1)) lo++; int len = 0; while (lo + len < w && ((d >> (lo + len)) & 1)) len++;
      u128 run = maskw(len) << lo;
      if (d == run && ((a->c & run) == run || (b->c & run) == run)) { // the arms differ in one run of equal bits
        vector<Expr*> ps; if (lo) ps.push_back(mkConst(a->c & maskw(lo), lo));
        ps.push_back(mkSExt((a->c & run) == run ? c : mkNot(c), len));
        if (lo + len < w) ps.push_back(mkConst(a->c >> (lo + len), w - lo - len));
        return mkConcat(ps);
      }
    }
    if (a->kind == K_XOR && a->c == maskw(w) && a->n == 1 && a->args[0] == b) return mkXor(b, mkSExt(c, w));
    if (b->kind == K_XOR && b->c == maskw(w) && b->n == 1 && b->args[0] == a) return mkXor(a, mkSExt(mkNot(c), w));
    if ((a->kind == K_CONCAT || b->kind == K_CONCAT)) {
      // keep bit-slices visible when one arm is the complement of the other
      if (a == mkNot(b)) return mkXor(b, mkSExt(c, w));
    }
    if ((a->kind == K_XOR || a->kind == K_CONCAT) && (b->kind == K_XOR || b->kind == K_CONCAT) && !a->undef && !b->undef) { // arms that differ by a constant
      Expr* d = mkXor(a, b);
      if (isC(d)) return mkXor(b, mkAnd(mkSExt(c, w), d));
    }
    if (a->kind == K_ITE && a->args[0] == c) return mkIte(c, a->args[1], b);
    if (b->kind == K_ITE && b->args[0] == c) return mkIte(c, a, b->args[2]);
    // share equal high/low parts
    if (a->kind == K_CONCAT && (b->kind == K_CONCAT || isC(b)) || (b->kind == K_CONCAT && isC(a))) {
      Expr* ta = a->kind == K_CONCAT ? a->args[a->n - 1] : nullptr; Expr* tb = b->kind == K_CONCAT ? b->args[b->n - 1] : nullptr;
      int tw = ta && tb ? std::min(ta->w, tb->w) : ta ? ta->w : tb->w;
      if (tw < w) {
        Expr *ha = mkExtract(a, w - tw, tw), *hb = mkExtract(b, w - tw, tw);
        if (ha == hb) return mkConcat({mkIte(c, mkExtract(a, 0, w - tw), mkExtract(b, 0, w - tw)), ha});
      }
    }
  }
  Expr* args[3] = {c, a, b}; return node(K_ITE, w, 0, 0, args, 3);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) { RwGuard g; return g.done(K_ITE, c, a, b, 0, 0, ite0(c, a, b)); }

Expr* mkTable(Expr* idx, u32 tid) {
  TableInfo& t = g_tables[tid];
  if (isC(idx)) { assert(idx->c < t.v.size()); return mkConst(t.v[(size_t)idx->c], t.ew); }
  if (t.lo == t.hi) return mkConst(t.lo, t.ew);
  if (t.linear) {
    vector<Expr*> out; int nb = 0; while ((1u << nb) < t.v.size()) nb++;
    for (int o = 0; o < t.ew; o++) {
      Expr* r = mkConst((t.v[0] >> o) & 1, 1);
      for (int b = 0; b < nb; b++) if (((t.v[(size_t)1 << b] ^ t.v[0]) >> o) & 1) r = mkXor(r, mkExtract(idx, b, 1));
      out.push_back(r);
    }
    return mkConcat(out);
  }
  return node(K_TABLE, t.ew, tid, 0, &idx, 1);
}

// ---------------------------------------------------------------- evaluation
static u64 stampCtr = 1;
u64 freshStamp() { return ++stampCtr; }
u128 evalExpr(Expr* e, const Model& m, u64 st) {
  if (e->kind == K_CONST) return e->c;
  if (e->evalStamp == st) return e->evalVal;
  u128 r = 0; int w = e->w;
  switch (e->kind) {
    case K_VAR: r = e->aux < m.size() ? m[e->aux] : 0; r &= maskw(w); break;
    case K_UNDEF: r = 0; break;
    case K_LIN: r = e->c; for (u32 i = 0; i < e->n; i++) r += e->coef[i] * evalExpr(e->args[i], m, st); r &= maskw(w); break;
    case K_XOR: r = e->c; for (u32 i = 0; i < e->n; i++) r ^= evalExpr(e->args[i], m, st); break;
    case K_AND: r = maskw(w); for (u32 i = 0; i < e->n; i++) r &= evalExpr(e->args[i], m, st); break;
    case K_OR: for (u32 i = 0; i < e->n; i++) r |= evalExpr(e->args[i], m, st); break;
    case K_ITE: r = evalExpr(e->args[0], m, st) ? evalExpr(e->args[1], m, st) : evalExpr(e->args[2], m, st); break;
    case K_CONCAT: { int p = 0; for (u32 i = 0; i < e->n; i++) { r |= evalExpr(e->args[i], m, st) << p; p += e->args[i]->w; } break; }
    case K_EXTRACT: r = (evalExpr(e->args[0], m, st) >> e->aux) & maskw(w); break;
    case K_SEXT: r = (u128)sxt(evalExpr(e->args[0], m, st), e->args[0]->w) & maskw(w); break;
    case K_TABLE: { u128 i = evalExpr(e->args[0], m, st); TableInfo& t = g_tables[e->aux]; r = i < t.v.size() ? t.v[(size_t)i] : 0; break; }
    default: { u128 a = evalExpr(e->args[0], m, st), b = evalExpr(e->args[1], m, st); r = foldBin(e->kind, a, b, e->args[0]->w); break; }
  }
  e->evalStamp = st; e->evalVal = r; return r;
}
static u32 markCtr = 0;
void collectVars(Expr* e0, vector<u32>& out) {
  markCtr++;
  vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back(); st.pop_back();
    if (e->mark == markCtr) continue; e->mark = markCtr;
    if (e->kind == K_VAR) out.push_back(e->aux);
    else if (e->sv >= 0) { Expr* v = g_vars[e->sv].e; if (v->mark != markCtr) { v->mark = markCtr; out.push_back(e->sv); } }
    else for (u32 i = 0; i < e->n; i++) st.push_back(e->args[i]);
  }
}
std::string show(Expr* e, int d) {
  static const char* nm[] = {"const", "var", "undef", "lin", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "cat", "ext", "sext", "tab"};
  char b[64];
  if (isC(e)) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->kind == K_VAR) { return g_vars[e->aux].name; }
  if (d == 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string s = std::string("(") + nm[e->kind];
  if (e->kind == K_EXTRACT) { snprintf(b, 64, "[%u+%d]", e->aux, e->w); s += b; } else { snprintf(b, 64, ":%d", e->w); s += b; }
  for (u32 i = 0; i < e->n && i < 60; i++) { s += " "; if (e->coef) { snprintf(b, 64, "%lld*", (long long)sxt(e->coef[i], e->w)); s += b; } s += show(e->args[i], d - 1); }
  if ((e->kind == K_LIN || e->kind == K_XOR) && e->c) { snprintf(b, 64, " +%llx", (unsigned long long)e->c); s += b; }
  return s + ")";
}
