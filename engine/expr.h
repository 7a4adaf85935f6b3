// Hash-consed bit-vector expressions with a normalising constructor layer.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Kind : u8 {
  K_CONST, K_VAR, K_UNDEF, K_LIN, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE,
  K_CONCAT, K_EXTRACT, K_SEXT, K_TABLE
};

struct Expr {
  Kind kind; u8 undef; u8 w; u8 flag;
  u32 id; u32 n; u32 hash;
  int sv;            // -1: no variable, >=0: exactly that variable, -2: several
  u32 aux;           // EXTRACT: lo; TABLE: table id; VAR: var id
  u128 c;            // CONST value, LIN constant, XOR constant
  u64 umin, umax; i64 smin, smax; // valid for w<=64
  u64 evalStamp; u128 evalVal;
  void *zbv, *zbool; // cached solver terms
  u32 mark;
  u32 pad;
  Expr** args; u128* coef;
};

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, int w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct VarInfo { int w; std::string name; Expr* e; };
extern std::vector<VarInfo> g_vars;
struct TableInfo { std::vector<u64> v; int ew; bool linear; u64 lo, hi; };
extern std::vector<TableInfo> g_tables;
extern u64 g_nodes;

Expr* mkConst(u128 v, int w);
bool sbounds(Expr* e, i128& lo, i128& hi, int depth = 0);
Expr* mkVar(u32 varId);               // id into g_vars
u32 newVar(int w, const std::string& name);
Expr* mkUndef(int w);
Expr* mkAdd(Expr* a, Expr* b);
Expr* mkSub(Expr* a, Expr* b);
Expr* mkMul(Expr* a, Expr* b);
Expr* mkUDiv(Expr* a, Expr* b);
Expr* mkSDiv(Expr* a, Expr* b);
Expr* mkURem(Expr* a, Expr* b);
Expr* mkSRem(Expr* a, Expr* b);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
Expr* mkXor(Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkShl(Expr* a, Expr* b);
Expr* mkLShr(Expr* a, Expr* b);
Expr* mkAShr(Expr* a, Expr* b);
Expr* mkShlC(Expr* a, int k);
Expr* mkLShrC(Expr* a, int k);
Expr* mkAShrC(Expr* a, int k);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(const std::vector<Expr*>& lsbFirst);
Expr* mkExtract(Expr* e, int lo, int w);
Expr* mkZExt(Expr* e, int w);
Expr* mkSExt(Expr* e, int w);
Expr* mkTable(Expr* idx, u32 tableId);
u32 internTable(const std::vector<u64>& v, int ew);

static inline bool isC(const Expr* e) { return e->kind == K_CONST; }
static inline bool isTrue(const Expr* e) { return e->kind == K_CONST && e->c == 1; }
static inline bool isFalse(const Expr* e) { return e->kind == K_CONST && e->c == 0; }

typedef std::vector<u64> Model;       // by var id; missing = 0
u128 possibleBits(Expr* e);
int gf2Solve(const std::vector<Expr*>& cs, Model& m, std::vector<Expr*>& simplified);
u128 evalExpr(Expr* e, const Model& m, u64 stamp);
u64 freshStamp();
u128 foldBin(Kind k, u128 a, u128 b, int w);
void collectVars(Expr* e, std::vector<u32>& out);   // distinct var ids, unsorted
std::string show(Expr* e, int depth = 6);

// Rewriter self-check: every RW_SAMPLE-th construction is kept as (unsimplified op, operands, result).
struct RwRec { Kind k; Expr* a; Expr* b; Expr* c; int p, q; Expr* r; };
extern std::vector<RwRec> g_rw; extern u32 g_rwEvery;
