// Loader for textual LLVM IR (lazy function decoding).
#pragma once
#include "expr.h"
#include <string_view>
#include <memory>

struct Type {
  enum T { VOID, INT, PTR, ARR, STRUCT, FLOAT, VEC, OTHER } t = VOID;
  int bits = 0; u64 n = 0; std::shared_ptr<Type> el; std::vector<Type> fs; bool packed = false;
};
u64 tySize(const Type& t);   // alloc size
u64 tyAlign(const Type& t);
u64 fieldOff(const Type& t, u64 i);
struct Leaf { u64 off; int w; };
void tyLeaves(const Type& t, u64 base, std::vector<Leaf>& out);
int tySlots(const Type& t);

struct V { Expr* e; u64 c; };
struct Opnd { int slot; int w; V v; };  // slot<0: constant v

enum Op : u8 { OP_BIN, OP_ICMP, OP_LOAD, OP_STORE, OP_GEP, OP_CALL, OP_BR, OP_CBR, OP_SWITCH, OP_RET, OP_SELECT,
  OP_ZEXT, OP_SEXT, OP_TRUNC, OP_MOV, OP_ALLOCA, OP_UNREACHABLE, OP_RMW, OP_CMPXCHG, OP_NOP, OP_UNSUP };
enum Pred : u8 { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum BinOp : u8 { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR, B_XCHG, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_NAND };

struct Move { int dst; Opnd src; };
struct Edge { int block = -1; std::vector<Move> moves; };
struct Func;
struct Inst {
  Op op; u8 sub = 0; int w = 0; int dst = -1;
  std::vector<Opnd> o;
  std::vector<Leaf> leaves;          // load/store
  i64 goff = 0; std::vector<i64> scale;  // gep: o[0] base, o[1..] indices
  std::vector<Edge> edges; std::vector<u128> cases; // switch: edges[0]=default
  Func* callee = nullptr; int builtin = 0; int nret = 0;
  std::string text; u32 dbg = 0;
};
struct Block { int first, last; };
struct Func {
  std::string name; bool defined = false, decoded = false; std::string_view body; std::string_view header;
  int id = 0; int nslots = 0; std::vector<int> paramSlot; std::vector<int> paramSlots;
  std::vector<Inst> code; std::vector<int> blockStart; std::vector<std::string> blockName;
  std::vector<u8> blockHit; bool isPanic = false; int builtin = -1; u64 calls = 0; bool ours = false;
  std::vector<Leaf> retLeaves;
};
struct Global {
  std::string name; bool isConst = false, ext = false, inited = false; std::string_view init; Type ty; u64 addr = 0; u64 size = 0;
  std::vector<u8> data; std::vector<u8> st; // st 0 uninit 1 concrete
};
extern std::vector<Global*> g_globals;   // id = index+1
extern std::vector<Func*> g_funcs;
Func* findFunc(const std::string& name);
void loadModule(const std::string& path);
void decodeFunc(Func* f);
void initGlobal(Global* g);
// source positions behind a debug location: (file, line, function) of every inlining level
struct SrcPos { const std::string* file; int line; const std::string* fn; };
void dbgChain(u32 id, std::vector<SrcPos>& out);
const u64 GLOBAL0 = 1, FUNC0 = 0x200000, HEAP0 = 0x1000000, STACK0 = 0x20000000;
static inline V mkV(u64 c) { return V{nullptr, c}; }
int lookupBuiltin(const std::string& name); // implemented by the executor
