#include "ll.h"
#include <fstream>
#include <sstream>
using std::string; using std::string_view; using std::vector;

vector<Global*> g_globals; vector<Func*> g_funcs;
static std::unordered_map<string, Func*> funcTab; static std::unordered_map<string, Global*> globTab;
static std::unordered_map<string, string_view> typeTab; static std::unordered_map<string, string_view> aliasTab;
static string fileText;

u64 tyAlign(const Type& t) {
  switch (t.t) {
    case Type::INT: return t.bits <= 8 ? 1 : t.bits <= 16 ? 2 : t.bits <= 32 ? 4 : t.bits <= 64 ? 8 : 16;
    case Type::PTR: return 8; case Type::FLOAT: return t.bits / 8;
    case Type::ARR: return tyAlign(*t.el); case Type::VEC: return tySize(t);
    case Type::STRUCT: { u64 a = 1; if (!t.packed) for (auto& f : t.fs) a = std::max(a, tyAlign(f)); return a; }
    default: return 1;
  }
}
u64 tySize(const Type& t) {
  switch (t.t) {
    case Type::INT: { u64 b = (t.bits + 7) / 8; u64 a = tyAlign(t); return (b + a - 1) / a * a; }
    case Type::PTR: return 8; case Type::FLOAT: return t.bits / 8;
    case Type::ARR: return t.n * tySize(*t.el); case Type::VEC: return t.n * tySize(*t.el);
    case Type::STRUCT: { u64 o = 0; for (auto& f : t.fs) { u64 a = t.packed ? 1 : tyAlign(f); o = (o + a - 1) / a * a; o += tySize(f); } u64 a = tyAlign(t); return (o + a - 1) / a * a; }
    default: return 0;
  }
}
u64 fieldOff(const Type& t, u64 i) {
  u64 o = 0; for (u64 k = 0; k < t.fs.size(); k++) { u64 a = t.packed ? 1 : tyAlign(t.fs[k]); o = (o + a - 1) / a * a; if (k == i) return o; o += tySize(t.fs[k]); } return o;
}
void tyLeaves(const Type& t, u64 base, vector<Leaf>& out) {
  switch (t.t) {
    case Type::INT: out.push_back({base, t.bits}); break;
    case Type::PTR: out.push_back({base, 64}); break;
    case Type::FLOAT: out.push_back({base, t.bits}); break;
    case Type::ARR: case Type::VEC: { u64 s = tySize(*t.el); for (u64 i = 0; i < t.n; i++) tyLeaves(*t.el, base + i * s, out); break; }
    case Type::STRUCT: for (u64 i = 0; i < t.fs.size(); i++) tyLeaves(t.fs[i], base + fieldOff(t, i), out); break;
    default: break;
  }
}
int tySlots(const Type& t) { vector<Leaf> l; tyLeaves(t, 0, l); return l.size(); }

struct ParseErr { string msg; };
struct Cur {
  const char *p, *e;
  Cur(string_view s) : p(s.data()), e(s.data() + s.size()) {}
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
  bool eof() { ws(); return p >= e; }
  char peek() { ws(); return p < e ? *p : 0; }
  bool is(char c) { if (peek() == c) { p++; return true; } return false; }
  void need(char c) { if (!is(c)) throw ParseErr{string("expected ") + c + " at: " + string(p, std::min<size_t>(60, e - p))}; }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  string_view word() { ws(); const char* s = p; while (p < e && idc(*p)) p++; return string_view(s, p - s); }
  string_view peekWord() { const char* s = p; auto w = word(); p = s; return w; }
  bool kw(const char* k) { ws(); size_t n = strlen(k); if ((size_t)(e - p) >= n && !memcmp(p, k, n) && (p + n == e || !idc(p[n]))) { p += n; return true; } return false; }
  void balanced() { // at '('
    ws(); int d = 0; do { if (*p == '(') d++; else if (*p == ')') d--; else if (*p == '"') { p++; while (*p != '"') p++; } p++; } while (d > 0 && p < e);
  }
  string name() { // after % or @
    if (p < e && *p == '"') { const char* s = ++p; while (*p != '"') p++; string r(s, p - s); p++; return r; }
    const char* s = p; while (p < e && idc(*p)) p++; return string(s, p - s);
  }
};

static bool typeStart(Cur& c) {
  char ch = c.peek();
  if (ch == '{' || ch == '[' || ch == '<' || ch == '%') return true;
  if (ch == 'i' && c.p + 1 < c.e && isdigit((unsigned char)c.p[1])) return true;
  auto w = c.peekWord();
  return w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "fp128" || w == "x86_fp80" || w == "metadata" || w == "label" || w == "token" || w == "bfloat";
}
static Type parseType(Cur& c) {
  Type t; char ch = c.peek();
  if (ch == 'i' && isdigit((unsigned char)c.p[1])) { c.p++; t.t = Type::INT; t.bits = 0; while (c.p < c.e && isdigit((unsigned char)*c.p)) t.bits = t.bits * 10 + (*c.p++ - '0'); return t; }
  if (ch == '{') { c.p++; t.t = Type::STRUCT; if (!c.is('}')) { do t.fs.push_back(parseType(c)); while (c.is(',')); c.need('}'); } return t; }
  if (ch == '[') { c.p++; t.t = Type::ARR; auto w = c.word(); t.n = strtoull(string(w).c_str(), 0, 10); c.kw("x"); t.el = std::make_shared<Type>(parseType(c)); c.need(']'); return t; }
  if (ch == '<') {
    c.p++;
    if (c.peek() == '{') { t = parseType(c); t.packed = true; c.need('>'); return t; }
    t.t = Type::VEC; auto w = c.word(); t.n = strtoull(string(w).c_str(), 0, 10); c.kw("x"); t.el = std::make_shared<Type>(parseType(c)); c.need('>'); return t;
  }
  if (ch == '%') { c.p++; string n = c.name(); auto it = typeTab.find(n); if (it == typeTab.end()) throw ParseErr{"unknown type " + n}; Cur d(it->second); return parseType(d); }
  auto w = c.word();
  if (w == "ptr") { t.t = Type::PTR; if (c.kw("addrspace")) c.balanced(); return t; }
  if (w == "void") return t;
  if (w == "float") { t.t = Type::FLOAT; t.bits = 32; return t; }
  if (w == "double") { t.t = Type::FLOAT; t.bits = 64; return t; }
  if (w == "half" || w == "bfloat") { t.t = Type::FLOAT; t.bits = 16; return t; }
  if (w == "fp128") { t.t = Type::FLOAT; t.bits = 128; return t; }
  if (w == "metadata" || w == "label" || w == "token") { t.t = Type::OTHER; return t; }
  throw ParseErr{"bad type: " + string(w) + " near " + string(c.p, std::min<size_t>(40, c.e - c.p))};
}
static bool valueStart(Cur& c) {
  char ch = c.peek();
  if (ch == '%' || ch == '@' || ch == '-' || isdigit((unsigned char)ch) || ch == '{' || ch == '[' || ch == '<' || ch == '!') return true;
  if (ch == 'c' && c.p[1] == '"') return true;
  auto w = c.peekWord();
  static const char* ks[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "sub", "add", "xor", "trunc", "none", "asm", "ptrtoaddr", "splat"};
  for (auto k : ks) if (w == k) return true;
  return false;
}
static void skipAttrs(Cur& c) { // parameter attributes between type and value
  while (!valueStart(c)) {
    char ch = c.peek();
    if (ch == 0 || ch == ',' || ch == ')') return;
    if (ch == '#') { c.p++; c.word(); continue; }
    if (ch == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (c.is('=')) { c.need('"'); while (*c.p != '"') c.p++; c.p++; } continue; }
    auto w = c.word(); if (w.empty()) return;
    if (c.peek() == '(') c.balanced();
    else if (w == "align") c.word();
  }
}

Func* findFunc(const string& n) { auto it = funcTab.find(n); if (it != funcTab.end()) return it->second;
  auto al = aliasTab.find(n); if (al != aliasTab.end()) { Cur c(al->second); skipAttrs(c); while (c.peek() != '@' && !c.eof()) c.p++; if (c.is('@')) return findFunc(c.name()); }
  return nullptr; }
static Func* getFunc(const string& n) {
  Func* f = findFunc(n); if (f) return f;
  f = new Func; f->name = n; f->id = g_funcs.size(); g_funcs.push_back(f); funcTab[n] = f; return f;
}
static u64 symAddr(const string& n) {
  auto it = globTab.find(n); if (it != globTab.end()) return it->second->addr;
  Func* f = getFunc(n); return (FUNC0 + f->id) << 32;
}

// constant value of scalar type
static void parseConstLeaves(Cur& c, const Type& t, vector<V>& out, vector<int>& ws, vector<u8>& st);
static V constScalar(Cur& c, const Type& t, bool* undef = nullptr) {
  int w = t.t == Type::PTR ? 64 : t.bits;
  if (undef) *undef = false;
  char ch = c.peek();
  if (ch == '@') { c.p++; return mkV(symAddr(c.name())); }
  if (ch == '-' || isdigit((unsigned char)ch)) {
    if (t.t == Type::FLOAT) { const char* s = c.p; while (c.p < c.e && (Cur::idc(*c.p) || *c.p == '+')) c.p++; string x(s, c.p - s); if (x.substr(0, 2) == "0x") return mkV(strtoull(x.c_str(), 0, 16)); double d = atof(x.c_str()); u64 u; memcpy(&u, &d, 8); return mkV(u); }
    bool neg = false; if (*c.p == '-') { neg = true; c.p++; }
    u128 v = 0; while (c.p < c.e && isdigit((unsigned char)*c.p)) v = v * 10 + (*c.p++ - '0');
    if (neg) v = (u128)0 - v; v &= maskw(w);
    if (w > 64) return V{mkConst(v, w), 0};
    return mkV((u64)v);
  }
  auto kwd = c.word();
  if (kwd == "true") return mkV(1); if (kwd == "false" || kwd == "null") return mkV(0); if (kwd == "zeroinitializer") { if (w > 64) return V{mkConst(0, w), 0}; return mkV(0); }
  if (kwd == "undef" || kwd == "poison") { if (undef) *undef = true; return V{mkUndef(w), 0}; }
  if (kwd == "getelementptr") {
    while (!c.is('(')) { auto w2 = c.word(); if (w2.empty()) throw ParseErr{"gep"}; if (w2 == "inrange") { c.balanced(); } }
    Type st = parseType(c); c.need(','); Type pt = parseType(c); u64 b = constScalar(c, pt).c; Type cur = st; bool first = true;
    while (c.is(',')) { Type it = parseType(c); i64 ix = (i64)sxt(constScalar(c, it).c, it.bits);
      if (first) { b += ix * (i64)tySize(cur); first = false; }
      else if (cur.t == Type::STRUCT) { b += fieldOff(cur, ix); cur = Type(cur.fs[ix]); }
      else { Type e = *cur.el; b += ix * (i64)tySize(e); cur = e; } }
    c.need(')'); return mkV(b);
  }
  if (kwd == "ptrtoint" || kwd == "inttoptr" || kwd == "bitcast" || kwd == "trunc" || kwd == "ptrtoaddr") {
    c.need('('); Type ft = parseType(c); V v = constScalar(c, ft); c.kw("to"); Type tt = parseType(c); c.need(')');
    int tw = tt.t == Type::PTR ? 64 : tt.bits; if (!v.e) v.c &= (u64)maskw(tw); return v;
  }
  if (kwd == "sub" || kwd == "add" || kwd == "xor") {
    while (c.peekWord() == "nuw" || c.peekWord() == "nsw") c.word();
    c.need('('); Type a = parseType(c); u64 x = constScalar(c, a).c; c.need(','); Type b = parseType(c); u64 y = constScalar(c, b).c; c.need(')');
    return mkV((kwd == "sub" ? x - y : kwd == "add" ? x + y : x ^ y) & (u64)maskw(w));
  }
  throw ParseErr{"const? " + string(kwd) + " near " + string(c.p, std::min<size_t>(40, c.e - c.p))};
}
static void zeroLeaves(const Type& t, vector<V>& out, bool undef) { vector<Leaf> l; tyLeaves(t, 0, l); for (auto& x : l) out.push_back(undef ? V{mkUndef(x.w), 0} : x.w > 64 ? V{mkConst(0, x.w), 0} : mkV(0)); }
// flattened constant
static void constFlat(Cur& c, const Type& t, vector<V>& out) {
  if (t.t == Type::INT || t.t == Type::PTR || t.t == Type::FLOAT) { out.push_back(constScalar(c, t)); return; }
  char ch = c.peek();
  if (c.kw("zeroinitializer")) { zeroLeaves(t, out, false); return; }
  if (c.kw("undef") || c.kw("poison")) { zeroLeaves(t, out, true); return; }
  if (ch == 'c' && c.p[1] == '"') {
    c.p += 2; u64 n = 0;
    auto hx = [](char h) { return isdigit((unsigned char)h) ? h - '0' : toupper(h) - 'A' + 10; };
    while (*c.p != '"') { u8 b; if (*c.p == '\\') { if (c.p[1] == '\\') { b = '\\'; c.p += 2; } else { b = hx(c.p[1]) * 16 + hx(c.p[2]); c.p += 3; } } else b = *c.p++; out.push_back(mkV(b)); n++; }
    c.p++; if (n != t.n) throw ParseErr{"string length"}; return;
  }
  if (t.t == Type::VEC && c.kw("splat")) { c.need('('); Type et = parseType(c); V v = constScalar(c, et); c.need(')'); for (u64 i = 0; i < t.n; i++) out.push_back(v); return; }
  char close;
  bool ang = false;
  if (ch == '<') { c.p++; if (t.t == Type::STRUCT) { c.need('{'); ang = true; close = '}'; } else close = '>'; }
  else if (ch == '{') { c.p++; close = '}'; } else if (ch == '[') { c.p++; close = ']'; }
  else throw ParseErr{"aggregate const near " + string(c.p, std::min<size_t>(40, c.e - c.p))};
  if (c.peek() != close) do { Type et = parseType(c); constFlat(c, et, out); } while (c.is(','));
  c.need(close); if (ang) c.need('>');
}

void initGlobal(Global* g) {
  if (g->inited) return; g->inited = true;
  g->data.assign(g->size ? g->size : 1, 0); g->st.assign(g->size ? g->size : 1, 1);
  if (g->ext) return;
  Cur c(g->init); vector<V> vs; vector<Leaf> ls;
  constFlat(c, g->ty, vs); tyLeaves(g->ty, 0, ls);
  if (vs.size() != ls.size()) throw ParseErr{"global leaves " + g->name};
  for (size_t i = 0; i < vs.size(); i++) {
    u64 n = (ls[i].w + 7) / 8;
    if (vs[i].e && vs[i].e->kind == K_UNDEF) { memset(&g->st[ls[i].off], 0, n); continue; }
    u128 v = vs[i].e ? vs[i].e->c : vs[i].c;
    for (u64 k = 0; k < n; k++) g->data[ls[i].off + k] = (u8)(v >> (8 * k));
  }
}

static vector<string_view> mdTab;
static u32 mdRef(string_view l, const char* key) { size_t k = l.find(key); if (k == string_view::npos) return 0; return strtoul(l.data() + k + strlen(key), 0, 10); }
static string mdStr(string_view l, const char* key) { size_t k = l.find(key); if (k == string_view::npos) return ""; k += strlen(key); size_t e = l.find('"', k); return string(l.substr(k, e - k)); }
static std::unordered_map<u32, std::pair<string, string>> mdScope;
static const std::pair<string, string>& scopeOf(u32 id) {
  auto it = mdScope.find(id); if (it != mdScope.end()) return it->second;
  u32 q = id; string fn; string_view l;
  for (int k = 0; k < 64 && q && q < mdTab.size(); k++) { l = mdTab[q]; if (l.find("!DISubprogram(") != string_view::npos) break; q = mdRef(l, "scope: !"); }
  if (l.find("!DISubprogram(") != string_view::npos) { fn = mdStr(l, "linkageName: \""); if (fn.empty()) fn = mdStr(l, "name: \""); }
  u32 fi = mdRef(q < mdTab.size() ? mdTab[q] : l, "file: !"); string file;
  if (fi && fi < mdTab.size()) { file = mdStr(mdTab[fi], "filename: \""); string d = mdStr(mdTab[fi], "directory: \""); if (!file.empty() && file[0] != '/') file = d + "/" + file; }
  return mdScope[id] = {file, fn};
}
void dbgChain(u32 id, std::vector<SrcPos>& out) {
  for (int k = 0; k < 64 && id && id < mdTab.size(); k++) { string_view l = mdTab[id]; if (l.find("!DILocation(") == string_view::npos) return; int line = mdRef(l, "line: "); auto& sc = scopeOf(mdRef(l, "scope: !")); out.push_back({&sc.first, line, &sc.second}); id = mdRef(l, "inlinedAt: !"); }
}
void loadModule(const string& path) {
  { std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); fileText = ss.str(); }
  if (fileText.empty()) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
  const char *p = fileText.data(), *end = p + fileText.size();
  vector<std::pair<Global*, string_view>> gl;
  while (p < end) {
    const char* nl = (const char*)memchr(p, '\n', end - p); if (!nl) nl = end;
    string_view line(p, nl - p); const char* next = nl + 1;
    if (line.substr(0, 7) == "define ") {
      const char* q = nl + 1;
      while (q < end) { const char* l = (const char*)memchr(q, '\n', end - q); if (!l) l = end; if (l - q == 1 && *q == '}') break; q = l + 1; }
      size_t at = line.find(" @"); Cur c(line.substr(at + 2)); string n = c.name();
      Func* f = getFunc(n); f->defined = true; f->header = line; f->body = string_view(nl + 1, q - nl - 1);
      next = q + 2;
    } else if (line.substr(0, 8) == "declare ") {
      size_t at = line.find(" @"); Cur c(line.substr(at + 2)); string n = c.name(); Func* f = getFunc(n); f->header = line;
    } else if (!line.empty() && line[0] == '@') {
      Cur c(line.substr(1)); string n = c.name(); c.need('=');
      string_view rest(c.p, c.e - c.p);
      if (rest.find(" alias ") < 60) { size_t a = rest.find(" alias "); string_view r2 = rest.substr(a + 7); aliasTab[n] = r2; }
      else { Global* g = new Global; g->name = n; g_globals.push_back(g); g->addr = (GLOBAL0 + g_globals.size() - 1) << 32; globTab[n] = g; gl.push_back({g, rest}); }
    } else if (line.size() > 2 && line[0] == '!' && isdigit((unsigned char)line[1])) {
      u32 id = strtoul(line.data() + 1, 0, 10); if (mdTab.size() <= id) mdTab.resize(id + 1000); mdTab[id] = line;
    } else if (!line.empty() && line[0] == '%') {
      Cur c(line.substr(1)); string n = c.name(); c.need('='); c.kw("type"); c.ws(); typeTab[n] = string_view(c.p, c.e - c.p);
    }
    p = next;
  }
  for (auto& pr : gl) {
    Global* g = pr.first; Cur c(pr.second);
    while (true) { // linkage words until constant/global
      if (c.peek() == '(') { c.balanced(); continue; }
      auto w = c.word();
      if (w == "external" || w == "extern_weak") g->ext = true;
      if (w == "constant") { g->isConst = true; break; }
      if (w == "global") break;
      if (w.empty()) { fprintf(stderr, "global parse: %s\n", g->name.c_str()); exit(3); }
    }
    g->ty = parseType(c); g->size = tySize(g->ty); c.ws(); g->init = string_view(c.p, c.e - c.p);
    if (g->init.empty()) g->ext = true;
  }
  for (Func* f : g_funcs) {
    const string& n = f->name;
    f->isPanic = n.find("9panicking") != string::npos || n.find("18handle_alloc_error") != string::npos || n.find("15rust_begin_unwind") != string::npos;
    f->ours = n.find("6claxon") != string::npos;
  }
}

// ---------------------------------------------------------------- function decoding
struct Dec {
  Func* f; std::unordered_map<string, int> slots; std::unordered_map<string, Type> types; std::unordered_map<string, int> labels;
  int nslots = 0;
  int def(const string& n, const Type& t) { int s = nslots; nslots += tySlots(t); slots[n] = s; types[n] = t; return s; }
  void opFlat(Cur& c, const Type& t, vector<Opnd>& out) {
    c.ws();
    if (*c.p == '%') {
      c.p++; string n = c.name(); auto it = slots.find(n); if (it == slots.end()) throw ParseErr{"undefined value %" + n};
      vector<Leaf> l; tyLeaves(t, 0, l); for (size_t i = 0; i < l.size(); i++) out.push_back({it->second + (int)i, l[i].w, {nullptr, 0}});
      return;
    }
    vector<V> vs; constFlat(c, t, vs); vector<Leaf> l; tyLeaves(t, 0, l);
    for (size_t i = 0; i < vs.size(); i++) out.push_back({-1, l[i].w, vs[i]});
  }
  Opnd op1(Cur& c, const Type& t) { vector<Opnd> v; opFlat(c, t, v); if (v.size() != 1) throw ParseErr{"scalar expected"}; return v[0]; }
};
static bool isVecy(const Type& t) { if (t.t == Type::VEC || t.t == Type::FLOAT) return true; if (t.t == Type::ARR) return isVecy(*t.el); for (auto& x : t.fs) if (isVecy(x)) return true; return false; }

// result type of an instruction (first pass)
static Type resultType(Cur c, Dec& d) {
  auto w = c.word(); string op(w);
  if (op == "tail" || op == "musttail" || op == "notail") { op = string(c.word()); }
  auto flags = [&]() { while (true) { auto k = c.peekWord(); if (k == "nuw" || k == "nsw" || k == "exact" || k == "disjoint" || k == "nneg" || k == "inbounds" || k == "nusw" || k == "samesign" || k == "volatile" || k == "atomic" || k == "weak" || k == "fast" || k == "nnan" || k == "ninf" || k == "nsz") { c.word(); continue; } if (k == "inrange") { c.word(); c.balanced(); continue; } break; } };
  flags();
  Type p; p.t = Type::PTR; Type b; b.t = Type::INT; b.bits = 1;
  if (op == "getelementptr" || op == "alloca") return p;
  if (op == "icmp" || op == "fcmp") { c.word(); flags(); Type t = parseType(c); if (t.t == Type::VEC) { Type v = t; v.el = std::make_shared<Type>(b); return v; } return b; }
  if (op == "load") return parseType(c);
  if (op == "call") { while (!typeStart(c)) { auto k = c.word(); if (k.empty()) { if (c.peek() == '(') c.balanced(); else throw ParseErr{"call ty"}; continue; } if (c.peek() == '(') c.balanced(); else if (k == "align") c.word(); } return parseType(c); }
  if (op == "trunc" || op == "zext" || op == "sext" || op == "bitcast" || op == "inttoptr" || op == "ptrtoint" || op == "ptrtoaddr" || op == "fptrunc" || op == "fpext" || op == "fptoui" || op == "fptosi" || op == "uitofp" || op == "sitofp" || op == "addrspacecast") {
    // find " to "
    string_view r(c.p, c.e - c.p); size_t k = r.rfind(" to "); Cur e(r.substr(k + 4)); return parseType(e);
  }
  if (op == "select") { parseType(c); // cond
    // skip cond value
    int depth = 0; while (c.p < c.e) { if (*c.p == '(' || *c.p == '{' || *c.p == '<' || *c.p == '[') depth++; if (*c.p == ')' || *c.p == '}' || *c.p == '>' || *c.p == ']') depth--; if (*c.p == ',' && depth == 0) break; c.p++; } c.need(','); return parseType(c); }
  if (op == "extractvalue") { Type t = parseType(c); // skip value
    c.ws(); if (*c.p == '%') { c.p++; c.name(); } else { vector<V> tmp; constFlat(c, t, tmp); }
    while (c.is(',')) { auto x = c.word(); if (x.empty() ) break; u64 i = strtoull(string(x).c_str(), 0, 10); if (!isdigit((unsigned char)x[0])) break; if (t.t == Type::STRUCT) t = Type(t.fs[i]); else { Type e = *t.el; t = e; } }
    return t; }
  if (op == "cmpxchg") { parseType(c); skipAttrs(c); // ptr
    c.ws(); if (*c.p == '%' || *c.p == '@') { c.p++; c.name(); } else { Type pt; pt.t = Type::PTR; constScalar(c, pt); } c.need(','); Type t = parseType(c); Type s; s.t = Type::STRUCT; s.fs = {t, b}; return s; }
  if (op == "atomicrmw") { c.word(); parseType(c); c.ws(); if (*c.p == '%' || *c.p == '@') { c.p++; c.name(); } else { Type pt; pt.t = Type::PTR; constScalar(c, pt); } c.need(','); return parseType(c); }
  if (op == "landingpad") return parseType(c);
  if (op == "va_arg" || op == "extractelement" || op == "insertelement" || op == "shufflevector") { Type t = parseType(c); if (op == "extractelement") return *t.el; return t; }
  // phi, binops, freeze, insertvalue, fneg
  return parseType(c);
}

void decodeFunc(Func* f) {
  if (f->decoded) return; f->decoded = true;
  Dec d; d.f = f;
  // header params
  { Cur c(f->header); c.kw("define");
    while (true) { if (typeStart(c)) { const char* s = c.p; Type t = parseType(c); tyLeaves(t, 0, f->retLeaves); (void)s; skipAttrs(c); if (c.peek() == '@') break; throw ParseErr{"define: " + f->name}; } auto w = c.word(); if (c.peek() == '(') c.balanced(); else if (w == "align") c.word(); }
    c.need('@'); c.name(); c.need('('); int idx = 0;
    if (!c.is(')')) { do { if (c.peek() == '.') break; Type t = parseType(c); skipAttrs(c); string n; if (c.peek() == '%') { c.p++; n = c.name(); } else n = std::to_string(idx); f->paramSlot.push_back(d.nslots); f->paramSlots.push_back(tySlots(t)); d.def(n, t); idx++; } while (c.is(',')); }
  }
  // split lines into logical instructions
  struct L { string_view text; int block; };
  vector<L> lines; int cb = -1;
  const char *p = f->body.data(), *end = p + f->body.size();
  while (p < end) {
    const char* nl = (const char*)memchr(p, '\n', end - p); if (!nl) nl = end;
    string_view ln(p, nl - p); p = nl + 1;
    if (ln.empty() || ln[0] == ';') continue;
    if (ln[0] != ' ') { // label
      Cur c(ln); string n; if (*c.p == '"') { n = c.name(); } else { n = c.name(); }
      cb = f->blockName.size(); d.labels[n] = cb; f->blockName.push_back(n); continue;
    }
    if (cb < 0) { cb = 0; d.labels["0"] = 0; f->blockName.push_back("0"); }
    Cur t(ln); t.ws();
    if (t.p[0] == '#') continue; // debug record
    if (ln.find("switch ") != string_view::npos && ln.back() == '[') {
      const char* s = ln.data(); while (true) { const char* l2 = (const char*)memchr(p, '\n', end - p); string_view x(p, l2 - p); p = l2 + 1; size_t k = x.find_first_not_of(' '); if (k != string_view::npos && x[k] == ']') { ln = string_view(s, l2 - s); break; } }
    }
    lines.push_back({ln, cb});
  }
  // pass 1: results
  for (auto& l : lines) {
    Cur c(l.text); c.ws();
    if (*c.p == '%') { c.p++; string n = c.name(); c.need('='); Type t = resultType(c, d); d.def(n, t); }
  }
  // pass 2
  f->blockStart.assign(f->blockName.size(), 0); f->blockHit.assign(f->blockName.size(), 0);
  struct Phi { int dst; Type t; vector<std::pair<int, vector<Opnd>>> in; };
  vector<vector<Phi>> phis(f->blockName.size());
  int curB = -1;
  auto label = [&](Cur& c) { if (!c.kw("label")) throw ParseErr{"label"}; c.need('%'); string n = c.name(); auto it = d.labels.find(n); if (it == d.labels.end()) throw ParseErr{"no label " + n}; return it->second; };
  for (auto& l : lines) {
    if (l.block != curB) { curB = l.block; f->blockStart[curB] = f->code.size(); }
    Inst in; in.op = OP_UNSUP; bool emit = true;
    try {
      Cur c(l.text); c.ws(); int dst = -1; Type rt;
      if (*c.p == '%') { c.p++; string n = c.name(); c.need('='); dst = d.slots[n]; rt = d.types[n]; }
      in.dst = dst;
      string op(c.word());
      if (op == "tail" || op == "musttail" || op == "notail") op = string(c.word());
      auto flags = [&]() { while (true) { auto k = c.peekWord(); if (k == "nuw" || k == "nsw" || k == "exact" || k == "disjoint" || k == "nneg" || k == "inbounds" || k == "nusw" || k == "samesign" || k == "volatile" || k == "atomic" || k == "weak") { c.word(); continue; } if (k == "inrange") { c.word(); c.balanced(); continue; } break; } };
      flags();
      static const std::unordered_map<string, BinOp> bins = {{"add", B_ADD}, {"sub", B_SUB}, {"mul", B_MUL}, {"udiv", B_UDIV}, {"sdiv", B_SDIV}, {"urem", B_UREM}, {"srem", B_SREM}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}, {"shl", B_SHL}, {"lshr", B_LSHR}, {"ashr", B_ASHR}};
      static const std::unordered_map<string, Pred> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ult", P_ULT}, {"ule", P_ULE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"slt", P_SLT}, {"sle", P_SLE}, {"sgt", P_SGT}, {"sge", P_SGE}};
      if (dst >= 0 && (op != "load" && op != "phi" && op != "select" && op != "extractvalue" && op != "insertvalue" && op != "freeze" && op != "call") && isVecy(rt)) throw ParseErr{"vector/float"};
      if (bins.count(op)) { in.op = OP_BIN; in.sub = bins.at(op); Type t = parseType(c); if (isVecy(t)) throw ParseErr{"vec"}; in.w = t.bits; in.o.push_back(d.op1(c, t)); c.need(','); in.o.push_back(d.op1(c, t)); }
      else if (op == "icmp") { auto pr = c.word(); flags(); (void)pr; if (!preds.count(string(pr))) { string q(pr); if (q == "samesign") { pr = c.word(); } } Type t = parseType(c); if (isVecy(t)) throw ParseErr{"vec"}; in.op = OP_ICMP; in.sub = preds.at(string(pr)); in.w = t.t == Type::PTR ? 64 : t.bits; in.o.push_back(d.op1(c, t)); c.need(','); in.o.push_back(d.op1(c, t)); }
      else if (op == "load") { in.op = OP_LOAD; Type t = parseType(c); tyLeaves(t, 0, in.leaves); c.need(','); Type pt = parseType(c); in.o.push_back(d.op1(c, pt)); }
      else if (op == "store") { in.op = OP_STORE; Type t = parseType(c); tyLeaves(t, 0, in.leaves); vector<Opnd> v; d.opFlat(c, t, v); c.need(','); Type pt = parseType(c); in.o.push_back(d.op1(c, pt)); for (auto& x : v) in.o.push_back(x); }
      else if (op == "getelementptr") {
        in.op = OP_GEP; in.w = 64; Type cur = parseType(c); c.need(','); Type pt = parseType(c); if (isVecy(pt)) throw ParseErr{"vec"}; in.o.push_back(d.op1(c, pt)); bool first = true;
        while (c.is(',')) {
          if (c.peek() == '!') break;
          Type it = parseType(c); Opnd o = d.op1(c, it);
          if (!first && cur.t == Type::STRUCT) { in.goff += fieldOff(cur, o.v.c); Type nx = cur.fs[o.v.c]; cur = nx; continue; }
          i64 sc; if (first) { sc = tySize(cur); first = false; } else { Type e = *cur.el; sc = tySize(e); cur = e; }
          if (o.slot < 0 && !o.v.e) in.goff += (i64)sxt(o.v.c, o.w) * sc; else { in.o.push_back(o); in.scale.push_back(sc); }
        }
      }
      else if (op == "phi") { emit = false; Phi ph; ph.dst = dst; ph.t = parseType(c); do { if (c.peek() == '!') break; c.need('['); vector<Opnd> v; d.opFlat(c, ph.t, v); c.need(','); c.need('%'); string n = c.name(); c.need(']'); ph.in.push_back({d.labels.at(n), v}); } while (c.is(',')); phis[curB].push_back(ph); }
      else if (op == "br") { if (c.peekWord() == "label") { in.op = OP_BR; Edge e; e.block = label(c); in.edges.push_back(e); } else { in.op = OP_CBR; Type t = parseType(c); in.o.push_back(d.op1(c, t)); c.need(','); Edge a, b; a.block = label(c); c.need(','); b.block = label(c); in.edges = {a, b}; } }
      else if (op == "switch") { in.op = OP_SWITCH; Type t = parseType(c); in.w = t.bits; in.o.push_back(d.op1(c, t)); c.need(','); Edge e; e.block = label(c); in.edges.push_back(e); c.need('['); while (!c.is(']')) { Type t2 = parseType(c); V v = constScalar(c, t2); c.need(','); Edge x; x.block = label(c); in.edges.push_back(x); in.cases.push_back(v.e ? v.e->c : v.c); } }
      else if (op == "ret") { in.op = OP_RET; Type t = parseType(c); if (t.t != Type::VOID) d.opFlat(c, t, in.o); }
      else if (op == "unreachable") in.op = OP_UNREACHABLE;
      else if (op == "fence") in.op = OP_NOP;
      else if (op == "select") { in.op = OP_SELECT; Type ct = parseType(c); if (ct.t != Type::INT) throw ParseErr{"vec select"}; in.o.push_back(d.op1(c, ct)); c.need(','); Type t = parseType(c); vector<Opnd> a, b; d.opFlat(c, t, a); c.need(','); parseType(c); d.opFlat(c, t, b); for (auto& x : a) in.o.push_back(x); for (auto& x : b) in.o.push_back(x); }
      else if (op == "zext" || op == "sext" || op == "trunc") { Type t = parseType(c); if (isVecy(t)) throw ParseErr{"vec"}; in.o.push_back(d.op1(c, t)); in.op = op == "zext" ? OP_ZEXT : op == "sext" ? OP_SEXT : OP_TRUNC; in.w = rt.bits; }
      else if (op == "ptrtoint" || op == "inttoptr" || op == "ptrtoaddr") { Type t = parseType(c); in.o.push_back(d.op1(c, t)); int fw = in.o[0].w, tw = rt.t == Type::PTR ? 64 : rt.bits; in.w = tw; in.op = fw == tw ? OP_MOV : fw < tw ? OP_ZEXT : OP_TRUNC; }
      else if (op == "bitcast" || op == "freeze" || op == "addrspacecast") { Type t = parseType(c); d.opFlat(c, t, in.o); in.op = OP_MOV; }
      else if (op == "extractvalue") { Type t = parseType(c); vector<Opnd> v; d.opFlat(c, t, v); int s = 0; while (c.is(',')) { if (c.peek() == '!') break; u64 i = strtoull(string(c.word()).c_str(), 0, 10); if (t.t == Type::STRUCT) { for (u64 k = 0; k < i; k++) s += tySlots(t.fs[k]); Type nx = t.fs[i]; t = nx; } else { Type nx = *t.el; s += i * tySlots(nx); t = nx; } } int n = tySlots(t); in.op = OP_MOV; in.o.assign(v.begin() + s, v.begin() + s + n); }
      else if (op == "insertvalue") { Type t = parseType(c); d.opFlat(c, t, in.o); c.need(','); Type et = parseType(c); vector<Opnd> v; d.opFlat(c, et, v); int s = 0; while (c.is(',')) { if (c.peek() == '!') break; u64 i = strtoull(string(c.word()).c_str(), 0, 10); if (t.t == Type::STRUCT) { for (u64 k = 0; k < i; k++) s += tySlots(t.fs[k]); Type nx = t.fs[i]; t = nx; } else { Type nx = *t.el; s += i * tySlots(nx); t = nx; } } for (size_t k = 0; k < v.size(); k++) in.o[s + k] = v[k]; in.op = OP_MOV; }
      else if (op == "alloca") { in.op = OP_ALLOCA; Type t = parseType(c); u64 n = 1; if (c.is(',')) { if (typeStart(c)) { Type nt = parseType(c); Opnd o = d.op1(c, nt); if (o.slot >= 0) throw ParseErr{"dynamic alloca"}; n = o.v.c; } } in.goff = tySize(t) * n; }
      else if (op == "atomicrmw") { static const std::unordered_map<string, BinOp> rm = {{"add", B_ADD}, {"sub", B_SUB}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}, {"xchg", B_XCHG}, {"umax", B_UMAX}, {"umin", B_UMIN}, {"max", B_SMAX}, {"min", B_SMIN}}; in.op = OP_RMW; in.sub = rm.at(string(c.word())); Type pt = parseType(c); in.o.push_back(d.op1(c, pt)); c.need(','); Type t = parseType(c); in.w = t.t == Type::PTR ? 64 : t.bits; in.o.push_back(d.op1(c, t)); tyLeaves(t, 0, in.leaves); }
      else if (op == "cmpxchg") { in.op = OP_CMPXCHG; Type pt = parseType(c); in.o.push_back(d.op1(c, pt)); c.need(','); Type t = parseType(c); in.w = t.t == Type::PTR ? 64 : t.bits; in.o.push_back(d.op1(c, t)); c.need(','); parseType(c); in.o.push_back(d.op1(c, t)); tyLeaves(t, 0, in.leaves); }
      else if (op == "call") {
        while (!typeStart(c)) { auto k = c.word(); if (k.empty()) { if (c.peek() == '(') { c.balanced(); continue; } if (c.peek() == '#') { c.p++; c.word(); continue; } throw ParseErr{"call"}; } if (c.peek() == '(') c.balanced(); else if (k == "align") c.word(); }
        Type t = parseType(c); in.nret = tySlots(t); if (c.peek() == '(') c.balanced();
        in.op = OP_CALL; c.ws();
        if (*c.p == '@') {
          c.p++; string n = c.name();
          static const char* nops[] = {"llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg", "llvm.prefetch", "llvm.x86.sse2.pause", "llvm.donothing", "llvm.sideeffect"};
          bool nop = false; for (auto k : nops) if (n.compare(0, strlen(k), k) == 0) nop = true;
          if (nop) { emit = false; goto done; }
          in.callee = getFunc(n); if (in.callee->builtin == -1) in.callee->builtin = lookupBuiltin(n);
          in.builtin = in.callee->builtin;
          if (in.callee->name.find("9panicking") != string::npos) in.callee->isPanic = true;
        } else if (*c.p == '%') { Type pt; pt.t = Type::PTR; in.o.push_back(d.op1(c, pt)); in.sub = 1; }
        else if (c.kw("asm")) { if (l.text.find("asm sideeffect \"\"") != string_view::npos || l.text.find("asm \"\"") != string_view::npos) { emit = false; goto done; } throw ParseErr{"inline asm"}; }
        else { Type pt; pt.t = Type::PTR; in.o.push_back(d.op1(c, pt)); in.sub = 1; }
        c.need('(');
        if (!c.is(')')) { do { Type at = parseType(c); if (at.t == Type::OTHER) throw ParseErr{"metadata arg"}; skipAttrs(c); d.opFlat(c, at, in.o); } while (c.is(',')); c.need(')'); }
      }
      else throw ParseErr{"op " + op};
    } catch (ParseErr& e) { in = Inst(); in.op = OP_UNSUP; in.text = e.msg + " :: " + string(l.text); emit = true; }
    catch (std::out_of_range& e) { in = Inst(); in.op = OP_UNSUP; in.text = "out_of_range :: " + string(l.text); emit = true; }
  done:
    { size_t k = l.text.rfind("!dbg !"); if (k != string_view::npos) in.dbg = strtoul(l.text.data() + k + 6, 0, 10); }
    if (emit) f->code.push_back(std::move(in));
  }
  // phi moves on edges
  vector<int> blockOf(f->code.size()); { int b = -1; vector<std::pair<int, int>> starts; for (size_t i = 0; i < f->blockStart.size(); i++) starts.push_back({f->blockStart[i], (int)i}); for (size_t i = 0; i < starts.size(); i++) { int hi = i + 1 < starts.size() ? starts[i + 1].first : f->code.size(); for (int k = starts[i].first; k < hi; k++) blockOf[k] = starts[i].second; } (void)b; }
  for (size_t i = 0; i < f->code.size(); i++) for (auto& e : f->code[i].edges) {
    for (auto& ph : phis[e.block]) { bool found = false; for (auto& pr : ph.in) if (pr.first == blockOf[i]) { for (size_t k = 0; k < pr.second.size(); k++) e.moves.push_back({ph.dst + (int)k, pr.second[k]}); found = true; break; } if (!found) { fprintf(stderr, "phi without edge in %s\n", f->name.c_str()); exit(3); } }
  }
  f->nslots = d.nslots;
}
