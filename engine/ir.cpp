#include "ir.h"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
static Module *M;
[[noreturn]] static void die(const std::string &m) { fprintf(stderr, "symrs: ir: %s\n", m.c_str()); exit(3); }

static std::vector<Type *> allTypes; static std::unordered_map<std::string, Type *> named; static std::unordered_map<std::string, Type *> tcache;
static void layout(Type *t) {
  switch (t->k) {
  case Type::Int: { u64 b = (t->w + 7) / 8; u64 s = 1; while (s < b) s <<= 1; t->align = s > 16 ? 16 : s; t->size = s > 16 ? (b + 15) / 16 * 16 : s; t->slots = 1; break; }
  case Type::Ptr: t->w = 64; t->size = t->align = 8; t->slots = 1; break;
  case Type::Float: t->size = t->align = t->w / 8; t->slots = 1; break;
  case Type::Array: t->size = t->n * t->el[0]->size; t->align = t->el[0]->align; t->slots = t->n > 4096 ? 0 : t->n * t->el[0]->slots; break;
  case Type::Vec: { u64 bits = t->n * t->el[0]->w; t->size = (bits + 7) / 8; u64 a = 1; while (a < t->size) a <<= 1; t->align = a; t->slots = t->n; break; }
  case Type::Struct: { u64 o = 0; t->align = 1; t->slots = 0; t->off.clear(); for (auto *e : t->el) { u32 a = t->packed ? 1 : e->align; o = (o + a - 1) / a * a; t->off.push_back(o); o += e->size; if (a > t->align) t->align = a; t->slots += e->slots; } t->size = (o + t->align - 1) / t->align * t->align; break; }
  default: t->size = 0; t->slots = 0; }
}
static Type *mkT(Type::K k, u32 w = 0) { std::string key = std::to_string(k) + ":" + std::to_string(w); auto &r = tcache[key]; if (r) return r; r = new Type; r->k = k; r->w = w; layout(r); return r; }

struct P {
  const char *p, *e, *base; bool multi = true; // multi: whitespace may cross line ends
  void ws() { for (;;) { while (p < e && (*p == ' ' || (multi && *p == '\n') || *p == '\t' || *p == '\r')) p++; if (multi && p < e && *p == ';') { while (p < e && *p != '\n') p++; } else break; } }
  void wsl() { while (p < e && (*p == ' ' || *p == '\t')) p++; }
  bool eol() { wsl(); return p >= e || *p == '\n' || *p == ';'; }
  void skipLine() { while (p < e && *p != '\n') { if (*p == '"') { p++; while (p < e && *p != '"') p++; } p++; } if (p < e) p++; }
  bool is(const char *s) { ws(); size_t n = strlen(s); return (size_t)(e - p) >= n && !memcmp(p, s, n); }
  bool acc(const char *s) { if (!is(s)) return false; p += strlen(s); return true; }
  void exp(const char *s) { if (!acc(s)) fail(std::string("expected ") + s); }
  [[noreturn]] void fail(const std::string &m) { const char *q = p; while (q > base && q[-1] != '\n') q--; const char *r = p; while (r < e && *r != '\n') r++; die(m + " at: " + std::string(q, std::min<size_t>(r - q, 400)) + " >>> " + std::string(p, std::min<size_t>(r - p, 60))); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  bool wordIs(const char *s) { ws(); size_t n = strlen(s); return (size_t)(e - p) > n && !memcmp(p, s, n) && !idc(p[n]); }
  bool accW(const char *s) { if (!wordIs(s)) return false; p += strlen(s); return true; }
  std::string word() { ws(); const char *q = p; while (p < e && idc(*p)) p++; return std::string(q, p - q); }
  std::string peekWord() { const char *s = p; std::string w = word(); p = s; return w; }
  std::string nameAfterSigil() { // after % or @
    if (*p == '"') { p++; std::string r; while (*p != '"') { if (*p == '\\') { char h[3] = {p[1], p[2], 0}; r.push_back((char)strtol(h, 0, 16)); p += 3; } else r.push_back(*p++); } p++; return r; }
    const char *q = p; while (p < e && idc(*p)) p++; return std::string(q, p - q);
  }
  void balanced() { // at '(' '{' '[' '<'
    char o = *p, c = o == '(' ? ')' : o == '{' ? '}' : o == '[' ? ']' : '>'; int d = 0;
    while (p < e) { if (*p == '"') { p++; while (*p != '"') p++; } else if (*p == o) d++; else if (*p == c && --d == 0) { p++; return; } p++; } }
};

static Type *parseType(P &s) {
  s.ws(); Type *t = nullptr; char c = *s.p;
  if (c == 'i' && isdigit((unsigned char)s.p[1])) { s.p++; u32 w = 0; while (isdigit((unsigned char)*s.p)) w = w * 10 + (*s.p++ - '0'); t = mkT(Type::Int, w); }
  else if (s.accW("ptr")) { t = mkT(Type::Ptr); if (s.wordIs("addrspace")) { s.word(); s.balanced(); } }
  else if (s.accW("void")) t = mkT(Type::Void);
  else if (s.accW("float")) t = mkT(Type::Float, 32);
  else if (s.accW("double")) t = mkT(Type::Float, 64);
  else if (s.accW("half") || s.accW("bfloat")) t = mkT(Type::Float, 16);
  else if (s.accW("fp128") || s.accW("x86_fp80") || s.accW("ppc_fp128")) t = mkT(Type::Float, 128);
  else if (s.accW("label")) t = mkT(Type::Label);
  else if (s.accW("metadata")) t = mkT(Type::Meta);
  else if (s.accW("token")) t = mkT(Type::Meta);
  else if (c == '%') { s.p++; std::string n = s.nameAfterSigil(); auto &r = named[n]; if (!r) { r = new Type; r->k = Type::Struct; r->opaque = true; } t = r; }
  else if (c == '[') { s.p++; u64 n = strtoull(s.word().c_str(), 0, 10); s.exp("x"); Type *el = parseType(s); s.exp("]"); std::string key = "A" + std::to_string(n) + "," + std::to_string((u64)el); auto &r = tcache[key]; if (!r) { r = new Type; r->k = Type::Array; r->n = n; r->el = {el}; layout(r); } t = r; }
  else if (c == '<' && s.p[1] != '{') { s.p++; s.ws(); u64 n = strtoull(s.word().c_str(), 0, 10); s.exp("x"); Type *el = parseType(s); s.exp(">"); std::string key = "V" + std::to_string(n) + "," + std::to_string((u64)el); auto &r = tcache[key]; if (!r) { r = new Type; r->k = Type::Vec; r->n = n; r->el = {el}; layout(r); } t = r; }
  else if (c == '{' || c == '<') { bool pk = c == '<'; if (pk) s.p++; s.exp("{"); std::vector<Type *> el; if (!s.acc("}")) { do el.push_back(parseType(s)); while (s.acc(",")); s.exp("}"); } if (pk) s.exp(">");
    std::string key = pk ? "P" : "S"; for (auto *x : el) key += std::to_string((u64)x) + ","; auto &r = tcache[key]; if (!r) { r = new Type; r->k = Type::Struct; r->packed = pk; r->el = el; layout(r); } t = r; }
  else s.fail("type");
  // function type suffix
  s.wsl(); if (*s.p == '(') { const char *sv = s.p; (void)sv; s.balanced(); }
  return t;
}

// ---- constants -------------------------------------------------------------------------------
static u64 symAddr(const std::string &n, P &s) { auto it = M->sym.find(n); if (it == M->sym.end()) s.fail("unknown symbol @" + n); return it->second; }
typedef std::vector<Expr *> CV; // flattened constant slots
static CV parseConst(P &s, Type *t);
static CV parseTypedConst(P &s, Type **ot = nullptr) { Type *t = parseType(s); if (ot) *ot = t; return parseConst(s, t); }
static void zeros(Type *t, CV &o) {
  switch (t->k) { case Type::Int: case Type::Ptr: case Type::Float: o.push_back(mkConst(0, t->w)); break;
  case Type::Array: case Type::Vec: for (u64 i = 0; i < t->n; i++) zeros(t->el[0], o); break; case Type::Struct: for (auto *x : t->el) zeros(x, o); break; default: break; } }
static u64 gepConstOff(P &s, Type *srcT, bool close) { // after base pointer: , iN idx ...
  u64 off = 0; Type *cur = srcT; bool first = true; (void)close;
  while (s.acc(",")) { s.accW("inrange"); CV v = parseTypedConst(s); i64 ix = sx((u64)v[0]->c, v[0]->w); if (first) { off += ix * srcT->size; first = false; } else if (cur->k == Type::Struct) { off += cur->off[ix]; cur = cur->el[ix]; } else { cur = cur->el[0]; off += ix * cur->size; } }
  return off; }
static CV parseConst(P &s, Type *t) {
  s.ws(); char c = *s.p; CV o;
  if (c == '@') { s.p++; std::string n = s.nameAfterSigil(); return {mkConst(symAddr(n, s), 64)}; }
  if (c == '{' || (c == '<' && s.p[1] == '{')) { bool pk = c == '<'; if (pk) s.p++; s.exp("{"); if (!s.acc("}")) { do { CV x = parseTypedConst(s); o.insert(o.end(), x.begin(), x.end()); } while (s.acc(",")); s.exp("}"); } if (pk) s.exp(">"); return o; }
  if (c == '[' || c == '<') { s.p++; const char *cl = c == '[' ? "]" : ">"; if (!s.acc(cl)) { do { CV x = parseTypedConst(s); o.insert(o.end(), x.begin(), x.end()); } while (s.acc(",")); s.exp(cl); } return o; }
  if (c == 'c' && s.p[1] == '"') { s.p += 2; while (*s.p != '"') { u8 b; if (*s.p == '\\') { if (s.p[1] == '\\') { b = '\\'; s.p += 2; } else { char h[3] = {s.p[1], s.p[2], 0}; b = strtol(h, 0, 16); s.p += 3; } } else b = *s.p++; o.push_back(mkConst(b, 8)); } s.p++; return o; }
  if (isdigit((unsigned char)c) || c == '-') {
    if (t->k == Type::Float) { std::string w = s.word(); if (*s.p == '+') { s.p++; w += "+" + s.word(); } double d; u64 bits; if (w.size() > 2 && w[1] == 'x') bits = strtoull(w.c_str(), 0, 16); else { d = strtod(w.c_str(), 0); memcpy(&bits, &d, 8); } if (t->w == 32) { memcpy(&d, &bits, 8); float f = (float)d; u32 fb; memcpy(&fb, &f, 4); bits = fb; } return {mkConst(bits, t->w)}; }
    bool neg = false; if (c == '-') { neg = true; s.p++; } u128 v = 0; while (isdigit((unsigned char)*s.p)) v = v * 10 + (*s.p++ - '0'); if (neg) v = (u128)0 - v; return {mkConst(v, t->w)}; }
  std::string w = s.word();
  if (w == "true") return {mkConst(1, 1)};
  if (w == "false") return {mkConst(0, 1)};
  if (w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "none") { zeros(t, o); return o; }
  if (w == "splat") { s.exp("("); CV x = parseTypedConst(s); s.exp(")"); for (u64 i = 0; i < t->n; i++) o.push_back(x[0]); return o; }
  if (w == "getelementptr") { while (!s.is("(")) { s.word(); if (s.is("(") && s.p[-1] == 'e') { s.balanced(); s.ws(); } } s.exp("("); Type *st = parseType(s); s.exp(","); CV b = parseTypedConst(s); u64 off = gepConstOff(s, st, true); s.exp(")"); return {mkConst((u64)b[0]->c + off, 64)}; }
  if (w == "ptrtoint" || w == "inttoptr" || w == "trunc" || w == "bitcast" || w == "addrspacecast" || w == "zext" || w == "ptrtoaddr") { s.exp("("); CV b = parseTypedConst(s); s.exp("to"); Type *tt = parseType(s); s.exp(")"); return {mkConst(b[0]->c, tt->w)}; }
  if (w == "add" || w == "sub" || w == "xor" || w == "mul") { s.accW("nuw"); s.accW("nsw"); s.accW("nuw"); s.exp("("); CV a = parseTypedConst(s); s.exp(","); CV b = parseTypedConst(s); s.exp(")"); u128 x = a[0]->c, y = b[0]->c; u128 r = w == "add" ? x + y : w == "sub" ? x - y : w == "mul" ? x * y : x ^ y; return {mkConst(r, a[0]->w)}; }
  if (w == "blockaddress") { s.balanced(); return {mkConst(0, 64)}; }
  if (w == "inf" || w == "nan") return {mkConst(0, t->w)};
  s.fail("constant " + w);
}
// global initialisers straight to bytes (large tables)
static void initBytes(P &s, Type *t, std::vector<u8> &out, u64 off) {
  s.ws(); char c = *s.p;
  auto put = [&](u128 v, u64 n) { for (u64 i = 0; i < n && i < 16; i++) out[off + i] = (u8)(v >> (8 * i)); };
  if (t->k == Type::Struct && (c == '{' || c == '<')) { bool pk = c == '<'; if (pk) s.p++; s.exp("{"); size_t i = 0; if (!s.acc("}")) { do { Type *et = parseType(s); initBytes(s, et, out, off + t->off[i]); i++; } while (s.acc(",")); s.exp("}"); } if (pk) s.exp(">"); return; }
  if (t->k == Type::Array && c == '[') { s.p++; u64 i = 0; if (!s.acc("]")) { do { Type *et = parseType(s); initBytes(s, et, out, off + i * et->size); i++; } while (s.acc(",")); s.exp("]"); } return; }
  if (t->k == Type::Array && c == 'c' && s.p[1] == '"') { s.p += 2; u64 i = off; while (*s.p != '"') { u8 b; if (*s.p == '\\') { if (s.p[1] == '\\') { b = '\\'; s.p += 2; } else { char h[3] = {s.p[1], s.p[2], 0}; b = strtol(h, 0, 16); s.p += 3; } } else b = *s.p++; out[i++] = b; } s.p++; return; }
  if (s.wordIs("zeroinitializer") || s.wordIs("undef") || s.wordIs("poison") || s.wordIs("null")) { s.word(); return; }
  if (t->k == Type::Vec) { CV v = parseConst(s, t); for (size_t i = 0; i < v.size(); i++) { u64 n = t->el[0]->size; for (u64 k = 0; k < n; k++) out[off + i * n + k] = (u8)(v[i]->c >> (8 * k)); } return; }
  CV v = parseConst(s, t); put(v[0]->c, t->size);
}

// ---- functions -------------------------------------------------------------------------------
struct FP { P &s; Func *f; std::unordered_map<std::string, i32> slots; std::unordered_map<std::string, u32> labels; u32 curBlock = 0; std::vector<std::pair<u32, Edge *>> edges; std::unordered_map<std::string, i32> ccache;
  u32 label(const std::string &n) { auto it = labels.find(n); if (it != labels.end()) return it->second; u32 i = f->blocks.size(); f->blocks.emplace_back(); labels[n] = i; return i; }
  i32 slot(const std::string &n, Type *t) { auto it = slots.find(n); if (it != slots.end()) return it->second; i32 r = f->nslots; f->nslots += std::max<u32>(t->slots, 1); slots[n] = r; return r; }
  i32 constOp(const CV &v) { i32 i = f->consts.size(); for (auto *e : v) f->consts.push_back(fromE(e)); if (v.empty()) f->consts.push_back(Val{0, nullptr}); return ~i; }
  i32 operand(Type *t) { s.ws(); if (*s.p == '%') { s.p++; return slot(s.nameAfterSigil(), t); } if (t->k == Type::Meta) { skipMeta(); return constOp({}); } if (s.wordIs("asm")) { return constOp({}); } return constOp(parseConst(s, t)); }
  void skipMeta() { s.ws(); if (*s.p == '!') { s.p++; if (*s.p == '{' || *s.p == '"') { if (*s.p == '"') { s.p++; while (*s.p != '"') s.p++; s.p++; } else s.balanced(); } else { s.word(); s.wsl(); if (*s.p == '(') s.balanced(); } } else { Type *t = parseType(s); operand(t); } }
  Edge *edge(const std::string &lab) { Edge *e = new Edge; e->target = label(lab); edges.push_back({curBlock, e}); return e; }
  std::string labelRef() { s.ws(); s.accW("label"); s.exp("%"); return s.nameAfterSigil(); }
  Inst &emit(u8 op) { Inst i; memset((void *)&i, 0, sizeof i); i.op = op; i.lanes = 1; f->code.push_back(i); return f->code.back(); }
};
static i32 elt(i32 op, u32 i) { return op >= 0 ? op + (i32)i : op - (i32)i; }
static void skipAttrs(P &s) { // parameter/return attributes before a value or type
  for (;;) { s.ws(); char c = *s.p; if (c == '#') { s.p++; s.word(); continue; } if (c == '"') { s.p++; while (*s.p != '"') s.p++; s.p++; s.wsl(); if (*s.p == '=') { s.p++; s.ws(); s.p++; while (*s.p != '"') s.p++; s.p++; } continue; }
    if (!isalpha((unsigned char)c)) return;
    static const std::unordered_set<std::string> at = {"zeroext", "signext", "noext", "inreg", "byval", "byref", "inalloca", "sret", "align", "noalias", "nocapture", "captures", "nofree", "nest", "returned", "nonnull", "dereferenceable", "dereferenceable_or_null", "swiftself", "swifterror", "swiftasync", "immarg", "noundef", "nofpclass", "alignstack", "allocalign", "allocptr", "readnone", "readonly", "writeonly", "writable", "initializes", "dead_on_unwind", "dead_on_return", "range", "preallocated", "elementtype", "allockind"};
    std::string w = s.peekWord(); if (!at.count(w)) return; s.word(); if (w == "align") { s.ws(); if (*s.p == '(') s.balanced(); else s.word(); } else { s.wsl(); if (*s.p == '(') s.balanced(); } } }
static u64 leafOffsets(Type *t, u64 base, std::vector<std::pair<u64, Type *>> &out) { switch (t->k) { case Type::Array: case Type::Vec: for (u64 i = 0; i < t->n; i++) leafOffsets(t->el[0], base + i * t->el[0]->size, out); break; case Type::Struct: for (size_t i = 0; i < t->el.size(); i++) leafOffsets(t->el[i], base + t->off[i], out); break; default: out.push_back({base, t}); } return 0; }
static u32 subSlots(Type *&t, u64 ix) { u32 o = 0; if (t->k == Type::Struct) { for (u64 i = 0; i < ix; i++) o += t->el[i]->slots; t = t->el[ix]; } else { o = ix * t->el[0]->slots; t = t->el[0]; } return o; }
static u8 leafW(Type *t) { if (t->k == Type::Vec) return t->el[0]->w; return t->w; }

static void parseCall(FP &F, const std::string &dstName, bool invoke) {
  P &s = F.s;
  for (;;) { std::string w = s.peekWord(); if (w == "fastcc" || w == "coldcc" || w == "ccc" || w == "tailcc" || w == "preserve_mostcc" || w == "preserve_allcc" || w == "preserve_nonecc" || w == "fast" || w == "nnan" || w == "ninf" || w == "nsz" || w == "arcp" || w == "contract" || w == "afn" || w == "reassoc") s.word(); else if (w == "cc") { s.word(); s.word(); } else break; }
  skipAttrs(s); Type *rt = parseType(s); s.ws(); i32 callee = 0; std::string cname; bool isAsm = false;
  if (s.accW("asm")) { isAsm = true; while (true) { s.ws(); if (*s.p == '"') break; s.word(); } for (int k = 0; k < 2; k++) { s.ws(); if (*s.p == ',') { s.p++; s.ws(); } s.p++; while (*s.p != '"') s.p++; s.p++; } }
  else if (*s.p == '@') { s.p++; cname = s.nameAfterSigil(); } else callee = F.operand(mkT(Type::Ptr));
  CallInfo *ci = new CallInfo; ci->retSlots = rt->slots; ci->retw = leafW(rt); if (rt->k == Type::Vec) ci->lanes = rt->n;
  s.exp("(");
  if (!s.acc(")")) { do { if (s.is("...")) { s.exp("..."); continue; } Type *at = parseType(s); skipAttrs(s); i32 op = F.operand(at); if (at->k == Type::Meta) continue; std::vector<std::pair<u64, Type *>> lv; leafOffsets(at, 0, lv); for (u32 i = 0; i < lv.size(); i++) { ci->args.push_back(elt(op, i)); ci->argw.push_back(lv[i].second->w); } } while (s.acc(",")); s.exp(")"); }
  i32 dst = -1; if (!dstName.empty()) dst = F.slot(dstName, rt);
  if (isAsm) { F.emit(I_NOP); delete ci; if (invoke) s.fail("invoke asm"); return; }
  if (!cname.empty()) { auto it = M->funcByName.find(cname); if (it != M->funcByName.end()) ci->f = it->second; else callee = F.constOp({mkConst(symAddr(cname, s), 64)}); }
  ci->callee = callee;
  // skip function attributes / bundles
  if (invoke) { s.multi = true; while (!s.wordIs("to")) { s.ws(); if (*s.p == '#') { s.p++; s.word(); } else if (*s.p == '[') s.balanced(); else if (*s.p == '"') { s.p++; while (*s.p != '"') s.p++; s.p++; if (*s.p == '=') { s.p += 2; while (*s.p != '"') s.p++; s.p++; } } else { std::string w = s.word(); if (w.empty()) s.fail("invoke attrs"); s.wsl(); if (*s.p == '(') s.balanced(); } }
    s.exp("to"); std::string n = F.labelRef(); s.exp("unwind"); std::string u = F.labelRef(); (void)u; ci->normal = F.edge(n); F.label(u); s.multi = false; }
  Inst &i = F.emit(I_CALL); i.dst = dst; i.aux = ci;
}
static const std::unordered_map<std::string, EOp> binops = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}};
static const std::unordered_map<std::string, Pred> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};

static void parseInst(FP &F) {
  P &s = F.s; s.ws(); s.multi = false; struct Rst { P &s; ~Rst() { s.multi = true; } } rst{s}; std::string dst; if (*s.p == '%') { s.p++; dst = s.nameAfterSigil(); s.exp("="); }
  std::string op = s.word(); if (op == "tail" || op == "musttail" || op == "notail") op = s.word();
  auto bi = binops.find(op);
  if (bi != binops.end()) { while (s.wordIs("nuw") || s.wordIs("nsw") || s.wordIs("exact") || s.wordIs("disjoint")) s.word(); Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); i32 b = F.operand(t); i32 d = F.slot(dst, t); Inst &i = F.emit(I_BIN); i.sub = bi->second; i.w = leafW(t); i.lanes = t->slots; i.a = a; i.b = b; i.dst = d; s.skipLine(); return; }
  if (op == "icmp") { s.accW("samesign"); auto p = preds.find(s.word()); if (p == preds.end()) s.fail("pred"); Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); i32 b = F.operand(t); Type rt; rt.k = Type::Int; rt.slots = t->slots; i32 d = F.slot(dst, &rt); Inst &i = F.emit(I_ICMP); i.sub = p->second; i.w = leafW(t); i.lanes = t->slots; i.a = a; i.b = b; i.dst = d; s.skipLine(); return; }
  if (op == "zext" || op == "sext" || op == "trunc" || op == "bitcast" || op == "ptrtoint" || op == "inttoptr" || op == "addrspacecast" || op == "ptrtoaddr") {
    while (s.wordIs("nneg") || s.wordIs("nuw") || s.wordIs("nsw")) s.word(); Type *t = parseType(s); i32 a = F.operand(t); s.exp("to"); Type *u = parseType(s); i32 d = F.slot(dst, u); u8 fw = leafW(t), tw = leafW(u);
    if (op == "bitcast" && (t->slots != u->slots || fw != tw)) { Inst &i = F.emit(I_REPACK); i.a = a; i.dst = d; i.w = fw; i.w2 = tw; i.lanes = t->slots; i.imm = u->slots; s.skipLine(); return; }
    u8 o = op == "zext" ? I_ZEXT : op == "sext" ? I_SEXT : op == "trunc" ? I_TRUNC : I_MOV; if (o == I_MOV && fw != tw) o = fw < tw ? I_ZEXT : I_TRUNC; Inst &i = F.emit(o); i.a = a; i.dst = d; i.w = tw; i.w2 = fw; i.lanes = u->slots; s.skipLine(); return; }
  if (op == "freeze") { Type *t = parseType(s); i32 a = F.operand(t); i32 d = F.slot(dst, t); Inst &i = F.emit(I_MOV); i.a = a; i.dst = d; i.lanes = t->slots; s.skipLine(); return; }
  if (op == "select") { while (s.wordIs("fast") || s.wordIs("nnan") || s.wordIs("ninf") || s.wordIs("nsz")) s.word(); Type *ct = parseType(s); i32 c = F.operand(ct); s.exp(","); Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); parseType(s); i32 b = F.operand(t); i32 d = F.slot(dst, t);
    std::vector<std::pair<u64, Type *>> lv; leafOffsets(t, 0, lv); for (u32 k = 0; k < lv.size(); k++) { Inst &i = F.emit(I_SELECT); i.a = ct->k == Type::Vec ? elt(c, k) : c; i.b = elt(a, k); i.c = elt(b, k); i.dst = d + k; i.w = lv[k].second->w; } s.skipLine(); return; }
  if (op == "load") { s.accW("atomic"); s.accW("volatile"); Type *t = parseType(s); s.exp(","); Type *pt = parseType(s); i32 a = F.operand(pt); i32 d = F.slot(dst, t); std::vector<std::pair<u64, Type *>> lv; leafOffsets(t, 0, lv); for (u32 k = 0; k < lv.size(); k++) { Inst &i = F.emit(I_LOAD); i.a = a; i.imm = lv[k].first; i.w = lv[k].second->w; i.w2 = lv[k].second->k == Type::Int ? (lv[k].second->w + 7) / 8 : lv[k].second->size; i.dst = d + k; } s.skipLine(); return; }
  if (op == "store") { s.accW("atomic"); s.accW("volatile"); Type *t = parseType(s); i32 v = F.operand(t); s.exp(","); Type *pt = parseType(s); i32 a = F.operand(pt); std::vector<std::pair<u64, Type *>> lv; leafOffsets(t, 0, lv); for (u32 k = 0; k < lv.size(); k++) { Inst &i = F.emit(I_STORE); i.a = a; i.b = elt(v, k); i.imm = lv[k].first; i.w = lv[k].second->w; i.w2 = lv[k].second->k == Type::Int ? (lv[k].second->w + 7) / 8 : lv[k].second->size; } s.skipLine(); return; }
  if (op == "getelementptr") { while (s.wordIs("inbounds") || s.wordIs("nuw") || s.wordIs("nusw") || s.wordIs("inrange")) s.word(); Type *st = parseType(s); s.exp(","); Type *pt = parseType(s); i32 base = F.operand(pt); u64 off = 0; GepInfo *gi = new GepInfo; Type *cur = st; bool first = true;
    if (pt->k == Type::Vec) s.fail("vector gep");
    while (s.acc(",")) { s.ws(); if (*s.p == '!') break; Type *it = parseType(s); s.ws(); u64 sc; if (first) { sc = st->size; first = false; if (*s.p == '%') { i32 o = F.operand(it); gi->idx.push_back({o, (u8)it->w, sc}); } else { CV v = parseConst(s, it); off += sx((u64)v[0]->c, it->w) * sc; } }
      else if (cur->k == Type::Struct) { CV v = parseConst(s, it); u64 ix = (u64)v[0]->c; off += cur->off[ix]; cur = cur->el[ix]; }
      else { cur = cur->el[0]; sc = cur->size; if (*s.p == '%') { i32 o = F.operand(it); gi->idx.push_back({o, (u8)it->w, sc}); } else { CV v = parseConst(s, it); off += sx((u64)v[0]->c, it->w) * sc; } } }
    i32 d = F.slot(dst, mkT(Type::Ptr)); Inst &i = F.emit(I_GEP); i.a = base; i.dst = d; i.imm = off; i.aux = gi->idx.empty() ? nullptr : gi; i.sub = gi->idx.size(); s.skipLine(); return; }
  if (op == "alloca") { s.accW("inalloca"); Type *t = parseType(s); i32 d; u64 n = 1; const char *save; while ((save = s.p, s.acc(","))) { if (s.wordIs("align") || s.wordIs("addrspace")) { s.p = save; break; } Type *ct = parseType(s); s.ws(); if (*s.p == '%') s.fail("dynamic alloca"); CV v = parseConst(s, ct); n = (u64)v[0]->c; } d = F.slot(dst, mkT(Type::Ptr)); Inst &i = F.emit(I_ALLOCA); i.dst = d; i.imm = t->size * n; s.skipLine(); return; }
  if (op == "call") { parseCall(F, dst, false); s.skipLine(); return; }
  if (op == "invoke") { parseCall(F, dst, true); s.skipLine(); return; }
  if (op == "ret") { Type *t = parseType(s); Inst i0; memset((void *)&i0, 0, sizeof i0); if (t->k == Type::Void) { Inst &i = F.emit(I_RET); i.lanes = 0; } else { i32 a = F.operand(t); Inst &i = F.emit(I_RET); i.a = a; i.lanes = t->slots; } s.skipLine(); return; }
  if (op == "br") { s.ws(); if (s.wordIs("label")) { std::string l = F.labelRef(); Edge *e = F.edge(l); Inst &i = F.emit(I_BR); i.aux = e; } else { Type *t = parseType(s); i32 c = F.operand(t); s.exp(","); std::string a = F.labelRef(); s.exp(","); std::string b = F.labelRef(); Edge *ea = F.edge(a), *eb = F.edge(b); Inst &i = F.emit(I_CONDBR); i.a = c; i.aux = ea; i.aux2 = eb; } s.skipLine(); return; }
  if (op == "switch") { Type *t = parseType(s); i32 c = F.operand(t); s.exp(","); SwitchInfo *si = new SwitchInfo; si->w = t->w; si->def = F.edge(F.labelRef()); s.exp("["); s.multi = true; while (!s.acc("]")) { Type *ct = parseType(s); CV v = parseConst(s, ct); s.exp(","); Edge *e = F.edge(F.labelRef()); si->cases.push_back({(u64)v[0]->c, e}); si->map[(u64)v[0]->c] = e; } s.multi = false; Inst &i = F.emit(I_SWITCH); i.a = c; i.aux = si; i.w = t->w; s.skipLine(); return; }
  if (op == "unreachable") { F.emit(I_UNREACHABLE); s.skipLine(); return; }
  if (op == "phi") { while (s.wordIs("fast") || s.wordIs("nnan")) s.word(); Type *t = parseType(s); Phi ph; ph.dst = F.slot(dst, t); ph.slots = t->slots; do { s.ws(); if (*s.p == '!') break; s.exp("["); i32 v = F.operand(t); s.exp(","); s.exp("%"); std::string l = s.nameAfterSigil(); s.exp("]"); ph.in.push_back({F.label(l), v}); } while (s.acc(",")); F.f->blocks[F.curBlock].phis.push_back(ph); s.skipLine(); return; }
  if (op == "extractvalue") { Type *t = parseType(s); i32 a = F.operand(t); u32 o = 0; while (s.acc(",")) { s.ws(); if (*s.p == '!') break; u64 ix = strtoull(s.word().c_str(), 0, 10); o += subSlots(t, ix); } i32 d = F.slot(dst, t); Inst &i = F.emit(I_MOV); i.a = elt(a, o); i.dst = d; i.lanes = t->slots; s.skipLine(); return; }
  if (op == "insertvalue") { Type *t = parseType(s); Type *full = t; i32 a = F.operand(t); s.exp(","); Type *vt = parseType(s); i32 v = F.operand(vt); u32 o = 0; while (s.acc(",")) { s.ws(); if (*s.p == '!') break; u64 ix = strtoull(s.word().c_str(), 0, 10); o += subSlots(t, ix); } i32 d = F.slot(dst, full); { Inst &i = F.emit(I_MOV); i.a = a; i.dst = d; i.lanes = full->slots; } { Inst &i = F.emit(I_MOV); i.a = v; i.dst = d + o; i.lanes = vt->slots; } s.skipLine(); return; }
  if (op == "extractelement") { Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); Type *it = parseType(s); i32 ix = F.operand(it); i32 d = F.slot(dst, t->el[0]); Inst &i = F.emit(I_EXTRACTELT); i.a = a; i.b = ix; i.dst = d; i.lanes = t->n; s.skipLine(); return; }
  if (op == "insertelement") { Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); Type *vt = parseType(s); i32 v = F.operand(vt); s.exp(","); Type *it = parseType(s); i32 ix = F.operand(it); i32 d = F.slot(dst, t); Inst &i = F.emit(I_INSERTELT); i.a = a; i.b = v; i.c = ix; i.dst = d; i.lanes = t->n; s.skipLine(); return; }
  if (op == "shufflevector") { Type *t = parseType(s); i32 a = F.operand(t); s.exp(","); parseType(s); i32 b = F.operand(t); s.exp(","); Type *mt = parseType(s); CV m = parseConst(s, mt); Type rt = *t; rt.slots = mt->n; i32 d = F.slot(dst, &rt); auto *mv = new std::vector<u32>; for (auto *x : m) mv->push_back((u32)x->c); Inst &i = F.emit(I_SHUFFLE); i.a = a; i.b = b; i.dst = d; i.lanes = t->n; i.aux = mv; s.skipLine(); return; }
  if (op == "cmpxchg") { while (s.wordIs("weak") || s.wordIs("volatile")) s.word(); Type *pt = parseType(s); i32 p = F.operand(pt); s.exp(","); Type *t = parseType(s); i32 c = F.operand(t); s.exp(","); parseType(s); i32 n = F.operand(t); Type rt; rt.slots = 2; i32 d = F.slot(dst, &rt); Inst &i = F.emit(I_CMPXCHG); i.a = p; i.b = c; i.c = n; i.dst = d; i.w = t->w; i.w2 = t->size; s.skipLine(); return; }
  if (op == "atomicrmw") { s.accW("volatile"); std::string k = s.word(); Type *pt = parseType(s); i32 p = F.operand(pt); s.exp(","); Type *t = parseType(s); i32 v = F.operand(t); i32 d = F.slot(dst, t); Inst &i = F.emit(I_RMW); i.a = p; i.b = v; i.dst = d; i.w = t->w; i.w2 = t->size; i.sub = k == "add" ? E_ADD : k == "sub" ? E_SUB : k == "and" ? E_AND : k == "or" ? E_OR : k == "xor" ? E_XOR : k == "xchg" ? 254 : 255; s.skipLine(); return; }
  if (op == "fence") { s.skipLine(); return; }
  if (op == "landingpad") { Type *t = parseType(s); F.slot(dst, t); s.skipLine(); s.multi = true; for (;;) { const char *q = s.p; s.ws(); if (s.wordIs("cleanup") || s.wordIs("catch") || s.wordIs("filter")) s.skipLine(); else { s.p = q; break; } } F.emit(I_UNREACHABLE); return; }
  if (op == "resume" || op == "indirectbr" || op == "cleanupret" || op == "catchret") { F.emit(I_UNREACHABLE); s.skipLine(); return; }
  // unsupported (floating point, va_arg...)
  { Inst &i = F.emit(I_UNSUP); i.aux = strdup(op.c_str()); if (!dst.empty()) { // find a type to size the slot
      Type t1; t1.slots = 1; const char *q = s.p; if (op == "fcmp") { s.word(); } F.slot(dst, &t1); s.p = q; } s.skipLine(); }
}
static void parseDefine(P &s) {
  // at "define"
  s.word(); while (*s.p != '@') s.p++; 
  s.p++; std::string name = s.nameAfterSigil(); Func *f = M->funcByName[name]; FP F{s, f}; F.labels.clear();
  s.exp("("); u32 unnamed = 0; if (!s.acc(")")) { do { if (s.is("...")) { s.exp("..."); continue; } Type *t = parseType(s); skipAttrs(s); s.ws(); std::string n; if (*s.p == '%') { s.p++; n = s.nameAfterSigil(); if (!n.empty() && n.find_first_not_of("0123456789") == std::string::npos) unnamed = atoi(n.c_str()) + 1; } else n = std::to_string(unnamed++); i32 sl = F.slot(n, t); for (u32 i = 0; i < t->slots; i++) f->params.push_back(sl + i); } while (s.acc(",")); s.exp(")"); }
  s.skipLine(); // rest of the line ends with '{'
  bool first = true; f->defined = true;
  for (;;) {
    s.ws(); if (*s.p == '}') { s.p++; break; }
    // label?
    const char *q = s.p; std::string lab; bool isLab = false;
    if (*q == '"') { const char *r = q + 1; while (*r != '"') r++; if (r[1] == ':') { isLab = true; P t = s; t.p = q; lab = t.nameAfterSigil(); s.p = r + 2; } }
    else if (*q != '%') { const char *r = q; while (P::idc(*r)) r++; if (r > q && *r == ':') { isLab = true; lab = std::string(q, r - q); s.p = r + 1; } }
    if (first && !isLab) lab = std::to_string(unnamed);
    if (isLab || first) { u32 b = F.label(lab); F.curBlock = b; f->blocks[b].pc = f->code.size(); f->blocks[b].defined = true; first = false; if (isLab) continue; }
    parseInst(F);
  }
  for (auto &pe : F.edges) { Edge *e = pe.second; Block &b = f->blocks[e->target]; e->pc = b.pc; for (auto &ph : b.phis) { bool ok = false; for (auto &in : ph.in) if (in.first == pe.first) { for (u32 k = 0; k < ph.slots; k++) e->copies.push_back({ph.dst + (i32)k, elt(in.second, k)}); ok = true; break; } if (!ok) die("phi without incoming edge in " + name); } }
}
Module *loadModule(const char *path) {
  int fd = open(path, O_RDONLY); if (fd < 0) die(std::string("cannot open ") + path); struct stat st; fstat(fd, &st);
  char *buf = (char *)malloc(st.st_size + 1); size_t got = 0; while (got < (size_t)st.st_size) { ssize_t r = read(fd, buf + got, st.st_size - got); if (r <= 0) die("read"); got += r; } buf[st.st_size] = 0; close(fd);
  M = new Module; M->nextObj = 1; P s{buf, buf + st.st_size, buf};
  struct GL { Global *g; const char *p; }; std::vector<GL> gls; std::vector<const char *> defs; std::vector<std::pair<std::string, const char *>> aliases;
  while (s.p < s.e) {
    const char *ls = s.p;
    if (*ls == '@') { s.p++; std::string n = s.nameAfterSigil(); s.exp("="); // find kind
      bool isConst = false, isAlias = false, ext = false, tls = false; for (;;) { std::string w = s.word(); if (w.empty()) { if (s.is("(")) { s.balanced(); continue; } s.fail("global"); } if (w == "thread_local") tls = true; if (w == "external" || w == "extern_weak") ext = true; if (w == "global") break; if (w == "constant") { isConst = true; break; } if (w == "alias" || w == "ifunc") { isAlias = true; break; } }
      if (isAlias) aliases.push_back({n, s.p}); else { Global *g = new Global; g->name = n; g->isConst = isConst; g->external = ext; g->tls = tls; g->addr = (u64)(M->nextObj++) << OBJ_SHIFT; M->sym[n] = g->addr; M->globals.push_back(g); gls.push_back({g, s.p}); }
    } else if (!strncmp(ls, "define", 6) || !strncmp(ls, "declare", 7)) { bool d = *ls == 'd' && ls[2] == 'f'; const char *nl = strchr(ls, '\n'); const char *q = ls; while (*q != '@') q++; P t = s; t.p = q + 1; std::string n = t.nameAfterSigil(); Func *f = new Func; f->name = n; f->id = M->nextObj++; f->attrs = ""; M->sym[n] = (u64)f->id << OBJ_SHIFT; M->funcs.push_back(f); M->funcByName[n] = f; M->funcByAddr[(u64)f->id << OBJ_SHIFT] = f; if (d) { defs.push_back(ls); (void)nl; // skip body
        const char *r = strstr(ls, "\n}"); s.p = r + 2; continue; } }
    else if (*ls == '%') { s.p++; std::string n = s.nameAfterSigil(); s.exp("="); s.exp("type"); if (s.accW("opaque")) { auto &r = named[n]; if (!r) { r = new Type; r->k = Type::Struct; } } else { Type *t = parseType(s); auto &r = named[n]; if (!r) r = new Type; *r = *t; r->opaque = false; } }
    s.skipLine();
  }
  for (auto &a : aliases) { P t = s; t.p = a.second; Type *ty = parseType(t); (void)ty; t.exp(","); CV v = parseTypedConst(t); M->sym[a.first] = (u64)v[0]->c; auto it = M->funcByAddr.find((u64)v[0]->c); if (it != M->funcByAddr.end()) M->funcByName[a.first] = it->second; }
  for (auto &g : gls) { P t = s; t.p = g.p; Type *ty = parseType(t); g.g->size = ty->size; g.g->init.assign(ty->size, 0); if (!g.g->external) initBytes(t, ty, g.g->init, 0); }
  for (auto d : defs) { P t = s; t.p = d; parseDefine(t); }
  free(buf); return M;
}
