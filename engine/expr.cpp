#include "expr.h"
u64 g_nexprs = 0;
static u32 nextTab = 1;
static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

static char *arenaP = nullptr; static size_t arenaLeft = 0;
static void *arena(size_t n) { n = (n + 15) & ~size_t(15); if (arenaLeft < n) { size_t k = 1 << 20; arenaP = (char *)malloc(k); arenaLeft = k; } void *r = arenaP; arenaP += n; arenaLeft -= n; return r; }

struct TKey { u64 h; Table *t; };
static std::unordered_multimap<u64, Table *> tabs;
static Table *internTab(unsigned w, const u64 *v) {
  u64 h = w; for (int i = 0; i < 256; i++) h = hmix(h, v[i]);
  auto r = tabs.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (it->second->w == w && !memcmp(it->second->v, v, 2048)) return it->second;
  Table *t = (Table *)arena(sizeof(Table)); t->id = nextTab++; t->w = w; memcpy(t->v, v, 2048); t->ones = Dom::none();
  for (int i = 0; i < 256; i++) if (v[i]) t->ones.set(i);
  tabs.emplace(h, t); return t;
}
static std::unordered_multimap<u64, Expr *> cons;
static Expr *intern(const Expr &k) {
  u64 h = k.op; h = hmix(h, k.w); h = hmix(h, k.var); h = hmix(h, k.aux); h = hmix(h, (u64)k.c); h = hmix(h, (u64)(k.c >> 64)); h = hmix(h, (u64)k.a); h = hmix(h, (u64)k.b); h = hmix(h, (u64)k.d); h = hmix(h, (u64)k.t);
  auto r = cons.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Expr *e = it->second; if (e->op == k.op && e->w == k.w && e->var == k.var && e->aux == k.aux && e->c == k.c && e->a == k.a && e->b == k.b && e->d == k.d && e->t == k.t) return e; }
  Expr *e = (Expr *)arena(sizeof(Expr)); *e = k; e->id = (u32)++g_nexprs; cons.emplace(h, e); return e;
}
static Expr blank() { Expr k; memset((void *)&k, 0, sizeof k); return k; }
Expr *mkConst(u128 v, unsigned w) { Expr k = blank(); k.op = E_CONST; k.w = w; k.c = v & maskw128(w); return intern(k); }
Expr *mkTab(unsigned var, unsigned w, const u64 *v) {
  bool same = true; for (int i = 1; i < 256; i++) if (v[i] != v[0]) { same = false; break; }
  if (same) return mkConst(v[0], w);
  Expr k = blank(); k.op = E_TAB; k.w = w; k.var = var; k.mask = 1ull << var; k.t = internTab(w, v); return intern(k);
}
Expr *mkVar(unsigned var) { static Expr *cache[MAXVARS]; if (cache[var]) return cache[var]; u64 v[256]; for (int i = 0; i < 256; i++) v[i] = i; return cache[var] = mkTab(var, 8, v); }

static inline u128 applyOp(u8 op, unsigned w, u128 a, unsigned aw, u128 b, unsigned bw, u128 d, u32 aux) {
  u128 m = maskw128(w);
  switch (op) {
  case E_CONCAT: return ((a << bw) | b) & m;
  case E_EXTRACT: return (a >> aux) & m;
  case E_ZEXT: return a;
  case E_SEXT: return (u128)sx128(a, aw) & m;
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { i128 x = sx128(a, w), y = sx128(b, w); return y ? ((y == -1) ? (u128)(-x) & m : (u128)(x / y) & m) : m; }
  case E_SREM: { i128 x = sx128(a, w), y = sx128(b, w); return y ? ((y == -1) ? 0 : (u128)(x % y) & m) : a; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { i128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sx128(a, aw) < sx128(b, aw);
  case E_SLE: return sx128(a, aw) <= sx128(b, aw);
  case E_ITE: return a ? b : d;
  }
  return 0;
}
u128 evalExpr(Expr *e, const u8 *model) {
  switch (e->op) {
  case E_CONST: return e->c;
  case E_TAB: return e->t->v[model[e->var]];
  case E_ITE: return evalExpr(e->a, model) ? evalExpr(e->b, model) : evalExpr(e->d, model);
  }
  u128 a = evalExpr(e->a, model), b = e->b ? evalExpr(e->b, model) : 0;
  return applyOp(e->op, e->w, a, e->a->w, b, e->b ? e->b->w : 0, 0, e->aux);
}
static u128 eval1(Expr *e, unsigned x) { // all variables take value x; used for single-variable terms
  if (e->op == E_CONST) return e->c;
  if (e->op == E_TAB) return e->t->v[x];
  u128 a = eval1(e->a, x), b = e->b ? eval1(e->b, x) : 0, d = e->d ? eval1(e->d, x) : 0;
  return applyOp(e->op, e->w, a, e->a->w, b, e->b ? e->b->w : 0, d, e->aux);
}
struct MKey { u64 k1, k2, k3; bool operator==(const MKey &o) const { return k1 == o.k1 && k2 == o.k2 && k3 == o.k3; } };
struct MHash { size_t operator()(const MKey &k) const { return hmix(hmix(k.k1, k.k2), k.k3); } };
static std::unordered_map<MKey, Expr *, MHash> memo;

static Expr *mk0(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u32 aux);
Expr *mkOp(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u32 aux) {
  bool ac = isC(a), bc = !b || isC(b), dc = !d || isC(d);
  if (ac && bc && dc) return mkConst(applyOp(op, w, a->c, a->w, b ? b->c : 0, b ? b->w : 0, d ? d->c : 0, aux), w);
  MKey k{((u64)op << 56) | ((u64)w << 48) | aux, ((u64)a->id << 32) | (b ? b->id : 0), d ? d->id : 0};
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  Expr *r = mk0(op, w, a, b, d, aux);
  memo[k] = r; return r;
}
static Expr *mk0(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u32 aux) {
  u64 mask = a->mask | (b ? b->mask : 0) | (d ? d->mask : 0);
  if (mask && !(mask & (mask - 1)) && w <= 64) {
    unsigned var = __builtin_ctzll(mask); u64 v[256];
    for (unsigned i = 0; i < 256; i++) v[i] = (u64)applyOp(op, w, eval1(a, i), a->w, b ? eval1(b, i) : 0, b ? b->w : 0, d ? eval1(d, i) : 0, aux);
    return mkTab(var, w, v);
  }
  // structural, light simplification
  switch (op) {
  case E_ITE:
    if (isC(a)) return a->c ? b : d;
    if (b == d) return b;
    if (w == 1) {
      if (isC(b, 1) && isC(d, 0)) return a;
      if (isC(b, 0) && isC(d, 1)) return mkNot(a);
      if (isC(b, 1)) return mkOp(E_OR, 1, a, d);
      if (isC(d, 0)) return mkOp(E_AND, 1, a, b);
      if (isC(b, 0)) return mkOp(E_AND, 1, mkNot(a), d);
      if (isC(d, 1)) return mkOp(E_OR, 1, mkNot(a), b);
    }
    break;
  case E_ZEXT: if (a->w == w) return a; if (a->op == E_ZEXT) return mkOp(E_ZEXT, w, a->a); break;
  case E_SEXT: if (a->w == w) return a; break;
  case E_EXTRACT:
    if (aux == 0 && w == a->w) return a;
    if (a->op == E_EXTRACT) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux + a->aux);
    if (a->op == E_CONCAT) { unsigned lw = a->b->w; if (aux + w <= lw) return mkOp(E_EXTRACT, w, a->b, nullptr, nullptr, aux); if (aux >= lw) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux - lw);
      return mkOp(E_CONCAT, w, mkOp(E_EXTRACT, aux + w - lw, a->a, nullptr, nullptr, 0), mkOp(E_EXTRACT, lw - aux, a->b, nullptr, nullptr, aux)); }
    if (a->op == E_ZEXT) { unsigned lw = a->a->w; if (aux + w <= lw) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux); if (aux >= lw) return mkConst(0, w); if (aux == 0) return mkOp(E_ZEXT, w, a->a); }
    if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) return mkOp((EOp)a->op, w, mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux), mkOp(E_EXTRACT, w, a->b, nullptr, nullptr, aux));
    if (aux == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL)) return mkOp((EOp)a->op, w, mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, 0), mkOp(E_EXTRACT, w, a->b, nullptr, nullptr, 0));
    if (a->op == E_ITE) return mkOp(E_ITE, w, a->a, mkOp(E_EXTRACT, w, a->b, nullptr, nullptr, aux), mkOp(E_EXTRACT, w, a->d, nullptr, nullptr, aux));
    if (a->op == E_SHL && isC(a->b)) { unsigned s = (unsigned)a->b->c; if (aux >= s) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux - s); if (aux + w <= s) return mkConst(0, w); }
    if (a->op == E_LSHR && isC(a->b)) { unsigned s = (unsigned)a->b->c; if (aux + s + w <= a->w) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, aux + s); }
    break;
  case E_CONCAT:
    if (isC(a, 0)) return mkOp(E_ZEXT, w, b);
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && a->aux == b->aux + b->w) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, b->aux);
    if (a->op == E_EXTRACT && a->a == b && a->aux == b->w) return mkOp(E_EXTRACT, w, a->a, nullptr, nullptr, 0);
    if (a->op == E_ZEXT && a->a != a) { Expr *lo = mkOp(E_CONCAT, a->a->w + b->w, a->a, b); return mkOp(E_ZEXT, w, lo); }
    break;
  case E_ADD: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return a;
    if (isC(b) && a->op == E_ADD && isC(a->b)) return mkOp(E_ADD, w, a->a, mkConst(a->b->c + b->c, w));
    if (!isC(a) && !isC(b)) { // keep constants outermost
      if (a->op == E_ADD && isC(a->b)) return mkOp(E_ADD, w, mkOp(E_ADD, w, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mkOp(E_ADD, w, mkOp(E_ADD, w, a, b->a), b->b);
    }
    break;
  case E_SUB: if (isC(b, 0)) return a; if (a == b) return mkConst(0, w); if (isC(b)) return mkOp(E_ADD, w, a, mkConst((u128)0 - b->c, w)); break;
  case E_MUL: if (isC(a)) std::swap(a, b); if (isC(b, 1)) return a; if (isC(b, 0)) return b; break;
  case E_AND: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return b; if (isC(b) && b->c == maskw128(w)) return a; if (a == b) return a;
    if (isC(b) && a->op == E_ZEXT && (b->c & maskw128(a->a->w)) == maskw128(a->a->w)) return a;
    if (isC(b) && a->op == E_ZEXT) { return mkOp(E_ZEXT, w, mkOp(E_AND, a->a->w, a->a, mkConst(b->c, a->a->w))); }
    if (isC(b) && a->op == E_CONCAT) { unsigned lw = a->b->w; return mkOp(E_CONCAT, w, mkOp(E_AND, a->a->w, a->a, mkConst(b->c >> lw, a->a->w)), mkOp(E_AND, lw, a->b, mkConst(b->c, lw))); }
    if (isC(b)) { u128 m = b->c; unsigned hi = 0; while (hi < w && (m >> hi)) hi++; if (hi < w && hi > 0) { // narrow
        return mkOp(E_ZEXT, w, mkOp(E_AND, hi, mkOp(E_EXTRACT, hi, a, nullptr, nullptr, 0), mkConst(m, hi))); } }
    break;
  case E_OR: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return a; if (isC(b) && b->c == maskw128(w)) return b; if (a == b) return a;
    // disjoint bits: zext(x) | (y << k)
    if (a->op == E_SHL && b->op == E_ZEXT) std::swap(a, b);
    if (a->op == E_ZEXT && b->op == E_SHL && isC(b->b) && b->b->c >= a->a->w) { unsigned k = (unsigned)b->b->c; return mkOp(E_CONCAT, w, mkOp(E_EXTRACT, w - k, b->a, nullptr, nullptr, 0), mkOp(E_ZEXT, k, a->a)); }
    break;
  case E_XOR: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return a; if (a == b) return mkConst(0, w);
    if (isC(b) && a->op == E_XOR && isC(a->b)) return mkOp(E_XOR, w, a->a, mkConst(a->b->c ^ b->c, w));
    break;
  case E_SHL: if (isC(b, 0)) return a; if (isC(b) && b->c >= w) return mkConst(0, w);
    if (isC(b)) { unsigned k = (unsigned)b->c; return mkOp(E_CONCAT, w, mkOp(E_EXTRACT, w - k, a, nullptr, nullptr, 0), mkConst(0, k)); }
    break;
  case E_LSHR: if (isC(b, 0)) return a; if (isC(b) && b->c >= w) return mkConst(0, w);
    if (isC(b)) { unsigned k = (unsigned)b->c; return mkOp(E_ZEXT, w, mkOp(E_EXTRACT, w - k, a, nullptr, nullptr, k)); }
    break;
  case E_ASHR: if (isC(b, 0)) return a; break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (a->op == E_ZEXT) { if (b->c >> a->a->w) return mkConst(0, 1); return mkOp(E_EQ, 1, a->a, mkConst(b->c, a->a->w)); }
      if (a->op == E_CONCAT) { unsigned lw = a->b->w; return mkOp(E_AND, 1, mkOp(E_EQ, 1, a->a, mkConst(b->c >> lw, a->a->w)), mkOp(E_EQ, 1, a->b, mkConst(b->c, lw))); }
      if (a->op == E_XOR) return mkOp(E_EQ, 1, a->a, mkOp(E_XOR, a->w, a->b, b));
      if (a->op == E_OR && b->c == 0) return mkOp(E_AND, 1, mkOp(E_EQ, 1, a->a, b), mkOp(E_EQ, 1, a->b, b));
      if (a->op == E_ADD && isC(a->b)) return mkOp(E_EQ, 1, a->a, mkConst(b->c - a->b->c, a->w));
      if (a->op == E_ITE && (isC(a->b) || isC(a->d))) return mkOp(E_ITE, 1, a->a, mkOp(E_EQ, 1, a->b, b), mkOp(E_EQ, 1, a->d, b));
      if (a->w == 1) return b->c ? a : mkNot(a);
    } else if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) {
      return mkOp(E_AND, 1, mkOp(E_EQ, 1, a->a, b->a), mkOp(E_EQ, 1, a->b, b->b));
    } else if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkOp(E_EQ, 1, a->a, b->a);
    break;
  case E_ULT: if (a == b) return mkConst(0, 1); if (isC(b, 0)) return mkConst(0, 1); if (isC(b, 1)) return mkOp(E_EQ, 1, a, mkConst(0, a->w)); 
    if (isC(b) && a->op == E_ZEXT) { if (b->c >> a->a->w) return mkConst(1, 1); return mkOp(E_ULT, 1, a->a, mkConst(b->c, a->a->w)); } break;
  case E_ULE: if (a == b) return mkConst(1, 1); break;
  case E_SLT: if (a == b) return mkConst(0, 1); break;
  case E_SLE: if (a == b) return mkConst(1, 1); break;
  default: break;
  }
  Expr k = blank(); k.op = op; k.w = w; k.aux = aux; k.a = a; k.b = b; k.d = d; k.mask = mask; return intern(k);
}
static const char *names[] = {"const", "tab", "concat", "extract", "zext", "sext", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite"};
std::string exprStr(Expr *e, int depth) {
  if (!e) return "";
  if (e->op == E_CONST) return std::to_string((u64)e->c) + ":" + std::to_string(e->w);
  if (e->op == E_TAB) return "tab" + std::to_string(e->t->id) + "[v" + std::to_string(e->var) + "]:" + std::to_string(e->w);
  if (depth == 0) return "...";
  std::string s = std::string("(") + names[e->op];
  if (e->op == E_EXTRACT) s += std::to_string(e->aux);
  s += ":" + std::to_string(e->w);
  for (Expr *x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
