#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <algorithm>
SolverStats g_ss; unsigned g_solverTimeoutMs = 20000;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Z { z3::context c; z3::solver s; std::unordered_map<Expr *, z3::expr> memo; std::vector<z3::expr> vars;
  Z() : s(c, "QF_BV") { z3::params p(c); p.set("timeout", g_solverTimeoutMs); s.set(p); for (unsigned i = 0; i < MAXVARS; i++) vars.push_back(c.bv_const(("b" + std::to_string(i)).c_str(), 8)); } };
static Z *z = nullptr; static u64 zUses = 0;
static Z &Zc() { if (z && zUses > 20000) { delete z; z = nullptr; zUses = 0; } if (!z) z = new Z; zUses++; return *z; }
static z3::expr bvc(Z &Z, u128 v, unsigned w) {
  if (w <= 64) return Z.c.bv_val((uint64_t)v, w);
  return z3::concat(Z.c.bv_val((uint64_t)(v >> 64), w - 64), Z.c.bv_val((uint64_t)v, 64));
}
static z3::expr b2bv(Z &Z, const z3::expr &b) { return z3::ite(b, Z.c.bv_val(1, 1), Z.c.bv_val(0, 1)); }
static z3::expr tabExpr(Z &Z, Expr *e) {
  // piecewise: maximal runs where v[i] is constant or i + const
  z3::expr x = Z.vars[e->var]; unsigned w = e->w; const u64 *v = e->t->v; u64 m = maskw(w);
  struct Seg { int lo, hi; bool lin; u64 k; }; std::vector<Seg> segs;
  for (int i = 0; i < 256;) {
    int j = i + 1; while (j < 256 && v[j] == v[i]) j++;
    int l = i + 1; u64 k = (v[i] - (u64)i) & m; if (w >= 8) while (l < 256 && ((v[l] - (u64)l) & m) == k) l++;
    if (l > j) { segs.push_back({i, l - 1, true, k}); i = l; } else { segs.push_back({i, j - 1, false, v[i]}); i = j; }
  }
  auto val = [&](const Seg &s) { if (!s.lin) return bvc(Z, s.k, w); z3::expr zx = w > 8 ? z3::zext(x, w - 8) : x; return s.k ? zx + bvc(Z, s.k, w) : zx; };
  z3::expr r = val(segs.back());
  for (int i = (int)segs.size() - 2; i >= 0; i--) r = z3::ite(z3::ule(x, Z.c.bv_val(segs[i].hi, 8)), val(segs[i]), r);
  return r;
}
static z3::expr tr(Z &Z, Expr *e) {
  auto it = Z.memo.find(e); if (it != Z.memo.end()) return it->second;
  z3::expr r(Z.c);
  switch (e->op) {
  case E_CONST: r = bvc(Z, e->c, e->w); break;
  case E_TAB: r = tabExpr(Z, e); break;
  default: {
    z3::expr a = tr(Z, e->a); z3::expr b = e->b ? tr(Z, e->b) : a;
    switch (e->op) {
    case E_CONCAT: r = z3::concat(a, b); break;
    case E_EXTRACT: r = a.extract(e->aux + e->w - 1, e->aux); break;
    case E_ZEXT: r = z3::zext(a, e->w - e->a->w); break;
    case E_SEXT: r = z3::sext(a, e->w - e->a->w); break;
    case E_ADD: r = a + b; break; case E_SUB: r = a - b; break; case E_MUL: r = a * b; break;
    case E_UDIV: r = z3::udiv(a, b); break; case E_SDIV: r = a / b; break; case E_UREM: r = z3::urem(a, b); break; case E_SREM: r = z3::srem(a, b); break;
    case E_AND: r = a & b; break; case E_OR: r = a | b; break; case E_XOR: r = a ^ b; break;
    case E_SHL: r = z3::shl(a, b); break; case E_LSHR: r = z3::lshr(a, b); break; case E_ASHR: r = z3::ashr(a, b); break;
    case E_EQ: r = b2bv(Z, a == b); break; case E_ULT: r = b2bv(Z, z3::ult(a, b)); break; case E_ULE: r = b2bv(Z, z3::ule(a, b)); break;
    case E_SLT: r = b2bv(Z, z3::slt(a, b)); break; case E_SLE: r = b2bv(Z, z3::sle(a, b)); break;
    case E_ITE: r = z3::ite(a == Z.c.bv_val(1, 1), b, tr(Z, e->d)); break;
    default: abort();
    } } }
  Z.memo.emplace(e, r); return r;
}
static z3::expr domExpr(Z &Z, unsigned v, const Dom &d) {
  z3::expr_vector ors(Z.c); z3::expr x = Z.vars[v];
  for (int i = 0; i < 256;) { if (!d.has(i)) { i++; continue; } int j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
    if (i == j) ors.push_back(x == Z.c.bv_val(i, 8)); else ors.push_back(z3::ule(Z.c.bv_val(i, 8), x) && z3::ule(x, Z.c.bv_val(j, 8))); i = j + 1; }
  if (ors.empty()) return Z.c.bool_val(false);
  return z3::mk_or(ors);
}
struct CacheEnt { SRes r; std::vector<std::pair<u8, u8>> m; };
static std::unordered_map<std::string, CacheEnt> cache;
SRes solverCheck(const std::vector<Expr *> &cs, const Dom *doms, u64 vars, u8 *model) {
  std::string key; key.reserve(cs.size() * 4 + 40 * __builtin_popcountll(vars));
  std::vector<u32> ids; for (auto *e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  key.append((const char *)ids.data(), ids.size() * 4);
  for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); key.push_back((char)v); key.append((const char *)doms[v].w, 32); }
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cacheHits++; for (auto &p : it->second.m) model[p.first] = p.second; return it->second.r; }
  double t0 = now(); Z &Z = Zc(); SRes res = S_UNKNOWN; CacheEnt ent;
  try {
    Z.s.push();
    for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); if (!(doms[v] == Dom::full())) Z.s.add(domExpr(Z, v, doms[v])); }
    for (auto *e : cs) Z.s.add(tr(Z, e) == Z.c.bv_val(1, 1));
    auto r = Z.s.check(); g_ss.queries++;
    if (r == z3::sat) { res = S_SAT; g_ss.sat++; z3::model mo = Z.s.get_model();
      for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); z3::expr val = mo.eval(Z.vars[v], true); model[v] = (u8)val.get_numeral_uint(); ent.m.push_back({(u8)v, model[v]}); }
      for (auto *e : cs) if (!evalExpr(e, model)) { fprintf(stderr, "symrs: solver model does not satisfy %s\n", exprStr(e).c_str()); abort(); }
      for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); if (!doms[v].has(model[v])) { fprintf(stderr, "symrs: solver model outside domain\n"); abort(); } }
    } else if (r == z3::unsat) { res = S_UNSAT; g_ss.unsat++; } else g_ss.unknown++;
    Z.s.pop();
  } catch (z3::exception &e) { fprintf(stderr, "z3: %s\n", e.msg()); g_ss.unknown++; delete z; z = nullptr; }
  g_ss.time += now() - t0; ent.r = res; cache.emplace(key, ent); return res;
}
struct DK { u64 w[4]; u32 t; bool operator==(const DK &o) const { return t == o.t && !memcmp(w, o.w, 32); } };
struct DH { size_t operator()(const DK &k) const { u64 h = k.t; for (auto x : k.w) { h = h * 0x9e3779b97f4a7c15ull + x; h ^= h >> 29; } return h; } };
static std::unordered_map<DK, bool, DH> dcache;
void solverConfirmDom(const Dom &dom, Expr *tab, bool expect) {
  DK k; memcpy(k.w, dom.w, 32); k.t = tab->t->id;
  auto it = dcache.find(k); if (it != dcache.end()) { g_ss.domCache++; if (it->second != expect) { fprintf(stderr, "symrs: domain/solver disagreement (cached)\n"); abort(); } return; }
  double t0 = now(); Z &Z = Zc(); Z.s.push(); Z.s.add(domExpr(Z, tab->var, dom)); Z.s.add(tr(Z, tab) == Z.c.bv_val(1, 1));
  auto r = Z.s.check(); g_ss.queries++; g_ss.domQueries++; if (r == z3::sat) g_ss.sat++; else if (r == z3::unsat) g_ss.unsat++; else g_ss.unknown++;
  Z.s.pop(); g_ss.time += now() - t0; dcache.emplace(k, r == z3::sat);
  if (r != z3::unknown && (r == z3::sat) != expect) { fprintf(stderr, "symrs: domain/solver disagreement\n"); abort(); }
}
