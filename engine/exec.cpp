// Symbolic executor for the LLVM IR of the code under test.
#include "ir.h"
#include "solver.h"
#include <algorithm>
#include <memory>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Module *M;

// ------------------------------------------------------------------ memory
struct Obj { u32 ref; u8 ro; u8 freed; u64 size; u8 *data; Expr **sym; };
static const unsigned PG = 64;
struct Page { u32 ref; Obj *o[PG]; };
static Obj *newObj(u64 size) { Obj *o = (Obj *)malloc(sizeof(Obj)); o->ref = 1; o->ro = 0; o->freed = 0; o->size = size; o->data = (u8 *)calloc(size ? size : 1, 1); o->sym = nullptr; return o; }
static void unrefObj(Obj *o) { if (o && --o->ref == 0) { free(o->data); free(o->sym); free(o); } }
static Obj *cloneObj(Obj *o) { Obj *n = (Obj *)malloc(sizeof(Obj)); *n = *o; n->ref = 1; n->data = (u8 *)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size); if (o->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * o->size); memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); } return n; }
static void unrefPage(Page *p) { if (p && --p->ref == 0) { for (auto *o : p->o) unrefObj(o); free(p); } }

struct Memo { string key; u64 at; };
struct Frame { u32 ref; Func *f; u32 pc; i32 retDst; Edge *normal; vector<u32> allocas; Val *regs; std::shared_ptr<Memo> memo; };
static Frame *newFrame(Func *f) { Frame *fr = new Frame; fr->ref = 1; fr->f = f; fr->pc = 0; fr->retDst = -1; fr->normal = nullptr; fr->regs = (Val *)malloc(sizeof(Val) * (f->nslots + 1)); memset((void *)fr->regs, 0, sizeof(Val) * (f->nslots + 1)); return fr; }
static void unrefFrame(Frame *f) { if (--f->ref == 0) { free(f->regs); delete f; } }
static Frame *cloneFrame(Frame *o) { Frame *n = new Frame(*o); n->ref = 1; n->regs = (Val *)malloc(sizeof(Val) * (o->f->nslots + 1)); memcpy((void *)n->regs, o->regs, sizeof(Val) * (o->f->nslots + 1)); return n; }

struct Input { u8 kind; u32 a, b; };         // 'b': vars a..a+b ; 'c': choice value a of b
struct SymHash { vector<Expr *> b; vector<u8> sub; };
struct State {
  vector<Page *> pages; vector<u32> freeIds; u32 nextId; vector<Frame *> stack; Dom doms[MAXVARS]; u8 model[MAXVARS]; u32 nvars = 0; vector<Expr *> cs; u64 csMask = 0; vector<Input> inputs; vector<vector<Expr *>> obs; vector<SymHash> hashes; std::vector<string> reached;
  u64 instrs = 0; u64 forks = 0; string label; u32 expectPanic = 0; u64 allocBytes = 0;
  State() {} 
  State(const State &o) = default;
  ~State() {}
};
static State *cloneState(State *s) { State *n = new State(*s); for (auto *p : n->pages) if (p) p->ref++; for (auto *f : n->stack) f->ref++; return n; }
static void freeState(State *s) { for (auto *p : s->pages) unrefPage(p); for (auto *f : s->stack) unrefFrame(f); delete s; }

static Obj *getObj(State *s, u32 id) { u32 pi = id / PG; if (pi >= s->pages.size() || !s->pages[pi]) return nullptr; return s->pages[pi]->o[id % PG]; }
static void setObj(State *s, u32 id, Obj *o) {
  u32 pi = id / PG; if (pi >= s->pages.size()) s->pages.resize(pi + 1, nullptr); Page *&p = s->pages[pi];
  if (!p) { p = (Page *)calloc(1, sizeof(Page)); p->ref = 1; }
  else if (p->ref > 1) { Page *n = (Page *)malloc(sizeof(Page)); *n = *p; n->ref = 1; for (auto *x : n->o) if (x) x->ref++; p->ref--; p = n; }
  unrefObj(p->o[id % PG]); p->o[id % PG] = o;
}
static Obj *getW(State *s, u32 id) { // writable
  u32 pi = id / PG; Page *&p = s->pages[pi];
  if (p->ref > 1) { Page *n = (Page *)malloc(sizeof(Page)); *n = *p; n->ref = 1; for (auto *x : n->o) if (x) x->ref++; p->ref--; p = n; }
  Obj *&o = p->o[id % PG]; if (o->ref > 1) { Obj *n = cloneObj(o); o->ref--; o = n; } return o;
}
static u64 allocObj(State *s, u64 size) { s->allocBytes += size + 64; u32 id; if (!s->freeIds.empty()) { id = s->freeIds.back(); s->freeIds.pop_back(); } else id = s->nextId++; setObj(s, id, newObj(size)); return (u64)id << OBJ_SHIFT; }
static void freeObj(State *s, u32 id) { if (Obj *o = getObj(s, id)) s->allocBytes -= std::min<u64>(s->allocBytes, o->size + 64); setObj(s, id, nullptr); s->freeIds.push_back(id); }

// ------------------------------------------------------------------ run configuration and results
struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<u64> paths; std::atomic<u64> viol; };
static Shared *sh; static string outDir; static int maxJobs = 8; static u64 maxInstr = 400000000ull; static u64 maxBytes = 256ull << 20; static double deadline = 0; static u64 params[16]; static u64 maxViol = 40;
static u64 statInstr = 0, statPaths = 0, statForks = 0, statPanics = 0, statErrors = 0, statAbandoned = 0, statLimit = 0, statChecks = 0, statAssumeEnd = 0, statConcretize = 0, statHashForks = 0;
static std::map<string, u64> reachCount; static std::map<string, u64> eventCount; static vector<string> events; static std::map<string, string> samples; static u64 sampleSeen = 0; static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static int sampleK = 6; static bool verbose = false; static vector<State *> work; static u64 finishedByLabel = 0;
static string jstr(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string inputsJson(State *s, const u8 *model) {
  string r = "["; bool first = true; for (auto &in : s->inputs) { if (!first) r += ","; first = false; if (in.kind == 'c') r += "[\"c\"," + std::to_string(in.a) + "]"; else { r += "[\"b\",\""; for (u32 i = 0; i < in.b; i++) { char b[4]; snprintf(b, 4, "%02x", model[in.a + i]); r += b; } r += "\"]"; } }
  return r + "]"; }
static string backtrace(State *s) { string r; int n = 0; for (int i = (int)s->stack.size() - 1; i >= 0 && n < 14; i--, n++) { if (n) r += " < "; r += s->stack[i]->f->name; } return r; }
static void event(State *s, const string &kind, const string &id, const u8 *model = nullptr) {
  u64 &c = eventCount[kind + "|" + id]; c++; if (kind == "limit" && c > 4) sh->viol++; if (c > 4) return; if (kind != "info") sh->viol++;
  events.push_back("{\"kind\":" + jstr(kind) + ",\"id\":" + jstr(id) + ",\"label\":" + jstr(s->label) + ",\"inputs\":" + inputsJson(s, model ? model : s->model) + ",\"stack\":" + jstr(backtrace(s)) + ",\"instrs\":" + std::to_string(s->instrs) + "}");
  if (verbose) fprintf(stderr, "EVENT %s\n", events.back().c_str());
}

// ------------------------------------------------------------------ constraints
static bool tabUnique(const Dom &d, Table *t, u64 &v) { bool have = false; for (int k = 0; k < 4; k++) for (u64 m = d.w[k]; m; m &= m - 1) { u64 x = t->v[k * 64 + __builtin_ctzll(m)]; if (!have) { v = x; have = true; } else if (x != v) return false; } return have; }
static Expr *simpRec(State *s, Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->op == E_CONST) return e;
  if (e->op == E_TAB) { u64 v; if (tabUnique(s->doms[e->var], e->t, v)) return mkConst(v, e->w); return e; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *a = simpRec(s, e->a, memo), *b = e->b ? simpRec(s, e->b, memo) : nullptr, *d = e->d ? simpRec(s, e->d, memo) : nullptr;
  Expr *r = (a == e->a && b == e->b && d == e->d) ? e : mkOp((EOp)e->op, e->w, a, b, d, e->aux);
  memo[e] = r; return r;
}
static Expr *simp(State *s, Expr *e) { if (e->op == E_CONST) return e; if (e->op == E_TAB) { u64 v; if (tabUnique(s->doms[e->var], e->t, v)) return mkConst(v, e->w); return e; } std::unordered_map<Expr *, Expr *> memo; return simpRec(s, e, memo); }
static bool isNot(Expr *e, Expr *&in) { if (e->op == E_XOR && e->w == 1 && isC(e->b, 1)) { in = e->a; return true; } return false; }
// e as a conjunction of single-variable tables?
static bool conj(Expr *e, bool neg, vector<std::pair<u32, Dom>> &out) {
  Expr *in; if (e->op == E_TAB && e->w == 1) { out.push_back({e->var, neg ? ~e->t->ones : e->t->ones}); return true; }
  if (e->op == E_CONST) return false;
  if (isNot(e, in)) return conj(in, !neg, out);
  if ((!neg && e->op == E_AND && e->w == 1) || (neg && e->op == E_OR && e->w == 1)) return conj(e->a, neg, out) && conj(e->b, neg, out);
  return false;
}
static u64 component(State *s, u64 mask, vector<Expr *> &cs) {
  vector<char> in(s->cs.size(), 0); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < s->cs.size(); i++) if (!in[i] && (s->cs[i]->mask & mask)) { in[i] = 1; cs.push_back(s->cs[i]); if ((mask | s->cs[i]->mask) != mask) { mask |= s->cs[i]->mask; } ch = true; } }
  return mask;
}
static int domPick(const Dom &d) { int n = d.count(); int k = rnd() % n; for (int w = 0; w < 4; w++) { int c = __builtin_popcountll(d.w[w]); if (k >= c) { k -= c; continue; } u64 m = d.w[w]; while (k--) m &= m - 1; return w * 64 + __builtin_ctzll(m); } return -1; }
// satisfiability of state constraints (component of `extra`) with extra; fills `model` for the component's variables
static SRes sat(State *s, const vector<Expr *> &extra, u64 emask, const Dom *doms, u8 *model) {
  vector<Expr *> cs; u64 vars = component(s, emask, cs); cs.insert(cs.end(), extra.begin(), extra.end());
  auto good = [&](u8 *m) { for (auto *e : cs) if (!evalExpr(e, m)) return false; return true; };
  bool indom = true; for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); if (doms[v].empty()) return S_UNSAT; if (!doms[v].has(model[v])) indom = false; }
  if (indom && good(model)) return S_SAT;
  // witness search: any hit is a verified model; only a miss needs the solver
  u8 tmp[MAXVARS]; u64 em = emask;
  for (int t = 0; t < 8; t++) { memcpy(tmp, model, sizeof tmp); for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); if (((em >> v) & 1) || !doms[v].has(tmp[v]) || t > 4) tmp[v] = domPick(doms[v]); }
    vector<std::pair<u32, Dom>> cj; for (auto *e : extra) { vector<std::pair<u32, Dom>> c1; if (conj(e, false, c1)) for (auto &p : c1) { Dom d = doms[p.first] & p.second; if (!d.empty()) tmp[p.first] = domPick(d); } }
    if (good(tmp)) { for (u64 m = vars; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); model[v] = tmp[v]; } return S_SAT; } }
  return solverCheck(cs, doms, vars, model);
}
static void pushC(State *s, Expr *c) { for (auto *x : s->cs) if (x == c) return; s->cs.push_back(c); s->csMask |= c->mask; }
static bool addRaw(State *s, Expr *c, u64 &touched) { // structural part; false if trivially infeasible
  if (c->op == E_CONST) return c->c != 0;
  if (c->op == E_TAB) { s->doms[c->var] = s->doms[c->var] & c->t->ones; touched |= c->mask; return !s->doms[c->var].empty(); }
  if (c->op == E_AND && c->w == 1) return addRaw(s, c->a, touched) && addRaw(s, c->b, touched);
  Expr *in; if (isNot(c, in)) {
    if (in->op == E_OR && in->w == 1) return addRaw(s, mkNot(in->a), touched) && addRaw(s, mkNot(in->b), touched);
    Expr *si = simp(s, in); if (si != in) return addRaw(s, mkNot(si), touched);
  } else { Expr *sc = simp(s, c); if (sc != c) return addRaw(s, sc, touched); }
  pushC(s, c); touched |= c->mask; return true;
}
static bool commit(State *s, u64 touched) {
  u64 rest = touched;
  for (u64 m = touched; m; m &= m - 1) { unsigned v = __builtin_ctzll(m); if (s->doms[v].empty()) return false; if (!((s->csMask >> v) & 1)) { if (!s->doms[v].has(s->model[v])) s->model[v] = s->doms[v].first(); rest &= ~(1ull << v); } }
  if (!rest) return true;
  SRes r = sat(s, {}, rest, s->doms, s->model); if (r == S_UNKNOWN) { statAbandoned++; return false; } return r == S_SAT;
}
static bool addC(State *s, Expr *c) { u64 t = 0; if (!addRaw(s, c, t)) return false; return commit(s, t); }
static bool addDom(State *s, unsigned var, const Dom &d) { s->doms[var] = s->doms[var] & d; return commit(s, 1ull << var); }
// may e be true / false?  bit0: may be true, bit1: may be false
static int mayBe(State *s, Expr *e) {
  if (e->op == E_CONST) return e->c ? 1 : 2;
  if (e->op == E_TAB && !((s->csMask >> e->var) & 1)) { Dom &d = s->doms[e->var]; bool t = !(d & e->t->ones).empty(), f = !(d & ~e->t->ones).empty(); solverConfirmDom(d, e, t); if (t && f) solverConfirmDom(d, mkNot(e), f); return (t ? 1 : 0) | (f ? 2 : 0); }
  for (auto *x : s->cs) { if (x == e) return 1; Expr *in; if (isNot(x, in) && in == e) return 2; if (isNot(e, in) && in == x) return 2; }
  if (!(e->mask & s->csMask)) { vector<std::pair<u32, Dom>> cj; bool pos = conj(e, false, cj), negc = false; if (!pos) { cj.clear(); negc = conj(e, true, cj); }
    if (pos || negc) { std::map<u32, Dom> acc; for (auto &p : cj) { auto it = acc.find(p.first); if (it == acc.end()) acc[p.first] = p.second; else it->second = it->second & p.second; }
      bool t = true, f = false; for (auto &p : acc) { Dom &d = s->doms[p.first]; if ((d & p.second).empty()) t = false; if (!(d & ~p.second).empty()) f = true; u64 tv[256]; for (int i = 0; i < 256; i++) tv[i] = p.second.has(i); Expr *te = mkTab(p.first, 1, tv); if (te->op == E_TAB) solverConfirmDom(d, te, !(d & p.second).empty()); }
      int r = (t ? 1 : 0) | (f ? 2 : 0); if (negc) r = ((r & 1) << 1) | (r >> 1); return r; } }
  u8 m[MAXVARS]; memcpy(m, s->model, sizeof m); int r = evalExpr(e, m) ? 1 : 2;
  SRes o = sat(s, {r == 1 ? mkNot(e) : e}, e->mask, s->doms, m); if (o == S_UNKNOWN) { statAbandoned++; return r; } if (o == S_SAT) r = 3; return r;
}

// ------------------------------------------------------------------ state control
static State *cur; static bool ended; // `ended`: the current state is finished (or replaced by children)
static void endPath(State *s, const char *why);
static void pushWork(State *s) { work.push_back(s); }
// Restrict cur so that e has one value; siblings are queued to retry the current instruction. Returns false when the path died.
static bool concretize(State *s, Expr *e, u64 &out) {
  for (;;) {
    e = simp(s, e); if (e->op == E_CONST) { out = (u64)e->c; return true; }
    Expr *leaf = nullptr; 
    if (e->op == E_TAB) leaf = e; else { // choose the table leaf with fewest distinct values
      vector<Expr *> st{e}; std::unordered_set<Expr *> seen; size_t best = 1000000; while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; if (x->op == E_TAB) { std::unordered_set<u64> vals; Dom &d = s->doms[x->var]; for (int i = 0; i < 256; i++) if (d.has(i)) vals.insert(x->t->v[i]); if (vals.size() > 1 && vals.size() < best) { best = vals.size(); leaf = x; } } else { st.push_back(x->a); st.push_back(x->b); st.push_back(x->d); } } }
    if (!leaf) { event(s, "engine", "concretize: no leaf " + exprStr(e)); return false; }
    std::map<u64, Dom> groups; Dom d = s->doms[leaf->var]; for (int i = 0; i < 256; i++) if (d.has(i)) { auto it = groups.find(leaf->t->v[i]); if (it == groups.end()) it = groups.emplace(leaf->t->v[i], Dom::none()).first; it->second.set(i); }
    statConcretize++; unsigned var = leaf->var; std::map<u64, Dom>::iterator mine = groups.begin();
    vector<State *> kids; for (auto it = std::next(groups.begin()); it != groups.end(); ++it) { State *n = cloneState(s); statForks++; n->forks++; if (addDom(n, var, it->second)) kids.push_back(n); else freeState(n); }
    bool ok = addDom(s, var, mine->second);
    for (auto *k : kids) pushWork(k);
    if (!ok) return false;
  }
}
static u64 concVal(State *s, const Val &v, bool &ok) { if (!v.e) { ok = true; return v.v; } u64 r = 0; ok = concretize(s, v.e, r); return r; }

static void memError(State *s, const char *what, u64 addr) { char b[200]; snprintf(b, 200, "%s at object %u offset %u", what, (u32)(addr >> OBJ_SHIFT), (u32)addr); event(s, "memory", b); }
static inline Expr *byteExpr(State *s, Obj *o, u64 off, u8 &cv) { // nullptr: concrete in cv
  Expr *e = o->sym ? o->sym[off] : nullptr; if (!e) { cv = o->data[off]; return nullptr; }
  u64 v; if (e->op == E_TAB && tabUnique(s->doms[e->var], e->t, v)) { cv = (u8)v; return nullptr; } return e; }
static bool loadAt(State *s, u64 addr, unsigned size, unsigned w, Val &out) {
  u32 id = addr >> OBJ_SHIFT; u64 off = addr & 0xffffffffull; Obj *o = getObj(s, id);
  if (!o || off + size > o->size) { memError(s, "out-of-bounds load", addr); return false; }
  if (!o->sym) { if (w <= 64) { u64 v = 0; memcpy(&v, o->data + off, size); out = Val{v & maskw(w), nullptr}; return true; } u128 v = 0; memcpy(&v, o->data + off, size); out = Val{0, mkConst(v, w)}; return true; }
  bool any = false; for (unsigned i = 0; i < size; i++) if (o->sym[off + i]) { any = true; break; }
  if (!any) { if (w <= 64) { u64 v = 0; memcpy(&v, o->data + off, size); out = Val{v & maskw(w), nullptr}; return true; } u128 v = 0; memcpy(&v, o->data + off, size); out = Val{0, mkConst(v, w)}; return true; }
  Expr *r = nullptr; for (unsigned i = 0; i < size; i++) { u8 cv; Expr *b = byteExpr(s, o, off + i, cv); if (!b) b = mkConst(cv, 8); r = r ? mkOp(E_CONCAT, 8 * (i + 1), b, r) : b; }
  if (w < 8 * size) r = mkOp(E_EXTRACT, w, r, nullptr, nullptr, 0);
  out = fromE(r); return true;
}
static bool storeAt(State *s, u64 addr, unsigned size, unsigned w, const Val &v) {
  u32 id = addr >> OBJ_SHIFT; u64 off = addr & 0xffffffffull; Obj *o = getObj(s, id);
  if (!o || off + size > o->size) { memError(s, "out-of-bounds store", addr); return false; }
  if (o->ro) { memError(s, "store to constant", addr); return false; }
  o = getW(s, id);
  if (!v.e) { memcpy(o->data + off, &v.v, size); if (o->sym) memset(o->sym + off, 0, sizeof(Expr *) * size); return true; }
  if (v.e->op == E_CONST) { memcpy(o->data + off, &v.e->c, size); if (o->sym) memset(o->sym + off, 0, sizeof(Expr *) * size); return true; }
  if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
  Expr *e = v.e; if (w < 8 * size) e = mkOp(E_ZEXT, 8 * size, e);
  for (unsigned i = 0; i < size; i++) { Expr *b = size == 1 ? e : mkOp(E_EXTRACT, 8, e, nullptr, nullptr, 8 * i); if (isC(b)) { o->data[off + i] = (u8)b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
  return true;
}
// load through a symbolic address: 0 dead, 1 done, 2 retry (address concretised by forking)
static int loadSym(State *s, Expr *ae, unsigned size, unsigned w, Val &out) {
  ae = simp(s, ae); if (ae->op == E_CONST) return loadAt(s, (u64)ae->c, size, w, out) ? 1 : 0;
  if (ae->op == E_TAB && w <= 64) {
    Dom &d = s->doms[ae->var]; bool ok = true; u64 tv[256]; memset(tv, 0, sizeof tv); u64 lastA = 0, lastV = 0; bool have = false;
    for (int i = 0; i < 256 && ok; i++) { u64 a = ae->t->v[i]; bool in = d.has(i); if (have && a == lastA) { tv[i] = lastV; continue; } Obj *o = getObj(s, a >> OBJ_SHIFT); u64 off = a & 0xffffffffull; if (!o || off + size > o->size) { if (in) ok = false; continue; } if (o->sym) { bool any = false; for (unsigned k = 0; k < size; k++) if (o->sym[off + k]) any = true; if (any) { if (in) ok = false; continue; } } u64 v = 0; memcpy(&v, o->data + off, size); tv[i] = v & maskw(w); lastA = a; lastV = tv[i]; have = true; }
    if (ok) { out = fromE(mkTab(ae->var, w, tv)); return 1; }
  }
  u64 a; if (!concretize(s, ae, a)) return 0; return loadAt(s, a, size, w, out) ? 1 : 0;
}
static bool readBytes(State *s, u64 addr, u64 n, vector<Expr *> &out) { u32 id = addr >> OBJ_SHIFT; u64 off = addr & 0xffffffffull; if (n == 0) return true; Obj *o = getObj(s, id); if (!o || off + n > o->size) { memError(s, "out-of-bounds read", addr); return false; } for (u64 i = 0; i < n; i++) { u8 cv; Expr *b = byteExpr(s, o, off + i, cv); out.push_back(b ? b : mkConst(cv, 8)); } return true; }
static bool readStr(State *s, u64 addr, u64 n, string &out) { u32 id = addr >> OBJ_SHIFT; u64 off = addr & 0xffffffffull; if (n == 0) return true; Obj *o = getObj(s, id); if (!o || off + n > o->size) return false; for (u64 i = 0; i < n; i++) { u8 cv; Expr *b = byteExpr(s, o, off + i, cv); out.push_back(b ? '?' : (char)cv); } return true; }
static bool copyMem(State *s, u64 dst, u64 src, u64 n) {
  if (!n) return true; Obj *so = getObj(s, src >> OBJ_SHIFT); u64 sof = src & 0xffffffffull; if (!so || sof + n > so->size) { memError(s, "out-of-bounds copy source", src); return false; }
  Obj *dO = getObj(s, dst >> OBJ_SHIFT); u64 dof = dst & 0xffffffffull; if (!dO || dof + n > dO->size || dO->ro) { memError(s, "out-of-bounds copy destination", dst); return false; }
  dO = getW(s, dst >> OBJ_SHIFT); so = getObj(s, src >> OBJ_SHIFT);
  memmove(dO->data + dof, so->data + sof, n);
  if (so->sym) { bool any = dO->sym != nullptr; if (!any) for (u64 i = 0; i < n; i++) if (so->sym[sof + i]) { any = true; break; } if (any) { if (!dO->sym) dO->sym = (Expr **)calloc(dO->size, sizeof(Expr *)); memmove(dO->sym + dof, so->sym + sof, n * sizeof(Expr *)); } }
  else if (dO->sym) memset(dO->sym + dof, 0, n * sizeof(Expr *));
  return true;
}

// ------------------------------------------------------------------ paths
static void endPath(State *s, const char *why) {
  statPaths++; sh->paths++; for (auto &r : s->reached) reachCount[r]++;
  (void)why; sampleSeen++;
  string key = s->label; // keep a few samples, spread over labels
  int slot = -1; if ((int)samples.size() < sampleK) slot = samples.size(); else if (rnd() % sampleSeen < (u64)sampleK) slot = rnd() % sampleK;
  if (slot >= 0) { string o = "["; for (size_t i = 0; i < s->obs.size(); i++) { if (i) o += ","; o += "\""; for (auto *e : s->obs[i]) { char b[4]; snprintf(b, 4, "%02x", (unsigned)evalExpr(e, s->model)); o += b; } o += "\""; } o += "]";
    samples[std::to_string(slot)] = "{\"label\":" + jstr(s->label) + ",\"inputs\":" + inputsJson(s, s->model) + ",\"obs\":" + o + "}"; }
}

enum Intr { IN_NONE = -1, IN_NOP, IN_MEMCPY, IN_MEMSET, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_CTPOP, IN_CTTZ, IN_CTLZ, IN_BSWAP, IN_BITREV, IN_ABS, IN_FSHL, IN_FSHR, IN_USUBSAT, IN_UADDSAT, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UCMP, IN_SCMP, IN_TRAP, IN_TLS, IN_EXPECT, IN_ALLOC, IN_ALLOCZ, IN_DEALLOC, IN_REALLOC, IN_MALLOC, IN_CALLOC, IN_FREE, IN_CREALLOC, IN_MEMALIGN, IN_BCMP, IN_MEMCMP, IN_STRLEN, IN_GETRANDOM, IN_SYSCALL, IN_WRITE, IN_PANIC, IN_ABORT, IN_SYM_BYTES, IN_SYM_UTF8, IN_SYM_SET, IN_SYM_CHOOSE, IN_SYM_ASSUME, IN_SYM_FAIL, IN_SYM_CHECK, IN_SYM_REACH, IN_SYM_OBSERVE, IN_SYM_PARAM, IN_SYM_LABEL, IN_SYM_DONE, IN_SYM_CONC, IN_HASHWRITE, IN_HASHFINISH, IN_RET0, IN_ERRNO, IN_VECREDOR, IN_VECREDAND, IN_VECREDUMAX, IN_ISCONST, IN_SSUBSAT, IN_SADDSAT, IN_VECREDADD, IN_ALLOCSHIM, IN_EXIT };
struct SR { const char *pat; int id; bool prefix; };
static int classify(const string &n) {
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  auto suf = [&](const char *p) { size_t l = strlen(p); return n.size() >= l && n.compare(n.size() - l, l, p) == 0; };
  auto has = [&](const char *p) { return n.find(p) != string::npos; };
  if (pre("llvm.")) {
    if (pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.dbg") || pre("llvm.donothing") || pre("llvm.x86.sse2.pause") || pre("llvm.prefetch") || pre("llvm.invariant") || pre("llvm.va_") || pre("llvm.fake.use")) return IN_NOP;
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return IN_MEMCPY; if (pre("llvm.memset")) return IN_MEMSET;
    if (pre("llvm.umax")) return IN_UMAX; if (pre("llvm.umin")) return IN_UMIN; if (pre("llvm.smax")) return IN_SMAX; if (pre("llvm.smin")) return IN_SMIN;
    if (pre("llvm.ctpop")) return IN_CTPOP; if (pre("llvm.cttz")) return IN_CTTZ; if (pre("llvm.ctlz")) return IN_CTLZ; if (pre("llvm.bswap")) return IN_BSWAP; if (pre("llvm.bitreverse")) return IN_BITREV; if (pre("llvm.abs")) return IN_ABS;
    if (pre("llvm.fshl")) return IN_FSHL; if (pre("llvm.fshr")) return IN_FSHR; if (pre("llvm.usub.sat")) return IN_USUBSAT; if (pre("llvm.uadd.sat")) return IN_UADDSAT;
    if (pre("llvm.uadd.with")) return IN_UADDO; if (pre("llvm.usub.with")) return IN_USUBO; if (pre("llvm.umul.with")) return IN_UMULO; if (pre("llvm.sadd.with")) return IN_SADDO; if (pre("llvm.ssub.with")) return IN_SSUBO; if (pre("llvm.smul.with")) return IN_SMULO;
    if (pre("llvm.ucmp")) return IN_UCMP; if (pre("llvm.scmp")) return IN_SCMP; if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return IN_TRAP; if (pre("llvm.threadlocal")) return IN_TLS; if (pre("llvm.expect")) return IN_EXPECT;
    if (pre("llvm.vector.reduce.or")) return IN_VECREDOR; if (pre("llvm.vector.reduce.and")) return IN_VECREDAND; if (pre("llvm.vector.reduce.add")) return IN_VECREDADD; if (pre("llvm.is.constant")) return IN_ISCONST;
    return IN_NONE;
  }
  if (suf("12___rust_alloc")) return IN_ALLOC; if (suf("19___rust_alloc_zeroed")) return IN_ALLOCZ; if (suf("14___rust_dealloc")) return IN_DEALLOC; if (suf("14___rust_realloc")) return IN_REALLOC; if (has("rust_no_alloc_shim_is_unstable")) return IN_NOP;
  if (n == "malloc") return IN_MALLOC; if (n == "calloc") return IN_CALLOC; if (n == "free") return IN_FREE; if (n == "realloc") return IN_CREALLOC; if (n == "posix_memalign") return IN_MEMALIGN; if (n == "bcmp") return IN_BCMP; if (n == "memcmp") return IN_MEMCMP; if (n == "strlen") return IN_STRLEN; if (n == "memcpy" || n == "memmove") return IN_MEMCPY; if (n == "memset") return IN_MEMSET;
  if (n == "getrandom") return IN_GETRANDOM; if (n == "syscall") return IN_SYSCALL; if (n == "write" || n == "writev") return IN_WRITE; if (n == "abort" || n == "exit" || n == "_exit") return IN_ABORT; if (n == "__errno_location") return IN_ERRNO; if (n == "sched_yield") return IN_RET0;
  if (has("4core9panicking9panic_fmt") || has("4core9panicking14panic_nounwind") || has("4core9panicking18panic_nounwind_fmt") || has("3std9panicking11begin_panic") || has("rust_begin_unwind") || has("5alloc5alloc18handle_alloc_error") || has("core9panicking19panic_cannot_unwind")) return IN_PANIC;
  if (has("3std7process5abort") || has("3std7process4exit")) return IN_ABORT;
  if (has("4core4hash3sip") && suf("6Hasher5write") ) return IN_HASHWRITE;
  if (has("4core4hash3sip") && has("6Hasher6finish")) return IN_HASHFINISH;
  if (has("4core4hash3sip") && has("6Hasher5write") && !has("write_") && !has("10write_str")) return IN_HASHWRITE;
  if (n == "sym_bytes") return IN_SYM_BYTES; if (n == "sym_utf8") return IN_SYM_UTF8; if (n == "sym_bytes_in") return IN_SYM_SET; if (n == "sym_choose") return IN_SYM_CHOOSE; if (n == "sym_assume") return IN_SYM_ASSUME; if (n == "sym_fail") return IN_SYM_FAIL; if (n == "sym_check") return IN_SYM_CHECK; if (n == "sym_reach") return IN_SYM_REACH; if (n == "sym_observe") return IN_SYM_OBSERVE; if (n == "sym_param") return IN_SYM_PARAM; if (n == "sym_label") return IN_SYM_LABEL; if (n == "sym_done") return IN_SYM_DONE; if (n == "sym_concretize") return IN_SYM_CONC;
  return IN_NONE;
}
static std::map<u64, std::set<string>> hashedStrings; // concrete strings hashed so far, by length
static Expr *bin(EOp op, unsigned w, const Val &a, const Val &b) { return mkOp(op, w, toE(a, w), toE(b, w)); }
static Val binV(u8 op, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = maskw(w), x = a.v, y = b.v;
    switch (op) { case E_ADD: return {(x + y) & m, 0}; case E_SUB: return {(x - y) & m, 0}; case E_MUL: return {(x * y) & m, 0}; case E_AND: return {x & y, 0}; case E_OR: return {x | y, 0}; case E_XOR: return {x ^ y, 0}; case E_SHL: return {y >= w ? 0 : (x << y) & m, 0}; case E_LSHR: return {y >= w ? 0 : x >> y, 0}; case E_ASHR: return {(u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m, 0}; case E_UDIV: return {y ? x / y : m, 0}; case E_UREM: return {y ? x % y : x, 0}; }
  }
  return fromE(bin((EOp)op, w, a, b));
}
static Val cmpV(u8 p, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) { u64 x = a.v, y = b.v; bool r = false; switch (p) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx(x, w) > sx(y, w); break; case P_SGE: r = sx(x, w) >= sx(y, w); break; case P_SLT: r = sx(x, w) < sx(y, w); break; case P_SLE: r = sx(x, w) <= sx(y, w); break; } return {r, 0}; }
  Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr; switch (p) { case P_EQ: r = mkOp(E_EQ, 1, x, y); break; case P_NE: r = mkNot(mkOp(E_EQ, 1, x, y)); break; case P_UGT: r = mkOp(E_ULT, 1, y, x); break; case P_UGE: r = mkOp(E_ULE, 1, y, x); break; case P_ULT: r = mkOp(E_ULT, 1, x, y); break; case P_ULE: r = mkOp(E_ULE, 1, x, y); break; case P_SGT: r = mkOp(E_SLT, 1, y, x); break; case P_SGE: r = mkOp(E_SLE, 1, y, x); break; case P_SLT: r = mkOp(E_SLT, 1, x, y); break; case P_SLE: r = mkOp(E_SLE, 1, x, y); break; }
  return fromE(r);
}
static Frame *topW(State *s) { Frame *&f = s->stack.back(); if (f->ref > 1) { Frame *n = cloneFrame(f); f->ref--; f = n; } return f; }
static u64 rssMB() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a, b; int k = fscanf(f, "%lu %lu", &a, &b); fclose(f); return k == 2 ? b / 256 : 0; }

// result of an intrinsic: 1 continue, 0 path ended
static std::unordered_map<Func *, u64> execFuncs;

static int doIntrinsic(State *s, Frame *&fr, const Inst &in, CallInfo *ci, int id, Func *callee) {
  auto arg = [&](unsigned i) -> Val { i32 o = ci->args[i]; return o >= 0 ? fr->regs[o] : fr->f->consts[~o]; };
  auto ret = [&](const Val &v) { if (in.dst >= 0) fr->regs[in.dst] = v; };
  auto cv = [&](unsigned i, bool &ok) { Val v = arg(i); return concVal(s, v, ok); };
  unsigned w = ci->retw; bool ok = true;
  auto lanewise1 = [&](auto f) { for (unsigned l = 0; l < ci->lanes; l++) { Val r = f(arg(l)); fr->regs[in.dst + l] = r; } };
  auto lanewise2 = [&](auto f) { for (unsigned l = 0; l < ci->lanes; l++) { Val r = f(arg(l), arg(ci->lanes + l)); fr->regs[in.dst + l] = r; } };
  auto need = [&](Val v) { return concVal(s, v, ok); };
  switch (id) {
  case IN_NOP: return 1;
  case IN_ISCONST: ret({0, 0}); return 1;
  case IN_MEMCPY: { u64 d = cv(0, ok); if (!ok) return 0; u64 sr = cv(1, ok); if (!ok) return 0; u64 n = cv(2, ok); if (!ok) return 0; if (!copyMem(s, d, sr, n)) return 0; if (in.dst >= 0) ret({d, 0}); s->instrs += n / 16; return 1; }
  case IN_MEMSET: { u64 d = cv(0, ok); if (!ok) return 0; Val v = arg(1); u64 n = cv(2, ok); if (!ok) return 0; if (n) { Obj *o = getObj(s, d >> OBJ_SHIFT); u64 off = d & 0xffffffffull; if (!o || off + n > o->size || o->ro) { memError(s, "out-of-bounds memset", d); return 0; } o = getW(s, d >> OBJ_SHIFT); if (!v.e) { memset(o->data + off, (int)v.v, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *)); } else { Expr *b = mkOp(E_EXTRACT, 8, v.e, 0, 0, 0); if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); for (u64 i = 0; i < n; i++) o->sym[off + i] = b; } } if (in.dst >= 0) ret({d, 0}); return 1; }
  case IN_UMAX: lanewise2([&](Val a, Val b) { Val c = cmpV(P_ULT, w, a, b); if (!c.e) return c.v ? b : a; return fromE(mkOp(E_ITE, w, c.e, toE(b, w), toE(a, w))); }); return 1;
  case IN_UMIN: lanewise2([&](Val a, Val b) { Val c = cmpV(P_ULT, w, a, b); if (!c.e) return c.v ? a : b; return fromE(mkOp(E_ITE, w, c.e, toE(a, w), toE(b, w))); }); return 1;
  case IN_SMAX: lanewise2([&](Val a, Val b) { Val c = cmpV(P_SLT, w, a, b); if (!c.e) return c.v ? b : a; return fromE(mkOp(E_ITE, w, c.e, toE(b, w), toE(a, w))); }); return 1;
  case IN_SMIN: lanewise2([&](Val a, Val b) { Val c = cmpV(P_SLT, w, a, b); if (!c.e) return c.v ? a : b; return fromE(mkOp(E_ITE, w, c.e, toE(a, w), toE(b, w))); }); return 1;
  case IN_ABS: lanewise1([&](Val a) { Val c = cmpV(P_SLT, w, a, {0, 0}); Val n = binV(E_SUB, w, {0, 0}, a); if (!c.e) return c.v ? n : a; return fromE(mkOp(E_ITE, w, c.e, toE(n, w), toE(a, w))); }); return 1;
  case IN_UCMP: case IN_SCMP: { unsigned aw = ci->argw[0]; Val a = arg(0), b = arg(1); Val lt = cmpV(id == IN_UCMP ? P_ULT : P_SLT, aw, a, b), eq = cmpV(P_EQ, aw, a, b); if (!lt.e && !eq.e) { ret({lt.v ? maskw(w) : eq.v ? 0 : 1ull, 0}); return 1; } ret(fromE(mkOp(E_ITE, w, toE(lt, 1), mkConst(maskw(w), w), mkOp(E_ITE, w, toE(eq, 1), mkConst(0, w), mkConst(1, w))))); return 1; }
  case IN_CTPOP: case IN_CTTZ: case IN_CTLZ: case IN_BSWAP: case IN_BITREV:
    for (unsigned l = 0; l < ci->lanes; l++) { Val a = arg(l);
      auto calc = [&](u64 x) -> u64 { switch (id) { case IN_CTPOP: return __builtin_popcountll(x); case IN_CTTZ: return x ? __builtin_ctzll(x) : w; case IN_CTLZ: return x ? w - 64 + __builtin_clzll(x) : w; case IN_BSWAP: return __builtin_bswap64(x) >> (64 - w); default: { u64 r = 0; for (unsigned i = 0; i < w; i++) if ((x >> i) & 1) r |= 1ull << (w - 1 - i); return r; } } };
      if (!a.e) { fr->regs[in.dst + l] = {calc(a.v), 0}; continue; }
      if (a.e->op == E_CONST) { event(s, "engine", "wide bit intrinsic"); return 0; }
      if (a.e->op == E_TAB) { u64 tv[256]; for (int i = 0; i < 256; i++) tv[i] = calc(a.e->t->v[i]); fr->regs[in.dst + l] = fromE(mkTab(a.e->var, w, tv)); continue; }
      if (id == IN_BSWAP) { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkOp(E_EXTRACT, 8, a.e, 0, 0, 8 * (w / 8 - 1 - i)); r = r ? mkOp(E_CONCAT, 8 * (i + 1), b, r) : b; } fr->regs[in.dst + l] = fromE(r); continue; }
      if (id == IN_CTTZ || id == IN_CTLZ || id == IN_CTPOP) { // ite chain / sum
        Expr *r = id == IN_CTPOP ? mkConst(0, w) : mkConst(w, w);
        for (unsigned k = 0; k < w; k++) { unsigned i = id == IN_CTTZ ? w - 1 - k : k; Expr *bit = mkOp(E_EXTRACT, 1, a.e, 0, 0, i); if (id == IN_CTPOP) r = mkOp(E_ADD, w, r, mkOp(E_ZEXT, w, bit)); else r = mkOp(E_ITE, w, bit, mkConst(id == IN_CTTZ ? i : w - 1 - i, w), r); } fr->regs[in.dst + l] = fromE(r); continue; }
      u64 x = need(a); if (!ok) return 0; fr->regs[in.dst + l] = {calc(x), 0}; }
    return 1;
  case IN_FSHL: case IN_FSHR: for (unsigned l = 0; l < ci->lanes; l++) { u64 sft = need(arg(2 * ci->lanes + l)); if (!ok) return 0; sft %= w; Val a = arg(l), b = arg(ci->lanes + l); Val r; if (id == IN_FSHL) r = sft ? binV(E_OR, w, binV(E_SHL, w, a, {sft, 0}), binV(E_LSHR, w, b, {w - sft, 0})) : a; else r = sft ? binV(E_OR, w, binV(E_SHL, w, a, {w - sft, 0}), binV(E_LSHR, w, b, {sft, 0})) : b; fr->regs[in.dst + l] = r; } return 1;
  case IN_USUBSAT: lanewise2([&](Val a, Val b) { Val c = cmpV(P_ULT, w, a, b); Val d = binV(E_SUB, w, a, b); if (!c.e) return c.v ? Val{0, 0} : d; return fromE(mkOp(E_ITE, w, c.e, mkConst(0, w), toE(d, w))); }); return 1;
  case IN_UADDSAT: lanewise2([&](Val a, Val b) { Val d = binV(E_ADD, w, a, b); Val c = cmpV(P_ULT, w, d, a); if (!c.e) return c.v ? Val{maskw(w), 0} : d; return fromE(mkOp(E_ITE, w, c.e, mkConst(maskw(w), w), toE(d, w))); }); return 1;
  case IN_UADDO: case IN_USUBO: case IN_UMULO: case IN_SADDO: case IN_SSUBO: case IN_SMULO: {
    unsigned aw = ci->argw[0]; Val a = arg(0), b = arg(1); EOp op = (id == IN_UADDO || id == IN_SADDO) ? E_ADD : (id == IN_USUBO || id == IN_SSUBO) ? E_SUB : E_MUL; bool sg = id >= IN_SADDO;
    if (aw > 64) { event(s, "engine", "wide overflow op"); return 0; }
    if (!a.e && !b.e) { Val r = binV(op, aw, a, b); bool o; if (sg) { i128 x = sx(a.v, aw), y = sx(b.v, aw); i128 z = op == E_ADD ? x + y : op == E_SUB ? x - y : x * y; o = z != (i128)sx(r.v, aw); } else { u128 x = a.v, y = b.v; o = op == E_SUB ? x < y : (op == E_ADD ? x + y : x * y) > (u128)maskw(aw); } fr->regs[in.dst] = r; fr->regs[in.dst + 1] = {o, 0}; return 1; }
    Expr *x = toE(a, aw), *y = toE(b, aw); Expr *r = mkOp(op, aw, x, y); Expr *o; if (op == E_SUB && !sg) o = mkOp(E_ULT, 1, x, y); else if (op == E_ADD && !sg) o = mkOp(E_ULT, 1, r, x); else { unsigned ww = op == E_MUL ? 2 * aw : aw + 1; if (ww > 128) ww = 128; EOp ex = sg ? E_SEXT : E_ZEXT; Expr *wide = mkOp(op, ww, mkOp(ex, ww, x), mkOp(ex, ww, y)); o = mkNot(mkOp(E_EQ, 1, wide, mkOp(ex, ww, r))); }
    fr->regs[in.dst] = fromE(r); fr->regs[in.dst + 1] = fromE(o); return 1; }
  case IN_VECREDOR: case IN_VECREDAND: case IN_VECREDADD: { unsigned n = ci->args.size(); unsigned aw = ci->argw[0]; Val r = arg(0); for (unsigned i = 1; i < n; i++) r = binV(id == IN_VECREDOR ? E_OR : id == IN_VECREDADD ? E_ADD : E_AND, aw, r, arg(i)); ret(r); return 1; }
  case IN_TRAP: case IN_ABORT: event(s, "panic", "abort/trap in " + fr->f->name); return 0;
  case IN_TLS: case IN_EXPECT: ret(arg(0)); return 1;
  case IN_ALLOC: case IN_ALLOCZ: { u64 n = cv(0, ok); if (!ok) return 0; if (n > (1ull << 31)) { event(s, "engine", "huge allocation"); return 0; } if (n + s->allocBytes > 2 * maxBytes) { event(s, "limit", "memory limit in an allocation"); return 0; } ret({allocObj(s, n), 0}); return 1; }
  case IN_MALLOC: { u64 n = cv(0, ok); if (!ok) return 0; if (n > (1ull << 31)) { event(s, "engine", "huge allocation"); return 0; } if (n + s->allocBytes > 2 * maxBytes) { event(s, "limit", "memory limit in an allocation"); return 0; } ret({allocObj(s, n), 0}); return 1; }
  case IN_CALLOC: { u64 n = cv(0, ok); if (!ok) return 0; u64 k = cv(1, ok); if (!ok) return 0; ret({allocObj(s, n * k), 0}); return 1; }
  case IN_MEMALIGN: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(2, ok); if (!ok) return 0; u64 a = allocObj(s, n); if (!storeAt(s, p, 8, 64, {a, 0})) return 0; ret({0, 0}); return 1; }
  case IN_DEALLOC: case IN_FREE: { u64 p = cv(0, ok); if (!ok) return 0; if (!p) return 1; if (!getObj(s, p >> OBJ_SHIFT) || (p & 0xffffffffull)) { memError(s, "bad free", p); return 0; } freeObj(s, p >> OBJ_SHIFT); return 1; }
  case IN_REALLOC: case IN_CREALLOC: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(id == IN_REALLOC ? 3 : 1, ok); if (!ok) return 0; if (n + s->allocBytes > 2 * maxBytes) { event(s, "limit", "memory limit in an allocation"); return 0; } u64 a = allocObj(s, n); if (p) { Obj *o = getObj(s, p >> OBJ_SHIFT); if (!o) { memError(s, "bad realloc", p); return 0; } if (!copyMem(s, a, p, std::min<u64>(o->size, n))) return 0; freeObj(s, p >> OBJ_SHIFT); } ret({a, 0}); return 1; }
  case IN_BCMP: { u64 a = cv(0, ok); if (!ok) return 0; u64 b = cv(1, ok); if (!ok) return 0; u64 n = cv(2, ok); if (!ok) return 0; if (!n) { ret({0, 0}); return 1; }
    Obj *oa = getObj(s, a >> OBJ_SHIFT), *ob = getObj(s, b >> OBJ_SHIFT); u64 fa = a & 0xffffffffull, fb = b & 0xffffffffull; if (!oa || !ob || fa + n > oa->size || fb + n > ob->size) { memError(s, "out-of-bounds bcmp", a); return 0; }
    s->instrs += n / 8; if (!oa->sym && !ob->sym) { ret({memcmp(oa->data + fa, ob->data + fb, n) != 0, 0}); return 1; }
    Expr *c = mkConst(1, 1); for (u64 i = 0; i < n; i++) { u8 x = 0, y = 0; Expr *ex = byteExpr(s, oa, fa + i, x), *ey = byteExpr(s, ob, fb + i, y); if (!ex && !ey) { if (x != y) { ret({1, 0}); return 1; } continue; } Expr *eq = mkOp(E_EQ, 1, ex ? ex : mkConst(x, 8), ey ? ey : mkConst(y, 8)); if (eq->op == E_TAB) { Dom d = s->doms[eq->var] & eq->t->ones; if (d.empty()) { ret({1, 0}); return 1; } } if (isC(eq, 0)) { ret({1, 0}); return 1; } c = mkOp(E_AND, 1, c, eq); }
    if (isC(c)) { ret({c->c ? 0ull : 1ull, 0}); return 1; } ret(fromE(mkOp(E_ITE, w, c, mkConst(0, w), mkConst(1, w)))); return 1; }
  case IN_MEMCMP: { u64 a = cv(0, ok); if (!ok) return 0; u64 b = cv(1, ok); if (!ok) return 0; u64 n = cv(2, ok); if (!ok) return 0; vector<Expr *> x, y; if (!readBytes(s, a, n, x) || !readBytes(s, b, n, y)) return 0; s->instrs += n / 8;
    for (u64 i = 0; i < n; i++) { Expr *eq = simp(s, mkOp(E_EQ, 1, x[i], y[i])); int mb = mayBe(s, eq); if (mb == 1) continue; if (mb == 3) { State *k = cloneState(s); statForks++; if (addC(k, eq)) pushWork(k); else freeState(k); if (!addC(s, mkNot(eq))) return 0; }
      Expr *lt = mkOp(E_ULT, 1, x[i], y[i]); ret(fromE(mkOp(E_ITE, w, lt, mkConst(maskw(w), w), mkConst(1, w)))); return 1; }
    ret({0, 0}); return 1; }
  case IN_STRLEN: { u64 a = cv(0, ok); if (!ok) return 0; Obj *o = getObj(s, a >> OBJ_SHIFT); u64 off = a & 0xffffffffull, n = 0; if (!o) { memError(s, "strlen", a); return 0; } while (off + n < o->size && o->data[off + n]) n++; ret({n, 0}); return 1; }
  case IN_GETRANDOM: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(1, ok); if (!ok) return 0; for (u64 i = 0; i < n; i++) if (!storeAt(s, p + i, 1, 8, {0x5A, 0})) return 0; ret({n, 0}); return 1; }
  case IN_SYSCALL: { u64 nr = cv(0, ok); if (!ok) return 0; if (nr == 318) { u64 p = cv(1, ok), n = cv(2, ok); for (u64 i = 0; i < n; i++) if (!storeAt(s, p + i, 1, 8, {0x5A, 0})) return 0; ret({n, 0}); return 1; } event(s, "engine", "syscall " + std::to_string(nr)); return 0; }
  case IN_WRITE: { ret(arg(2)); return 1; }
  case IN_RET0: ret({0, 0}); return 1;
  case IN_ERRNO: { ret({allocObj(s, 8), 0}); return 1; }
  case IN_PANIC: { string loc = "?"; for (int i = (int)ci->args.size() - 1; i >= 0; i--) { Val v = arg(i); if (v.e || ci->argw[i] != 64) continue; Obj *o = getObj(s, v.v >> OBJ_SHIFT); u64 off = v.v & 0xffffffffull; if (!o || off + 24 > o->size || !o->ro) continue; u64 p, n; u32 line, col; memcpy(&p, o->data + off, 8); memcpy(&n, o->data + off + 8, 8); memcpy(&line, o->data + off + 16, 4); memcpy(&col, o->data + off + 20, 4); string f; if (n < 4096 && readStr(s, p, n, f)) { while (!f.empty() && f.back() == 0) f.pop_back(); loc = f + ":" + std::to_string(line) + ":" + std::to_string(col); } break; }
    statPanics++; event(s, "panic", loc); return 0; }
  case IN_SYM_PARAM: { u64 i = cv(0, ok); ret({params[i & 15], 0}); return 1; }
  case IN_SYM_BYTES: case IN_SYM_SET: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(1, ok); if (!ok) return 0; Dom d = Dom::full(); if (id == IN_SYM_SET) { u64 q = cv(2, ok); Obj *o = getObj(s, q >> OBJ_SHIFT); if (!o || (q & 0xffffffffull) + 32 > o->size) { memError(s, "set", q); return 0; } memcpy(d.w, o->data + (q & 0xffffffffull), 32); }
    if (s->nvars + n > MAXVARS) { event(s, "engine", "too many symbolic bytes"); return 0; } s->inputs.push_back({'b', s->nvars, (u32)n}); for (u64 i = 0; i < n; i++) { u32 v = s->nvars++; s->doms[v] = d; s->model[v] = d.first(); if (!storeAt(s, p + i, 1, 8, {0, mkVar(v)})) return 0; } return 1; }
  case IN_SYM_UTF8: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(1, ok); if (!ok) return 0; if (s->nvars + n > MAXVARS) { event(s, "engine", "too many symbolic bytes"); return 0; }
    auto rng = [](unsigned a, unsigned b) { Dom d = Dom::none(); for (unsigned i = a; i <= b; i++) d.set(i); return d; }; Dom lead3 = rng(0xE1, 0xEC); lead3.set(0xEE); lead3.set(0xEF);
    vector<vector<Dom>> shapes; vector<Dom> curS; std::function<void(u64)> rec = [&](u64 left) { if (!left) { shapes.push_back(curS); return; } auto go = [&](std::initializer_list<Dom> ds) { if (ds.size() > left) return; for (auto &d : ds) curS.push_back(d); rec(left - ds.size()); curS.resize(curS.size() - ds.size()); }; Dom c = rng(0x80, 0xBF); go({rng(0, 0x7F)}); go({rng(0xC2, 0xDF), c}); go({rng(0xE0, 0xE0), rng(0xA0, 0xBF), c}); go({lead3, c, c}); go({rng(0xED, 0xED), rng(0x80, 0x9F), c}); go({rng(0xF0, 0xF0), rng(0x90, 0xBF), c, c}); go({rng(0xF1, 0xF3), c, c, c}); go({rng(0xF4, 0xF4), rng(0x80, 0x8F), c, c}); }; rec(n);
    u32 v0 = s->nvars; s->inputs.push_back({'b', v0, (u32)n}); s->nvars += n; for (u64 i = 0; i < n; i++) if (!storeAt(s, p + i, 1, 8, {0, mkVar(v0 + i)})) return 0;
    topW(s)->pc++; // children resume after the call
    for (size_t k = 1; k < shapes.size(); k++) { State *c = cloneState(s); statForks++; for (u64 i = 0; i < n; i++) { c->doms[v0 + i] = shapes[k][i]; c->model[v0 + i] = shapes[k][i].first(); } pushWork(c); }
    topW(s)->pc--; for (u64 i = 0; i < n; i++) { s->doms[v0 + i] = shapes[0][i]; s->model[v0 + i] = shapes[0][i].first(); } return 1; }
  case IN_SYM_CHOOSE: { u64 n = cv(0, ok); if (!ok) return 0; if (!n) { endPath(s, "choose0"); return 0; } for (u64 k = n - 1; k >= 1; k--) { State *c = cloneState(s); statForks++; Frame *cf = topW(c); if (in.dst >= 0) cf->regs[in.dst] = {k, 0}; cf->pc++; c->inputs.push_back({'c', (u32)k, (u32)n}); pushWork(c); } fr = topW(s); s->inputs.push_back({'c', 0, (u32)n}); if (in.dst >= 0) fr->regs[in.dst] = {0, 0}; return 1; }
  case IN_SYM_ASSUME: { Val v = arg(0); if (!v.e) { if (v.v & 1) return 1; statAssumeEnd++; return 0; } Expr *c = mkOp(E_EXTRACT, 1, v.e, 0, 0, 0); c = simp(s, c); if (isC(c)) { if (c->c) return 1; statAssumeEnd++; return 0; } if (!addC(s, c)) { statAssumeEnd++; return 0; } return 1; }
  case IN_SYM_FAIL: { string m; u64 p = cv(0, ok), n = cv(1, ok); readStr(s, p, n, m); statChecks++; event(s, "assert", m); endPath(s, "fail"); return 0; }
  case IN_SYM_CHECK: { Val v = arg(0); u64 p = cv(1, ok), n = cv(2, ok); string m; readStr(s, p, n, m); statChecks++; Expr *c = v.e ? simp(s, mkOp(E_EXTRACT, 1, v.e, 0, 0, 0)) : mkConst(v.v & 1, 1); if (isC(c)) { if (c->c) return 1; event(s, "assert", m); return 0; }
    int mb = mayBe(s, c); if (mb == 1) return 1; State *k = cloneState(s); if (addC(k, mkNot(c))) event(k, "assert", m); freeState(k); if (mb == 2) return 0; return addC(s, c) ? 1 : 0; }
  case IN_SYM_REACH: { u64 p = cv(0, ok), n = cv(1, ok); string m; readStr(s, p, n, m); if (std::find(s->reached.begin(), s->reached.end(), m) == s->reached.end()) s->reached.push_back(m); return 1; }
  case IN_SYM_LABEL: { u64 p = cv(0, ok), n = cv(1, ok); string m; readStr(s, p, n, m); s->label = m; return 1; }
  case IN_SYM_OBSERVE: { u64 p = cv(0, ok); if (!ok) return 0; u64 n = cv(1, ok); if (!ok) return 0; vector<Expr *> b; if (!readBytes(s, p, n, b)) return 0; s->obs.push_back(b); return 1; }
  case IN_SYM_CONC: { u64 v = cv(0, ok); if (!ok) return 0; ret({v, 0}); return 1; }
  case IN_SYM_DONE: endPath(s, "done"); return 0;
  }
  event(s, "engine", "unimplemented intrinsic " + callee->name); return 0;
}
static bool plain(State *s, u64 addr, u64 n, string &out) { Obj *o = getObj(s, addr >> OBJ_SHIFT); u64 off = addr & 0xffffffffull; if (!o || off + n > o->size) return false; if (o->sym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) return false; out.append((char *)o->data + off, n); return true; }
// SipHash of symbolic text: the hash value only selects a bucket, so the text is split into "equals a string hashed
// before" (per feasible string) and "different from all of them", where any fixed witness may stand in for it.
static int hashWrite(State *s, Frame *fr, CallInfo *ci, bool &substituted, vector<u8> &sub) {
  auto arg = [&](unsigned i) -> Val { i32 o = ci->args[i]; return o >= 0 ? fr->regs[o] : fr->f->consts[~o]; };
  bool ok; substituted = false; u64 p = concVal(s, arg(1), ok); if (!ok) return 0; u64 n = concVal(s, arg(2), ok); if (!ok) return 0;
  { string t; if (n == 0 || plain(s, p, n, t)) { hashedStrings[n].insert(t); return 1; } } vector<Expr *> b; if (!readBytes(s, p, n, b)) return 0;
  bool symb = false; for (auto *e : b) if (!isC(e)) symb = true;
  if (!symb) { string t; for (auto *e : b) t.push_back((char)e->c); hashedStrings[n].insert(t); return 1; }
  for (auto &h : s->hashes) if (h.b == b) { sub = h.sub; substituted = true; return 1; }
  vector<Expr *> neq; vector<Expr *> eqs;
  auto consider = [&](const vector<Expr *> &other) { Expr *c = mkConst(1, 1); for (u64 i = 0; i < n; i++) { Expr *q = mkOp(E_EQ, 1, b[i], other[i]); if (q->op == E_TAB && (s->doms[q->var] & q->t->ones).empty()) return; c = mkOp(E_AND, 1, c, q); if (isC(c, 0)) return; } eqs.push_back(c); };
  for (auto &t : hashedStrings[n]) { vector<Expr *> o; for (unsigned char ch : t) o.push_back(mkConst(ch, 8)); consider(o); }
  for (auto &h : s->hashes) if (h.b.size() == n) consider(h.b);
  vector<State *> kids; for (auto *c : eqs) { int mb = mayBe(s, c); if (mb == 2) continue; State *k = cloneState(s); statForks++; statHashForks++; if (addC(k, c)) kids.push_back(k); else freeState(k); neq.push_back(mkNot(c)); }
  for (auto *k : kids) { // a child equal to an earlier symbolic string must reuse its witness
    for (auto &h : k->hashes) if (h.b.size() == n) { bool same = true; for (u64 i = 0; i < n; i++) { Expr *q = simp(k, mkOp(E_EQ, 1, b[i], h.b[i])); int mb = isC(q) ? (q->c ? 1 : 2) : mayBe(k, q); if (mb != 1) { same = false; break; } } if (same) { k->hashes.push_back({b, h.sub}); break; } } pushWork(k); }
  u64 touched = 0; for (auto *c : neq) if (!addRaw(s, c, touched)) return 0; if (touched && !commit(s, touched)) return 0;
  sub.clear(); for (auto *e : b) sub.push_back((u8)evalExpr(e, s->model)); s->hashes.push_back({b, sub}); substituted = true; return 1;
}

// Hashing concrete text is a function of the hasher's bytes and the text: remembered instead of interpreted again.
static const u64 HASHER = 72; static std::unordered_map<string, std::pair<string, u64>> hashMemo;
static bool memoKey(State *s, Frame *fr, CallInfo *ci, Func *f, string &key, u64 &at) {
  auto arg = [&](unsigned i) -> Val { i32 o = ci->args[i]; return o >= 0 ? fr->regs[o] : fr->f->consts[~o]; };
  Val h = arg(0); if (h.e) return false; at = h.v; key.assign((char *)&f, sizeof f); if (!plain(s, at, HASHER, key)) return false;
  if (f->intrinsic == IN_HASHWRITE) { Val p = arg(1), n = arg(2); if (p.e || n.e) return false; if (n.v && !plain(s, p.v, n.v, key)) return false; }
  return true;
}
static bool trace = false;
static void runState(State *s) {
  Frame *fr = topW(s); Val *R = fr->regs; const Val *C = fr->f->consts.data(); const Inst *code = fr->f->code.data(); u32 pc = fr->pc; u64 icount = 0;
#define GET(o) ((o) >= 0 ? R[o] : C[~(o)])
#define SYNC() (fr->pc = pc)
#define RELOAD() (fr = topW(s), R = fr->regs, C = fr->f->consts.data(), code = fr->f->code.data(), pc = fr->pc)
#define DIE() do { s->instrs += icount; statInstr += icount; freeState(s); return; } while (0)
  Val tmp[512];
  auto takeEdge = [&](Edge *e) { size_t n = e->copies.size(); if (n == 1) { R[e->copies[0].first] = GET(e->copies[0].second); } else if (n) { if (n > 512) { vector<Val> t(n); for (size_t i = 0; i < n; i++) t[i] = GET(e->copies[i].second); for (size_t i = 0; i < n; i++) R[e->copies[i].first] = t[i]; } else { for (size_t i = 0; i < n; i++) tmp[i] = GET(e->copies[i].second); for (size_t i = 0; i < n; i++) R[e->copies[i].first] = tmp[i]; } } pc = e->pc; };
  auto edgeIn = [&](State *k, Edge *e) { Frame *f = topW(k); Val *r = f->regs; const Val *c = f->f->consts.data(); vector<Val> t; for (auto &p : e->copies) t.push_back(p.second >= 0 ? r[p.second] : c[~p.second]); for (size_t i = 0; i < t.size(); i++) r[e->copies[i].first] = t[i]; f->pc = e->pc; };
  for (;;) {
    const Inst &in = code[pc]; icount++;
    if ((icount & 0xffff) == 0) { s->instrs += icount; statInstr += icount; icount = 0; if (s->instrs > maxInstr || s->allocBytes > maxBytes) { SYNC(); statLimit++; event(s, "limit", (s->instrs > maxInstr ? "instruction limit in " : "memory limit in ") + fr->f->name); freeState(s); return; } if (deadline && now() > deadline) { SYNC(); sh->stop = 1; statAbandoned++; freeState(s); return; } }
    switch (in.op) {
    case I_NOP: pc++; break;
    case I_BIN: if (in.lanes == 1) { const Val &a = GET(in.a), &b = GET(in.b);
        if ((in.sub == E_UDIV || in.sub == E_SDIV || in.sub == E_UREM || in.sub == E_SREM) && !b.e && b.v == 0) { SYNC(); event(s, "memory", "division by zero"); DIE(); }
        R[in.dst] = binV(in.sub, in.w, a, b); } else for (unsigned l = 0; l < in.lanes; l++) R[in.dst + l] = binV(in.sub, in.w, in.a >= 0 ? R[in.a + l] : C[~in.a + l], in.b >= 0 ? R[in.b + l] : C[~in.b + l]); pc++; break;
    case I_ICMP: if (in.lanes == 1) R[in.dst] = cmpV(in.sub, in.w, GET(in.a), GET(in.b)); else for (unsigned l = 0; l < in.lanes; l++) R[in.dst + l] = cmpV(in.sub, in.w, in.a >= 0 ? R[in.a + l] : C[~in.a + l], in.b >= 0 ? R[in.b + l] : C[~in.b + l]); pc++; break;
    case I_ZEXT: case I_SEXT: case I_TRUNC: for (unsigned l = 0; l < in.lanes; l++) { const Val &a = in.a >= 0 ? R[in.a + l] : C[~in.a + l]; Val r; if (!a.e && in.w <= 64) r = {in.op == I_SEXT ? (u64)sx(a.v, in.w2) & maskw(in.w) : a.v & maskw(in.w), 0}; else { Expr *e = toE(a, in.w2); r = fromE(in.op == I_TRUNC ? mkOp(E_EXTRACT, in.w, e, 0, 0, 0) : mkOp(in.op == I_ZEXT ? E_ZEXT : E_SEXT, in.w, e)); } R[in.dst + l] = r; } pc++; break;
    case I_SELECT: { Val c = GET(in.a); if (c.e) { Expr *e = simp(s, c.e); c = fromE(e); } if (!c.e) R[in.dst] = c.v ? GET(in.b) : GET(in.c); else R[in.dst] = fromE(mkOp(E_ITE, in.w, c.e, toE(GET(in.b), in.w), toE(GET(in.c), in.w))); pc++; break; }
    case I_MOV: if (in.lanes == 1) R[in.dst] = GET(in.a); else for (unsigned l = 0; l < in.lanes; l++) R[in.dst + l] = in.a >= 0 ? R[in.a + l] : C[~in.a + l]; pc++; break;
    case I_GEP: { Val a = GET(in.a); if (!in.aux) { if (!a.e) R[in.dst] = {a.v + in.imm, 0}; else R[in.dst] = fromE(mkOp(E_ADD, 64, a.e, mkConst(in.imm, 64))); pc++; break; }
        GepInfo *g = (GepInfo *)in.aux; u64 off = in.imm; Expr *e = a.e; if (!e) off += a.v; for (auto &ix : g->idx) { const Val &v = GET(ix.op); if (!v.e) off += (u64)(sx(v.v, ix.w) * (i64)ix.scale); else { Expr *x = v.e; if (ix.w < 64) x = mkOp(E_SEXT, 64, x); else if (ix.w > 64) x = mkOp(E_EXTRACT, 64, x, 0, 0, 0); x = mkOp(E_MUL, 64, x, mkConst(ix.scale, 64)); e = e ? mkOp(E_ADD, 64, e, x) : x; } }
        if (!e) R[in.dst] = {off, 0}; else R[in.dst] = fromE(mkOp(E_ADD, 64, e, mkConst(off, 64))); pc++; break; }
    case I_LOAD: { const Val &a = GET(in.a);
        if (!a.e) { u64 ad = a.v + in.imm; u32 id = ad >> OBJ_SHIFT; u64 off = ad & 0xffffffffull; Obj *o = getObj(s, id); if (__builtin_expect(o && !o->sym && off + in.w2 <= o->size && in.w <= 64, 1)) { u64 v = 0; switch (in.w2) { case 1: v = o->data[off]; break; case 8: memcpy(&v, o->data + off, 8); break; case 4: memcpy(&v, o->data + off, 4); break; case 2: memcpy(&v, o->data + off, 2); break; default: memcpy(&v, o->data + off, in.w2); } R[in.dst] = {v & maskw(in.w), 0}; pc++; break; }
          Val r; SYNC(); if (!loadAt(s, ad, in.w2, in.w, r)) DIE(); R[in.dst] = r; pc++; break; }
        SYNC(); Expr *ae = a.e; if (in.imm) ae = mkOp(E_ADD, 64, ae, mkConst(in.imm, 64)); Val r; int k = loadSym(s, ae, in.w2, in.w, r); if (!k) DIE(); RELOAD(); R[in.dst] = r; pc++; break; }
    case I_STORE: { Val a = GET(in.a); u64 ad; if (a.e) { SYNC(); bool ok; ad = concVal(s, a, ok); if (!ok) DIE(); RELOAD(); } else ad = a.v; SYNC(); if (!storeAt(s, ad + in.imm, in.w2, in.w, GET(in.b))) DIE(); pc++; break; }
    case I_ALLOCA: { u64 a = allocObj(s, in.imm); fr->allocas.push_back(a >> OBJ_SHIFT); R[in.dst] = {a, 0}; pc++; break; }
    case I_BR: takeEdge((Edge *)in.aux); break;
    case I_CONDBR: { Val c = GET(in.a);
        if (__builtin_expect(!c.e, 1)) { takeEdge((Edge *)(c.v ? in.aux : in.aux2)); break; }
        SYNC(); Expr *e = simp(s, c.e); if (isC(e)) { takeEdge((Edge *)(e->c ? in.aux : in.aux2)); break; }
        int mb = mayBe(s, e); if (mb == 1) { takeEdge((Edge *)in.aux); break; } if (mb == 2) { takeEdge((Edge *)in.aux2); break; }
        State *k = cloneState(s); statForks++; k->forks++; s->forks++; if (addC(k, mkNot(e))) { edgeIn(k, (Edge *)in.aux2); pushWork(k); } else freeState(k);
        if (!addC(s, e)) DIE(); RELOAD(); takeEdge((Edge *)in.aux); break; }
    case I_SWITCH: { SwitchInfo *si = (SwitchInfo *)in.aux; Val c = GET(in.a); if (c.e) { SYNC(); c = fromE(simp(s, c.e)); }
        if (!c.e) { auto it = si->map.find(c.v); takeEdge(it == si->map.end() ? si->def : it->second); break; }
        if (c.e->op == E_TAB && !((s->csMask >> c.e->var) & 1)) {
          std::map<u64, std::pair<Edge *, Dom>> g; Dom d = s->doms[c.e->var]; std::unordered_map<Edge *, u64> order; // group by (target,copies)
          for (int i = 0; i < 256; i++) if (d.has(i)) { auto it = si->map.find(c.e->t->v[i]); Edge *e = it == si->map.end() ? si->def : it->second; u64 key = e->copies.empty() ? e->pc : (((u64)1 << 40) + (order.emplace(e, order.size()).first->second)); auto gi = g.find(key); if (gi == g.end()) gi = g.emplace(key, std::make_pair(e, Dom::none())).first; gi->second.second.set(i); }
          for (auto &p : g) { u64 tv[256]; for (int i = 0; i < 256; i++) tv[i] = p.second.second.has(i); Expr *te = mkTab(c.e->var, 1, tv); if (te->op == E_TAB) solverConfirmDom(d, te, true); }
          bool first = true; Edge *mine = nullptr; Dom md = d; for (auto &p : g) { if (first) { first = false; mine = p.second.first; md = p.second.second; continue; } State *k = cloneState(s); statForks++; k->forks++; if (addDom(k, c.e->var, p.second.second)) { edgeIn(k, p.second.first); pushWork(k); } else freeState(k); }
          if (!addDom(s, c.e->var, md)) DIE(); RELOAD(); takeEdge(mine); break; }
        // several variables: one feasible target after the other
        { std::map<Edge *, Expr *> conds; std::map<u64, Expr *> byPc; vector<std::pair<Edge *, Expr *>> list; Expr *none = mkConst(1, 1); std::unordered_map<u64, size_t> idx;
          for (auto &p : si->cases) { Expr *eq = mkOp(E_EQ, 1, c.e, mkConst(p.first, si->w)); none = mkOp(E_AND, 1, none, mkNot(eq)); u64 key = p.second->copies.empty() ? p.second->pc : (u64)p.second; auto it = idx.find(key); if (it == idx.end()) { idx[key] = list.size(); list.push_back({p.second, eq}); } else list[it->second].second = mkOp(E_OR, 1, list[it->second].second, eq); }
          list.push_back({si->def, none}); vector<std::pair<Edge *, Expr *>> feas; for (auto &p : list) { int mb = mayBe(s, p.second); if (mb & 1) feas.push_back(p); }
          if (feas.empty()) DIE(); for (size_t i = 1; i < feas.size(); i++) { State *k = cloneState(s); statForks++; if (addC(k, feas[i].second)) { edgeIn(k, feas[i].first); pushWork(k); } else freeState(k); }
          if (!addC(s, feas[0].second)) DIE(); RELOAD(); takeEdge(feas[0].first); break; } }
    case I_UNREACHABLE: SYNC(); event(s, "memory", "unreachable executed in " + fr->f->name); DIE();
    case I_RET: { Val rv[64]; unsigned n = in.lanes; for (unsigned l = 0; l < n && l < 64; l++) rv[l] = in.a >= 0 ? R[in.a + l] : C[~in.a + l];
        if (fr->memo) { string after; if (plain(s, fr->memo->at, HASHER, after) && (n == 0 || !rv[0].e) && hashMemo.size() < 200000) hashMemo[fr->memo->key] = {after, n ? rv[0].v : 0}; }
        for (u32 a : fr->allocas) freeObj(s, a);
        i32 dst = fr->retDst; Edge *norm = fr->normal; unrefFrame(fr); s->stack.pop_back();
        if (s->stack.empty()) { s->instrs += icount; statInstr += icount; endPath(s, "return"); freeState(s); return; }
        RELOAD(); if (dst >= 0) for (unsigned l = 0; l < n && l < 64; l++) R[dst + l] = rv[l]; if (norm) takeEdge(norm); else pc++; break; }
    case I_CALL: { CallInfo *ci = (CallInfo *)in.aux; Func *f = ci->f;
        if (!f) { Val c = GET(ci->callee); if (c.e) { SYNC(); bool ok; u64 a = concVal(s, c, ok); if (!ok) DIE(); RELOAD(); c = {a, 0}; } auto it = M->funcByAddr.find(c.v); if (it == M->funcByAddr.end()) { SYNC(); event(s, "engine", "indirect call to unknown address"); DIE(); } f = it->second; }
        if (f->intrinsic >= 0 && f->intrinsic != IN_HASHWRITE && f->intrinsic != IN_HASHFINISH) { SYNC(); s->instrs += icount; statInstr += icount; icount = 0; int r = doIntrinsic(s, fr, code[pc], ci, f->intrinsic, f); if (!r) { DIE(); } u32 p = pc; RELOAD(); pc = p; if (ci->normal) takeEdge(ci->normal); else pc++; break; }
        if (!f->defined) { SYNC(); event(s, "engine", "call to undefined function " + f->name); DIE(); }
        if (s->stack.size() > 20000) { SYNC(); event(s, "limit", "stack depth in " + f->name); DIE(); }
        bool subst = false; vector<u8> sub; if (f->intrinsic == IN_HASHWRITE) { SYNC(); if (!hashWrite(s, fr, ci, subst, sub)) DIE(); u32 p = pc; RELOAD(); pc = p; }
        f->execCount++; std::shared_ptr<Memo> memo;
        if ((f->intrinsic == IN_HASHWRITE || f->intrinsic == IN_HASHFINISH) && !subst) { string key; u64 at; if (memoKey(s, fr, ci, f, key, at)) { auto it = hashMemo.find(key);
          if (it != hashMemo.end()) { if (f->intrinsic == IN_HASHWRITE) { Obj *o = getW(s, at >> OBJ_SHIFT); memcpy(o->data + (at & 0xffffffffull), it->second.first.data(), HASHER); } else if (in.dst >= 0) R[in.dst] = {it->second.second, 0}; if (ci->normal) takeEdge(ci->normal); else pc++; break; }
          memo = std::make_shared<Memo>(Memo{key, at}); } }
        Frame *nf = newFrame(f); nf->memo = memo; nf->retDst = in.dst; nf->normal = ci->normal; size_t np = std::min(ci->args.size(), f->params.size()); for (size_t i = 0; i < np; i++) nf->regs[f->params[i]] = GET(ci->args[i]);
        if (subst) { u64 a = allocObj(s, sub.size()); Obj *o = getW(s, a >> OBJ_SHIFT); memcpy(o->data, sub.data(), sub.size()); nf->regs[f->params[1]] = {a, 0}; nf->allocas.push_back(a >> OBJ_SHIFT); }
        SYNC(); s->stack.push_back(nf); fr = nf; R = fr->regs; C = f->consts.data(); code = f->code.data(); pc = 0; break; }
    case I_REPACK: { unsigned n1 = in.lanes, n2 = in.imm, w1 = in.w, w2 = in.w2; vector<Val> src(n1); for (unsigned l = 0; l < n1; l++) src[l] = in.a >= 0 ? R[in.a + l] : C[~in.a + l];
        if (w1 < w2) { unsigned k = w2 / w1; for (unsigned l = 0; l < n2; l++) { bool sym = false; for (unsigned j = 0; j < k; j++) if (src[l * k + j].e) sym = true; if (!sym && w2 <= 64) { u64 v = 0; for (unsigned j = 0; j < k; j++) v |= src[l * k + j].v << (j * w1); R[in.dst + l] = {v, 0}; } else { Expr *r = nullptr; for (unsigned j = 0; j < k; j++) { Expr *b = toE(src[l * k + j], w1); r = r ? mkOp(E_CONCAT, w1 * (j + 1), b, r) : b; } R[in.dst + l] = fromE(r); } } }
        else { unsigned k = w1 / w2; for (unsigned l = 0; l < n2; l++) { Val v = src[l / k]; unsigned sh = (l % k) * w2; if (!v.e) R[in.dst + l] = {(v.v >> sh) & maskw(w2), 0}; else R[in.dst + l] = fromE(mkOp(E_EXTRACT, w2, v.e, 0, 0, sh)); } } pc++; break; }
    case I_SHUFFLE: { auto *mv = (vector<u32> *)in.aux; vector<Val> o; for (u32 x : *mv) { if (x < in.lanes) o.push_back(in.a >= 0 ? R[in.a + x] : C[~in.a + x]); else { u32 y = x - in.lanes; o.push_back(in.b >= 0 ? R[in.b + y] : C[~in.b + y]); } } for (size_t i = 0; i < o.size(); i++) R[in.dst + i] = o[i]; pc++; break; }
    case I_EXTRACTELT: case I_INSERTELT: { SYNC(); Val ix = GET(in.op == I_EXTRACTELT ? in.b : in.c); bool ok; u64 i = concVal(s, ix, ok); if (!ok) DIE(); u32 p = pc; RELOAD(); pc = p; if (in.op == I_EXTRACTELT) R[in.dst] = in.a >= 0 ? R[in.a + i] : C[~in.a + i]; else { for (unsigned l = 0; l < in.lanes; l++) R[in.dst + l] = in.a >= 0 ? R[in.a + l] : C[~in.a + l]; R[in.dst + i] = GET(in.b); } pc++; break; }
    case I_CMPXCHG: { SYNC(); bool ok; u64 a = concVal(s, GET(in.a), ok); if (!ok) DIE(); u32 p = pc; RELOAD(); pc = p; Val o; if (!loadAt(s, a, in.w2, in.w, o)) DIE(); Val eq = cmpV(P_EQ, in.w, o, GET(in.b)); if (eq.e) { event(s, "engine", "symbolic cmpxchg"); DIE(); } if (eq.v) if (!storeAt(s, a, in.w2, in.w, GET(in.c))) DIE(); R[in.dst] = o; R[in.dst + 1] = eq; pc++; break; }
    case I_RMW: { SYNC(); bool ok; u64 a = concVal(s, GET(in.a), ok); if (!ok) DIE(); u32 p = pc; RELOAD(); pc = p; Val o; if (!loadAt(s, a, in.w2, in.w, o)) DIE(); Val n; if (in.sub == 254) n = GET(in.b); else if (in.sub == 255) { event(s, "engine", "atomicrmw"); DIE(); } else n = binV(in.sub, in.w, o, GET(in.b)); if (!storeAt(s, a, in.w2, in.w, n)) DIE(); R[in.dst] = o; pc++; break; }
    case I_UNSUP: SYNC(); event(s, "engine", string("unsupported instruction ") + (const char *)in.aux + " in " + fr->f->name); DIE();
    default: SYNC(); event(s, "engine", "bad opcode"); DIE();
    }
  }
}
static void writeResults(double t0) {
  string f = outDir + "/res." + std::to_string(getpid()); FILE *o = fopen(f.c_str(), "w"); if (!o) { perror("res"); _exit(3); }
  fprintf(o, "{\"paths\":%llu,\"instrs\":%llu,\"forks\":%llu,\"panics\":%llu,\"limit\":%llu,\"abandoned\":%llu,\"checks\":%llu,\"assume_end\":%llu,\"concretized\":%llu,\"hash_forks\":%llu,\"exprs\":%llu,\n", (unsigned long long)statPaths, (unsigned long long)statInstr, (unsigned long long)statForks, (unsigned long long)statPanics, (unsigned long long)statLimit, (unsigned long long)(statAbandoned + work.size()), (unsigned long long)statChecks, (unsigned long long)statAssumeEnd, (unsigned long long)statConcretize, (unsigned long long)statHashForks, (unsigned long long)g_nexprs);
  fprintf(o, "\"queries\":%llu,\"dom_queries\":%llu,\"query_cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"cpu_s\":%.3f,\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.domQueries, (unsigned long long)(g_ss.cacheHits + g_ss.domCache), (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, g_ss.time, now() - t0);
  fprintf(o, "\"reach\":{"); bool first = true; for (auto &p : reachCount) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(o, "},\n\"events\":["); first = true; for (auto &e : events) { fprintf(o, "%s%s", first ? "" : ",\n", e.c_str()); first = false; }
  fprintf(o, "],\n\"event_counts\":{"); first = true; for (auto &p : eventCount) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(o, "},\n\"samples\":["); first = true; for (auto &p : samples) { fprintf(o, "%s%s", first ? "" : ",\n", p.second.c_str()); first = false; }
  fprintf(o, "],\n\"funcs\":{"); first = true; for (auto *fn : M->funcs) if (fn->execCount) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(fn->name).c_str(), (unsigned long long)fn->execCount); first = false; }
  fprintf(o, "}}\n"); fclose(o);
}
int main(int argc, char **argv) {
  string ll, entry; double maxTime = 0;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outDir = nx(); else if (a == "--jobs") maxJobs = atoi(nx().c_str()); else if (a == "--max-instr") maxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--max-bytes") maxBytes = strtoull(nx().c_str(), 0, 10); else if (a == "--max-time") maxTime = atof(nx().c_str()); else if (a == "--param") { string p = nx(); size_t q = p.find('='); params[atoi(p.c_str())] = strtoull(p.c_str() + q + 1, 0, 10); } else if (a == "--verbose") verbose = true; else if (a == "--samples") sampleK = atoi(nx().c_str()); else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = strtoull(nx().c_str(), 0, 10); else if (a == "--seed") rngState ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull; else ll = a; }
  double t0 = now(); M = loadModule(ll.c_str()); double tl = now() - t0;
  for (auto *f : M->funcs) { f->intrinsic = classify(f->name); }
  if (verbose) fprintf(stderr, "loaded %zu functions %zu globals in %.2fs\n", M->funcs.size(), M->globals.size(), tl);
  auto it = M->funcByName.find(entry); if (it == M->funcByName.end() || !it->second->defined) { fprintf(stderr, "symrs: no entry %s\n", entry.c_str()); return 3; }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->active = 1;
  State *s = new State; s->nextId = M->nextObj; for (auto &d : s->doms) d = Dom::full(); memset(s->model, 0, sizeof s->model);
  for (auto *g : M->globals) { Obj *o = newObj(g->external ? 4096 : g->size); if (g->size && !g->external) memcpy(o->data, g->init.data(), g->size); o->ro = g->isConst; setObj(s, g->addr >> OBJ_SHIFT, o); }
  s->stack.push_back(newFrame(it->second)); it->second->execCount++; work.push_back(s);
  if (maxTime > 0) deadline = now() + maxTime;
  double lastFork = now(); vector<pid_t> kids; bool isChild = false; u64 steps = 0; double tStart = now();
  while (!work.empty()) {
    if (sh->stop) break;
    if (deadline && (++steps & 15) == 0 && now() > deadline) { sh->stop = 1; break; }
    if (sh->viol > maxViol) { sh->stop = 2; break; }
    // hand half of the pending states to a new process when a slot is free
    if (work.size() >= 2 && maxJobs > 1 && sh->active.load() < maxJobs && now() - lastFork > 0.01) {
      int a = sh->active.load(); if (a < maxJobs && sh->active.compare_exchange_strong(a, a + 1)) {
        fflush(stdout); fflush(stderr); pid_t p = fork();
        if (p < 0) { sh->active--; }
        else if (p == 0) { isChild = true; kids.clear(); rngState ^= (u64)getpid() * 0x9E3779B97F4A7C15ull; vector<State *> mine; for (size_t i = 0; i < work.size(); i += 2) mine.push_back(work[i]); for (size_t i = 1; i < work.size(); i += 2) freeState(work[i]); work = mine; statInstr = statPaths = statForks = statPanics = statErrors = statAbandoned = statLimit = statChecks = statAssumeEnd = statConcretize = statHashForks = 0; u64 e0 = g_nexprs; (void)e0; SolverStats z; g_ss = z; reachCount.clear(); eventCount.clear(); events.clear(); samples.clear(); sampleSeen = 0; for (auto *f : M->funcs) f->execCount = 0; tStart = now(); lastFork = now(); }
        else { kids.push_back(p); vector<State *> mine; for (size_t i = 1; i < work.size(); i += 2) mine.push_back(work[i]); for (size_t i = 0; i < work.size(); i += 2) freeState(work[i]); work = mine; lastFork = now(); }
      } }
    State *n = work.back(); work.pop_back(); runState(n);
    // reap finished children without blocking
    if (!kids.empty() && (steps++ & 63) == 0) { for (size_t i = 0; i < kids.size();) { int st; if (waitpid(kids[i], &st, WNOHANG) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "symrs: worker failed\n"); sh->stop = 9; } kids.erase(kids.begin() + i); } else i++; } }
  }
  writeResults(tStart); sh->active--; int rc = 0;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 3; sh->stop = 9; } }
  if (isChild) _exit(rc);
  if (sh->stop == 9) rc = 3;
  FILE *o = fopen((outDir + "/main.json").c_str(), "w"); fprintf(o, "{\"stop\":%d,\"wall_s\":%.3f,\"load_s\":%.3f,\"functions\":%zu,\"rc\":%d}\n", (int)sh->stop, now() - t0, tl, M->funcs.size(), rc); fclose(o);
  return rc;
}
