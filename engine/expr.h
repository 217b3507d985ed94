// Symbolic expressions for the LLVM-IR executor: hash-consed bit-vector terms over 8-bit symbolic
// input bytes.  A term that depends on exactly one input byte is always kept as a 256-entry table
// (TAB), so that branch feasibility on it is a 256-bit set operation; terms over several bytes stay
// structural and are decided by Z3 (see solver.h).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <functional>
#include <cassert>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;
typedef unsigned __int128 u128; typedef __int128 i128;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }
static inline i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }

enum EOp : u8 { E_CONST, E_TAB, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE };

struct Dom { // a set of byte values
  u64 w[4];
  static Dom full() { Dom d; for (auto &x : d.w) x = ~0ull; return d; }
  static Dom none() { Dom d; for (auto &x : d.w) x = 0; return d; }
  bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  int count() const { int c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  int first() const { for (int k = 0; k < 4; k++) if (w[k]) return k * 64 + __builtin_ctzll(w[k]); return -1; }
  Dom operator&(const Dom &o) const { Dom d; for (int k = 0; k < 4; k++) d.w[k] = w[k] & o.w[k]; return d; }
  Dom operator~() const { Dom d; for (int k = 0; k < 4; k++) d.w[k] = ~w[k]; return d; }
  bool operator==(const Dom &o) const { return !memcmp(w, o.w, sizeof w); }
};

struct Table { u32 id; u8 w; u64 v[256]; Dom ones; /* v!=0 */ };

struct Expr {
  u8 op; u8 w; u8 var; u8 x; u32 id; u32 aux;  // aux: extract low bit
  u64 mask;           // set of input bytes it depends on
  u128 c;             // constant
  Expr *a, *b, *d; Table *t;
};

static const unsigned MAXVARS = 64;

struct Val { u64 v; Expr *e; };

Expr *mkConst(u128 v, unsigned w);
Expr *mkTab(unsigned var, unsigned w, const u64 *v);
Expr *mkVar(unsigned var);
Expr *mkOp(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *d = nullptr, u32 aux = 0);
u128 evalExpr(Expr *e, const u8 *model);
extern u64 g_nexprs;
static inline bool isC(Expr *e) { return e->op == E_CONST; }
static inline bool isC(Expr *e, u64 v) { return e->op == E_CONST && e->c == v; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static inline Val fromE(Expr *e) { if (e->op == E_CONST && e->w <= 64) return Val{(u64)e->c, nullptr}; return Val{0, e}; }
static inline Expr *mkNot(Expr *e) { return mkOp(E_XOR, 1, e, mkConst(1, 1)); }
std::string exprStr(Expr *e, int depth = 6);
