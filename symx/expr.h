// symx: hash-consed bit-vector expressions with simplification, evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
   EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
   FADD, FSUB, FMUL, FDIV, FSQRT, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC, FRINT };

struct Expr {
   Op op; u8 w; bool hasUninit, hasFP; u32 id; u64 k; // k: const value / sym id / extract offset / rounding selector
   const Expr *a, *b, *c;
   mutable u64 evEpoch = 0, evVal = 0;
   mutable Z3_ast z = nullptr;
   mutable std::vector<u32> *syms = nullptr;
   mutable u64 visit = 0;
   u8 tz; // known trailing zero bits
   u64 umax; // upper bound (unsigned) of the value
};
typedef const Expr *E;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64) v : (i64)(v << (64 - w)) >> (64 - w); }

[[noreturn]] void engine_fatal(const char *fmt, ...);

struct ExprKeyHash { size_t operator()(E e) const {
   u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w; h ^= e->k * 0xC2B2AE3D27D4EB4Full; h = (h << 13) | (h >> 51);
   h += (u64) (uintptr_t) e->a * 0x165667B19E3779F9ull; h = (h << 17) | (h >> 47);
   h ^= (u64) (uintptr_t) e->b * 0x85EBCA77C2B2AE63ull; h = (h << 19) | (h >> 45);
   h += (u64) (uintptr_t) e->c * 0x27D4EB2F165667C5ull; return h ^ (h >> 29); } };
struct ExprKeyEq { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct SymInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<SymInfo> g_syms;

E mkConst(u64 v, unsigned w);
E mkSym(u32 id);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a); // 1 bit
E mkUn(Op op, E a, unsigned w, u64 k = 0);
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
static inline bool isC(E e) { return e->op == CONST; }

u64 foldBin(Op op, u64 a, u64 b, unsigned w);
u64 foldUn(Op op, u64 a, unsigned wa, unsigned w, u64 k);

struct Model { std::vector<u64> v; u64 get(u32 id) const { return id < v.size() ? v[id] : 0; } void set(u32 id, u64 x) { if (id >= v.size()) v.resize(id + 16, 0); v[id] = x; } };
u64 evalExpr(E e, const Model &m, u64 epoch);
u64 newEpoch();
const std::vector<u32> &symsOf(E e);
Z3_ast toZ3(Z3_context c, E e);
std::string exprStr(E e, int depth = 6);
