#include "expr.h"
#include <cfenv>

std::vector<SymInfo> g_syms;
static std::unordered_set<E, ExprKeyHash, ExprKeyEq> tab;
static std::vector<E> constCache8[65];
static u32 nextId = 1;

static u64 sat_add(u64 a, u64 b) { u64 r = a + b; return r < a ? ~0ull : r; }

static E intern(Op op, unsigned w, u64 k, E a = nullptr, E b = nullptr, E c = nullptr) {
   Expr t; t.op = op; t.w = (u8) w; t.k = k; t.a = a; t.b = b; t.c = c;
   auto it = tab.find(&t);
   if (it != tab.end()) return *it;
   Expr *e = new Expr(t);
   e->id = nextId++;
   e->hasFP = op >= FADD || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
   e->hasUninit = (a && a->hasUninit) || (b && b->hasUninit) || (c && c->hasUninit) || (op == SYM && g_syms[k].uninit);
   u64 M = mask(w);
   unsigned tz = 0; u64 um = M;
   switch (op) {
      case CONST: tz = k ? __builtin_ctzll(k) : w; um = k; break;
      case ADD: { tz = std::min(a->tz, b->tz); u64 s = sat_add(a->umax, b->umax); um = s > M ? M : s; break; }
      case SUB: tz = std::min(a->tz, b->tz); break;
      case MUL: { tz = std::min<unsigned>(w, a->tz + b->tz); __uint128_t p = (__uint128_t) a->umax * b->umax; um = p > M ? M : (u64) p; break; }
      case SHL: tz = isC(b) ? std::min<u64>(w, a->tz + std::min<u64>(b->k, 64)) : a->tz; break;
      case AND: tz = std::max(a->tz, b->tz); um = std::min(a->umax, b->umax); break;
      case OR: case XOR: { tz = std::min(a->tz, b->tz); u64 o = a->umax | b->umax; o |= o >> 1; o |= o >> 2; o |= o >> 4; o |= o >> 8; o |= o >> 16; o |= o >> 32; um = o & M; break; }
      case LSHR: um = isC(b) ? (b->k >= 64 ? 0 : a->umax >> b->k) : a->umax; break;
      case UDIV: um = isC(b) && b->k ? a->umax / b->k : M; break;
      case UREM: um = isC(b) && b->k ? std::min(a->umax, b->k - 1) : a->umax; break;
      case ITE: tz = std::min(b->tz, c->tz); um = std::max(b->umax, c->umax); break;
      case CONCAT: tz = b->tz < b->w ? b->tz : b->w + a->tz; um = (a->umax << b->w) | mask(b->w); break;
      case ZEXT: tz = a->tz >= a->w ? w : a->tz; um = a->umax; break;
      case SEXT: tz = a->tz >= a->w ? w : a->tz; break;
      case EXTRACT: tz = a->tz > k ? std::min<u64>(w, a->tz - k) : 0; um = (k == 0 && a->umax <= M) ? a->umax : std::min(M, a->umax >> k); if (k == 0 && a->umax > M) um = M; break;
      default: break;
   }
   e->tz = (u8) tz; e->umax = um;
   tab.insert(e);
   return e;
}

E mkConst(u64 v, unsigned w) {
   v &= mask(w);
   if (v < 256) {
      auto &cc = constCache8[w];
      if (cc.empty()) cc.resize(256, nullptr);
      if (!cc[v]) cc[v] = intern(CONST, w, v);
      return cc[v];
   }
   return intern(CONST, w, v);
}
E mkSym(u32 id) { return intern(SYM, g_syms[id].w, id); }

static double bitsD(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static float bitsF(u32 x) { float d; memcpy(&d, &x, 4); return d; }
static u64 dBits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u64 fBits(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u64 foldBin(Op op, u64 a, u64 b, unsigned w) {
   u64 M = mask(w);
   switch (op) {
      case ADD: return (a + b) & M;
      case SUB: return (a - b) & M;
      case MUL: return (a * b) & M;
      case UDIV: return b ? a / b : M;
      case UREM: return b ? a % b : a;
      case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (u64) x) & M; return (u64) (x / y) & M; }
      case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64) (x % y) & M; }
      case AND: return a & b;
      case OR: return a | b;
      case XOR: return a ^ b;
      case SHL: return b >= w ? 0 : (a << b) & M;
      case LSHR: return b >= w ? 0 : a >> b;
      case ASHR: return (u64) (sx(a, w) >> (b >= w ? (w - 1) : b)) & M;
      case EQ: return a == b;
      case ULT: return a < b;
      case ULE: return a <= b;
      case SLT: return sx(a, w) < sx(b, w);
      case SLE: return sx(a, w) <= sx(b, w);
      case FADD: return w == 64 ? dBits(bitsD(a) + bitsD(b)) : fBits(bitsF(a) + bitsF(b));
      case FSUB: return w == 64 ? dBits(bitsD(a) - bitsD(b)) : fBits(bitsF(a) - bitsF(b));
      case FMUL: return w == 64 ? dBits(bitsD(a) * bitsD(b)) : fBits(bitsF(a) * bitsF(b));
      case FDIV: return w == 64 ? dBits(bitsD(a) / bitsD(b)) : fBits(bitsF(a) / bitsF(b));
      default: engine_fatal("foldBin op %d", op);
   }
}
u64 foldUn(Op op, u64 a, unsigned wa, unsigned w, u64 k) {
   switch (op) {
      case FSQRT: return w == 64 ? dBits(sqrt(bitsD(a))) : fBits(sqrtf(bitsF(a)));
      case FPTOSI: { double d = wa == 64 ? bitsD(a) : bitsF(a); if (!(d > -9.3e18 && d < 9.2233720368547e18)) return 0x8000000000000000ull & mask(w); return (u64) (i64) d & mask(w); }
      case FPTOUI: { double d = wa == 64 ? bitsD(a) : bitsF(a); if (!(d > -1.0 && d < 1.8446744073709e19)) return 0; return (u64) d & mask(w); }
      case SITOFP: return w == 64 ? dBits((double) sx(a, wa)) : fBits((float) sx(a, wa));
      case UITOFP: return w == 64 ? dBits((double) a) : fBits((float) a);
      case FPEXT: return dBits((double) bitsF(a));
      case FPTRUNC: return fBits((float) bitsD(a));
      case FRINT: { double d = w == 64 ? bitsD(a) : bitsF(a); double r = k == 0 ? floor(d) : k == 1 ? ceil(d) : k == 2 ? trunc(d) : k == 3 ? nearbyint(d) : round(d); return w == 64 ? dBits(r) : fBits((float) r); }
      default: engine_fatal("foldUn op %d", op);
   }
}

E mkNot(E a) {
   if (isC(a)) return mkConst(!a->k, 1);
   switch (a->op) {
      case XOR: if (isC(a->b) && a->b->k == 1) return a->a; break;
      case ULT: return mkBin(ULE, a->b, a->a);
      case ULE: return mkBin(ULT, a->b, a->a);
      case SLT: return mkBin(SLE, a->b, a->a);
      case SLE: return mkBin(SLT, a->b, a->a);
      default: break;
   }
   return intern(XOR, 1, 0, a, mkConst(1, 1));
}

static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD || op == FMUL; }
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool iteConstLeaves(E e, int depth) { // an ITE tree whose leaves are all constants
   while (e->op == ITE) { if (depth-- <= 0) return false; if (!iteConstLeaves(e->b, depth)) return false; e = e->c; }
   return isC(e);
}

static E mapIteL(Op op, E ite, E k) { // op(ite,k)
   if (ite->op != ITE) return mkBin(op, ite, k);
   return mkIte(ite->a, mapIteL(op, ite->b, k), mapIteL(op, ite->c, k));
}
static E mapIteR(Op op, E k, E ite) {
   if (ite->op != ITE) return mkBin(op, k, ite);
   return mkIte(ite->a, mapIteR(op, k, ite->b), mapIteR(op, k, ite->c));
}

// cancellation in sums: collects c0 + sum(coef * term); false when there are too many terms
static bool linear(E e, u64 coef, std::vector<std::pair<E, u64>> &t, u64 &c0, int depth) {
   if (isC(e)) { c0 += coef * e->k; return true; }
   if (depth > 0 && (e->op == ADD || e->op == SUB)) return linear(e->a, coef, t, c0, depth - 1) && linear(e->b, e->op == SUB ? 0 - coef : coef, t, c0, depth - 1);
   for (auto &p : t) if (p.first == e) { p.second += coef; return true; }
   if (t.size() >= 8) return false;
   t.push_back({ e, coef }); return true;
}
static E cancelSum(Op op, E a, E b) {
   auto sum = [](E e) { return e->op == ADD || e->op == SUB; };
   if (!sum(a) && !sum(b)) return nullptr;
   unsigned w = a->w; u64 M = mask(w); std::vector<std::pair<E, u64>> t; u64 c0 = 0;
   if (!linear(a, 1, t, c0, 6) || !linear(b, op == SUB ? M : 1, t, c0, 6)) return nullptr;
   bool z = false; for (auto &p : t) { p.second &= M; if (!p.second) z = true; else if (p.second != 1 && p.second != M) return nullptr; }
   if (!z) return nullptr;
   E r = nullptr;
   std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
   for (auto &p : t) if (p.second == 1) r = r ? mkBin(ADD, r, p.first) : p.first;
   for (auto &p : t) if (p.second == M && M != 1) r = mkBin(SUB, r ? r : mkConst(0, w), p.first);
   return r ? mkBin(ADD, r, mkConst(c0 & M, w)) : mkConst(c0 & M, w);
}

E mkBin(Op op, E a, E b) {
   unsigned w = a->w;
   if (a->w != b->w) engine_fatal("width mismatch op %d: %d %d", op, a->w, b->w);
   unsigned rw = isCmp(op) ? 1 : w;
   if (isC(a) && isC(b)) return mkConst(foldBin(op, a->k, b->k, w), rw);
   if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
   u64 M = mask(w);
   if ((op == ADD || op == SUB) && w > 1 && !isC(b)) if (E r = cancelSum(op, a, b)) return r;
   switch (op) {
      case ADD:
         if (isC(b)) {
            if (b->k == 0) return a;
            if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->k + b->k, w));
         } else {
            if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
            if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
            if (a->op == SUB && a->b == b) return a->a;
            if (b->op == SUB && b->b == a) return b->a;
         }
         // disjoint bits: add == or
         if (!isC(b) && ((a->tz >= 1 && b->umax < (1ull << std::min<unsigned>(a->tz, 63))) || (b->tz >= 1 && a->umax < (1ull << std::min<unsigned>(b->tz, 63))))) return mkBin(OR, a, b);
         break;
      case SUB:
         if (a == b) return mkConst(0, w);
         if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->k, w));
         if (a->op == ADD && a->a == b) return a->b;
         if (a->op == ADD && a->b == b) return a->a;
         if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst(0 - b->b->k, w));
         if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
         break;
      case MUL:
         if (isC(b)) {
            if (b->k == 0) return b;
            if (b->k == 1) return a;
            if ((b->k & (b->k - 1)) == 0) return mkBin(SHL, a, mkConst(__builtin_ctzll(b->k), w));
            if (a->op == MUL && isC(a->b)) return mkBin(MUL, a->a, mkConst(a->b->k * b->k, w));
         }
         break;
      case UDIV:
         if (isC(b)) { if (b->k == 1) return a; if (b->k && (b->k & (b->k - 1)) == 0) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->k), w)); if (b->k && a->umax < b->k) return mkConst(0, w); }
         break;
      case UREM:
         if (isC(b)) { if (b->k == 1) return mkConst(0, w); if (b->k && a->umax < b->k) return a; if (b->k && (b->k & (b->k - 1)) == 0) return mkBin(AND, a, mkConst(b->k - 1, w)); }
         break;
      case SREM: case SDIV:
         if (isC(b) && w > 1 && sx(b->k, w) > 0 && a->umax <= (M >> 1)) return mkBin(op == SREM ? UREM : UDIV, a, b);
         break;
      case AND:
         if (a == b) return a;
         if (isC(b)) {
            if (b->k == 0) return b;
            if (b->k == M) return a;
            if ((b->k & (b->k + 1)) == 0) { if (a->umax <= b->k) return a; unsigned n = __builtin_ctzll(~b->k); return mkZext(mkExtract(a, 0, n), w); }
            if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(a->b->k & b->k, w));
            if (a->op == CONCAT) { unsigned lw = a->b->w; return mkConcat(mkBin(AND, a->a, mkConst(b->k >> lw, a->a->w)), mkBin(AND, a->b, mkConst(b->k, lw))); }
            if (a->op == ZEXT) { return mkZext(mkBin(AND, a->a, mkConst(b->k, a->a->w)), w); }
            // contiguous high mask
            { unsigned tz = __builtin_ctzll(b->k); u64 s = b->k >> tz; if ((s & (s + 1)) == 0 && tz > 0) { unsigned n = s == ~0ull ? 64 : __builtin_ctzll(~s); if (n + tz > w) n = w - tz; E mid = mkExtract(a, tz, n); E r = mkConcat(mid, mkConst(0, tz)); return mkZext(r, w); } }
         }
         if (w == 1) {
            if (a->op == XOR && a->a == b) return mkConst(0, 1);
            if (b->op == XOR && b->a == a) return mkConst(0, 1);
            if (a->op == AND && (a->a == b || a->b == b)) return a;
            if (b->op == AND && (b->a == a || b->b == a)) return b;
            if (a->op == OR && (a->a == b || a->b == b)) return b;
            if (b->op == OR && (b->a == a || b->b == a)) return a;
            if (a->op == EQ && b->op == EQ && a->a == b->a && isC(a->b) && isC(b->b)) return mkConst(0, 1);
         }
         break;
      case OR:
         if (a == b) return a;
         if (isC(b)) { if (b->k == 0) return a; if (b->k == M) return b; }
         if (w == 1) {
            if (a->op == XOR && a->a == b) return mkConst(1, 1);
            if (b->op == XOR && b->a == a) return mkConst(1, 1);
            if (a->op == OR && (a->a == b || a->b == b)) return a;
            if (b->op == OR && (b->a == a || b->b == a)) return b;
            if (a->op == AND && (a->a == b || a->b == b)) return b;
            if (b->op == AND && (b->a == a || b->b == a)) return a;
         } else {
            // splice: x:0_k | small  -> concat
            for (int s = 0; s < 2; s++) {
               E x = s ? b : a, y = s ? a : b;
               unsigned t = x->tz;
               if (t > 0 && t < w && y->umax <= mask(t)) return mkConcat(mkExtract(x, t, w - t), mkExtract(y, 0, t));
            }
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkConcat(mkBin(OR, a->a, b->a), mkBin(OR, a->b, b->b));
            if (a->op == CONCAT && b->op == ZEXT && b->a->w == a->b->w) return mkConcat(a->a, mkBin(OR, a->b, b->a));
            if (b->op == CONCAT && a->op == ZEXT && a->a->w == b->b->w) return mkConcat(b->a, mkBin(OR, b->b, a->a));
            if (a->op == CONCAT && b->op == ZEXT && b->a->w < a->b->w) return mkConcat(a->a, mkBin(OR, a->b, mkZext(b->a, a->b->w)));
            if (b->op == CONCAT && a->op == ZEXT && a->a->w < b->b->w) return mkConcat(b->a, mkBin(OR, b->b, mkZext(a->a, b->b->w)));
            if (a->op == CONCAT && b->op == ZEXT && b->a->w > a->b->w) { unsigned lw = a->b->w; return mkConcat(mkBin(OR, a->a, mkExtract(b, lw, w - lw)), mkBin(OR, a->b, mkExtract(b, 0, lw))); }
            if (b->op == CONCAT && a->op == ZEXT && a->a->w > b->b->w) { unsigned lw = b->b->w; return mkConcat(mkBin(OR, b->a, mkExtract(a, lw, w - lw)), mkBin(OR, b->b, mkExtract(a, 0, lw))); }
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZext(mkBin(OR, a->a, b->a), w);
         }
         break;
      case XOR:
         if (a == b) return mkConst(0, w);
         if (isC(b) && b->k == 0) return a;
         if (w == 1 && isC(b)) return mkNot(a);
         if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->k ^ b->k, w));
         break;
      case SHL:
         if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->k), mkConst(0, b->k)); }
         break;
      case LSHR:
         if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w); return mkZext(mkExtract(a, b->k, w - b->k), w); }
         break;
      case ASHR:
         if (isC(b)) { if (b->k == 0) return a; u64 s = b->k >= w ? w - 1 : b->k; return mkSext(mkExtract(a, s, w - s), w); }
         break;
      case EQ:
         if (a == b) return mkConst(1, 1);
         if (isC(b)) {
            if (b->k > a->umax) return mkConst(0, 1);
            if (a->tz && (b->k & mask(a->tz))) return mkConst(0, 1);
            if (w == 1) return b->k ? a : mkNot(a);
            switch (a->op) {
               case ZEXT: return mkBin(EQ, a->a, mkConst(b->k, a->a->w));
               case SEXT: { u64 lo = b->k & mask(a->a->w); if (((u64) sx(lo, a->a->w) & M) != b->k) return mkConst(0, 1); return mkBin(EQ, a->a, mkConst(lo, a->a->w)); }
               case CONCAT: return mkAnd(mkBin(EQ, a->a, mkConst(b->k >> a->b->w, a->a->w)), mkBin(EQ, a->b, mkConst(b->k, a->b->w)));
               case ADD: if (isC(a->b)) return mkBin(EQ, a->a, mkConst(b->k - a->b->k, w)); break;
               case XOR: if (isC(a->b)) return mkBin(EQ, a->a, mkConst(b->k ^ a->b->k, w)); break;
               case SUB: if (b->k == 0) return mkBin(EQ, a->a, a->b); if (isC(a->a)) return mkBin(EQ, a->b, mkConst(a->a->k - b->k, w)); break;
               case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->c, b)); break;
               case MUL: if (isC(a->b) && a->b->k && a->a->umax <= M / a->b->k) { if (b->k % a->b->k) return mkConst(0, 1); return mkBin(EQ, a->a, mkConst(b->k / a->b->k, w)); } break;
               case OR: if (b->k == 0) return mkAnd(mkBin(EQ, a->a, b), mkBin(EQ, a->b, b)); break;
               default: break;
            }
         } else {
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkAnd(mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
            if (a->op == ADD && b->op == ADD && isC(a->b) && isC(b->b)) return mkBin(EQ, a->a, mkBin(ADD, b->a, mkConst(b->b->k - a->b->k, w)));
            if (a->op == ADD && a->a == b) return mkBin(EQ, a->b, mkConst(0, w));
            if (b->op == ADD && b->a == a) return mkBin(EQ, b->b, mkConst(0, w));
         }
         break;
      case ULT:
         if (a == b) return mkConst(0, 1);
         if (isC(b)) {
            if (b->k == 0) return mkConst(0, 1);
            if (a->umax < b->k) return mkConst(1, 1);
            if (b->k == 1) return mkBin(EQ, a, mkConst(0, w));
            if (b->k == M) return mkNot(mkBin(EQ, a, b));
            if (a->op == ZEXT) return mkBin(ULT, a->a, mkConst(b->k, a->a->w)); // b fits since a->umax >= b
            if (a->op == CONCAT && isC(a->a) && a->a->k == 0) {}
         }
         if (isC(a)) {
            if (a->k == M || a->k >= b->umax) return mkConst(0, 1);
            if (a->k == 0) return mkNot(mkBin(EQ, b, mkConst(0, w)));
            if (b->op == ZEXT) return mkBin(ULT, mkConst(a->k, b->a->w), b->a);
         }
         if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
         break;
      case ULE:
         if (a == b) return mkConst(1, 1);
         if (isC(b)) {
            if (a->umax <= b->k) return mkConst(1, 1);
            if (b->k == 0) return mkBin(EQ, a, b);
            if (a->op == ZEXT) return mkBin(ULE, a->a, mkConst(b->k, a->a->w));
         }
         if (isC(a)) {
            if (a->k == 0) return mkConst(1, 1);
            if (a->k > b->umax) return mkConst(0, 1);
            if (a->k == 1) return mkNot(mkBin(EQ, b, mkConst(0, w)));
            if (b->op == ZEXT) return mkBin(ULE, mkConst(a->k, b->a->w), b->a);
         }
         if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
         break;
      case SLT: case SLE: {
         if (a == b) return mkConst(op == SLE, 1);
         u64 H = M >> 1;
         if (a->umax <= H && b->umax <= H) return mkBin(op == SLT ? ULT : ULE, a, b);
         if (isC(b) && sx(b->k, w) < 0 && a->umax <= H) return mkConst(0, 1);
         if (isC(a) && sx(a->k, w) < 0 && b->umax <= H) return mkConst(1, 1);
         if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
         if (a->op == SEXT && isC(b)) {
            unsigned n = a->a->w; i64 v = sx(b->k, w); i64 lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1;
            if (v > hi) return mkConst(1, 1);
            if (v < lo) return mkConst(0, 1);
            return mkBin(op, a->a, mkConst((u64) v, n));
         }
         if (b->op == SEXT && isC(a)) {
            unsigned n = b->a->w; i64 v = sx(a->k, w); i64 lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1;
            if (v > hi) return mkConst(0, 1);
            if (v < lo) return mkConst(1, 1);
            return mkBin(op, mkConst((u64) v, n), b->a);
         }
         if (isC(b) && op == SLT && b->k == 0 && a->w > 1) return mkExtract(a, w - 1, 1);           // sign bit
         if (isC(b) && op == SLE && b->k == M && a->w > 1) return mkExtract(a, w - 1, 1);
         if (isC(a) && op == SLE && a->k == 0 && b->w > 1) return mkNot(mkExtract(b, w - 1, 1));
         if (isC(a) && op == SLT && a->k == M && b->w > 1) return mkNot(mkExtract(b, w - 1, 1));
         break;
      }
      default: break;
   }
   // push a constant operation into ITEs with constant leaves
   if (isC(b) && a->op == ITE && op < FADD && iteConstLeaves(a, 40)) return mapIteL(op, a, b);
   if (isC(a) && b->op == ITE && op < FADD && iteConstLeaves(b, 40)) return mapIteR(op, a, b);
   if (commut(op) && !isC(b) && a->id > b->id) std::swap(a, b);
   return intern(op, rw, 0, a, b);
}

E mkIte(E c, E a, E b) {
   if (isC(c)) return c->k ? a : b;
   if (a == b) return a;
   if (c->op == XOR && isC(c->b)) return mkIte(c->a, b, a); // not
   if (a->w == 1) {
      if (isC(a)) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
      if (isC(b)) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
   }
   if (a->op == ITE && a->a == c) a = a->b;
   if (b->op == ITE && b->a == c) b = b->c;
   if (a == b) return a;
   if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
   return intern(ITE, a->w, 0, c, a, b);
}

E mkConcat(E hi, E lo) {
   unsigned w = hi->w + lo->w;
   if (w > 64) engine_fatal("concat wider than 64 bits");
   if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, w);
   if (isC(hi) && hi->k == 0) return mkZext(lo, w);
   if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, lo->k, w);
   if (hi->op == EXTRACT && hi->k == lo->w && (hi->a->op == ADD || hi->a->op == SUB || hi->a->op == MUL) && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
   if (hi->op == CONCAT && hi->b->op == EXTRACT && hi->b->k == lo->w && (hi->b->a->op == ADD || hi->b->a->op == SUB || hi->b->a->op == MUL) && mkExtract(hi->b->a, 0, lo->w) == lo) return mkConcat(hi->a, mkExtract(hi->b->a, 0, hi->b->w + lo->w));
   if (lo->op == CONCAT) {
      E h2 = mkConcat(hi, lo->a);
      // re-associate only if it simplifies
      if (h2->op != CONCAT) return mkConcat(h2, lo->b);
   }
   if (hi->op == CONCAT) { // right-associate so that low bytes fuse
      E l2 = nullptr;
      if ((hi->b->op == EXTRACT && lo->op == EXTRACT && hi->b->a == lo->a && hi->b->k == lo->k + lo->w) || (isC(hi->b) && isC(lo))) l2 = mkConcat(hi->b, lo);
      if (l2) return mkConcat(hi->a, l2);
   }
   if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
   if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
   if (hi->op == ITE && isC(lo) && isC(hi->b) && isC(hi->c)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
   if (lo->op == ITE && isC(hi) && isC(lo->b) && isC(lo->c)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
   return intern(CONCAT, w, 0, hi, lo);
}

E mkExtract(E a, unsigned off, unsigned w) {
   if (off == 0 && w == a->w) return a;
   if (off + w > a->w) engine_fatal("bad extract");
   if (isC(a)) return mkConst(a->k >> off, w);
   if (off < 64 && (a->umax >> off) == 0) return mkConst(0, w);
   switch (a->op) {
      case EXTRACT: return mkExtract(a->a, off + a->k, w);
      case CONCAT: {
         unsigned lw = a->b->w;
         if (off >= lw) return mkExtract(a->a, off - lw, w);
         if (off + w <= lw) return mkExtract(a->b, off, w);
         return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
      }
      case ZEXT: {
         unsigned n = a->a->w;
         if (off >= n) return mkConst(0, w);
         if (off + w <= n) return mkExtract(a->a, off, w);
         return mkZext(mkExtract(a->a, off, n - off), w);
      }
      case SEXT: {
         unsigned n = a->a->w;
         if (off + w <= n) return mkExtract(a->a, off, w);
         if (off < n) return mkSext(mkExtract(a->a, off, n - off), w);
         return mkSext(mkExtract(a->a, n - 1, 1), w);
      }
      case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
      case SUB: if (w == 1 && off == (unsigned) a->w - 1 && a->a->umax <= (mask(a->w) >> 1) && a->b->umax <= (mask(a->w) >> 1)) return mkBin(ULT, a->a, a->b);
      // fall through
      case ADD: case MUL: if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
      case ITE: if (isC(a->b) || isC(a->c) || iteConstLeaves(a, 40)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
      default: break;
   }
   return intern(EXTRACT, w, off, a);
}
E mkZext(E a, unsigned w) {
   if (w == a->w) return a;
   if (isC(a)) return mkConst(a->k, w);
   if (a->op == ZEXT) return mkZext(a->a, w);
   if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
   if (a->op == ITE && (isC(a->b) || isC(a->c)) && iteConstLeaves(a, 40)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
   return intern(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
   if (w == a->w) return a;
   if (isC(a)) return mkConst((u64) sx(a->k, a->w), w);
   if (a->op == SEXT) return mkSext(a->a, w);
   if (a->w > 1 && a->umax <= (mask(a->w) >> 1)) return mkZext(a, w);
   if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
   if (a->op == ITE && (isC(a->b) || isC(a->c)) && iteConstLeaves(a, 40)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
   return intern(SEXT, w, 0, a);
}
E mkUn(Op op, E a, unsigned w, u64 k) {
   if (isC(a)) return mkConst(foldUn(op, a->k, a->w, w, k), w);
   return intern(op, w, k, a);
}

static u64 g_epoch = 1;
u64 newEpoch() { return ++g_epoch; }
static u64 evalRec(E e, const Model &m, u64 ep) {
   if (e->op == CONST) return e->k;
   if (e->op == SYM) return m.get((u32) e->k) & mask(e->w);
   if (e->evEpoch == ep) return e->evVal;
   u64 r;
   switch (e->op) {
      case ITE: r = evalRec(e->a, m, ep) ? evalRec(e->b, m, ep) : evalRec(e->c, m, ep); break;
      case CONCAT: r = (evalRec(e->a, m, ep) << e->b->w) | evalRec(e->b, m, ep); break;
      case EXTRACT: r = (evalRec(e->a, m, ep) >> e->k) & mask(e->w); break;
      case ZEXT: r = evalRec(e->a, m, ep); break;
      case SEXT: r = (u64) sx(evalRec(e->a, m, ep), e->a->w) & mask(e->w); break;
      case FSQRT: case FPTOSI: case FPTOUI: case SITOFP: case UITOFP: case FPEXT: case FPTRUNC: case FRINT: r = foldUn(e->op, evalRec(e->a, m, ep), e->a->w, e->w, e->k); break;
      default: r = foldBin(e->op, evalRec(e->a, m, ep), evalRec(e->b, m, ep), e->a->w); break;
   }
   e->evEpoch = ep; e->evVal = r;
   return r;
}
u64 evalExpr(E e, const Model &m, u64 epoch) { return evalRec(e, m, epoch); }

static u64 g_visit = 1;
static void symsRec(E e, std::vector<u32> &o) {
   if (!e || e->op == CONST || e->visit == g_visit) return;
   e->visit = g_visit;
   if (e->op == SYM) { o.push_back((u32) e->k); return; }
   if (e->syms) { for (u32 s : *e->syms) o.push_back(s); return; }
   symsRec(e->a, o); symsRec(e->b, o); symsRec(e->c, o);
}
const std::vector<u32> &symsOf(E e) {
   if (!e->syms) {
      auto *v = new std::vector<u32>;
      g_visit++;
      symsRec(e, *v);
      std::sort(v->begin(), v->end());
      v->erase(std::unique(v->begin(), v->end()), v->end());
      e->syms = v;
   }
   return *e->syms;
}

static Z3_ast b2bv(Z3_context c, Z3_ast b) {
   Z3_sort s1 = Z3_mk_bv_sort(c, 1);
   return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
}
// 1-bit expressions are translated to Bool; isBool() tells which ones.
static Z3_ast bvOf(Z3_context c, E e) { Z3_ast t = toZ3(c, e); return e->w == 1 ? b2bv(c, t) : t; }
static Z3_ast bv1ToBool(Z3_context c, Z3_ast t) { return Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); }

Z3_ast toZ3(Z3_context c, E e) {
   if (e->z) return e->z;
   // avoid deep recursion: explicit post-order
   std::vector<E> st { e };
   while (!st.empty()) {
      E x = st.back();
      if (x->z) { st.pop_back(); continue; }
      bool ready = true;
      for (E ch : { x->a, x->b, x->c }) if (ch && !ch->z) { st.push_back(ch); ready = false; }
      if (!ready) continue;
      st.pop_back();
      Z3_ast r = nullptr;
      bool one = x->w == 1;
      Z3_sort s = Z3_mk_bv_sort(c, x->w);
      auto dsort = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c); };
      auto fp = [&](E q) { return Z3_mk_fpa_to_fp_bv(c, toZ3(c, q), dsort(q->w)); };
      switch (x->op) {
         case CONST: r = one ? (x->k ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, x->k, s); break;
         case SYM: {
            char nm[32]; snprintf(nm, sizeof nm, "s%u", (unsigned) x->k);
            Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), s);
            r = one ? bv1ToBool(c, v) : v; break;
         }
         case EQ: r = x->a->w == 1 ? Z3_mk_iff(c, x->a->z, x->b->z) : Z3_mk_eq(c, x->a->z, x->b->z); break;
         case ULT: r = Z3_mk_bvult(c, bvOf(c, x->a), bvOf(c, x->b)); break;
         case ULE: r = Z3_mk_bvule(c, bvOf(c, x->a), bvOf(c, x->b)); break;
         case SLT: r = Z3_mk_bvslt(c, bvOf(c, x->a), bvOf(c, x->b)); break;
         case SLE: r = Z3_mk_bvsle(c, bvOf(c, x->a), bvOf(c, x->b)); break;
         case AND: if (one) { Z3_ast t[2] { x->a->z, x->b->z }; r = Z3_mk_and(c, 2, t); } else r = Z3_mk_bvand(c, x->a->z, x->b->z); break;
         case OR: if (one) { Z3_ast t[2] { x->a->z, x->b->z }; r = Z3_mk_or(c, 2, t); } else r = Z3_mk_bvor(c, x->a->z, x->b->z); break;
         case XOR: r = one ? (isC(x->b) ? Z3_mk_not(c, x->a->z) : Z3_mk_xor(c, x->a->z, x->b->z)) : Z3_mk_bvxor(c, x->a->z, x->b->z); break;
         case ITE: r = Z3_mk_ite(c, x->a->z, x->b->z, x->c->z); break;
         case CONCAT: r = Z3_mk_concat(c, bvOf(c, x->a), bvOf(c, x->b)); break;
         case EXTRACT: r = Z3_mk_extract(c, x->k + x->w - 1, x->k, x->a->z); if (one) r = bv1ToBool(c, r); break;
         case ZEXT: r = Z3_mk_zero_ext(c, x->w - x->a->w, bvOf(c, x->a)); break;
         case SEXT: r = Z3_mk_sign_ext(c, x->w - x->a->w, bvOf(c, x->a)); break;
         case FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), fp(x->a), fp(x->b))); break;
         case FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), fp(x->a), fp(x->b))); break;
         case FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), fp(x->a), fp(x->b))); break;
         case FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), fp(x->a), fp(x->b))); break;
         case FSQRT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), fp(x->a))); break;
         case FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(x->a), x->w); break;
         case FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(x->a), x->w); break;
         case SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), bvOf(c, x->a), dsort(x->w))); break;
         case UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), bvOf(c, x->a), dsort(x->w))); break;
         case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(x->a), dsort(x->w))); break;
         case FRINT: { Z3_ast rm = x->k == 0 ? Z3_mk_fpa_rtn(c) : x->k == 1 ? Z3_mk_fpa_rtp(c) : x->k == 2 ? Z3_mk_fpa_rtz(c) : x->k == 3 ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c); r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fp(x->a))); break; }
         default: {
            Z3_ast p = bvOf(c, x->a), q = bvOf(c, x->b);
            switch (x->op) {
               case ADD: r = Z3_mk_bvadd(c, p, q); break;
               case SUB: r = Z3_mk_bvsub(c, p, q); break;
               case MUL: r = Z3_mk_bvmul(c, p, q); break;
               case UDIV: r = Z3_mk_bvudiv(c, p, q); break;
               case SDIV: r = Z3_mk_bvsdiv(c, p, q); break;
               case UREM: r = Z3_mk_bvurem(c, p, q); break;
               case SREM: r = Z3_mk_bvsrem(c, p, q); break;
               case SHL: r = Z3_mk_bvshl(c, p, q); break;
               case LSHR: r = Z3_mk_bvlshr(c, p, q); break;
               case ASHR: r = Z3_mk_bvashr(c, p, q); break;
               default: engine_fatal("toZ3 op %d", x->op);
            }
            if (one) r = bv1ToBool(c, r);
         }
      }
      Z3_inc_ref(c, r);
      x->z = r;
   }
   return e->z;
}

std::string exprStr(E e, int d) {
   static const char *nm[] = { "c", "s", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", "u>>", "s>>", "==", "u<", "u<=", "s<", "s<=", "ite", "cat", "ext", "zx", "sxt", "f+", "f-", "f*", "f/", "fsqrt", "f2s", "f2u", "s2f", "u2f", "fx", "ft", "frint" };
   if (!e) return "";
   if (e->op == CONST) return std::to_string(e->k) + ":" + std::to_string(e->w);
   if (e->op == SYM) return g_syms[e->k].name;
   if (d == 0) return "..";
   std::string s = std::string("(") + nm[e->op];
   if (e->op == EXTRACT) s += "[" + std::to_string(e->k) + "+" + std::to_string(e->w) + "]";
   if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
   for (E c : { e->a, e->b, e->c }) if (c) s += " " + exprStr(c, d - 1);
   return s + ")";
}
