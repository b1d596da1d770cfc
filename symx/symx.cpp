// symx: symbolic executor for LLVM-18 IR (see DESIGN.md, section "Engine").
#include "symx.h"
#include <cstdarg>
#include <chrono>
#include <deque>
#include <set>
#include <csignal>
#include <sys/resource.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;

static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static double g_start = nowS();

void engine_fatal(const char *fmt, ...) {
   va_list ap; va_start(ap, fmt); fprintf(stderr, "symx: FATAL: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
   fflush(nullptr); _exit(3);
}

// ------------------------------------------------------------------ options / stats
struct Opts {
   std::string bc, out, entry = "harness_main";
   double maxTime = 600; u64 maxPaths = ~0ull, maxSteps = 200000000ull; unsigned maxViol = 3; double qTimeout = 60, slowLog = 5;
   bool verbose = false; std::map<std::string, i64> params; unsigned uninitSym = 1; u64 maxConc = 100000;
   std::string srcPrefix = "/repo/";
   std::string dumpQ;
} O;
struct Stats {
   u64 paths = 0, pathsInfeasible = 0, forks = 0, steps = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, asserts = 0, assertQueries = 0, trivialAsserts = 0, concForks = 0, maxDepth = 0, z3slow = 0;
   double solverT = 0, maxQ = 0;
} S;
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<u32, u64>> inputs; };
static std::vector<Violation> g_viol;
static std::set<std::string> g_violKeys;
static std::map<std::string, u64> g_covers, g_asserts;
static std::map<std::string, std::vector<std::pair<u32, u64>>> g_coverInputs;
static std::vector<std::string> g_engineErrors;
static std::set<std::string> g_engineErrKeys;
static std::vector<std::vector<std::pair<u32, u64>>> g_samples;
static bool g_incomplete = false; static std::string g_incompleteWhy;
static void incomplete(const std::string &why) { g_incomplete = true; if (g_incompleteWhy.find(why) == std::string::npos) g_incompleteWhy += (g_incompleteWhy.empty() ? "" : "; ") + why; }

struct PathEnd { int why; }; // 0 normal, 1 violation, 2 infeasible, 3 engine error

// ------------------------------------------------------------------ solver
enum Res { UNSAT, SAT, UNKNOWN };
static Z3_context Z; static Z3_solver zsFP, zsBV;
static void z3err(Z3_context c, Z3_error_code e) { engine_fatal("z3: %s", Z3_get_error_msg(c, e)); }
struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
struct K128 { u64 a, b; bool operator==(const K128 &o) const { return a == o.a && b == o.b; } };
struct K128H { size_t operator()(const K128 &k) const { return k.a ^ (k.b * 31); } };
static std::unordered_map<K128, CacheEnt, K128H> qcache;
static std::deque<Model> recent;

static Res z3check(const std::vector<E> &as, const std::vector<u32> &syms, std::vector<std::pair<u32, u64>> &mo) {
   double t0 = nowS();
   S.queries++;
   bool fpq = false; for (E e : as) fpq |= e->hasFP;
   Z3_solver zs = fpq ? zsFP : zsBV;
   Z3_solver_push(Z, zs);
   for (E e : as) Z3_solver_assert(Z, zs, toZ3(Z, e));
   Z3_lbool r = Z3_solver_check(Z, zs);
   Z3_solver used = zs; bool own = false;
   if (r == Z3_L_UNDEF) {
      S.z3slow++;
      Z3_solver_pop(Z, zs, 1);
      bool fp = false; (void) fp;
      Z3_tactic t = Z3_mk_tactic(Z, "qffpbv"); Z3_tactic_inc_ref(Z, t);
      used = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, used); own = true;
      Z3_tactic_dec_ref(Z, t);
      Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
      Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (unsigned) (O.qTimeout * 1000));
      Z3_solver_set_params(Z, used, p); Z3_params_dec_ref(Z, p);
      for (E e : as) Z3_solver_assert(Z, used, toZ3(Z, e));
      r = Z3_solver_check(Z, used);
   }
   if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(Z, used); Z3_model_inc_ref(Z, m);
      for (u32 s : syms) {
         char nm[32]; snprintf(nm, sizeof nm, "s%u", s);
         Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, g_syms[s].w)), out;
         Z3_inc_ref(Z, v);
         u64 val = 0;
         if (Z3_model_eval(Z, m, v, true, &out)) { Z3_inc_ref(Z, out); if (!Z3_get_numeral_uint64(Z, out, (uint64_t *) &val)) engine_fatal("model numeral"); Z3_dec_ref(Z, out); }
         Z3_dec_ref(Z, v);
         mo.push_back({ s, val });
      }
      Z3_model_dec_ref(Z, m);
   }
   if (own) Z3_solver_dec_ref(Z, used); else Z3_solver_pop(Z, zs, 1);
   double dt = nowS() - t0; S.solverT += dt; if (dt > S.maxQ) S.maxQ = dt;
   if (dt > O.slowLog && O.verbose) { fprintf(stderr, "slow query %.1fs res %d\n", dt, (int) r); for (E e : as) fprintf(stderr, "   %s\n", exprStr(e, 5).c_str()); }
   if (r == Z3_L_TRUE) { S.sat++; return SAT; }
   if (r == Z3_L_FALSE) { S.unsat++; return UNSAT; }
   S.unknown++; incomplete("solver unknown");
   return UNKNOWN;
}

// is cons(s) & extra satisfiable?  On SAT updates mdl (a copy of the state's model) with a satisfying assignment.
static Res check(const State &s, E extra, Model &mdl) {
   if (isC(extra)) { if (!extra->k) return UNSAT; mdl = *s.model; return SAT; }
   // slice
   static std::vector<u32> mark; static u32 stamp = 0; stamp++;
   if (mark.size() < g_syms.size() + 1) mark.resize(g_syms.size() + 256, 0);
   std::vector<u32> syms;
   auto add = [&](E e) { bool any = false; for (u32 x : symsOf(e)) if (mark[x] != stamp) { mark[x] = stamp; syms.push_back(x); any = true; } return any; };
   add(extra);
   std::vector<E> slice { extra };
   std::vector<char> in(s.cons.size(), 0);
   bool ch = true;
   while (ch) {
      ch = false;
      for (size_t i = 0; i < s.cons.size(); i++) if (!in[i]) {
         bool hit = false;
         for (u32 x : symsOf(s.cons[i])) if (mark[x] == stamp) { hit = true; break; }
         if (hit) { in[i] = 1; slice.push_back(s.cons[i]); if (add(s.cons[i])) ch = true; }
      }
   }
   std::vector<u32> ids; for (E e : slice) ids.push_back(e->id);
   std::sort(ids.begin(), ids.end());
   K128 key { 1469598103934665603ull, 88172645463325252ull };
   for (u32 x : ids) { key.a = (key.a ^ x) * 1099511628211ull; key.b = (key.b + x) * 0x9E3779B97F4A7C15ull; key.b ^= key.b >> 31; }
   auto it = qcache.find(key);
   if (it != qcache.end()) {
      S.cacheHits++;
      if (it->second.r == SAT) { mdl = *s.model; for (auto &p : it->second.m) mdl.set(p.first, p.second); }
      return it->second.r;
   }
   CacheEnt ce;
   for (auto &rm : recent) {
      u64 ep = newEpoch(); bool ok = true;
      for (E e : slice) if (!evalExpr(e, rm, ep)) { ok = false; break; }
      if (ok) {
         S.modelHits++;
         ce.r = SAT; for (u32 x : syms) ce.m.push_back({ x, rm.get(x) });
         mdl = *s.model; for (auto &p : ce.m) mdl.set(p.first, p.second);
         qcache[key] = ce; return SAT;
      }
   }
   ce.r = z3check(slice, syms, ce.m);
   if (ce.r == SAT) {
      mdl = *s.model; for (auto &p : ce.m) mdl.set(p.first, p.second);
      u64 ep = newEpoch();
      for (E e : slice) if (!evalExpr(e, mdl, ep)) {
         // (NaN payloads of FP arithmetic may differ between Z3 and the host)
         if (O.verbose) fprintf(stderr, "model mismatch on %s\n", exprStr(e, 6).c_str());
         incomplete("model mismatch"); ce.r = UNKNOWN; break;
      }
      if (ce.r == SAT) { recent.push_front(mdl); if (recent.size() > 12) recent.pop_back(); }
   }
   qcache[key] = ce;
   return ce.r;
}

// ------------------------------------------------------------------ module
static Module *M; static const DataLayout *DL;
struct Fn {
   Function *F; std::string name; std::vector<Ins> code; u32 nregs = 0; bool decoded = false; bool isRepo = false; bool executed = false; std::string file;
   std::vector<std::pair<int,int>> args; // slot, n
};
static std::unordered_map<const Function *, Fn *> fnOf;
static std::vector<Fn *> fnList; // index -> Fn
static const u64 FNBASE = 0x7F00000000000000ull;
static std::unordered_map<const GlobalVariable *, u32> gvObj;
static std::deque<Val> constPool0; static std::vector<Val> constPool;
static State *g_init;

enum { I_BIN = 1, I_ICMP, I_FCMP, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_ALLOCA, I_EXTRV, I_INSV, I_LPAD, I_RESUME, I_UNREACH, I_FNEG, I_FUN, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_LOADAGG, I_STOREAGG, I_INTR, I_EXTRELT, I_INSELT, I_SHUF };

static Module *g_mod;
static u64 fnAddr(Function *F) {
   auto it = fnOf.find(F);
   if (it == fnOf.end()) {
      Fn *f = new Fn; f->F = F; f->name = F->getName().str(); fnOf[F] = f; fnList.push_back(f);
      it = fnOf.find(F);
      // index stored in nregs until decoded is not safe; keep a parallel map
   }
   static std::unordered_map<const Function *, u64> addr;
   auto a = addr.find(F);
   if (a != addr.end()) return a->second;
   u64 v = FNBASE + 16 * (fnList.size() - 1);
   // find index
   for (size_t i = fnList.size(); i-- > 0;) if (fnList[i]->F == F) { v = FNBASE + 16 * i; break; }
   addr[F] = v;
   return v;
}
static Fn *getFn(Function *F) { fnAddr(F); return fnOf[F]; }
static Fn *fnAt(u64 a) { if (a < FNBASE) return nullptr; u64 i = (a - FNBASE) / 16; if (i >= fnList.size() || (a & 15)) return nullptr; return fnList[i]; }

static unsigned scalarW(Type *T) {
   if (T->isIntegerTy()) return T->getIntegerBitWidth();
   if (T->isPointerTy()) return 64;
   if (T->isDoubleTy()) return 64;
   if (T->isFloatTy()) return 32;
   if (T->isX86_FP80Ty()) return 80;
   return 0;
}
static unsigned nslots(Type *T) {
   if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return 0;
   if (auto *ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *e : ST->elements()) n += nslots(e); return n; }
   if (auto *AT = dyn_cast<ArrayType>(T)) return AT->getNumElements() * nslots(AT->getElementType());
   if (auto *VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements();
   return 1;
}
static void flatten(Type *T, u64 off, std::vector<std::pair<u64, Type *>> &o) {
   if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) flatten(ST->getElementType(i), off + SL->getElementOffset(i), o); return; }
   if (auto *AT = dyn_cast<ArrayType>(T)) { u64 s = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) flatten(AT->getElementType(), off + i * s, o); return; }
   if (auto *VT = dyn_cast<FixedVectorType>(T)) { u64 s = DL->getTypeStoreSize(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); i++) o.push_back({ off + i * s, VT->getElementType() }); return; }
   o.push_back({ off, T });
}
static bool aggr(Type *T) { return T->isAggregateType() || T->isVectorTy(); }

static u64 constScalar(const Constant *c);
static void flatConst(const Constant *c, std::vector<Val> &o) {
   Type *T = c->getType();
   if (aggr(T)) {
      unsigned n = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : isa<ArrayType>(T) ? cast<ArrayType>(T)->getNumElements() : cast<FixedVectorType>(T)->getNumElements();
      for (unsigned i = 0; i < n; i++) {
         if (const Constant *el = c->getAggregateElement(i)) flatConst(el, o);
         else engine_fatal("aggregate constant");
      }
      return;
   }
   o.push_back(C(constScalar(c)));
}
static u64 constGEP(const GEPOperator *g) {
   APInt off(64, 0);
   if (!g->accumulateConstantOffset(*DL, off)) engine_fatal("non-constant gep constant");
   return constScalar(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
}
static u64 constScalar(const Constant *c) {
   if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().getRawData()[0]; return ci->getZExtValue(); }
   if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? b.getRawData()[0] : b.getZExtValue(); }
   if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
   if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = gvObj.find(gv); if (it == gvObj.end()) engine_fatal("global without object"); return baseOf(it->second); }
   if (auto *f = dyn_cast<Function>(c)) return fnAddr(const_cast<Function *>(f));
   if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
   if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *g = dyn_cast<GEPOperator>(ce)) return constGEP(g);
      auto op = [&](int i) { return constScalar(cast<Constant>(ce->getOperand(i))); };
      unsigned w = scalarW(ce->getType());
      switch (ce->getOpcode()) {
         case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
         case Instruction::PtrToInt: return op(0) & mask(w);
         case Instruction::IntToPtr: return op(0);
         case Instruction::Trunc: return op(0) & mask(w);
         case Instruction::ZExt: return op(0);
         case Instruction::SExt: return (u64) sx(op(0), scalarW(ce->getOperand(0)->getType())) & mask(w);
         case Instruction::Add: return (op(0) + op(1)) & mask(w);
         case Instruction::Sub: return (op(0) - op(1)) & mask(w);
         case Instruction::Mul: return (op(0) * op(1)) & mask(w);
         case Instruction::And: return op(0) & op(1);
         case Instruction::Or: return op(0) | op(1);
         case Instruction::Xor: return op(0) ^ op(1);
         case Instruction::ICmp: {
            u64 a = op(0), b = op(1); unsigned cw = scalarW(ce->getOperand(0)->getType());
            switch (ce->getPredicate()) {
               case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
               case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b;
               case CmpInst::ICMP_SLT: return sx(a, cw) < sx(b, cw); case CmpInst::ICMP_SGT: return sx(a, cw) > sx(b, cw);
               default: engine_fatal("const icmp");
            }
         }
         default: engine_fatal("constant expression opcode %s", ce->getOpcodeName());
      }
   }
   engine_fatal("constant kind");
}
static void initMem(Obj *o, u64 off, const Constant *c) {
   Type *T = c->getType();
   if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
   if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
   if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *SL = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + SL->getElementOffset(i), cs->getOperand(i)); return; }
   if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 s = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(o, off + i * s, ca->getOperand(i)); return; }
   if (T->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(o->data + off, b.getRawData(), 10); return; }
   if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { memcpy(o->data + off, ci->getValue().getRawData(), (ci->getBitWidth() + 7) / 8); return; } }
   u64 v = constScalar(c); memcpy(o->data + off, &v, DL->getTypeStoreSize(T));
}

struct GepAux { i64 off; std::vector<std::tuple<int, i64, unsigned>> idx; };
struct ArgI { int slot, n; u32 byval; };
struct CallAux { Fn *fn; int calleeSlot; std::vector<ArgI> args; int retn; unsigned retw; Edge *normal = nullptr, *unwind = nullptr; int intr = 0; const void *handler = nullptr; bool isVar = false; };
struct SwAux { std::vector<u64> vals; std::vector<u32> caseEdge; std::vector<Edge *> edges; u32 def; };
struct AggAux { std::vector<std::pair<u64, unsigned>> el; u64 size; };
struct LpAux { std::vector<u64> catches; std::vector<bool> isFilter; bool cleanup; };
struct ShufAux { std::vector<int> m; unsigned n; };

static int poolConst(const Constant *c) {
   std::vector<Val> v; flatConst(c, v);
   static std::unordered_map<const Constant *, int> memo;
   auto it = memo.find(c); if (it != memo.end()) return it->second;
   int i = (int) constPool.size();
   for (auto &x : v) constPool.push_back(x);
   if (v.empty()) constPool.push_back(C(0));
   return memo[c] = ~i;
}

static void decode(Fn *f) {
   Function *F = f->F; f->decoded = true;
   std::unordered_map<const Value *, int> slot;
   u32 n = 0;
   for (auto &a : F->args()) { slot[&a] = n; unsigned k = nslots(a.getType()); f->args.push_back({ (int) n, (int) k }); n += k; }
   for (auto &B : *F) for (auto &I : B) { unsigned k = nslots(I.getType()); if (k) { slot[&I] = n; n += k; } }
   f->nregs = n;
   if (auto *sp = F->getSubprogram()) { f->file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (!sp->getFilename().empty() && sp->getFilename()[0] == '/') f->file = sp->getFilename().str(); f->isRepo = f->file.compare(0, O.srcPrefix.size(), O.srcPrefix) == 0; }
   auto op = [&](const Value *v) -> int {
      if (auto *c = dyn_cast<Constant>(v)) return poolConst(c);
      auto it = slot.find(v); if (it == slot.end()) return poolConst(ConstantInt::get(Type::getInt64Ty(F->getContext()), 0));
      return it->second;
   };
   std::unordered_map<const BasicBlock *, u32> start;
   // first pass: count instructions
   u32 pc = 0;
   for (auto &B : *F) { start[&B] = pc; for (auto &I : B) if (!isa<PHINode>(&I)) pc++; }
   auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
      Edge *e = new Edge; e->pc = start[to];
      for (auto &P : to->phis()) e->phis.push_back({ slot[&P], op(P.getIncomingValueForBlock(from)), (int) nslots(P.getType()) });
      return e;
   };
   for (auto &B : *F) for (auto &I : B) {
      if (isa<PHINode>(&I)) continue;
      Ins x; memset(&x, 0, sizeof x); x.I = &I; x.dst = slot.count(&I) ? slot[&I] : 0; x.w = (u8) std::min(255u, scalarW(I.getType())); x.op = I_UNSUP;
      auto wide = [&](Type *T) { unsigned w = scalarW(T); return w > 64; };
      bool bad = wide(I.getType()); for (auto &o : I.operands()) if (wide(o->getType())) bad = true;
      if (bad && !isa<CallBase>(&I) ) { f->code.push_back(x); continue; }
      switch (I.getOpcode()) {
         case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
         case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
         case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            static const std::map<unsigned, Op> mp { { Instruction::Add, ADD }, { Instruction::Sub, SUB }, { Instruction::Mul, MUL }, { Instruction::UDiv, UDIV }, { Instruction::SDiv, SDIV }, { Instruction::URem, UREM }, { Instruction::SRem, SREM }, { Instruction::And, AND }, { Instruction::Or, OR }, { Instruction::Xor, XOR }, { Instruction::Shl, SHL }, { Instruction::LShr, LSHR }, { Instruction::AShr, ASHR }, { Instruction::FAdd, FADD }, { Instruction::FSub, FSUB }, { Instruction::FMul, FMUL }, { Instruction::FDiv, FDIV } };
            x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1));
            if (I.getOpcode() == Instruction::FRem) break;
            x.op = I_BIN; x.sub = mp.at(I.getOpcode());
            x.c = nslots(I.getType());
            if (I.getType()->isVectorTy()) x.w = scalarW(I.getType()->getScalarType());
            if (x.w > 64) x.op = I_UNSUP;
            break;
         }
         case Instruction::FNeg: x.op = I_FNEG; x.a = op(I.getOperand(0)); break;
         case Instruction::ICmp: case Instruction::FCmp: x.op = I.getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP; x.sub = cast<CmpInst>(&I)->getPredicate(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.w = scalarW(I.getOperand(0)->getType()->getScalarType()); x.c = nslots(I.getType()); break;
         case Instruction::Load: {
            x.a = op(I.getOperand(0));
            if (aggr(I.getType())) { auto *ax = new AggAux; std::vector<std::pair<u64, Type *>> fl; flatten(I.getType(), 0, fl); bool ok = true; for (auto &p : fl) { ax->el.push_back({ p.first, scalarW(p.second) }); if (scalarW(p.second) > 64 || scalarW(p.second) % 8) ok = false; } ax->size = DL->getTypeStoreSize(I.getType()); x.aux = ax; if (ok) x.op = I_LOADAGG; }
            else { x.op = I_LOAD; x.w2 = DL->getTypeStoreSize(I.getType()); x.isPtr = I.getType()->isPointerTy(); }
            break;
         }
         case Instruction::Store: {
            x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); Type *T = I.getOperand(0)->getType();
            if (aggr(T)) { auto *ax = new AggAux; std::vector<std::pair<u64, Type *>> fl; flatten(T, 0, fl); bool ok = true; for (auto &p : fl) { ax->el.push_back({ p.first, scalarW(p.second) }); if (scalarW(p.second) > 64 || scalarW(p.second) % 8) ok = false; } ax->size = DL->getTypeStoreSize(T); x.aux = ax; if (ok) x.op = I_STOREAGG; }
            else { x.op = I_STORE; x.w = scalarW(T); x.w2 = DL->getTypeStoreSize(T); }
            break;
         }
         case Instruction::GetElementPtr: {
            if (I.getType()->isVectorTy()) break;
            auto *g = cast<GetElementPtrInst>(&I); auto *ax = new GepAux; ax->off = 0;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
               Value *ix = gi.getOperand();
               if (StructType *ST = gi.getStructTypeOrNull()) ax->off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
               else { i64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) ax->off += ci->getSExtValue() * sz; else ax->idx.push_back({ op(ix), sz, scalarW(ix->getType()) }); }
            }
            x.op = I_GEP; x.a = op(g->getPointerOperand()); x.aux = ax; break;
         }
         case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isUnconditional()) { x.op = I_BR; x.aux = mkEdge(&B, b->getSuccessor(0)); } else { x.op = I_CBR; x.a = op(b->getCondition()); auto **es = new Edge *[2]; es[0] = mkEdge(&B, b->getSuccessor(0)); es[1] = mkEdge(&B, b->getSuccessor(1)); x.aux = es; } break; }
         case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(&I); auto *ax = new SwAux; x.w = scalarW(sw->getCondition()->getType()); x.a = op(sw->getCondition());
            std::map<const BasicBlock *, u32> ei; auto ed = [&](BasicBlock *t) { auto it = ei.find(t); if (it != ei.end()) return it->second; u32 i = ax->edges.size(); ax->edges.push_back(mkEdge(&B, t)); ei[t] = i; return i; };
            ax->def = ed(sw->getDefaultDest());
            for (auto &cs : sw->cases()) { ax->vals.push_back(cs.getCaseValue()->getZExtValue()); ax->caseEdge.push_back(ed(cs.getCaseSuccessor())); }
            x.op = I_SWITCH; x.aux = ax; break;
         }
         case Instruction::Ret: x.op = I_RET; x.c = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0; if (x.c) x.a = op(I.getOperand(0)); break;
         case Instruction::Unreachable: x.op = I_UNREACH; break;
         case Instruction::Select: x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); x.op = I_SELECT; x.isPtr = I.getType()->isPointerTy(); x.w2 = nslots(I.getType()); if (I.getOperand(0)->getType()->isVectorTy()) x.op = I_UNSUP; { auto *ax = new AggAux; std::vector<std::pair<u64, Type *>> fl; flatten(I.getType(), 0, fl); for (auto &p : fl) ax->el.push_back({ 0, scalarW(p.second) }); x.aux = ax; } break;
         case Instruction::ZExt: x.op = I_ZEXT; x.a = op(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()->getScalarType()); if (I.getType()->isVectorTy()) x.op = I_UNSUP; break;
         case Instruction::SExt: x.op = I_SEXT; x.a = op(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()->getScalarType()); if (I.getType()->isVectorTy()) x.op = I_UNSUP; break;
         case Instruction::Trunc: x.op = I_TRUNC; x.a = op(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()->getScalarType()); if (I.getType()->isVectorTy()) x.op = I_UNSUP; break;
         case Instruction::PtrToInt: case Instruction::IntToPtr: x.a = op(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()); x.op = x.w2 > x.w ? I_TRUNC : x.w2 < x.w ? I_ZEXT : I_MOV; x.c = 1; break;
         case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: x.a = op(I.getOperand(0)); x.op = I_MOV; x.c = nslots(I.getType()); if (nslots(I.getType()) != nslots(I.getOperand(0)->getType())) x.op = I_UNSUP; break;
         case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            if (I.getType()->isVectorTy()) break;
            x.op = I_FUN; x.sub = I.getOpcode() == Instruction::FPToSI ? FPTOSI : I.getOpcode() == Instruction::FPToUI ? FPTOUI : I.getOpcode() == Instruction::SIToFP ? SITOFP : I.getOpcode() == Instruction::UIToFP ? UITOFP : I.getOpcode() == Instruction::FPExt ? FPEXT : FPTRUNC;
            x.a = op(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()); break;
         case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); x.op = I_ALLOCA; x.a = op(al->getArraySize()); x.c = (int) (u64) DL->getTypeAllocSize(al->getAllocatedType()); break; }
         case Instruction::ExtractValue: {
            auto *ev = cast<ExtractValueInst>(&I); Type *T = ev->getAggregateOperand()->getType(); unsigned off = 0;
            for (unsigned ix : ev->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < ix; j++) off += nslots(ST->getElementType(j)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); off += ix * nslots(AT->getElementType()); T = AT->getElementType(); } }
            int s = op(ev->getAggregateOperand()); x.op = I_MOV; x.a = s >= 0 ? s + (int) off : ~((~s) + (int) off); x.c = nslots(T); break;
         }
         case Instruction::InsertValue: {
            auto *iv = cast<InsertValueInst>(&I); Type *T = iv->getType(); unsigned off = 0;
            for (unsigned ix : iv->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < ix; j++) off += nslots(ST->getElementType(j)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); off += ix * nslots(AT->getElementType()); T = AT->getElementType(); } }
            x.op = I_INSV; x.a = op(iv->getAggregateOperand()); x.b = op(iv->getInsertedValueOperand()); x.c = off; x.w = nslots(iv->getType()); x.w2 = nslots(T); break;
         }
         case Instruction::ExtractElement: x.op = I_EXTRELT; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = nslots(I.getOperand(0)->getType()); break;
         case Instruction::InsertElement: x.op = I_INSELT; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); x.w2 = nslots(I.getType()); break;
         case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(&I); auto *ax = new ShufAux; for (int m : sv->getShuffleMask()) ax->m.push_back(m); ax->n = nslots(I.getOperand(0)->getType()); x.op = I_SHUF; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.aux = ax; break; }
         case Instruction::LandingPad: {
            auto *lp = cast<LandingPadInst>(&I); auto *ax = new LpAux; ax->cleanup = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { ax->catches.push_back(constScalar(lp->getClause(i))); ax->isFilter.push_back(false); } else { ax->catches.push_back(0); ax->isFilter.push_back(true); } }
            x.op = I_LPAD; x.aux = ax; break;
         }
         case Instruction::Resume: x.op = I_RESUME; x.a = op(I.getOperand(0)); break;
         case Instruction::Fence: x.op = I_NOP; break;
         case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&I); x.op = I_RMW; x.sub = r->getOperation(); x.a = op(r->getPointerOperand()); x.b = op(r->getValOperand()); x.w2 = DL->getTypeStoreSize(I.getType()); break; }
         case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(&I); x.op = I_CMPXCHG; x.a = op(r->getPointerOperand()); x.b = op(r->getCompareOperand()); x.c = op(r->getNewValOperand()); x.w = scalarW(r->getCompareOperand()->getType()); x.w2 = DL->getTypeStoreSize(r->getCompareOperand()->getType()); break; }
         case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(&I);
            auto *ax = new CallAux; ax->fn = nullptr;
            if (cb->isInlineAsm()) { x.op = I_NOP; break; }
            Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto *cf = dyn_cast<Function>(cv)) { ax->fn = getFn(cf); if (cf->isIntrinsic()) ax->intr = cf->getIntrinsicID(); } else ax->calleeSlot = op(cb->getCalledOperand());
            for (unsigned i = 0; i < cb->arg_size(); i++) {
               Value *av = cb->getArgOperand(i);
               if (av->getType()->isMetadataTy()) { ax->args.push_back({ poolConst(ConstantInt::get(Type::getInt64Ty(F->getContext()), 0)), 1, 0 }); continue; }
               u32 bv = 0; if (cb->isByValArgument(i)) bv = DL->getTypeAllocSize(cb->getParamByValType(i));
               ax->args.push_back({ op(av), (int) nslots(av->getType()), bv });
            }
            ax->retn = nslots(I.getType()); ax->retw = I.getType()->isVectorTy() ? scalarW(I.getType()->getScalarType()) : scalarW(I.getType());
            x.op = ax->intr ? I_INTR : I_CALL; x.aux = ax;
            if (auto *iv = dyn_cast<InvokeInst>(&I)) { ax->normal = mkEdge(&B, iv->getNormalDest()); ax->unwind = mkEdge(&B, iv->getUnwindDest()); }
            if (ax->intr) switch (ax->intr) {
               case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::invariant_end: x.op = I_NOP; break;
               default: break;
            }
            break;
         }
         default: break;
      }
      f->code.push_back(x);
   }
}

// ------------------------------------------------------------------ exploration state
static std::vector<State *> worklist;
static State *cur;

static std::string locOf(const Instruction *I) {
   if (!I) return "?";
   if (auto &d = I->getDebugLoc()) { std::string r = d->getFilename().str(); size_t p = r.rfind('/'); if (p != std::string::npos) r = r.substr(p + 1); return r + ":" + std::to_string(d->getLine()); }
   return "?";
}
static std::vector<std::string> stackOf(const State &s) {
   std::vector<std::string> r;
   for (size_t i = s.fr.size(); i-- > 0;) { const Frame &f = s.fr[i]; r.push_back(demangle(f.fn->name).substr(0, 160) + " @ " + (f.pc < f.fn->code.size() ? locOf(f.fn->code[f.pc].I) : "?")); if (r.size() > 25) break; }
   return r;
}
static std::vector<std::pair<u32, u64>> inputsOf(const State &s, const Model &m) {
   std::vector<std::pair<u32, u64>> r; for (u32 id : s.symSeq) r.push_back({ id, m.get(id) & mask(g_syms[id].w) }); return r;
}
static void violation(const State &s, const std::string &kind, const std::string &msg, const Model &m) {
   auto st = stackOf(s);
   std::string key = kind + "|" + msg + "|" + (st.empty() ? "" : st[0]);
   if (g_violKeys.insert(key).second) {
      Violation v; v.kind = kind; v.msg = msg; v.stack = st; v.inputs = inputsOf(s, m);
      g_viol.push_back(v);
      if (O.verbose) { fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), msg.c_str()); for (auto &x : st) fprintf(stderr, "   at %s\n", x.c_str()); for (auto &p : v.inputs) fprintf(stderr, "   %s = 0x%llx\n", g_syms[p.first].name.c_str(), (unsigned long long) p.second); }
   }
}
[[noreturn]] static void fail(const std::string &kind, const std::string &msg) { violation(*cur, kind, msg, *cur->model); throw PathEnd { 1 }; }
[[noreturn]] static void engErr(const std::string &msg) {
   if (g_engineErrKeys.insert(msg).second) { std::string m = msg; for (auto &x : stackOf(*cur)) m += "\n    at " + x; g_engineErrors.push_back(m); if (O.verbose) fprintf(stderr, "ENGINE %s\n", m.c_str()); }
   throw PathEnd { 3 };
}

// equal expressions: the bulkier one is replaced by the simpler one on later loads and decisions
static void noteEq(State &s, E c) {
   if (c->op != EQ || isC(c->a) || isC(c->b) || c->a->w < 8) return;
   auto wt = [](E e) { return (e->op == SYM ? 0u : 1000u) + (unsigned) symsOf(e).size() * 100; };
   E x = c->a, y = c->b; unsigned p = wt(x), q = wt(y);
   if (p < q || (p == q && x->id < y->id)) std::swap(x, y);
   if (!s.alias.count(x) && !s.alias.count(y)) s.alias[x] = y;
}
static void addCons(State &s, E c) {
   if (isC(c)) return;
   if (c->op == AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
   if (s.known.count(c)) return;
   s.cons.push_back(c);
   s.known[c] = 1; noteEq(s, c);
   E n = mkNot(c); if (!isC(n)) s.known[n] = 0;
   if (c->op == EQ && isC(c->b)) {
      s.known[c->a] = c->b->k;
      for (auto &v : s.regs) if (v.e == c->a) { v.e = nullptr; v.v = c->b->k; }
   }
   for (auto &v : s.regs) if (v.e == c) { v.e = nullptr; v.v = 1; } else if (v.e == n) { v.e = nullptr; v.v = 0; }
}
static State *cloneState(State &s) { State *n = new State(s); n->forks++; S.forks++; return n; }
static u64 evalIn(State &s, E e) { return evalExpr(e, *s.model, newEpoch()); }
static bool allKnown(State &s, E e) {
   for (u32 x : symsOf(e)) { E se = mkSym(x); if (!s.known.count(se)) return false; }
   return true;
}
// reduce a value using known facts
static inline void reduce(State &s, Val &v) {
   if (!v.e) return;
   if (!s.alias.empty()) for (int k = 0; k < 4; k++) { auto al = s.alias.find(v.e); if (al == s.alias.end()) break; v.e = al->second; if (isC(v.e)) { v.v = v.e->k; v.e = nullptr; return; } }
   auto it = s.known.find(v.e);
   if (it != s.known.end()) { v.v = it->second; v.e = nullptr; return; }
   if (v.e->op != SYM && allKnown(s, v.e)) { u64 x = evalIn(s, v.e); s.known[v.e] = x; v.v = x; v.e = nullptr; }
}
// Decide a symbolic condition; forks when both sides are feasible.  Returns the side taken by the current state.
// The forked state re-executes the current instruction with the opposite constraint.
static bool decide(State &s, E c) {
   if (isC(c)) return c->k;
   Val v { 0, c }; reduce(s, v); if (!v.e) return v.v;
   bool side = evalIn(s, c);
   E other = side ? mkNot(c) : c;
   Model m;
   Res r = check(s, other, m);
   if (r == SAT) {
      State *n = cloneState(s);
      n->model = std::make_shared<Model>(m);
      addCons(*n, other);
      worklist.push_back(n);
   }
   if (r != UNSAT) addCons(s, side ? c : mkNot(c));
   else { s.known[c] = side; E n = mkNot(c); if (!isC(n)) s.known[n] = !side; noteEq(s, side ? c : n); }
   return side;
}
// zero extension of a truncated sum whose untruncated value is provably small is that value
static E widen(E x, unsigned w, int depth) {
   if (isC(x)) return mkConst((u64) sx(x->k, x->w), w);
   if (x->op == EXTRACT && x->k == 0) return x->a->w >= w ? mkExtract(x->a, 0, w) : mkZext(x->a, w);
   if ((x->op == ADD || x->op == SUB) && depth > 0) { E p = widen(x->a, w, depth - 1), q = p ? widen(x->b, w, depth - 1) : nullptr; return q ? mkBin(x->op, p, q) : nullptr; }
   return nullptr;
}
static E zextVal(State &s, E x, unsigned w) {
   if (x->w < 8 || (x->op != EXTRACT && x->op != ADD && x->op != SUB)) return mkZext(x, w);
   E wide = widen(x, w, 4); if (!wide) return mkZext(x, w);
   E c = mkBin(ULE, wide, mkConst(mask(x->w), w));
   Val v { 0, c }; if (isC(c)) v = C(c->k); else reduce(s, v);
   if (!v.e) return v.v ? wide : mkZext(x, w);
   if (!evalIn(s, c)) return mkZext(x, w);
   Model m; Res r = check(s, mkNot(c), m);
   if (r == UNSAT) { s.known[c] = 1; return wide; }
   return mkZext(x, w);
}
static u64 concretize(State &s, Val &v, unsigned w) {
   reduce(s, v);
   if (!v.e) return v.v;
   E e = v.e; u64 x = evalIn(s, e);
   E eq = mkEq(e, mkConst(x, w));
   Model m; Res r = check(s, mkNot(eq), m);
   if (r == SAT) {
      if (++S.concForks > O.maxConc) { incomplete("concretisation limit"); }
      else { State *n = cloneState(s); n->model = std::make_shared<Model>(m); addCons(*n, mkNot(eq)); worklist.push_back(n); }
   }
   addCons(s, eq);
   s.known[e] = x;
   v.v = x; v.e = nullptr;
   return x;
}

// ------------------------------------------------------------------ symbols
static std::unordered_map<std::string, u32> symByName;
static E freshSym(State &s, const std::string &name, unsigned w, bool uninit) {
   std::string key = uninit ? "uninit#" + std::to_string(s.uninitCounter++) : "#" + std::to_string(s.symCounter++) + ":" + name + ":" + std::to_string(w);
   auto it = symByName.find(key); u32 id;
   if (it == symByName.end()) { id = g_syms.size(); g_syms.push_back({ uninit ? key : name, w, uninit }); symByName[key] = id; }
   else id = it->second;
   if (!uninit) s.symSeq.push_back(id);
   return mkSym(id);
}

// ------------------------------------------------------------------ memory access
static E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static Val mk(E e) { if (isC(e)) return C(e->k); return Val { 0, e }; }

static std::string addrStr(State &s, u64 a) {
   char b[160]; u64 id = a >> 32; Obj *o = s.mem.get(id);
   if (a < 0x10000) snprintf(b, sizeof b, "null pointer (0x%llx)", (unsigned long long) a);
   else if (!o) snprintf(b, sizeof b, "dead or invalid object (0x%llx)", (unsigned long long) a);
   else snprintf(b, sizeof b, "offset %lld of %s object of size %u%s %s", (long long) ((a & 0xffffffffull)) - (long long) OFF0, o->kind == 1 ? "heap" : o->kind == 2 ? "stack" : "global", o->size, o->freed ? " (freed)" : "", o->name);
   return b;
}
// low bits of e that are known constants: returns count, value in v
static unsigned knownLow(E e, u64 &v) {
   switch (e->op) {
      case CONST: v = e->k; return 64;
      case CONCAT: { u64 lv; unsigned n = knownLow(e->b, lv); if (n >= e->b->w) { u64 hv; unsigned m = knownLow(e->a, hv); v = (lv & mask(e->b->w)) | (hv << e->b->w); return std::min(64u, e->b->w + m); } v = lv; return n; }
      case ADD: { u64 x, y; unsigned n = knownLow(e->a, x), m = knownLow(e->b, y); v = x + y; return std::min(n, m); }
      case ZEXT: { unsigned n = knownLow(e->a, v); return n >= e->a->w ? 64 : n; }
      default: v = 0; return e->tz;
   }
}

static Val byteFromLog(State &s, Obj *o, E pos, size_t upto, Val base);
static Val rawByte(State &s, u64 id, u32 off) { // ignores log
   Obj *o = s.mem.get(id);
   if (o->anyUninit && o->uninit[off]) {
      o = s.mem.wget(id);
      o->uninit[off] = 0;
      if (O.uninitSym) { E u = freshSym(s, "", 8, true); o->setSym(off, u); return Val { 0, u }; }
      o->data[off] = 0; return C(0);
   }
   if (o->nsym) if (E e = o->symAt(off)) { Val v { 0, e }; reduce(s, v); return v; }
   return C(o->data[off]);
}
static Val rawLoad(State &s, u64 id, u32 off, unsigned n) {
   Obj *o = s.mem.get(id);
   bool plain = true;
   if (o->anyUninit) for (unsigned i = 0; i < n; i++) if (o->uninit[off + i]) { plain = false; break; }
   if (plain && o->nsym) for (unsigned i = 0; i < n; i++) if (o->symAt(off + i)) { plain = false; break; }
   if (plain) { u64 v = 0; memcpy(&v, o->data + off, n); return C(v); }
   E r = nullptr;
   // avoid per-byte reduce when all bytes are extracts of one expression
   for (unsigned i = 0; i < n; i++) {
      Val b; 
      Obj *oo = s.mem.get(id);
      if (oo->anyUninit && oo->uninit[off + i]) b = rawByte(s, id, off + i);
      else if (E e = oo->symAt(off + i)) b = Val { 0, e };
      else b = C(oo->data[off + i]);
      E be = toE(b, 8);
      r = r ? mkConcat(be, r) : be;
   }
   Val v = mk(r); reduce(s, v); return v;
}
static Val byteFromLog(State &s, Obj *o, E pos, size_t upto, Val base) {
   E r = toE(base, 8);
   for (size_t i = 0; i < upto; i++) {
      auto &lw = (*o->log)[i];
      E d = mkBin(SUB, pos, lw.off); // 32 bit
      if (lw.n == 1) { r = mkIte(mkEq(d, mkConst(0, 32)), toE(lw.val, 8), r); continue; }
      for (unsigned j = 0; j < lw.n; j++) r = mkIte(mkEq(d, mkConst(j, 32)), mkExtract(toE(lw.val, lw.n * 8), 8 * j, 8), r);
   }
   return mk(r);
}
static bool sameOrDisjoint(E a, E b, unsigned n) { // both offsets congruent modulo n => equal or disjoint for n-byte cells
   if (n & (n - 1)) return false;
   unsigned lg = __builtin_ctz(n); u64 x, y;
   unsigned p = knownLow(a, x), q = knownLow(b, y);
   return p >= lg && q >= lg && ((x ^ y) & mask(lg)) == 0;
}
static Val applyLog(State &s, u64 id, E off, unsigned n, Val base) {
   Obj *o = s.mem.get(id);
   size_t L = o->log->size();
   bool simple = true;
   for (size_t i = 0; i < L; i++) { auto &lw = (*o->log)[i]; if (lw.off == off && lw.n == n) continue; if (isC(off) && isC(lw.off) && (off->k + n <= lw.off->k || lw.off->k + lw.n <= off->k)) continue; if (lw.n == n && sameOrDisjoint(off, lw.off, n)) continue; simple = false; break; }
   if (simple) {
      E r = toE(base, n * 8);
      for (size_t i = 0; i < L; i++) {
         auto &lw = (*o->log)[i];
         if (isC(off) && isC(lw.off) && (off->k + n <= lw.off->k || lw.off->k + lw.n <= off->k)) continue;
         E c = mkEq(off, lw.off);
         if (!isC(c)) { Val cv { 0, c }; reduce(s, cv); if (!cv.e) c = mkConst(cv.v, 1); }
         r = mkIte(c, toE(lw.val, n * 8), r);
      }
      Val v = mk(r); reduce(s, v); return v;
   }
   E r = nullptr;
   for (unsigned j = 0; j < n; j++) { Val b = byteFromLog(s, o, mkBin(ADD, off, mkConst(j, 32)), L, n == 1 ? base : mk(mkExtract(toE(base, n * 8), 8 * j, 8))); E be = toE(b, 8); r = r ? mkConcat(be, r) : be; }
   Val v = mk(r); reduce(s, v); return v;
}
static Val loadConc(State &s, u64 id, u32 off, unsigned n) {
   Obj *o = s.mem.get(id);
   if (o->plain()) { u64 v = 0; memcpy(&v, o->data + off, n); return C(v); }
   Val b = rawLoad(s, id, off, n);
   if (s.mem.get(id)->log) return applyLog(s, id, mkConst(off, 32), n, b);
   return b;
}
static void storeConc(State &s, u64 id, u32 off, unsigned n, Val v) {
   Obj *o = s.mem.wget(id);
   if (o->log) {
      E oe = mkConst(off, 32);
      if (!o->log->empty() && o->log->back().off == oe && o->log->back().n == n) o->log->back().val = v;
      else o->log->push_back({ oe, n, v });
      return;
   }
   if (o->anyUninit) memset(o->uninit + off, 0, n);
   if (!v.e) {
      memcpy(o->data + off, &v.v, n);
      if (o->nsym) for (unsigned i = 0; i < n; i++) o->clrSym(off + i);
   } else {
      for (unsigned i = 0; i < n; i++) {
         E b = mkExtract(v.e, 8 * i, 8);
         if (isC(b)) { o->data[off + i] = (u8) b->k; o->clrSym(off + i); } else o->setSym(off + i, b);
      }
   }
}
struct Loc { u64 id; u32 off; E soff; };
static Loc resolve(State &s, Val &addr, u64 n, bool write, const char *what) {
   reduce(s, addr);
   if (!addr.e) {
      u64 id = addr.v >> 32; i64 off = (i64) (addr.v & 0xffffffffull) - (i64) OFF0;
      Obj *o = s.mem.get(id);
      if (!o || o->freed || off < 0 || (u64) off + n > o->size) fail("memory", std::string("invalid ") + what + " of " + std::to_string(n) + " byte(s) at " + addrStr(s, addr.v));
      if (write && o->ro) fail("memory", std::string("write to constant object at ") + addrStr(s, addr.v));
      return { id, (u32) off, nullptr };
   }
   u64 av = evalIn(s, addr.e);
   u64 id = av >> 32; i64 off = (i64) (av & 0xffffffffull) - (i64) OFF0; Obj *o = s.mem.get(id);
   if (!o || o->freed || off < 0 || (u64) off + n > o->size || (write && o->ro)) {
      // a feasible invalid access: report it, then continue with valid ones only if any
      E bad = mkEq(addr.e, mkConst(av, 64));
      violation(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " byte(s) at " + addrStr(s, av) + " (address depends on the input)", *s.model);
      (void) bad;
      throw PathEnd { 1 };
   }
   E idx = mkBin(SUB, addr.e, mkConst(baseOf(id), 64));
   E inb = mkBin(ULE, idx, mkConst(o->size - n, 64));
   decide(s, inb); // current model satisfies it; the other side is forked
   E o32 = mkExtract(idx, 0, 32);
   Val ov = mk(o32); reduce(s, ov);
   if (!ov.e) return { id, (u32) ov.v, nullptr };
   return { id, 0, ov.e };
}
static const unsigned MAXCAND = 4096, MAXITE = 600;
static Val loadSymOff(State &s, u64 id, E off, unsigned n, bool &needConc) {
   Obj *o = s.mem.get(id);
   u64 low; unsigned kb = knownLow(off, low); if (kb > 12) kb = 12;
   u64 stride = 1ull << kb, first = low & (stride - 1);
   u64 lim = std::min<u64>(o->size - n, off->umax);
   u64 cnt = lim >= first ? (lim - first) / stride + 1 : 0;
   needConc = false;
   if (cnt > 65536) { needConc = true; return C(0); }
   // collect candidate values; group equal ones
   std::vector<Val> vals; vals.reserve(cnt);
   std::unordered_map<u64, u32> freq; u64 best = 0; u32 bestN = 0;
   for (u64 p = first; p <= lim; p += stride) { Val v = rawLoad(s, id, (u32) p, n); vals.push_back(v); if (!v.e) { u32 f = ++freq[v.v]; if (f > bestN) { bestN = f; best = v.v; } } }
   if (cnt - bestN > MAXITE) { needConc = true; return C(0); }
   E r = mkConst(best, n * 8); bool first1 = bestN == 0;
   // group by value to build OR conditions
   std::map<std::pair<u64, E>, std::vector<u64>> grp; u64 i = 0;
   for (u64 p = first; p <= lim; p += stride, i++) { if (!vals[i].e && bestN && vals[i].v == best) continue; grp[{ vals[i].v, vals[i].e }].push_back(p); }
   for (auto &g : grp) {
      E val = g.first.second ? g.first.second : mkConst(g.first.first, n * 8);
      if (first1) { r = val; first1 = false; continue; }
      E c = mkConst(0, 1);
      for (size_t j = 0; j < g.second.size();) { // merge runs
         size_t k = j; while (k + 1 < g.second.size() && g.second[k + 1] == g.second[k] + stride) k++;
         if (k - j >= 2) c = mkOr(c, mkAnd(mkBin(ULE, mkConst(g.second[j], 32), off), mkBin(ULE, off, mkConst(g.second[k], 32))));
         else for (size_t q = j; q <= k; q++) c = mkOr(c, mkEq(off, mkConst(g.second[q], 32)));
         j = k + 1;
      }
      r = mkIte(c, val, r);
   }
   Val v = mk(r); reduce(s, v);
   if (s.mem.get(id)->log) return applyLog(s, id, off, n, v);
   return v;
}
static Val loadMem(State &s, Val addr, unsigned n, const char *what = "read") {
   if (!addr.e) { // fast path
      u64 id = addr.v >> 32; u64 off = (addr.v & 0xffffffffull) - OFF0; Obj *o = s.mem.get(id);
      if (o && !o->freed && off + n <= o->size && off < 0x100000000ull) return loadConc(s, id, (u32) off, n);
   }
   Loc l = resolve(s, addr, n, false, what);
   if (!l.soff) return loadConc(s, l.id, l.off, n);
   bool nc; Val r = loadSymOff(s, l.id, l.soff, n, nc);
   if (!nc) return r;
   Val ov { 0, l.soff }; u64 x = concretize(s, ov, 32);
   return loadConc(s, l.id, (u32) x, n);
}
static void storeMem(State &s, Val addr, unsigned n, Val v, const char *what = "write") {
   if (!addr.e) {
      u64 id = addr.v >> 32; u64 off = (addr.v & 0xffffffffull) - OFF0; Obj *o = s.mem.get(id);
      if (o && !o->freed && !o->ro && off + n <= o->size && off < 0x100000000ull) { storeConc(s, id, (u32) off, n, v); return; }
   }
   Loc l = resolve(s, addr, n, true, what);
   if (!l.soff) { storeConc(s, l.id, l.off, n, v); return; }
   Obj *o = s.mem.wget(l.id);
   if (!o->log) o->log = new std::vector<SymWrite>;
   if (!o->log->empty() && o->log->back().off == l.soff && o->log->back().n == n) o->log->back().val = v;
   else o->log->push_back({ l.soff, n, v });
   if (o->log->size() > 300) engErr("symbolic write log too long");
}
static void copyMem(State &s, Val dst, Val src, u64 n) {
   if (!n) return;
   Loc d = resolve(s, dst, n, true, "write"), r = resolve(s, src, n, false, "read");
   if (d.soff) { Val v { 0, d.soff }; d.off = (u32) concretize(s, v, 32); }
   if (r.soff) { Val v { 0, r.soff }; r.off = (u32) concretize(s, v, 32); }
   Obj *so = s.mem.get(r.id), *dw = s.mem.get(d.id);
   if (!so->log && !dw->log) {
      if (so->plain() && dw->plain()) { Obj *w = s.mem.wget(d.id); so = s.mem.get(r.id); memmove(w->data + d.off, so->data + r.off, n); return; }
      // general: snapshot then write
      std::vector<u8> db(so->data + r.off, so->data + r.off + n); std::vector<u8> un; std::vector<E> sy;
      if (so->anyUninit) un.assign(so->uninit + r.off, so->uninit + r.off + n);
      if (so->nsym) { sy.resize(n); for (u64 i = 0; i < n; i++) sy[i] = so->symAt(r.off + i); }
      Obj *w = s.mem.wget(d.id);
      memcpy(w->data + d.off, db.data(), n);
      if (!un.empty()) { if (!w->anyUninit) { bool any = false; for (u8 x : un) if (x) any = true; if (any) { w->anyUninit = true; w->uninit = (u8 *) calloc(1, w->size); } } if (w->anyUninit) memcpy(w->uninit + d.off, un.data(), n); }
      else if (w->anyUninit) memset(w->uninit + d.off, 0, n);
      if (w->nsym || !sy.empty()) for (u64 i = 0; i < n; i++) { if (!sy.empty() && sy[i]) w->setSym(d.off + i, sy[i]); else w->clrSym(d.off + i); }
      return;
   }
   std::vector<Val> t; for (u64 i = 0; i < n; i++) t.push_back(loadConc(s, r.id, r.off + i, 1));
   for (u64 i = 0; i < n; i++) storeConc(s, d.id, d.off + i, 1, t[i]);
}
static void setMem(State &s, Val dst, Val byte, u64 n) {
   if (!n) return;
   Loc d = resolve(s, dst, n, true, "write");
   if (d.soff) { Val v { 0, d.soff }; d.off = (u32) concretize(s, v, 32); }
   Obj *w = s.mem.wget(d.id);
   if (!byte.e && !w->log) { memset(w->data + d.off, (int) byte.v, n); if (w->anyUninit) memset(w->uninit + d.off, 0, n); if (w->nsym) for (u64 i = 0; i < n; i++) w->clrSym(d.off + i); return; }
   for (u64 i = 0; i < n; i++) storeConc(s, d.id, d.off + i, 1, byte);
}
static std::string cstr(State &s, Val p, size_t maxn = 4096) { // concrete C string
   std::string r; 
   for (size_t i = 0; i < maxn; i++) { Val a = C(concretize(s, p, 64) + i); Val b = loadMem(s, a, 1); u64 c = concretize(s, b, 8); if (!c) break; r += (char) c; }
   return r;
}
static u64 newObj(State &s, u64 size, u8 kind, bool uninit) {
   if (size > 0x40000000ull) return 0;
   return baseOf(s.mem.alloc((u32) size, kind, uninit));
}

// ------------------------------------------------------------------ FP helpers
static E fNaN(E x) { unsigned w = x->w; u64 inf = w == 64 ? 0x7FF0000000000000ull : 0x7F800000ull; return mkBin(ULT, mkConst(inf, w - 1), mkExtract(x, 0, w - 1)); }
static E fZero(E x) { return mkEq(mkExtract(x, 0, x->w - 1), mkConst(0, x->w - 1)); }
static E fOeq(E a, E b) { return mkAnd(mkAnd(mkNot(fNaN(a)), mkNot(fNaN(b))), mkOr(mkEq(a, b), mkAnd(fZero(a), fZero(b)))); }
static E fLt(E a, E b) { // ordered <
   unsigned w = a->w; E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
   E nn = mkAnd(mkNot(fNaN(a)), mkNot(fNaN(b)));
   E lt = mkIte(sa, mkIte(sb, mkBin(ULT, b, a), mkNot(mkAnd(fZero(a), fZero(b)))), mkIte(sb, mkConst(0, 1), mkBin(ULT, a, b)));
   return mkAnd(nn, lt);
}
static E fLe(E a, E b) { return mkOr(fLt(a, b), fOeq(a, b)); }
static E fcmpE(unsigned p, E a, E b) {
   E un = mkOr(fNaN(a), fNaN(b));
   switch (p) {
      case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
      case CmpInst::FCMP_OEQ: return fOeq(a, b); case CmpInst::FCMP_OGT: return fLt(b, a); case CmpInst::FCMP_OGE: return fLe(b, a); case CmpInst::FCMP_OLT: return fLt(a, b); case CmpInst::FCMP_OLE: return fLe(a, b);
      case CmpInst::FCMP_ONE: return mkAnd(mkNot(un), mkNot(fOeq(a, b))); case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
      case CmpInst::FCMP_UEQ: return mkOr(un, fOeq(a, b)); case CmpInst::FCMP_UGT: return mkOr(un, fLt(b, a)); case CmpInst::FCMP_UGE: return mkOr(un, fLe(b, a)); case CmpInst::FCMP_ULT: return mkOr(un, fLt(a, b)); case CmpInst::FCMP_ULE: return mkOr(un, fLe(a, b)); case CmpInst::FCMP_UNE: return mkNot(fOeq(a, b));
   }
   engine_fatal("fcmp");
}

// ------------------------------------------------------------------ interpreter
static inline Val &opr(State &s, u32 base, int i) { return i >= 0 ? s.regs[base + i] : constPool[~i]; }

static void pushFrame(State &s, Fn *f, const Ins *call) {
   if (!f->decoded) decode(f);
   f->executed = true;
   Frame fr; fr.fn = f; fr.pc = 0; fr.base = s.regs.size(); fr.call = call;
   s.regs.resize(s.regs.size() + f->nregs, C(0));
   s.fr.push_back(std::move(fr));
   if (s.fr.size() > 3000) fail("stack", "stack overflow (recursion depth > 3000)");
   if (s.fr.size() > S.maxDepth) S.maxDepth = s.fr.size();
}
static void popFrame(State &s) {
   Frame &f = s.fr.back();
   for (u32 id : f.allocas) s.mem.release(id);
   if (f.vaobj) s.mem.release(f.vaobj);
   s.regs.resize(f.base);
   s.fr.pop_back();
}
static void takeEdge(State &s, const Edge *e) {
   Frame &f = s.fr.back();
   if (!e->phis.empty()) {
      static thread_local std::vector<Val> tmp; tmp.clear();
      for (auto &p : e->phis) for (int i = 0; i < p.n; i++) tmp.push_back(p.src >= 0 ? s.regs[f.base + p.src + i] : constPool[~p.src + i]);
      size_t k = 0; for (auto &p : e->phis) for (int i = 0; i < p.n; i++) s.regs[f.base + p.dst + i] = tmp[k++];
   }
   f.pc = e->pc;
}

// ---- exceptions
static std::unordered_map<u64, int> typeIds;
static int typeId(u64 t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[t] = n; return n; }
static std::unordered_map<u64, const GlobalVariable *> gvByAddr;
static const std::map<std::string, std::string> stdBases { { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt11logic_error", "_ZTISt9exception" }, { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt8bad_cast", "_ZTISt9exception" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" }, { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt18bad_variant_access", "_ZTISt9exception" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" } };
static bool tiMatches(u64 thrown, u64 want) {
   if (!want || thrown == want) return true;
   auto a = gvByAddr.find(thrown), b = gvByAddr.find(want);
   if (a == gvByAddr.end() || b == gvByAddr.end()) return false;
   const GlobalVariable *g = a->second;
   if (g->getName() == b->second->getName()) return true;
   if (g->hasInitializer()) {
      if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) {
         for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { u64 x = constScalar(cs->getOperand(i)); if (x && tiMatches(x, want)) return true; }
      }
      return false;
   }
   auto it = stdBases.find(g->getName().str());
   while (it != stdBases.end()) { if (it->second == b->second->getName().str()) return true; it = stdBases.find(it->second); }
   return false;
}
static std::string tiName(u64 t) { auto a = gvByAddr.find(t); return a == gvByAddr.end() ? "?" : demangle(a->second->getName().str()); }
static void unwind(State &s) { // s.exc set; unwind from the current top frame (the frame that made the throwing call)
   while (!s.fr.empty()) {
      Frame &f = s.fr.back();
      const Ins &x = f.fn->code[f.pc];
      if (x.op == I_CALL || x.op == I_INTR) {
         auto *ax = (const CallAux *) x.aux;
         if (ax->unwind) { takeEdge(s, ax->unwind); return; }
      }
      if (s.fr.size() == 1) { fail("exception", "uncaught exception " + tiName(s.exc.tinfo)); }
      popFrame(s);
   }
}

typedef std::function<bool(State &, const CallAux *, std::vector<Val> &, Val *)> Handler; // returns true if handled normally (ret filled); false if control flow was changed
static std::unordered_map<std::string, Handler> handlers;
static void doReturnVal(State &s, const Ins &x, const Val *r) {
   auto *ax = (const CallAux *) x.aux; Frame &f = s.fr.back();
   for (int i = 0; i < ax->retn; i++) s.regs[f.base + x.dst + i] = r[i];
   if (ax->normal) takeEdge(s, ax->normal); else f.pc++;
}
static void execIntrinsic(State &s, const Ins &x);

static u64 g_deadlineCheck = 0;
static void run(State &s) {
   cur = &s;
   while (true) {
      Frame *f = &s.fr.back();
      const Ins &x = f->fn->code[f->pc];
      const u32 base = f->base;
      s.steps++; S.steps++;
      if ((++g_deadlineCheck & 0xfff) == 0) {
         if (nowS() - g_start > O.maxTime) { incomplete("time limit"); throw PathEnd { 2 }; }
         if (s.steps > O.maxSteps) fail("nontermination", "path exceeds " + std::to_string(O.maxSteps) + " steps");
      }
#define A opr(s, base, x.a)
#define B_ opr(s, base, x.b)
#define C_ opr(s, base, x.c)
#define DST s.regs[base + x.dst]
      switch (x.op) {
         case I_NOP: f->pc++; break;
         case I_BIN: {
            for (int i = 0; i < x.c; i++) {
               Val a = x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i], b = x.b >= 0 ? s.regs[base + x.b + i] : constPool[~x.b + i];
               if (x.sub >= UDIV && x.sub <= SREM) {
                  if (!b.e ? b.v == 0 : decide(s, mkEq(b.e, mkConst(0, x.w)))) fail("arith", "division by zero");
                  if ((x.sub == SDIV || x.sub == SREM) && !a.e && !b.e && sx(b.v, x.w) == -1 && a.v == (1ull << (x.w - 1))) fail("arith", "signed division overflow");
               }
               if (!a.e && !b.e) s.regs[base + x.dst + i] = C(foldBin((Op) x.sub, a.v, b.v, x.w));
               else s.regs[base + x.dst + i] = mk(mkBin((Op) x.sub, toE(a, x.w), toE(b, x.w)));
            }
            f->pc++; break;
         }
         case I_ICMP: {
            for (int i = 0; i < x.c; i++) {
               const Val &a = x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i], &b = x.b >= 0 ? s.regs[base + x.b + i] : constPool[~x.b + i];
               Val r;
               if (!a.e && !b.e) {
                  u64 p = a.v, q = b.v; i64 sp = sx(p, x.w), sq = sx(q, x.w); bool t = false;
                  switch (x.sub) { case CmpInst::ICMP_EQ: t = p == q; break; case CmpInst::ICMP_NE: t = p != q; break; case CmpInst::ICMP_ULT: t = p < q; break; case CmpInst::ICMP_ULE: t = p <= q; break; case CmpInst::ICMP_UGT: t = p > q; break; case CmpInst::ICMP_UGE: t = p >= q; break; case CmpInst::ICMP_SLT: t = sp < sq; break; case CmpInst::ICMP_SLE: t = sp <= sq; break; case CmpInst::ICMP_SGT: t = sp > sq; break; case CmpInst::ICMP_SGE: t = sp >= sq; break; }
                  r = C(t);
               } else {
                  E p = toE(a, x.w), q = toE(b, x.w), e = nullptr;
                  switch (x.sub) { case CmpInst::ICMP_EQ: e = mkEq(p, q); break; case CmpInst::ICMP_NE: e = mkNot(mkEq(p, q)); break; case CmpInst::ICMP_ULT: e = mkBin(ULT, p, q); break; case CmpInst::ICMP_ULE: e = mkBin(ULE, p, q); break; case CmpInst::ICMP_UGT: e = mkBin(ULT, q, p); break; case CmpInst::ICMP_UGE: e = mkBin(ULE, q, p); break; case CmpInst::ICMP_SLT: e = mkBin(SLT, p, q); break; case CmpInst::ICMP_SLE: e = mkBin(SLE, p, q); break; case CmpInst::ICMP_SGT: e = mkBin(SLT, q, p); break; case CmpInst::ICMP_SGE: e = mkBin(SLE, q, p); break; }
                  r = mk(e);
               }
               s.regs[base + x.dst + i] = r;
            }
            f->pc++; break;
         }
         case I_FCMP: {
            if (x.c != 1) engErr("vector fcmp");
            DST = mk(fcmpE(x.sub, toE(A, x.w), toE(B_, x.w))); f->pc++; break;
         }
         case I_LOAD: {
            Val a = A; Val v = loadMem(s, a, x.w2);
            if (x.w != x.w2 * 8) v = v.e ? mk(mkExtract(v.e, 0, x.w)) : C(v.v & mask(x.w));
            s.regs[s.fr.back().base + x.dst] = v; s.fr.back().pc++; break;
         }
         case I_STORE: {
            Val v = A, a = B_;
            if (x.w != x.w2 * 8) v = v.e ? mk(mkZext(v.e, x.w2 * 8)) : v;
            storeMem(s, a, x.w2, v); s.fr.back().pc++; break;
         }
         case I_LOADAGG: { auto *ax = (const AggAux *) x.aux; Val a = A; u64 av = concretize(s, a, 64); for (size_t i = 0; i < ax->el.size(); i++) s.regs[base + x.dst + i] = loadMem(s, C(av + ax->el[i].first), ax->el[i].second / 8); f->pc++; break; }
         case I_STOREAGG: { auto *ax = (const AggAux *) x.aux; Val a = B_; u64 av = concretize(s, a, 64); for (size_t i = 0; i < ax->el.size(); i++) storeMem(s, C(av + ax->el[i].first), ax->el[i].second / 8, x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i]); f->pc++; break; }
         case I_GEP: {
            auto *g = (const GepAux *) x.aux; Val p = A; 
            if (!p.e) {
               u64 v = p.v + g->off; E sum = nullptr;
               for (auto &t : g->idx) {
                  const Val &ix = opr(s, base, std::get<0>(t)); i64 sc = std::get<1>(t); unsigned iw = std::get<2>(t);
                  if (!ix.e) v += (u64) (sx(ix.v, iw) * sc);
                  else { E e = mkBin(MUL, mkSext(ix.e, 64), mkConst((u64) sc, 64)); sum = sum ? mkBin(ADD, sum, e) : e; }
               }
               DST = sum ? mk(mkBin(ADD, sum, mkConst(v, 64))) : C(v);
            } else {
               E r = mkBin(ADD, p.e, mkConst((u64) g->off, 64));
               for (auto &t : g->idx) { const Val &ix = opr(s, base, std::get<0>(t)); r = mkBin(ADD, r, mkBin(MUL, mkSext(toE(ix, std::get<2>(t)), 64), mkConst((u64) std::get<1>(t), 64))); }
               DST = mk(r);
            }
            f->pc++; break;
         }
         case I_BR: takeEdge(s, (const Edge *) x.aux); break;
         case I_CBR: { Val c = A; bool t = c.e ? decide(s, c.e) : (c.v & 1); takeEdge(s, ((Edge *const *) x.aux)[t ? 0 : 1]); break; }
         case I_SWITCH: {
            auto *ax = (const SwAux *) x.aux; Val v = A; reduce(s, v);
            u32 ed = ax->def;
            if (!v.e) { for (size_t i = 0; i < ax->vals.size(); i++) if (ax->vals[i] == v.v) { ed = ax->caseEdge[i]; break; } }
            else {
               u64 mv = evalIn(s, v.e); for (size_t i = 0; i < ax->vals.size(); i++) if (ax->vals[i] == mv) { ed = ax->caseEdge[i]; break; }
               // condition of each edge
               auto condOf = [&](u32 e) { E c = mkConst(0, 1); E isCase = mkConst(0, 1); for (size_t i = 0; i < ax->vals.size(); i++) { E q = mkEq(v.e, mkConst(ax->vals[i], x.w)); isCase = mkOr(isCase, q); if (ax->caseEdge[i] == e) c = mkOr(c, q); } if (e == ax->def) c = mkOr(c, mkNot(isCase)); return c; };
               E c = condOf(ed);
               // fork remaining edges as one state re-executing the switch with the negated condition
               bool side = decide(s, c); if (!side) engErr("switch model inconsistency");
            }
            takeEdge(s, ax->edges[ed]); break;
         }
         case I_RET: {
            std::vector<Val> r; for (int i = 0; i < x.c; i++) r.push_back(x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i]);
            const Ins *call = f->call;
            popFrame(s);
            if (s.fr.empty()) throw PathEnd { 0 };
            if (!call) throw PathEnd { 0 };
            doReturnVal(s, *call, r.data()); break;
         }
         case I_SELECT: {
            Val c = A; reduce(s, c);
            auto *ax = (const AggAux *) x.aux;
            if (c.e && x.isPtr) { Val p = B_, q = C_; if (p.v != q.v || p.e != q.e) c = C(decide(s, c.e)); else c = C(1); }
            for (int i = 0; i < x.w2; i++) {
               Val p = x.b >= 0 ? s.regs[base + x.b + i] : constPool[~x.b + i], q = x.c >= 0 ? s.regs[base + x.c + i] : constPool[~x.c + i];
               s.regs[base + x.dst + i] = !c.e ? (c.v & 1 ? p : q) : mk(mkIte(c.e, toE(p, ax->el[i].second), toE(q, ax->el[i].second)));
            }
            f->pc++; break;
         }
         case I_ZEXT: { Val a = A; DST = a.e ? mk(zextVal(s, a.e, x.w)) : C(a.v); f->pc++; break; }
         case I_SEXT: { Val a = A; DST = a.e ? mk(mkSext(a.e, x.w)) : C((u64) sx(a.v, x.w2) & mask(x.w)); f->pc++; break; }
         case I_TRUNC: { Val a = A; DST = a.e ? mk(mkExtract(a.e, 0, x.w)) : C(a.v & mask(x.w)); f->pc++; break; }
         case I_MOV: for (int i = 0; i < x.c; i++) s.regs[base + x.dst + i] = x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i]; f->pc++; break;
         case I_INSV: {
            std::vector<Val> t; for (int i = 0; i < x.w; i++) t.push_back(x.a >= 0 ? s.regs[base + x.a + i] : constPool[~x.a + i]);
            for (int i = 0; i < x.w2; i++) t[x.c + i] = x.b >= 0 ? s.regs[base + x.b + i] : constPool[~x.b + i];
            for (int i = 0; i < x.w; i++) s.regs[base + x.dst + i] = t[i];
            f->pc++; break;
         }
         case I_EXTRELT: { Val i = B_; u64 k = concretize(s, i, 64) & 0xffffffff; if ((int) k >= x.c) k = 0; DST = x.a >= 0 ? s.regs[base + x.a + k] : constPool[~x.a + k]; f->pc++; break; }
         case I_INSELT: { Val i = C_; u64 k = concretize(s, i, 64) & 0xffffffff; std::vector<Val> t; for (int j = 0; j < x.w2; j++) t.push_back(x.a >= 0 ? s.regs[base + x.a + j] : constPool[~x.a + j]); if (k < t.size()) t[k] = B_; for (int j = 0; j < x.w2; j++) s.regs[base + x.dst + j] = t[j]; f->pc++; break; }
         case I_SHUF: { auto *ax = (const ShufAux *) x.aux; std::vector<Val> t; for (int m : ax->m) { if (m < 0) t.push_back(C(0)); else if ((unsigned) m < ax->n) t.push_back(x.a >= 0 ? s.regs[base + x.a + m] : constPool[~x.a + m]); else { int k = m - ax->n; t.push_back(x.b >= 0 ? s.regs[base + x.b + k] : constPool[~x.b + k]); } } for (size_t j = 0; j < t.size(); j++) s.regs[base + x.dst + j] = t[j]; f->pc++; break; }
         case I_ALLOCA: { Val n = A; u64 k = concretize(s, n, 64); u32 id = s.mem.alloc((u32) (k * (u32) x.c), 2, true); f->allocas.push_back(id); DST = C(baseOf(id)); f->pc++; break; }
         case I_FNEG: { Val a = A; u64 sg = 1ull << (x.w - 1); DST = a.e ? mk(mkBin(XOR, a.e, mkConst(sg, x.w))) : C(a.v ^ sg); f->pc++; break; }
         case I_FUN: { Val a = A; DST = a.e ? mk(mkUn((Op) x.sub, a.e, x.w)) : C(foldUn((Op) x.sub, a.v, x.w2, x.w, 0)); f->pc++; break; }
         case I_UNREACH: fail("unreachable", "reached code the compiler considers unreachable (undefined behaviour or missing return)");
         case I_UNSUP: { std::string t; raw_string_ostream os(t); x.I->print(os); engErr("unsupported instruction: " + t); }
         case I_RMW: {
            Val p = A, v = B_; Val old = loadMem(s, p, x.w2); Val nv = v; E o = toE(old, x.w), ve = toE(v, x.w);
            switch (x.sub) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: nv = mk(mkBin(ADD, o, ve)); break; case AtomicRMWInst::Sub: nv = mk(mkBin(SUB, o, ve)); break; case AtomicRMWInst::And: nv = mk(mkAnd(o, ve)); break; case AtomicRMWInst::Or: nv = mk(mkOr(o, ve)); break; default: engErr("atomicrmw"); }
            storeMem(s, p, x.w2, nv); s.regs[base + x.dst] = old; f->pc++; break;
         }
         case I_CMPXCHG: {
            Val p = A, c = B_, n = C_; Val old = loadMem(s, p, x.w2); bool eq = decide(s, mkEq(toE(old, x.w), toE(c, x.w)));
            if (eq) storeMem(s, p, x.w2, n); s.regs[base + x.dst] = old; s.regs[base + x.dst + 1] = C(eq); f->pc++; break;
         }
         case I_LPAD: {
            auto *ax = (const LpAux *) x.aux; int sel = 0; bool m = false;
            for (size_t i = 0; i < ax->catches.size() && !m; i++) { if (ax->isFilter[i]) { sel = -1; m = true; } else if (tiMatches(s.exc.tinfo, ax->catches[i])) { sel = typeId(ax->catches[i]); m = true; } }
            if (!m && !ax->cleanup) { popFrame(s); if (s.fr.empty()) fail("exception", "uncaught exception " + tiName(s.exc.tinfo)); unwind(s); break; }
            s.regs[base + x.dst] = C(s.exc.obj); s.regs[base + x.dst + 1] = C((u32) sel); f->pc++; break;
         }
         case I_RESUME: {
            Val p = A; s.exc.obj = p.v; for (auto &e : s.excInfo) if (e.first == p.v) s.exc.tinfo = e.second;
            if (s.fr.size() == 1) fail("exception", "uncaught exception " + tiName(s.exc.tinfo));
            popFrame(s); unwind(s); break;
         }
         case I_INTR: execIntrinsic(s, x); break;
         case I_CALL: {
            auto *ax = (const CallAux *) x.aux; Fn *callee = ax->fn;
            if (!callee) {
               Val p = opr(s, base, ax->calleeSlot); u64 a = concretize(s, p, 64); callee = fnAt(a);
               if (!callee) fail("memory", a < 0x10000 ? "call through null function pointer" : "call through invalid function pointer " + addrStr(s, a));
            }
            if (callee->F->isDeclaration()) {
               const Handler *h = (const Handler *) ax->handler;
               if (!h) {
                  auto it = handlers.find(callee->name);
                  if (it == handlers.end()) engErr("call to unmodelled external function " + demangle(callee->name) + " [" + callee->name + "]");
                  h = &it->second;
                  if (ax->fn) const_cast<CallAux *>(ax)->handler = h;
               }
               std::vector<Val> av; for (auto &a : ax->args) for (int i = 0; i < a.n; i++) av.push_back(a.slot >= 0 ? s.regs[base + a.slot + i] : constPool[~a.slot + i]);
               callee->executed = true;
               Val r[8]; for (auto &q : r) q = C(0);
               if ((*h)(s, ax, av, r)) doReturnVal(s, x, r);
               break;
            }
            if (!callee->decoded) decode(callee);
            // copy args
            std::vector<Val> av; av.reserve(8);
            std::vector<u32> extra;
            for (auto &a : ax->args) {
               if (a.byval) { u32 id = s.mem.alloc(a.byval, 2, true); Val src = opr(s, base, a.slot); copyMem(s, C(baseOf(id)), src, a.byval); av.push_back(C(baseOf(id))); extra.push_back(id); }
               else for (int i = 0; i < a.n; i++) av.push_back(a.slot >= 0 ? s.regs[base + a.slot + i] : constPool[~a.slot + i]);
            }
            pushFrame(s, callee, &x);
            Frame &nf = s.fr.back();
            nf.allocas = extra;
            size_t np = 0; for (auto &p : callee->args) np += p.second;
            for (size_t i = 0; i < np && i < av.size(); i++) s.regs[nf.base + i] = av[i];
            if (callee->F->isVarArg()) {
               size_t nv = av.size() > np ? av.size() - np : 0;
               u32 id = s.mem.alloc((u32) (nv * 8 + 8), 2, false); nf.vaobj = id;
               for (size_t i = 0; i < nv; i++) storeConc(s, id, (u32) (8 * i), 8, av[np + i].e && av[np + i].e->w < 64 ? mk(mkZext(av[np + i].e, 64)) : av[np + i]);
            }
            break;
         }
         default: engErr("bad opcode");
      }
   }
}

static void execIntrinsic(State &s, const Ins &x) {
   auto *ax = (const CallAux *) x.aux; Frame &f = s.fr.back(); const u32 base = f.base;
   auto arg = [&](unsigned i) -> Val { return opr(s, base, ax->args[i].slot); };
   unsigned w = ax->retw;
   Val r[4]; for (auto &q : r) q = C(0);
   if (ax->retn > 4 || (ax->retn > 1 && x.I->getType()->isVectorTy())) engErr("vector intrinsic " + ax->fn->name);
   auto bin = [&](Op op) { Val a = arg(0), b = arg(1); r[0] = (!a.e && !b.e) ? C(foldBin(op, a.v, b.v, w)) : mk(mkBin(op, toE(a, w), toE(b, w))); };
   switch (ax->intr) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { Val n = arg(2); u64 k = concretize(s, n, 64); copyMem(s, arg(0), arg(1), k); break; }
      case Intrinsic::memset: case Intrinsic::memset_inline: { Val n = arg(2); u64 k = concretize(s, n, 64); setMem(s, arg(0), arg(1), k); break; }
      case Intrinsic::umax: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(mkBin(ULT, a, b), b, a)); break; }
      case Intrinsic::umin: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(mkBin(ULT, a, b), a, b)); break; }
      case Intrinsic::smax: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(mkBin(SLT, a, b), b, a)); break; }
      case Intrinsic::smin: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(mkBin(SLT, a, b), a, b)); break; }
      case Intrinsic::abs: { E a = toE(arg(0), w); r[0] = mk(mkIte(mkBin(SLT, a, mkConst(0, w)), mkBin(SUB, mkConst(0, w), a), a)); break; }
      case Intrinsic::get_rounding: r[0] = C(1); break;
      case Intrinsic::bswap: { Val a = arg(0); if (!a.e) r[0] = C(__builtin_bswap64(a.v) >> (64 - w)); else { E e = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a.e, 8 * i, 8); e = e ? mkConcat(e, b) : b; } r[0] = mk(e); } break; }
      case Intrinsic::ctpop: { Val a = arg(0); if (!a.e) r[0] = C(__builtin_popcountll(a.v)); else { E t = mkConst(0, w); for (unsigned i = 0; i < w; i++) t = mkBin(ADD, t, mkZext(mkExtract(a.e, i, 1), w)); r[0] = mk(t); } break; }
      case Intrinsic::ctlz: { Val a = arg(0); if (!a.e) r[0] = C(a.v ? __builtin_clzll(a.v) - (64 - w) : w); else { E t = mkConst(w, w); for (unsigned i = 0; i < w; i++) t = mkIte(mkExtract(a.e, i, 1), mkConst(w - 1 - i, w), t); r[0] = mk(t); } break; }
      case Intrinsic::cttz: { Val a = arg(0); if (!a.e) r[0] = C(a.v ? __builtin_ctzll(a.v) : w); else { E t = mkConst(w, w); for (unsigned i = w; i-- > 0;) t = mkIte(mkExtract(a.e, i, 1), mkConst(i, w), t); r[0] = mk(t); } break; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
         E a = toE(arg(0), w), b = toE(arg(1), w), c = mkBin(UREM, toE(arg(2), w), mkConst(w, w)); E inv = mkBin(SUB, mkConst(w, w), c);
         E sh = ax->intr == Intrinsic::fshl ? mkIte(mkEq(c, mkConst(0, w)), a, mkOr(mkBin(SHL, a, c), mkBin(LSHR, b, inv))) : mkIte(mkEq(c, mkConst(0, w)), b, mkOr(mkBin(SHL, a, inv), mkBin(LSHR, b, c)));
         r[0] = mk(sh); break;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
         unsigned ow = scalarW(x.I->getOperand(0)->getType()); E a = toE(arg(0), ow), b = toE(arg(1), ow), v, o;
         switch (ax->intr) {
            case Intrinsic::uadd_with_overflow: v = mkBin(ADD, a, b); o = mkBin(ULT, v, a); break;
            case Intrinsic::usub_with_overflow: v = mkBin(SUB, a, b); o = mkBin(ULT, a, b); break;
            case Intrinsic::sadd_with_overflow: { v = mkBin(ADD, a, b); E sa = mkExtract(a, ow - 1, 1), sb = mkExtract(b, ow - 1, 1), sv = mkExtract(v, ow - 1, 1); o = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sv))); break; }
            case Intrinsic::ssub_with_overflow: { v = mkBin(SUB, a, b); E sa = mkExtract(a, ow - 1, 1), sb = mkExtract(b, ow - 1, 1), sv = mkExtract(v, ow - 1, 1); o = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sv))); break; }
            case Intrinsic::umul_with_overflow: { v = mkBin(MUL, a, b); if (isC(a) && isC(b)) { __uint128_t p = (__uint128_t) a->k * b->k; o = mkConst(p > mask(ow), 1); } else { if (isC(a)) std::swap(a, b); if (isC(b)) o = b->k ? mkBin(ULT, mkConst(mask(ow) / b->k, ow), a) : mkConst(0, 1); else if (ow <= 32) o = mkBin(ULT, mkConst(mask(ow), 2 * ow), mkBin(MUL, mkZext(a, 2 * ow), mkZext(b, 2 * ow))); else engErr("umul.overflow symbolic"); } break; }
            default: { v = mkBin(MUL, a, b); if (ow <= 32) { E p = mkBin(MUL, mkSext(a, 2 * ow), mkSext(b, 2 * ow)); o = mkNot(mkEq(p, mkSext(v, 2 * ow))); } else if (isC(a) && isC(b)) { __int128 p = (__int128) sx(a->k, ow) * sx(b->k, ow); o = mkConst(p != (__int128) sx(v->k, ow), 1); } else engErr("smul.overflow symbolic"); }
         }
         r[0] = mk(v); r[1] = mk(o); break;
      }
      case Intrinsic::uadd_sat: { E a = toE(arg(0), w), b = toE(arg(1), w), v = mkBin(ADD, a, b); r[0] = mk(mkIte(mkBin(ULT, v, a), mkConst(mask(w), w), v)); break; }
      case Intrinsic::usub_sat: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(mkBin(ULT, a, b), mkConst(0, w), mkBin(SUB, a, b))); break; }
      case Intrinsic::fabs: { Val a = arg(0); u64 m = mask(w - 1); r[0] = a.e ? mk(mkBin(AND, a.e, mkConst(m, w))) : C(a.v & m); break; }
      case Intrinsic::copysign: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1))); break; }
      case Intrinsic::floor: r[0] = mk(mkUn(FRINT, toE(arg(0), w), w, 0)); break;
      case Intrinsic::ceil: r[0] = mk(mkUn(FRINT, toE(arg(0), w), w, 1)); break;
      case Intrinsic::trunc: r[0] = mk(mkUn(FRINT, toE(arg(0), w), w, 2)); break;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r[0] = mk(mkUn(FRINT, toE(arg(0), w), w, 3)); break;
      case Intrinsic::round: r[0] = mk(mkUn(FRINT, toE(arg(0), w), w, 4)); break;
      case Intrinsic::sqrt: r[0] = mk(mkUn(FSQRT, toE(arg(0), w), w)); break;
      case Intrinsic::fmuladd: case Intrinsic::fma: { E p = mkBin(FMUL, toE(arg(0), w), toE(arg(1), w)); r[0] = mk(mkBin(FADD, p, toE(arg(2), w))); break; }
      case Intrinsic::minnum: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(fNaN(a), b, mkIte(fNaN(b), a, mkIte(fLt(b, a), b, a)))); break; }
      case Intrinsic::maxnum: { E a = toE(arg(0), w), b = toE(arg(1), w); r[0] = mk(mkIte(fNaN(a), b, mkIte(fNaN(b), a, mkIte(fLt(a, b), b, a)))); break; }
      case Intrinsic::is_fpclass: {
         unsigned ow = scalarW(x.I->getOperand(0)->getType()); E a = toE(arg(0), ow); u64 mk_ = arg(1).v; E e = mkConst(0, 1);
         unsigned mb = ow == 64 ? 52 : 23; E sg = mkExtract(a, ow - 1, 1), ex = mkExtract(a, mb, ow - 1 - mb), mn = mkExtract(a, 0, mb);
         E exF = mkEq(ex, mkConst(mask(ow - 1 - mb), ow - 1 - mb)), ex0 = mkEq(ex, mkConst(0, ow - 1 - mb)), mn0 = mkEq(mn, mkConst(0, mb)); E q = mkExtract(a, mb - 1, 1);
         E ps = mkNot(sg);
         if (mk_ & 1) e = mkOr(e, mkAnd(mkAnd(exF, mkNot(mn0)), mkNot(q)));
         if (mk_ & 2) e = mkOr(e, mkAnd(mkAnd(exF, mkNot(mn0)), q));
         if (mk_ & 4) e = mkOr(e, mkAnd(mkAnd(exF, mn0), sg));
         if (mk_ & 8) e = mkOr(e, mkAnd(mkAnd(mkNot(exF), mkNot(ex0)), sg));
         if (mk_ & 16) e = mkOr(e, mkAnd(mkAnd(ex0, mkNot(mn0)), sg));
         if (mk_ & 32) e = mkOr(e, mkAnd(mkAnd(ex0, mn0), sg));
         if (mk_ & 64) e = mkOr(e, mkAnd(mkAnd(ex0, mn0), ps));
         if (mk_ & 128) e = mkOr(e, mkAnd(mkAnd(ex0, mkNot(mn0)), ps));
         if (mk_ & 256) e = mkOr(e, mkAnd(mkAnd(mkNot(exF), mkNot(ex0)), ps));
         if (mk_ & 512) e = mkOr(e, mkAnd(mkAnd(exF, mn0), ps));
         r[0] = mk(e); break;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: r[0] = arg(0); break;
      case Intrinsic::objectsize: r[0] = C(mask(w)); break;
      case Intrinsic::is_constant: r[0] = C(0); break;
      case Intrinsic::eh_typeid_for: r[0] = C((u32) typeId(arg(0).v)); break;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail("trap", "trap executed");
      case Intrinsic::stacksave: break;
      case Intrinsic::stackrestore: break;
      case Intrinsic::vastart: {
         Val p = arg(0); u64 a = concretize(s, p, 64); u32 id = f.vaobj;
         storeMem(s, C(a), 4, C(48)); storeMem(s, C(a + 4), 4, C(304)); storeMem(s, C(a + 8), 8, C(baseOf(id))); storeMem(s, C(a + 16), 8, C(0)); break;
      }
      case Intrinsic::vaend: break;
      case Intrinsic::vacopy: copyMem(s, arg(0), arg(1), 24); break;
      case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::sin: case Intrinsic::cos: {
         Val a = arg(0); double d; u64 v = concretize(s, a, 64); memcpy(&d, &v, 8); double q = 0;
         if (ax->intr == Intrinsic::pow) { Val b = arg(1); u64 bv = concretize(s, b, 64); double bd; memcpy(&bd, &bv, 8); q = pow(d, bd); }
         else q = ax->intr == Intrinsic::exp ? exp(d) : ax->intr == Intrinsic::log ? log(d) : ax->intr == Intrinsic::log10 ? log10(d) : ax->intr == Intrinsic::exp2 ? exp2(d) : ax->intr == Intrinsic::log2 ? log2(d) : ax->intr == Intrinsic::sin ? sin(d) : cos(d);
         memcpy(&v, &q, 8); r[0] = C(v); break;
      }
      case Intrinsic::invariant_start: r[0] = C(0); break;
      case Intrinsic::ptrmask: bin(AND); break;
      default: engErr("unsupported intrinsic " + ax->fn->name);
   }
   doReturnVal(s, x, r);
}

// ------------------------------------------------------------------ external handlers
static void heapFree(State &s, Val p, const char *what) {
   u64 a = concretize(s, p, 64); if (!a) return;
   u64 id = a >> 32; Obj *o = s.mem.get(id);
   if (!o || o->kind != 1 || (a & 0xffffffffull) != OFF0) fail("memory", std::string("invalid ") + what + " of " + addrStr(s, a));
   if (o->freed) fail("memory", std::string("double ") + what + " of " + addrStr(s, a));
   // keep a tombstone
   Obj *t = new Obj(0, 1, false); t->size = o->size; t->freed = true;
   Page *pg = s.mem.wpage(id >> 6); Obj *&slot = pg->o[id & 63]; if (--slot->refs == 0) delete slot; slot = t;
   t->sym = nullptr; t->log = nullptr;
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
#define H(name) handlers[name] = [](State &s, const CallAux *ax, std::vector<Val> &a, Val *r) -> bool
static void initHandlers() {
   auto mall = [](State &s, const CallAux *, std::vector<Val> &a, Val *r) { u64 n = concretize(s, a[0], 64); u64 p = newObj(s, n, 1, true); if (!p) fail("memory", "huge allocation " + std::to_string(n)); r[0] = C(p); return true; };
   for (auto n : { "malloc", "_Znwm", "_Znam" }) handlers[n] = mall;
   handlers["_ZnwmSt11align_val_t"] = mall; handlers["_ZnamRKSt9nothrow_t"] = mall; handlers["_ZnwmRKSt9nothrow_t"] = mall;
   H("calloc") { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); r[0] = C(newObj(s, n, 1, false)); return true; };
   H("realloc") {
      u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); u64 q = newObj(s, n, 1, true);
      if (p) { Obj *o = s.mem.get(p >> 32); if (!o || o->freed || o->kind != 1) fail("memory", "realloc of invalid pointer"); copyMem(s, C(q), C(p), std::min<u64>(n, o->size)); heapFree(s, C(p), "free"); }
      r[0] = C(q); return true; };
   for (auto n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t" }) handlers[n] = [](State &s, const CallAux *, std::vector<Val> &a, Val *) { heapFree(s, a[0], "free"); return true; };
   auto cpy = [](State &s, const CallAux *, std::vector<Val> &a, Val *r) { u64 n = concretize(s, a[2], 64); copyMem(s, a[0], a[1], n); r[0] = a[0]; return true; };
   handlers["memcpy"] = cpy; handlers["memmove"] = cpy;
   H("memset") { u64 n = concretize(s, a[2], 64); Val b = a[1].e ? mk(mkExtract(a[1].e, 0, 8)) : C(a[1].v & 255); setMem(s, a[0], b, n); r[0] = a[0]; return true; };
   // --- symx API
   H("symx_sym") { unsigned w = (unsigned) concretize(s, a[0], 32); std::string nm = cstr(s, a[1]); E e = freshSym(s, nm, w, false); r[0] = mk(mkZext(e, 64)); return true; };
   H("symx_bytes") { u64 n = concretize(s, a[1], 64); std::string nm = cstr(s, a[2]); for (u64 i = 0; i < n; i++) { E e = freshSym(s, nm + "[" + std::to_string(i) + "]", 8, false); storeMem(s, C(concretize(s, a[0], 64) + i), 1, Val { 0, e }); } return true; };
   H("symx_assume") {
      Val c = a[0]; if (c.e && c.e->w > 1) c = mk(mkNot(mkEq(c.e, mkConst(0, c.e->w))));
      reduce(s, c);
      if (!c.e) { if (!c.v) throw PathEnd { 2 }; return true; }
      if (!evalIn(s, c.e)) { Model m; if (check(s, c.e, m) != SAT) throw PathEnd { 2 }; s.model = std::make_shared<Model>(m); }
      addCons(s, c.e); return true; };
   H("symx_assert") {
      Val c = a[0]; if (c.e && c.e->w > 1) c = mk(mkNot(mkEq(c.e, mkConst(0, c.e->w))));
      std::string msg = cstr(s, a[1]); S.asserts++; g_asserts[msg]++;
      reduce(s, c);
      if (!c.e) { if (!c.v) fail("assert", msg); S.trivialAsserts++; return true; }
      if (!evalIn(s, c.e)) { fail("assert", msg); }
      S.assertQueries++;
      Model m; Res q = check(s, mkNot(c.e), m);
      if (q == SAT) { violation(s, "assert", msg, m); }
      if (q == UNSAT) { s.known[c.e] = 1; noteEq(s, c.e); }
      else addCons(s, c.e);
      return true; };
   H("symx_fail") { fail("assert", cstr(s, a[0])); };
   H("symx_cover") { std::string n = cstr(s, a[0]); if (!g_covers[n]++) g_coverInputs[n] = inputsOf(s, *s.model); return true; };
   H("symx_choice") { // value in [0,n): forked eagerly
      u64 n = concretize(s, a[0], 32); std::string nm = cstr(s, a[1]);
      // create the symbol once: the clone re-executes this call, so bind name to counter deterministically
      u32 saved = s.symCounter; size_t sl = s.symSeq.size();
      E e = freshSym(s, nm, 32, false);
      E c = mkBin(ULT, e, mkConst(n, 32));
      if (!s.known.count(c)) { if (!evalIn(s, c)) { Model m; if (check(s, c, m) != SAT) throw PathEnd { 2 }; s.model = std::make_shared<Model>(m); } addCons(s, c); }
      // concretise with rollback for the clone
      Val v { 0, e }; reduce(s, v);
      if (v.e) {
         u64 x = evalIn(s, e); E eq = mkEq(e, mkConst(x, 32)); Model m; Res q = check(s, mkNot(eq), m);
         if (q == SAT) { State *nst = cloneState(s); nst->symCounter = saved; nst->symSeq.resize(sl); nst->model = std::make_shared<Model>(m); addCons(*nst, mkNot(eq)); worklist.push_back(nst); }
         addCons(s, eq); v = C(x);
      }
      r[0] = v; return true; };
   H("symx_conc") { Val v = a[0]; r[0] = C(concretize(s, v, 64)); return true; };
   H("symx_funcaddr") { std::string n = cstr(s, a[0]); Function *F = g_mod->getFunction(n); r[0] = C(F && !F->isDeclaration() ? fnAddr(F) : 0); return true; };
   H("symx_param") { std::string n = cstr(s, a[0]); auto it = O.params.find(n); r[0] = it == O.params.end() ? a[1] : C((u64) it->second); return true; };
   H("symx_is_symbolic") { reduce(s, a[0]); r[0] = C(a[0].e != nullptr); return true; };
   H("symx_print") { if (O.verbose) fprintf(stderr, "[print] %s %s\n", cstr(s, a[0]).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string((i64) a[1].v).c_str()); return true; };
   H("symx_stop") { throw PathEnd { 0 }; };
   H("symx_obj_room") { u64 p = concretize(s, a[0], 64); Obj *o = s.mem.get(p >> 32); i64 off = (i64) (p & 0xffffffffull) - (i64) OFF0; r[0] = (!o || o->freed || off < 0 || off > (i64) o->size) ? C(0) : C(o->size - (u64) off); return true; };
   H("symx_ti_matches") { r[0] = C(tiMatches(concretize(s, a[0], 64), concretize(s, a[1], 64)) ? 1 : 0); return true; };
   H("symx_live_heap") { u64 n = 0; for (auto *p : s.mem.pages) if (p) for (auto *o : p->o) if (o && o->kind == 1 && !o->freed) n++; r[0] = C(n); return true; };
   // host formatting of one concrete double: symx_fmt_double(buf, n, fmt, prec, width, d)
   H("symx_fmt_double") {
      std::string fmt = cstr(s, a[2]); int pr = (int) concretize(s, a[3], 32), wd = (int) concretize(s, a[4], 32); u64 dv = concretize(s, a[5], 64); u64 n = concretize(s, a[1], 64); char b[512];
      int k = snprintf(b, sizeof b, fmt.c_str(), wd, pr, asD(dv)); if (k < 0) k = 0; if (k > 511) k = 511;
      u64 p = concretize(s, a[0], 64); for (int i = 0; i < k && (u64) i < n; i++) storeMem(s, C(p + i), 1, C((u8) b[i])); if ((u64) k < n) storeMem(s, C(p + k), 1, C(0));
      r[0] = C((u32) k); return true; };
   H("strtod") { std::string t; u64 p = concretize(s, a[0], 64); for (u64 i = 0; i < 4096; i++) { Val v = loadMem(s, C(p + i), 1); u64 c = concretize(s, v, 8); if (!c) break; t += (char) c; }
      char *e; double d = strtod(t.c_str(), &e); u64 ep = concretize(s, a[1], 64); if (ep) storeMem(s, C(ep), 8, C(p + (u64) (e - t.c_str()))); r[0] = C(fromD(d)); return true; };
   // --- libc/abi
   H("abort") { fail("abort", "abort() called"); };
   H("exit") { fail("abort", "exit() called"); };
   H("_exit") { fail("abort", "_exit() called"); };
   H("_ZSt9terminatev") { fail("exception", "std::terminate called"); };
   H("__cxa_pure_virtual") { fail("abort", "pure virtual call"); };
   H("__assert_fail") { fail("abort", "assertion failed: " + cstr(s, a[0])); };
   H("__cxa_atexit") { return true; };
   H("__cxa_guard_acquire") { Val b = loadMem(s, a[0], 1); r[0] = C(concretize(s, b, 8) == 0); return true; };
   H("__cxa_guard_release") { storeMem(s, a[0], 1, C(1)); return true; };
   H("__cxa_guard_abort") { return true; };
   H("__cxa_allocate_exception") { u64 n = concretize(s, a[0], 64); r[0] = C(newObj(s, n, 1, true)); return true; };
   H("__cxa_free_exception") { heapFree(s, a[0], "free"); return true; };
   H("__cxa_throw") { s.exc.obj = concretize(s, a[0], 64); s.exc.tinfo = concretize(s, a[1], 64); s.excInfo.push_back({ s.exc.obj, s.exc.tinfo }); unwind(s); return false; };
   H("__cxa_begin_catch") { ExcState e; e.obj = concretize(s, a[0], 64); for (auto &p : s.excInfo) if (p.first == e.obj) e.tinfo = p.second; s.caught.push_back(e); r[0] = a[0]; return true; };
   H("__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; };
   H("__cxa_get_exception_ptr") { r[0] = a[0]; return true; };
   H("__cxa_rethrow") { if (s.caught.empty()) fail("exception", "rethrow without exception"); s.exc = s.caught.back(); unwind(s); return false; };
   H("__gxx_personality_v0") { return true; };
   // math on concrete values
   struct M1 { const char *n; double (*f)(double); };
   static const M1 m1[] = { { "log1p", log1p }, { "log", log }, { "log10", log10 }, { "exp", exp }, { "sin", sin }, { "cos", cos }, { "tan", tan }, { "atan", atan }, { "sinh", sinh }, { "cosh", cosh }, { "tanh", tanh }, { "acos", acos }, { "asin", asin }, { "expm1", expm1 }, { "exp2", exp2 }, { "log2", log2 } };
   for (auto &m : m1) { auto fp = m.f; handlers[m.n] = [fp](State &s, const CallAux *, std::vector<Val> &a, Val *r) { r[0] = C(fromD(fp(asD(concretize(s, a[0], 64))))); return true; }; }
   H("pow") { r[0] = C(fromD(pow(asD(concretize(s, a[0], 64)), asD(concretize(s, a[1], 64))))); return true; };
   H("fmod") { r[0] = C(fromD(fmod(asD(concretize(s, a[0], 64)), asD(concretize(s, a[1], 64))))); return true; };
   H("modf") { double ip; double d = modf(asD(concretize(s, a[0], 64)), &ip); storeMem(s, a[1], 8, C(fromD(ip))); r[0] = C(fromD(d)); return true; };
   H("ldexp") { r[0] = C(fromD(ldexp(asD(concretize(s, a[0], 64)), (int) concretize(s, a[1], 32)))); return true; };
   H("frexp") { int e; double d = frexp(asD(concretize(s, a[0], 64)), &e); storeMem(s, a[1], 4, C((u32) e)); r[0] = C(fromD(d)); return true; };
   for (auto p : { std::pair<const char *, int> { "floor", 0 }, { "ceil", 1 }, { "trunc", 2 }, { "rint", 3 }, { "nearbyint", 3 }, { "round", 4 } }) { int k = p.second; handlers[p.first] = [k](State &, const CallAux *, std::vector<Val> &a, Val *r) { r[0] = mk(mkUn(FRINT, toE(a[0], 64), 64, k)); return true; }; }
   H("fabs") { r[0] = mk(mkBin(AND, toE(a[0], 64), mkConst(mask(63), 64))); return true; };
   H("sqrt") { r[0] = mk(mkUn(FSQRT, toE(a[0], 64), 64)); return true; };
}

// ------------------------------------------------------------------ output
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string inputsJson(const std::vector<std::pair<u32, u64>> &in) { std::string r = "["; bool f = true; for (auto &p : in) { if (!f) r += ","; f = false; r += "[\"" + jesc(g_syms[p.first].name) + "\"," + std::to_string(g_syms[p.first].w) + "," + std::to_string(p.second) + "]"; } return r + "]"; }
static void writeOut(const char *status) {
   FILE *fo = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
   if (!fo) engine_fatal("cannot write %s", O.out.c_str());
   fprintf(fo, "{\"status\":\"%s\",\"complete\":%s,\"incomplete_why\":\"%s\",\n", status, g_incomplete ? "false" : "true", jesc(g_incompleteWhy).c_str());
   fprintf(fo, "\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"asserts_evaluated\":%llu,\"assert_queries\":%llu,\"asserts_concrete\":%llu,\"conc_forks\":%llu,\"max_depth\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"slow_queries\":%llu,\n", (unsigned long long) S.paths, (unsigned long long) S.pathsInfeasible, (unsigned long long) S.forks, (unsigned long long) S.steps, (unsigned long long) S.queries, (unsigned long long) S.sat, (unsigned long long) S.unsat, (unsigned long long) S.unknown, (unsigned long long) S.cacheHits, (unsigned long long) S.modelHits, (unsigned long long) S.asserts, (unsigned long long) S.assertQueries, (unsigned long long) S.trivialAsserts, (unsigned long long) S.concForks, (unsigned long long) S.maxDepth, S.solverT, S.maxQ, nowS() - g_start, (unsigned long long) S.z3slow);
   fprintf(fo, "\"covers\":{"); bool f1 = true; for (auto &c : g_covers) { fprintf(fo, "%s\"%s\":%llu", f1 ? "" : ",", jesc(c.first).c_str(), (unsigned long long) c.second); f1 = false; } fprintf(fo, "},\n");
   fprintf(fo, "\"cover_inputs\":{"); f1 = true; for (auto &c : g_coverInputs) { fprintf(fo, "%s\"%s\":%s", f1 ? "" : ",", jesc(c.first).c_str(), inputsJson(c.second).c_str()); f1 = false; } fprintf(fo, "},\n");
   fprintf(fo, "\"asserts\":{"); f1 = true; for (auto &c : g_asserts) { fprintf(fo, "%s\"%s\":%llu", f1 ? "" : ",", jesc(c.first).c_str(), (unsigned long long) c.second); f1 = false; } fprintf(fo, "},\n");
   fprintf(fo, "\"samples\":["); f1 = true; for (auto &c : g_samples) { fprintf(fo, "%s%s", f1 ? "" : ",", inputsJson(c).c_str()); f1 = false; } fprintf(fo, "],\n");
   fprintf(fo, "\"functions\":["); f1 = true; for (auto *f : fnList) if (f->executed && f->isRepo) { std::string d = demangle(f->name); size_t cut = d.size() > 100 ? 100 : d.size(); fprintf(fo, "%s\"%s\"", f1 ? "" : ",", jesc(d.substr(0, cut)).c_str()); f1 = false; } fprintf(fo, "],\n");
   fprintf(fo, "\"engine_errors\":["); f1 = true; for (auto &e : g_engineErrors) { fprintf(fo, "%s\"%s\"", f1 ? "" : ",", jesc(e).c_str()); f1 = false; } fprintf(fo, "],\n");
   fprintf(fo, "\"violations\":["); f1 = true;
   for (auto &v : g_viol) {
      fprintf(fo, "%s\n {\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":%s,\"stack\":[", f1 ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), inputsJson(v.inputs).c_str()); f1 = false;
      bool f2 = true; for (auto &x : v.stack) { fprintf(fo, "%s\"%s\"", f2 ? "" : ",", jesc(x).c_str()); f2 = false; }
      fprintf(fo, "]}");
   }
   fprintf(fo, "]}\n"); if (fo != stdout) fclose(fo); else fflush(fo);
}

int main(int argc, char **argv) {
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) engine_fatal("missing option value"); return std::string(argv[++i]); };
      if (a == "-o") O.out = nx(); else if (a == "-e") O.entry = nx(); else if (a == "-v") O.verbose = true; else if (a == "-t") O.maxTime = atof(nx().c_str()); else if (a == "-L") O.slowLog = atof(nx().c_str()); else if (a == "-q") O.qTimeout = atof(nx().c_str());
      else if (a == "-n") O.maxPaths = atoll(nx().c_str()); else if (a == "-s") O.maxSteps = atoll(nx().c_str()); else if (a == "-m") O.maxViol = atoi(nx().c_str()); else if (a == "-u") O.uninitSym = atoi(nx().c_str());
      else if (a == "-p") { std::string p = nx(); size_t k = p.find('='); O.params[p.substr(0, k)] = atoll(p.substr(k + 1).c_str()); }
      else if (a == "-S") O.srcPrefix = nx(); else O.bc = a;
   }
   struct rlimit rl { 1ull << 30, 1ull << 30 }; (void) rl;
   LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(O.bc, err, ctx); if (!mod) engine_fatal("cannot read %s: %s", O.bc.c_str(), err.getMessage().str().c_str());
   M = mod.get(); DL = &M->getDataLayout();
   Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, z3err);
   zsFP = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, zsFP); zsBV = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, zsBV);
   { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 1500); Z3_solver_set_params(Z, zsFP, p); Z3_solver_set_params(Z, zsBV, p); Z3_params_dec_ref(Z, p); }
   initHandlers();
   State *s0 = new State; g_init = s0; cur = s0;
   g_mod = &*M; for (auto &F : *M) fnAddr(&F);
   for (auto &g : M->globals()) {
      u64 sz = g.hasInitializer() || !g.isDeclaration() ? (u64) DL->getTypeAllocSize(g.getValueType()) : std::max<u64>(256, g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 256);
      u32 id = s0->mem.alloc((u32) sz, 0, false); gvObj[&g] = id; gvByAddr[baseOf(id)] = &g;
      s0->mem.get(id)->name = strdup(g.getName().str().c_str());
   }
   for (auto &g : M->globals()) if (g.hasInitializer()) { Obj *o = s0->mem.get(gvObj[&g]); initMem(o, 0, g.getInitializer()); if (g.isConstant()) o->ro = true; }
   // constructors
   std::vector<std::pair<u64, Function *>> ctors;
   if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F }); }
   std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
   Function *entry = M->getFunction(O.entry); if (!entry || entry->isDeclaration()) engine_fatal("entry %s not found", O.entry.c_str());
   State *s = s0;
   for (auto &c : ctors) {
      if (c.second->isDeclaration()) continue;
      pushFrame(*s, getFn(c.second), nullptr);
      try { run(*s); } catch (PathEnd &p) { if (p.why != 0) { fprintf(stderr, "symx: constructor %s failed (%d)\n", c.second->getName().str().c_str(), p.why); for (auto &e : g_engineErrors) fprintf(stderr, "  %s\n", e.c_str()); for (auto &v : g_viol) { fprintf(stderr, "  %s %s\n", v.kind.c_str(), v.msg.c_str()); for (auto &t : v.stack) fprintf(stderr, "    %s\n", t.c_str()); } writeOut("error"); return 3; } }
      if (!worklist.empty()) engine_fatal("fork in constructor");
   }
   s->regs.clear(); s->fr.clear(); s->steps = 0;
   pushFrame(*s, getFn(entry), nullptr);
   worklist.push_back(s);
   while (!worklist.empty()) {
      if (g_viol.size() >= O.maxViol) { incomplete("stopped at violation limit"); break; }
      if (S.paths >= O.maxPaths) { incomplete("path limit"); break; }
      if (nowS() - g_start > O.maxTime) { incomplete("time limit"); break; }
      State *st = worklist.back(); worklist.pop_back();
      try { run(*st); } catch (PathEnd &p) {
         if (p.why == 2) S.pathsInfeasible++; else { S.paths++; if (p.why == 0 && g_samples.size() < 5) g_samples.push_back(inputsOf(*st, *st->model)); }
      }
      delete st;
      if (O.verbose && S.paths % 100 == 0) fprintf(stderr, "paths %llu pending %zu steps %llu queries %llu solver %.1fs t=%.1f\n", (unsigned long long) S.paths, worklist.size(), (unsigned long long) S.steps, (unsigned long long) S.queries, S.solverT, nowS() - g_start);
   }
   if (!worklist.empty() && g_viol.empty()) incomplete("pending paths");
   const char *status = !g_viol.empty() ? "violation" : !g_engineErrors.empty() ? "error" : g_incomplete ? "incomplete" : "holds";
   writeOut(status);
   fflush(nullptr);
   _exit(!g_viol.empty() ? 1 : !g_engineErrors.empty() ? 3 : g_incomplete ? 4 : 0);
}
