// symx: symbolic executor for LLVM-18 IR. Memory, state and module structures.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <functional>
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/DataLayout.h"

struct Val { u64 v; E e; };
static inline Val C(u64 v) { return Val { v, nullptr }; }

// ---- memory: address = (object id << 32) | (OFF0 + offset) ----
static const u64 OFF0 = 0x10000;
struct SymWrite { E off; unsigned n; Val val; }; // write of n bytes at symbolic offset (32-bit expr)
struct Obj {
   int refs = 1;
   u32 size = 0;
   u8 kind = 0;       // 0 global, 1 heap, 2 stack
   bool ro = false, freed = false;
   bool anyUninit = false;
   u8 *data = nullptr;
   u8 *uninit = nullptr;    // 1 byte per byte flag
   E **sym = nullptr; // chunk table (64 byte chunks)
   u32 nsym = 0;
   std::vector<SymWrite> *log = nullptr;
   const char *name = "";
   u32 nchunks() const { return (size + 63) / 64; }
   Obj(u32 sz, u8 kd, bool un) : size(sz), kind(kd) {
      data = (u8 *) calloc(1, sz ? sz : 1);
      if (un && sz) { anyUninit = true; uninit = (u8 *) malloc(sz); memset(uninit, 1, sz); }
   }
   Obj(const Obj &o) : size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), anyUninit(o.anyUninit), nsym(o.nsym), name(o.name) {
      if (o.freed) { data = (u8 *) calloc(1, 1); return; }
      data = (u8 *) malloc(size ? size : 1); memcpy(data, o.data, size);
      if (o.uninit) { uninit = (u8 *) malloc(size); memcpy(uninit, o.uninit, size); }
      if (o.sym) {
         u32 n = nchunks(); sym = (E **) calloc(n, sizeof(E *));
         for (u32 i = 0; i < n; i++) if (o.sym[i]) { sym[i] = (E *) malloc(64 * sizeof(E)); memcpy(sym[i], o.sym[i], 64 * sizeof(E)); }
      }
      if (o.log) log = new std::vector<SymWrite>(*o.log);
   }
   ~Obj() { drop(); }
   void drop() {
      free(data); data = nullptr; free(uninit); uninit = nullptr;
      if (sym) { for (u32 i = 0; i < nchunks(); i++) free(sym[i]); free(sym); sym = nullptr; }
      delete log; log = nullptr;
   }
   E symAt(u32 o) const { return sym && sym[o >> 6] ? sym[o >> 6][o & 63] : nullptr; }
   void setSym(u32 o, E e) {
      if (!sym) sym = (E **) calloc(nchunks(), sizeof(E *));
      E *&c = sym[o >> 6];
      if (!c) c = (E *) calloc(64, sizeof(E));
      if (!c[o & 63]) nsym++;
      c[o & 63] = e;
   }
   void clrSym(u32 o) { if (sym && sym[o >> 6] && sym[o >> 6][o & 63]) { sym[o >> 6][o & 63] = nullptr; nsym--; } }
   bool plain() const { return !nsym && !anyUninit && !log; }
};
// persistent table of objects: pages of 64 refcounted pointers
struct Page { int refs = 1; Obj *o[64] = {}; Page() {} Page(const Page &p) { for (int i = 0; i < 64; i++) { o[i] = p.o[i]; if (o[i]) o[i]->refs++; } } ~Page() { for (auto *x : o) if (x && --x->refs == 0) delete x; } };
struct Memory {
   std::vector<Page *> pages;
   u32 next = 1;
   Memory() {}
   Memory(const Memory &m) : pages(m.pages), next(m.next) { for (auto *p : pages) if (p) p->refs++; }
   ~Memory() { for (auto *p : pages) if (p && --p->refs == 0) delete p; }
   Obj *get(u64 id) const { u64 pg = id >> 6; if (pg >= pages.size() || !pages[pg]) return nullptr; return pages[pg]->o[id & 63]; }
   Page *wpage(u64 pg) {
      if (pg >= pages.size()) pages.resize(pg + 1, nullptr);
      Page *&p = pages[pg];
      if (!p) p = new Page;
      else if (p->refs > 1) { Page *q = new Page(*p); p->refs--; p = q; }
      return p;
   }
   Obj *wget(u64 id) {
      Page *p = wpage(id >> 6);
      Obj *&o = p->o[id & 63];
      if (o->refs > 1) { Obj *n = new Obj(*o); o->refs--; o = n; }
      return o;
   }
   u32 alloc(u32 size, u8 kind, bool uninit) {
      u32 id = next++;
      wpage(id >> 6)->o[id & 63] = new Obj(size, kind, uninit);
      return id;
   }
   void release(u64 id) { // drop object entirely (stack frames)
      Page *p = wpage(id >> 6); Obj *&o = p->o[id & 63];
      if (o && --o->refs == 0) delete o;
      o = nullptr;
   }
};
static inline u64 baseOf(u64 id) { return (id << 32) | OFF0; }

struct Fn;
struct Ins {
   u16 op; u8 w, w2; u8 sub; bool isPtr;
   int dst, a, b, c;
   const void *aux;
   const llvm::Instruction *I;
};
struct PhiCopy { int dst, src, n; };
struct Edge { u32 pc; std::vector<PhiCopy> phis; };
struct Frame {
   Fn *fn; u32 pc; u32 base; // base into regs
   const Ins *call; // the call/invoke in the caller
   std::vector<u32> allocas;
   u32 vaobj = 0; // var args area object
};
struct ExcState { u64 obj = 0; u64 tinfo = 0; };
struct SymUse { u32 id; };
struct State {
   Memory mem;
   std::vector<Frame> fr;
   std::vector<Val> regs;
   std::vector<E> cons;
   std::unordered_map<E, u64> known;
   std::unordered_map<E, E> alias;
   std::shared_ptr<Model> model = std::make_shared<Model>();
   u64 epoch = 0;
   std::vector<u32> symSeq;      // symbols created along the path (replay order)
   u32 symCounter = 0, uninitCounter = 0;
   u64 steps = 0;
   u32 forks = 0;
   ExcState exc;
   std::vector<ExcState> caught;
   std::vector<std::pair<u64,u64>> excInfo; // exception object -> tinfo
   std::vector<std::string> trace;
};
