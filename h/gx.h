// Shared helpers for the harnesses: thin wrappers over the public API plus independent reference functions.
#pragma once
#include "symx_api.h"
#include "gdx.hpp"
#include "gclgms.h"
#include <string>
#include <vector>
#include <cstring>
#include <climits>
using gdx::TGXFileObj;
#define ENTRY(n) extern "C" void n()
#define A(c, m) symx_assert((c) ? 1 : 0, m)
typedef uint64_t u64;
inline u64 bitsOf(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline double dblOf(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline double symD(const char *n) { return dblOf(symx_sym(64, n)); }
inline int symI(const char *n) { return (int) (uint32_t) symx_sym(32, n); }
inline int symU(const char *n, unsigned bits) { return (int) symx_sym(bits, n); } // 0 .. 2^bits-1
inline long P(const char *n, long d) { return (long) symx_param(n, d); }

static const u64 B_UNDEF = bitsOf(GMS_SV_UNDEF), B_NA = bitsOf(GMS_SV_NA), B_PINF = bitsOf(GMS_SV_PINF), B_MINF = bitsOf(GMS_SV_MINF), B_EPS = bitsOf(GMS_SV_EPS), B_ACR = bitsOf(GMS_SV_ACR);
inline bool isNanB(u64 b) { return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
// what a double reads back as with the default special values (values below the acronym range)
inline u64 refStored(u64 b) {
   if (isNanB(b)) return B_NA;
   if (b == 0x7ff0000000000000ull) return B_PINF;
   if (b == 0xfff0000000000000ull) return B_MINF;
   if (b == 0x8000000000000000ull) return 0;
   return b;
}
// not in the acronym range (>= 10E300 and finite)
inline bool belowAcr(u64 b) { return !(b >= B_ACR && b < 0x7ff0000000000000ull); }

struct Rec { int k[20]; double v[5]; };
struct Sess {               // one file handle
   std::string err; TGXFileObj *g; int ec = 0;
   Sess() : g(new TGXFileObj(err)) {}
   ~Sess() { delete g; }
   TGXFileObj *operator->() { return g; }
   void trace() { if (int l = (int) P("trace", 0)) A(g->gdxSetTraceLevel(l, "t"), "trace level"); }  // tracing must not change anything
   void openW(const char *fn, int compr = 0) { g->gdxAutoConvert(0); A(g->gdxOpenWriteEx(fn, "harness", compr, ec) == 1 && ec == 0, "opening a file for writing succeeds"); trace(); }
   void openR(const char *fn) { A(g->gdxOpenRead(fn, ec) == 1 && ec == 0, "a completely written file can be opened"); trace(); }
   void openA(const char *fn) { g->gdxAutoConvert(0); A(g->gdxOpenAppend(fn, "harness2", ec) == 1 && ec == 0, "a completely written file can be opened for append"); trace(); }
   void close() { A(g->gdxClose() == 0, "closing reports success"); }
};
// an arbitrary value that is stored in full (no special meaning): 20 free bits, for properties where only the identity of the value matters
// (parameter svat: the value drawn at that place is one of those stored in another way: zero, special values, negative, subnormal)
inline double symV(const char *n) {
   static int drawn = 0; static const double SV[] = { 0.0, GMS_SV_EPS, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_UNDEF, -1.0, 4.9406564584124654e-324 };
   if (drawn++ == P("svat", -1)) return SV[symx_choice((int) P("svn", 8), "value")];
   return dblOf(0x4008000000000007ull | (symx_sym(20, n) << 24));
}
inline int nVals(int typ) { return typ == GMS_DT_VAR || typ == GMS_DT_EQU ? 5 : 1; }
struct KeyBuf { char s[20][256]; char *p[20]; KeyBuf() { memset(s, 0, sizeof s); for (int i = 0; i < 20; i++) p[i] = s[i]; } };
inline bool eqs(const char *a, const char *b) { return strcmp(a, b) == 0; }
inline void regRaw(Sess &w, const char *const *u, int n) { A(w->gdxUELRegisterRawStart(), "register start"); for (int i = 0; i < n; i++) A(w->gdxUELRegisterRaw(u[i]), "register element"); A(w->gdxUELRegisterDone(), "register done"); }
inline std::string lab(int i) { return "u" + std::to_string(i); }
static inline std::vector<unsigned char> fileBytes(const char *fn) { long n = vfs_size(fn); unsigned char *d = vfs_data(fn); return std::vector<unsigned char>(d, d + (n > 0 ? n : 0)); }
