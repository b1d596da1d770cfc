// C27: every language interface (loaded C functions, C++ wrapper, exported C, short string and string array entry points) behaves exactly like the class.
#include "gx.h"
#include "c27_api.h"
extern "C" int gdxcreate(void **, char *, int); extern "C" int gdxfree(void **);
// short strings: length byte and characters, 256 bytes each
struct PIn { char b[256]; PIn(const char *s) { memset(b, '#', sizeof b); size_t n = strlen(s); A(n <= 255, "short"); b[0] = (char) n; memcpy(b + 1, s, n); } };
struct POut { char b[257]; POut() { memset(b, '#', sizeof b); b[256] = 'G'; } void get(char *s, int i = 0) { (void) i; size_t n = (unsigned char) b[0]; memcpy(s, b + 1, n); s[n] = 0; A(b[256] == 'G', "no write beyond 256 bytes"); } };
struct PIn20 { char b[20 * 256]; PIn20(const char **s, int n) { memset(b, '#', sizeof b); for (int i = 0; i < n; i++) { PIn p(s[i]); memcpy(b + i * 256, p.b, 256); } } };
struct POut20 { char b[20 * 256]; POut20() { memset(b, '#', sizeof b); } void get(char **s, int n) { for (int i = 0; i < n; i++) { size_t l = (unsigned char) b[i * 256]; memcpy(s[i], b + i * 256 + 1, l); s[i][l] = 0; } } };
struct NOut { char b[20][256]; NOut() { memset(b, '#', sizeof b); } void get(char **s, int n) { for (int i = 0; i < n; i++) strcpy(s[i], b[i]); } };
#include "c27_exports.inc"
struct ClsApi : Api { std::string err; TGXFileObj o; ClsApi() : o(err) { A(err.empty(), "created"); }
#define FN(r, n, params, refargs, ptrargs) r n params override { return o.n refargs; }
#include "c27_api.inc"
#undef FN
};
template<class T> static T *opened(T *t) { char msg[256]; memset(msg, 'x', sizeof msg); A(gdxcreate(&t->h, msg, sizeof msg) == 1 && t->h && !msg[0], "creating a handle"); return t; }
// Fortran entry points: callbacks get references
struct Fwd { CbDom d; CbFilt f; CbEx e; }; static Fwd fwd;
static void domF(int *r, int *m, void *u) { fwd.d(*r, *m, u); }
static int filtF(const int *k, const double *v, long long *u) { return fwd.f(k, v, u); }
static int exF(const int *k, const double *v, int fd, long long u) { return fwd.e(k, v, fd, (void *) u); }
extern "C" { int f__gdxdatareadrawfast(void *, int, CbStore, int *); int f__gdxdatareadrawfastex(void *, int, int (*)(const int *, const double *, int, long long), int *, void *); int f__gdxdatareadrawfastfilt(void *, int, const char **, int (*)(const int *, const double *, long long *)); int f__gdxdatareadslice(void *, const char **, int *, CbStore); int f__gdxgetdomainelements(void *, int, int, int, void (*)(int *, int *, void *), int *, void *); }
struct ForApi : ExpApi { // after a Fortran style call the C style calls of the same handle work as before
   int gdxDataReadRawFast(int SyNr, CbStore DP, int *NrRecs) override { return f__gdxdatareadrawfast(h, SyNr, DP, NrRecs); }
   int gdxDataReadRawFastEx(int SyNr, CbEx DP, int *NrRecs, void *Uptr) override { fwd.e = DP; return f__gdxdatareadrawfastex(h, SyNr, exF, NrRecs, Uptr); }
   int gdxDataReadRawFastFilt(int SyNr, const char **s, CbFilt DP) override { fwd.f = DP; return f__gdxdatareadrawfastfilt(h, SyNr, s, filtF); }
   int gdxDataReadSlice(const char **s, int *Dimen, CbStore DP) override { return f__gdxdatareadslice(h, s, Dimen, DP); }
   int gdxGetDomainElements(int SyNr, int DimPos, int FilterNr, CbDom DP, int *NrElem, void *Uptr) override { fwd.d = DP; return f__gdxgetdomainelements(h, SyNr, DimPos, FilterNr, domF, NrElem, Uptr); }
};
static Api *make(int layer) { switch (layer) { case 0: return new ClsApi; case 1: return makeLoaded(0); case 2: return makeLoaded(1); case 3: return opened(new PasApi); case 4: return opened(new NetApi); case 6: return opened(new ForApi); default: return opened(new ExpApi); } }
static void destroy(Api *a, int layer) { if (layer >= 3) { auto *e = static_cast<ExpApi *>(a); A(gdxfree(&e->h) == 1 && !e->h, "freed"); } delete a; }

struct Log { std::vector<u64> v; std::vector<std::string> s; void i(long x) { v.push_back((u64) x); } void d(double x) { v.push_back(bitsOf(x)); } void t(const char *x) { std::string q(x); size_t p = q.find("f1.gdx"); if (p != std::string::npos) q[p + 1] = '0'; s.push_back(q); /* messages name the file */ } };
static Log *cur; static int cbLeft;
static void cbStore(const int *k, const double *v) { cur->i(k[0]); cur->i(k[1]); cur->d(v[0]); }
static int *sliceDim; static void cbSlice(const int *k, const double *v) { for (int j = 0; j < *sliceDim; j++) cur->i(k[j]); cur->d(v[0]); }
static int cbEx(const int *k, const double *v, int fd, void *u) { cbStore(k, v); cur->i(fd); cur->i(*(int *) u); return --cbLeft > 0; }
static int cbFilt(const int *k, const double *v, void *) { cbStore(k, v); return --cbLeft > 0; }
static void cbDom(int r, int m, void *u) { cur->i(r); cur->i(m); cur->i(*(int *) u); }
// the arguments of the arbitrary call, the same for every interface
struct Args { int i[8]; double d[5]; std::string s[2]; int k[20]; };
struct Out { int i[4] = { -71, -72, -73, -74 }; char t[3][256]; double v[7] = { -1, -2, -3, -4, -5, -6, -7 }; int k[20]; KeyBuf kb; Out() { for (auto &x : t) strcpy(x, "untouched"); for (int &x : k) x = -75; for (int j = 0; j < 20; j++) strcpy(kb.s[j], "untouched"); } };
// what the marshalled calls leave behind when they fail is their own business: numbers always, texts after success
static void logOut(Log &L, Out &o, bool ok) { for (int x : o.i) L.i(x); for (double x : o.v) L.d(x); for (int x : o.k) L.i(x); if (ok) { for (auto &x : o.t) L.t(x); for (int j = 0; j < 4; j++) L.t(o.kb.s[j]); } }
enum { NFN = 97 };
static void call(Api &g, int f, const Args &a, const std::string &file, Log &L, int &uctx) {
   Out o; const char *ks[20]; for (int j = 0; j < 20; j++) ks[j] = a.s[j & 1].c_str(); const char *s0 = a.s[0].c_str(), *s1 = a.s[1].c_str(); long r = 0; const int *A_ = a.i; double sv[7] = { a.d[0], a.d[1], a.d[2], a.d[3], a.d[4], 0, 0 }; cbLeft = 2; bool ok = true; int n = 0;
#define C(e) if (f == n++) { r = (e); ok = r != 0; }
   C(g.gdxAcronymAdd(s0, s1, A_[0])) C(g.gdxAcronymCount()) C(g.gdxAcronymGetInfo(A_[0], o.t[0], o.t[1], &o.i[0])) C(g.gdxAcronymGetMapping(A_[0], &o.i[0], &o.i[1], &o.i[2])) C(g.gdxAcronymIndex(a.d[0])) C(g.gdxAcronymName(a.d[0], o.t[0])) C(g.gdxAcronymNextNr(A_[0])) C(g.gdxAcronymSetInfo(A_[0], s0, s1, A_[1]))
   if (f == n++) L.d(g.gdxAcronymValue(A_[0]));
   C(g.gdxAddAlias(s0, s1)) C(g.gdxAddSetText(s0, &o.i[0])) C(g.gdxAutoConvert(A_[0])) C(g.gdxClose()) C(g.gdxDataErrorCount()) C(g.gdxDataErrorRecord(A_[0], o.k, o.v)) C(g.gdxDataErrorRecordX(A_[0], o.k, o.v)) C(g.gdxDataReadDone()) C(g.gdxDataReadFilteredStart(A_[0], a.k, &o.i[0])) C(g.gdxDataReadMap(A_[0], o.k, o.v, &o.i[0])) C(g.gdxDataReadMapStart(A_[0], &o.i[0]))
   /* 20 */ C(g.gdxDataReadRaw(o.k, o.v, &o.i[0])) C(g.gdxDataReadRawFast(A_[0], cbStore, &o.i[0])) C(g.gdxDataReadRawFastEx(A_[0], cbEx, &o.i[0], &uctx)) C(g.gdxDataReadRawFastFilt(A_[0], ks, cbFilt)) C(g.gdxDataReadRawStart(A_[0], &o.i[0])) sliceDim = &o.i[0]; C(g.gdxDataReadSlice(ks, &o.i[0], cbSlice)) C(g.gdxDataReadSliceStart(A_[0], o.k)) C(g.gdxDataReadStr(o.kb.p, o.v, &o.i[0])) C(g.gdxDataReadStrStart(A_[0], &o.i[0])) C(g.gdxDataSliceUELS(a.k, o.kb.p))
   /* 30 */ C(g.gdxDataWriteDone()) C(g.gdxDataWriteMap(a.k, a.d)) C(g.gdxDataWriteMapStart(s0, s1, A_[0], A_[1], A_[2])) C(g.gdxDataWriteRaw(a.k, a.d)) C(g.gdxDataWriteRawStart(s0, s1, A_[0], A_[1], A_[2])) C(g.gdxDataWriteRawStartKeyBounds(s0, s1, A_[0], A_[1], A_[2], a.k, a.k + 2)) C(g.gdxDataWriteStr(ks, a.d)) C(g.gdxDataWriteStrStart(s0, s1, A_[0], A_[1], A_[2])) C(g.gdxGetDLLVersion(o.t[0])) C(g.gdxErrorCount())
   /* 40 */ C(g.gdxErrorStr(A_[0], o.t[0])) C(g.gdxFileInfo(&o.i[0], &o.i[1])) C(g.gdxFileVersion(o.t[0], o.t[1])) C(g.gdxFilterExists(A_[0])) C(g.gdxFilterRegister(A_[0])) C(g.gdxFilterRegisterDone()) C(g.gdxFilterRegisterStart(A_[0])) C(g.gdxFindSymbol(s0, &o.i[0])) C(g.gdxGetElemText(A_[0], o.t[0], &o.i[0])) C(g.gdxGetLastError())
   /* 50 */ C((g.gdxGetMemoryUsed(), 1)) C(g.gdxGetSpecialValues(o.v)) C(g.gdxGetUEL(A_[0], o.t[0])) C(g.gdxMapValue(a.d[0], &o.i[0])) C(g.gdxOpenAppend(file.c_str(), s0, &o.i[0])) C(g.gdxOpenRead(file.c_str(), &o.i[0])) C(g.gdxOpenReadEx(file.c_str(), A_[0], &o.i[0])) C(g.gdxOpenWrite(file.c_str(), s0, &o.i[0])) C(g.gdxOpenWriteEx(file.c_str(), s0, A_[0], &o.i[0])) C(g.gdxResetSpecialValues())
   /* 60 */ C(g.gdxSetHasText(A_[0])) C(g.gdxSetReadSpecialValues(sv)) C(g.gdxSetSpecialValues(sv)) C(g.gdxSetTextNodeNr(A_[0], A_[1])) C(g.gdxSetTraceLevel(A_[0], s0)) C(g.gdxSymbIndxMaxLength(A_[0], o.k)) C(g.gdxSymbMaxLength()) C(g.gdxSymbolAddComment(A_[0], s0)) C(g.gdxSymbolGetComment(A_[0], A_[1], o.t[0])) C(g.gdxSymbolGetDomain(A_[0], o.k))
   /* 70 */ C(g.gdxSymbolGetDomainX(A_[0], o.kb.p)) C(g.gdxSymbolDim(A_[0])) C(g.gdxSymbolInfo(A_[0], o.t[0], &o.i[0], &o.i[1])) C(g.gdxSymbolInfoX(A_[0], &o.i[0], &o.i[1], o.t[0])) C(g.gdxSymbolSetDomain(ks)) C(g.gdxSymbolSetDomainX(A_[0], ks)) C(g.gdxSystemInfo(&o.i[0], &o.i[1])) C(g.gdxUELMaxLength()) C(g.gdxUELRegisterDone()) C(g.gdxUELRegisterMap(A_[0], s0))
   /* 80 */ C(g.gdxUELRegisterMapStart()) C(g.gdxUELRegisterRaw(s0)) C(g.gdxUELRegisterRawStart()) C(g.gdxUELRegisterStr(s0, &o.i[0])) C(g.gdxUELRegisterStrStart()) C(g.gdxUMFindUEL(s0, &o.i[0], &o.i[1])) C(g.gdxUMUelGet(A_[0], o.t[0], &o.i[0])) C(g.gdxUMUelInfo(&o.i[0], &o.i[1])) C(g.gdxGetDomainElements(A_[0], A_[1], A_[2], cbDom, &o.i[0], &uctx)) C(g.gdxCurrentDim())
   /* 90 */ C(g.gdxRenameUEL(s0, s1)) C(g.gdxStoreDomainSets()) C((g.gdxStoreDomainSetsSet(A_[0]), 1)) C(g.gdxAllowBogusDomains()) C((g.gdxAllowBogusDomainsSet(A_[0]), 1)) C(g.gdxMapAcronymsToNaN()) C((g.gdxMapAcronymsToNaNSet(A_[0]), 1))
#undef C
   A(n == NFN, "every function is listed"); L.i(r); logOut(L, o, ok);
}
static void must(long r, Log &L) { L.i(r); }
// brings a handle into a state; the same calls for every interface
static void reach(Api &g, int st, const std::string &file, Log &L) {
   int ec = -1, n = 0, sy = 0; double v[5] = { 1.5, 2.5, 3, 4, 5 }; int k[2] = { 1, 2 }; const char *ks[2] = { "a", "b" }, *dm[2] = { "i", "*" };
   must(g.gdxAutoConvert(0), L); if (st == 0) return;
   must(g.gdxOpenWriteEx(file.c_str(), "harness", 0, &ec), L); L.i(ec);
   must(g.gdxUELRegisterRawStart(), L); for (const char *u : { "a", "b", "c" }) must(g.gdxUELRegisterRaw(u), L); must(g.gdxUELRegisterDone(), L);
   must(g.gdxUELRegisterMapStart(), L); for (int j = 0; j < 3; j++) must(g.gdxUELRegisterMap(3 - j, j == 0 ? "a" : j == 1 ? "b" : "c"), L); must(g.gdxUELRegisterDone(), L);
   must(g.gdxAddSetText("text1", &n), L); must(g.gdxAcronymAdd("acr", "atext", 7), L);
   must(g.gdxDataWriteRawStart("i", "the set", 1, GMS_DT_SET, 0), L); v[0] = n; must(g.gdxDataWriteRaw(k, v), L); v[0] = 0; k[0] = 2; must(g.gdxDataWriteRaw(k, v), L); must(g.gdxDataWriteDone(), L); v[0] = 1.5; k[0] = 1;
   must(g.gdxDataWriteStrStart("p", "parameter", 2, GMS_DT_PAR, 5), L); must(g.gdxSymbolSetDomain(dm), L); must(g.gdxDataWriteStr(ks, v), L); ks[1] = "c"; v[0] = 9; must(g.gdxDataWriteStr(ks, v), L); must(g.gdxDataWriteDone(), L); must(g.gdxSymbolAddComment(2, "comment"), L);
   must(g.gdxAddAlias("i", "ii"), L);
   if (st == 1) return;
   if (st == 2) { must(g.gdxDataWriteRawStart("q", "", 2, GMS_DT_VAR, 3), L); return; }
   if (st == 3) { must(g.gdxDataWriteMapStart("q", "", 2, GMS_DT_PAR, 0), L); return; }
   if (st == 4) { must(g.gdxDataWriteStrStart("q", "", 2, GMS_DT_EQU, 53), L); return; }
   if (st == 5) { must(g.gdxUELRegisterStrStart(), L); return; }
   if (st == 6) { must(g.gdxUELRegisterMapStart(), L); return; }
   if (st == 7) { must(g.gdxUELRegisterRawStart(), L); return; }
   must(g.gdxClose(), L); if (st == 8) return;
   must(g.gdxOpenRead(file.c_str(), &ec), L); L.i(ec); must(g.gdxFindSymbol("P", &sy), L); L.i(sy);
   must(g.gdxUELRegisterMapStart(), L); must(g.gdxUELRegisterMap(4, "c"), L); must(g.gdxUELRegisterMap(1, "b"), L); must(g.gdxUELRegisterMap(2, "a"), L); must(g.gdxUELRegisterDone(), L);
   must(g.gdxFilterRegisterStart(1), L); must(g.gdxFilterRegister(1), L); if (st == 16) return; must(g.gdxFilterRegister(2), L); must(g.gdxFilterRegisterDone(), L);
   if (st == 10) must(g.gdxDataReadRawStart(2, &n), L); if (st == 11) must(g.gdxDataReadStrStart(2, &n), L); if (st == 12) must(g.gdxDataReadMapStart(2, &n), L); if (st == 14) { must(g.gdxUELRegisterStrStart(), L); } if (st == 15) { must(g.gdxUELRegisterMapStart(), L); }
   if (st == 13) { int e[20] = {}; must(g.gdxDataReadSliceStart(2, e), L); L.i(e[0]); L.i(e[1]); } if (st == 17) { must(g.gdxDataReadRawStart(2, &n), L); for (int j = 0; j < 2; j++) { int kk[20], df; must(g.gdxDataReadRaw(kk, v, &df), L); L.d(v[0]); } }
   L.i(n);
}
static bool sameText(const std::string &a, const std::string &b) { return a == b; }
ENTRY(c27_any) {
   int st = P("state", 1), lo = P("lo", 0), hi = P("hi", NFN), la = P("layer", 1); Args a; Log L[2]; std::vector<unsigned char> fb[2]; Api *api[2];
   for (int x = 0; x < 2; x++) { cur = &L[x]; api[x] = make(x ? la : 0); reach(*api[x], st, x ? "f1.gdx" : "f0.gdx", L[x]); }
   int f = lo + (int) symx_choice(hi - lo, "function");
   for (int j = 0; j < 3; j++) if (f == 88) a.i[j] = (int) symx_choice(5, "small") - 1; else { a.i[j] = symI("int"); if (!P("wide", 0)) symx_assume(a.i[j] >= -1 && a.i[j] <= 4); }
   for (int j = 0; j < 5; j++) a.d[j] = j ? j + 0.25 : (f == 4 || f == 5) ? (symx_choice(2, "acr") ? GMS_SV_ACR * 7 : 3.0) : f == 53 ? symD("value") : symV("value"); a.k[0] = symI("key"); symx_assume(a.k[0] >= -1 && a.k[0] <= 4); a.k[1] = 2; for (int j = 2; j < 20; j++) a.k[j] = j < 4 ? 3 : 1;
   static const char *S[][2] = { { "a", "b" }, { "i", "new" }, { "zz", "b" }, { "", "" }, { "acr", "i" } }; bool txt = false; for (int q : { 0, 7, 9, 10, 23, 25, 32, 34, 35, 36, 37, 47, 54, 57, 58, 64, 67, 74, 75, 79, 81, 83, 85, 90 }) txt |= f == q; int si = txt ? (int) symx_choice(5, "texts") : 0; a.s[0] = S[si][0]; a.s[1] = S[si][1]; if (P("free", 0)) a.s[0] += (char) (symx_choice(2, "more") ? symx_sym(8, "char") | 1 : 0), a.s[0] = a.s[0].c_str();
   int uctx = symI("context");
   for (int x = 0; x < 2; x++) {
      std::string file = x ? "f1.gdx" : "f0.gdx"; cur = &L[x]; Api *g = api[x]; call(*g, f, a, file, L[x], uctx);
      L[x].i(g->gdxErrorCount()); char msg[256] = ""; int le = g->gdxGetLastError(); L[x].i(le); L[x].i(g->gdxErrorStr(le, msg)); L[x].t(msg); L[x].i(g->gdxCurrentDim());
      { Out o; const char *k20[20]; for (int j = 0; j < 20; j++) k20[j] = j ? "c" : "a"; must(g->gdxDataReadRaw(o.k, o.v, &o.i[0]), L[x]); const double fv[5] = { 3, 4, 5, 6, 7 }; must(g->gdxDataWriteStr(k20, fv), L[x]); must(g->gdxDataReadMap(0, o.k, o.v, &o.i[1]), L[x]); must(g->gdxDataWriteDone(), L[x]); must(g->gdxDataReadDone(), L[x]); must(g->gdxUELRegisterDone(), L[x]); must(g->gdxFilterRegisterDone(), L[x]); must(g->gdxUMUelInfo(&o.i[2], &o.i[3]), L[x]); logOut(L[x], o, false); }
      L[x].i(g->gdxClose()); destroy(g, x ? la : 0); fb[x] = fileBytes(file.c_str());
   }
   A(L[0].v.size() == L[1].v.size() && L[0].s.size() == L[1].s.size(), "as many results"); bool eq = true; for (size_t j = 0; j < L[0].v.size(); j++) eq &= L[0].v[j] == L[1].v[j]; A(eq, "the interface returns what the class returns"); for (size_t j = 0; j < L[0].s.size(); j++) A(sameText(L[0].s[j], L[1].s[j]), "texts are passed through");
   A(fb[0].size() == fb[1].size() && (f != 58 || fb[0].size() > 100), "same file size"); bool same = true; for (size_t j = 0; j < (f == 58 ? 100 : fb[0].size()); j++) same &= fb[0][j] == fb[1][j]; A(same, "same file"); /* compressed blocks are opaque here (only gdxOpenWriteEx asks for them): their header is compared */ symx_cover("end");
}
// the callback style is chosen per call: a C style call after a Fortran style call (and back) on one handle
ENTRY(c27_callbacks) {
   Log L0, L1; auto *f = opened(new ForApi); reach(*f, 9, "f.gdx", L0); int n = 0, u = symI("context"), first = (int) symx_choice(2, "first");
   for (int j = 0; j < 3; j++) { bool fortran = ((j + first) & 1) != 0; Log A_, B; for (int x = 0; x < 2; x++) { cur = x ? &B : &A_; cbLeft = 3; int fn = P("fn", 0); n = -1;
         if (x == 0) { if (fn == 0) f->ExpApi::gdxGetDomainElements(2, 1, -1, cbDom, &n, &u); else if (fn == 1) f->ExpApi::gdxDataReadRawFastEx(2, cbEx, &n, &u); else { const char *e[2] = { "", "" }; f->ExpApi::gdxDataReadRawFastFilt(2, e, cbFilt); } }
         else if (fortran) { if (fn == 0) f->gdxGetDomainElements(2, 1, -1, cbDom, &n, &u); else if (fn == 1) f->gdxDataReadRawFastEx(2, cbEx, &n, &u); else { const char *e[2] = { "", "" }; f->gdxDataReadRawFastFilt(2, e, cbFilt); } }
         cur->i(n); }
      if (fortran) { A(A_.v.size() == B.v.size() && A_.v.size() > 1, "as many calls"); bool eq = true; for (size_t q = 0; q < B.v.size(); q++) eq &= A_.v[q] == B.v[q]; A(eq, "the same arguments in both styles"); symx_cover("fortran"); } }
   f->gdxClose(); destroy(f, 6); symx_cover("end");
}
// version negotiation and signature check of the library
extern "C" { int c__xapiversion(int, char *, int *); int d__xapiversion(int, char *, int *); int c__xcheck(const char *, int, int *, char *); int d__xcheck(const char *, int, int *, char *); }
ENTRY(c27_version) {
   int v = symI("api"), c = -1, c2 = -1; char m[256] = "?", m2[257] = "?"; int r = c__xapiversion(v, m, &c), r2 = d__xapiversion(v, m2, &c2); A((r != 0) == (v >= 7), "clients from version 7 on are accepted"); A(c == (v < 7 ? 0 : v == 11 ? 1 : v < 11 ? 2 : 3), "compatibility mode"); A(r2 == r && c2 == c, "short string version agrees"); size_t n = (unsigned char) m2[0]; A(n == strlen(m) && memcmp(m, m2 + 1, n) == 0, "message"); symx_cover("end");
}
ENTRY(c27_signature) {
   int s[8] = { 3, 11, 11, 3, 0, 0, 0, 0 }, pos = (int) symx_choice(4, "pos"), nr = symI("args"); symx_assume(nr >= 0 && nr <= 7); s[pos] = symI("type"); bool good = nr == 3 && s[0] == 3 && s[1] == 11 && s[2] == 11 && s[3] == 3; char m[256]; memset(m, 'x', 256); int r = c__xcheck("gdxAcronymAdd", nr, s, m); A((r != 0) == good && (m[0] == 0) == good, "exactly the documented signature is accepted");
   PIn f("gdxAcronymAdd"); POut o; A(d__xcheck(f.b, nr, s, o.b) == r, "short string version agrees"); char t[256]; o.get(t); A((t[0] == 0) == good, "message"); A(!c__xcheck("gdxNoSuchCall", nr, s, m) && m[0], "unknown function refused"); symx_cover("end");
}
