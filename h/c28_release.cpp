// C28: whatever was done with a handle, nothing it used stays in use after it is freed, and a handle can be used again and again without growing.
#include "c27_capi.cpp"
// the session twice (the first one may set up what lives as long as the program); both make the same choices
template<class F> static void twice(F session) {
   size_t live = 0; int n = (int) P("times", 2);
   for (int x = 0; x < n; x++) { session(); A(vfs_open_count() == 0, "no file stays open"); vfs_reset(); if (x < n - 1) live = symx_live_heap(); }
   A(symx_live_heap() == live, "all memory is released");
}
ENTRY(c28_any) {
   int st = P("state", 1), lo = P("lo", 0), hi = P("hi", NFN), la = P("layer", 0); Args a; int f = lo + (int) symx_choice(hi - lo, "function"), two = P("two", 0) ? (int) symx_choice(NFN, "second function") : -1;
   for (int j = 0; j < 3; j++) if (f == 88 || two == 88) a.i[j] = (int) symx_choice(5, "small") - 1; else { a.i[j] = symI("int"); symx_assume(a.i[j] >= -1 && a.i[j] <= 4); }
   for (int j = 0; j < 5; j++) a.d[j] = j ? j + 0.25 : 3.0; a.k[0] = symI("key"); symx_assume(a.k[0] >= -1 && a.k[0] <= 4); a.k[1] = 2; for (int j = 2; j < 20; j++) a.k[j] = j < 4 ? 3 : 1;
   static const char *S[][2] = { { "a", "b" }, { "i", "new" }, { "", "" } }; int si = (int) symx_choice(3, "texts"); a.s[0] = S[si][0]; a.s[1] = S[si][1]; int uctx = 5; bool close = symx_choice(2, "closed before it is freed") != 0;
   twice([&] {
      Log L; cur = &L; Api *g = make(la); reach(*g, st, "f0.gdx", L); call(*g, f, a, "f0.gdx", L, uctx); if (two >= 0) call(*g, two, a, "f0.gdx", L, uctx); if (close) { g->gdxClose(); A(vfs_open_count() == 0, "closing closes the file"); } destroy(g, la);
   });
   symx_cover("end");
}
static std::vector<unsigned char> good, bad; static int comprW;
static void richWrite(Api &g, int how, bool finish) {
   int t = 0, e = 0; g.gdxAutoConvert(0); g.gdxOpenWriteEx("w.gdx", "harness", comprW, &e); const char *ks[2] = { "a", "b" }, *dm[2] = { "i", "*" }; double v[5] = { 1.5, 2, 3, 4, 5 }; int k[2] = { 1, 2 };
   g.gdxUELRegisterRawStart(); for (const char *u : { "a", "b", "c" }) g.gdxUELRegisterRaw(u); g.gdxUELRegisterDone(); g.gdxUELRegisterMapStart(); g.gdxUELRegisterMap(2, "a"); g.gdxUELRegisterMap(1, "b"); g.gdxUELRegisterDone(); g.gdxAddSetText("one text", &t); g.gdxAddSetText("another", &t); g.gdxAcronymAdd("acr", "atext", 7);
   g.gdxDataWriteRawStart("i", "the set", 1, GMS_DT_SET, 0); v[0] = t; g.gdxDataWriteRaw(k, v); g.gdxDataWriteDone(); g.gdxAddAlias("i", "ii");
   if (how == 0) { g.gdxDataWriteRawStart("x", "variable", 2, GMS_DT_VAR, 3); g.gdxSymbolSetDomain(dm); g.gdxDataWriteRaw(k, v); g.gdxDataWriteRaw(k, v); v[0] = 1e301; k[1] = 3; g.gdxDataWriteRaw(k, v); }
   if (how == 1) { g.gdxDataWriteStrStart("x", "parameter", 2, GMS_DT_PAR, 0); g.gdxSymbolSetDomain(dm); g.gdxDataWriteStr(ks, v); g.gdxDataWriteStr(ks, v); ks[0] = "new"; g.gdxDataWriteStr(ks, v); ks[0] = ""; g.gdxDataWriteStr(ks, v); }
   if (how == 2) { g.gdxDataWriteMapStart("x", "equation", 2, GMS_DT_EQU, 53); g.gdxDataWriteMap(k, v); g.gdxDataWriteMap(k, v); k[0] = 2; g.gdxDataWriteMap(k, v); k[0] = 9; g.gdxDataWriteMap(k, v); }
   if (how == 3) { g.gdxUELRegisterStrStart(); g.gdxUELRegisterStr("q", &e); } if (finish) { if (how == 3) g.gdxUELRegisterDone(); else { g.gdxDataWriteDone(); int ek[20]; double ev[7]; for (int j = 1; j <= g.gdxDataErrorCount(); j++) g.gdxDataErrorRecordX(j, ek, ev); const char *rx[2] = { "dom", "other" }; g.gdxSymbolSetDomainX(3, rx); } g.gdxSymbolAddComment(1, "c1"); g.gdxSymbolAddComment(1, "c2"); g.gdxRenameUEL("c", "renamed"); }
}
static void readSome(Api &g, int how) {
   int n = 0, e[20] = {}, k[20], fd, u = 1; double v[7]; KeyBuf kb; Log L; cur = &L; const char *ks[20] = { "", "b" };
   if (how == 0) { g.gdxDataReadRawStart(2, &n); g.gdxDataReadRaw(k, v, &fd); }
   if (how == 1) { g.gdxUELRegisterMapStart(); g.gdxUELRegisterMap(4, "c"); g.gdxUELRegisterDone(); for (int j = 1; j < 3; j++) { g.gdxFilterRegisterStart(j); g.gdxFilterRegister(4); g.gdxFilterRegisterDone(); } g.gdxFilterRegisterStart(1); g.gdxFilterRegister(4); g.gdxFilterRegisterDone(); int fl[20] = { 1, 2 }; g.gdxDataReadFilteredStart(2, fl, &n); while (g.gdxDataReadMap(0, k, v, &fd)) {} g.gdxDataErrorRecord(1, k, v); g.gdxFilterRegisterStart(3); g.gdxFilterRegister(4); }
   if (how == 2) { g.gdxDataReadStrStart(2, &n); while (g.gdxDataReadStr(kb.p, v, &fd)) {} g.gdxDataReadDone(); int fl[20] = { -2, -2 }; g.gdxDataReadFilteredStart(2, fl, &n); g.gdxDataReadMap(0, k, v, &fd); }
   if (how == 3) { int dimn = 1; sliceDim = &dimn; g.gdxDataReadSliceStart(2, e); g.gdxDataReadSlice(ks, &dimn, cbSlice); cbLeft = 1; g.gdxDataReadRawFastEx(2, cbEx, &n, &u); cbLeft = 1; g.gdxDataReadRawFastFilt(2, ks, cbFilt); g.gdxDataReadRawFast(1, cbStore, &n); g.gdxGetDomainElements(2, 1, 0, cbDom, &n, &u); g.gdxDataReadMapStart(2, &n); }
   if (how == 4) { char t[256]; g.gdxSymbolGetDomainX(2, kb.p); g.gdxFindSymbol("nosuch", &n); g.gdxSymbolGetComment(2, 1, t); g.gdxSymbMaxLength(); g.gdxUELMaxLength(); g.gdxSymbIndxMaxLength(2, e); for (int j = 1; j < 20; j++) { g.gdxUELRegisterStrStart(); g.gdxUELRegisterStr(lab(j).c_str(), &n); g.gdxUELRegisterDone(); } g.gdxSetTraceLevel(0, ""); g.gdxUELRegisterStrStart(); }
}
enum { NKIND = 15 };
static void kind(Api &g, int q, bool close) {
   int e = 0; vfs_put("f.gdx", good.data(), (long) good.size()); vfs_put("b.gdx", bad.data(), (long) bad.size());
   if (q < 4) richWrite(g, q, true); else if (q < 7) richWrite(g, q - 3, false); else if (q < 12) { g.gdxOpenRead("f.gdx", &e); readSome(g, q - 7); }
   else if (q == 12) { g.gdxOpenAppend("f.gdx", "again", &e); const char *k[20] = { "a", "b" }; double v[5] = { 3 }; g.gdxDataWriteStrStart("z", "", 1, GMS_DT_PAR, 0); g.gdxDataWriteStr(k, v); if (close) g.gdxDataWriteDone(); }
   else if (q == 13) { g.gdxOpenRead("nosuch.gdx", &e); g.gdxOpenAppend("nosuch.gdx", "p", &e); } else { g.gdxOpenRead("b.gdx", &e); if (close) { g.gdxClose(); g.gdxOpenAppend("b.gdx", "p", &e); } }
   if (close) { g.gdxClose(); A(vfs_open_count() == 0, "closing closes the file"); }
}
static void prepare() { comprW = (int) P("compr", 0); Log L; cur = &L; Api *g = make(0); reach(*g, 8, "f0.gdx", L); destroy(g, 0); good = fileBytes("f0.gdx"); bad = good; vfs_reset(); }
// one handle used for the same two activities again and again
ENTRY(c28_reuse) {
   prepare(); int la = P("layer", 0), a = P("kind", 0), b = (int) symx_choice(NKIND, "second"); bad.resize(120); bool c = symx_choice(2, "second closed") != 0; size_t live = 0; Api *g = make(la);
   for (int x = 0; x < 3; x++) { kind(*g, a, true); kind(*g, b, c); g->gdxClose(); A(vfs_open_count() == 0, "closing closes the file"); vfs_reset(); if (x == 1) live = symx_live_heap(); }
   A(symx_live_heap() == live, "a handle used again needs no more memory"); destroy(g, la); symx_cover("end");
}
// two activities, the last possibly unfinished
ENTRY(c28_session) {
   prepare(); int la = P("layer", 0), a = P("kind", 0), b = (int) symx_choice(NKIND, "second"); bad.resize(120); bool c1 = symx_choice(2, "first closed"), c2 = symx_choice(2, "second closed");
   twice([&] { Api *g = make(la); kind(*g, a, c1); kind(*g, b, c2); destroy(g, la); }); symx_cover("end");
}
// a file cut anywhere or with an arbitrary byte at some place of its fixed part, opened (and freed without closing, or opened again)
ENTRY(c28_damaged) {
   prepare(); int how = (int) P("how", 0); if (how == 0) bad.resize(symx_choice((unsigned) bad.size(), "length")); else { long idx = 34; idx += 1 + bad[idx]; idx += 1 + bad[idx]; int at = how == 1 ? (int) symx_choice(34, "place") : (int) (idx + symx_choice(4, "place")); if (how == 3) { unsigned long o = 0; unsigned w = symx_choice(6, "table"); for (int i = 7; i >= 0; i--) o = o << 8 | bad[idx + 4 + w * 8 + i]; at = (int) o + symx_choice(2, "place"); } unsigned char ch = (unsigned char) symx_sym(8, "byte"); symx_assume(ch != bad[at]); bad[at] = ch; }
   symx_assume(!(bad.size() > 9 && ((bad[1] == 0x12 && bad[2] == 0x34) || bad[4] == 0x12 || bad[9] == 0x40))); int close = (int) symx_choice(3, "ending");
   twice([&] { Api *g = make(0); int e = 0; vfs_put("b.gdx", bad.data(), (long) bad.size()); g->gdxOpenRead("b.gdx", &e); if (close == 1) g->gdxClose(); if (close == 2) g->gdxOpenAppend("b.gdx", "p", &e); destroy(g, 0); }); symx_cover("end");
}
// any write (or read) fails
ENTRY(c28_faults) {
   prepare(); int q = P("kind", 0), mode = P("mode", 0), at = (int) symx_choice(12, "failing access"); bool c = symx_choice(2, "closed");
   twice([&] { Api *g = make(0); if (q < 7 || q == 12) vfs_fail_write_at(at, mode); else vfs_fail_read_at(at, mode); int e = 0; if (q == 12 || q >= 7) { vfs_put("f.gdx", good.data(), (long) good.size()); if (q == 12) { if (g->gdxOpenAppend("f.gdx", "p", &e)) { const char *k[1] = { "a" }; double v[5] = { 3 }; g->gdxDataWriteStrStart("z", "", 1, GMS_DT_PAR, 0); g->gdxDataWriteStr(k, v); g->gdxDataWriteDone(); } } else if (g->gdxOpenRead("f.gdx", &e)) readSome(*g, q - 7); } else { g->gdxOpenWriteEx("w.gdx", "harness", comprW, &e); g->gdxClose(); richWrite(*g, q > 3 ? q - 3 : q, q < 4); }
      if (c) g->gdxClose(); vfs_fail_write_at(-1, 0); vfs_fail_read_at(-1, 0); destroy(g, 0); }); symx_cover("end");
}
