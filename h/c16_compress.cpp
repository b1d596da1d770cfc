// C16: compression is invisible to the user: a compressed file delivers the same as a plain one, for small symbols and for data spanning several blocks.
#include "gx.h"
#include <cstdlib>
static int wrap(int i, int m) { return i % m; }
// bulk data: n records with 5 fields (46 bytes each) cross the 32 KiB block limit; the first sp fields are special values (one byte) and a jump adds a byte, so that every alignment of the limit occurs
ENTRY(c16_bulk) {
   int compr = (int) P("compr", 1), n = (int) P("n", 730), from = (int) P("from", 0), cnt = (int) P("cnt", 23), typ = (int) P("typ", GMS_DT_VAR), api = (int) P("api", 0), nv = nVals(typ); int sp = from + (int) symx_choice(cnt, "special fields"), jump = (int) symx_choice(2, "jump"); double sv = symV("value"); int hot = (int) P("hot", 711);
   { Sess w; w.openW("f.gdx", compr); A(w->gdxUELRegisterRawStart(), "r"); for (int i = 1; i <= n + 300; i++) A(w->gdxUELRegisterRaw(lab(i).c_str()), "r"); A(w->gdxUELRegisterDone(), "r"); A(w->gdxDataWriteRawStart("bulk", "b", 1, typ, 0), "s");
     for (int i = 1; i <= n; i++) { int k = i + (jump && i > 10 ? 290 : 0); double v[5]; for (int f = 0; f < nv; f++) v[f] = (i - 1) * nv + f < sp ? GMS_SV_NA : i + f * 0.25; if (i >= hot && i < hot + 4) v[wrap(i, nv)] = sv; A(w->gdxDataWriteRaw(&k, v), "w"); } A(w->gdxDataWriteDone(), "d");
     A(w->gdxDataWriteRawStart("after", "b", 1, GMS_DT_PAR, 0), "s"); int k = 3; A(w->gdxDataWriteRaw(&k, &sv), "w"); A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess r; r.openR("f.gdx"); int x, y, k[20], df; double v[7]; static KeyBuf kb; A(r->gdxFileInfo(x, y) && (y != 0) == (compr != 0), "compression flag"); for (int pass = 0; pass < 2; pass++) { A(r->gdxDataReadRawStart(2, x) && x == 1 && r->gdxDataReadRaw(k, v, df) && k[0] == 3 && v[0] == sv && !r->gdxDataReadRaw(k, v, df), "second symbol"); A(api ? r->gdxDataReadStrStart(1, x) : r->gdxDataReadRawStart(1, x), "start"); A(x == n, "record count");
      for (int i = 1; i <= n; i++) { A(api ? r->gdxDataReadStr(kb.p, v, df) : r->gdxDataReadRaw(k, v, df), "record"); int q = i + (jump && i > 10 ? 290 : 0); if (api) { if (i < 5 || i > hot - 4) A(lab(q) == kb.p[0], "label"); } else A(k[0] == q, "key"); for (int f = 0; f < nv; f++) { double e = (i - 1) * nv + f < sp ? GMS_SV_NA : i + f * 0.25; if (i >= hot && i < hot + 4 && f == wrap(i, nv)) e = sv; A(v[f] == e, "value"); } if (pass && i == 20) break; } if (!pass) A(api ? !r->gdxDataReadStr(kb.p, v, df) : !r->gdxDataReadRaw(k, v, df), "end"); else r->gdxDataReadDone(); }
   r.close(); symx_cover("end");
}
// label, text and symbol tables larger than a block, with an arbitrary character in the labels around the limit
ENTRY(c16_tables) {
   int compr = (int) P("compr", 1), n = (int) P("n", 1100), what = (int) P("what", 0), hot = (int) P("hot", 1020), len = 28 + (int) P("from", 0) + (int) symx_choice((unsigned) P("cnt", 4), "length"); char c = "AzZ_"[symx_choice(4, "character")]; std::string fill(len, 'x'); auto name = [&](int i) { std::string s = "n" + std::to_string(10000 + i) + fill.substr(6); if (i >= hot && i < hot + 60) s[len - 1] = c; return s; };
   { Sess w; w.openW("f.gdx", compr); int t; if (what == 0) { A(w->gdxUELRegisterRawStart(), "r"); for (int i = 0; i < n; i++) A(w->gdxUELRegisterRaw(name(i).c_str()), "r"); A(w->gdxUELRegisterDone(), "r"); } else if (what == 1) { for (int i = 0; i < n; i++) { A(w->gdxAddSetText(name(i).c_str(), t) && t == i + 1, "t"); } } else { A(w->gdxDataWriteRawStart("base", "", 1, GMS_DT_SET, 0) && w->gdxDataWriteDone(), "s"); for (int i = 0; i < n; i++) A(w->gdxAddAlias("base", name(i).c_str()), "a"); } w.close(); }
   Sess r; r.openR("f.gdx"); int x, y; char t[300]; if (what == 0) { A(r->gdxSystemInfo(x, y) && y == n, "count"); for (int i = 0; i < n; i++) A(r->gdxUMUelGet(i + 1, t, x) && (i < hot ? true : name(i) == t), "label"); A(r->gdxUMFindUEL(name(hot - 1).c_str(), x, y) && x == hot, "find"); } else if (what == 1) for (int i = 0; i < n; i++) { A(r->gdxGetElemText(i + 1, t, x), "t"); if (i >= hot) A(name(i) == t, "text"); } else { A(r->gdxSystemInfo(x, y) && x == n + 1, "count"); for (int i = 0; i < n; i++) { int d, ty; A(r->gdxSymbolInfo(i + 2, t, d, ty) && d == 1 && ty == GMS_DT_ALIAS, "symbol"); if (i >= hot) A(name(i) == t, "name"); } }
   r.close(); symx_cover("end");
}
// every combination of small symbols, plain and compressed, one and the same result
ENTRY(c16_pair) {
   int n = (int) P("n", 2); struct S { int typ, dim, cnt; double v; }; std::vector<S> ss; for (int i = 0; i < n; i++) { S s; s.typ = (int) symx_choice(4, "type"); s.dim = (int) symx_choice(3, "dimension"); s.cnt = (int) symx_choice(3, "records"); s.v = s.typ == GMS_DT_SET ? 0.0 : symV("value"); ss.push_back(s); } int flag = symI("flag"); symx_assume(flag != 0);
   for (int c = 0; c < 2; c++) { Sess w; const char *fn = c ? "c.gdx" : "p.gdx"; w.openW(fn, c ? flag : 0); const char *L[] = { "a", "b", "c" }; regRaw(w, L, 3); int tx; A(w->gdxAddSetText("element text", tx), "t"); for (int i = 0; i < n; i++) { A(w->gdxDataWriteRawStart(lab(i).c_str(), "text", ss[i].dim, ss[i].typ, 0), "s"); int m = ss[i].dim ? ss[i].cnt : 1; for (int j = 1; j <= m; j++) { int k[2] = { 1, j }; if (ss[i].dim == 1) k[0] = j; double v[5] = { ss[i].typ == GMS_DT_SET ? (double) (j == 1 ? tx : 0) : ss[i].v, 1, 2, j + 0.5, 4 }; A(w->gdxDataWriteRaw(k, v), "w"); } A(w->gdxDataWriteDone(), "d"); } w.close(); }
   Sess a, b; a.openR("p.gdx"); b.openR("c.gdx"); int x, y, x2, y2, df, df2, k[20], k2[20]; double v[7], v2[7]; char t[300], t2[300]; A(a->gdxFileInfo(x, y) && y == 0 && b->gdxFileInfo(x2, y2) && y2 != 0 && x == x2, "compression as requested"); int ord = (int) symx_choice(2, "order");
   for (int q = 0; q < n; q++) { int i = ord ? n - 1 - q : q; A(a->gdxSymbolInfo(i + 1, t, x, y) && b->gdxSymbolInfo(i + 1, t2, x2, y2) && eqs(t, t2) && x == x2 && y == y2, "symbol"); A(a->gdxSymbolInfoX(i + 1, x, y, t) && b->gdxSymbolInfoX(i + 1, x2, y2, t2) && eqs(t, t2) && x == x2 && y == y2, "details"); A(a->gdxDataReadRawStart(i + 1, x) && b->gdxDataReadRawStart(i + 1, x2) && x == x2, "start"); int m = ss[i].dim ? ss[i].cnt : 1; for (int j = 1; j <= m; j++) { A(a->gdxDataReadRaw(k, v, df) && b->gdxDataReadRaw(k2, v2, df2) && df == df2, "record"); for (int d = 0; d < ss[i].dim; d++) A(k[d] == k2[d], "key"); for (int f = 0; f < nVals(ss[i].typ); f++) A(v[f] == v2[f], "value"); if (ss[i].typ != GMS_DT_SET) A(v2[0] == ss[i].v, "value"); } A(!a->gdxDataReadRaw(k, v, df) && !b->gdxDataReadRaw(k2, v2, df2), "end"); }
   a.close(); b.close(); symx_cover("end");
}
// the environment variable decides for gdxOpenWrite
ENTRY(c16_env) {
   char e[4] = { 0 }; int len = (int) symx_choice(3, "length"); for (int i = 0; i < len; i++) { e[i] = (char) symx_sym(8, "character"); symx_assume(e[i] != 0); } bool set = symx_choice(2, "defined"); if (set) setenv("GDXCOMPRESS", e, 1); else unsetenv("GDXCOMPRESS"); bool want = set && len > 0 && e[0] != '0' && e[0] != 'n' && e[0] != 'N';
   Sess w; w->gdxAutoConvert(0); int er = 0; A(w->gdxOpenWrite("f.gdx", "harness", er) && er == 0, "open"); w.close(); unsetenv("GDXCOMPRESS"); Sess r; r.openR("f.gdx"); int x, y; A(r->gdxFileInfo(x, y) && (y != 0) == want, "compression as configured"); r.close(); symx_cover("end"); if (want) symx_cover("compressed");
}
