// C08: special values: any distinct encodings, write and read maps, classification.
#include "gx.h"
static const u64 DEF[5] = { B_UNDEF, B_NA, B_PINF, B_MINF, B_EPS };
// arbitrary five values: accepted exactly when pairwise different; classification follows the values in force
ENTRY(c08_set) {
   int rep = P("rep", 0); Sess s; double av[7] = {}, got[7]; u64 cur[5]; for (int i = 0; i < 5; i++) cur[i] = DEF[i];
   if (rep) { for (int i = 0; i < 5; i++) { cur[i] = bitsOf(100.5 + i); av[i] = dblOf(cur[i]); } A(s->gdxSetSpecialValues(av), "set"); }
   int ns = P("ns", 5), first = P("first", 0); u64 v[5]; for (int i = 0; i < 5; i++) v[i] = i >= first && i < first + ns ? bitsOf(symD("special")) : bitsOf(7.25 + i);
   bool dup = false; for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) dup |= v[i] == v[j]; for (int i = 0; i < 5; i++) av[i] = dblOf(v[i]);
   bool r = s->gdxSetSpecialValues(av); A(r == !dup, "accepted exactly when the values are different"); if (r) for (int i = 0; i < 5; i++) cur[i] = v[i];
   A(s->gdxGetSpecialValues(got), "get"); for (int i = 0; i < 5; i++) A(bitsOf(got[i]) == cur[i], "values in force"); A(bitsOf(got[sv_acronym]) == B_ACR, "acronym base");
   u64 x = bitsOf(symD("value")); int sv = -1, want = sv_normal; for (int i = 4; i >= 0; i--) want = x == cur[i] ? i : want; bool cl = s->gdxMapValue(dblOf(x), sv); A(sv == want && cl == (want != sv_normal), "classification");
   A(s->gdxResetSpecialValues(), "reset"); A(s->gdxGetSpecialValues(got), "get"); for (int i = 0; i < 5; i++) A(bitsOf(got[i]) == DEF[i], "defaults restored"); symx_cover("end"); symx_cover(dup ? "dup" : "distinct");
}
static u64 readOne(Sess &s, int rd, int typ, int f) { int n, k[20], df; double v[5]; KeyBuf kb; 
   if (rd == 0) A(s->gdxDataReadRawStart(1, n) && s->gdxDataReadRaw(k, v, df), "r"); else if (rd == 1) A(s->gdxDataReadStrStart(1, n) && s->gdxDataReadStr(kb.p, v, df), "r"); else { A(s->gdxUELRegisterMapStart() && s->gdxUELRegisterMap(3, "a") && s->gdxUELRegisterDone(), "m"); A(s->gdxDataReadMapStart(1, n) && s->gdxDataReadMap(1, k, v, df), "r"); } A(s->gdxDataReadDone(), "d"); return bitsOf(v[f]); }
// a value written under arbitrary write encodings reads as its meaning under arbitrary read encodings
ENTRY(c08_write) {
   int typ = P("typ", GMS_DT_PAR), wr = P("wr", 0), rd = P("rd", 0), which = P("which", 0), rset = P("rset", 1); int f = typ == GMS_DT_VAR ? P("field", 2) : 0; u64 wv[5], rv[5]; for (int i = 0; i < 5; i++) { wv[i] = bitsOf(31.25 + i); rv[i] = bitsOf(-1e10 - i); }
   wv[which] = bitsOf(symD("write special")); for (int i = 0; i < 5; i++) symx_assume(i == which || wv[i] != wv[which]); 
   u64 x = bitsOf(symD("value")); bool sp = false; for (int i = 0; i < 5; i++) sp |= x == wv[i]; symx_assume(sp | belowAcr(x));
   { Sess w; double av[7]; for (int i = 0; i < 5; i++) av[i] = dblOf(wv[i]); w.openW("f.gdx"); A(w->gdxSetSpecialValues(av), "set"); double v[5] = { 31.25, 32.25, 33.25, 34.25, 35.25 }; v[f] = dblOf(x); int k[20] = { 1 }; const char *s[20] = { "a" };
     const char *L[] = { "a" }; if (wr != 2) regRaw(w, L, 1); else { A(w->gdxUELRegisterMapStart() && w->gdxUELRegisterMap(1, "a") && w->gdxUELRegisterDone(), "m"); }
     A(wr == 0 ? w->gdxDataWriteRawStart("p", "", 1, typ, 0) && w->gdxDataWriteRaw(k, v) : wr == 1 ? w->gdxDataWriteStrStart("p", "", 1, typ, 0) && w->gdxDataWriteStr(s, v) : w->gdxDataWriteMapStart("p", "", 1, typ, 0) && w->gdxDataWriteMap(k, v), "w"); A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); double rvv[7]; const u64 *rm = DEF; if (rset) { rv[which] = bitsOf(symD("read special")); for (int i = 0; i < 5; i++) rvv[i] = dblOf(rv[i]); if (rset == 2) { for (int i = 0; i < 5; i++) symx_assume(i == which || rv[i] != rv[which]); A(s->gdxSetSpecialValues(rvv), "set"); } else A(s->gdxSetReadSpecialValues(rvv), "read map"); rm = rv; }
   u64 y = readOne(s, rd, typ, f), e;
   if (sp) { e = rm[4]; for (int i = 3; i >= 0; i--) e = x == wv[i] ? rm[i] : e; } else { e = isNanB(x) ? rm[1] : x == 0x7ff0000000000000ull ? rm[2] : x == 0xfff0000000000000ull ? rm[3] : x == 0x8000000000000000ull ? 0 : x; }
   A(y == e, "the meaning of a value is kept between write and read encodings"); symx_cover("end"); if (sp) symx_cover("special");
}
// a set or reset between reads of one handle affects only later reads; data in the file do not change
ENTRY(c08_history) {
   { Sess w; w.openW("f.gdx"); const char *L[] = { "a" }; regRaw(w, L, 1); int k[20] = { 1 }; double v[5] = { GMS_SV_NA, GMS_SV_EPS, GMS_SV_MINF, GMS_SV_PINF, GMS_SV_UNDEF }; A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_VAR, 0) && w->gdxDataWriteRaw(k, v) && w->gdxDataWriteDone(), "w"); w.close(); }
   static const int M[5] = { 1, 4, 3, 2, 0 }; Sess s; s.openR("f.gdx"); u64 cur[5], rd[5]; for (int i = 0; i < 5; i++) cur[i] = rd[i] = DEF[i];
   for (int step = 0; step < P("n", 3); step++) { int op = (int) symx_choice(3, "op"); double av[7] = {}; 
      if (op == 0) { A(s->gdxResetSpecialValues(), "reset"); for (int i = 0; i < 5; i++) cur[i] = rd[i] = DEF[i]; }
      else { u64 nv[5]; for (int i = 0; i < 5; i++) { nv[i] = (u64) step * 16 + i + 5 + (i < 2 ? symx_sym(64, "v") : 0); av[i] = dblOf(nv[i]); } if (op == 1) { A(s->gdxSetReadSpecialValues(av), "read values"); for (int i = 0; i < 5; i++) rd[i] = nv[i]; } else { bool dup = false; for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) dup |= nv[i] == nv[j]; symx_assume(!dup); A(s->gdxSetSpecialValues(av), "set"); for (int i = 0; i < 5; i++) cur[i] = rd[i] = nv[i]; } }
      int n, k[20], df; double v[5], g[7]; A(s->gdxDataReadRawStart(1, n) && s->gdxDataReadRaw(k, v, df) && s->gdxDataReadDone(), "r"); A(s->gdxGetSpecialValues(g), "g"); for (int i = 0; i < 5; i++) { A(bitsOf(v[i]) == rd[M[i]], "reading uses the values in force"); A(bitsOf(g[i]) == cur[i], "write values in force"); } }
   symx_cover("end");
}
// opening a file puts the defaults in force
ENTRY(c08_open) {
   Sess s; double av[7], g[7]; for (int i = 0; i < 5; i++) av[i] = 2.5 * i + 11; u64 b = symx_sym(64, "value"); av[2] = dblOf(b); for (int i = 0; i < 5; i++) symx_assume(i == 2 || bitsOf(av[i]) != b); A(s->gdxSetSpecialValues(av), "set"); int how = (int) symx_choice(3, "how"); { Sess w; w.openW("g.gdx"); w.close(); }
   if (how == 0) s.openW("f.gdx"); else if (how == 1) s.openR("g.gdx"); else s.openA("g.gdx"); A(s->gdxGetSpecialValues(g), "g"); for (int i = 0; i < 5; i++) A(bitsOf(g[i]) == DEF[i], "defaults after opening"); symx_cover("end");
}
