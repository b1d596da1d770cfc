// C01: numeric values survive a write/read cycle.
#include "gx.h"
// One symbol written by one of the three writers, read by one of the readers; an arbitrary value sits in field `fld`
// of record `rec`; the other fields and records hold fixed values that must come back unchanged as well.
static const double fixedV[5] = { 3.25, GMS_SV_EPS, -17.5, GMS_SV_PINF, 1e-30 };
ENTRY(c01_value) {
   int typ = P("typ", GMS_DT_PAR), wr = P("wr", 0), dim = P("dim", 1), cmp = P("cmp", 0), nrec = dim ? 3 : 1, rd = P("rd", 0);
   int nf = nVals(typ);
   int fld = (int) symx_choice((unsigned) nf, "field"), rec = (int) symx_choice((unsigned) nrec, "record");
   double x = symD("x"); symx_assume(belowAcr(bitsOf(x)));
   double y = 0; int fld2 = -1;
   if (P("two", 0) && nf > 1) { fld2 = (fld + 1 + (int) symx_choice((unsigned) nf - 1, "field2")) % nf; y = symD("y"); symx_assume(belowAcr(bitsOf(y))); }
   const char *labs[] = { "a", "b", "c", "d" };
   {
      Sess w; w.openW("f.gdx", cmp);
      if (wr == 0) regRaw(w, labs, 4);
      if (wr == 2) { A(w->gdxUELRegisterMapStart(), "map start"); for (int i = 0; i < 4; i++) A(w->gdxUELRegisterMap(10 + i, labs[i]), "map reg"); A(w->gdxUELRegisterDone(), "map done"); }
      A(wr == 0 ? w->gdxDataWriteRawStart("sym", "text", dim, typ, 0) : wr == 1 ? w->gdxDataWriteStrStart("sym", "text", dim, typ, 0) : w->gdxDataWriteMapStart("sym", "text", dim, typ, 0), "start writing");
      for (int r = 0; r < nrec; r++) {
         double v[5]; for (int f = 0; f < 5; f++) v[f] = fixedV[(f + r) % 5];
         if (r == rec) { v[fld] = x; if (fld2 >= 0) v[fld2] = y; }
         int k[20]; const char *ks[20]; for (int d = 0; d < dim; d++) { int e = d == dim - 1 ? r : 0; k[d] = wr == 2 ? 10 + e : e + 1; ks[d] = labs[e]; }
         A(wr == 0 ? w->gdxDataWriteRaw(k, v) : wr == 1 ? w->gdxDataWriteStr(ks, v) : w->gdxDataWriteMap(k, v), "record accepted");
      }
      A(w->gdxDataWriteDone(), "write done"); w.close();
   }
   Sess s; s.openR("f.gdx"); int n = -1, df = 0; KeyBuf kb;
   if (rd == 2) { A(s->gdxUELRegisterMapStart(), "map start"); for (int i = 0; i < 4; i++) A(s->gdxUELRegisterMap(10 + i, labs[i]), "map reg"); A(s->gdxUELRegisterDone(), "map done"); }
   A(rd == 0 ? s->gdxDataReadRawStart(1, n) : rd == 1 ? s->gdxDataReadStrStart(1, n) : s->gdxDataReadMapStart(1, n), "start reading");
   A(n == nrec, "record count");
   for (int r = 0; r < nrec; r++) {
      int k[20] = {}; double v[5] = {};
      A(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df), "record present");
      for (int f = 0; f < nf; f++) {
         double in = r == rec && f == fld ? x : r == rec && f == fld2 ? y : fixedV[(f + r) % 5];
         A(bitsOf(v[f]) == refStored(bitsOf(in)), "value read back equals value written");
      }
   }
   int k[20]; double v[5];
   A(!(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df)), "no extra record");
   A(s->gdxDataReadDone(), "read done");
   A(s->gdxErrorCount() == 0, "no error counted");
   s.close();
   symx_cover("end");
}
// An uninitialised scalar reads as the documented default record of its (sub)type.
ENTRY(c01_default) {
   int typ = P("typ", GMS_DT_VAR); int ui = symI("userinfo");
   { Sess w; w.openW("f.gdx", 0); A(w->gdxDataWriteRawStart("sym", "", 0, typ, ui), "start"); A(w->gdxDataWriteDone(), "done"); w.close(); }
   Sess s; s.openR("f.gdx"); int n, df = 9; int k[20]; double v[5] = { 7, 7, 7, 7, 7 }; int rd = (int) symx_choice(3, "reader");
   A(rd == 0 ? s->gdxDataReadRawStart(1, n) : rd == 1 ? s->gdxDataReadStrStart(1, n) : s->gdxDataReadMapStart(1, n), "start reading"); A(n == 1, "scalar counts one record");
   KeyBuf kb; A(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df), "default record present");
   A(df == 0, "default record first dimension");
   if (typ == GMS_DT_PAR) A(v[0] == 0.0, "default level of a parameter");
   else {
      double lo = 0, up = 0;
      if (typ == GMS_DT_VAR) switch (ui) {
         case GMS_VARTYPE_BINARY: up = 1; break;
         case GMS_VARTYPE_INTEGER: case GMS_VARTYPE_POSITIVE: case GMS_VARTYPE_SOS1: case GMS_VARTYPE_SOS2: up = GMS_SV_PINF; break;
         case GMS_VARTYPE_NEGATIVE: lo = GMS_SV_MINF; break;
         case GMS_VARTYPE_FREE: lo = GMS_SV_MINF; up = GMS_SV_PINF; break;
         case GMS_VARTYPE_SEMICONT: case GMS_VARTYPE_SEMIINT: lo = 1; up = GMS_SV_PINF; break;
         default: break;
      }
      else switch (ui - GMS_EQU_USERINFO_BASE) {
         case GMS_EQUTYPE_G: case GMS_EQUTYPE_C: up = GMS_SV_PINF; break;
         case GMS_EQUTYPE_L: lo = GMS_SV_MINF; break;
         case GMS_EQUTYPE_N: lo = GMS_SV_MINF; up = GMS_SV_PINF; break;
         default: break;
      }
      A(v[0] == 0.0 && v[1] == 0.0 && v[2] == lo && v[3] == up && v[4] == 1.0, "default record of the subtype");
   }
   A(!(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df)), "no extra record");
   symx_cover("end");
}
