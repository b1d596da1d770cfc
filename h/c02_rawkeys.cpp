// C02: raw (integer key) writing keeps exactly the strictly increasing records, reports the others, and reading returns the same keys.
#include "gx.h"
static int cmpKey(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) { if (a[d] < b[d]) return -1; if (a[d] > b[d]) return 1; } return 0; }
static int firstDiff(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) if (a[d] != b[d]) return d + 1; return dim; }
static void typedVals(double *v, int r) { for (int f = 0; f < 5; f++) v[f] = 100 * r + f + 0.5; }
ENTRY(c02_keys) {
   int dim = P("dim", 1), n = P("n", 3), kb = P("kb", 0), cmp = P("cmp", 0), typ = P("typ", GMS_DT_PAR), rd = P("rd", 0), lowdims = P("lowdims", dim), bits = P("bits", 31);
   int mn[20], mx[20];
   for (int d = 0; d < dim; d++) {
      if (d < dim - lowdims) { mn[d] = 1; mx[d] = 500; continue; }
      if (kb) { mn[d] = symU("min", bits); mx[d] = symU("max", bits); symx_assume(mn[d] >= 1 && mn[d] <= mx[d] && mx[d] <= INT_MAX - 256);
                if (kb == 2) symx_assume(mx[d] - mn[d] <= 300); }
      else { mn[d] = 1; mx[d] = INT_MAX - 256; }
   }
   int k[16][20]; 
   for (int r = 0; r < n; r++) for (int d = 0; d < dim; d++) { if (d < dim - lowdims) { k[r][d] = 7 + d; continue; } k[r][d] = symU("key", bits); symx_assume(k[r][d] >= mn[d] && k[r][d] <= mx[d]); }
   int acc[16], na = 0, rej[16], nr = 0, firstErr = 0;
   Sess w; w.openW("f.gdx", cmp);
   A(kb ? w->gdxDataWriteRawStartKeyBounds("sym", "t", dim, typ, 0, mn, mx) : w->gdxDataWriteRawStart("sym", "t", dim, typ, 0), "start writing");
   for (int r = 0; r < n; r++) {
      double v[5]; typedVals(v, r);
      int ok = w->gdxDataWriteRaw(k[r], v), c = na ? cmpKey(k[r], k[acc[na - 1]], dim) : 1;
      A((ok != 0) == (c > 0), "a record is accepted exactly when its key is greater than the last accepted key");
      if (c > 0) acc[na++] = r; else { rej[nr++] = r; if (!firstErr) firstErr = c ? -100025 : -100009; }
   }
   A(w->gdxDataErrorCount() == nr && w->gdxErrorCount() == nr, "every rejected record is counted");
   for (int e = 0; e < nr; e++) {
      int kk[20]; double v[5], x[5]; A(w->gdxDataErrorRecord(e + 1, kk, v), "rejected record available"); typedVals(x, rej[e]);
      A(!cmpKey(kk, k[rej[e]], dim), "rejected record has its key"); for (int f = 0; f < nVals(typ); f++) A(v[f] == x[f], "rejected record has its values");
   }
   A(w->gdxDataWriteDone(), "write done");
   A(w->gdxGetLastError() == firstErr, "the first error is the one reported");
   w.close();
   Sess s; s.openR("f.gdx"); int cnt = -1, ui; char tx[256]; A(s->gdxSymbolInfoX(1, cnt, ui, tx) && cnt == na, "catalogue record count");
   A(s->gdxDataReadRawStart(1, cnt) && cnt == na, "start reading");
   for (int a = 0; a < na; a++) {
      int kk[20], df = -1; double v[5], x[5]; A(s->gdxDataReadRaw(kk, v, df), "record present"); typedVals(x, acc[a]);
      A(!cmpKey(kk, k[acc[a]], dim), "key read back"); for (int f = 0; f < nVals(typ); f++) A(v[f] == x[f], "values stay with their key");
      A(df == (a ? firstDiff(kk, k[acc[a - 1]], dim) : 1), "first changed dimension");
   }
   int kk[20], df; double v[5]; A(!s->gdxDataReadRaw(kk, v, df), "no extra record"); A(s->gdxErrorCount() == 0, "no read error"); s.close();
   symx_cover("end"); if (nr) symx_cover("rejected"); if (na > 1) symx_cover("accepted");
}
// the error list keeps the first records only, the error counters and the written data stay exact
ENTRY(c02_many_errors) {
   int n = P("n", 14); int k[32][1];
   Sess w; w.openW("f.gdx"); A(w->gdxDataWriteRawStart("sym", "t", 1, GMS_DT_PAR, 0), "start");
   int top[1] = { 1000 }; double v[5] = { 1 }; A(w->gdxDataWriteRaw(top, v), "first record");
   for (int r = 0; r < n; r++) { k[r][0] = symU("key", 31); symx_assume(k[r][0] >= 1 && k[r][0] < 1000); v[0] = r; A(!w->gdxDataWriteRaw(k[r], v), "unsorted record rejected"); }
   A(w->gdxErrorCount() == n, "all errors counted"); int ec = w->gdxDataErrorCount(); A(ec >= (n < 11 ? n : 11) && ec <= n, "at least the first eleven rejected records are kept");
   for (int e = 0; e < ec && e < 11; e++) { int kk[20]; A(w->gdxDataErrorRecord(e + 1, kk, v) && kk[0] == k[e][0] && v[0] == e, "error record content"); }
   int kk[20]; A(!w->gdxDataErrorRecord(0, kk, v) && !w->gdxDataErrorRecord(ec + 1, kk, v), "error record numbers outside the list are refused");
   int nx[1] = { 1001 }; v[0] = 5; A(w->gdxDataWriteRaw(nx, v), "writing goes on"); A(w->gdxDataWriteDone(), "done"); w.close();
   Sess s; s.openR("f.gdx"); int cnt, df; A(s->gdxDataReadRawStart(1, cnt) && cnt == 2, "only accepted records");
   A(s->gdxDataReadRaw(kk, v, df) && kk[0] == 1000 && v[0] == 1 && s->gdxDataReadRaw(kk, v, df) && kk[0] == 1001 && v[0] == 5 && !s->gdxDataReadRaw(kk, v, df), "content");
   symx_cover("end");
}
// a scalar holds one record
ENTRY(c02_scalar) {
   int typ = GMS_DT_PAR + (int) symx_choice(3, "type"); double x = symD("x"); symx_assume(belowAcr(bitsOf(x)));
   Sess w; w.openW("f.gdx"); A(w->gdxDataWriteRawStart("sym", "t", 0, typ, 0), "start"); double v[5] = { x, x, x, x, x }; int kk[20] = {}; A(w->gdxDataWriteRaw(kk, v), "scalar record"); A(w->gdxDataWriteDone(), "done"); w.close();
   Sess s; s.openR("f.gdx"); int cnt, df, ui; char tx[256]; A(s->gdxSymbolInfoX(1, cnt, ui, tx) && cnt == 1, "one record"); A(s->gdxDataReadRawStart(1, cnt) && cnt == 1 && s->gdxDataReadRaw(kk, v, df), "read");
   for (int f = 0; f < nVals(typ); f++) A(bitsOf(v[f]) == refStored(bitsOf(x)), "value"); A(!s->gdxDataReadRaw(kk, v, df), "single"); symx_cover("end");
}
