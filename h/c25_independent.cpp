// C25: symbols, reads and handles do not influence each other.
#include "gx.h"
static const char *LB[4] = { "a", "Bb", "c", "Dd4" };
// one step of a writing session on handle w; returns false when the session is over
struct WS { Sess s; const char *fn; int st = 0, var; double v; WS(const char *f, int vr, double x) : fn(f), var(vr), v(x) {} };
static bool wstep(WS &w) {
   const char *k[2]; double x[5] = { w.v, 2, 3, 4, 5 }; int nr;
   switch (w.st++) {
      case 0: w.s.openW(w.fn, 0); return true;
      case 1: A(w.s->gdxUELRegisterStrStart(), "register"); A(w.s->gdxUELRegisterStr(LB[w.var], nr) && w.s->gdxUELRegisterStr("zz", nr), "label"); A(w.s->gdxUELRegisterDone(), "done"); return true;
      case 2: A(w.s->gdxAddSetText(w.var ? "text one" : "other text", nr) && w.s->gdxDataWriteStrStart(w.var ? "s1" : "sym", "expl", 1, GMS_DT_SET, 0), "set"); k[0] = LB[w.var]; x[0] = nr; A(w.s->gdxDataWriteStr(k, x), "element"); k[0] = LB[3]; x[0] = 0; A(w.s->gdxDataWriteStr(k, x), "element"); return true;
      case 3: A(w.s->gdxDataWriteDone(), "done"); return true;
      case 4: A(w.s->gdxDataWriteStrStart("p", w.var ? "one" : "two", 2, GMS_DT_VAR, 3 + w.var), "variable"); if (w.var) { k[0] = "*"; k[1] = "s1"; A(w.s->gdxSymbolSetDomain(k), "domain"); } return true;
      case 5: k[0] = LB[2]; k[1] = LB[w.var]; A(w.s->gdxDataWriteStr(k, x), "record"); return true;
      case 6: k[0] = LB[1]; k[1] = w.var ? "zz" : LB[3]; A(w.s->gdxDataWriteStr(k, x), "record"); A(w.s->gdxDataWriteDone(), "done"); A(w.s->gdxErrorCount() == w.var, "own errors only"); return true;
      case 7: A(w.s->gdxAddAlias(w.var ? "s1" : "sym", "al"), "alias"); A(w.s->gdxSymbolAddComment(1, w.var ? "remark" : "note"), "comment"); return true;
      case 8: w.s.close(); return false;
   } return false;
}
ENTRY(c25_writers) {   // two files written at the same time, every interleaving of the steps: each file is what it would be alone
   double a = symV("a"), b = symV("b"); { WS x("ra.gdx", 0, a), y("rb.gdx", 1, b); while (wstep(x)); while (wstep(y)); }
   WS x("fa.gdx", 0, a), y("fb.gdx", 1, b); bool xm = true, ym = true; int sw = 0, last = 0, lim = P("switches", 3);
   while (xm || ym) { int t = !ym ? 0 : !xm ? 1 : sw >= lim ? last : (int) symx_choice(2, "who"); if (t != last) { sw++; last = t; } if (t == 0) xm = wstep(x); else ym = wstep(y); }
   auto p = fileBytes("fa.gdx"), q = fileBytes("ra.gdx"); A(p.size() == q.size(), "first file size"); for (size_t i = 0; i < p.size(); i++) A(p[i] == q[i], "first file is what it would be alone");
   p = fileBytes("fb.gdx"); q = fileBytes("rb.gdx"); A(p.size() == q.size(), "second file size"); for (size_t i = 0; i < p.size(); i++) A(p[i] == q[i], "second file is what it would be alone"); symx_cover("end");
}
// the file used for reading: three symbols of different type and dimension, aliases, texts
struct D { int k[3]; double v[5]; };
static std::vector<D> dat[4]; static const int DM[4] = { 1, 2, 1, 0 }, TY[4] = { GMS_DT_SET, GMS_DT_PAR, GMS_DT_EQU, GMS_DT_VAR };
static void build(const char *fn, int cmp, int bulk) {
   Sess w; w.openW(fn, cmp); int nl = bulk > 4 ? bulk : 4; A(w->gdxUELRegisterRawStart(), "start"); for (int i = 0; i < nl; i++) A(w->gdxUELRegisterRaw(i < 4 ? LB[i] : lab(i).c_str()), "label"); A(w->gdxUELRegisterDone(), "done"); static const char *nm[4] = { "s", "p", "e", "z" };
   for (int y = 0; y < 4; y++) { dat[y].clear(); A(w->gdxDataWriteRawStart(nm[y], "", DM[y], TY[y], 0), "start"); int n = DM[y] == 0 ? 1 : y == 1 && bulk ? bulk : 3; for (int r = 0; r < n; r++) { D d = {}; d.k[0] = y == 1 && bulk ? r + 1 : DM[y] == 2 ? 1 + r / 2 : r + 1; d.k[1] = DM[y] == 2 ? 1 + r % 2 : 0; for (int f = 0; f < nVals(TY[y]); f++) d.v[f] = f || r > 2 ? 10 * y + r + f : TY[y] == GMS_DT_SET ? 0 : symV("v"); A(w->gdxDataWriteRaw(d.k, d.v), "write"); dat[y].push_back(d); } A(w->gdxDataWriteDone(), "done"); }
   A(w->gdxAddAlias("s", "al"), "alias"); w.close();
}
static void oneRead(Sess &s, int y, int how, int stop) { // read symbol y+1 by method `how`, the first `stop` records only when stop >= 0
   int n = -1, fd, kk[20], i = 0; double v[5]; KeyBuf kb; std::vector<D> sel; for (auto &d : dat[y]) if (how != 3 || ((DM[y] < 1 || d.k[0] <= 2) && (DM[y] < 2 || d.k[1] <= 2))) sel.push_back(d);   // filter 5 holds the first two labels
   int m = (int) sel.size(), act[20]; for (int &q : act) q = 5;
   if (how == 0) A(s->gdxDataReadRawStart(y + 1, n) && n == m, "raw start"); else if (how == 1) A(s->gdxDataReadStrStart(y + 1, n) && n == m, "string start"); else A(how == 2 ? s->gdxDataReadMapStart(y + 1, n) : s->gdxDataReadFilteredStart(y + 1, act, n), "map start");
   while (stop < 0 || i < stop) { int ok = how == 0 ? s->gdxDataReadRaw(kk, v, fd) : how == 1 ? s->gdxDataReadStr(kb.p, v, fd) : s->gdxDataReadMap(0, kk, v, fd); if (!ok) break; A(i < m, "no extra record"); D &d = sel[i++]; { int e = DM[y] ? 1 : 0; if (i > 1) { e = 0; for (int q = DM[y]; q-- > 0;) if (d.k[q] != sel[i - 2].k[q]) e = q + 1; } if (DM[y]) A(fd == e, "first changed dimension"); }
      for (int q = 0; q < DM[y]; q++) if (how == 1) A(d.k[q] > 4 || eqs(kb.s[q], LB[d.k[q] - 1]), "label"); else A(kk[q] == d.k[q], "key"); for (int f = 0; f < nVals(TY[y]); f++) A(bitsOf(v[f]) == bitsOf(d.v[f]), "value"); }
   if (stop < 0) { A(i == m, "all records"); A((s->gdxDataErrorCount() > 0) == (m < (int) dat[y].size()), "the records rejected by this read are listed, no others"); A(s->gdxDataReadDone(), "done"); } else if (symx_choice(2, "finish")) A(s->gdxDataReadDone(), "done");
}
static void mapAll(Sess &s, int nl) { A(s->gdxUELRegisterMapStart(), "map"); for (int i = 0; i < nl; i++) A(s->gdxUELRegisterMap(i + 1, i < 4 ? LB[i] : lab(i).c_str()), "map"); A(s->gdxUELRegisterDone(), "done"); }
// the records of a symbol do not depend on what was read before: every sequence of complete and abandoned reads
ENTRY(c25_reads) {
   int n = P("n", 3), bulk = P("bulk", 0); build("f.gdx", P("cmp", 0), bulk); Sess s; s.openR("f.gdx"); mapAll(s, bulk > 4 ? bulk : 4); A(s->gdxFilterRegisterStart(5) && s->gdxFilterRegister(1) && s->gdxFilterRegister(2) && s->gdxFilterRegisterDone(), "filter");
   for (int i = 0; i < n; i++) { int y = (int) symx_choice(4, "symbol"), how = (int) symx_choice(4, "method"), st = i == n - 1 ? -1 : (int) symx_choice(3, "stop") - 1; if (st == 1 && DM[y] == 0) st = 0; oneRead(s, y, how, st == -1 ? -1 : st); }
   A(s->gdxErrorCount() == 0, "no error"); s.close(); symx_cover("end");
}
// two handles reading different files (or the same one) and one writing, record by record in every order
ENTRY(c25_handles) {
   int n = P("n", 5), same = P("same", 0); build("f.gdx", 0, 0); auto d1 = dat[1], e1 = dat[2]; Sess w; w.openW("w.gdx", P("cmp", 0)); A(w->gdxDataWriteStrStart("q", "", 1, GMS_DT_PAR, 0), "start");
   if (!same) { vfs_put("g.gdx", vfs_data("f.gdx"), vfs_size("f.gdx")); } Sess a, b; a.openR("f.gdx"); b.openR(same ? "f.gdx" : "g.gdx"); int c, fd, kk[20], ia = 0, ib = 0, iw = 0; double v[5]; KeyBuf kb; A(a->gdxDataReadRawStart(2, c) && b->gdxDataReadStrStart(3, c), "start");
   for (int i = 0; i < n; i++) switch (symx_choice(3, "who")) {
      case 0: if (a->gdxDataReadRaw(kk, v, fd)) { A(ia < 3 && kk[0] == d1[ia].k[0] && kk[1] == d1[ia].k[1] && bitsOf(v[0]) == bitsOf(d1[ia].v[0]), "record of the first reader"); ia++; } else { A(ia == 3, "all records of the first reader"); ia = 0; A(a->gdxDataReadRawStart(2, c), "again"); } break;
      case 1: if (b->gdxDataReadStr(kb.p, v, fd)) { A(ib < 3 && eqs(kb.s[0], LB[e1[ib].k[0] - 1]), "label of the second reader"); for (int f = 0; f < 5; f++) A(bitsOf(v[f]) == bitsOf(e1[ib].v[f]), "values of the second reader"); ib++; } else { A(ib == 3, "all records of the second reader"); ib = 0; A(b->gdxDataReadStrStart(3, c), "again"); } break;
      default: { std::string l = lab(iw); const char *k[1] = { l.c_str() }; double x[5] = { 100.0 + iw }; A(w->gdxDataWriteStr(k, x), "write"); iw++; }
   }
   A(w->gdxDataWriteDone(), "done"); w.close(); a.close(); b.close(); Sess r; r.openR("w.gdx"); A(r->gdxDataReadStrStart(1, c) && c == iw, "records written"); for (int i = 0; i < iw; i++) A(r->gdxDataReadStr(kb.p, v, fd) && eqs(kb.s[0], lab(i).c_str()) && v[0] == 100.0 + i, "record written"); A(!r->gdxDataReadStr(kb.p, v, fd), "end"); symx_cover("end");
}
// a handle with a long session, stopped anywhere, while another one carries out any part of another session: all results and the file are as without it
struct TLog { std::vector<u64> v; std::vector<std::string> t; void i(long x) { v.push_back((u64) x); } void d(double x) { v.push_back(bitsOf(x)); } void s(const char *x) { t.push_back(x); } };
static TLog *tl; static void ncb(const int *k, const double *v) { tl->i(k[0]); tl->d(v[0]); } static void nel(int r, int m, void *) { tl->i(r); tl->i(m); } static int ncf(const int *k, const double *v, void *) { ncb(k, v); return 1; }
struct NS { Sess *s; int kind, st = 0; std::string fn; TLog L; double val; int cmp; NS(int k, const char *f, double v, int c) : s(new Sess), kind(k), fn(f), val(v), cmp(c) {} ~NS() { delete s; } NS(const NS &) = delete;
   void state() { Sess &g = *s; L.i(g->gdxErrorCount()); L.i(g->gdxDataErrorCount()); char m[256]; int e = g->gdxGetLastError(); L.i(e); g->gdxErrorStr(e, m); L.s(m); L.i(g->gdxCurrentDim()); int sc = 0, uc = 0; L.i(g->gdxSystemInfo(sc, uc)); L.i(sc); L.i(uc); L.i(g->gdxAcronymCount()); double sv[7]; g->gdxGetSpecialValues(sv); for (int q = 0; q < 5; q++) L.d(sv[q]); L.i(g->gdxUELMaxLength()); int a, b; L.i(g->gdxUMUelInfo(a, b)); L.i(a); L.i(b); L.i(g->gdxSymbMaxLength()); L.i(g->gdxStoreDomainSets()); L.i(g->gdxMapAcronymsToNaN()); L.i(g->gdxAllowBogusDomains()); }
   bool step() { Sess &g = *s; tl = &L; int k[20], n = 0, ec = 0, fd = 0; double v[7] = { val, 2, 3, 4, 5 }; KeyBuf kb; const char *ks[2] = { "a", "b" };
      if (kind == 0) switch (st++) { // writing with domain errors, duplicates, acronyms, special values
         case 0: g->gdxAutoConvert(0); L.i(g->gdxOpenWriteEx(fn.c_str(), "harness", cmp, ec)); return true;
         case 1: L.i(g->gdxUELRegisterRawStart()); for (int i = 1; i <= 16; i++) L.i(g->gdxUELRegisterRaw(lab(i).c_str())); L.i(g->gdxUELRegisterDone()); return true;
         case 2: L.i(g->gdxAddSetText("a text", n)); L.i(n); L.i(g->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0)); for (k[0] = 1; k[0] < 4; k[0]++) { v[0] = k[0] == 2 ? n : 0; L.i(g->gdxDataWriteRaw(k, v)); } L.i(g->gdxDataWriteDone()); return true;
         case 3: { const char *d[1] = { "i" }; L.i(g->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0)); L.i(g->gdxSymbolSetDomain(d)); k[0] = 1; L.i(g->gdxDataWriteRaw(k, v)); k[0] = 5; L.i(g->gdxDataWriteRaw(k, v)); return true; }
         case 4: for (k[0] = 6; k[0] < 10; k[0]++) L.i(g->gdxDataWriteRaw(k, v)); return true;
         case 5: for (k[0] = 10; k[0] < 14; k[0]++) L.i(g->gdxDataWriteRaw(k, v)); L.i(g->gdxDataErrorCount()); return true;
         case 6: L.i(g->gdxDataWriteDone()); n = g->gdxDataErrorCount(); L.i(n); for (int e = 1; e <= n; e++) { L.i(g->gdxDataErrorRecordX(e, k, v)); L.i(k[0]); L.d(v[0]); } return true;
         case 7: { double sv[7]; g->gdxGetSpecialValues(sv); sv[0] = 77; L.i(g->gdxSetSpecialValues(sv)); L.i(g->gdxDataWriteStrStart("q", "", 2, GMS_DT_VAR, 2)); v[1] = 77; v[2] = g->gdxAcronymValue(3); L.i(g->gdxDataWriteStr(ks, v)); return true; }
         case 8: ks[0] = "new"; L.i(g->gdxDataWriteStr(ks, v)); L.i(g->gdxDataWriteStr(ks, v)); ks[1] = "zz"; L.i(g->gdxDataWriteStr(ks, v)); return true;
         case 9: L.i(g->gdxDataWriteDone()); L.i(g->gdxAddAlias("i", "ii")); L.i(g->gdxSymbolAddComment(1, "remark")); { const char *d[2] = { "dd", "ee" }; L.i(g->gdxSymbolSetDomainX(3, d)); } L.i(g->gdxRenameUEL("u4", "four")); return true;
         default: L.i(g->gdxClose()); return false;
      } else switch (st++) { // reading in all styles
         case 0: L.i(g->gdxOpenRead(fn.c_str(), ec)); return true;
         case 1: L.i(g->gdxUELRegisterMapStart()); L.i(g->gdxUELRegisterMap(9, "Bb")); L.i(g->gdxUELRegisterMap(4, "a")); L.i(g->gdxUELRegisterDone()); L.i(g->gdxFilterRegisterStart(2)); L.i(g->gdxFilterRegister(9)); L.i(g->gdxFilterRegisterDone()); return true;
         case 2: { int f[20] = { 0, -1 }; L.i(g->gdxDataReadFilteredStart(2, f, n)); L.i(n); L.i(g->gdxDataReadMap(0, k, v, fd)); L.i(k[0]); L.i(k[1]); L.d(v[0]); return true; }
         case 3: while (g->gdxDataReadMap(0, k, v, fd)) { L.i(k[0]); L.i(k[1]); L.d(v[0]); L.i(fd); } L.i(g->gdxDataReadDone()); return true;
         case 4: { int f[20] = { 2 }; L.i(g->gdxDataReadFilteredStart(3, f, n)); while (g->gdxDataReadMap(0, k, v, fd)) { L.i(k[0]); L.d(v[0]); L.d(v[3]); } return true; }
         case 5: n = g->gdxDataErrorCount(); L.i(n); for (int e = 1; e <= n; e++) { L.i(g->gdxDataErrorRecord(e, k, v)); L.i(k[0]); } L.i(g->gdxDataReadDone()); return true;
         case 6: L.i(g->gdxDataReadStrStart(2, n)); L.i(g->gdxDataReadStr(kb.p, v, fd)); L.s(kb.s[0]); L.s(kb.s[1]); L.d(v[0]); return true;
         case 7: while (g->gdxDataReadStr(kb.p, v, fd)) { L.s(kb.s[0]); L.s(kb.s[1]); L.d(v[0]); L.i(fd); } L.i(g->gdxDataReadDone()); return true;
         case 8: L.i(g->gdxDataReadSliceStart(2, k)); L.i(k[0]); L.i(k[1]); return true;
         case 9: { const char *f[2] = { "", "Bb" }; L.i(g->gdxDataReadSlice(f, n, ncb)); L.i(n); int q[20] = { 0 }; L.i(g->gdxDataSliceUELS(q, kb.p)); L.s(kb.s[0]); L.s(kb.s[1]); L.i(g->gdxDataReadDone()); return true; }
         case 10: { const char *f[2] = { "a", "" }; L.i(g->gdxDataReadRawFastFilt(2, f, ncf)); L.i(g->gdxGetDomainElements(2, 2, -1, nel, n, nullptr)); L.i(n); L.i(g->gdxDataReadRawFast(3, ncb, n)); L.i(g->gdxSymbIndxMaxLength(2, k)); L.i(k[0]); return true; }
         default: L.i(g->gdxClose()); return false;
      } } };
ENTRY(c25_nested) {
   int ka = P("a", 0), kb = P("b", 0), cmp = P("cmp", 0); build("f.gdx", 0, 0); double va = symV("a"), vb = symV("b"); TLog ref; std::vector<unsigned char> rb; bool set = P("set", 0);
   { NS x(ka, ka ? "f.gdx" : "x.gdx", va, cmp); while (x.step()) x.state(); x.state(); ref = x.L; if (!ka) rb = fileBytes("x.gdx"); }
   int stop = (int) symx_choice(12, "stopped after"), part = (int) symx_choice(13, "steps of the other"), ending = (int) symx_choice(3, "then"); bool alive = true;
   NS x(ka, ka ? "f.gdx" : "x.gdx", va, cmp); for (int i = 0; alive && i < stop; i++) { alive = x.step(); x.state(); }
   { NS *y = new NS(kb, kb ? "f.gdx" : "y.gdx", vb, cmp); if (set) { (*y->s)->gdxStoreDomainSetsSet(0); (*y->s)->gdxMapAcronymsToNaNSet(1); (*y->s)->gdxAllowBogusDomainsSet(0); } for (int i = 0; i < part && y->step(); i++) y->state(); if (ending == 1) (*y->s)->gdxClose(); if (ending != 2) { delete y; y = nullptr; }
     while (alive) { alive = x.step(); x.state(); if (y) { y->step(); y->state(); } } if (stop && !alive && x.L.v.size() < ref.v.size()) x.state(); delete y; }
   A(x.L.v.size() == ref.v.size() && x.L.t.size() == ref.t.size(), "as many results"); bool eq = true; for (size_t j = 0; j < ref.v.size(); j++) eq &= ref.v[j] == x.L.v[j]; A(eq, "the results are those without the other handle"); for (size_t j = 0; j < ref.t.size(); j++) A(ref.t[j] == x.L.t[j], "so are the texts");
   if (!ka) { auto b = fileBytes("x.gdx"); A(b.size() == rb.size(), "file size"); eq = true; for (size_t j = 0; j < b.size() && !cmp; j++) eq &= b[j] == rb[j]; A(eq, "the file is what it would be alone"); } symx_cover("end");
}
// symbols written one after the other in one session: what happened to one (method, dimension, domain, rejected records) leaves no trace in the next
ENTRY(c25_symbols) {
   int n = P("n", 2), cmp = P("cmp", 0), c, df, k[20]; double v[5] = {}; struct Y { int dim, typ, how, err; std::vector<D> good; }; std::vector<Y> ys;
   { Sess w; w.openW("f.gdx", cmp); A(w->gdxUELRegisterMapStart(), "map"); for (int i = 0; i < 4; i++) A(w->gdxUELRegisterMap(i + 1, LB[i]), "map"); A(w->gdxUELRegisterDone(), "done");
     A(w->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0), "set"); for (k[0] = 1; k[0] <= 2; k[0]++) A(w->gdxDataWriteRaw(k, v), "element"); A(w->gdxDataWriteDone(), "done"); int errs = 0;
     for (int s = 0; s < n; s++) {
        Y y; y.how = (int) symx_choice(3, "method"); y.err = (int) symx_choice(4, "kind"); y.dim = 1 + (int) symx_choice(2, "dimension"); y.typ = s & 1 ? GMS_DT_PAR : GMS_DT_VAR; std::string nm = "x" + std::to_string(s);   // kind: 0 clean, 1 a key twice, 2 outside of the domain, 3 a domain and clean
        A(y.how == 0 ? w->gdxDataWriteRawStart(nm.c_str(), "", y.dim, y.typ, 0) : y.how == 1 ? w->gdxDataWriteStrStart(nm.c_str(), "", y.dim, y.typ, 0) : w->gdxDataWriteMapStart(nm.c_str(), "", y.dim, y.typ, 0), "start");
        A(w->gdxDataErrorCount() == 0, "a new symbol has no rejected records"); const char *dm[2] = { y.dim == 1 ? "i" : "*", "i" }; if (y.err >= 2) A(w->gdxSymbolSetDomain(dm), "domain");
        static const int KS[4][3] = { { 1, 3, 0 }, { 1, 3, 3 }, { 1, 3, 4 }, { 1, 2, 0 } }; D bad = {}; int nb = 0;
        for (int r = 0; r < 3; r++) { int e = KS[y.err][r]; if (!e) continue; D d = {}; d.k[0] = y.dim == 1 ? e : 3; d.k[1] = y.dim == 2 ? e : 0; for (int f = 0; f < nVals(y.typ); f++) d.v[f] = f ? 10 * s + r + f : symV("v"); bool ok = !(y.err == 1 && r == 2) && !(y.err == 2 && r > 0); const char *ks[2] = { LB[d.k[0] - 1], d.k[1] ? LB[d.k[1] - 1] : "" };
           int rc = y.how == 0 ? w->gdxDataWriteRaw(d.k, d.v) : y.how == 1 ? w->gdxDataWriteStr(ks, d.v) : w->gdxDataWriteMap(d.k, d.v); A(y.how ? rc : (rc != 0) == ok, "written"); if (ok) y.good.push_back(d); else { if (!nb) bad = d; nb++; } }
        A(w->gdxDataWriteDone(), "done"); A(w->gdxDataErrorCount() == nb, "the rejected records of this symbol"); if (nb) { double q[5]; A(w->gdxDataErrorRecord(1, k, q) && k[0] == bad.k[0] && (y.dim == 1 || k[1] == bad.k[1]), "key of the rejected record"); for (int f = 0; f < nVals(y.typ); f++) A(bitsOf(q[f]) == bitsOf(bad.v[f]), "values of the rejected record"); } ys.push_back(y);
     }
     w->gdxGetLastError(); w.close(); }
   Sess s; s.openR("f.gdx"); for (int j = 0; j < n; j++) { Y &y = ys[j]; int ui, ds[20]; char t[256]; A(s->gdxDataReadRawStart(j + 2, c) && c == (int) y.good.size(), "records of the symbol"); for (auto &d : y.good) { A(s->gdxDataReadRaw(k, v, df), "record"); for (int q = 0; q < y.dim; q++) A(k[q] == d.k[q], "key"); for (int f = 0; f < nVals(y.typ); f++) A(bitsOf(v[f]) == bitsOf(d.v[f]), "value"); } A(!s->gdxDataReadRaw(k, v, df) && s->gdxDataReadDone(), "end");
      A(s->gdxSymbolInfoX(j + 2, c, ui, t) && c == (int) y.good.size(), "count in the catalogue"); A(s->gdxSymbolGetDomain(j + 2, ds) && ds[0] == (y.err >= 2 && y.dim == 1) && (y.dim == 1 || ds[1] == (y.err >= 2)), "own domain"); }
   symx_cover("end");
}
