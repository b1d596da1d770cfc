// C21: gdxdiff compares two files and its result, output and difference file are exactly the differences.
// Two files are built from arbitrary choices; the expected result is computed from what was written to them.
#include "tool.h"
#include <map>
struct R { std::vector<int> k; double v[5]; int txt; };          // labels by number, values, text choice
static const char *LB[] = { "a", "b", "c", "d" };
static const char *TX[] = { "", "one", "two" };
struct F { int typ, dim, sub; bool has; std::vector<R> r; const char *dom; };
static void build(const char *fn, const F &f, const char *name, int order, bool other, const std::vector<std::string> &acr = {}, int first = 1) {
   Sess w; w.openW(fn); for (size_t i = 0; i < acr.size(); i++) A(w->gdxAcronymAdd(acr[i].c_str(), "", first + (int) i) >= 0, "acronym");
   const char *u[4]; for (int i = 0; i < 4; i++) u[i] = LB[order ? 3 - i : i];
   if (order != 2) regRaw(w, u, 4);
   if (other) { A(w->gdxDataWriteStrStart("other", "", 0, GMS_DT_PAR, 0), "start"); const char *k[20]; double v[5] = { 4.5 }; A(w->gdxDataWriteStr(k, v), "record"); A(w->gdxDataWriteDone(), "done"); }
   if (f.has) {
      A(w->gdxDataWriteStrStart(name, "text", f.dim, f.typ, f.sub), "start");
      for (auto &q : f.r) { const char *k[20]; for (int d = 0; d < f.dim; d++) k[d] = LB[q.k[d]]; double v[5]; memcpy(v, q.v, sizeof v);
         if (f.typ == GMS_DT_SET) { int nd = 0; if (q.txt) A(w->gdxAddSetText(TX[q.txt], nd), "text"); v[0] = nd; }
         A(w->gdxDataWriteStr(k, v), "record"); }
      A(w->gdxDataWriteDone(), "done");
      if (f.dom) { const char *d[20]; for (int i = 0; i < f.dim; i++) d[i] = f.dom; int nr; A(w->gdxFindSymbol(name, nr), "find"); A(w->gdxSymbolSetDomainX(nr, d), "relaxed domain"); }
   }
   w.close();
}
static int svOf(double v) { u64 b = bitsOf(v); return b == B_UNDEF ? 1 : b == B_NA ? 2 : b == B_PINF ? 3 : b == B_MINF ? 4 : b == B_EPS ? 5 : 0; }
static double absd(double x) { return dblOf(bitsOf(x) & 0x7fffffffffffffffull); }
static std::map<u64, std::string> ANM[2];   // names of the acronym values of either file
static bool same(double a, double b, double eps, double rel) {
   if (!ANM[0].empty() && ANM[0].count(bitsOf(a)) && ANM[1].count(bitsOf(b))) return ANM[0][bitsOf(a)] == ANM[1][bitsOf(b)];
   int s = svOf(a), t = svOf(b);
   if (!s && !t) { double d = absd(a - b); if (d <= eps) return true; double m = absd(a) <= absd(b) ? absd(a) : absd(b); return rel > 0 && d / (1 + m) <= rel; }
   if (s && t) return s == t;
   return (s ? s : t) == 5 && eps > 0 && absd(s ? b : a) <= eps;
}
// values by choice (special ones included) or arbitrary
static double pick(const char *n, long kinds) {
   static const double V[] = { 1.0, 0.0, GMS_SV_EPS, 1.25, -1.0, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, 1.5, GMS_SV_UNDEF, 0.0625, 24.0, 30.25, 30.375, -24.0, -2.0 };
   if (!kinds) return dblOf(0x3ff0000000000000ull | (symx_sym(8, n) << 44));  // 1 .. 2 in steps of 1/256
   return V[symx_choice((unsigned) kinds, n)];
}
struct Opt { double eps = 0, rel = 0; int field = -1; bool fldonly = false, diffonly = false, cmpdef = false, settext = true, cmpdom = false; std::vector<std::string> arg; };
static const char *FN[] = { "Level", "Marginal", "Lower", "Upper", "Scale" };
typedef std::map<std::vector<std::string>, std::vector<std::string>> DM;
static std::string vs(double v) { char b[40]; snprintf(b, sizeof b, "%016lx", (unsigned long) bitsOf(v)); return b; }
struct Exp { std::vector<std::string> key; double v[5]; std::string txt; };
static void defRec(int typ, int sub, double *d) {
   for (int i = 0; i < 5; i++) d[i] = 0; if (typ != GMS_DT_VAR && typ != GMS_DT_EQU) return;
   int vt = sub; if (typ == GMS_DT_VAR) { const double *q = gmsDefRecVar[vt >= 0 && vt < GMS_VARTYPE_MAX ? vt : GMS_VARTYPE_UNKNOWN]; for (int i = 0; i < 5; i++) d[i] = q[i]; }
   else { const double *q = gmsDefRecEqu[vt >= GMS_EQU_USERINFO_BASE && vt - GMS_EQU_USERINFO_BASE < GMS_EQUTYPE_MAX ? vt - GMS_EQU_USERINFO_BASE : GMS_EQUTYPE_E]; for (int i = 0; i < 5; i++) d[i] = q[i]; }
}
static void verify(const F &f1, const F &f2, const Opt &o, const char *name, bool skipped, const char *diff = "d.gdx") {
   std::vector<std::string> args = { "a.gdx", "b.gdx", diff }; for (auto &s : o.arg) args.push_back(s);
   ToolRun t = runTool(args);
   // expectation
   std::vector<Exp> ex; int ins = 0, dif = 0; std::string st; bool ve = f1.typ == GMS_DT_VAR || f1.typ == GMS_DT_EQU; bool comparable = f1.has && f2.has && f1.typ == f2.typ && f1.dim == f2.dim && !skipped;
   bool domdiff = comparable && o.cmpdom && f1.dim > 0 && (!f1.dom != !f2.dom || (f1.dom && !eqs(f1.dom, f2.dom)));
   auto act = [&](int q) { return o.field < 0 || o.field == q; };
   auto add = [&](const R &q, const char *a, int fld) { Exp e; for (int k : q.k) e.key.push_back(LB[k]); if (fld >= 0) e.key.push_back(FN[fld]); e.key.push_back(a); for (int i = 0; i < 5; i++) e.v[i] = 0;
      if (f1.typ == GMS_DT_SET) e.txt = TX[q.txt]; else if (fld >= 0) e.v[0] = q.v[fld]; else if (o.fldonly && ve) e.v[0] = q.v[o.field]; else for (int i = 0; i < (ve ? 5 : 1); i++) e.v[i] = q.v[i]; ex.push_back(e); };
   if (!skipped) {
      if (!f1.has && f2.has) st = "Symbol not found in file 1"; else if (f1.has && !f2.has) st = "Symbol not found in file 2";
      else if (f1.has && f2.has && f1.typ != f2.typ) st = "Types are different"; else if (f1.has && f2.has && f1.dim != f2.dim) st = "Dimensions are different"; else if (domdiff) st = "Domains are different";
   }
   if (comparable && !domdiff) {
      double def[5]; defRec(f1.typ, f1.sub, def);
      auto one = [&](const R &q, const char *a) {
         bool isdef = f1.typ != GMS_DT_SET; for (int i = 0; i < (ve ? 5 : 1) && isdef; i++) if ((!ve || act(i)) && !same(q.v[i], def[i], o.eps, o.rel)) isdef = false;
         if (isdef && !o.cmpdef) return; ins++;
         if (o.diffonly && ve) { for (int i = 0; i < 5; i++) if (act(i)) add(q, a, i); } else add(q, a, -1); };
      for (auto &p : f1.r) { const R *m = nullptr; for (auto &q : f2.r) if (q.k == p.k) m = &q;
         if (!m) { one(p, "ins1"); continue; }
         if (f1.typ == GMS_DT_SET) { if (o.settext && p.txt != m->txt) { dif++; add(p, "dif1", -1); add(*m, "dif2", -1); } continue; }
         bool eq = true; std::vector<int> fl; for (int i = 0; i < (ve ? 5 : 1); i++) if ((!ve || act(i)) && !same(p.v[i], m->v[i], o.eps, o.rel)) { eq = false; fl.push_back(i); }
         if (eq) continue; dif++;
         if (o.diffonly && ve) for (int i : fl) { add(p, "dif1", i); add(*m, "dif2", i); } else { add(p, "dif1", -1); add(*m, "dif2", -1); } }
      for (auto &q : f2.r) { bool in = false; for (auto &p : f1.r) if (p.k == q.k) in = true; if (!in) one(q, "ins2"); }
   }
   if ((ins || dif) && f1.dim + (o.diffonly && ve ? 2 : 1) > 20) { st = "Dim >= maxdim & different"; ins = dif = 0; }
   bool differs = !st.empty() || ins || dif;
   A(t.rc == (differs ? 1 : 0), "gdxdiff ends with the code that says whether the files differ");
   A(has(t.out, "No differences found") == !differs && has(t.out, "Summary of differences") == differs, "gdxdiff prints whether there are differences");
   bool k = has(t.out, std::string(name) + "   Keys are different"), d = has(t.out, std::string(name) + "   Data are different");
   if (!st.empty()) A(has(t.out, std::string(name) + "   " + st), "the summary names the symbol and what differs");
   else { A(k == (ins && (!dif || k)) && d == (dif && (!ins || d)) && (k || d) == (ins || dif) && !(k && d), "the summary names the symbol and what differs"); A(!has(t.out, std::string(name) + "   "+ "S") && !has(t.out, std::string(name) + "   T") && !has(t.out, "   Dim"), "the summary names nothing else"); }
   if (ins && !dif) symx_cover("keys"); if (dif) symx_cover("data"); if (!differs) symx_cover("same"); if (!st.empty()) symx_cover("status");
   // difference file
   A(!vfs_exists("tmpdifffile1.gdx") && vfs_exists(diff), "the difference file is in place and no temporary file is left");
   Sess r; r.openR(diff); int sc, uc, nr; r->gdxSystemInfo(sc, uc); bool sy = ins || dif;
   A(sc == (sy ? 2 : 1) && r->gdxFindSymbol("FilesCompared", nr) == 1, "the difference file holds the symbols that differ and the names of the files");
   { KeyBuf kb; double v[5]; int fd, n, nd; char tx[256]; A(r->gdxDataReadStrStart(nr, n) && n == 2, "both files are named");
      for (int i = 0; i < 2; i++) { A(r->gdxDataReadStr(kb.p, v, fd) && !strcmp(kb.p[0], i ? "File2" : "File1") && r->gdxGetElemText((int) v[0], tx, nd) && !strcmp(tx, i ? "b.gdx" : "a.gdx"), "the names of the files compared"); } r->gdxDataReadDone(); }
   if (sy) {
      char nm[256]; int dm, ty; A(r->gdxFindSymbol(name, nr) == 1 && r->gdxSymbolInfo(nr, nm, dm, ty), "the symbol is there");
      bool par = ve && (o.fldonly || o.diffonly); A(ty == (par ? GMS_DT_PAR : f1.typ) && dm == f1.dim + (ve && o.diffonly ? 2 : 1), "with the type and dimension for the options");
      { int cc, us; char tx[256]; A(r->gdxSymbolInfoX(nr, cc, us, tx) && (par || !ve || us == f1.sub), "and the subtype of the symbol"); }
      int n; A(r->gdxDataReadStrStart(nr, n) && n == (int) ex.size(), "it holds one record per difference");
      KeyBuf kb; double v[5]; int fd; std::vector<char> used(ex.size(), 0);
      while (r->gdxDataReadStr(kb.p, v, fd)) {
         int hit = -1; for (size_t i = 0; i < ex.size(); i++) if (!used[i]) { bool m = (int) ex[i].key.size() == dm; for (int q = 0; q < dm && m; q++) m = ex[i].key[q] == kb.p[q]; if (m) { hit = (int) i; break; } }
         A(hit >= 0, "every record of the difference file is a difference"); used[hit] = 1;
         if (ty == GMS_DT_SET) { char tx[256] = ""; int nd; if (v[0] != 0) A(r->gdxGetElemText((int) v[0], tx, nd), "text"); A(ex[hit].txt == tx, "with the text of that file"); }
         else for (int i = 0; i < (ty == GMS_DT_PAR ? 1 : 5); i++) A(bitsOf(v[i]) == bitsOf(ex[hit].v[i]), "with the values of that file");
      }
      for (char c : used) A(c, "every difference is in the difference file");
      r->gdxDataReadDone();
   }
   r->gdxClose(); symx_cover("end");
}
// records over the labels: presence and value of each chosen freely
static F mkf(const char *tag, int typ, int dim, int nl, long kinds, int fld, int sub) {
   F f { typ, dim, sub, true, {}, nullptr }; int tot = 1; for (int d = 0; d < dim; d++) tot *= nl;
   for (int c = 0; c < tot; c++) {
      std::string t = std::string(tag) + std::to_string(c);
      if (dim > 0 && !symx_choice(2, (t + "in").c_str())) continue;
      R q; q.txt = 0; int x = c; q.k.resize(dim); for (int d = dim; d-- > 0;) { q.k[d] = x % nl + (nl < 4 && P("hi", 1) ? 4 - nl : 0); x /= nl; }
      double def[5]; defRec(typ, sub, def); for (int i = 0; i < 5; i++) q.v[i] = typ == GMS_DT_VAR || typ == GMS_DT_EQU ? def[i] : 0;
      if (typ == GMS_DT_SET) q.txt = (int) symx_choice(3, (t + "txt").c_str()); else q.v[fld] = pick((t + "v").c_str(), kinds);
      f.r.push_back(q);
   }
   return f;
}
static double EPSV(long e) { return e == 1 ? 0.25 : e == 2 ? 0.125 : 0; }
// one symbol in both files, options by parameters
ENTRY(c21_data) {
   int typ = (int) P("typ", GMS_DT_PAR), dim = (int) P("dim", 1), nl = (int) P("nl", 2), fld = (int) P("fld", 0), sub = (int) P("sub", typ == GMS_DT_VAR ? GMS_VARTYPE_FREE : typ == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE : 0); long kinds = P("kinds", 4);
   Opt o; long e = P("eps", 0), re = P("rel", 0);
   if (e) { o.eps = EPSV(e); o.arg.push_back(e == 1 ? "Eps=0.25" : "Eps=0.125"); }
   if (re) { o.rel = EPSV(re); o.arg.push_back(re == 1 ? "RelEps=0.25" : "RelEps=0.125"); }
   static const char *FA[] = { "L", "M", "Lo", "Up", "Scale" };
   if (P("field", -1) >= 0) { o.field = (int) P("field", 0); o.arg.push_back(std::string("Field=") + FA[o.field]); }
   if (P("fldonly", 0)) { o.fldonly = true; o.arg.push_back("FldOnly"); }
   if (P("diffonly", 0)) { o.diffonly = true; o.arg.push_back("DiffOnly"); }
   if (P("cmpdef", 0)) { o.cmpdef = true; o.arg.push_back("CmpDefaults"); }
   if (long ns = P("nosettext", 0)) { static const char *SD[] = { "", "SetDesc=N", "SetDesc=0", "setdesc=f", "SetDesc=Y", "SetDesc=1", "SETDESC=t" }; o.settext = ns > 3; o.arg.push_back(SD[ns]); }
   if (P("ignord", 0)) o.arg.push_back("IgnoreOrder");
   F f1 = mkf("x", typ, dim, nl, kinds, fld, sub), f2 = mkf("y", typ, dim, nl, kinds, fld, sub);
   build("a.gdx", f1, "sym", 0, true); build("b.gdx", f2, "sym", (int) P("order", 0), true);
   verify(f1, f2, o, "sym", false);
}
// presence, type, dimension, domains and selection of symbols
ENTRY(c21_symbols) {
   F f[2]; static const int D[] = { 0, 1, 2 };
   for (int i = 0; i < 2; i++) { std::string t(1, (char) ('p' + i)); f[i].has = symx_choice(2, (t + "has").c_str()); f[i].typ = !i && P("typ", -1) >= 0 ? (int) P("typ", 0) : (int) symx_choice(4, (t + "typ").c_str()); f[i].dim = D[symx_choice(3, (t + "dim").c_str())]; if (f[i].typ == GMS_DT_SET && !f[i].dim) f[i].dim = 1; f[i].sub = f[i].typ == GMS_DT_VAR ? GMS_VARTYPE_FREE : f[i].typ == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE : 0;
      static const char *DN[] = { nullptr, "i", "j" }; f[i].dom = f[i].dim && P("opt", 0) == 1 ? DN[symx_choice(3, (t + "dom").c_str())] : nullptr;
      R q; q.txt = 0; q.k.assign(f[i].dim, 1); for (double &v : q.v) v = 0; q.v[0] = 3; if (f[i].dim) f[i].r.push_back(q); else f[i].r.push_back(q); }
   Opt o; bool skip = false;
   switch (P("opt", -1) >= 0 ? P("opt", 0) : symx_choice(6, "opt")) { case 0: break; case 1: o.cmpdom = true; o.arg.push_back("CmpDomains"); break; case 2: o.arg.push_back("ID=other"); skip = true; break; case 3: o.arg.push_back("ID=x,sym"); break; case 4: o.arg.push_back("SkipID=SYM"); skip = true; break; default: o.arg.push_back("ID=SYM other"); o.arg.push_back("SkipID=other"); }
   build("a.gdx", f[0], "sym", 0, true); build("b.gdx", f[1], "Sym", 0, true);
   verify(f[0], f[1], o, f[1].has && f[0].has ? "Sym" : f[1].has ? "Sym" : "sym", skip);
}
// acronyms are compared by name, whatever their numbers in the files
ENTRY(c21_acronyms) {
   F f[2]; static const char *AN[2][2] = { { "alpha", "beta" }, { "ALPHA", "Beta" } }; std::vector<std::string> an[2]; int first[2]; static const int FI[] = { 1, 2, 7 };
   for (int i = 0; i < 2; i++) { std::string t(1, (char) ('p' + i)); int sw = (int) symx_choice(2, (t + "order").c_str()); first[i] = FI[symx_choice(i ? 3 : 1, (t + "first").c_str())]; Sess x; x.openW("t.gdx");
      for (int j = 0; j < 2; j++) { an[i].push_back(AN[i][j ^ sw]); ANM[i][bitsOf(x->gdxAcronymValue(first[i] + j))] = AN[0][j ^ sw]; }
      f[i] = { (int) P("typ", GMS_DT_PAR), 1, (int) P("sub", 0), true, {}, nullptr }; int fld = (int) P("fld", 0); double def[5]; defRec(f[i].typ, f[i].sub, def);
      for (int k = 0; k < 2; k++) { int c = (int) symx_choice(4, (t + std::to_string(k) + "v").c_str()); if (!c) continue; R q; q.txt = 0; q.k = { k }; for (int j = 0; j < 5; j++) q.v[j] = nVals(f[i].typ) == 5 ? def[j] : 0; q.v[fld] = c == 1 ? 3.0 : x->gdxAcronymValue(first[i] + c - 2); f[i].r.push_back(q); }
      x->gdxClose(); build(i ? "b.gdx" : "a.gdx", f[i], "sym", 0, true, an[i], first[i]); }
   verify(f[0], f[1], Opt(), "sym", false);
}
