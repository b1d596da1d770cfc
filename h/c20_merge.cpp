// C20: gdxmerge combines files: every record of every input file is in the merged file, preceded by the name of its file.
#include "tool.h"
#include <map>
#include <functional>
struct R { std::vector<std::string> k; double v[5]; std::string txt; };
struct S { std::string name, text; int typ, dim, sub; std::vector<R> r; std::string alias; };
typedef std::vector<S> Fl;                                        // the symbols of one file
static const char *LB[] = { "a", "b", "c", "d" };
static const char *TX[] = { "", "one", "One", "fwr" };
static bool ci(const std::string &a, const std::string &b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
static void build(const char *fn, const Fl &f, int order, int cmp = 0) {
   Sess w; w.openW(fn, cmp); const char *u[4]; for (int i = 0; i < 4; i++) u[i] = LB[order ? 3 - i : i]; regRaw(w, u, 4);
   for (auto &s : f) {
      if (!s.alias.empty()) { A(w->gdxAddAlias(s.alias.c_str(), s.name.c_str()), "alias"); continue; }
      A(w->gdxDataWriteStrStart(s.name.c_str(), s.text.c_str(), s.dim, s.typ, s.sub), "start");
      for (auto &q : s.r) { const char *k[20]; for (int d = 0; d < s.dim; d++) k[d] = q.k[d].c_str(); double v[5]; memcpy(v, q.v, sizeof v);
         if (s.typ == GMS_DT_SET) { int nd = 0; if (!q.txt.empty()) A(w->gdxAddSetText(q.txt.c_str(), nd), "text"); v[0] = nd; }
         A(w->gdxDataWriteStr(k, v), "record"); }
      A(w->gdxDataWriteDone(), "done");
   }
   w.close();
}
struct M { std::string name, text; int typ, dim, sub; bool written; std::vector<R> r; };
// ids: labels of the files; the model of merging
static void expect(const std::vector<Fl> &f, const std::vector<std::string> &ids, const std::vector<std::string> &inc, const std::vector<std::string> &exc, std::vector<M> &m, int &errors) {
   errors = 0;
   for (size_t i = 0; i < f.size(); i++) for (auto s : f[i]) {
      if (s.dim >= 20) { errors++; continue; }
      if (!s.alias.empty()) { for (auto &t : f[i]) if (t.name == s.alias) { s.r = t.r; s.dim = t.dim; } s.typ = GMS_DT_SET; s.sub = 0; s.text = "Aliased with " + s.alias; }
      bool in = inc.empty(); for (auto &n : inc) if (ci(n, s.name)) in = true; for (auto &n : exc) if (ci(n, s.name)) in = false;
      if (!in) continue;
      M *q = nullptr; for (auto &x : m) if (ci(x.name, s.name)) q = &x;
      if (!q) { m.push_back({ s.name, "", s.typ, s.dim, s.sub, true, {} }); q = &m.back(); }
      if (q->dim != s.dim || q->typ != s.typ || ((s.typ == GMS_DT_VAR || s.typ == GMS_DT_EQU) && s.sub != q->sub)) { errors++; continue; }
      if (q->text.empty()) q->text = s.text; else if (!s.text.empty() && s.text != q->text) errors++;
      for (auto r : s.r) { r.k.insert(r.k.begin(), ids[i]); q->r.push_back(r); }
   }
}
static void verify(const std::vector<M> &m, const std::vector<std::string> &ids, const char *out, const std::vector<std::string> &paths, std::function<void(Sess &, const M &, const R &, const double *)> cmpv = nullptr) {
   Sess r; r.openR(out); int sc, uc; r->gdxSystemInfo(sc, uc); A(sc == (int) m.size() + 1, "the merged file holds each symbol once and the list of files");
   KeyBuf kb; double v[5]; int fd, n, nr;
   std::vector<std::string> used;
   auto seen = [&](const char *s) { for (auto &u : used) if (ci(u, s)) return; used.push_back(s); };
   for (auto &s : m) {
      char nm[256], tx[256]; int dm, ty, cnt, ui;
      A(r->gdxFindSymbol(s.name.c_str(), nr) == 1 && r->gdxSymbolInfo(nr, nm, dm, ty) == 1 && r->gdxSymbolInfoX(nr, cnt, ui, tx) == 1, "each symbol is in the merged file");
      A(s.name == nm && dm == s.dim + 1 && ty == s.typ, "with its name, its type and one more index");
      A(ui == s.sub, "with its subtype");
      A(s.text == tx, "with the explanatory text of the first file that has one"); A(cnt == (int) s.r.size(), "with all of its records");
      A(r->gdxDataReadStrStart(nr, n) && n == cnt, "read");
      std::vector<char> hit(s.r.size(), 0); int got = 0;
      while (r->gdxDataReadStr(kb.p, v, fd)) {
         int h = -1; for (size_t i = 0; i < s.r.size() && h < 0; i++) if (!hit[i]) { bool e = true; for (int d = 0; d < dm && e; d++) e = s.r[i].k[d] == kb.p[d]; if (e) h = (int) i; }
         A(h >= 0, "every merged record is a record of that file"); hit[h] = 1; got++; for (int d = 0; d < dm; d++) seen(kb.p[d]);
         if (cmpv) cmpv(r, s, s.r[h], v);
         else if (ty == GMS_DT_SET) { char et[256] = ""; int nd; if (v[0] != 0) A(r->gdxGetElemText((int) v[0], et, nd), "text"); A(s.r[h].txt == et, "with its element text"); }
         else for (int i = 0; i < nVals(ty); i++) A(bitsOf(v[i]) == bitsOf(s.r[h].v[i]), "with its values");
      }
      A(got == (int) s.r.size(), "no record is lost"); r->gdxDataReadDone();
   }
   A(r->gdxFindSymbol("Merged_set_1", nr) == 1 && r->gdxDataReadStrStart(nr, n), "the list of files"); A(n == (int) ids.size(), "one entry per file");
   std::vector<char> hit(ids.size(), 0);
   while (r->gdxDataReadStr(kb.p, v, fd)) { int h = -1; for (size_t i = 0; i < ids.size(); i++) if (ids[i] == kb.p[0] && !hit[i]) h = (int) i; A(h >= 0, "a name of an input file"); hit[h] = 1; seen(kb.p[0]);
      char et[256] = ""; int nd; A(v[0] != 0 && r->gdxGetElemText((int) v[0], et, nd), "with date and path"); std::string e = et; A(e.size() > paths[h].size() + 2 && e.substr(e.size() - paths[h].size()) == paths[h], "the path of the file"); }
   r->gdxDataReadDone();
   for (int i = 1; i <= uc; i++) { char l[256]; int um; A(r->gdxUMUelGet(i, l, um), "label"); A(l[0] != 0, "no empty label comes into the merged file"); }
   r->gdxClose(); symx_cover("end");
}
static int errorsOf(const std::string &out) { std::string k = "Number of errors reported = "; size_t p = out.find(k); return p == std::string::npos ? 0 : atoi(out.c_str() + p + k.size()); }
static void checkRun(const ToolRun &t, int files, int errors, bool big) {
   A(t.rc == 0, "gdxmerge ends with code 0"); A(big ? (errorsOf(t.out) > 0) == (errors > 0) : errorsOf(t.out) == errors, "the number of problems found is reported");
   A(has(t.out, "Merge complete, " + std::to_string(files) + " input files merged"), "the number of merged files is reported");
}
static std::vector<std::string> bigArg(long b) { std::vector<std::string> a; if (b) a.push_back("big=" + std::to_string(b)); return a; }
static int defSub(int typ) { return typ == GMS_DT_VAR ? GMS_VARTYPE_POSITIVE : typ == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE + 1 : 0; }
static S mks(const char *tag, const char *name, const char *text, int typ, int dim, int nl) {
   S s { name, text, typ, dim, defSub(typ), {}, "" }; int tot = 1; for (int d = 0; d < dim; d++) tot *= nl;
   for (int c = 0; c < tot; c++) {
      std::string t = std::string(tag) + std::to_string(c); if (dim > 0 && !symx_choice(2, (t + "in").c_str())) continue;
      R q; q.k.resize(dim); int x = c; for (int d = dim; d-- > 0;) { q.k[d] = LB[x % nl]; x /= nl; }
      for (int i = 0; i < 5; i++) q.v[i] = 0; if (typ == GMS_DT_SET) q.txt = TX[symx_choice(4, (t + "txt").c_str())]; else for (int i = 0; i < nVals(typ); i++) q.v[i] = symV((t + "v").c_str());
      s.r.push_back(q); }
   return s;
}
// records of one symbol spread over files
ENTRY(c20_data) {
   int typ = (int) P("typ", GMS_DT_PAR), dim = (int) P("dim", 1), nl = (int) P("nl", 2), nf = (int) P("nf", 2); long big = P("big", 0);
   static const char *FN[] = { "f1.gdx", "f2.gdx", "f3.gdx" }; std::vector<Fl> f(nf); std::vector<std::string> ids, paths, args; 
   for (int i = 0; i < nf; i++) { f[i].push_back(mks(FN[i], i ? "SYM" : "Sym", i ? "text" : "", typ, dim, nl)); if (i == 1) { S y { "y", "why", GMS_DT_PAR, 1, 0, {}, "" }; R q; q.k = { "zz" }; for (double &v : q.v) v = 0; q.v[0] = 7; y.r.push_back(q); f[i].push_back(y); }
      build(FN[i], f[i], (i && P("order", 0)) ? 1 : 0, (int) P("cmp", 0)); ids.push_back("f" + std::to_string(i + 1)); paths.push_back(FN[i]); args.push_back(FN[i]); }
   for (auto &a : bigArg(big)) args.push_back(a);
   std::vector<M> m; int er; expect(f, ids, {}, {}, m, er); ToolRun t = runTool(args); checkRun(t, nf, er, big); verify(m, ids, "merged.gdx", paths);
}
// symbols that fit together or not, in any combination, and selection by name
ENTRY(c20_symbols) {
   int nf = (int) P("nf", 2); std::vector<Fl> f(2); long big = P("big", 0), opt = P("opt", 0), small = P("small", 0);
   for (int i = 0; i < 2; i++) { std::string t(1, (char) ('p' + i)); if (!symx_choice(2, (t + "has").c_str())) continue;
      int typ = !i && P("typ", -1) >= 0 ? (int) P("typ", 0) : (int) symx_choice(5, (t + "typ").c_str()), dim = (int) symx_choice(3, (t + "dim").c_str()); 
      R q; for (double &v : q.v) v = 0; q.v[0] = 3 + i; q.txt = "tx"; static const char *TT[] = { "", "t1", "t2" }; S s { i ? "sYm" : "Sym", TT[small ? 1 : symx_choice(3, (t + "text").c_str())], typ, dim, 0, {}, "" };
      if (typ == GMS_DT_ALIAS) { S b { "base", "", GMS_DT_SET, dim, 0, {}, "" }; if (!b.dim) b.dim = 1; q.k.assign(b.dim, LB[1]); q.v[0] = 0; q.txt = ""; b.r.push_back(q); f[i].push_back(b); s.alias = "base"; s.dim = b.dim; s.text = ""; }
      else { s.sub = typ == GMS_DT_VAR ? GMS_VARTYPE_POSITIVE : typ == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE : 0; if (s.sub) s.sub += (int) symx_choice(2, (t + "sub").c_str()); if (typ == GMS_DT_SET && !s.dim) s.dim = 1; q.k.assign(s.dim, LB[1]); s.r.push_back(q); }
      f[i].push_back(s); }
   for (int i = 0; i < 2; i++) { S o { "other", "o", GMS_DT_PAR, 1, 0, {}, "" }; R q; for (double &v : q.v) v = 0; q.k = { "d" }; q.v[0] = 8 + i; o.r.push_back(q); f[i].push_back(o); }
   if (nf > 2) { f.push_back(f[0]); for (auto &s : f[2]) if (s.typ != GMS_DT_SET) for (auto &q : s.r) q.v[0] += 20; }
   std::vector<std::string> inc, exc, args, ids; for (int i = 0; i < nf; i++) { args.push_back("f" + std::to_string(i + 1)); build(args[i].c_str(), f[i], 0); } ids = args;
   switch (opt) { case 1: inc = { "SYM" }; args.push_back("id=SYM"); break; case 2: inc = { "Sym", "base" }; args.push_back("ID=Sym,base"); break; case 3: exc = { "sym" }; args.push_back("exclude=sym"); break; case 4: exc = { "other", "base" }; args.push_back("exclude=other base"); break; case 5: inc = { "Sym", "base" }; args.push_back("id=Sym ,  base"); break; case 6: exc = { "other", "base" }; args.push_back("exclude=other  , base"); break; default:; }
   for (auto &a : bigArg(big)) args.push_back(a);
   std::vector<M> m; int er; expect(f, ids, inc, exc, m, er); ToolRun t = runTool(args); checkRun(t, nf, er, big); if (er) symx_cover("problems"); verify(m, ids, "merged.gdx", ids);
}
// high dimensions
ENTRY(c20_dims) {
   int typ = (int) P("typ", GMS_DT_PAR); long big = P("big", 0); std::vector<Fl> f(2);
   for (int i = 0; i < 2; i++) { S s { "sym", "", typ, (int) P("dim", 19), defSub(typ), {}, "" }; R q; for (double &v : q.v) v = 0; if (typ != GMS_DT_SET) q.v[0] = symV("v"); q.k.assign(s.dim, LB[i]); s.r.push_back(q); for (int j = 1; j < P("n", 1); j++) { for (int d = 0; d < s.dim && d < 4; d++) q.k[d] = LB[symx_choice(2, "label")]; bool dup = false; for (auto &o : s.r) if (o.k == q.k) dup = true; if (!dup) s.r.push_back(q); } f[i].push_back(s); { S y { "y", "why", GMS_DT_PAR, 1, 0, {}, "" }; R w; w.k = { "zz" }; for (double &v : w.v) v = 0; w.v[0] = 7 + i; y.r.push_back(w); f[i].push_back(y); } build(i ? "g.gdx" : "f.gdx", f[i], 0); }
   std::vector<std::string> args = { "f.gdx", "g.gdx", "o=res" }; for (auto &a : bigArg(big)) args.push_back(a);
   std::vector<M> m; int er; expect(f, { "f", "g" }, {}, {}, m, er); ToolRun t = runTool(args); checkRun(t, 2, er, big); verify(m, { "f", "g" }, "res.gdx", { "f.gdx", "g.gdx" });
}
// acronyms keep their name, whatever their numbers in the files
ENTRY(c20_acronyms) {
   std::vector<Fl> f(2); long big = P("big", 0); static const char *AN[] = { "alpha", "beta" }; std::map<std::string, std::string> nameOf;
   for (int i = 0; i < 2; i++) { Sess w; w.openW(i ? "g.gdx" : "f.gdx"); static const int NR[] = { 1, 2, 5 }; int na = (int) symx_choice(3, "acronyms"), swap = na == 2 ? (int) symx_choice(2, "order") : 0, base = na ? NR[symx_choice(3, "number")] : 0;
      S s { "sym", "", GMS_DT_PAR, 1, 0, {}, "" };
      for (int j = 0; j < na; j++) A(w->gdxAcronymAdd(i ? (j ^ swap ? "BETA" : "ALPHA") : AN[j ^ swap], "", base + j) >= 0, "acronym"); A(w->gdxDataWriteStrStart("sym", "", 1, GMS_DT_PAR, 0), "start");
      for (int j = 0; j < na + 1; j++) { const char *k[20] = { LB[j] }; R q; q.k = { LB[j] }; for (double &v : q.v) v = 0; q.txt = ""; if (j < na && symx_choice(2, "used")) { q.txt = AN[j ^ swap]; q.v[0] = w->gdxAcronymValue(base + j); } else q.v[0] = symV("v"); double v[5]; memcpy(v, q.v, sizeof v); A(w->gdxDataWriteStr(k, v), "record"); s.r.push_back(q); }
      A(w->gdxDataWriteDone(), "done"); w.close(); f[i].push_back(s); }
   std::vector<std::string> args = { "f.gdx", "g.gdx" }; for (auto &a : bigArg(big)) args.push_back(a);
   std::vector<M> m; int er; expect(f, { "f", "g" }, {}, {}, m, er); ToolRun t = runTool(args); checkRun(t, 2, er, big);
   verify(m, { "f", "g" }, "merged.gdx", { "f.gdx", "g.gdx" }, [&](Sess &r, const M &, const R &q, const double *v) {
      if (q.txt.empty()) { A(bitsOf(v[0]) == bitsOf(q.v[0]), "with its value"); return; }
      int nr = r->gdxAcronymIndex(v[0]); A(nr > 0, "an acronym stays an acronym"); char n[256] = ""; A(r->gdxAcronymName(v[0], n) == 1, "it has a name"); A(ci(n, q.txt), "it has the name it had in its file"); symx_cover("acronym"); });
}
// choice of the files: patterns, missing and foreign files, output name, strict mode
ENTRY(c20_files) {
   bool strict = P("strict", 0); S s { "sym", "", GMS_DT_PAR, 1, 0, {}, "" }; R q; for (double &v : q.v) v = 0; q.k = { "a" }; q.v[0] = 1; s.r.push_back(q); Fl f = { s };
   static const char *N[] = { "f1.gdx", "f2.gdx", "g.gdx" }; bool ex[3]; for (int i = 0; i < 3; i++) { ex[i] = symx_choice(2, "exists"); if (ex[i]) build(N[i], f, 0); }
   int junk = (int) symx_choice(2, "foreign file"), old = (int) symx_choice(2, "old output"); if (junk) vfs_put("f3.gdx", "hello", 5); if (old) build("merged.gdx", f, 0);
   int how = (int) P("how", 0); std::vector<std::string> args; std::vector<int> use; bool issue = false; int jn = 0;
   auto take = [&](int i) { if (ex[i]) use.push_back(i); else issue = true; };
   switch (how) { case 0: args = { "f*.gdx" }; if (!ex[0] && !ex[1] && !junk) issue = true; if (ex[0]) use.push_back(0); if (ex[1]) use.push_back(1); jn = junk; break;
      case 1: args = { "g.gdx", "f1.gdx" }; take(2); take(0); break; case 2: args = { "f?.gdx", "g.gdx" }; if (!ex[0] && !ex[1] && !junk) issue = true; if (ex[0]) use.push_back(0); if (ex[1]) use.push_back(1); jn = junk; take(2); break; default: args = { "f1.gdx", "merged.gdx", "f2.gdx" }; take(0); issue = true; take(1); }
   if (strict) args.push_back("strict=true");
   ToolRun t = runTool(args);
   if (strict && (old || issue || use.empty())) { A(t.rc == 1, "strict mode ends with an error for missing files and existing output"); if (old) A(vfs_exists("merged.gdx"), "existing output is kept in strict mode"); symx_cover("strict"); return; }
   std::vector<Fl> fl; std::vector<std::string> ids, paths; for (int i : use) { fl.push_back(f); ids.push_back(std::string(N[i]).substr(0, strlen(N[i]) - 4)); paths.push_back(N[i]); }
   std::vector<M> m; int er; expect(fl, ids, {}, {}, m, er); if (jn) { ids.push_back("f3"); paths.push_back("f3.gdx"); }
   A(t.rc == 0, "gdxmerge ends with code 0"); if (use.empty()) A(has(t.out, "No valid input files"), "no input is reported"); else A(has(t.out, "Merge complete, " + std::to_string(use.size()) + " input files"), "the number of files is reported");
   verify(m, ids, "merged.gdx", paths);
}
