// C03: records written by label or by user number, in any order, are stored sorted and complete; duplicates and bad keys are reported.
#include "gx.h"
static bool sameKey(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) if (a[d] != b[d]) return false; return true; }
static bool lessKey(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) if (a[d] != b[d]) return a[d] < b[d]; return false; }
static int chgDim(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) if (a[d] != b[d]) return d + 1; return dim; }
static void vals(double *v, int r) { double x = symV("value"); for (int f = 0; f < 5; f++) v[f] = f == r % 5 ? x : 10 * r + f + 1; if (!(r % 5)) v[0] = x; else v[0] = r; }
static bool eqFold(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }; if (lo(a[i]) != lo(b[i])) return false; } return true; }
static std::string trimR(std::string s) { while (!s.empty() && s.back() <= ' ' && s.back() >= 0) s.pop_back(); return s; }
// dimensions above 3: only positions p and q vary, the others hold the first label
static bool vary(int d, int dim) { return dim <= 3 || d == P("p", 0) || d == P("q", dim - 1); }
struct Model {
   int dim; std::vector<std::string> uel; std::vector<Rec> recs, good, dup; int errors = 0, firstErr = 0;
   int find(const std::string &s) { for (size_t i = 0; i < uel.size(); i++) if (eqFold(uel[i], s)) return (int) i + 1; return 0; }
   void err(int e) { errors++; if (!firstErr) firstErr = e; }
   void finish() { // stable insertion sort; of equal keys the first one written is kept
      std::vector<Rec> s;
      for (auto &r : recs) { size_t p = s.size(); while (p > 0 && lessKey(r.k, s[p - 1].k, dim)) p--; s.insert(s.begin() + p, r); }
      for (auto &r : s) { if (!good.empty() && sameKey(good.back().k, r.k, dim)) { dup.push_back(r); err(-100009); } else good.push_back(r); }
   }
};
static void verify(Model &mo, int typ, int rd, const std::vector<int> &umap, const std::vector<std::string> &ulab) {
   Sess s; s.openR("f.gdx"); int dim = mo.dim, sc, uc, n, ui, df; char t[256]; KeyBuf kb;
   A(s->gdxSystemInfo(sc, uc) && sc == 1 && uc == (int) mo.uel.size(), "one symbol and every distinct label once");
   size_t nu = mo.uel.size();
   for (size_t i = 0; i < nu; i++) if (i < 6 || i + 6 >= nu) { int um = 0; A(s->gdxUMUelGet((int) i + 1, t, um) && mo.uel[i] == t, "labels are numbered in order of first use with their first spelling"); }
   A(s->gdxSymbolInfoX(1, n, ui, t) && n == (int) mo.good.size(), "catalogue record count");
   if (rd == 2) { A(s->gdxUELRegisterMapStart(), "map"); for (size_t i = 0; i < umap.size(); i++) A(s->gdxUELRegisterMap(umap[i], ulab[i].c_str()), "map"); A(s->gdxUELRegisterDone(), "map"); }
   A(rd == 0 ? s->gdxDataReadRawStart(1, n) : rd == 1 ? s->gdxDataReadStrStart(1, n) : s->gdxDataReadMapStart(1, n), "start reading"); A(n == (int) mo.good.size(), "record count");
   std::vector<Rec> exp = mo.good;
   if (rd == 2) { // by user number: sorted by user number
      std::vector<Rec> q; for (auto r : exp) { for (int d = 0; d < dim; d++) { int u = -1; for (size_t i = 0; i < umap.size(); i++) if (mo.find(ulab[i]) == r.k[d]) u = umap[i]; r.k[d] = u; } size_t p = q.size(); while (p > 0 && lessKey(r.k, q[p - 1].k, dim)) p--; q.insert(q.begin() + p, r); }
      exp = q;
   }
   for (size_t i = 0; i < exp.size(); i++) {
      int k[20] = {}; double v[5] = {};
      A(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df), "record present");
      if (rd == 1) for (int d = 0; d < dim; d++) A(mo.uel[exp[i].k[d] - 1] == kb.s[d], "record label");
      else A(sameKey(k, exp[i].k, dim), "record key");
      for (int f = 0; f < nVals(typ); f++) A(v[f] == exp[i].v[f], "values stay with their key");
      A(df == (i ? chgDim(exp[i - 1].k, exp[i].k, dim) : 1), "first changed dimension");
   }
   int k[20]; double v[5]; A(!(rd == 0 ? s->gdxDataReadRaw(k, v, df) : rd == 1 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df)), "no extra record");
   A(s->gdxErrorCount() == 0 && s->gdxDataErrorCount() == 0, "no read error"); s.close();
}
static void errorsAfterDone(Sess &w, Model &mo, int typ) {
   A(w->gdxErrorCount() == mo.errors, "every rejected record is counted");
   A(w->gdxGetLastError() == mo.firstErr, "the first error is the one reported");
   A(w->gdxDataErrorCount() == (int) mo.dup.size(), "every duplicate is listed");
   for (size_t e = 0; e < mo.dup.size(); e++) { int k[20]; double v[5]; A(w->gdxDataErrorRecord((int) e + 1, k, v) && sameKey(k, mo.dup[e].k, mo.dim), "duplicate listed with its key"); for (int f = 0; f < nVals(typ); f++) A(v[f] == mo.dup[e].v[f], "duplicate listed with its values"); }
}
// labels: pre many registered before; then n records whose keys range over m labels (several spellings of one label, optionally an invalid label)
ENTRY(c03_str) {
   int dim = P("dim", 1), n = P("n", 3), m = P("m", 4), typ = P("typ", GMS_DT_PAR), rd = P("rd", 0), cmp = P("cmp", 0), pre = P("pre", 0), bad = P("bad", 0);
   std::vector<std::string> L = { "b", "a", "B  ", "c", "A" };
   L.resize((size_t) m); if (bad == 1) L.push_back("x'y\"z"); if (bad == 2) L.push_back("tab\tin"); if (bad == 3) L.push_back(std::string(64, 'q')); if (bad == 4) L[0] = std::string(63, 'q') + "  ";
   Model mo; mo.dim = dim; Sess w; w.openW("f.gdx", cmp);
   if (pre) { A(w->gdxUELRegisterRawStart(), "reg"); for (int i = 0; i < pre; i++) { std::string u = lab(i); if (i == 0) u = "B"; mo.uel.push_back(u); A(w->gdxUELRegisterRaw(u.c_str()), "reg"); } A(w->gdxUELRegisterDone(), "reg"); }
   A(w->gdxDataWriteStrStart("sym", "t", dim, typ, 0), "start");
   for (int r = 0; r < n; r++) {
      const char *ks[20]; Rec rc; bool ok = true; vals(rc.v, r); int c[20];
      for (int d = 0; d < dim; d++) { c[d] = !vary(d, dim) ? 0 : (int) symx_choice((unsigned) L.size(), "label"); ks[d] = L[c[d]].c_str(); }
      for (int d = 0; d < dim && ok; d++) {
         std::string t = trimR(L[c[d]]); int e = mo.find(t);
         if (!e) { if (bad && bad < 4 && c[d] == m) { ok = false; break; } mo.uel.push_back(t); e = (int) mo.uel.size(); }
         rc.k[d] = e;
      }
      A((w->gdxDataWriteStr(ks, rc.v) != 0) == ok, "a record is taken exactly when all its labels are valid");
      if (ok) mo.recs.push_back(rc); else mo.err(-100017);
   }
   A(w->gdxDataWriteDone(), "done"); mo.finish(); errorsAfterDone(w, mo, typ); w.close();
   verify(mo, typ, rd, {}, {});
   symx_cover("end"); if (!mo.dup.empty()) symx_cover("duplicate"); if (mo.good.size() > 1) symx_cover("several");
}
// user numbers: any order of registration, keys range over registered numbers and one unregistered number
ENTRY(c03_map) {
   int dim = P("dim", 1), n = P("n", 3), m = P("m", 4), typ = P("typ", GMS_DT_PAR), rd = P("rd", 0), cmp = P("cmp", 0), pre = P("pre", 0), bad = P("bad", 0);
   std::vector<int> um = { 7, 3, 1000, 5 }; std::vector<std::string> ul = { "b", "a", "c", "d" }; um.resize(m); ul.resize(m);
   Model mo; mo.dim = dim; Sess w; w.openW("f.gdx", cmp); 
   A(w->gdxUELRegisterMapStart(), "reg"); for (int i = 0; i < m; i++) { A(w->gdxUELRegisterMap(um[i], ul[i].c_str()), "reg"); mo.uel.push_back(ul[i]); if (i == 0) for (int j = 0; j < pre; j++) { A(w->gdxUELRegisterMap(20000 + j, lab(j).c_str()), "reg"); mo.uel.push_back(lab(j)); } } A(w->gdxUELRegisterDone(), "reg");
   static const int none[] = { 4, 0, 1001, 70000, -1 };
   A(w->gdxDataWriteMapStart("sym", "t", dim, typ, 0), "start");
   for (int r = 0; r < n; r++) {
      Rec rc; bool ok = true; vals(rc.v, r); int key[20];
      for (int d = 0; d < dim; d++) { int c = !vary(d, dim) ? 0 : (int) symx_choice((unsigned) m + (bad ? 1 : 0), "number"); if (c < m) { key[d] = um[c]; rc.k[d] = mo.find(ul[c]); } else { key[d] = none[bad - 1]; ok = false; } }
      A((w->gdxDataWriteMap(key, rc.v) != 0) == ok, "a record is taken exactly when all its numbers are registered");
      if (ok) mo.recs.push_back(rc); else mo.err(-100004);
   }
   A(w->gdxDataWriteDone(), "done"); mo.finish(); errorsAfterDone(w, mo, typ); w.close();
   verify(mo, typ, rd, um, ul);
   symx_cover("end"); if (!mo.dup.empty()) symx_cover("duplicate"); if (mo.good.size() > 1) symx_cover("several");
}
// records arrive in an arbitrary permutation of a longer list: the file is the sorted list
ENTRY(c03_perm) {
   int dim = P("dim", 2), rd = P("rd", 0), map = P("map", 0), rot = P("rot", 4), n = 12; Model mo; mo.dim = dim; Sess w; w.openW("f.gdx", P("cmp", 0));
   std::vector<int> um; std::vector<std::string> ul; for (int i = 0; i < n; i++) { ul.push_back(lab(i)); um.push_back(3 + 5 * i); mo.uel.push_back(lab(i)); }
   if (map) { A(w->gdxUELRegisterMapStart(), "reg"); for (int i = 0; i < n; i++) A(w->gdxUELRegisterMap(um[i], ul[i].c_str()), "reg"); } else { A(w->gdxUELRegisterRawStart(), "reg"); for (int i = 0; i < n; i++) A(w->gdxUELRegisterRaw(ul[i].c_str()), "reg"); }
   A(w->gdxUELRegisterDone(), "reg");
   A(map ? w->gdxDataWriteMapStart("sym", "t", dim, GMS_DT_VAR, 0) : w->gdxDataWriteStrStart("sym", "t", dim, GMS_DT_VAR, 0), "start");
   int order[12]; for (int i = 0; i < n; i++) order[i] = (i * 5) % n;
   for (int i = 0; i < rot; i++) { int j = i + (int) symx_choice((unsigned) (n - i), "swap"); int t = order[i]; order[i] = order[j]; order[j] = t; }
   for (int i = 0; i < n; i++) {
      Rec rc; vals(rc.v, order[i]); const char *ks[20]; int key[20];
      for (int d = 0; d < dim; d++) { int e = d == 0 ? order[i] / 4 : d == 1 ? order[i] % 4 : order[i]; if (dim == 1) e = order[i]; rc.k[d] = e + 1; ks[d] = ul[e].c_str(); key[d] = um[e]; }
      A(map ? w->gdxDataWriteMap(key, rc.v) : w->gdxDataWriteStr(ks, rc.v), "taken"); mo.recs.push_back(rc);
   }
   A(w->gdxDataWriteDone(), "done"); mo.finish(); A(mo.dup.empty(), "model"); errorsAfterDone(w, mo, GMS_DT_VAR); w.close(); verify(mo, GMS_DT_VAR, rd, um, ul); symx_cover("end");
}
