// C24: the symbol catalogue: what was written is what every catalogue query reports, while writing and when reading.
#include "gx.h"
struct Sy { std::string name, text; int typ, dim, ui, cnt, ali; bool txt; std::vector<std::string> com; };
static const char *NM[8] = { "Alpha", "b", "g_3", "dd4", "Eps", "f1234567890123456789012345678901234567890123456789012345678901z", "h", "k" };
static std::string flip(const std::string &s) { std::string r = s; for (char &c : r) if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; return r; }
static void checkCat(Sess &s, std::vector<Sy> &x, int nu, bool reading) {
   int sc = -1, uc = -1, nr, dim, typ, ui, cnt, n = (int) x.size(); char id[256], tx[256]; KeyBuf kb; int ds[20];
   A(s->gdxSystemInfo(sc, uc) && sc == n && uc == nu, "number of symbols and labels"); int mx = 0;
   A(s->gdxSymbolInfo(0, id, dim, typ) && eqs(id, "*") && dim == 1 && typ == GMS_DT_SET, "the universe is symbol 0"); A(s->gdxSymbolDim(0) == 1, "dimension of the universe"); A(s->gdxFindSymbol("*", nr) && nr == 0, "the universe is found");
   if (reading) A(s->gdxSymbolInfoX(0, cnt, ui, tx) && cnt == nu && ui == 0, "size of the universe");
   for (int i = 0; i < n; i++) {
      Sy &y = x[i]; if ((int) y.name.size() > mx) mx = (int) y.name.size();
      A(s->gdxSymbolInfo(i + 1, id, dim, typ) && eqs(id, y.name.c_str()) && dim == y.dim && typ == y.typ, "name, dimension and type");
      A(s->gdxSymbolDim(i + 1) == y.dim, "dimension"); A(s->gdxSymbolInfoX(i + 1, cnt, ui, tx), "extended information");
      A(ui == y.ui, "user information"); A(eqs(tx, y.text.c_str()), "explanatory text"); if (y.typ != GMS_DT_ALIAS) A(cnt == (y.dim ? y.cnt : 1), "number of records");
      A(s->gdxFindSymbol(y.name.c_str(), nr) && nr == i + 1, "found by name"); A(s->gdxFindSymbol(flip(y.name).c_str(), nr) && nr == i + 1, "found ignoring case");
      if (y.typ != GMS_DT_ALIAS) A((s->gdxSetHasText(i + 1) != 0) == y.txt, "has texts");
      for (size_t c = 0; c < y.com.size(); c++) A(s->gdxSymbolGetComment(i + 1, (int) c + 1, tx) && eqs(tx, y.com[c].c_str()), "comment"); A(!s->gdxSymbolGetComment(i + 1, (int) y.com.size() + 1, tx) && !s->gdxSymbolGetComment(i + 1, 0, tx), "no other comment");
      A(s->gdxSymbolGetDomain(i + 1, ds), "domain numbers"); for (int d = 0; d < y.dim; d++) A(ds[d] == 0, "no domain was given"); A(s->gdxSymbolGetDomainX(i + 1, kb.p) >= 1, "domain names"); for (int d = 0; d < y.dim; d++) A(eqs(kb.s[d], "*"), "no domain was given");
   }
   if (n && reading) { int cb = symI("comment number"); Sy &y = x[n - 1]; symx_assume((cb < 1) | (cb > (int) y.com.size())); strcpy(tx, "x"); A(!s->gdxSymbolGetComment(n, cb, tx) && eqs(tx, ""), "a comment number outside of the comments is refused"); }
   A(s->gdxSymbMaxLength() == mx, "longest symbol name"); nr = 5; A(!s->gdxFindSymbol("nosuch", nr), "unknown name"); A(!s->gdxFindSymbol("", nr), "empty name"); A(!s->gdxFindSymbol("Alph", nr) && !s->gdxFindSymbol("Alpha1", nr), "neither beginnings nor extensions of a name are found");
   int bad = symI("number"); symx_assume(bad < 0 || bad > n); A(!s->gdxSymbolInfo(bad, id, dim, typ) && eqs(id, "") && dim == -1, "a number outside of the catalogue is refused"); A(s->gdxSymbolDim(bad) == -1, "and has no dimension"); cnt = ui = 3; A(!s->gdxSymbolInfoX(bad, cnt, ui, tx) && cnt == 0 && ui == 0 && eqs(tx, ""), "nor information"); A(!s->gdxSetHasText(bad), "nor texts");
   int e0 = s->gdxErrorCount(); A(!s->gdxSymbolGetDomain(bad, ds) && !s->gdxSymbolGetDomainX(bad, kb.p) && s->gdxErrorCount() == e0 + 2, "nor domains, which is reported");
}
ENTRY(c24_catalogue) {
   int n = P("n", 2), cmp = P("cmp", 0), bulk = P("bulk", 0), op0 = P("op", -1); std::vector<Sy> x; int errs = 0; int nu = 3; bool any = false;
   Sess w; w.openW("f.gdx", cmp); regRaw(w, (const char *const[]) { "one", "two", "three" }, 3);
   for (int i = 0; i < bulk; i++) { Sy y = { "zz" + std::to_string(i), "text " + std::to_string(i), GMS_DT_PAR, 1, i, i % 3, -1, false, {} }; A(w->gdxDataWriteRawStart(y.name.c_str(), y.text.c_str(), 1, GMS_DT_PAR, i), "start"); for (int r = 0; r < y.cnt; r++) { int k[1] = { r + 1 }; double v[5] = { 1 }; A(w->gdxDataWriteRaw(k, v), "write"); } A(w->gdxDataWriteDone(), "done"); x.push_back(y); }
   for (int i = 0; i < n; i++) {
      int op = i == 0 && op0 >= 0 ? op0 : (int) symx_choice(8, "operation"); Sy y = { NM[i], "t" + std::to_string(i), 0, 1, 0, 0, -1, false, {} }; int e0 = w->gdxErrorCount();
      if (op <= 4) {   // a symbol of some type, dimension, number of records and user information
         static const int ty[5] = { GMS_DT_SET, GMS_DT_SET, GMS_DT_PAR, GMS_DT_VAR, GMS_DT_EQU }, dm[5] = { 1, 2, 2, 1, 0 }; y.typ = ty[op]; y.dim = dm[op]; y.ui = symI("user info"); y.cnt = (int) symx_choice(y.dim ? 3 : 2, "records"); if (op == 1) y.name = NM[5];
         int tn = 0, tm = op == 0 ? (int) symx_choice(1 << y.cnt, "with text") : 0; if (op == 0) A(w->gdxAddSetText("element text", tn), "text");
         A(w->gdxDataWriteRawStart(y.name.c_str(), y.text.c_str(), y.dim, y.typ, y.ui) == (op == 1 && any ? 0 : 1), "a new symbol is accepted, a name in use is not");
         if (op == 1 && any) { errs++; A(w->gdxErrorCount() == e0 + 1, "a name in use is reported"); continue; } if (op == 1) any = true;
         for (int r = 0; r < y.cnt; r++) { int k[2] = { r + 1, 1 }; double v[5] = { tm >> r & 1 ? (double) tn : op <= 1 ? 0.0 : 1.5, 2, 3, 4, 5 }; A(w->gdxDataWriteRaw(k, v), "write"); if (tm >> r & 1) y.txt = true; } A(w->gdxDataWriteDone(), "done");
         if (y.cnt == 2) { A(w->gdxSymbolAddComment((int) x.size() + 1, "first remark") && w->gdxSymbolAddComment((int) x.size() + 1, "second"), "comments"); y.com = { "first remark", "second" }; }
         x.push_back(y);
      } else if (op == 5) { // alias of any symbol, the universe or something unknown, names given in either order
         int t = (int) symx_choice((unsigned) (x.size() - bulk) + 2, "target") - 1 + (int) 0; std::string tg = t < 0 ? "*" : t < (int) (x.size() - bulk) ? flip(x[bulk + t].name) : "unknown"; bool ok = t < 0 || (t < (int) (x.size() - bulk) && (x[bulk + t].typ == GMS_DT_SET || x[bulk + t].typ == GMS_DT_ALIAS)); bool swp = symx_choice(2, "order");
         int rc = swp ? w->gdxAddAlias(y.name.c_str(), tg.c_str()) : w->gdxAddAlias(tg.c_str(), y.name.c_str()); A((rc != 0) == ok, "an alias is accepted exactly for a set, an alias or the universe");
         if (!ok) { errs++; A(w->gdxErrorCount() == e0 + 1, "a refused alias is reported"); continue; }
         y.typ = GMS_DT_ALIAS; y.dim = t < 0 ? 1 : x[bulk + t].dim; y.ui = t < 0 ? 0 : bulk + t + 1; y.text = std::string("Aliased with ") + (t < 0 ? "*" : x[bulk + t].name); x.push_back(y); symx_cover("alias");
      } else if (op == 6) { // names in use
         if (x.empty()) { symx_assume(false); } std::string nm = flip(x[x.size() - 1].name); int how = (int) symx_choice(4, "how"); int rc = how == 0 ? w->gdxDataWriteRawStart(nm.c_str(), "", 1, GMS_DT_PAR, 0) : how == 1 ? w->gdxDataWriteStrStart(nm.c_str(), "", 1, GMS_DT_SET, 0) : how == 2 ? w->gdxAddAlias("*", nm.c_str()) : w->gdxDataWriteMapStart(nm.c_str(), "", 1, GMS_DT_SET, 0);
         A(!rc && w->gdxErrorCount() == e0 + 1, "a name in use is refused and reported"); errs++; symx_cover("dup");
      } else { // dimensions and types that do not exist
         int dm = symI("dimension"), ty = symI("type"); bool ok = dm >= 0 && dm <= 20 && ty >= 0 && ty <= GMS_DT_EQU; symx_assume(!ok); A(!w->gdxDataWriteRawStart(NM[7], "", dm, ty, 0) && w->gdxErrorCount() == e0 + 1, "a bad dimension or type is refused and reported"); errs++; symx_cover("badtype");
      }
   }
   A(w->gdxErrorCount() == errs, "nothing else is reported"); checkCat(w, x, nu, false); w->gdxGetLastError(); int fv, cl; A(w->gdxFileInfo(fv, cl) && fv == 7 && cl == cmp, "file version and compression"); w.close();
   Sess s; s.openR("f.gdx"); char fs[256], ps[256]; A(s->gdxFileInfo(fv, cl) && fv == 7 && cl == cmp, "file version and compression"); A(s->gdxFileVersion(fs, ps) && eqs(ps, "harness"), "producer");
   checkCat(s, x, nu, true); A(s->gdxUELMaxLength() == 5, "longest label");
   for (size_t i = 0; i < x.size(); i++) { // alias: reading it gives the records of the set
      size_t t = i; while (x[t].typ == GMS_DT_ALIAS && x[t].ui) t = x[t].ui - 1; int cnt = -1, ex = x[t].typ == GMS_DT_ALIAS ? nu : x[t].dim ? x[t].cnt : 1; A(s->gdxDataReadRawStart((int) i + 1, cnt) && cnt == ex, "number of records when reading"); int kk[20], fd, r = 0; double v[5]; while (s->gdxDataReadRaw(kk, v, fd)) r++; A(r == ex, "records"); A(s->gdxDataReadDone(), "done"); }
   s.close(); symx_cover("end");
}
// look-ups of labels and texts by number, also outside of the tables
ENTRY(c24_tables) {
   int nl = P("nl", 2), reading = P("read", 0); Sess w; w.openW("f.gdx"); static const char *L[4] = { "one", "b2", "three3", "d" }; regRaw(w, L, nl); int t1, t2; A(w->gdxAddSetText("first text", t1) && w->gdxAddSetText("", t2) && w->gdxSetTextNodeNr(t1, 5), "texts"); A(!w->gdxSetTextNodeNr(t1, 6) && !w->gdxSetTextNodeNr(99, 6) && !w->gdxSetTextNodeNr(-1, 6), "a node number is set once"); 
   A(w->gdxDataWriteRawStart("s", "", 1, GMS_DT_SET, 0), "start"); int k[1] = { 1 }; double v[5] = { (double) t1 }; A(w->gdxDataWriteRaw(k, v) && w->gdxDataWriteDone(), "write");
   if (reading) w.close(); Sess r; if (reading) r.openR("f.gdx"); Sess &s = reading ? r : w;
   static const int nums[8] = { 0, 1, 2, 3, -1, 99, INT_MAX, INT_MIN }; int q = nums[symx_choice(8, "number")]; char b[256]; int um = 7, nd = 7; std::string ex = q >= 1 && q <= nl ? L[q - 1] : "?L__" + std::to_string(q);
   A((s->gdxUMUelGet(q, b, um) != 0) == (q >= 1 && q <= nl) && eqs(b, ex.c_str()) && um == -1, "label of a number");
   memset(b, 'x', sizeof b); int rc = s->gdxGetElemText(q, b, nd); if (q == t1) A(rc && eqs(b, "first text") && nd == (reading ? nd : 5), "text of a number"); else if (q == 0 || q == t2) A(rc && eqs(b, "") && nd == 0, "empty text"); else A(!rc && nd == 0, "no text");
   int un, hm; A(s->gdxUMUelInfo(un, hm) && un == nl && hm == 0, "number of labels"); for (int i = 0; i < nl; i++) { A(s->gdxUMFindUEL(L[i], un, um) && un == i + 1 && um == -1, "number of a label"); } A(!s->gdxUMFindUEL("unknown", un, um) && un == -1 && um == -1, "unknown label");
   A(s->gdxErrorCount() == 0, "no error"); s.close(); symx_cover("end");
}
