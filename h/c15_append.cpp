// C15: appending keeps what is in the file and adds exactly what is written.
#include "ref.h"
struct MRec { std::vector<std::string> k; double v[5]; std::string txt; };
struct MSym { std::string name, text; int dim, typ, user; std::vector<MRec> recs; std::vector<std::string> com, dom; int strict = 0; };
struct Model { std::vector<std::string> uels; std::vector<MSym> syms; std::vector<std::string> acr; std::vector<int> acrNr; int step = 0; int setSym = 0; };
static int uelOf(Model &m, const std::string &s) { for (size_t i = 0; i < m.uels.size(); i++) if (m.uels[i] == s) return (int) i + 1; m.uels.push_back(s); return (int) m.uels.size(); }
static void setup(Model &m, Sess &w) { // what every file starts with
   const char *u[] = { "a", "b", "c" }; regRaw(w, u, 3); for (auto x : u) m.uels.push_back(x); int t1; A(w->gdxAddSetText("old text", t1), "text");
   A(w->gdxDataWriteRawStart("base", "base set", 1, GMS_DT_SET, 0), "start"); MSym s { "base", "base set", 1, GMS_DT_SET, 0 };
   for (int i = 1; i <= 2; i++) { double v[5] = { i == 2 ? (double) t1 : 0.0 }; A(w->gdxDataWriteRaw(&i, v), "write"); MRec r; r.k = { u[i - 1] }; r.v[0] = v[0]; r.txt = i == 2 ? "old text" : ""; s.recs.push_back(r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s); m.setSym = 1;
   A(w->gdxSymbolAddComment(1, "first comment"), "comment"); m.syms[0].com.push_back("first comment");
   A(w->gdxAcronymAdd("oldacr", "acronym text", 5), "acronym"); m.acr.push_back("oldacr"); m.acrNr.push_back(5);
}
static void doOp(Model &m, Sess &w, int op) {
   int st = ++m.step; std::string nm = "s" + std::to_string(st); MSym s { nm, "text " + nm, 1, GMS_DT_PAR, 0 };
   if (op == 0) { // strings: an old and a new label
      A(w->gdxDataWriteStrStart(nm.c_str(), s.text.c_str(), 1, GMS_DT_PAR, 0), "start"); const char *ks[2] = { "b", nm.c_str() }; for (auto k : ks) { double v[5] = { symV("value") }; A(w->gdxDataWriteStr(&k, v), "write"); MRec r; r.k = { k }; r.v[0] = v[0]; uelOf(m, k); s.recs.push_back(r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s);
   } else if (op == 1) { // set with an old and a new text
      std::string l = "raw" + nm; A(w->gdxUELRegisterRawStart() && w->gdxUELRegisterRaw(l.c_str()) && w->gdxUELRegisterDone(), "register"); uelOf(m, l); int nr = uelOf(m, l); int t1, t2; std::string nt = "new text " + nm; A(w->gdxAddSetText(nt.c_str(), t2) && w->gdxAddSetText("old text", t1), "text"); s.typ = GMS_DT_SET; s.user = 1; A(w->gdxDataWriteRawStart(nm.c_str(), s.text.c_str(), 1, GMS_DT_SET, 1), "start");
      int ks[3] = { 1, 3, nr }; double ts[3] = { (double) t1, 0, (double) t2 }; for (int i = 0; i < 3; i++) { A(w->gdxDataWriteRaw(&ks[i], &ts[i]), "write"); MRec r; r.k = { m.uels[ks[i] - 1] }; r.txt = i == 0 ? "old text" : i == 2 ? nt : ""; r.v[0] = ts[i]; s.recs.push_back(r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s);
   } else if (op == 2) { A(w->gdxAddAlias("base", nm.c_str()), "alias"); s.typ = GMS_DT_ALIAS; s.text = "Aliased with base"; s.user = 1; s.recs = m.syms[0].recs; m.syms.push_back(s); }
   else if (op == 3) { // mapped, two dimensions, user numbers in another order than the labels
      std::string l = "map" + nm; A(w->gdxUELRegisterMapStart() && w->gdxUELRegisterMap(100 + 2 * st, l.c_str()) && w->gdxUELRegisterMap(200 - 1, "a") && w->gdxUELRegisterDone(), "register"); uelOf(m, l); s.typ = GMS_DT_VAR; s.dim = 2; s.user = 3;
      A(w->gdxDataWriteMapStart(nm.c_str(), s.text.c_str(), 2, GMS_DT_VAR, 3), "start"); int ks[2][2] = { { 100 + 2 * st, 199 }, { 199, 100 + 2 * st } }; for (int i = 0; i < 2; i++) { double v[5] = { symV("value"), 0, 1e12, -2.5, 1 }; A(w->gdxDataWriteMap(ks[i], v), "write"); MRec r; r.k = i == 0 ? std::vector<std::string> { l, "a" } : std::vector<std::string> { "a", l }; memcpy(r.v, v, sizeof r.v); s.recs.insert(s.recs.begin(), r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s);
   } else if (op == 4) { // acronyms by value: an old and a new one
      A(w->gdxDataWriteRawStart(nm.c_str(), s.text.c_str(), 1, GMS_DT_PAR, 0), "start"); int nrs[2] = { 5, 10 + st }; for (int i = 0; i < 2; i++) { int k = i + 1; double v[5] = { w->gdxAcronymValue(nrs[i]) }; A(w->gdxDataWriteRaw(&k, v), "write"); MRec r; r.k = { m.uels[i] }; r.v[0] = v[0]; s.recs.push_back(r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s); m.acr.push_back(""); m.acrNr.push_back(10 + st);
   } else if (op == 5) { std::string c = "comment " + nm; A(w->gdxSymbolAddComment(1, c.c_str()), "comment"); m.syms[0].com.push_back(c); std::string d = "dom" + nm; const char *dd[1] = { d.c_str() }; A(w->gdxSymbolSetDomainX(1, dd), "domain"); m.syms[0].dom = { d }; }
   else if (op == 6) { std::string l = "ren" + nm; std::string o = m.uels[2]; A(w->gdxRenameUEL(o.c_str(), l.c_str()) == 0, "rename"); m.uels[2] = l; for (auto &x : m.syms) for (auto &r : x.recs) for (auto &k : r.k) if (k == o) k = l; }
   else if (op == 7) { // domain given by the oldest set
      A(w->gdxDataWriteRawStart(nm.c_str(), s.text.c_str(), 1, GMS_DT_EQU, 2), "start"); const char *dd[1] = { "base" }; A(w->gdxSymbolSetDomain(dd), "domain"); s.typ = GMS_DT_EQU; s.user = 2; s.dom = { "base" }; s.strict = 1; for (int k = 1; k <= 2; k++) { double v[5] = { symV("value"), 1, 2, 3, 4 }; A(w->gdxDataWriteRaw(&k, v), "write"); MRec r; r.k = { m.uels[k - 1] }; memcpy(r.v, v, sizeof r.v); s.recs.push_back(r); } A(w->gdxDataWriteDone(), "done"); m.syms.push_back(s);
   } else if (op == 8) { s.dim = 0; double v[5] = { symV("value") }; int k; A(w->gdxDataWriteRawStart(nm.c_str(), s.text.c_str(), 0, GMS_DT_PAR, 0) && w->gdxDataWriteRaw(&k, v) && w->gdxDataWriteDone(), "scalar"); MRec r; r.v[0] = v[0]; s.recs.push_back(r); m.syms.push_back(s);
   } else { // a duplicate name is refused and leaves nothing behind
      A(!w->gdxDataWriteRawStart("BASE", "", 1, GMS_DT_PAR, 0), "existing symbol refused"); A(!w->gdxAddAlias("base", "oldacr"), "existing acronym refused"); w->gdxGetLastError();
   }
}
static void verify(Model &m, const char *fn, int compr) {
   Sess r; r.openR(fn); int sc, uc, x, y, z, df; char t[300], t2[300]; double v[7]; int k[20]; static KeyBuf kb; A(r->gdxSystemInfo(sc, uc) && sc == (int) m.syms.size() && uc == (int) m.uels.size(), "symbol and label count"); A(r->gdxFileVersion(t, t2) && eqs(t2, "harness"), "producer"); A(r->gdxFileInfo(x, y) && x == 7 && (y != 0) == (compr != 0), "compression kept");
   for (size_t i = 0; i < m.uels.size(); i++) A(r->gdxUMUelGet((int) i + 1, t, x) && m.uels[i] == t, "label");
   A(r->gdxAcronymCount() == (int) m.acr.size(), "acronym count"); for (size_t i = 0; i < m.acr.size(); i++) { A(r->gdxAcronymGetInfo((int) i + 1, t, t2, x) && x == m.acrNr[i] && (m.acr[i].empty() || m.acr[i] == t) && (i || eqs(t2, "acronym text")), "acronym entry"); }
   for (size_t i = 0; i < m.syms.size(); i++) { auto &s = m.syms[i]; int n = (int) i + 1; A(r->gdxSymbolInfo(n, t, x, y) && s.name == t && x == s.dim && y == s.typ, "symbol"); A(r->gdxSymbolInfoX(n, x, y, t) && (s.typ == GMS_DT_ALIAS || x == (int) s.recs.size()) && y == s.user && s.text == t, "symbol details"); A(r->gdxFindSymbol(s.name.c_str(), x) && x == n, "find symbol"); for (size_t c = 0; c < s.com.size(); c++) A(r->gdxSymbolGetComment(n, (int) c + 1, t) && s.com[c] == t, "comment"); A(!r->gdxSymbolGetComment(n, (int) s.com.size() + 1, t), "comment count"); if (s.dim) { int q = r->gdxSymbolGetDomainX(n, kb.p); A(q == (s.typ == GMS_DT_ALIAS ? q : s.strict ? 3 : s.dom.empty() ? 1 : 2), "domain kind"); if (s.typ != GMS_DT_ALIAS) for (int d = 0; d < s.dim; d++) A(eqs(kb.p[d], s.dom.empty() ? "*" : s.dom[d].c_str()), "domain"); }
      bool st = P("str", 0); A(st ? r->gdxDataReadStrStart(n, x) : r->gdxDataReadRawStart(n, x), "start reading"); A(x == (int) s.recs.size(), "record count"); // expected order: by label number
      std::vector<int> ord; for (size_t j = 0; j < s.recs.size(); j++) ord.push_back((int) j);
      for (int j : ord) { auto &q = s.recs[j]; A(st ? r->gdxDataReadStr(kb.p, v, df) : r->gdxDataReadRaw(k, v, df), "record"); for (int d = 0; d < s.dim; d++) A(st ? q.k[d] == kb.p[d] : m.uels[k[d] - 1] == q.k[d], "key"); if (s.typ == GMS_DT_SET || s.typ == GMS_DT_ALIAS) { t[0] = 0; if (v[0] != 0) A(r->gdxGetElemText((int) v[0], t, z), "element text"); A(q.txt == t, "element text"); } else for (int f = 0; f < nVals(s.typ); f++) A(v[f] == q.v[f], "value"); } A(st ? !r->gdxDataReadStr(kb.p, v, df) : !r->gdxDataReadRaw(k, v, df), "end"); A(r->gdxDataReadDone(), "done"); }
   r.close();
}
// the handle was used for something else before
static void before(Sess &w) { int c = (int) symx_choice(5, "earlier use"), e; const char *k[1] = { "x" }; double v[5] = { 1e301 };
   if (c < 2) { w.openW("g.gdx", c); A(w->gdxDataWriteStrStart("q", "", 1, GMS_DT_PAR, 0) && w->gdxDataWriteStr(k, v) && w->gdxDataWriteDone() && w->gdxSymbolAddComment(1, "other") && w->gdxAcronymAdd("oacr", "", 77), "other file"); w.close(); symx_cover("before"); }
   else { { Sess o; o.openW("g.gdx", c == 2); A(o->gdxDataWriteStrStart("q", "", 1, GMS_DT_PAR, 0) && o->gdxDataWriteStr(k, v) && o->gdxDataWriteDone(), "other file"); o.close(); } if (c < 4) { w.openR("g.gdx"); int n; A(w->gdxDataReadStrStart(1, n), "read"); w->gdxClose(); } else { vfs_put("h.gdx", "nothing", 7); A(!w->gdxOpenAppend("h.gdx", "p", e) && !w->gdxOpenRead("h.gdx", e), "refused"); } } }
// moves the tables of the file beyond the given place, as if its data were that long
static void makeFar(const char *fn, long to) {
   auto b = fileBytes(fn); size_t i = 0; while (i + 52 < b.size() && !(b[i] == 0x60 && b[i + 1] == 0xb5 && b[i + 2] == 0x29 && b[i + 3] == 0x01)) i++; A(i + 52 < b.size(), "index of the file");
   auto get = [&](int n) { int64_t v; memcpy(&v, &b[i + 4 + 8 * n], 8); return v; }; int64_t at = get(0); A(get(4) == at, "tables follow the data");
   for (int n = 0; n < 6; n++) { int64_t v = get(n) + (to - at); memcpy(&b[i + 4 + 8 * n], &v, 8); } vfs_put(fn, b.data(), (long) b.size()); vfs_hole(fn, at, to - at);
}
// n operations; before each one the file may be closed and appended to (the last time always)
ENTRY(c15_append) { int far = (int) P("far", 0); static const long PLACE[] = { 0, 0x7fffffb0l, 0xffffffb0l, 0x50000000001l };
   Model m; int n = (int) P("n", 2), compr = (int) P("compr", 0), o0 = (int) P("op", -1), same = (int) P("same", 0), sp = (int) P("split", 0), o1 = (int) P("op1", -1); std::vector<Sess *> all; Sess *w = new Sess; w->openW("f.gdx", compr); setup(m, *w);
   for (int i = 0; i < n; i++) { bool split = i == n - 1 || (sp ? sp == 1 : symx_choice(2, "append here")); if (split) { w->close(); if (far) { makeFar("f.gdx", PLACE[far]); far = 0; } if (!same) { delete w; w = new Sess; } if (P("pre", 0)) before(*w); w->openA("f.gdx"); } doOp(m, *w, i == n - 1 && o0 >= 0 ? o0 : i == n - 2 && o1 >= 0 ? o1 : (int) symx_choice(10, "operation")); }
   w->close(); verify(m, "f.gdx", compr); { Sess e; e.openA("f.gdx"); e.close(); } verify(m, "f.gdx", compr); symx_cover("end"); delete w;
}
// what cannot be extended correctly is refused and left alone
ENTRY(c15_refuse) {
   RFile f; f.version = (int) P("ver", 6); f.big = P("big", 0); f.uels = { "a", "b" }; f.texts = { "", "one" }; RSym s; s.name = "sym"; s.text = "x"; s.dim = 1; s.type = GMS_DT_PAR; s.user = 0; s.errors = 0; s.mn[0] = 1; s.mx[0] = 2; for (int i = 1; i <= 2; i++) { RRec c; memset(&c, 0, sizeof c); c.k[0] = i; c.tag[0] = RTAGN; c.v[0] = symV("value"); s.recs.push_back(c); } f.syms.push_back(s);
   auto b = refEncode(f); vfs_put("f.gdx", b.data(), (long) b.size()); Sess g; int e = 0, r = g->gdxOpenAppend("f.gdx", "p", e); bool must = f.version < 7 || f.big; if (must) A(!r && e != 0, "refused with an error number"); else A(r && e == 0, "opened for append"); if (r) g.close();
   if (must) { auto c = fileBytes("f.gdx"); A(c == b, "the file is unchanged"); } Sess q; q.openR("f.gdx"); int x, k[20], df; double v[7]; A(q->gdxDataReadRawStart(1, x) && x == 2, "start"); for (int i = 0; i < 2; i++) A(q->gdxDataReadRaw(k, v, df) && k[0] == i + 1 && v[0] == s.recs[i].v[0], "record"); q.close(); Sess h; h.openW("g.gdx"); h.close(); symx_cover("end");
}
// element texts stored more than once in the file (as early writers did)
ENTRY(c15_dup) {
   RFile f; f.uels = { "a", "b", "c" }; f.texts = { "", "one", "", "two", "one", "three" }; RSym s; s.name = "sym"; s.text = "x"; s.dim = 1; s.type = GMS_DT_SET; s.user = 0; s.errors = 0; s.settext = 1; s.mn[0] = 1; s.mx[0] = 3; for (int i = 1; i <= 3; i++) { RRec c; memset(&c, 0, sizeof c); c.k[0] = i; int t = (int) symx_choice(6, "text"); c.tag[0] = t == 0 ? 5 : t == 1 ? 6 : t == 2 ? 9 : RTAGN; c.v[0] = t; s.recs.push_back(c); } f.syms.push_back(s);
   auto b = refEncode(f); vfs_put("f.gdx", b.data(), (long) b.size()); int nt, t1, t2; Sess g; int e = 0; if (g->gdxOpenAppend("f.gdx", "p", e)) { A(e == 0, "e"); A(g->gdxAddSetText("two", t1) && g->gdxAddSetText("fresh", t2), "t"); A(g->gdxDataWriteRawStart("nw", "", 1, GMS_DT_SET, 0), "s"); int k = 1; double v[5] = { (double) t1 }; A(g->gdxDataWriteRaw(&k, v), "w"); k = 2; v[0] = t2; A(g->gdxDataWriteRaw(&k, v), "w"); A(g->gdxDataWriteDone(), "d"); g.close(); symx_cover("appended"); } else A(e != 0, "refused with an error");
   Sess q; q.openR("f.gdx"); int x, k[20], df; double v[7]; char t[300]; A(q->gdxDataReadRawStart(1, x) && x == 3, "start"); for (int i = 0; i < 3; i++) { A(q->gdxDataReadRaw(k, v, df) && k[0] == i + 1, "record"); t[0] = 0; if (v[0] != 0) A(q->gdxGetElemText((int) v[0], t, nt), "text"); A(f.texts[(int) s.recs[i].v[0]] == t, "element text kept"); } A(q->gdxDataReadDone(), "d");
   if (e == 0) { A(q->gdxDataReadRawStart(2, x) && x == 2, "start"); A(q->gdxDataReadRaw(k, v, df) && q->gdxGetElemText((int) v[0], t, nt) && eqs(t, "two"), "new text"); A(q->gdxDataReadRaw(k, v, df) && q->gdxGetElemText((int) v[0], t, nt) && eqs(t, "fresh"), "new text"); } q.close(); symx_cover("end");
}
