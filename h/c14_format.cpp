// C14: the file format: what is written follows the published layout, and files in that layout (older versions, other byte order) are read.
#include "ref.h"
static const char *L[] = { "alpha", "b", "Gamma 3", "d", "e'x", "f" };
// real writer -> reference decoder
ENTRY(c14_decode) {
   int dim = (int) P("dim", 1), typ = (int) P("typ", GMS_DT_PAR), n = (int) P("n", 2), how = (int) P("how", 0), gap = (int) P("gap", 1), nv = nVals(typ), nl = 3; std::vector<RRec> recs;
   { Sess w; w.openW("f.gdx"); int big = 0; A(w->gdxUELRegisterRawStart(), "r"); for (int i = 0; i < nl; i++) A(w->gdxUELRegisterRaw(L[i]), "r"); if (gap > 1) for (int i = 0; i < gap + 2; i++) { A(w->gdxUELRegisterRaw(lab(i).c_str()), "r"); big++; } A(w->gdxUELRegisterDone(), "r"); int tx = 0; if (typ == GMS_DT_SET) A(w->gdxAddSetText("txt", tx), "t");
     int user = typ == GMS_DT_VAR || typ == GMS_DT_EQU || typ == GMS_DT_SET ? 1 + (int) symx_choice(2, "user info") : 7; if (how == 0) { A(w->gdxDataWriteRawStart("sym", "the text", dim, typ, user), "s"); } else A(w->gdxDataWriteStrStart("sym", "the text", dim, typ, user), "s");
     RRec c; memset(&c, 0, sizeof c); for (int d = 0; d < dim; d++) c.k[d] = 1;
     for (int i = 0; i < n; i++) { if (i) { if (!dim) break; int at = (int) symx_choice(dim, "changed position"); c.k[at] += 1 + (int) symx_choice(2, "step") * (gap > 1 ? gap - 1 : 1); for (int d = at + 1; d < dim; d++) c.k[d] = 1; if (gap <= 1 && c.k[at] > nl) return; } for (int v = 0; v < nv; v++) { if (v == 0 && typ == GMS_DT_SET) c.v[v] = symx_choice(2, "text") ? tx : 0; else c.v[v] = i == 0 && v == (nv > 1 ? (int) P("field", 0) : 0) ? symD("value") : 10.0 * i + v + 3; } if (!belowAcr(bitsOf(c.v[0]))) return; for (int v = 1; v < nv; v++) if (!belowAcr(bitsOf(c.v[v]))) return;
        recs.push_back(c); if (how == 0) { if (c.k[dim ? dim - 1 : 0] > nl + big) return; A(w->gdxDataWriteRaw(c.k, c.v), "w"); } else { const char *k[20]; std::vector<std::string> hold; for (int d = 0; d < dim; d++) hold.push_back(c.k[d] <= nl ? L[c.k[d] - 1] : lab(c.k[d] - nl - 1)); for (int d = 0; d < dim; d++) k[d] = hold[d].c_str(); A(w->gdxDataWriteStr(k, c.v), "w"); } }
     A(w->gdxDataWriteDone(), "d"); if (typ == GMS_DT_SET && dim == 1) A(w->gdxAddAlias("sym", "ali"), "alias"); A(w->gdxSymbolAddComment(1, "note"), "c"); const char *dm[20]; for (int d = 0; d < dim; d++) dm[d] = d ? "dom" : "*"; if (dim) A(w->gdxSymbolSetDomainX(1, dm), "dom"); A(w->gdxAcronymAdd("acr", "atext", 12), "acr"); w.close();
     RFile f = refDecode(fileBytes("f.gdx")); A(f.producer == "harness" && f.compr == 0, "header fields"); A(!f.audit.empty(), "audit line"); A((int) f.uels.size() == nl + big, "label count"); for (int i = 0; i < nl; i++) A(f.uels[i] == L[i], "label"); A(f.texts.size() == (typ == GMS_DT_SET ? 2u : 1u) && f.texts[0].empty(), "texts"); if (tx) A(f.texts[tx] == "txt", "text"); A(f.acrs.size() == 1 && f.acrs[0].name == "acr" && f.acrs[0].text == "atext" && f.acrs[0].nr == 12, "acronym");
     A(f.syms.size() == (typ == GMS_DT_SET && dim == 1 ? 2u : 1u), "symbol count"); auto &s = f.syms[0]; A(s.name == "sym" && s.text == "the text" && s.dim == dim && s.type == typ && s.user == user && s.errors == 0 && s.comments.size() == 1 && s.comments[0] == "note", "symbol entry"); if (f.syms.size() == 2) A(f.syms[1].name == "ali" && f.syms[1].type == GMS_DT_ALIAS && f.syms[1].user == 1, "alias entry");
     if (dim > 1) { A(s.hasRel && s.rel[0] == 0 && s.rel[1] >= 1 && f.doms[s.rel[1] - 1] == "dom", "relaxed domain"); }
     if (dim == 0 && recs.empty()) {} A(s.recs.size() == recs.size(), "record count"); bool st = false; for (size_t i = 0; i < recs.size(); i++) { for (int d = 0; d < dim; d++) A(s.recs[i].k[d] == recs[i].k[d], "key"); for (int v = 0; v < nv; v++) A(bitsOf(s.recs[i].v[v]) == refStored(bitsOf(recs[i].v[v])), "value"); if (typ == GMS_DT_SET && recs[i].v[0] != 0) st = true; } A((s.settext != 0) == st, "text flag"); for (int d = 0; d < dim; d++) for (auto &r : recs) A(s.mn[d] <= r.k[d] && r.k[d] <= s.mx[d], "range"); }
   symx_cover("end");
}
// every symbol entry carries the number of its own rejected records
ENTRY(c14_errors) {
   int how = (int) P("how", 0), ns = (int) P("ns", 3); std::vector<int> er; { Sess w; w.openW("f.gdx"); regRaw(w, L, 3);
     for (int y = 0; y < ns; y++) { std::string nm = "s" + std::to_string(y); A(how ? w->gdxDataWriteStrStart(nm.c_str(), "", 1, GMS_DT_PAR, 0) : w->gdxDataWriteRawStart(nm.c_str(), "", 1, GMS_DT_PAR, 0), "s"); int e = (int) symx_choice(3, "rejected"); er.push_back(e);
        for (int i = 0; i <= e; i++) { int k = 2; double v[5] = { 1.0 + y }; const char *ks[] = { L[1] }; int r = how ? w->gdxDataWriteStr(ks, v) : w->gdxDataWriteRaw(&k, v); A(how ? r == 1 : r == (i == 0), "w"); } A(w->gdxDataWriteDone(), "d"); } w->gdxClose(); }
   RFile f = refDecode(fileBytes("f.gdx")); A((int) f.syms.size() == ns, "symbol count"); for (int y = 0; y < ns; y++) A(f.syms[y].errors == er[y] && f.syms[y].recs.size() == 1, "number of errors of the symbol"); symx_cover("end");
}
// reference encoder -> real reader
ENTRY(c14_encode) {
   RFile f; f.version = (int) P("ver", 7); f.big = P("big", 0); int dim = (int) P("dim", 1), typ = (int) P("typ", GMS_DT_PAR), n = (int) P("n", 2), nv = nVals(typ); long rng = P("range", 3); int nl = (int) (rng < 400 ? rng : 400);
   if (P("y2001", 0)) { f.audit = "GDX Library 1--2001 and so on"; f.uelExtra = 1; }
   for (int i = 0; i < nl; i++) f.uels.push_back(i < 3 ? L[i] : lab(i)); f.texts = { "", "one" }; if (P("dup", 0)) { f.texts = { "", "one", "", "two", "one", "three" }; } int nt = (int) f.texts.size();
   RSym s; s.name = "sym"; s.text = "explained"; s.dim = dim; s.type = typ; s.user = 3; s.errors = 2; s.settext = 1; if (f.version >= 7) { s.comments = { "c1", "c2" }; if (dim && P("dom", 0)) { s.hasDom = true; for (int d = 0; d < dim; d++) s.dom[d] = 0; } }
   RRec c; memset(&c, 0, sizeof c); for (int d = 0; d < dim; d++) { s.mn[d] = 1; s.mx[d] = (int) rng; c.k[d] = 1 + (int) P("base", 0); }
   for (int i = 0; i < n; i++) { if (i) { if (!dim) break; int at = (int) symx_choice(dim, "changed position"); int step = symx_choice(2, "step") ? (int) P("jump", 1) : 1; c.k[at] += step; for (int d = at + 1; d < dim; d++) c.k[d] = 1; if (c.k[at] > rng) return; } c.longForm = symx_choice(2, "long form");
      for (int v = 0; v < nv; v++) { if (typ == GMS_DT_SET) { int t = (int) symx_choice(nt, "text"); c.tag[v] = t == 0 ? 5 : t == 1 ? 6 : t == 2 ? 9 : RTAGN; c.v[v] = t; } else if (i == 0 && v == (nv > 1 ? (int) P("field", 0) : 0)) { c.tag[v] = (int) symx_choice(11, "tag"); c.v[v] = c.tag[v] == RTAGN ? symD("value") : refTag(c.tag[v]); if (!belowAcr(bitsOf(c.v[v])) || bitsOf(c.v[v]) == 0x7ff0000000000000ull) return; } else { c.tag[v] = RTAGN; c.v[v] = 10.0 * i + v + 3; } } s.recs.push_back(c); }
   f.syms.push_back(s); if (typ == GMS_DT_SET && dim == 1) { RSym al; al.name = "ali"; al.type = GMS_DT_ALIAS; al.dim = 1; al.user = 1; al.text = "Aliased with sym"; al.count = (int) s.recs.size(); f.syms.push_back(al); } if (f.version >= 7) { f.acrs = { { "acr", "atext", 12 } }; f.doms = { "dom" }; if (dim && !P("dom", 0)) { f.syms[0].hasRel = true; for (int d = 0; d < dim; d++) f.syms[0].rel[d] = d ? 1 : 0; } }
   auto b = refEncode(f); vfs_put("f.gdx", b.data(), (long) b.size());
   Sess r; r.openR("f.gdx"); int sc, uc, x, y, k[20], df; double v[7]; char t[300], t2[300]; A(r->gdxSystemInfo(sc, uc) && sc == (int) f.syms.size() && uc == nl, "counts"); A(r->gdxFileVersion(t, t2) && f.audit == t && f.producer == t2, "file version"); A(r->gdxFileInfo(x, y) && x == f.version && y == 0, "file info");
   for (int i = 0; i < nl && i < 5; i++) A(r->gdxUMUelGet(i + 1, t, x) && f.uels[i] == t, "label"); A(r->gdxSymbolInfo(1, t, x, y) && eqs(t, "sym") && x == dim && y == typ, "symbol"); A(r->gdxSymbolInfoX(1, x, y, t) && x == (dim ? (int) s.recs.size() : x) && y == 3 && eqs(t, "explained"), "symbol details"); if (f.version >= 7) { A(r->gdxSymbolGetComment(1, 2, t) && eqs(t, "c2") && !r->gdxSymbolGetComment(1, 3, t), "comment"); A(r->gdxAcronymCount() == 1 && r->gdxAcronymGetInfo(1, t, t2, x) && eqs(t, "acr") && eqs(t2, "atext") && x == 12, "acronym"); static KeyBuf kb; if (dim) { int q = r->gdxSymbolGetDomainX(1, kb.p); A(q == (P("dom", 0) ? 3 : 2) || dim == 1 || q > 0, "domain kind"); if (!P("dom", 0) && dim > 1) A(eqs(kb.p[1], "dom"), "domain"); A(eqs(kb.p[0], "*"), "domain"); } }
   for (int y2 = 1; y2 <= sc; y2++) { int api = (int) P("api", 0); static KeyBuf kb; A(api ? r->gdxDataReadStrStart(y2, x) : r->gdxDataReadRawStart(y2, x), "start"); A(x == (int) s.recs.size(), "record count"); for (auto &q : s.recs) { A(api ? r->gdxDataReadStr(kb.p, v, df) : r->gdxDataReadRaw(k, v, df), "record"); for (int d = 0; d < dim; d++) A(api ? f.uels[q.k[d] - 1] == kb.p[d] : k[d] == q.k[d], "key"); if (typ == GMS_DT_SET) { int tn = (int) v[0]; A(r->gdxGetElemText(tn, t, x) && f.texts[(int) q.v[0]] == t, "element text"); } else for (int j = 0; j < nv; j++) A(bitsOf(v[j]) == bitsOf(q.v[j]), "value"); } A(api ? !r->gdxDataReadStr(kb.p, v, df) : !r->gdxDataReadRaw(k, v, df), "end"); }
   r.close(); symx_cover("end");
}
// an arbitrary short file, and a complete file with one arbitrary byte in the header
ENTRY(c13_arbitrary) { int n = (int) P("n", 8); std::vector<unsigned char> b(n + 1); for (int i = 0; i < n; i++) b[i] = (unsigned char) symx_sym(8, "byte"); vfs_put("f.gdx", b.data(), n); Sess s; int e = 0; A(!s->gdxOpenRead("f.gdx", e) && e != 0, "refused with an error"); char m[300]; s->gdxErrorStr(e, m); A(m[0] != 0, "error text"); e = 0; A(!s->gdxOpenAppend("f.gdx", "p", e) && e != 0, "append refused with an error"); symx_cover("end"); }
static void mk(const char *fn, int compr) { Sess w; w.openW(fn, compr); regRaw(w, L, 3); A(w->gdxDataWriteRawStart("p", "t", 1, GMS_DT_PAR, 0), "s"); for (int i = 1; i <= 2; i++) { double v[5] = { 7.5 * i }; A(w->gdxDataWriteRaw(&i, v), "w"); } A(w->gdxDataWriteDone(), "d"); w.close(); }
static void intact(Sess &s) { int sc, uc, n, k[20], df, ty; double v[7]; char t[300]; A(s->gdxSystemInfo(sc, uc) && sc == 1 && uc == 3, "counts"); A(s->gdxSymbolInfo(1, t, n, ty) && eqs(t, "p") && n == 1 && ty == GMS_DT_PAR, "symbol"); for (int i = 0; i < 3; i++) A(s->gdxUMUelGet(i + 1, t, n) && eqs(t, L[i]), "label"); A(s->gdxDataReadRawStart(1, n) && n == 2, "start"); for (int i = 1; i <= 2; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i && v[0] == 7.5 * i, "record"); A(!s->gdxDataReadRaw(k, v, df), "end"); }
// byte offsets: 0..16 byte order, 17 header number, 18..25 identification, 26..29 version, 30..33 compression, then audit line, producer, index
ENTRY(c13_header) {
   mk("f.gdx", (int) P("compr", 0)); auto b = fileBytes("f.gdx"); int at = (int) P("at", 0), n = (int) P("n", 1); bool same = true; long idx = 34; idx += 1 + b[idx]; idx += 1 + b[idx]; if (P("marker", 0)) at = (int) idx; if (P("section", 0)) { unsigned long o = 0; int which = (int) P("section", 0) - 1; for (int i = 7; i >= 0; i--) o = o << 8 | b[idx + 4 + which * 8 + i]; at = (int) o; }
   for (int i = 0; i < n; i++) { unsigned char c = (unsigned char) symx_sym(8, "byte"); if (c != b[at + i]) same = false; b[at + i] = c; }
   symx_assume(!(b[1] == 0x12 && b[2] == 0x34) && b[4] != 0x12 && b[9] != 0x40); // the byte order patterns reversed denote a file of another machine (C14)
   vfs_put("g.gdx", b.data(), (long) b.size()); Sess s; int e = 0, r = s->gdxOpenRead("g.gdx", e);
   if (r) { A(e == 0, "no error"); intact(s); A((int) ((unsigned) b[26] | (unsigned) b[27] << 8 | (unsigned) b[28] << 16 | (unsigned) b[29] << 24) <= 7, "a newer version is refused"); if (!same) symx_cover("harmless"); s.close(); symx_cover("opened"); } else { A(!same && e != 0, "refused only if damaged, with an error"); char m[300]; s->gdxErrorStr(e, m); A(m[0] != 0, "error text"); symx_cover("refused"); s->gdxClose(); s.openR("f.gdx"); intact(s); s.close(); } symx_cover("end");
}
// a compressed file in which the head of a block claims more bytes than a block can have; enough bytes follow for it
ENTRY(c13_block) {
   mk("f.gdx", 1); auto b = fileBytes("f.gdx"); long idx = 34; idx += 1 + b[idx]; idx += 1 + b[idx]; int which = (int) P("section", 0); long at = idx + 80; if (which) { unsigned long o = 0; for (int i = 7; i >= 0; i--) o = o << 8 | b[idx + 4 + (which - 1) * 8 + i]; at = (long) o; }
   for (int i = 0; i < 70000; i++) b.push_back(0); unsigned char t = (unsigned char) symx_sym(8, "block type"), h = (unsigned char) symx_sym(8, "length high"), l = (unsigned char) symx_sym(8, "length low"); if (t == 0 || symx_choice(2, "beyond every block")) symx_assume(((h << 8) | l) > (t == 0 ? 32768 : 39342)); else { static const int few[] = { 32769, 36864, 39341, 39342 }; int f = few[symx_choice(4, "length")]; symx_assume(h == f >> 8 && l == (f & 255)); h = (unsigned char) (f >> 8); l = (unsigned char) f; } b[at] = t; b[at + 1] = h; b[at + 2] = l; vfs_put("g.gdx", b.data(), (long) b.size());
   bool mayPass = t != 0 && ((h << 8) | l) <= 39342; // a compressed block may be followed by unused bytes
   { Sess s; int e = 0, r = s->gdxOpenRead("g.gdx", e); int n; bool ok = r; if (!r) { A(which && e != 0, "refused with an error"); char m[300]; s->gdxErrorStr(e, m); A(m[0] != 0, "error text"); symx_cover("refused"); } else if (A(e == 0, "no error"), !s->gdxDataReadRawStart(1, n)) { ok = false; A(!which && s->gdxErrorCount() > 0, "reported"); symx_cover("refused"); } else { A(s->gdxDataReadDone(), "done"); intact(s); }
     A(!ok || mayPass, "a block that long is refused"); s->gdxClose(); s.openR("f.gdx"); intact(s); s.close(); } symx_cover("end");
}
