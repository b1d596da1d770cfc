// C04: every text (names, labels, explanatory texts, set texts, comments, acronym texts, domain names, producer) survives.
#include "gx.h"
static const unsigned char SP = ' ';
static void symText(char *buf, int len, int ns, const char *nm) { // len characters, the last ns arbitrary (not NUL)
   int nf = len - ns; for (int i = 0; i < nf; i++) buf[i] = (char) ('a' + i % 26);
   symx_bytes(buf + nf, (size_t) ns, nm); for (int i = nf; i < len; i++) symx_assume(buf[i] != 0); buf[len] = 0;
}
// documented normalisation of texts: control characters become '?', all quotes become the first quote used
static void goodText(char *s) { char q = 0; for (; *s; s++) if (*s == '"' || *s == '\'') { if (!q) q = *s; *s = q; } else if ((unsigned char) *s < SP) *s = '?'; }
// branch free comparisons (one solver query instead of one path per character)
static bool same(const char *a, const char *b, int len) { unsigned d = 0; for (int i = 0; i <= len; i++) d |= (unsigned) (unsigned char) (a[i] ^ b[i]); return d == 0; }
static bool quotable(const char *s, int len) { bool s1 = false, s2 = false, bad = false; for (int i = 0; i < len; i++) { s1 |= s[i] == '\''; s2 |= s[i] == '"'; bad |= (unsigned char) s[i] < SP; } return !bad & !(s1 & s2); }
static void put1(Sess &w, const char *nm, const char *tx, int typ = GMS_DT_PAR, int dim = 0) { A(w->gdxDataWriteRawStart(nm, tx, dim, typ, 0), "start"); A(w->gdxDataWriteDone(), "done"); }
ENTRY(c04_expl) {
   int len = P("len", 3), ns = P("ns", 3); static char t[600], e[600], r[600]; symText(t, len, ns, "text"); memcpy(e, t, (size_t) len + 1);
   if (len > 255) { memcpy(e, "String overflow: ", 17); memcpy(e + 17, t, 235); memcpy(e + 252, "...", 4); }
   goodText(e);
   { Sess w; w.openW("f.gdx", P("cmp", 0)); put1(w, "first", "other text"); put1(w, "sym", t); put1(w, "last", ""); int n, ui; A(w->gdxSymbolInfoX(2, n, ui, r) && same(r, e, (int) strlen(e)), "text available while writing"); w.close(); }
   Sess s; s.openR("f.gdx"); int n, ui; A(s->gdxSymbolInfoX(2, n, ui, r) && same(r, e, (int) strlen(e)), "explanatory text read back");
   A(s->gdxSymbolInfoX(1, n, ui, r) && eqs(r, "other text") && s->gdxSymbolInfoX(3, n, ui, r) && eqs(r, ""), "other texts untouched"); symx_cover("end");
}
ENTRY(c04_settext) {
   int len = P("len", 3), ns = P("ns", 3); static char t[600], e[600], r[600]; symText(t, len, ns, "text"); memcpy(e, t, (size_t) len + 1); if (len > 255) e[255] = 0; goodText(e);
   int nr = -1, nr2 = -1, node = 7;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); A(w->gdxAddSetText("first", nr2) && nr2 == 1, "text number"); A(w->gdxAddSetText(t, nr) && nr >= 0, "text added"); int again = -1; A(w->gdxAddSetText(t, again) && again == nr, "same text gets same number");
     A(w->gdxGetElemText(nr, r, node) && same(r, e, (int) strlen(e)), "text available while writing"); w.close(); }
   Sess s; s.openR("f.gdx"); A(s->gdxGetElemText(nr, r, node) && same(r, e, (int) strlen(e)), "set text read back"); A(node == 0, "node number zero without setting");
   A(s->gdxGetElemText(1, r, node) && eqs(r, "first") && s->gdxGetElemText(0, r, node) && eqs(r, ""), "other set texts untouched"); symx_cover("end");
}
ENTRY(c04_comment) {
   int len = P("len", 3), ns = P("ns", 3); static char t[600], r[600]; symText(t, len, ns, "text"); int elen = len > 255 ? 255 : len;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); put1(w, "a", ""); put1(w, "b", ""); A(w->gdxSymbolAddComment(2, "one"), "comment"); A(w->gdxSymbolAddComment(2, t), "comment"); A(w->gdxSymbolAddComment(2, "three"), "comment"); A(w->gdxSymbolAddComment(1, t), "comment"); w.close(); }
   t[elen] = 0; Sess s; s.openR("f.gdx");
   A(s->gdxSymbolGetComment(2, 1, r) && eqs(r, "one") && s->gdxSymbolGetComment(2, 3, r) && eqs(r, "three"), "other comments"); A(s->gdxSymbolGetComment(2, 2, r) && same(r, t, elen), "comment read back"); A(s->gdxSymbolGetComment(1, 1, r) && same(r, t, elen), "comment of another symbol");
   A(!s->gdxSymbolGetComment(2, 4, r) && !r[0] && !s->gdxSymbolGetComment(1, 2, r) && !s->gdxSymbolGetComment(2, 0, r) && !s->gdxSymbolGetComment(3, 1, r), "no further comment"); symx_cover("end");
}
static bool letter(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static bool goodName(const char *s, int len) { bool g = len > 0 && len <= 63; if (len) g &= letter(s[0]); for (int i = 1; i < len; i++) g &= letter(s[i]) | ((s[i] >= '0') & (s[i] <= '9')) | (s[i] == '_'); return g; }
ENTRY(c04_name) { // symbol names
   int len = P("len", 2), ns = P("ns", 2); static char t[300], r[300]; symText(t, len, ns, "name"); if (P("first", 0) && len > 0) { symx_bytes(t, 1, "c0"); symx_assume(t[0] != 0); }
   bool good = goodName(t, len), rej;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); put1(w, "zzz", "z"); int ok = w->gdxDataWriteRawStart(t, "tx", 0, GMS_DT_PAR, 0); A((ok != 0) == good, "a symbol name is accepted exactly when it is an identifier of at most 63 characters"); rej = !ok; if (ok) A(w->gdxDataWriteDone(), "done"); else A(w->gdxGetLastError() == -100012 && w->gdxErrorCount() == 1, "bad name reported"); w.close(); }
   Sess s; s.openR("f.gdx"); int sc, uc, dim, typ; A(s->gdxSystemInfo(sc, uc) && sc == (rej ? 1 : 2), "symbol count"); 
   if (!rej) { A(s->gdxSymbolInfo(2, r, dim, typ) && same(r, t, len) && dim == 0 && typ == GMS_DT_PAR, "name read back"); symx_cover("good"); int nr = 0; A(s->gdxFindSymbol(t, nr) && nr == 2, "symbol found by its name"); A(s->gdxSymbMaxLength() == (len > 3 ? len : 3), "longest symbol name"); } else symx_cover("bad");
   A(s->gdxSymbolInfo(1, r, dim, typ) && eqs(r, "zzz"), "other symbol"); symx_cover("end");
}
ENTRY(c04_uel) { // labels by the four ways of introducing them
   int len = P("len", 2), ns = P("ns", 2), how = P("how", 0); static char t[300], r[300]; symText(t, len, ns, "label");
   int tl = len; while (tl > 0 && (unsigned char) t[tl - 1] <= SP) tl--;
   bool good = tl <= 63 && quotable(t, tl); int ok = 0, nr = 0;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); const char *pre = P("pre", 0) ? "Zq" : nullptr; const char *one[1] = { "Zq" }; regRaw(w, one, pre ? 1 : 0);
     if (how == 0) { A(w->gdxUELRegisterRawStart(), "s"); ok = w->gdxUELRegisterRaw(t); A(w->gdxUELRegisterDone(), "e"); }
     if (how == 1) { A(w->gdxUELRegisterMapStart(), "s"); ok = w->gdxUELRegisterMap(5, t); A(w->gdxUELRegisterDone(), "e"); }
     if (how == 2) { A(w->gdxUELRegisterStrStart(), "s"); ok = w->gdxUELRegisterStr(t, nr); A(w->gdxUELRegisterDone(), "e"); }
     if (how == 3) { A(w->gdxDataWriteStrStart("sym", "", 1, GMS_DT_PAR, 0), "s"); const char *ks[1] = { t }; double v[5] = { 1.5 }; ok = w->gdxDataWriteStr(ks, v); A(w->gdxDataWriteDone(), "e"); }
     A((ok != 0) == good, "a label is accepted exactly when it has at most 63 characters, no control characters and no mixed quotes"); if (!ok) A(w->gdxGetLastError() == -100017, "bad label reported"); w.close(); }
   t[tl] = 0; Sess s; s.openR("f.gdx"); int sc, uc, um, pre = (int) P("pre", 0); A(s->gdxSystemInfo(sc, uc), "info");
   bool known = pre && tl == 2 && (t[0] == 'Z' || t[0] == 'z') && (t[1] == 'q' || t[1] == 'Q');
   A(uc == pre + (good && !known ? 1 : 0), "label count");
   if (good && !known) { A(s->gdxUMUelGet(uc, r, um) && same(r, t, tl) && um == -1, "label read back without trailing blanks"); int f = 0; A(s->gdxUMFindUEL(t, f, um) && f == uc, "label found"); A(s->gdxUELMaxLength() == (tl > 2 || !pre ? tl : 2), "longest label");
      if (how == 3) { int n, df; double v[5]; KeyBuf kb; A(s->gdxDataReadStrStart(1, n) && n == 1 && s->gdxDataReadStr(kb.p, v, df) && same(kb.s[0], t, tl) && v[0] == 1.5, "record by label"); }
      symx_cover("good"); }
   if (good && known) symx_cover("known"); if (!good) symx_cover("bad"); symx_cover("end");
}
ENTRY(c04_domain) { // relaxed domain names
   int len = P("len", 2), ns = P("ns", 2); static char t[300]; symText(t, len, ns, "dom"); bool good = goodName(t, len); KeyBuf kb;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); A(w->gdxDataWriteRawStart("sym", "", 3, GMS_DT_PAR, 0), "s"); A(w->gdxDataWriteDone(), "e"); const char *d[3] = { "ii", t, "*" }; A(w->gdxSymbolSetDomainX(1, d), "set domain names"); w.close(); }
   Sess s; s.openR("f.gdx"); A(s->gdxSymbolGetDomainX(1, kb.p) == 2 && eqs(kb.s[0], "ii") && eqs(kb.s[2], "*"), "domain names");
   if (good) { // names are compared ignoring case: the first spelling is kept
      bool isII = len == 2 && (t[0] == 'i' || t[0] == 'I') && (t[1] == 'i' || t[1] == 'I');
      if (isII) A(eqs(kb.s[1], "ii"), "domain name read back"); else A(same(kb.s[1], t, len), "domain name read back"); symx_cover("good"); }
   else { A(eqs(kb.s[1], "*"), "a name that is no identifier is stored as the universe"); symx_cover("bad"); }
   symx_cover("end");
}
ENTRY(c04_producer) {
   int len = P("len", 3), ns = P("ns", 3); static char t[600], a[300], b[256]; symText(t, len, ns, "producer"); int ec = 9;
   { Sess w; w->gdxAutoConvert(0); A(w->gdxOpenWriteEx("f.gdx", t, (int) P("cmp", 0), ec) && ec == 0, "open"); A(w->gdxFileVersion(a, b) && (len > 255 || same(b, t, len)), "producer while writing"); put1(w, "sym", "text"); w.close(); }
   Sess s; s.openR("f.gdx"); static char a2[300], r[300]; A(s->gdxFileVersion(a2, b) && (len > 255 || same(b, t, len)) && eqs(a, a2), "producer and library line read back");
   int n, ui; A(s->gdxSymbolInfoX(1, n, ui, r) && eqs(r, "text"), "data not affected by the producer string"); symx_cover("end");
}
ENTRY(c04_acronym) {
   int len = P("len", 3), ns = P("ns", 3); static char t[600], e[600], nm[300], tx[256]; symText(t, len, ns, "text"); memcpy(e, t, (size_t) len + 1); goodText(e); int ix;
   { Sess w; w.openW("f.gdx", P("cmp", 0)); A(w->gdxAcronymAdd("acr", t, 7) >= 0, "acronym added"); A(w->gdxAcronymAdd("acr2", "second", 8) >= 0, "acronym added"); A(w->gdxAcronymCount() == 2, "two"); w.close(); }
   Sess s; s.openR("f.gdx"); A(s->gdxAcronymCount() == 2 && s->gdxAcronymGetInfo(1, nm, tx, ix) && eqs(nm, "acr") && ix == 7 && (len > 255 || same(tx, e, len)), "acronym text read back");
   A(s->gdxAcronymGetInfo(2, nm, tx, ix) && eqs(nm, "acr2") && eqs(tx, "second") && ix == 8, "second acronym"); symx_cover("end");
}
