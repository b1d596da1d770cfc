// C05: the label registry is a case-insensitive, trailing-blank-insensitive numbering with stable numbers, user numbers and renames.
#include "gx.h"
static char lo(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
static bool eqFold(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (lo(a[i]) != lo(b[i])) return false; return true; }
static std::string trimR(std::string s) { while (!s.empty() && (unsigned char) s.back() <= ' ') s.pop_back(); return s; }
struct Model {
   std::vector<std::string> t; std::vector<int> u; int high = 0;
   int find(const std::string &s) { for (size_t i = 0; i < t.size(); i++) if (eqFold(t[i], s)) return (int) i + 1; return -1; }
   int byUser(int n) { for (size_t i = 0; i < u.size(); i++) if (u[i] == n) return (int) i + 1; return -1; }
   int add(const std::string &s) { int e = find(s); if (e < 0) { t.push_back(s); u.push_back(-1); e = (int) t.size(); } return e; }
};
static const char *LB[] = { "a", "B", "A ", "cc", "b  ", "CC", "d e" };
static const int UN[] = { 4, 1, 9 };
static void check(Sess &w, Model &m) {
   int cnt = -1, high = -1, sc, uc; char t[256]; A(w->gdxUMUelInfo(cnt, high) && cnt == (int) m.t.size() && high == m.high, "label count and highest user number"); A(w->gdxSystemInfo(sc, uc) && uc == cnt, "label count");
   for (int i = 1; i <= cnt; i++) { int um = -5; A(w->gdxUMUelGet(i, t, um) && m.t[i - 1] == t && um == m.u[i - 1], "label and user number by label number"); }
   int um = -5; A(!w->gdxUMUelGet(cnt + 1, t, um) && um == -1 && std::string(t) == "?L__" + std::to_string(cnt + 1), "beyond the last label"); A(!w->gdxUMUelGet(0, t, um), "label number zero");
   for (const char *l : LB) { int nr = -5, e = m.find(trimR(l)); int f = w->gdxUMFindUEL(l, nr, um); A((f != 0) == (e > 0) && nr == e && um == (e > 0 ? m.u[e - 1] : -1), "label found by text"); }
   for (int n = 0; n <= m.high + 1; n++) { int e = m.byUser(n), g = w->gdxGetUEL(n, t); A((g != 0) == (e > 0), "user number registered"); if (e > 0) A(m.t[e - 1] == t, "label of user number"); else A(std::string(t) == "?L__" + std::to_string(n), "no label for the user number"); }
   int mx = 0; for (auto &s : m.t) if ((int) s.size() > mx) mx = (int) s.size(); A(w->gdxUELMaxLength() == mx, "longest label");
}
// an arbitrary sequence of registrations, renames and mode changes
ENTRY(c05_ops) {
   int n = P("n", 3), nl = P("nl", 4), side = P("side", 0), op1 = P("op1", -1); Model m; Sess w;
   if (side == 0) w.openW("f.gdx");
   else { { Sess p; p.openW("f.gdx"); const char *u[] = { "x", "b" }; regRaw(p, u, 2); p.close(); } w.openR("f.gdx"); m.t = { "x", "b" }; m.u = { -1, -1 }; }
   for (int i = 0; i < n; i++) {
      int op = i == 0 && op1 >= 0 ? op1 : (int) symx_choice(4, "op"); if (op == 0 && side) op = 2;
      const char *l = LB[symx_choice((unsigned) nl, "label")]; std::string s = trimR(l);
      if (op == 0) { A(w->gdxUELRegisterRawStart() && w->gdxUELRegisterRaw(l) && w->gdxUELRegisterDone(), "register"); m.add(s); }
      if (op == 1) {
         int c = (int) symx_choice(4, "number"), un = c == 3 ? (int) (0x80000000u | (unsigned) symx_sym(31, "negative")) : (c == 1 && P("zero", 0)) ? 0 : UN[c]; int e = m.find(s), b = un < 0 ? -1 : m.byUser(un);
         A(w->gdxUELRegisterMapStart(), "map start"); int ok = w->gdxUELRegisterMap(un, l); A(w->gdxUELRegisterDone(), "map done");
         if (un < 0) { A(!ok && w->gdxGetLastError() == -100004, "negative user number refused"); } else if (b >= 0 && b != e) { A(!ok && w->gdxGetLastError() == -100013, "a user number keeps its label"); symx_cover("number in use"); }
         else { e = m.add(s); bool good = m.u[e - 1] < 0 || m.u[e - 1] == un; A((ok != 0) == good, "a label keeps its user number"); if (!good) A(w->gdxGetLastError() == -100013, "conflict reported"); else { m.u[e - 1] = un; if (un > m.high) m.high = un; } }
      }
      if (op == 2) {
         int nr = -7; A(w->gdxUELRegisterStrStart() && w->gdxUELRegisterStr(l, nr) && w->gdxUELRegisterDone(), "register by text");
         int e = m.add(s); if (m.u[e - 1] < 0) m.u[e - 1] = ++m.high; A(nr == m.u[e - 1], "user number assigned to the label");
      }
      if (op == 3) {
         const char *nw = LB[symx_choice((unsigned) nl, "newlabel")]; std::string ns = trimR(nw); int e = m.find(s), r = w->gdxRenameUEL(l, nw), x = e < 0 ? 2 : m.find(ns) >= 0 ? 3 : 0;
         A(r == x, "rename result"); if (!x) { m.t[e - 1] = ns; symx_cover("renamed"); }
      }
      check(w, m);
   }
   if (side == 0) {
      w.close(); Sess s; s.openR("f.gdx"); for (auto &x : m.u) x = -1; m.high = 0; check(s, m);
      int k, df; double v[5]; KeyBuf kb; A(s->gdxDataReadStrStart(0, k) && k == (int) m.t.size(), "universe"); for (auto &t : m.t) A(s->gdxDataReadStr(kb.p, v, df) && t == kb.s[0], "universe lists all labels in order"); A(!s->gdxDataReadStr(kb.p, v, df), "universe end");
   }
   symx_cover("end");
}
// renaming to an arbitrary text
ENTRY(c05_rename) {
   int len = P("len", 2), side = P("side", 0), which = P("which", 1); static char t[300], r[300]; memset(t, 'k', sizeof t); int ns = (int) P("ns", 2); symx_bytes(t + len - ns, (size_t) ns, "new"); for (int i = len - ns; i < len; i++) symx_assume(t[i] != 0); t[len] = 0;
   int tl = len; while (tl > 0 && (unsigned char) t[tl - 1] <= ' ') tl--; bool s1 = false, s2 = false, bad = tl > 63; for (int i = 0; i < tl; i++) { s1 |= t[i] == '\''; s2 |= t[i] == '"'; bad |= (unsigned char) t[i] < ' '; } bad |= s1 & s2;
   static const char *L[] = { "Ab", "x", "" }; const char *u[] = { "Ab", "x" }; 
   { Sess p; p.openW("f.gdx"); regRaw(p, u, 2); A(p->gdxDataWriteStrStart("s", "", 1, GMS_DT_PAR, 0), "s"); for (int i = 0; i < 2; i++) { const char *k[] = { u[i] }; double v[] = { i + 1.0, 0, 0, 0, 0 }; A(p->gdxDataWriteStr(k, v), "w"); } A(p->gdxDataWriteDone(), "d");
     if (side == 0) { int rr = p->gdxRenameUEL(L[which], t); bool same0 = tl == 2 && lo(t[0]) == 'a' && lo(t[1]) == 'b', same1 = tl == 1 && lo(t[0]) == 'x'; A(rr == (bad ? -100017 : same0 || same1 ? 3 : 0), "rename result"); }
     p.close(); }
   Sess s; s.openR("f.gdx"); if (side == 1) { int rr = s->gdxRenameUEL(L[which], t); bool same0 = tl == 2 && lo(t[0]) == 'a' && lo(t[1]) == 'b', same1 = tl == 1 && lo(t[0]) == 'x'; A(rr == (bad ? -100017 : same0 || same1 ? 3 : 0), "rename result"); }
   t[tl] = 0; bool done = !bad && !(tl == 2 && lo(t[0]) == 'a' && lo(t[1]) == 'b') && !(tl == 1 && lo(t[0]) == 'x');
   int n, df, nr, um; double v[5]; KeyBuf kb; A(s->gdxDataReadStrStart(1, n) && n == 2, "records");
   for (int i = 0; i < 2; i++) { A(s->gdxDataReadStr(kb.p, v, df) && v[0] == i + 1, "record"); if (i == which && done) { unsigned d = 0; for (int j = 0; j <= tl; j++) d |= (unsigned char) (kb.s[0][j] ^ t[j]); A(d == 0, "records carry the new label"); } else A(eqs(kb.s[0], u[i]), "label unchanged"); }
   if (done) { A(s->gdxUMFindUEL(t, nr, um) && nr == which + 1, "found by the new label"); A(!s->gdxUMFindUEL(u[which], nr, um) && nr == -1, "not found by the old label"); symx_cover("renamed"); } else { A(s->gdxUMFindUEL(u[which], nr, um) && nr == which + 1, "still found by the old label"); symx_cover("refused"); }
   A(s->gdxUMFindUEL(u[1 - which], nr, um) && nr == 2 - which, "other label"); symx_cover("end"); (void) r;
}
// many labels: numbering and look-up across growth of the table; two arbitrary positions are queried and one is renamed
ENTRY(c05_many) {
   int n = P("n", 1502), side = P("side", 0); Sess w; w.openW("f.gdx"); A(w->gdxUELRegisterRawStart(), "s"); for (int i = 0; i < n; i++) A(w->gdxUELRegisterRaw(lab(i).c_str()), "r"); A(w->gdxUELRegisterDone(), "d");
   int nr, um; int c = (int) symx_choice(6, "pos"); int pos[6] = { 0, 1, n / 2, n - 3, n - 2, n - 1 }; std::string nn = "new", ol = lab(pos[c]); if (side == 0) A(w->gdxRenameUEL(ol.c_str(), "new") == 0, "rename");
   if (side == 0) { for (int i = 0; i < n; i++) { bool f = w->gdxUMFindUEL(("U" + std::to_string(i)).c_str(), nr, um); A(f == (i != pos[c]) && (!f || nr == i + 1), "every label keeps its number"); } A(w->gdxUMFindUEL("NEW  ", nr, um) && nr == pos[c] + 1, "renamed label"); }
   w.close(); Sess s; s.openR("f.gdx"); if (side) A(s->gdxRenameUEL(ol.c_str(), "new") == 0, "rename"); char t[256];
   for (int i = 0; i < n; i++) { std::string x = i == pos[c] ? nn : lab(i); A(s->gdxUMUelGet(i + 1, t, um) && x == t, "label by number"); A(s->gdxUMFindUEL(x.c_str(), nr, um) && nr == i + 1, "label by text"); }
   A(!s->gdxUMFindUEL(ol.c_str(), nr, um), "old label gone"); symx_cover("end");
}
