// C09: acronyms.
#include "gx.h"
ENTRY(c09_index) {
   int n = symU("index", P("bits", 4)) + P("base", 1); Sess s; double v = s->gdxAcronymValue(n); A(s->gdxAcronymIndex(v) == n, "index of the value of an index"); symx_cover("end");
}
struct Ac { std::string name, text; int idx, map; bool aut; };
static const char *NM[] = { "Red", "rEd", "blue", "green9" };
static bool sameName(const std::string &a, const char *b) { return strcasecmp(a.c_str(), b) == 0; }
static void checkTable(Sess &s, const std::vector<Ac> &m, bool reading) {
   A(s->gdxAcronymCount() == (int) m.size(), "number of acronyms"); char nm[256], tx[256]; int ix, o, nw, au;
   for (size_t i = 0; i < m.size(); i++) { A(s->gdxAcronymGetInfo((int) i + 1, nm, tx, ix) && m[i].name == nm && m[i].text == tx && ix == m[i].idx, "acronym entry"); A(s->gdxAcronymGetMapping((int) i + 1, o, nw, au) && o == m[i].idx && (!reading || nw == m[i].map) && (au != 0) == m[i].aut, "acronym mapping"); }
}
// histories of explicit additions, implicit additions (by data) and naming while writing; the table reads back
ENTRY(c09_write) {
   int n = P("n", 2); std::vector<Ac> m; std::vector<double> data; int arb = symI("bad number"); static const int IX[] = { 1, 2, 300, 17976931 };
   { Sess w; w.openW("f.gdx"); const char *L[] = { "a", "b", "c", "d", "e" }; regRaw(w, L, 5);
     for (int st = 0; st < n; st++) { int op = st == 0 && P("op", -1) >= 0 ? P("op", 0) : (int) symx_choice(3, "op");
        if (op == 0) { const char *nm = NM[symx_choice(4, "name")]; int ix = IX[symx_choice(3, "index")]; int dn = -1, di = -1; for (size_t i = 0; i < m.size(); i++) { if (dn < 0 && sameName(m[i].name, nm)) dn = (int) i; if (di < 0 && m[i].idx == ix) di = (int) i; }
           int r = w->gdxAcronymAdd(nm, "text of it", ix); if (dn >= 0 && m[dn].idx == ix) A(r == 0, "same name and index again"); else if (dn >= 0 || di >= 0) { A(r == -1, "conflicting acronym refused"); A(w->gdxGetLastError() == -100051, "reported"); } else { m.push_back({ nm, "text of it", ix, ix, false }); A(r == (int) m.size(), "number in the table"); } }
        else if (op == 1) { int ix = IX[symx_choice(4, "index")]; data.push_back(w->gdxAcronymValue(ix)); std::string nm = "s" + std::to_string(st); A(w->gdxDataWriteRawStart(nm.c_str(), "", 1, GMS_DT_PAR, 0), "s"); int k = 1; double v[5] = { data.back() }; A(w->gdxDataWriteRaw(&k, v) && w->gdxDataWriteDone(), "w"); bool f = false; for (auto &a : m) f |= a.idx == ix; if (!f) m.push_back({ "", "", ix, -1, false }); }
        else { int N = (int) symx_choice(3, "entry") + 0; const char *nm = NM[symx_choice(4, "name")]; int ix = IX[symx_choice(2, "index")]; bool ok = N >= 1 && N <= (int) m.size(), dup = false; for (auto &a : m) dup |= sameName(a.name, nm); bool exp = ok && !dup && m[N - 1].idx == ix; bool r = w->gdxAcronymSetInfo(N, nm, "new 'text\"", ix); A(r == exp, "naming succeeds exactly for an existing entry, a new name and its index"); w->gdxGetLastError(); if (exp) { m[N - 1].name = nm; m[N - 1].text = "new 'text'"; } }
        checkTable(w, m, false); }
     symx_assume(arb < 1 || arb > (int) m.size()); int o, nw, au; char nm[256], tx[256]; A(!w->gdxAcronymGetInfo(arb, nm, tx, o) && nm[0] == 0, "bad acronym number"); A(!w->gdxAcronymGetMapping(arb, o, nw, au), "bad acronym number refused"); A(!w->gdxAcronymSetInfo(arb, "fresh", "", 1), "bad acronym number refused"); w->gdxGetLastError();
     w.close(); }
   for (auto &a : m) { if (a.name.empty()) a.name = "UnknownACRO" + std::to_string(a.idx); a.map = -1; }
   Sess s; s.openR("f.gdx"); checkTable(s, m, true);
   int y = 0; for (double x : data) { y++; int c, k[20], df; double v[5]; A(s->gdxDataReadRawStart(y, c) && s->gdxDataReadRaw(k, v, df) && v[0] == x && s->gdxDataReadDone(), "acronym value"); char nm[256]; bool f = false; for (auto &a : m) if (s->gdxAcronymIndex(x) == a.idx) f = true; A(f, "used acronym is in the table"); A(s->gdxAcronymName(x, nm), "name"); for (auto &a : m) if (s->gdxAcronymIndex(x) == a.idx) A(a.name == nm, "name of the value"); }
   symx_cover("end"); if (!data.empty() && m.size() > 1) symx_cover("mixed");
}
// a value of any acronym number written as data enters that number, and reads back under its name
ENTRY(c09_use) {
   int ix = P("base", 1) + (int) symx_choice(P("n", 64), "index"); bool named = symx_choice(2, "named"); double x;
   { Sess w; w.openW("f.gdx"); const char *L[] = { "a" }; regRaw(w, L, 1); if (named) A(w->gdxAcronymAdd("Red", "r", ix) == 1, "add"); x = w->gdxAcronymValue(ix); A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0), "s"); int k = 1; double v[5] = { x }; A(w->gdxDataWriteRaw(&k, v) && w->gdxDataWriteDone(), "w"); checkTable(w, { { named ? "Red" : "", named ? "r" : "", ix, ix, false } }, false); w.close(); }
   Sess s; s.openR("f.gdx"); std::string nm0 = named ? "Red" : "UnknownACRO" + std::to_string(ix); checkTable(s, { { nm0, named ? "r" : "", ix, -1, false } }, true); int mapped = symx_choice(2, "renumber") ? 53 : 0; if (mapped) A(s->gdxAcronymSetInfo(1, nm0.c_str(), "", mapped), "renumber");
   int c, k[20], df; double v[5]; A(s->gdxDataReadRawStart(1, c) && s->gdxDataReadRaw(k, v, df) && s->gdxDataReadDone(), "r"); A(v[0] == (mapped ? s->gdxAcronymValue(mapped) : x) && s->gdxAcronymIndex(v[0]) == (mapped ? mapped : ix), "acronym value read"); char nm[256]; A(s->gdxAcronymName(x, nm) && nm0 == nm, "name of the value in the file"); symx_cover("end");
}
// reading: renumbering by SetInfo, automatic numbers, mapping to NaN
ENTRY(c09_read) {
   static const int IX[] = { 4, 9, 2 }; { Sess w; w.openW("f.gdx"); A(w->gdxAcronymAdd("Red", "r", 4) == 1 && w->gdxAcronymAdd("Blue", "b", 9) == 2, "add"); A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0), "s"); for (int i = 0; i < 3; i++) { int k = i + 1; double v[5] = { w->gdxAcronymValue(IX[i]) }; A(w->gdxDataWriteRaw(&k, v), "w"); } A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); std::vector<Ac> m = { { "Red", "r", 4, -1, false }, { "Blue", "b", 9, -1, false }, { "UnknownACRO2", "", 2, -1, false } }; static const int MAP[] = { 4, 9, 2, 30, 31 };
   int next = symx_choice(2, "auto") ? 100 + symU("next", 8) : 0; A(s->gdxAcronymNextNr(next) == 0, "previous value"); A(s->gdxAcronymNextNr(-5) == next, "negative values are ignored"); bool nan = symx_choice(2, "nan"); if (nan) s->gdxMapAcronymsToNaNSet(1); A((s->gdxMapAcronymsToNaN() != 0) == nan, "flag");
   for (int st = 0; st < P("n", 2); st++) { int N = (int) symx_choice(3, "entry"); int to = MAP[symx_choice(5, "to")]; int nameOk = (int) symx_choice(2, "rightname"); const char *nm = nameOk ? (N == 0 ? "rEd" : N == 1 ? "BLUE" : "unknownacro2") : "other"; bool uniq = true; for (auto &a : m) if (a.map == to) uniq = false; bool same = m[N].map == to; bool exp = same || (nameOk && uniq);
      A((s->gdxAcronymSetInfo(N + 1, nm, "", to) != 0) == exp, "renumbering needs the right name and a free number"); s->gdxGetLastError(); if (exp) m[N].map = to; }
   if (P("added", 0)) { int ix = 20 + (int) symx_choice(2, "index") * 20; A(s->gdxAcronymAdd("extra", "e", ix) == 4, "an acronym can be added while reading"); m.push_back({ "extra", "e", ix, ix, false }); A(s->gdxAcronymAdd("eXtra", "e", ix) == 0 && s->gdxAcronymAdd("extra", "e", 99) == -1 && s->gdxAcronymAdd("other1", "e", 9) == -1, "conflicting ones are refused"); s->gdxGetLastError(); checkTable(s, m, true); char nm[256]; A(s->gdxAcronymName(s->gdxAcronymValue(ix), nm) && eqs(nm, "extra"), "name of the added acronym"); A((s->gdxAcronymSetInfo(2, "blue", "", ix) != 0) == (m[1].map == ix), "its number is in use"); s->gdxGetLastError(); }
   int c, k[20], df; double v[5]; A(s->gdxDataReadRawStart(1, c), "r"); 
   for (int i = 0; i < 3; i++) { A(s->gdxDataReadRaw(k, v, df), "r"); if (nan) { A(v[0] == GMS_SV_NA, "acronyms read as not available"); continue; } if (m[i].map <= 0 && next > 0) { m[i].map = next++; m[i].aut = true; } int e = m[i].map > 0 ? m[i].map : IX[i]; A(v[0] == s->gdxAcronymValue(e), "number in force"); }
   A(s->gdxDataReadDone(), "d"); checkTable(s, m, true); A(s->gdxAcronymNextNr(-1) == next, "next automatic number"); int N = (int) symx_choice(3, "named"); if (m[N].aut) { A(s->gdxAcronymSetInfo(N + 1, "named", "its text", m[N].map), "an acronym numbered automatically can be named"); m[N].name = "named"; m[N].text = "its text"; m[N].aut = false; checkTable(s, m, true); symx_cover("named"); } symx_cover("end");
}
// no other value is taken for an acronym
ENTRY(c09_notacr) {
   u64 b = bitsOf(symD("value")); symx_assume(!isNanB(b) && b != 0x7ff0000000000000ull && belowAcr(b)); Sess s; s.openW("f.gdx"); A(s->gdxAcronymIndex(dblOf(b)) == 0, "not an acronym"); char nm[256] = "x"; A(!s->gdxAcronymName(dblOf(b), nm) && nm[0] == 0, "no name"); int z = symI("index"); symx_assume(z <= 0); A(s->gdxAcronymValue(z) == 0.0, "no value for indices that are not positive"); s.close(); symx_cover("end");
}
