// C06: reading by user number with strict, expanding, filtered and unmapped positions returns exactly the matching records, sorted.
#include "gx.h"
static bool lessKey(const int *a, const int *b, int dim) { for (int d = 0; d < dim; d++) if (a[d] != b[d]) return a[d] < b[d]; return false; }
static const int UN[3] = { 5, 2, 8 };
static const int UNMAPPED = -2, EXPAND = -1, STRICT = 0;
ENTRY(c06_read) {
   int dim = P("dim", 2), nl = P("nl", 3), typ = P("typ", GMS_DT_PAR), act0 = P("act0", -9), api = P("api", 0); const char *L[] = { "a", "b", "c", "d" };
   // the file: labels a,b,c(,d); records with arbitrary values
   static const int K2[][2] = { { 1, 1 }, { 1, 3 }, { 2, 2 }, { 3, 1 }, { 3, 2 }, { 3, 3 } }; static const int K3[][3] = { { 1, 1, 2 }, { 1, 3, 1 }, { 1, 3, 3 }, { 2, 1, 1 }, { 3, 2, 2 } };
   int nr = dim == 1 ? nl : dim == 2 || dim > 3 ? 6 : 5; std::vector<Rec> all; int pa = P("p", 0), pb = P("q", dim - 1);   // dimensions above 3: positions p and q vary, the others hold label a
   { Sess w; w.openW("f.gdx"); regRaw(w, L, nl); A(w->gdxDataWriteRawStart("sym", "", dim, typ, 0), "s");
     for (int i = 0; i < nr; i++) { Rec r; for (int d = 0; d < dim; d++) r.k[d] = dim == 1 ? i + 1 : dim == 2 ? K2[i][d] : dim == 3 ? K3[i][d] : d == pa ? K2[i][0] : d == pb ? K2[i][1] : 1; for (int f = 0; f < 5; f++) r.v[f] = i * 5 + f + 1; r.v[nVals(typ) - 1] = symV("value"); A(w->gdxDataWriteRaw(r.k, r.v), "w"); all.push_back(r); }
     A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); int um[5] = { -1, -1, -1, -1, -1 }, high = 0;
   // arbitrary assignment of distinct user numbers to some of the labels, registered in an arbitrary direction
   A(s->gdxUELRegisterMapStart(), "m"); bool used[3] = {};
   for (int i = 0; i < nl; i++) { int c = (int) symx_choice(4, "number"); if (c == 3) continue; symx_assume(!used[c]); used[c] = true; um[i + 1] = UN[c]; if (UN[c] > high) high = UN[c]; A(s->gdxUELRegisterMap(UN[c], L[i]), "m"); }
   A(s->gdxUELRegisterDone(), "m");
   // filter 3: arbitrary subset of the registered numbers; anything else is refused
   bool inF[10] = {}; A(s->gdxFilterRegisterStart(3), "f");
   int errs = 0; for (int n = 0; n <= 9; n++) { bool mapped = false; for (int i = 1; i <= nl; i++) mapped |= um[i] == n; if (mapped) { if (symx_choice(2, "infilter")) { A(s->gdxFilterRegister(n), "number added to the filter"); inF[n] = true; } } else if (api == 1) { A(!s->gdxFilterRegister(n), "a number without label is refused by a filter"); errs++; } }
   A(s->gdxFilterRegisterDone(), "f"); A(s->gdxFilterExists(3) && !s->gdxFilterExists(2), "filter exists"); A(s->gdxErrorCount() == errs, "errors counted");
   int act[20]; for (int d = 0; d < dim; d++) { int c = dim > 3 && d != pa && d != pb ? (int) P("acto", 0) : d == 0 && act0 > -9 ? act0 : (int) symx_choice(4, "action"); act[d] = c == 0 ? UNMAPPED : c == 1 ? EXPAND : c == 2 ? STRICT : 3; }
   if (api == 2) for (int d = 0; d < dim; d++) symx_assume(act[d] == STRICT);
   // reference
   std::vector<Rec> good, bad; int newUm[5]; for (int i = 0; i < 5; i++) newUm[i] = um[i]; int nh = high;
   for (auto &r : all) {
      Rec q = r; bool ok = true;
      for (int d = 0; d < dim; d++) { int e = r.k[d], u = newUm[e]; if (act[d] == STRICT && u < 0) ok = false; if (act[d] == 3 && !(um[e] >= 0 && inF[um[e]])) ok = false; }
      if (!ok) { bad.push_back(r); continue; }
      for (int d = 0; d < dim; d++) { int e = r.k[d]; if (act[d] == UNMAPPED) q.k[d] = e; else { if (newUm[e] < 0) newUm[e] = ++nh; q.k[d] = newUm[e]; } }
      size_t p = good.size(); while (p > 0 && lessKey(q.k, good[p - 1].k, dim)) p--; good.insert(good.begin() + p, q);
   }
   int n = -1, df; A(api == 2 ? s->gdxDataReadMapStart(1, n) : s->gdxDataReadFilteredStart(1, act, n), "start reading"); A(n >= (int) good.size() && n <= nr, "announced number of records is an upper bound");
   int k[20]; double v[5]; Rec prev;
   for (size_t i = 0; i < good.size(); i++) {
      for (int d = 0; d < 20; d++) k[d] = -77;
      A(s->gdxDataReadMap(0, k, v, df), "matching record present"); int fd = 0; for (int d = 0; d < dim; d++) { A(k[d] == good[i].k[d], "record key"); if (!fd && (i == 0 || prev.k[d] != good[i].k[d])) fd = d + 1; }
      for (int f = 0; f < nVals(typ); f++) A(v[f] == good[i].v[f], "values stay with their key"); A(df == fd, "first changed dimension"); prev = good[i];
   }
   A(!s->gdxDataReadMap(0, k, v, df), "no extra record");
   int ec = s->gdxDataErrorCount(); A((ec > 0) == !bad.empty() && ec <= (int) bad.size(), "rejected records are listed");
   for (int e = 1; e <= ec; e++) { A(s->gdxDataErrorRecord(e, k, v), "rejected record"); bool found = false; for (auto &b : bad) { bool eq = true; for (int d = 0; d < dim; d++) eq &= b.k[d] == k[d]; if (eq && v[0] == b.v[0]) found = true; } A(found, "a listed record is a rejected record"); if (e == 1) for (int d = 0; d < dim; d++) A(k[d] == bad[0].k[d], "the first rejected record is listed"); }
   A(s->gdxDataReadDone(), "done"); char t[256]; int mp;
   for (int i = 1; i <= nl; i++) A(s->gdxUMUelGet(i, t, mp) && mp == newUm[i], "user numbers after reading");
   // the data are still all there
   A(s->gdxDataReadRawStart(1, n) && n == nr, "raw"); for (auto &r : all) { A(s->gdxDataReadRaw(k, v, df), "raw"); for (int d = 0; d < dim; d++) A(k[d] == r.k[d], "raw key"); } A(!s->gdxDataReadRaw(k, v, df), "raw end");
   symx_cover("end"); if (!bad.empty()) symx_cover("rejected"); if (nh > high) symx_cover("expanded");
}
// an unknown filter number is refused
ENTRY(c06_badfilter) {
   const char *L[] = { "a", "b" }; { Sess w; w.openW("f.gdx"); regRaw(w, L, 2); A(w->gdxDataWriteRawStart("sym", "", 2, GMS_DT_PAR, 0), "s"); int k[2] = { 1, 2 }; double v[5] = { 1 }; A(w->gdxDataWriteRaw(k, v), "w"); A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); int f = symI("filter"); int pos = (int) symx_choice(2, "pos"); symx_assume(f != 0 && f != -1 && f != -2); int act[2] = { UNMAPPED, UNMAPPED }; act[pos] = f; int n = 7;
   A(!s->gdxDataReadFilteredStart(1, act, n) && s->gdxGetLastError() == -100010, "unknown filter refused"); int sn = symI("start"); bool good = sn >= 1; A((s->gdxFilterRegisterStart(sn) != 0) == good, "filter numbers are positive"); if (good) { A(s->gdxFilterRegisterDone(), "done"); A(s->gdxFilterExists(sn), "exists"); int e = symI("other"); A((s->gdxFilterExists(e) != 0) == (e == sn), "only registered filters exist"); }
   int bad = symI("symnr"); symx_assume(bad < 0 || bad > 1); int a2[2] = { UNMAPPED, UNMAPPED }; A(!s->gdxDataReadFilteredStart(bad, a2, n), "bad symbol number refused"); A(s->gdxDataReadFilteredStart(1, a2, n) && n == 1, "still usable"); symx_cover("end");
}
// records whose element numbers have no label cannot be read by user number: every position and action, reported and never misread
ENTRY(c06_nolab) {
   int dim = P("dim", 2), act0 = P("act0", 0); const char *L[] = { "a", "b", "c" };
   { Sess w; w.openW("f.gdx"); regRaw(w, L, 3); A(w->gdxDataWriteRawStart("sym", "", dim, GMS_DT_PAR, 0), "s"); int k[20]; double v[5] = { 1 }; int bad = P("zero", 0) ? 0 : 4 + (int) symx_choice(3, "number") * 1000, pos = (int) symx_choice(dim, "position");
     if (!bad) for (int d = 0; d < dim; d++) k[d] = d == pos ? 0 : 1; else for (int d = 0; d < dim; d++) k[d] = 1; if (bad) { A(w->gdxDataWriteRaw(k, v), "w"); k[pos] = bad; } else { A(w->gdxDataWriteRaw(k, v), "w"); k[pos] = 2; }
     v[0] = 2; A(w->gdxDataWriteRaw(k, v), "w"); A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); A(s->gdxUELRegisterMapStart(), "m"); bool rev = symx_choice(2, "order"); for (int i = 0; i < 3; i++) A(s->gdxUELRegisterMap(rev ? 9 - i : i + 1, L[i]), "m"); A(s->gdxUELRegisterDone(), "m");
   A(s->gdxFilterRegisterStart(3), "f"); for (int i = 0; i < 3; i++) A(s->gdxFilterRegister(rev ? 9 - i : i + 1), "f"); A(s->gdxFilterRegisterDone(), "f");
   int act[20]; for (int d = 0; d < dim; d++) { int c = (int) symx_choice(4, "action"); act[d] = c == 0 ? UNMAPPED : c == 1 ? EXPAND : c == 2 ? STRICT : 3; }
   int n = -1, k[20], df, got = 0; double v[5]; if (s->gdxDataReadFilteredStart(1, act, n)) { while (s->gdxDataReadMap(0, k, v, df)) { A(++got <= 1, "at most the record with labels is returned"); for (int d = 0; d < dim; d++) A(k[d] == (act[d] == UNMAPPED ? 1 : rev ? 9 : 1) || k[d] == (act[d] == UNMAPPED ? 2 : rev ? 8 : 2), "key of the record with labels"); } s->gdxDataReadDone(); }
   A(s->gdxErrorCount() > 0 && s->gdxGetLastError() == -100004, "the bad element is reported");
   A(s->gdxDataReadRawStart(1, n) && n == 2, "still usable"); A(s->gdxDataReadRaw(k, v, df) && v[0] == 1 && s->gdxDataReadRaw(k, v, df) && v[0] == 2 && !s->gdxDataReadRaw(k, v, df), "both records"); symx_cover("end");
}
// any sequence of filter definitions: every filter holds what its last definition says, independent of the others
ENTRY(c06_filters) {
   int n = P("n", 2), nl = P("nl", 3), cnt; const char *L[] = { "a", "b", "c" }; static const int U[] = { 7, 1, 70 };
   { Sess w; w.openW("f.gdx"); regRaw(w, L, nl); A(w->gdxDataWriteRawStart("sym", "", 1, GMS_DT_PAR, 0), "s"); double v[5] = {}; for (int k = 1; k <= nl; k++) { v[0] = symV("value"); A(w->gdxDataWriteRaw(&k, v), "w"); } A(w->gdxDataWriteDone(), "d"); w.close(); }
   Sess s; s.openR("f.gdx"); A(s->gdxUELRegisterMapStart(), "m"); for (int i = 0; i < nl; i++) A(s->gdxUELRegisterMap(U[i], L[i]), "m"); A(s->gdxUELRegisterDone(), "m");
   static const int NR[3] = { 2, 1, 900 }; int def[3] = { -1, -1, -1 };
   for (int i = 0; i < n; i++) { int f = (int) symx_choice(3, "filter"), mask = (int) symx_choice(1 << nl, "members"); if (def[f] >= 0) symx_cover("redefined"); def[f] = mask;
      A(s->gdxFilterRegisterStart(NR[f]), "f"); if (!i) { int x = symI("no number of a label"); for (int j = 0; j < nl; j++) symx_assume(x != U[j]); A(!s->gdxFilterRegister(x) && s->gdxGetLastError() != 0, "a number without label is refused"); } for (int j = 0; j < nl; j++) if (mask >> j & 1) A(s->gdxFilterRegister(U[j]), "f"); A(s->gdxFilterRegisterDone(), "f"); }
   for (int f = 0; f < 3; f++) A((s->gdxFilterExists(NR[f]) != 0) == (def[f] >= 0), "filter exists exactly when defined");
   int f = (int) symx_choice(3, "read"), k[20], df; double v[5];
   if (def[f] < 0) A(!s->gdxDataReadFilteredStart(1, &NR[f], cnt), "undefined filter refused");
   else { A(s->gdxDataReadFilteredStart(1, &NR[f], cnt), "start"); static const int ord[] = { 1, 0, 2 }; for (int q : ord) if (q < nl && (def[f] >> q & 1)) A(s->gdxDataReadMap(0, k, v, df) && k[0] == U[q], "members of the last definition are read"); A(!s->gdxDataReadMap(0, k, v, df), "and nothing else"); A(s->gdxDataReadDone(), "d"); }
   symx_cover("end");
}
// several reads of different symbols on one handle: numbers given by an earlier read (or registered in between) hold for the later ones
static void readOne(Sess &s, int sy, const std::vector<Rec> &all, int dim, const int *act, int *um, int &high, const bool *inF, bool partial) {
   std::vector<Rec> good; int nu[5], nh = high, n, k[20], df; double v[5]; size_t bad = 0; for (int i = 0; i < 5; i++) nu[i] = um[i];
   for (auto &r : all) { Rec q = r; bool ok = true; for (int d = 0; d < dim; d++) { int e = r.k[d]; if (act[d] == STRICT && nu[e] < 0) ok = false; if (act[d] == 3 && !(um[e] >= 0 && inF[um[e]])) ok = false; }
      if (!ok) { bad++; continue; } for (int d = 0; d < dim; d++) { int e = r.k[d]; if (act[d] == UNMAPPED) q.k[d] = e; else { if (nu[e] < 0) nu[e] = ++nh; q.k[d] = nu[e]; } }
      size_t p = good.size(); while (p > 0 && lessKey(q.k, good[p - 1].k, dim)) p--; good.insert(good.begin() + p, q); }
   A(s->gdxDataReadFilteredStart(sy, act, n), "start reading"); size_t upto = partial ? good.size() / 2 : good.size();
   for (size_t i = 0; i < upto; i++) { A(s->gdxDataReadMap(0, k, v, df), "matching record present"); for (int d = 0; d < dim; d++) A(k[d] == good[i].k[d], "record key"); A(v[0] == good[i].v[0], "values stay with their key"); }
   if (!partial) { A(!s->gdxDataReadMap(0, k, v, df), "no extra record"); int ec = s->gdxDataErrorCount(); A((ec > 0) == (bad > 0) && ec <= (int) bad, "rejected records are listed"); }
   A(s->gdxDataReadDone(), "done"); if (partial) { char t[256]; int mp; high = 0; for (int i = 1; i < 5; i++) { A(s->gdxUMUelGet(i, t, mp) && (mp == um[i] || mp == nu[i]), "numbers are given in the order of the records"); um[i] = mp; if (mp > high) high = mp; } } else { for (int i = 0; i < 5; i++) um[i] = nu[i]; high = nh; }
}
ENTRY(c06_sequence) {
   int nl = 4, n = P("n", 2), how = P("how", 0), um[5] = { -1, -1, -1, -1, -1 }, high = 0; const char *L[] = { "a", "b", "c", "d" }; static const int K[3][3][2] = { { { 1, 4 }, { 2, 3 }, { 3, 1 } }, { { 1, 3 }, { 1, 4 }, { 4, 2 } }, { { 2, 0 }, { 3, 0 }, { 4, 0 } } }; std::vector<Rec> all[3];
   { Sess w; w.openW("f.gdx"); regRaw(w, L, nl); for (int y = 0; y < 3; y++) { A(w->gdxDataWriteRawStart(y == 0 ? "p" : y == 1 ? "q" : "r", "", y < 2 ? 2 : 1, GMS_DT_PAR, 0), "s"); for (auto &kk : K[y]) { Rec r; r.k[0] = kk[0]; r.k[1] = kk[1]; r.v[0] = symV("value"); A(w->gdxDataWriteRaw(r.k, r.v), "w"); all[y].push_back(r); } A(w->gdxDataWriteDone(), "d"); } w.close(); }
   Sess s; s.openR("f.gdx"); bool used[5] = {}; static const int num[] = { 2, 1, 6, 0 };
   auto reg = [&](int i, int u) { A(s->gdxUELRegisterMapStart() && s->gdxUELRegisterMap(u, L[i - 1]) && s->gdxUELRegisterDone(), "register"); um[i] = u; if (u > high) high = u; };
   for (int i = 1; i <= 2; i++) { int c = (int) symx_choice(3, "number"); if (c == 2) continue; symx_assume(!used[c]); used[c] = true; reg(i + how, num[c]); }
   bool inF[40] = {}; A(s->gdxFilterRegisterStart(3), "f"); for (int i = 1; i <= nl; i++) if (um[i] >= 0 && symx_choice(2, "in filter")) { A(s->gdxFilterRegister(um[i]), "f"); inF[um[i]] = true; } A(s->gdxFilterRegisterDone(), "f");
   for (int j = 0; j < n; j++) {
      if (j == 1 && symx_choice(2, "register more")) { for (int i = 4; i > 0; i--) if (um[i] < 0) { reg(i, high + 2); break; } }
      int y = (int) symx_choice(3, "symbol"), act[2]; static const int ACT[] = { UNMAPPED, EXPAND, STRICT, 3 }; act[0] = ACT[symx_choice(4, "action")]; act[1] = y == 2 ? UNMAPPED : ACT[(int) P("second", 0) == 1 ? symx_choice(4, "action") : act[0] == UNMAPPED ? 1 : act[0] == EXPAND ? 1 : 2]; readOne(s, y + 1, all[y], y < 2 ? 2 : 1, act, um, high, inF, j + 1 < n && symx_choice(2, "partial"));
      char t[256]; int mp; for (int i = 1; i <= nl; i++) A(s->gdxUMUelGet(i, t, mp) && mp == um[i], "user numbers after reading"); }
   if (high > 4) symx_cover("expanded"); symx_cover("end");
}
