// C07: domain checking while writing, domain information round trip.
#include "gx.h"
static const char *L[] = { "a", "b", "c", "d" };
// every choice of domains for a symbol, every subset of the labels as domain set, every record
ENTRY(c07_check) {
   int dim = P("dim", 2), how = P("how", 0), typ = P("typ", GMS_DT_PAR), d0 = P("dom0", -1), store = P("store", 1), bogus = P("bogus", 1), nrec = P("n", 2);
   bool inI[6] = {}, inJ[6] = {}; int dk[20], pp = P("p", 0), pq = P("q", -1); std::vector<Rec> acc; int rc; int domSy[20] = {}; auto var = [&](int d) { return dim <= 2 || d == pp || d == pq; };   // in higher dimensions the other positions have domain i and key 2
   bool ok = true, nodata = false;
   // symbols: 1 i, 2 j(i), 3 ai=alias i, 4 aai=alias ai, 5 au=alias *, 6 q (parameter), 7 the symbol
   static const char *N[] = { "*", "i", "J", "ai", "aai", "au", "q", "nosuch", "" }; static const int NR[] = { 0, 1, 2, 3, 4, 5, -1, -1, -1 };
   { Sess w; w.openW("f.gdx"); if (!store) w->gdxStoreDomainSetsSet(0); if (!bogus) w->gdxAllowBogusDomainsSet(0); if (how == 2) { static const int U[] = { 9, 4, 7, 2 }; A(w->gdxUELRegisterMapStart(), "m"); for (int i = 0; i < 4; i++) A(w->gdxUELRegisterMap(U[i], L[i]), "m"); A(w->gdxUELRegisterDone(), "m"); } else regRaw(w, L, 4);
     double v[5] = {}; int k[20];
     A(w->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0), "s"); for (int e = 1; e <= 4; e++) if (e == 2 || (e == 1 ? 0 : symx_choice(2, "in i"))) { k[0] = e; inI[e] = true; A(w->gdxDataWriteRaw(k, v), "set record"); } A(w->gdxDataWriteDone(), "d");
     A(w->gdxDataWriteStrStart("j", "", 1, GMS_DT_SET, 0), "s"); const char *dj[] = { "i" }; bool okj = w->gdxSymbolSetDomain(dj); A(okj || (!store && !bogus), "domain accepted");
     if (okj) for (int e = 1; e <= 3; e++) { const char *s[] = { L[e - 1] }; A(w->gdxDataWriteStr(s, v), "set record"); inJ[e] = inI[e] || !store; }
     A(w->gdxDataWriteDone(), "d"); int ej = 0; for (int e = 1; e <= 3; e++) ej += okj && !inJ[e]; A(w->gdxDataErrorCount() == ej, "subset records outside the superset are rejected");
     A(w->gdxAddAlias("i", "ai") && w->gdxAddAlias("ai", "aai") && w->gdxAddAlias("*", "au"), "alias");
     A(w->gdxDataWriteRawStart("q", "", 0, GMS_DT_PAR, 0) && w->gdxDataWriteRaw(k, v) && w->gdxDataWriteDone(), "q"); w->gdxGetLastError();
     const char *ids[20]; for (int d = 0; d < dim; d++) { dk[d] = !var(d) ? 1 : d == 0 && d0 >= 0 ? d0 : (int) symx_choice(9, "domain"); ids[d] = N[dk[d]]; }
     A(how == 0 ? w->gdxDataWriteRawStart("x", "", dim, typ, 0) : how == 1 ? w->gdxDataWriteStrStart("x", "", dim, typ, 0) : w->gdxDataWriteMapStart("x", "", dim, typ, 0), "start");
     const bool *bm[20] = {};
     for (int d = 0; d < dim; d++) { int c = dk[d]; domSy[d] = NR[c] > 0 ? NR[c] : 0; if (NR[c] < 0) ok = false; bm[d] = !store ? nullptr : c == 1 || c == 3 || c == 4 ? inI : c == 2 ? inJ : nullptr; if (!store && !bogus && c >= 1 && c <= 4) nodata = true; }
     bool r = w->gdxSymbolSetDomain(ids); 
     if (nodata) { A(!r, "a domain without element data is refused"); A(w->gdxGetLastError() != 0, "reported"); symx_cover("nodata"); return; }
     A(r == ok, "domains accepted exactly when they are sets"); int le = w->gdxGetLastError(); bool unk = false, nos = false; for (int d = 0; d < dim; d++) { unk |= dk[d] >= 7; nos |= dk[d] == 6; } A(ok ? le == 0 : (unk && le == -100052) || (nos && le == -100055), "reason reported");
     // records
     std::vector<Rec> bad, try_;
     for (int i = 0; i < nrec; i++) { Rec q; for (int d = 0; d < dim; d++) q.k[d] = !var(d) ? 2 : 1 + (int) symx_choice(4, "key"); for (int f = 0; f < 5; f++) q.v[f] = i * 5 + f + 1; q.v[nVals(typ) - 1] = symV("value"); if (typ == GMS_DT_SET) q.v[0] = 0;
        if (i > 0) { bool gt = false, dec = false; for (int d = 0; d < dim; d++) if (!dec && q.k[d] != try_[i - 1].k[d]) { dec = true; gt = q.k[d] > try_[i - 1].k[d]; } symx_assume(gt); }
        try_.push_back(q); bool good = true; for (int d = 0; d < dim; d++) if (bm[d] && !bm[d][q.k[d]]) good = false; (good ? acc : bad).push_back(q); 
        if (how == 0) A((w->gdxDataWriteRaw(q.k, q.v) != 0) == good, "record accepted exactly when it is in its domain"); 
        else { const char *s[20]; for (int d = 0; d < dim; d++) s[d] = L[q.k[d] - 1]; if (how == 1) A(w->gdxDataWriteStr(s, q.v), "w"); else { static const int U[] = { 9, 4, 7, 2 }; int uk[20]; for (int d = 0; d < dim; d++) uk[d] = U[q.k[d] - 1]; A(w->gdxDataWriteMap(uk, q.v), "w"); } } }
     A(w->gdxDataWriteDone(), "d"); int ec = w->gdxDataErrorCount(); A((ec > 0) == !bad.empty() && ec <= (int) bad.size(), "violations are listed");
     for (int e = 1; e <= ec; e++) { int kx[20], ka[20]; double vv[5]; A(w->gdxDataErrorRecordX(e, kx, vv) && w->gdxDataErrorRecord(e, ka, vv), "error record"); bool found = false;
        for (auto &b : bad) { bool m = true; for (int d = 0; d < dim; d++) m &= ka[d] == b.k[d] && (kx[d] < 0) == (bm[d] && !bm[d][b.k[d]]) && (kx[d] == ka[d] || kx[d] == -ka[d]); found |= m && vv[0] == b.v[0]; } A(found, "a listed record is a violating record, its violating positions marked"); }
     // every violating element is listed in its position
     for (auto &b : bad) for (int d = 0; d < dim; d++) if (bm[d] && !bm[d][b.k[d]]) { bool any = false; for (int e = 1; e <= ec; e++) { int kx[20]; double vv[5]; w->gdxDataErrorRecordX(e, kx, vv); any |= kx[d] == -b.k[d]; } A(any, "every violating element is listed"); }
     w->gdxGetLastError(); w.close(); if (!bad.empty()) symx_cover("violation"); }
   Sess s; s.openR("f.gdx"); int n, k[20], df; double v[5]; A(s->gdxFindSymbol("x", rc) && rc == 7, "symbol");
   int ds[20]; A(s->gdxSymbolGetDomain(7, ds), "domain"); KeyBuf kb; A(s->gdxSymbolGetDomainX(7, kb.p) == 3, "domain kind");
   for (int d = 0; d < dim; d++) { A(ds[d] == domSy[d], "domain symbol"); A(eqs(kb.p[d], domSy[d] ? domSy[d] == 2 ? "j" : N[domSy[d]] : "*"), "domain name"); }
   A(s->gdxDataReadRawStart(7, n) && n == (int) acc.size(), "count"); for (auto &q : acc) { A(s->gdxDataReadRaw(k, v, df), "accepted record stored"); for (int d = 0; d < dim; d++) A(k[d] == q.k[d], "key"); for (int f = 0; f < nVals(typ); f++) A(v[f] == q.v[f], "value"); } A(!s->gdxDataReadRaw(k, v, df), "no other record");
   A(s->gdxDataReadRawStart(2, n), "j"); int nj = 0; for (int e = 1; e <= 4; e++) nj += inJ[e]; A(n == nj, "subset count"); for (int e = 1; e <= 4; e++) if (inJ[e]) A(s->gdxDataReadRaw(k, v, df) && k[0] == e, "subset element");
   symx_cover("end");
}
// domain sets with large, arbitrary element numbers: membership is exact
ENTRY(c07_bits) {
   int base = P("base", 0), n = P("n", 2); Sess w; w.openW("f.gdx"); double v[5] = {}; int e[8], k; A(w->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0), "s");
   for (int i = 0; i < n; i++) { e[i] = base + (i == 0 ? 1 : e[i - 1] - base) + (int) symx_choice(P("span", 10), "element") + (i ? 1 : 0); k = e[i]; A(w->gdxDataWriteRaw(&k, v), "set element"); } A(w->gdxDataWriteDone(), "d");
   A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0), "s"); const char *id[] = { "I" }; A(w->gdxSymbolSetDomain(id), "domain");
   int x = symU("key", 20) + 1; v[0] = 1; k = x; bool in = false; for (int i = 0; i < n; i++) in |= x == e[i]; bool r = w->gdxDataWriteRaw(&k, v); A(r == in, "membership"); A(w->gdxDataWriteDone(), "d"); A(w->gdxDataErrorCount() == !in, "counted"); w->gdxGetLastError(); w.close();
   Sess s; s.openR("f.gdx"); int c, df; A(s->gdxDataReadRawStart(2, c) && c == (int) in, "count"); if (in) A(s->gdxDataReadRaw(&k, v, df) && k == x, "key"); symx_cover("end"); symx_cover(in ? "in" : "out");
}
// relaxed domain information: stored, never checked, replaced by the last call; strict information is kept separate
ENTRY(c07_relaxed) {
   int dim = P("dim", 2); static const char *N[] = { "*", "i", "anything", "I", "9bad", "", "other_1" }; int c1[20], c2[20]; auto var = [&](int d) { return dim <= 2 || d == P("p", 0); }; const char *ids[20]; int twice, strict; int r;
   { Sess w; w.openW("f.gdx"); regRaw(w, L, 4); double v[5] = {}; int k[20]; for (int d = 0; d < 20; d++) k[d] = d % 4 + 1;
     A(w->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0), "s"); A(w->gdxDataWriteRaw(k, v) && w->gdxDataWriteDone(), "d");
     A(w->gdxDataWriteRawStart("x", "", dim, GMS_DT_PAR, 0), "s"); strict = (int) symx_choice(2, "strict"); if (strict) { for (int d = 0; d < dim; d++) ids[d] = d == 0 ? "i" : "*"; A(w->gdxSymbolSetDomain(ids), "strict"); } v[0] = 4; A(w->gdxDataWriteRaw(k, v), "w"); A(w->gdxDataWriteDone(), "d");
     A(w->gdxDataWriteRawStart("y", "", dim, GMS_DT_PAR, 0) && w->gdxDataWriteRaw(k, v) && w->gdxDataWriteDone(), "y");
     twice = (int) symx_choice(2, "twice"); if (twice) { for (int d = 0; d < dim; d++) ids[d] = var(d) ? N[symx_choice(7, "first")] : N[d % 7]; A(w->gdxSymbolSetDomainX(2, ids), "relaxed"); }
     for (int d = 0; d < dim; d++) { c1[d] = var(d) ? (int) symx_choice(7, "name") : (d + 2) % 7; ids[d] = N[c1[d]]; } A(w->gdxSymbolSetDomainX(2, ids), "relaxed domain stored"); for (int d = 0; d < dim; d++) { c2[d] = (c1[d] + 1) % 7; ids[d] = N[c2[d]]; } A(w->gdxSymbolSetDomainX(3, ids), "relaxed");
     int bad = symI("number"); symx_assume(bad < 1 || bad > 3); A(!w->gdxSymbolSetDomainX(bad, ids), "bad symbol number"); w->gdxGetLastError(); w.close(); }
   Sess s; s.openR("f.gdx"); KeyBuf kb; int ds[20];
   for (int y = 2; y <= 3; y++) { A(s->gdxSymbolGetDomainX(y, kb.p) == 2, "kind"); for (int d = 0; d < dim; d++) { int c = y == 2 ? c1[d] : c2[d]; const char *e = c == 0 || c == 4 || c == 5 ? "*" : N[c]; bool ci = c == 1 || c == 3; A(ci ? eqs(kb.p[d], "i") || eqs(kb.p[d], "I") : eqs(kb.p[d], e), "relaxed domain name"); } }
   A(s->gdxSymbolGetDomain(2, ds), "strict"); for (int d = 0; d < dim; d++) A(ds[d] == (strict && d == 0 ? 1 : 0), "strict domain kept"); A(s->gdxSymbolGetDomain(3, ds) && ds[0] == 0, "no strict domain"); A(s->gdxSymbolGetDomainX(1, kb.p) == 1 && eqs(kb.p[0], "*"), "no domain");
   int n, k[20], df; double v[5]; for (int y = 2; y <= 3; y++) { A(s->gdxDataReadRawStart(y, n) && n == 1 && s->gdxDataReadRaw(k, v, df) && k[dim - 1] == (dim - 1) % 4 + 1 && v[0] == 4, "data"); A(s->gdxDataReadDone(), "d"); }
   int bad = symI("number"); symx_assume(bad < 1 || bad > 3); A(!s->gdxSymbolGetDomain(bad, ds) && !s->gdxSymbolGetDomainX(bad, kb.p), "bad symbol number"); symx_cover("end");
}
// a set may be its own domain: any element is accepted and defines it
ENTRY(c07_self) {
   int how = P("how", 0); bool in[5] = {}; { Sess w; w.openW("f.gdx"); regRaw(w, L, 4); double v[5] = {}; A(how == 0 ? w->gdxDataWriteRawStart("i", "", 1, GMS_DT_SET, 0) : w->gdxDataWriteStrStart("i", "", 1, GMS_DT_SET, 0), "s"); const char *id[] = { "i" }; A(w->gdxSymbolSetDomain(id), "own domain");
     for (int e = 1; e <= 4; e++) if (symx_choice(2, "element")) { const char *s[] = { L[e - 1] }; in[e] = true; A(how == 0 ? w->gdxDataWriteRaw(&e, v) : w->gdxDataWriteStr(s, v), "w"); } A(w->gdxDataWriteDone(), "d"); A(w->gdxDataErrorCount() == 0, "no errors");
     A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0) && w->gdxSymbolSetDomain(id), "domain"); v[0] = 1; for (int e = 1; e <= 4; e++) A((w->gdxDataWriteRaw(&e, v) != 0) == in[e], "domain of the set's elements"); A(w->gdxDataWriteDone(), "d"); w->gdxGetLastError(); w.close(); }
   Sess s; s.openR("f.gdx"); int n, k[20], df; double v[5]; for (int y = 1; y <= 2; y++) { A(s->gdxDataReadRawStart(y, n), "r"); for (int e = 1; e <= 4; e++) if (in[e]) A(s->gdxDataReadRaw(k, v, df) && k[0] == e, "element"); A(!s->gdxDataReadRaw(k, v, df), "end"); int ds[20]; A(s->gdxSymbolGetDomain(y, ds) && ds[0] == 1, "domain"); } symx_cover("end");
}
