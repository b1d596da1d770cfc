// C10: calls out of sequence are refused without effect; pending writes are finished on close.
#include "gx.h"
static int nCb; static double cbSum;
static void cbRaw(const int *, const double *v) { nCb++; cbSum += v[0]; }
static int cbEx(const int *, const double *v, int, void *) { nCb++; cbSum += v[0]; return 1; }
static int cbFilt(const int *, const double *v, void *) { nCb++; cbSum += v[0]; return 1; }
static void cbDom(int, int, void *) { nCb++; }
static const char *L[] = { "a", "b", "c", "d", "e", "f" };
// every function on a handle without open file (never opened, closed after writing, closed after reading, failed open)
static const int NFN = 63;
static int callAny(Sess &s, int f, int num, int &expectZero) {
   static KeyBuf kb; char t[300], t2[300]; int a = 0, b = 0, c = 0, k[20] = { 1, 1 }, cnt[20]; double v[7] = { 1 }; const char *ids[20] = { "a", "b" }; const char *emp[20] = { "", "" }; expectZero = 1;
   switch (f) {
      case 0: return s->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0); case 1: return s->gdxDataWriteMapStart("p", "", 1, GMS_DT_PAR, 0); case 2: return s->gdxDataWriteStrStart("p", "", 1, GMS_DT_PAR, 0);
      case 3: return s->gdxDataWriteRaw(k, v); case 4: return s->gdxDataWriteMap(k, v); case 5: return s->gdxDataWriteStr(ids, v); case 6: return s->gdxDataWriteDone();
      case 7: return s->gdxDataReadRawStart(num, a); case 8: return s->gdxDataReadMapStart(num, a); case 9: return s->gdxDataReadStrStart(num, a); case 10: { int act[20] = { -1, -1 }; return s->gdxDataReadFilteredStart(num, act, a); }
      case 11: return s->gdxDataReadRaw(k, v, a); case 12: return s->gdxDataReadMap(1, k, v, a); case 13: return s->gdxDataReadStr(kb.p, v, a); case 14: return s->gdxDataReadDone();
      case 15: return s->gdxDataReadRawFast(num, cbRaw, a); case 16: return s->gdxDataReadRawFastEx(num, cbEx, a, nullptr); case 17: return s->gdxDataReadRawFastFilt(num, emp, cbFilt); case 18: return s->gdxDataReadSliceStart(num, cnt); case 19: return s->gdxDataReadSlice(emp, a, cbRaw); case 20: return s->gdxDataSliceUELS(k, kb.p);
      case 21: return s->gdxGetDomainElements(num, 1, -1, cbDom, a, nullptr); case 22: return s->gdxUELRegisterRawStart(); case 23: return s->gdxUELRegisterRaw("a"); case 24: return s->gdxUELRegisterMapStart(); case 25: return s->gdxUELRegisterMap(1, "a"); case 26: return s->gdxUELRegisterStrStart(); case 27: return s->gdxUELRegisterStr("a", a); case 28: return s->gdxUELRegisterDone();
      case 29: return s->gdxUMUelGet(num, t, a); case 30: expectZero = 2; return s->gdxUMUelInfo(a, b); case 31: return s->gdxUMFindUEL("a", a, b); case 32: return s->gdxGetUEL(num, t); case 33: expectZero = 3; return s->gdxRenameUEL("a", "z");
      case 34: return s->gdxSymbolInfo(num, t, a, b) && num; case 35: return s->gdxSymbolInfoX(num, a, b, t) && num; case 36: expectZero = 2; return s->gdxSymbolDim(num); case 37: return s->gdxFindSymbol("p", a); case 38: return s->gdxSymbolSetDomain(ids); case 39: return s->gdxSymbolSetDomainX(num, ids); case 40: return s->gdxSymbolGetDomain(num, k); case 41: return s->gdxSymbolGetDomainX(num, kb.p);
      case 42: return s->gdxSymbolAddComment(num, "c"); case 43: return s->gdxSymbolGetComment(num, 1, t); case 44: return s->gdxAddAlias("p", "q"); case 45: return s->gdxAddSetText("t", a); case 46: return s->gdxGetElemText(num, t, a); case 47: return s->gdxSetTextNodeNr(num, 1); case 48: return s->gdxSetHasText(num);
      case 49: return s->gdxFilterRegisterStart(1); case 50: return s->gdxFilterRegister(1); case 51: return s->gdxFilterRegisterDone(); case 52: return s->gdxFilterExists(1);
      case 53: return s->gdxAcronymCount(); case 54: return s->gdxAcronymGetInfo(num, t, t2, a); case 55: return s->gdxAcronymSetInfo(num, "x", "", 1); case 56: return s->gdxAcronymGetMapping(num, a, b, c); case 57: expectZero = 2; return s->gdxAcronymName(2 * GMS_SV_ACR, t); case 58: expectZero = 4; return s->gdxAcronymAdd("x", "", 1);
      case 59: expectZero = 2; s->gdxSymbMaxLength(); s->gdxUELMaxLength(); s->gdxCurrentDim(); s->gdxErrorCount(); s->gdxDataErrorCount(); return 0; case 60: return s->gdxDataErrorRecord(num, k, v); case 61: expectZero = 2; s->gdxSystemInfo(a, b); s->gdxFileInfo(a, b); s->gdxFileVersion(t, t2); s->gdxGetMemoryUsed(); return 0; case 62: return s->gdxSymbIndxMaxLength(num, cnt);
   } return 0; }
static void smallFile(const char *fn) { Sess w; w.openW(fn); regRaw(w, L, 3); A(w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0), "s"); for (int i = 1; i <= 2; i++) { double v[5] = { 1.0 * i }; A(w->gdxDataWriteRaw(&i, v), "w"); } A(w->gdxDataWriteDone(), "d"); w.close(); }
ENTRY(c10_notopen) {
   int st = P("state", 0), f = P("fn", -1) >= 0 ? P("fn", 0) : (int) symx_choice(NFN, "function"), num = f == 29 || f == 56 || P("two", 0) ? (int) symx_choice(4, "number") - 1 : symI("number"), ez; Sess s;
   if (st == 1) { s.openW("x.gdx"); s.close(); } else if (st == 2) { smallFile("f.gdx"); s.openR("f.gdx"); s.close(); } else if (st == 3) { int e = 0; A(!s->gdxOpenRead("missing.gdx", e) && e != 0, "missing file"); } else if (st == 4) { vfs_put("bad.gdx", "not a gdx file at all, but long enough to look at", 40); int e = 0; A(!s->gdxOpenRead("bad.gdx", e) && e != 0, "foreign file"); }
   int r = callAny(s, f, num, ez); if (ez == 1) A(r == 0, "refused without an open file"); else if (ez == 3) A(r != 0, "error reported"); else if (ez == 4) A(r <= 0, "refused");
   // a second call is refused as well, and the handle still works
   int f2 = P("two", 0) ? (int) symx_choice(NFN, "function2") : f; r = callAny(s, f2, num, ez); if (ez == 1) A(r == 0, "refused without an open file (second call)");
   smallFile("g.gdx"); s.openR("g.gdx"); int n, k[20], df; double v[5]; A(s->gdxDataReadRawStart(1, n) && n == 2, "start"); for (int i = 1; i <= 2; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i && v[0] == i, "handle still works"); A(!s->gdxDataReadRaw(k, v, df), "end"); s.close(); symx_cover("end");
}
// writing session: arbitrary calls in arbitrary order
enum { MI, DR, DM, DS, WR, WM, WS, ER, EM, ES };
struct Sym { std::string name; int kind; std::vector<std::pair<int, double>> recs; int type; };
ENTRY(c10_write) {
   int start = P("start", MI), n = P("n", 2), arbn = symI("number"); std::vector<std::string> uels; std::vector<Sym> syms; int mode = MI, rk = 0, nu = 0;
   { Sess w; w.openW("f.gdx"); std::vector<int> plan;
     switch (start) { case DR: plan = { 7 }; break; case DM: plan = { 2, 3, 6, 9 }; break; case DS: plan = { 11 }; break; case WR: plan = { 7, 8 }; break; case WM: plan = { 2, 3, 3, 6, 9, 10 }; break; case WS: plan = { 11, 12 }; break; case ER: plan = { 0, 1 }; break; case EM: plan = { 2, 3 }; break; case ES: plan = { 4, 5 }; break; }
     int errs = 0; auto has = [&](const char *l) { for (size_t i = 0; i < uels.size(); i++) if (uels[i] == l) return (int) i + 1; return 0; };
     for (int st = 0; st < (int) plan.size() + n; st++) {
        int op = st < (int) plan.size() ? plan[st] : (int) symx_choice(24, "op"); bool r, e = false; double val = 10 + st; double v[5] = { val }; std::string nm = "s" + std::to_string(syms.size() + 1);
        switch (op) {
           case 0: e = mode == MI; r = w->gdxUELRegisterRawStart(); if (e) mode = ER; break;
           case 1: e = mode == ER; r = w->gdxUELRegisterRaw(L[nu]); if (e) uels.push_back(L[nu++]); break;
           case 2: e = mode == MI; r = w->gdxUELRegisterMapStart(); if (e) mode = EM; break;
           case 3: e = mode == EM; r = w->gdxUELRegisterMap(nu + 1, L[nu]); if (e) uels.push_back(L[nu++]); break;
           case 4: e = mode == MI; r = w->gdxUELRegisterStrStart(); if (e) mode = ES; break;
           case 5: { int x; e = mode == ES; r = w->gdxUELRegisterStr(L[nu], x); if (e) uels.push_back(L[nu++]); break; }
           case 6: e = mode >= ER; r = w->gdxUELRegisterDone(); if (e) mode = MI; break;
           case 7: case 9: case 11: e = mode == MI; r = op == 7 ? w->gdxDataWriteRawStart(nm.c_str(), "", 1, GMS_DT_PAR, 0) : op == 9 ? w->gdxDataWriteMapStart(nm.c_str(), "", 1, GMS_DT_PAR, 0) : w->gdxDataWriteStrStart(nm.c_str(), "", 1, GMS_DT_PAR, 0); if (e) { syms.push_back({ nm, op, {}, GMS_DT_PAR }); rk = 0; mode = op == 7 ? DR : op == 9 ? DM : DS; } break;
           case 8: { int k = rk + 1; e = mode == DR || mode == WR; r = w->gdxDataWriteRaw(&k, v); if (e) { rk++; syms.back().recs.push_back({ k, val }); mode = WR; } break; }
           case 10: { int k = rk + 1; e = (mode == DM || mode == WM); r = w->gdxDataWriteMap(&k, v); if (e && rk < nu) { bool reg = false; for (auto &u : uels) reg |= u == L[rk]; (void) reg; } if (e) { mode = WM; if (st < (int) plan.size()) { rk++; syms.back().recs.push_back({ k, val }); } else { if (r) { rk++; syms.back().recs.push_back({ k, val }); } e = r; } } break; }
           case 12: { const char *k[20] = { L[5 - rk % 6] }; e = mode == DS || mode == WS; r = w->gdxDataWriteStr(k, v); if (e) { if (rk >= 5) return; if (!has(k[0])) uels.push_back(k[0]); syms.back().recs.push_back({ has(k[0]), val }); rk++; mode = WS; } break; }
           case 13: { const char *d[20] = { "*" }; e = mode == DR || mode == DM || mode == DS; r = w->gdxSymbolSetDomain(d); if (e) mode = mode - DR + WR; break; }
           case 14: e = mode >= DR && mode <= WS; r = w->gdxDataWriteDone(); if (e) { mode = MI; } break;
           case 15: { int x; e = false; r = w->gdxDataReadRawStart(arbn, x); break; }
           case 16: { int x; r = w->gdxDataReadStrStart(arbn, x); break; }
           case 17: { int k[20], x; double q[5]; r = w->gdxDataReadRaw(k, q, x); break; }
           case 18: r = w->gdxDataReadDone(); break;
           case 19: r = w->gdxFilterRegisterStart(1); break;
           case 20: { int x = 0; r = w->gdxOpenRead("other.gdx", x); A(x != 0, "a second open is refused with an error"); break; }
           case 21: { int x = 0; r = w->gdxOpenWrite("f.gdx", "other", x); A(x != 0, "a second open is refused with an error"); break; }
           case 22: { int x; nCb = 0; r = w->gdxDataReadRawFast(arbn, cbRaw, x); A(nCb == 0, "no callback"); break; }
           default: { int c[20]; r = w->gdxDataReadSliceStart(arbn, c); break; }
        }
        A(r == e, "accepted exactly in sequence"); if (!e) { int le = w->gdxGetLastError(); A(le != 0 || op == 20 || op == 21, "the refusal is reported"); errs++; }
     }
     int fin = P("finish", 0); if (fin == 0) { if (mode >= ER) A(w->gdxUELRegisterDone(), "finish registration"); else if (mode != MI) A(w->gdxDataWriteDone(), "finish writing"); }
     w->gdxGetLastError(); A(w->gdxClose() == 0, "closing succeeds"); if (errs) symx_cover("refused"); }
   Sess s; s.openR("f.gdx"); int sc, uc, c; A(s->gdxSystemInfo(sc, uc) && sc == (int) syms.size() && uc == (int) uels.size(), "counts"); char t[300]; for (int i = 0; i < uc; i++) A(s->gdxUMUelGet(i + 1, t, c) && uels[i] == t, "label");
   for (int y = 1; y <= sc; y++) { auto &q = syms[y - 1]; int d, ty, k[20], df; double v[5]; A(s->gdxSymbolInfo(y, t, d, ty) && q.name == t && d == 1 && ty == q.type, "symbol"); std::vector<std::pair<int, double>> sorted; for (auto &p : q.recs) { size_t z = sorted.size(); while (z > 0 && sorted[z - 1].first > p.first) z--; sorted.insert(sorted.begin() + z, p); }
      A(s->gdxDataReadRawStart(y, c) && c == (int) sorted.size(), "record count"); for (auto &p : sorted) A(s->gdxDataReadRaw(k, v, df) && k[0] == p.first && v[0] == p.second, "record"); A(!s->gdxDataReadRaw(k, v, df), "no other record"); }
   s.close(); symx_cover("end");
}
// reading session: arbitrary calls in arbitrary order
enum { RI, RR, RM, RS, SL, FI, XM, XS };
ENTRY(c10_read) {
   smallFile("f.gdx"); std::vector<unsigned char> img = fileBytes("f.gdx");
   int start = P("start", RI), n = P("n", 2), arbn = symI("number"), pos = 0, nextM = 3, mode = RI, x, k[20], df; double v[7]; static KeyBuf kb; const char *emp[20] = { "", "" }; bool refused = false;
   { Sess s; s.openR("f.gdx"); A(s->gdxUELRegisterMapStart() && s->gdxUELRegisterMap(1, "a") && s->gdxUELRegisterMap(2, "b") && s->gdxUELRegisterDone(), "map");
     static const int pre[] = { -1, 0, 4, 2, 8, 10, 13, 15 }; int np = start != RI;
     for (int st = 0; st < np + n; st++) {
        int op = st < np ? pre[start] : (int) symx_choice(27, "op"); bool r = false, e = false, done = false;
        switch (op) {
           case 0: case 2: case 4: { e = mode <= RS; x = 99; r = op == 0 ? s->gdxDataReadRawStart(1, x) : op == 2 ? s->gdxDataReadStrStart(1, x) : s->gdxDataReadMapStart(1, x); if (e) { A(x == 2, "record count"); mode = op == 0 ? RR : op == 2 ? RS : RM; pos = 0; } else if (mode <= FI) mode = RI; break; }
           case 1: case 3: case 5: { e = mode == (op == 1 ? RR : op == 3 ? RS : RM); r = op == 1 ? s->gdxDataReadRaw(k, v, df) : op == 3 ? s->gdxDataReadStr(kb.p, v, df) : s->gdxDataReadMap(0, k, v, df); if (e) { done = true; if (pos == 2) { A(!r, "end of data"); mode = RI; } else { A(r && v[0] == pos + 1, "next record"); if (op == 3) A(kb.p[0][0] == 'a' + pos && !kb.p[0][1], "key"); else A(k[0] == pos + 1, "key"); pos++; } } break; }
           case 6: e = mode <= SL; r = s->gdxDataReadDone(); if (mode <= FI) mode = RI; break;
           case 7: e = mode <= RS; nCb = 0; cbSum = 0; r = s->gdxDataReadRawFast(1, cbRaw, x); A(e ? (x == 2 && nCb == 2 && cbSum == 3) : nCb == 0, "callbacks"); if (mode <= FI) mode = RI; break;
           case 8: e = mode <= RS; r = s->gdxDataReadSliceStart(1, k); if (e) { A(k[0] == 2, "elements"); mode = SL; } else if (mode <= FI) mode = RI; break;
           case 9: e = mode == SL; nCb = 0; cbSum = 0; r = s->gdxDataReadSlice(emp, x, cbRaw); A(e ? (x == 1 && nCb == 2 && cbSum == 3) : nCb == 0, "slice callbacks"); break;
           case 10: e = mode == RI; r = s->gdxFilterRegisterStart(1); if (e) mode = FI; break;
           case 11: e = mode == FI; r = s->gdxFilterRegister(1); break;
           case 12: e = mode == FI; r = s->gdxFilterRegisterDone(); if (e) mode = RI; break;
           case 13: e = mode == RI; r = s->gdxUELRegisterMapStart(); if (e) mode = XM; break;
           case 14: e = mode == XM; r = s->gdxUELRegisterMap(nextM, L[nextM - 1]); if (e) nextM++; break;
           case 15: e = mode == RI; r = s->gdxUELRegisterStrStart(); if (e) mode = XS; break;
           case 16: e = mode == XS; r = s->gdxUELRegisterStr("a", x); if (e) A(x == 1, "user number of a"); break;
           case 17: e = mode >= XM; r = s->gdxUELRegisterDone(); if (e) mode = RI; break;
           case 18: r = s->gdxDataWriteRawStart("q", "", 1, GMS_DT_PAR, 0); break;
           case 19: { int kk = 3; double vv[5] = { 9 }; r = s->gdxDataWriteRaw(&kk, vv); break; }
           case 20: r = s->gdxDataWriteDone(); break;
           case 21: r = s->gdxAddAlias("p", "pp"); break;
           case 22: { int q = 0; r = s->gdxOpenRead("f.gdx", q); A(q != 0, "error number"); break; }
           case 23: r = s->gdxUELRegisterRawStart(); break;
           case 24: { const char *d[20] = { "*" }; r = s->gdxSymbolSetDomain(d); break; }
           case 25: { symx_assume(arbn < 0 || arbn > 1); nCb = 0; r = s->gdxDataReadRawFast(arbn, cbRaw, x); A(nCb == 0, "no such symbol"); if (mode <= FI) mode = RI; break; }
           default: r = s->gdxSymbolAddComment(1, "c"); break;
        }
        if (!done) A(r == e, "accepted exactly in sequence"); if (!done && !e) { refused = true; A(s->gdxGetLastError() != 0 || op == 22, "the refusal is reported"); }
     }
     if (refused) symx_cover("refused"); if (mode == FI) A(s->gdxFilterRegisterDone(), "finish filter"); else if (mode >= XM) A(s->gdxUELRegisterDone(), "finish registration"); else A(s->gdxDataReadDone(), "finish reading");
     A(s->gdxDataReadRawStart(1, x) && x == 2, "start"); for (int i = 1; i <= 2; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i && v[0] == i, "record"); A(!s->gdxDataReadRaw(k, v, df), "end"); A(s->gdxSystemInfo(x, df) && x == 1, "symbol count"); A(s->gdxClose() == 0, "closing succeeds"); }
   A(fileBytes("f.gdx") == img, "reading leaves the file untouched"); symx_cover("end");
}
