// C23: every way of reading a symbol (raw, strings, mapped, callbacks, filtered callback, slices, domain elements, lengths) shows the same records.
#include "gx.h"
static const int DOMC_EXPAND = -1;
struct R { int k[20]; double v[5]; };
static std::vector<R> got; static std::vector<int> gotFd; static int gotDim, stopAt; static void *gotPtr;
static void push(const int *k, const double *v, int nv) { R r = {}; for (int d = 0; d < gotDim; d++) r.k[d] = k[d]; for (int f = 0; f < nv; f++) r.v[f] = v[f]; got.push_back(r); }
static int NV;
static void cbRaw(const int *k, const double *v) { push(k, v, NV); }
static int cbEx(const int *k, const double *v, int fd, void *u) { push(k, v, NV); gotFd.push_back(fd); gotPtr = u; return stopAt < 0 || (int) got.size() < stopAt; }
static int cbFilt(const int *k, const double *v, void *u) { push(k, v, NV); gotPtr = u; return stopAt < 0 || (int) got.size() < stopAt; }
static std::vector<std::pair<int, int>> gotEl; static void cbEl(int raw, int mapped, void *u) { gotEl.push_back({ raw, mapped }); gotPtr = u; }
static bool same(const R &a, const R &b, int dim, int nv) { for (int d = 0; d < dim; d++) if (a.k[d] != b.k[d]) return false; for (int f = 0; f < nv; f++) if (bitsOf(a.v[f]) != bitsOf(b.v[f])) return false; return true; }
static void cmpAll(const std::vector<R> &a, const std::vector<R> &b, int dim, int nv, const char *m) { A(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); i++) A(same(a[i], b[i], dim, nv), m); }
static int fdOf(const std::vector<R> &x, size_t i, int dim) { if (!i) return dim ? 1 : 0; for (int d = 0; d < dim; d++) if (x[i].k[d] != x[i - 1].k[d]) return d + 1; return dim; }
static const char *LB[6] = { "alpha", "b", "Gamma ray", "dd4", "e", "ff" };
// labels 1..nl are in the table, records may also use a number without label (nl + 5 or 0)
static std::vector<R> writeSym(Sess &w, const char *nm, int dim, int typ, int nl, int nolab) {
   std::vector<R> x; int nv = nVals(typ); int tot = 1; for (int d = 0; d < dim && dim <= 3; d++) tot *= nl; if (dim > 3) tot = 4;   // higher dimensions: all 1, or 2 in one of three positions
   A(w->gdxDataWriteRawStart(nm, "t", dim, typ, 0), "start"); unsigned sel = dim ? (unsigned) symx_choice(1 << tot, "subset") : (unsigned) symx_choice(2, "scalar record");
   auto extra = [&]() { R r = {}; for (int d = 0; d < dim; d++) r.k[d] = nolab == 1 ? nl + 5 : 0; for (int f = 0; f < nv; f++) r.v[f] = 7 + f; if (typ == GMS_DT_SET) r.v[0] = 0; A(w->gdxDataWriteRaw(r.k, r.v), "write"); x.push_back(r); };
   if (nolab == 2 && dim) extra();
   for (int t = 0; t < tot; t++) if (sel >> t & 1) { R r = {}; int q = t; if (dim > 3) { for (int d = 0; d < dim; d++) r.k[d] = 1; if (t) r.k[t == 1 ? dim - 1 : t == 2 ? (int) P("p", 1) : 0] = 2; } else for (int d = dim - 1; d >= 0; d--) { r.k[d] = q % nl + 1; q /= nl; } for (int f = 0; f < nv; f++) r.v[f] = f == 0 ? symV("level") : 2 + f; if (typ == GMS_DT_SET) r.v[0] = 0; A(w->gdxDataWriteRaw(r.k, r.v), "write"); x.push_back(r); }
   if (nolab == 1 && dim) extra();
   A(w->gdxDataWriteDone(), "done"); return x;
}
static std::string labOf(int k, int nl) { return k >= 1 && k <= nl ? LB[k - 1] : "?L__" + std::to_string(k); }
static void readAll(Sess &s, int sy, std::vector<R> &x, int dim, int typ, int nl, int nolab, bool dflt) {
   int nv = nVals(typ), n = -1, fd = -1; NV = nv; gotDim = dim; double v[5]; int kk[20]; KeyBuf kb; size_t cnt = x.size();
   // raw
   A(s->gdxDataReadRawStart(sy, n) && n == (int) cnt, "raw: number of records"); A(s->gdxCurrentDim() == dim, "current dimension"); got.clear();
   while (s->gdxDataReadRaw(kk, v, fd)) { push(kk, v, nv); A(fd == (dflt ? 0 : dim ? fdOf(got, got.size() - 1, dim) : fd), "raw: first changed dimension"); A(got.size() <= cnt, "raw: no extra record"); } A(s->gdxDataReadDone(), "raw: done");
   if (dflt) x = got; else cmpAll(got, x, dim, nv, "raw reading returns the records written");
   // strings
   A(s->gdxDataReadStrStart(sy, n) && n == (int) cnt, "strings: number of records"); size_t i = 0;
   while (s->gdxDataReadStr(kb.p, v, fd)) { A(i < cnt, "strings: no extra record"); for (int d = 0; d < dim; d++) A(eqs(kb.s[d], labOf(x[i].k[d], nl).c_str()), "strings: label of the record"); for (int f = 0; f < nv; f++) A(bitsOf(v[f]) == bitsOf(x[i].v[f]), "strings: values"); if (dim) A(fd == fdOf(x, i, dim), "strings: first changed dimension"); i++; }
   A(i == cnt, "strings: all records"); A(s->gdxDataReadDone(), "strings: done");
   // callbacks
   got.clear(); A(s->gdxDataReadRawFast(sy, cbRaw, n) && n == (int) cnt, "callback: number of records"); cmpAll(got, x, dim, nv, "callback: records");
   int dummy = 0; stopAt = -1; got.clear(); gotFd.clear(); A(s->gdxDataReadRawFastEx(sy, cbEx, n, &dummy) && n == (int) cnt, "extended callback: number of records"); cmpAll(got, x, dim, nv, "extended callback: records");
   for (size_t j = 0; j < gotFd.size(); j++) if (dim) A(gotFd[j] == fdOf(x, j, dim), "extended callback: first changed dimension"); if (cnt) A(gotPtr == &dummy, "extended callback: user pointer");
   stopAt = 1; got.clear(); A(s->gdxDataReadRawFastEx(sy, cbEx, n, &dummy), "extended callback with stop"); A(got.size() == (cnt ? 1 : 0), "extended callback: stops when asked to"); stopAt = -1;
   // lengths
   int li[20]; int mx = 0, ex[20] = {}; for (auto &r : x) for (int d = 0; d < dim; d++) if (r.k[d] >= 1 && r.k[d] <= nl) { int l = (int) strlen(LB[r.k[d] - 1]); if (l > ex[d]) ex[d] = l; if (l > mx) mx = l; }
   A(s->gdxSymbIndxMaxLength(sy, li) == mx, "longest label of the symbol"); for (int d = 0; d < 20; d++) A(li[d] == (d < dim ? ex[d] : 0), "longest label per position");
   // filtered callback and slices: per position nothing, one of the labels, or an unknown label
   const char *fl[20]; int fk[20]; for (int d = 0; d < dim; d++) { int c = dim > 3 && d && d != P("p", 1) && d != dim - 1 ? 0 : (int) symx_choice(nl + 2, "filter"); fk[d] = c == 0 ? 0 : c <= nl ? c : -1; fl[d] = c == 0 ? "" : c <= nl ? LB[c - 1] : "unknown"; }
   std::vector<R> y; bool bad = false; for (int d = 0; d < dim; d++) if (fk[d] < 0) bad = true;
   if (!bad) for (auto &r : x) { bool ok = true; for (int d = 0; d < dim; d++) if (fk[d] && fk[d] != r.k[d]) ok = false; if (ok) y.push_back(r); }
   got.clear(); int rc = s->gdxDataReadRawFastFilt(sy, fl, cbFilt); A((rc != 0) == !bad, "filtered callback: refused exactly for an unknown label"); cmpAll(got, y, dim, nv, "filtered callback: exactly the matching records"); if (got.size()) A(gotPtr == s.g, "filtered callback: handle");
   stopAt = 1; got.clear(); s->gdxDataReadRawFastFilt(sy, fl, cbFilt); A(got.size() == (y.size() ? 1 : 0), "filtered callback: stops when asked to"); stopAt = -1;
   int ec[20]; if (P("before", 0)) { int other = (int) P("before", 0); A(s->gdxDataReadSliceStart(other, ec), "slice of another symbol"); if (symx_choice(2, "read it")) { const char *none[20]; for (auto &q : none) q = ""; int dm; gotDim = 3; s->gdxDataReadSlice(none, dm, cbRaw); gotDim = dim; } A(s->gdxDataReadDone(), "done"); } A(s->gdxDataReadSliceStart(sy, ec), "slice start"); std::vector<int> el[20]; int fdim = 0;
   for (int d = 0; d < dim; d++) { for (int k = 0; k <= nl + 5; k++) for (auto &r : x) if (r.k[d] == k) { el[d].push_back(k); break; } A(ec[d] == (int) el[d].size(), "slice: number of elements per position"); if (!fk[d]) fdim++; } for (int d = dim; d < 20; d++) A(ec[d] == 0, "slice: no elements beyond the dimension");
   { const char *one[20]; for (auto &q : one) q = LB[0]; int dm = -1; s->gdxDataReadSlice(one, dm, cbRaw); A(dm == 0, "slice: nothing free"); }
   for (int pass = 0; pass < 2; pass++) {   // a slice can be read repeatedly, each time with other labels
      int dm = -1; got.clear(); gotDim = fdim; rc = s->gdxDataReadSlice(fl, dm, cbRaw); gotDim = dim; A((rc != 0) == !bad, "slice: refused exactly for an unknown label"); if (bad) break; A(dm == fdim, "slice: number of free positions"); A(got.size() == y.size(), "slice: number of records");
      for (size_t j = 0; j < got.size(); j++) { int h = 0; for (int d = 0; d < dim; d++) if (!fk[d]) { int q = got[j].k[h++]; A(q >= 0 && q < (int) el[d].size() && el[d][q] == y[j].k[d], "slice: index within the slice"); } for (int f = 0; f < nv; f++) A(bitsOf(got[j].v[f]) == bitsOf(y[j].v[f]), "slice: values");
         A(s->gdxDataSliceUELS(got[j].k, kb.p), "slice: labels of an index"); for (int d = 0; d < dim; d++) A(eqs(kb.s[d], labOf(y[j].k[d], nl).c_str()), "slice: label"); }
      int far[20]; for (int &q : far) q = 99; if (P("before", 0)) for (int d = 0, h = 0; d < dim; d++) if (!fk[d]) far[h++] = (int) el[d].size(); if (fdim) { A(s->gdxDataSliceUELS(far, kb.p), "slice: labels of an index outside"); for (int d = 0; d < dim; d++) if (!fk[d]) A(eqs(kb.s[d], "?"), "slice: an index outside of the slice has no label"); }
   }
   s->gdxDataReadDone();
   // domain elements
   for (int d = 0; d < dim && sy > 0; d++) {
      n = -1; A(s->gdxGetDomainElements(sy, d + 1, DOMC_EXPAND, nullptr, n, nullptr) && n == (int) el[d].size() - (nolab == 2), "domain elements: count");
   }
   A(s->gdxErrorCount() == 0, "no error reported"); if (bad) symx_cover("unknown"); if (y.size()) symx_cover("hit"); symx_cover("end");
}
ENTRY(c23_readers) {
   int dim = P("dim", 1), typ = P("typ", GMS_DT_PAR), nl = P("nl", 3), nolab = P("nolab", 0), cmp = P("cmp", 0), how = P("how", 0);
   Sess w; w.openW("f.gdx", cmp); regRaw(w, LB, nl); std::vector<R> x = writeSym(w, "x", dim, typ, nl, nolab); if (typ == GMS_DT_SET && dim == 1) A(w->gdxAddAlias("x", "ax"), "alias"); if (P("before", 0)) { A(w->gdxDataWriteRawStart("other", "", 3, GMS_DT_PAR, 0), "start"); for (int k = 1; k <= nl; k++) { int kk[3] = { k, k, k }; double v[5] = { 3.0 * k }; A(w->gdxDataWriteRaw(kk, v), "write"); } A(w->gdxDataWriteDone(), "done"); } w.close();
   Sess s; s.openR("f.gdx"); bool dflt = dim == 0 && x.empty(); if (dflt) x.push_back(R {});
   readAll(s, how == 1 ? 2 : 1, x, dim, typ, nl, nolab, dflt); s.close();
}
// the universe
ENTRY(c23_universe) {
   int nl = P("nl", 3); Sess w; w.openW("f.gdx", 0); regRaw(w, LB, nl); A(w->gdxAddAlias("*", "u"), "alias of the universe"); w.close();
   std::vector<R> x; for (int i = 0; i < nl; i++) { R r = {}; r.k[0] = i + 1; x.push_back(r); }
   Sess s; s.openR("f.gdx");
   if (P("reg", 0)) { A(s->gdxUELRegisterMapStart() && s->gdxUELRegisterMap(7, "new in this session") && s->gdxUELRegisterMap(4, LB[symx_choice(nl, "known")]) && s->gdxUELRegisterDone(), "labels registered while reading"); }   // not part of the universe of the file
   readAll(s, P("how", 0), x, 1, GMS_DT_SET, nl, 0, false); s.close();
}
// domain elements with callback, with and without filter; mapped reading; after registering some labels with user numbers
ENTRY(c23_elements) {
   int dim = P("dim", 1), nl = P("nl", 3), nolab = P("nolab", 0), filt = P("filt", 0); Sess w; w.openW("f.gdx"); regRaw(w, LB, nl); std::vector<R> x = writeSym(w, "x", dim, GMS_DT_PAR, nl, nolab); w.close();
   Sess s; s.openR("f.gdx"); int um[6]; A(s->gdxUELRegisterMapStart(), "map start"); int hi = 0; for (int i = 0; i < nl; i++) { int c = (int) symx_choice(3, "user number"); um[i] = c == 0 ? -1 : c == 1 ? 10 + i : 50 - i; if (c) { A(s->gdxUELRegisterMap(um[i], LB[i]), "register"); if (um[i] > hi) hi = um[i]; } } A(s->gdxUELRegisterDone(), "map done");
   if (filt) { A(s->gdxFilterRegisterStart(3), "filter"); for (int i = 0; i < nl; i++) if (um[i] == 10 + i) A(s->gdxFilterRegister(um[i]), "filter element"); A(s->gdxFilterRegisterDone(), "filter done"); }
   int n = -1, dummy; gotEl.clear(); int dp = (int) symx_choice(dim, "position"); int rc = s->gdxGetDomainElements(1, dp + 1, filt ? 3 : DOMC_EXPAND, cbEl, n, &dummy);
   bool anyNo = nolab == 1; int errs = 0; std::vector<std::pair<int, int>> ex; std::vector<int> seen, rejs;
   for (auto &r : x) { int k = r.k[dp]; if (k == 0) continue; /* number 0 is never an element */ if (filt && !(k >= 1 && k <= nl && um[k - 1] == 10 + k - 1)) { bool dup = false; for (int q : rejs) if (q == k) dup = true; if (!dup) rejs.push_back(k); continue; } bool have = false; for (int q : seen) if (q == k) have = true; if (!have) seen.push_back(k); }
   if (anyNo && !filt) { // a number without label has no user number: refused, the handle stays usable
      A(!rc && s->gdxErrorCount() >= 1, "an element without label is reported"); errs++;
   } else {
      A(rc && n == (int) seen.size(), "number of elements");
      std::vector<int> so; for (int k = 1; k <= nl; k++) for (int q : seen) if (q == k) so.push_back(k);
      for (int k : so) { int u = um[k - 1]; if (u < 0) u = ++hi; ex.push_back({ u, k }); } for (size_t i = 0; i < ex.size(); i++) for (size_t j = i + 1; j < ex.size(); j++) if (ex[j] < ex[i]) std::swap(ex[i], ex[j]);
      A(gotEl.size() == ex.size(), "one call per element"); for (size_t i = 0; i < ex.size(); i++) A(gotEl[i].first == ex[i].second && gotEl[i].second == ex[i].first, "elements with their user numbers, in increasing user number"); if (ex.size()) A(gotPtr == &dummy, "user pointer");
      A(s->gdxDataErrorCount() == (int) rejs.size(), "records outside the filter are listed once per element");
      for (size_t i = 0; i < rejs.size(); i++) { int kk[20]; double v[5]; A(s->gdxDataErrorRecordX((int) i + 1, kk, v) && kk[dp] == -rejs[i], "listed record marks the element"); }
   }
   A(s->gdxDataReadRawStart(1, n) && n == (int) x.size(), "still usable"); int kk[20], fd; double v[5]; for (auto &r : x) { A(s->gdxDataReadRaw(kk, v, fd), "record"); for (int d = 0; d < dim; d++) A(kk[d] == r.k[d], "key"); A(bitsOf(v[0]) == bitsOf(r.v[0]), "value"); } A(!s->gdxDataReadRaw(kk, v, fd), "end"); s->gdxDataReadDone();
   // refused calls
   n = 77; A(!s->gdxGetDomainElements(1, 0, DOMC_EXPAND, nullptr, n, nullptr) && !s->gdxGetDomainElements(1, dim + 1, DOMC_EXPAND, nullptr, n, nullptr) && !s->gdxGetDomainElements(2, 1, DOMC_EXPAND, nullptr, n, nullptr) && !s->gdxGetDomainElements(1, 1, 99, nullptr, n, nullptr), "positions, symbols and filters that do not exist are refused"); A(s->gdxErrorCount() >= 4, "and reported");
   s.close(); symx_cover("end");
}
