// C11: a file whose writing did not finish is never taken for a complete one.  C12: write errors are reported.
#include "gx.h"
// with compression the number and size of writes depend on zlib (a stand-in in the symbolic run): witnesses for plain files only
#define COV(n) do { if (!P("compr", 0)) symx_cover(n); } while (0)
static const char *L[] = { "a", "b", "c", "d", "e", "f" };
static double val[8]; static int nrec, big;
static void writeAll(Sess &w) {
   regRaw(w, L, 4); int t; A(w->gdxAddSetText("some text", t), "text");
   A(w->gdxDataWriteRawStart("i", "set", 1, GMS_DT_SET, 0), "s"); for (int i = 1; i <= 2; i++) { double v[5] = { i == 1 ? 1.0 * t : 0 }; w->gdxDataWriteRaw(&i, v); } w->gdxDataWriteDone();
   w->gdxDataWriteStrStart("p", "parameter", 1, GMS_DT_PAR, 0); const char *d[20] = { "i" }; if (P("dom", 0)) w->gdxSymbolSetDomain(d); for (int i = 0; i < nrec; i++) { const char *k[20] = { L[i] }; double v[5] = { val[i] }; w->gdxDataWriteStr(k, v); } w->gdxDataWriteDone();
   if (big) { w->gdxDataWriteRawStart("b", "big", 2, GMS_DT_PAR, 0); for (int i = 1; i <= big; i++) { int k[2] = { i, 1 }; double v[5] = { i * 1.5 }; w->gdxDataWriteRaw(k, v); } w->gdxDataWriteDone(); }
   if (P("more", 0)) { w->gdxAddAlias("i", "ii"); w->gdxSymbolAddComment(1, "a comment"); w->gdxAcronymAdd("acr", "acronym", 5); w->gdxSymbolSetDomainX(2, d); }
}
static void checkAll(Sess &s) {
   int sc, uc, n, k[20], df, ty; double v[7]; char t[300]; A(s->gdxSystemInfo(sc, uc) && sc == 2 + !!big + P("more", 0) && uc == 4, "counts of the complete file"); A(s->gdxSymbolInfo(2, t, n, ty) && eqs(t, "p") && n == 1 && ty == GMS_DT_PAR, "symbol of the complete file"); for (int i = 0; i < 4; i++) A(s->gdxUMUelGet(i + 1, t, n) && eqs(t, L[i]), "label of the complete file");
   A(s->gdxDataReadRawStart(1, n) && n == 2, "set of the complete file"); for (int i = 1; i <= 2; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i, "element of the complete file"); A(!s->gdxDataReadRaw(k, v, df), "end");
   A(s->gdxDataReadRawStart(2, n) && n == nrec, "records of the complete file"); for (int i = 0; i < nrec; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i + 1 && bitsOf(v[0]) == bitsOf(val[i]), "record of the complete file"); A(!s->gdxDataReadRaw(k, v, df), "end");
   if (big) { A(s->gdxDataReadRawStart(3, n) && n == big, "big"); for (int i = 1; i <= big; i++) A(s->gdxDataReadRaw(k, v, df) && k[0] == i && k[1] == 1 && v[0] == i * 1.5, "record of the complete file"); A(!s->gdxDataReadRaw(k, v, df), "end"); }
   if (P("more", 0)) { static KeyBuf kb; A(s->gdxSymbolGetDomainX(2, kb.p) > 0 && eqs(kb.p[0], "i"), "domain information of the complete file"); A(s->gdxSymbolGetComment(1, 1, t) && eqs(t, "a comment"), "comment of the complete file"); A(s->gdxAcronymCount() == 1, "acronym of the complete file"); }
}
static void init() { nrec = (int) P("n", 2); big = (int) P("big", 0); for (int i = 0; i < nrec; i++) val[i] = symV("value"); }
// the process stops after any number of file writes, the last one possibly partial
ENTRY(c11_crash) {
   init(); long nw; int step = (int) P("step", 1);
   if (P("over", 0)) { Sess w; w.openW("f.gdx"); w.close(); } // an older complete file is being replaced
   { Sess w; vfs_log_enable(1); w.openW("f.gdx", (int) P("compr", 0)); writeAll(w); w.close(); nw = vfs_log_len(); vfs_log_enable(0); }
   int k = (int) symx_choice(nw + 1, "writes done"); if (k > nw) k = (int) nw; long off, len = 0, part = 0; if (k < nw) { vfs_log_get(k, &off, &len); part = step * symx_choice((len + step - 1) / step, "bytes of the next write"); if (part > len) part = len; }
   vfs_crash_image("f.gdx", "g.gdx", k, part); Sess s; int e = 0, r = s->gdxOpenRead("g.gdx", e);
   if (k == nw) { A(r == 1 && e == 0, "the complete file opens"); checkAll(s); COV("complete"); A(s->gdxClose() == 0, "close"); }
   else if (r) { A(e == 0, "no error"); checkAll(s); COV("opened"); }
   else { A(e != 0, "refusal comes with an error number"); char m[300]; s->gdxErrorStr(e, m); A(m[0] != 0, "error text"); COV("refused"); { Sess s2; s2.openR("f.gdx"); } s->gdxClose(); s.openR("f.gdx"); checkAll(s); s.close(); }
   symx_cover("end");
}
// reading while another handle is still writing (its buffer only partly on disk)
ENTRY(c11_writing) {
   init(); int stop = (int) symx_choice(8, "calls done"); Sess w; w.openW("f.gdx", (int) P("compr", 0));
   for (int i = 0; i < stop; i++) switch (i) { case 0: w->gdxUELRegisterRawStart(); break; case 1: w->gdxUELRegisterRaw("a"); break; case 2: w->gdxUELRegisterDone(); break; case 3: w->gdxDataWriteRawStart("p", "", 1, GMS_DT_PAR, 0); break; case 4: { int k = 1; double v[5] = { val[0] }; w->gdxDataWriteRaw(&k, v); break; } case 5: w->gdxDataWriteDone(); break; case 6: w->gdxDataWriteRawStart("q", "", 0, GMS_DT_PAR, 0); break; }
   { Sess s; int e = 0; A(!s->gdxOpenRead("f.gdx", e) && e != 0, "a file being written cannot be opened"); }
   if (P("drop", 0)) { delete w.g; w.g = nullptr; Sess s; int e = 0; int r = s->gdxOpenRead("f.gdx", e); A(!r && e != 0, "a file that was never closed cannot be opened"); symx_cover("end"); return; }
   A(w->gdxClose() == 0, "close"); Sess s; s.openR("f.gdx"); int sc, uc; A(s->gdxSystemInfo(sc, uc) && sc == (stop > 3) + (stop > 6) && uc == (stop > 1), "complete after close"); s.close(); symx_cover("end");
}
// a complete file cut short or followed by other bytes
ENTRY(c11_trunc) {
   init(); { Sess w; w.openW("f.gdx", (int) P("compr", 0)); writeAll(w); w.close(); } auto img = fileBytes("f.gdx"); long cut = symx_choice(img.size(), "length"); if (cut >= (long) img.size()) cut = (long) img.size() - 1; vfs_put("g.gdx", img.data(), cut);
   Sess s; int e = 0, r = s->gdxOpenRead("g.gdx", e); A(!r && e != 0, "a cut file cannot be opened"); s->gdxClose(); s.openR("f.gdx"); checkAll(s); s.close(); symx_cover("end");
}
// the nth write fails (or is short); with mode bit 4 all later writes fail too
ENTRY(c12_fail) {
   init(); int mode = (int) P("mode", 0); long nw; { Sess w; long c0 = vfs_write_count(); w.openW("x.gdx", (int) P("compr", 0)); writeAll(w); w.close(); nw = vfs_write_count() - c0; }
   int at = (int) symx_choice(nw, "failing write"); bool reported = false; int rc;
   { Sess w; w->gdxAutoConvert((int) P("conv", 0)); vfs_fail_write_at(at, mode); int e = 0; A(w->gdxOpenWriteEx("f.gdx", "harness", (int) P("compr", 0), e) == 1 && e == 0, "open"); writeAll(w); if (P("ask", 0)) reported = w->gdxGetLastError() != 0; rc = w->gdxClose(); vfs_fail_write_at(-1, 0); if (rc != 0) reported = true;
     if (mode % 4 == 0) A(reported, "a failed write is reported, at the latest by gdxClose");
     if (rc) { char m[300]; w->gdxErrorStr(rc, m); A(m[0] != 0, "error text"); symx_cover("reported"); } else symx_cover("unreported");
     // the handle works again
     w.openW("g.gdx", (int) P("compr", 0)); writeAll(w); w.close(); Sess s; s.openR("g.gdx"); checkAll(s); s.close(); }
   if (!reported) { Sess s; s.openR("f.gdx"); checkAll(s); s.close(); }
   symx_cover("end");
}
ENTRY(c12_append) {
   init(); int mode = (int) P("mode", 0); { Sess w; w.openW("f.gdx", (int) P("compr", 0)); writeAll(w); w.close(); } auto img = fileBytes("f.gdx"); vfs_put("x.gdx", img.data(), img.size());
   auto app = [&](const char *fn) { Sess w; int e = 0; w->gdxAutoConvert((int) P("conv", 0)); A(w->gdxOpenAppend(fn, "h2", e) && !e, "append"); w->gdxDataWriteStrStart("z", "", 1, GMS_DT_PAR, 0); const char *k[20] = { "b" }; double v[5] = { 3.5 }; w->gdxDataWriteStr(k, v); w->gdxDataWriteDone(); return w->gdxClose(); };
   long c0 = vfs_write_count(); A(app("x.gdx") == 0, "append ok"); long nw = vfs_write_count() - c0; int at = (int) symx_choice(nw, "failing write"); vfs_fail_write_at(at, mode); int rc = app("f.gdx"); A(vfs_failed(), "fault delivered"); vfs_fail_write_at(-1, 0); if (mode % 4 == 0) A(rc != 0, "a failed write is reported by gdxClose"); symx_cover("end");
}
// a file that cannot be created or opened
ENTRY(c12_read) {
   init(); int mode = (int) P("mode", 0); { Sess w; w.openW("f.gdx", (int) P("compr", 0)); writeAll(w); w.close(); } int at = (int) symx_choice(12, "failing read"); vfs_fail_read_at(at, mode); Sess s; int e = 0, r = s->gdxOpenRead("f.gdx", e); bool hit = vfs_failed(); vfs_fail_read_at(-1, 0); if (!r) { A(hit && e != 0, "refused only because of the fault, with an error"); s->gdxClose(); s.openR("f.gdx"); COV("refused"); } checkAll(s); s.close(); symx_cover("end");
}
// the process stops while an existing file is being appended to: the file is refused, or is the old one, or the new one
ENTRY(c11_append) {
   init(); int step = (int) P("step", 1), co = (int) P("compr", 0); { Sess w; w.openW("f.gdx", co); writeAll(w); w.close(); } auto img = fileBytes("f.gdx"); double av = symV("appended"); long nw; int na = (int) P("na", 1);
   { Sess w; vfs_log_enable(1); w.openA("f.gdx"); for (int i = 0; i < na; i++) { std::string nm = "z" + std::to_string(i); w->gdxDataWriteStrStart(nm.c_str(), "appended", 1, GMS_DT_PAR, 0); const char *k[20] = { P("new", 0) ? "n" : "b" }; double v[5] = { av }; w->gdxDataWriteStr(k, v); w->gdxDataWriteDone(); } w.close(); nw = vfs_log_len(); vfs_log_enable(0); }
   int k = (int) symx_choice(nw + 1, "writes done"); if (k > nw) k = (int) nw; long off, len = 0, part = 0; if (k < nw) { vfs_log_get(k, &off, &len); part = step * symx_choice((len + step - 1) / step, "bytes of the next write"); if (part > len) part = len; }
   // image: old content overlaid with the writes done
   std::vector<unsigned char> im = img; { auto full = fileBytes("f.gdx"); for (long i = 0; i <= k && i < nw; i++) { long o, l; vfs_log_get(i, &o, &l); if (i == k) l = part; if (o + l > (long) im.size()) im.resize(o + l, 0); const unsigned char *d = vfs_log_data(i); for (long b = 0; b < l; b++) im[o + b] = d[b]; } }
   vfs_put("g.gdx", im.data(), im.size()); Sess s; int e = 0, r = s->gdxOpenRead("g.gdx", e);
   if (k == nw) A(r == 1 && e == 0, "the complete file opens");
   if (!r) { A(e != 0, "refusal comes with an error number"); COV("refused"); }
   else { int sc, uc, n, kk[20], df; double v[7]; char t[300]; int ns = 2 + !!big + (int) P("more", 0); A(s->gdxSystemInfo(sc, uc) && (sc == ns || sc == ns + na), "old or new symbols"); bool neu = sc != ns; A(uc == 4 + (neu && P("new", 0)), "labels match the symbols"); for (int i = 0; i < 4; i++) A(s->gdxUMUelGet(i + 1, t, n) && eqs(t, L[i]), "label");
      A(s->gdxDataReadRawStart(2, n) && n == nrec, "old symbol"); for (int i = 0; i < nrec; i++) A(s->gdxDataReadRaw(kk, v, df) && kk[0] == i + 1 && bitsOf(v[0]) == bitsOf(val[i]), "old record"); A(!s->gdxDataReadRaw(kk, v, df), "end");
      if (neu) for (int i = 0; i < na; i++) { A(s->gdxDataReadRawStart(ns + 1 + i, n) && n == 1 && s->gdxDataReadRaw(kk, v, df) && kk[0] == (P("new", 0) ? 5 : 2) && bitsOf(v[0]) == bitsOf(av), "appended record"); s->gdxDataReadDone(); COV("new"); } else COV("old"); s.close(); }
   symx_cover("end");
}
