// Independent reference codec for the GDX container (no code shared with the implementation): used to check that files
// follow the published layout in both directions.
#pragma once
#include "gx.h"
struct RRec { int k[20]; double v[5]; int tag[5]; bool longForm; };   // tag 10 = v is the value
struct RSym { std::string name, text; int dim, type, user, errors, settext; bool hasDom; int dom[20]; bool hasRel; int rel[20]; std::vector<std::string> comments; int mn[20], mx[20]; std::vector<RRec> recs; long pos; int count; RSym() : dim(0), type(GMS_DT_PAR), user(0), errors(0), settext(0), hasDom(false), hasRel(false), pos(0), count(0) { memset(dom, 0, sizeof dom); memset(rel, 0, sizeof rel); memset(mn, 0, sizeof mn); memset(mx, 0, sizeof mx); } };
struct RAcr { std::string name, text; int nr; };
struct RFile { int version = 7, compr = 0; bool big = false; std::string audit = "GDX Library      99 ALFA Released  1Jan26 WEI x86 64bit/MS Window", producer = "reference"; std::vector<RSym> syms; std::vector<std::string> texts, uels, doms; std::vector<RAcr> acrs; int uelExtra = 0; };
static const int RTAGN = 10;
inline double refTag(int t) { static const double T[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS, 0.0, 1.0, -1.0, 0.5, 2.0 }; return T[t]; }
inline int refWidth(long mn, long mx) { long n = mx - mn + 1; return n <= 0 ? 4 : n <= 255 ? 1 : n <= 65535 ? 2 : 4; }
struct REnc { std::vector<unsigned char> b; bool big;
   void raw(const void *p, int n) { const unsigned char *q = (const unsigned char *) p; if (big) for (int i = n - 1; i >= 0; i--) b.push_back(q[i]); else for (int i = 0; i < n; i++) b.push_back(q[i]); }
   void u8(int x) { b.push_back((unsigned char) x); } void w16(int x) { unsigned short s = (unsigned short) x; raw(&s, 2); } void i32(int x) { raw(&x, 4); } void i64(long x) { raw(&x, 8); } void d(double x) { raw(&x, 8); } void str(const std::string &s) { u8((int) s.size()); for (char c : s) b.push_back((unsigned char) c); } };
inline std::vector<unsigned char> refEncode(RFile &f) {
   REnc e; e.big = f.big; e.u8(2); e.w16(0x1234); e.u8(4); e.i32(0x12345678); e.u8(8); e.d(3.1415926535897932385); e.u8(123); e.str("GAMSGDX"); e.i32(f.version); if (f.version > 5) e.i32(f.compr); e.str(f.audit); e.str(f.producer);
   size_t idx = e.b.size(); for (int i = 0; i < 80; i++) e.u8(0);
   for (auto &s : f.syms) { s.pos = (long) e.b.size(); if (s.type == GMS_DT_ALIAS) { s.pos = 0; continue; } s.count = (int) s.recs.size(); e.str("_DATA_"); e.u8(s.dim); e.i32(s.count); for (int d = 0; d < s.dim; d++) { e.i32(s.mn[d]); e.i32(s.mx[d]); } int delta0 = f.version <= 6 ? 10 : s.dim; const RRec *p = nullptr;
      for (auto &r : s.recs) { int fd = 0; while (p && fd < s.dim && p->k[fd] == r.k[fd]) fd++; if (s.dim == 0) e.u8(1); else { long dl = p && fd == s.dim - 1 ? (long) r.k[fd] - p->k[fd] : 0; if (dl > 0 && delta0 + dl < 255 && !r.longForm) e.u8((int) (delta0 + dl)); else { e.u8(fd + 1); for (int d = fd; d < s.dim; d++) { int x = r.k[d] - s.mn[d]; int w = refWidth(s.mn[d], s.mx[d]); if (w == 1) e.u8(x); else if (w == 2) e.w16(x); else e.i32(x); } } }
         for (int v = 0; v < nVals(s.type); v++) { e.u8(r.tag[v]); if (r.tag[v] == RTAGN) e.d(r.v[v]); } p = &r; }
      e.u8(255); }
   long symb = (long) e.b.size(); e.str("_SYMB_"); e.i32((int) f.syms.size());
   for (auto &s : f.syms) { e.str(s.name); if (f.version <= 5) e.i32((int) s.pos); else e.i64(s.pos); e.i32(s.dim); e.u8(s.type); e.i32(s.user); e.i32(s.count); e.i32(s.errors); e.u8(s.settext); e.str(s.text); if (f.version > 5) e.u8(0); if (f.version >= 7) { e.u8(s.hasDom); if (s.hasDom) for (int d = 0; d < s.dim; d++) e.i32(s.dom[d]); e.i32((int) s.comments.size()); for (auto &c : s.comments) e.str(c); } }
   e.str("_SYMB_"); long sett = (long) e.b.size(); e.str("_SETT_"); e.i32((int) f.texts.size()); for (auto &t : f.texts) e.str(t); e.str("_SETT_"); long uel = (long) e.b.size(); e.str("_UEL_"); e.i32((int) f.uels.size() + f.uelExtra); for (auto &t : f.uels) e.str(t); e.str("_UEL_");
   long acr = (long) e.b.size(), doms = 0; if (f.version >= 7) { e.str("_ACRO_"); e.i32((int) f.acrs.size()); for (auto &a : f.acrs) { e.str(a.name); e.str(a.text); e.i32(a.nr); } e.str("_ACRO_"); doms = (long) e.b.size(); e.str("_DOMS_"); e.i32((int) f.doms.size()); for (auto &t : f.doms) e.str(t); e.str("_DOMS_"); for (size_t i = 0; i < f.syms.size(); i++) if (f.syms[i].hasRel) { e.i32((int) i + 1); for (int d = 0; d < f.syms[i].dim; d++) e.i32(f.syms[i].rel[d]); } e.i32(-1); e.str("_DOMS_"); }
   REnc x; x.big = f.big; x.i32(19510624); if (f.version <= 5) { x.i32((int) symb); x.i32((int) uel); x.i32((int) sett); x.i32((int) symb); } else { x.i64(symb); x.i64(uel); x.i64(sett); if (f.version >= 7) { x.i64(acr); x.i64(symb); x.i64(doms); } } for (size_t i = 0; i < x.b.size(); i++) e.b[idx + i] = x.b[i];
   return e.b;
}
struct RDec { const std::vector<unsigned char> &b; size_t p = 0; RDec(const std::vector<unsigned char> &x) : b(x) {}
   void need(size_t n) { A(p + n <= b.size(), "layout: within the file"); } int u8() { need(1); return b[p++]; } int w16() { need(2); int x = b[p] | b[p + 1] << 8; p += 2; return x; } int i32() { need(4); unsigned x = 0; for (int i = 3; i >= 0; i--) x = x << 8 | b[p + i]; p += 4; return (int) x; } long i64() { need(8); unsigned long x = 0; for (int i = 7; i >= 0; i--) x = x << 8 | b[p + i]; p += 8; return (long) x; } double d() { need(8); u64 x = 0; for (int i = 7; i >= 0; i--) x = x << 8 | b[p + i]; p += 8; return dblOf(x); } std::string str() { int n = u8(); need(n); std::string s((const char *) &b[p], n); p += n; return s; } void mark(const char *m) { A(str() == m, "layout: section marker"); } };
// decodes a plain version 7 file, checking every structural element of the layout
inline RFile refDecode(const std::vector<unsigned char> &bytes) {
   RFile f; RDec r(bytes); A(r.u8() == 2 && r.w16() == 0x1234 && r.u8() == 4 && r.i32() == 0x12345678 && r.u8() == 8 && r.d() == 3.1415926535897932385, "layout: byte order header"); A(r.u8() == 123, "layout: header number"); r.mark("GAMSGDX"); f.version = r.i32(); A(f.version == 7, "layout: version"); f.compr = r.i32(); f.audit = r.str(); f.producer = r.str(); size_t idx = r.p; A(r.i32() == 19510624, "layout: index marker"); long symb = r.i64(), uel = r.i64(), sett = r.i64(), acr = r.i64(), next = r.i64(), doms = r.i64(); (void) next; size_t dataStart = idx + 80;
   r.p = (size_t) symb; r.mark("_SYMB_"); int n = r.i32(); A(n >= 0 && n < 1000, "layout: symbol count"); for (int i = 0; i < n; i++) { RSym s; s.name = r.str(); s.pos = r.i64(); s.dim = r.i32(); s.type = r.u8(); s.user = r.i32(); s.count = r.i32(); s.errors = r.i32(); s.settext = r.u8(); s.text = r.str(); A(r.u8() == 0, "layout: not compressed"); A(s.dim >= 0 && s.dim <= 20, "layout: dimension"); s.hasDom = r.u8(); if (s.hasDom) for (int d = 0; d < s.dim; d++) s.dom[d] = r.i32(); int nc = r.i32(); for (int c = 0; c < nc; c++) s.comments.push_back(r.str()); f.syms.push_back(s); } r.mark("_SYMB_");
   r.p = (size_t) sett; r.mark("_SETT_"); n = r.i32(); for (int i = 0; i < n; i++) f.texts.push_back(r.str()); r.mark("_SETT_"); r.p = (size_t) uel; r.mark("_UEL_"); n = r.i32(); for (int i = 0; i < n; i++) f.uels.push_back(r.str()); r.mark("_UEL_"); r.p = (size_t) acr; r.mark("_ACRO_"); n = r.i32(); for (int i = 0; i < n; i++) { RAcr a; a.name = r.str(); a.text = r.str(); a.nr = r.i32(); f.acrs.push_back(a); } r.mark("_ACRO_");
   r.p = (size_t) doms; r.mark("_DOMS_"); n = r.i32(); for (int i = 0; i < n; i++) f.doms.push_back(r.str()); r.mark("_DOMS_"); for (;;) { int sy = r.i32(); if (sy == -1) break; A(sy >= 1 && sy <= (int) f.syms.size(), "layout: domain symbol"); auto &s = f.syms[sy - 1]; s.hasRel = true; for (int d = 0; d < s.dim; d++) s.rel[d] = r.i32(); } r.mark("_DOMS_");
   for (auto &s : f.syms) { if (s.type == GMS_DT_ALIAS) continue; A(s.pos >= (long) dataStart, "layout: data position"); r.p = (size_t) s.pos; r.mark("_DATA_"); A(r.u8() == s.dim, "layout: dimension of data"); r.i32(); for (int d = 0; d < s.dim; d++) { s.mn[d] = r.i32(); s.mx[d] = r.i32(); } RRec q; memset(&q, 0, sizeof q);
      for (;;) { int t = r.u8(); if (t == 255) break; if (s.dim == 0) A(t == 1, "layout: scalar record"); else if (t > s.dim) { A(s.dim > 0 && !s.recs.empty(), "layout: short form"); q.k[s.dim - 1] += t - s.dim; } else { A(t >= 1, "layout: changed dimension"); for (int d = t - 1; d < s.dim; d++) { int w = refWidth(s.mn[d], s.mx[d]); q.k[d] = (w == 1 ? r.u8() : w == 2 ? r.w16() : r.i32()) + s.mn[d]; } } for (int v = 0; v < nVals(s.type); v++) { q.tag[v] = r.u8(); A(q.tag[v] <= RTAGN, "layout: value tag"); q.v[v] = q.tag[v] == RTAGN ? r.d() : refTag(q.tag[v]); } s.recs.push_back(q); A(s.recs.size() < 5000, "layout: record count"); }
      A((int) s.recs.size() == s.count, "layout: record count of the symbol"); }
   return f;
}
