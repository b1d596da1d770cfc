// C19: values written to a stream are the values read back, wherever they lie relative to the 32 KiB buffer; protected and packed text files return the text.
#include "gx.h"
#include "gdlib/gmsstrm.hpp"
using namespace gdlib::gmsstrm;
struct Mi : TMiBufferedStream { Mi(const char *f, uint16_t m) : TMiBufferedStream(f, m) {} };
static void pad(TMiBufferedStream &s, long upto) { std::string z(4096, 'p'); while (s.GetPosition() < upto) { long k = upto - (long) s.GetPosition(); s.Write(z.data(), (uint32_t) (k < 4096 ? k : 4096)); } }
// a sequence of typed values starting `before` bytes in front of a buffer boundary
ENTRY(c19_typed) {
   int n = P("n", 2), cmp = P("cmp", 0), first = P("first", -1); long at = P("at", 32768) - (P("before", -1) >= 0 ? P("before", -1) : (long) symx_choice(10, "bytes before the boundary")); int kind[8]; u64 v[8]; char tx[8][300]; int len[8];
   { Mi s("f.bin", fmCreate); A(s.GetLastIOResult() == 0, "created"); if (cmp) s.SetCompression(true); if (cmp) { std::string z(at, 'p'); s.Write(z.data(), (uint32_t) at); } else pad(s, at);
     for (int i = 0; i < n; i++) {
        kind[i] = i == 0 && first >= 0 ? first : (int) symx_choice(9, "kind"); v[i] = 0;
        switch (kind[i]) {
           case 0: v[i] = symx_sym(8, "byte"); s.WriteByte((uint8_t) v[i]); break;
           case 1: v[i] = symx_sym(1, "bool"); s.WriteBool(v[i]); break;
           case 2: v[i] = symx_sym(8, "char"); s.WriteChar((char) v[i]); break;
           case 3: v[i] = symx_sym(16, "word"); s.WriteWord((uint16_t) v[i]); break;
           case 4: v[i] = symx_sym(32, "integer"); s.WriteInteger((int) v[i]); break;
           case 5: v[i] = symx_sym(64, "int64"); s.WriteInt64((int64_t) v[i]); break;
           case 6: v[i] = symx_sym(64, "double"); s.WriteDouble(dblOf(v[i])); break;
           default: { static const int ls[6] = { 0, 1, 4, 254, 255, 290 }; len[i] = ls[symx_choice(kind[i] == 7 ? 5 : 6, "length")]; memset(tx[i], 'q', sizeof tx[i]); if (len[i]) { tx[i][0] = (char) symx_sym(8, "first"); tx[i][len[i] - 1] = (char) symx_sym(8, "last"); if (kind[i] == 7) s.WriteString(std::string_view(tx[i], len[i])); else s.WritePChar(tx[i], len[i]); } else if (kind[i] == 7) s.WriteString(std::string_view()); else s.WritePChar("", 0); }
        }
     } }
   Mi s("f.bin", fmOpenRead); A(s.GetLastIOResult() == 0 && s.GoodByteOrder() == 0 && !s.WordsNeedFlip() && !s.IntsNeedFlip(), "opened, own byte order"); if (cmp) { s.SetCompression(true); s.SetPosition(17); std::string z(at, '-'); A(s.Read(z.data(), (uint32_t) at) == at && z[0] == 'p' && z[at - 1] == 'p', "block data"); } else s.SetPosition(at);
   for (int i = 0; i < n; i++) {
      u64 r = 0; switch (kind[i]) {
         case 0: r = s.ReadByte(); break; case 1: r = s.ReadBool(); break; case 2: r = (uint8_t) s.ReadChar(); break; case 3: r = s.ReadWord(); break;
         case 4: r = (uint32_t) s.ReadInteger(); break; case 5: r = (u64) s.ReadInt64(); break; case 6: r = bitsOf(s.ReadDouble()); break;
         default: { int L = len[i]; std::string q; bool sh = kind[i] == 7 && symx_choice(2, "short string"); if (sh) { char b[256]; uint8_t l = 9; s.ReadSString(b, l); q.assign(b, l); A(b[l] == 0, "terminated"); } else q = kind[i] == 7 ? s.ReadString() : s.ReadPChar(L); A((int) q.size() == len[i] && L == len[i], "length of a string"); for (int c = 0; c < len[i]; c += c > 1 && c < len[i] - 3 ? 50 : 1) A(q[c] == tx[i][c], "characters of a string"); if (len[i]) A(q[len[i] - 1] == tx[i][len[i] - 1], "last character"); }
      }
      A(r == v[i], "the value read is the value written");
   }
   char c = 0; A(s.Read(&c, 1) == 0, "nothing follows"); symx_cover("end");
}
// the packed number formats
ENTRY(c19_gmsint) {
   int x = symI("x"), y = symI("y"); { Mi s("f.bin", fmCreate); s.WriteGmsInteger(x); if (P("two", 0)) s.WriteGmsInteger(y); s.WriteByte(77); }
   Mi s("f.bin", fmOpenRead); A(s.ReadGmsInteger() == x, "packed integer"); if (P("two", 0)) A(s.ReadGmsInteger() == y, "second packed integer"); A(s.ReadByte() == 77, "nothing left over"); symx_cover("end");
}
ENTRY(c19_gmsdbl) {
   int sp = P("special", 0); double x; u64 ex;
   if (!sp) { x = symD("x"); symx_assume(!isNanB(bitsOf(x)) && x < 1e300); ex = bitsOf(x); if (ex == 0x8000000000000000ull) ex = 0; }
   else { static const double sv[5] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS }; int k = (int) symx_choice(8, "special"); x = k < 5 ? sv[k] : k == 5 ? GMS_SV_ACR : k == 6 ? GMS_SV_ACR * 300 : 1.7e300; ex = k == 7 ? bitsOf(GMS_SV_UNDEF) : bitsOf(x); }
   { Mi s("f.bin", fmCreate); s.WriteGmsDouble(x); s.WriteByte(77); } Mi s("f.bin", fmOpenRead); A(bitsOf(s.ReadGmsDouble()) == ex, "packed number"); A(s.ReadByte() == 77, "nothing left over"); symx_cover("end");
}
// text files: plain, packed, protected with a password
static bool isEol(char c) { return c == '\n' || c == '\r' || c == 26; }
static void cmpText(TBinaryTextFileIO &f, const std::string &t, const char *m) { std::string r(t.size() + 8, '-'); uint32_t k = f.Read(r.data(), (uint32_t) t.size() + 8); A(k == t.size(), m); for (size_t i = 0; i < t.size(); i += i > 20 && i + 60 < t.size() ? 37 : 1) A(r[i] == t[i], m); }
ENTRY(c19_text) {
   int n = P("n", 4), pw = P("pw", 0), comp = P("comp", 0), ns = P("ns", n), pns = P("pns", pw), sig = P("sig", 0); std::string t(n, 'x'), p(pw, 'k'); for (int i = 0; i < n && i < ns; i++) t[i] = (char) symx_sym(8, "text"); 
   for (int i = 0; i < pw; i++) { if (i >= pw - pns) p[i] = (char) symx_sym(8, "password"); else p[i] = (char) (65 + i % 50); }
   for (int i = 0; i < pw; i++) symx_assume(p[i] != 0);
   int en = 9; std::string em; { TBinaryTextFileIO f("f.txt", "me", p, (TFileSignature) sig, comp, en, em); A(en == 0 && em.empty(), "created"); if (n) A(f.Write(t.data(), (uint32_t) (n / 2)) == (uint32_t) (n / 2) && f.Write(t.data() + n / 2, (uint32_t) (n - n / 2)) == (uint32_t) (n - n / 2), "text written"); A(f.UsesPassWord() == (pw > 0), "password in use"); }
   if (!pw && !comp && !sig) symx_assume(n < 4 || !((uint8_t) t[0] == 0xEF || (uint8_t) t[0] == 0xFE || (uint8_t) t[0] == 0xFF || t[0] == 0 || (uint8_t) t[0] == 31));
   TBinaryTextFileIO f("f.txt", p, en, em); A(en == 0 && em.empty(), "the file opens with the password it was written with"); cmpText(f, t, "text read back");
   f.ReWind(); cmpText(f, t, "text read again after rewinding");
   if (pw) { int e2 = 0; std::string m2; TBinaryTextFileIO g("f.txt", "", e2, m2); A(e2 == strmErrorNoPassWord && !m2.empty(), "a protected file does not open without password"); }
   symx_cover("end");
}
// reading by lines: lines end at CR, LF, ^Z or when the maximal length is reached; gz=1: a gzip file
ENTRY(c19_lines) {
   int n = P("n", 4), how = P("how", 0), gz = P("gz", 0), big = P("big", 0); std::string t(big, 'z'); for (int i = 0; i < n; i++) { unsigned c = symx_choice(5, "char"); t += c == 0 ? '\n' : c == 1 ? '\r' : c == 2 ? (char) 26 : c == 3 ? 'a' : 'b'; } t += "end";
   int mx = (int) symx_choice(3, "limit"); mx = mx == 0 ? 2 : mx == 1 ? n + big : 1000000;
   std::string img = t; if (gz) { img = std::string("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10); size_t at = 0; while (at < t.size()) { size_t k = t.size() - at; if (k > 60000) k = 60000; img += (char) (at + k == t.size()); img += (char) (k & 255); img += (char) (k >> 8); img += (char) ~(k & 255); img += (char) ~(k >> 8); img.append(t, at, k); at += k; } img += std::string(8, '\0'); }
   vfs_put("f.txt", img.data(), (long) img.size()); int en = 9; std::string em; TBinaryTextFileIO f("f.txt", "", en, em); A(en == 0 || gz, "opened"); A(em.empty(), "opened");
   size_t i = 0; char last; A(f.Read(&last, 1) == 1, "first character"); i = 1; // `last` is the next character to be processed
   for (int ln = 0; ln < 12; ln++) {
      std::string ex; char l = t[i - 1]; size_t j = i; bool eof = false; while (!isEol(l) && (int) ex.size() < mx) { ex += l; if (j < t.size()) l = t[j++]; else { l = 26; eof = true; } }
      std::string got; int len = -1; static char buf[70000]; static char guard[1]; (void) guard; std::vector<uint8_t> vb; if (how == 0) f.ReadLine(got, len, mx, last); else if (how == 1) { f.ReadLine(vb, len, mx, last); got.assign(vb.begin(), vb.end()); } else { f.ReadLine(buf, len, mx, last); got.assign(buf, len); }
      A(len == (int) ex.size() && got.size() == ex.size(), "length of the line"); for (size_t q = 0; q < ex.size(); q += q > 10 && q + 50 < ex.size() ? 41 : 1) A(got[q] == ex[q], "characters of the line"); A(last == l, "character that ended the line"); i = j;
      if (eof) break; if (isEol(l)) { char nx; if (f.Read(&nx, 1) != 1) break; A(i < t.size() && nx == t[i], "next character"); i++; last = nx; }
   }
   symx_cover("end");
}
// byte order marks
ENTRY(c19_bom) {
   int n = P("n", 6); std::string t(n, '-'); for (int i = 0; i < n; i++) t[i] = (char) symx_sym(8, "text"); auto B = [&](int i) { return i < n ? (uint8_t) t[i] : 0; };
   bool gam = n >= 8 && B(0) == 0xFF && B(1) == 6; symx_assume(!gam); symx_assume(!(B(0) == 31 && B(1) == 139)); symx_assume(B(0) != 0xFF || n < 4 || B(1) == 0xFE);
   vfs_put("f.txt", t.data(), n); int en = 0; std::string em; TBinaryTextFileIO f("f.txt", "", en, em); bool u16 = (B(0) == 0xFE && B(1) == 0xFF) || (B(0) == 0xFF && B(1) == 0xFE), u32 = B(0) == 0 && B(1) == 0 && B(2) == 0xFE && B(3) == 0xFF, u8 = B(0) == 0xEF && B(1) == 0xBB && B(2) == 0xBF;
   A((en == strmErrorEncoding) == (u16 || u32) && em.empty() == !(u16 || u32), "other encodings than ASCII and UTF-8 are refused"); if (!(u16 || u32)) { cmpText(f, t.substr(u8 ? 3 : 0), "text after the byte order mark"); f.ReWind(); cmpText(f, t.substr(u8 ? 3 : 0), "text again"); if (u8) symx_cover("utf8"); }
   symx_cover("end");
}
// the password transformation is its own inverse and does not depend on how the data are cut into pieces
ENTRY(c19_password) {
   int L = P("len", 3), n = P("n", 4); Mi s("f.bin", fmCreate); std::string p(L, 'k'); for (int i = 0; i < L; i++) { p[i] = (char) symx_sym(8, "password"); symx_assume(p[i] != 0); } s.SetPassWord(p);
   int64_t off = P("big", 0) ? 0x7ffffff0ll + (int64_t) symx_choice(40, "offset") : (int64_t) symx_choice(9, "offset"); char a[64], e[64], d[64], e2[64]; for (int i = 0; i < n; i++) a[i] = (char) symx_sym(8, "text");
   s.ApplyPassWord(a, e, n, off); s.ApplyPassWord(e, d, n, off); for (int i = 0; i < n; i++) A(d[i] == a[i], "decoding inverts encoding"); for (int i = 0; i < n; i++) s.ApplyPassWord(a + i, e2 + i, 1, off + i); for (int i = 0; i < n; i++) A(e2[i] == e[i], "independent of the pieces"); s.SetPassWord(""); symx_cover("end");
}
