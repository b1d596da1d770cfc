// C26: the buffered stream behaves like a flat file: any sequence of writes, reads, seeks and (un)compressed regions, across the 32 KiB buffer.
#include "gx.h"
#include "gdlib/gmsstrm.hpp"
using namespace gdlib::gmsstrm;
static const long SZ[8] = { 1, 3, 32767, 32768, 32769, 65536, 70000, 0 };
static void fill(std::vector<unsigned char> &b, long n, int salt) { b.resize(n); for (long i = 0; i < n; i++) b[i] = (unsigned char) (i * 7 + salt); if (n) { b[0] = (unsigned char) symx_sym(8, "first"); b[n - 1] = (unsigned char) symx_sym(8, "last"); } }
static void cmp(const unsigned char *a, const unsigned char *b, long n, const char *m) { // the ends, the surroundings of the buffer limits and every 8th byte of the rest
   for (long i = 0; i < n; i++) { if (i > 8 && i < n - 8 && (i & 0x7fff) > 4 && (i & 0x7fff) < 0x7ffb) i += 61; if (i >= n) break; A(a[i] == b[i], m); }
}
// random access on a file opened for update
ENTRY(c26_flat) {
   int n = P("n", 3), op0 = P("op", -1); std::vector<unsigned char> f; fill(f, P("init", 40000), 3); vfs_put("f.bin", f.data(), (long) f.size()); long pos = 0;
   { TBufferedFileStream s("f.bin", fmOpenReadWrite); A(s.GetLastIOResult() == 0, "opened");
   for (int i = 0; i < n; i++) {
      int op = i == 0 && op0 >= 0 ? op0 : (int) symx_choice(3, "operation");
      if (op == 0) { long k = SZ[symx_choice(5, "write size")]; std::vector<unsigned char> b; fill(b, k, i + 11); A(s.Write(b.data(), (uint32_t) k) == k, "everything is written"); if ((long) f.size() < pos + k) f.resize(pos + k, 0); memcpy(f.data() + pos, b.data(), k); pos += k; }
      else if (op == 1) { long k = SZ[symx_choice(5, "read size")], left = (long) f.size() - pos; if (left < 0) left = 0; long ex = k < left ? k : left; std::vector<unsigned char> b(k + 1, 0xEE); A(s.Read(b.data(), (uint32_t) k) == ex, "number of bytes read"); cmp(b.data(), f.data() + pos, ex, "bytes read are the bytes at this place"); A(b[k] == 0xEE, "nothing beyond the request"); pos += ex; }
      else { static const long at[6] = { 0, 1, 32767, 32768, 39999, 2 }; int c = (int) symx_choice(7, "position"); pos = c == 6 ? (long) f.size() : at[c]; if (pos > (long) f.size()) pos = (long) f.size(); s.SetPosition(pos); }
      A(s.GetPosition() == pos, "position");
   }
   A(s.GetLastIOResult() == 0, "no error"); }
   A(vfs_size("f.bin") == (long) f.size(), "file size"); cmp(vfs_data("f.bin"), f.data(), (long) f.size(), "file content"); symx_cover("end");
}
// the same for a file most of which is a hole of more than 2 or 4 GiB (or 5 TiB) from byte 40000 on
ENTRY(c26_far) {
   static const long PLACE[] = { 0x7fffff00l, 0xffffff00l, 0x50000000001l }; const long at = 40000, to = PLACE[P("far", 0)]; int n = P("n", 3); std::vector<unsigned char> f; fill(f, 80000, 3); vfs_put("f.bin", f.data(), (long) f.size()); vfs_hole("f.bin", at, to - at); long pos = 0;
   auto phys = [&](long p) { return p < at ? p : p < to ? -1 : p - (to - at); }; auto end = [&]() { return (long) f.size() + (to - at); };
   { TBufferedFileStream s("f.bin", fmOpenReadWrite); A(s.GetLastIOResult() == 0, "opened");
   for (int i = 0; i < n; i++) {
      static const long off[5] = { 0, 1, 256, 32769, 39990 }; int c = (int) symx_choice(10, "position"); pos = c < 5 ? off[c] : to + off[c - 5]; s.SetPosition(pos); A(s.GetPosition() == pos, "position");
      long k = SZ[symx_choice(4, "size")]; bool low = pos < at; if (symx_choice(2, "write") && !(low && pos + k > at)) { std::vector<unsigned char> b; fill(b, k, i + 11); A(s.Write(b.data(), (uint32_t) k) == k, "everything is written"); if (end() < pos + k) f.resize(phys(pos) + k, 0); memcpy(f.data() + phys(pos), b.data(), k); pos += k; }
      else { long left = end() - pos; long ex = k < left ? k : left; std::vector<unsigned char> b(k + 1, 0xEE), w(k, 0); for (long j = 0; j < ex; j++) if (phys(pos + j) >= 0) w[j] = f[phys(pos + j)]; A(s.Read(b.data(), (uint32_t) k) == ex, "number of bytes read"); cmp(b.data(), w.data(), ex, "bytes read are the bytes at this place"); A(b[k] == 0xEE, "nothing beyond the request"); pos += ex; }
      A(s.GetPosition() == pos, "position");
   }
   A(s.GetLastIOResult() == 0, "no error"); }
   A(vfs_size("f.bin") == (long) f.size(), "file size"); cmp(vfs_data("f.bin"), f.data(), (long) f.size(), "file content"); symx_cover("end");
}
// regions written with and without compression, read back in any order, in pieces of any size
ENTRY(c26_regions) {
   int n = P("n", 3); std::vector<unsigned char> b[5]; int64_t at[5]; bool cp[5]; int cz = P("cz", -1);
   { TBufferedFileStream s("f.bin", fmCreate); for (int i = 0; i < n; i++) {
      cp[i] = cz >= 0 ? (cz >> i & 1) : symx_choice(2, "compressed"); fill(b[i], SZ[symx_choice(7, "size")], i); s.SetCompression(cp[i]); A(s.GetCompression() == cp[i], "compression state"); at[i] = s.GetPosition();
      long k = (long) b[i].size(), c = symx_choice(2, "pieces") ? k / 2 + 1 : k; A(s.Write(b[i].data(), (uint32_t) c) == c, "written"); if (k > c) A(s.Write(b[i].data() + c, (uint32_t) (k - c)) == (uint32_t) (k - c), "written"); }
     A(s.FlushBuffer() && s.GetLastIOResult() == 0, "flushed"); }
   TBufferedFileStream s("f.bin", fmOpenRead); int ord = (int) symx_choice(n, "first region"); bool rev = symx_choice(2, "backwards");
   for (int q = 0; q < n; q++) { int i = rev ? (ord + n - q) % n : (ord + q) % n; s.SetCompression(cp[i]); s.SetPosition(at[i]); long k = (long) b[i].size(), c = q & 1 ? (k + 1) / 2 : k; std::vector<unsigned char> r(k, 0xEE); A(s.Read(r.data(), (uint32_t) c) == c && (k == c || s.Read(r.data() + c, (uint32_t) (k - c)) == (uint32_t) (k - c)), "region is complete"); cmp(r.data(), b[i].data(), k, "region content"); }
   A(s.GetLastIOResult() == 0, "no error"); symx_cover("end");
}
