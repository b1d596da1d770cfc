#ifdef VFS_WRAP
#define Z(f) __wrap_##f
#define ZREAL(c) if (symx_param("zlen", -999) == -999) return __real_##c;
int __real_compress(unsigned char *, unsigned long *, const unsigned char *, unsigned long); int __real_uncompress(unsigned char *, unsigned long *, const unsigned char *, unsigned long);
#else
#define Z(f) f
#define ZREAL(c)
int compress(unsigned char *, unsigned long *, const unsigned char *, unsigned long);
int compress2(unsigned char *dst, unsigned long *dl, const unsigned char *src, unsigned long n, int l) { return compress(dst, dl, src, n); }
unsigned long compressBound(unsigned long n) { return n + n / 1000 + 13; }
#endif
// zlib contract model: compress() keeps the data aside and emits a short unique token; uncompress() inverts it.
// In native replays the stand-in is used only for runs that fix its outcome (parameter zlen), otherwise the real zlib.
// The emitted length is a run parameter ("zlen", percent of input, default 50) so that both outcomes
// "smaller" and "not smaller" are exercised; a negative value leaves the outcome open for every block.
struct ztok { unsigned char *d; unsigned long n, k; }; static struct ztok zt[256]; static int nzt;
static unsigned long zoutlen(unsigned long n) { long p = symx_param("zlen", 50); if (p < 0) p = symx_choice(2, "zlib result") ? 50 : 110; unsigned long k = n * (unsigned long) p / 100; return k < 8 ? 8 : k; }
int Z(compress)(unsigned char *dst, unsigned long *dl, const unsigned char *src, unsigned long n) {
   ZREAL(compress(dst, dl, src, n))
   unsigned long k = zoutlen(n); if (*dl < k) return -5;
   if (nzt >= 256) symx_fail("zlib model: too many blocks");
   zt[nzt].d = (unsigned char *) malloc(n ? n : 1); memcpy(zt[nzt].d, src, n); zt[nzt].n = n; zt[nzt].k = k;
   memset(dst, 0x7E, k); dst[0] = 0x78; dst[1] = 0x9C; dst[2] = (unsigned char) nzt; dst[3] = 0xEB; nzt++; *dl = k; return 0;
}
void zmodel_reset(void) { for (int i = 0; i < nzt; i++) free(zt[i].d); nzt = 0; }
int Z(uncompress)(unsigned char *dst, unsigned long *dl, const unsigned char *src, unsigned long n) {
   ZREAL(uncompress(dst, dl, src, n))
   if (n < 8 || src[0] != 0x78 || src[1] != 0x9C || src[3] != 0xEB) return -3;
   int i = src[2]; if (i >= nzt) return -3; 
   if (n < zt[i].k) return -5;
   if (*dl < zt[i].n) return -5;
   memcpy(dst, zt[i].d, zt[i].n); *dl = zt[i].n; return 0;
}
// gzip input: a gzip member whose deflate data are stored blocks (what the harnesses write); used in symbolic and native runs
struct gzm { unsigned char *d; long n, pos, left; int last, plain; };
#ifdef VFS_WRAP
void *__wrap_gzopen(const char *fn, const char *mode)
#else
void *gzopen(const char *fn, const char *mode)
#endif
{
   if (!vfs_exists(fn)) return 0;
   struct gzm *g = (struct gzm *) malloc(sizeof *g); g->d = vfs_data(fn); g->n = vfs_size(fn); g->pos = g->left = 0; g->last = 0;
   g->plain = !(g->n >= 10 && g->d[0] == 31 && g->d[1] == 139); if (g->plain) { g->left = g->n; g->last = 1; } else g->pos = 10; return g;
}
#ifdef VFS_WRAP
int __wrap_gzread(void *h, void *buf, unsigned len)
#else
int gzread(void *h, void *buf, unsigned len)
#endif
{
   struct gzm *g = (struct gzm *) h; unsigned k = 0; unsigned char *o = (unsigned char *) buf;
   while (k < len) {
      if (!g->left) { if (g->last) break; if (g->pos + 5 > g->n) return -1; g->last = g->d[g->pos] & 1; g->left = g->d[g->pos + 1] | g->d[g->pos + 2] << 8; g->pos += 5; if (!g->left) continue; }
      long m = len - k; if (m > g->left) m = g->left; if (g->pos + m > g->n) return -1; memcpy(o + k, g->d + g->pos, (size_t) m); g->pos += m; g->left -= m; k += (unsigned) m;
   }
   return (int) k;
}
#ifdef VFS_WRAP
int __wrap_gzclose(void *h)
#else
int gzclose(void *h)
#endif
{ if (!h) return -2; free(h); return 0; }
