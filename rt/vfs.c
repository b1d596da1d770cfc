/* In-memory POSIX file model: used for open/read/write/lseek/close/... of the code under test, both in the
   symbolic run (linked as IR) and in native replay (through -Wl,--wrap).  Contract: a regular file on a POSIX system;
   faults (failing or short write/read) are injected on request only. */
#include "symx_api.h"
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>

#ifdef VFS_WRAP
#define W(f) __wrap_##f
#else
#define W(f) f
#endif

#define MAXF 24
#define MAXFD 32
#define LOGMAX 512
typedef struct { char name[300]; unsigned char *d; long size, cap; int used; long at, hole; } vfile; // from place `at` on the file has a hole of `hole` zero bytes that are not stored
typedef struct { int used, file, flags; long pos; } vfd;
typedef struct { long off, len; unsigned char *d; int file; } vlog;
static vfile F[MAXF];
static vfd D[MAXFD];
static long nWrites, nReads, nSeeks, failW = -1, failR = -1; static int failWMode, failRMode, failedFlag;
static int logOn; static vlog L[LOGMAX]; static long nLog;

// names below the current directory are the same file with and without the directory
static const char *norm(const char *n) { static char cwd[512]; if (n[0] == '.' && n[1] == '/') return n + 2; if (n[0] != '/') return n; if (!cwd[0] && !getcwd(cwd, sizeof cwd)) return n; size_t k = strlen(cwd); return !strncmp(n, cwd, k) && n[k] == '/' ? n + k + 1 : n; }
static int findf(const char *n) { n = norm(n); for (int i = 0; i < MAXF; i++) if (F[i].used && !strcmp(F[i].name, n)) return i; return -1; }
static int newf(const char *n) { n = norm(n); size_t k = strlen(n); if (k >= sizeof F[0].name) return -1; for (int i = 0; i < MAXF; i++) if (!F[i].used) { F[i].used = 1; memcpy(F[i].name, n, k + 1); F[i].d = 0; F[i].size = F[i].cap = 0; F[i].at = F[i].hole = 0; return i; } return -1; }
static int grow(vfile *f, long n) {
   if (n <= f->cap) return 0;
   long c = f->cap ? f->cap : 512; while (c < n) c *= 2;
   unsigned char *q = malloc((size_t) c); if (!q) return -1;
   memset(q, 0, (size_t) c);
   if (f->size) memcpy(q, f->d, (size_t) f->size);
   free(f->d); f->d = q; f->cap = c; return 0;
}
static long fsize(vfile *f) { return f->hole && f->size > f->at ? f->size + f->hole : f->size; }
void vfs_hole(const char *n, long at, long len) { int i = findf(n); if (i >= 0) { F[i].at = at; F[i].hole = len; } }
int vfs_exists(const char *n) { return findf(n) >= 0; }
long vfs_size(const char *n) { int i = findf(n); return i < 0 ? -1 : F[i].size; }
unsigned char *vfs_data(const char *n) { int i = findf(n); return i < 0 ? 0 : F[i].d; }
void vfs_put(const char *n, const void *p, long k) { int i = findf(n); if (i < 0) i = newf(n); if (i < 0) return; F[i].size = 0; grow(&F[i], k ? k : 1); if (k) memcpy(F[i].d, p, (size_t) k); F[i].size = k; }
void vfs_remove(const char *n) { int i = findf(n); if (i >= 0) { free(F[i].d); F[i].d = 0; F[i].used = 0; F[i].size = F[i].cap = 0; } }
void vfs_fail_write_at(long nth, int mode) { failW = nth < 0 ? -1 : nWrites + nth; failWMode = mode; failedFlag = 0; }
void vfs_fail_read_at(long nth, int mode) { failR = nth < 0 ? -1 : nReads + nth; failRMode = mode; failedFlag = 0; }
long vfs_write_count(void) { return nWrites; }
int vfs_failed(void) { return failedFlag; }
void vfs_log_enable(int on) { logOn = on; }
long vfs_log_len(void) { return nLog; }
void vfs_log_get(long i, long *off, long *len) { *off = L[i].off; *len = L[i].len; }
unsigned char *vfs_log_data(long i) { return L[i].d; }
long vfs_lseek_count(void) { return nSeeks; }
int vfs_open_count(void) { int c = 0; for (int i = 3; i < MAXFD; i++) c += D[i].used; return c; }
void zmodel_reset(void);
void vfs_reset(void) { zmodel_reset(); for (int i = 0; i < MAXF; i++) if (F[i].used) { free(F[i].d); F[i].d = 0; F[i].used = 0; } for (int i = 0; i < MAXFD; i++) D[i].used = 0; nWrites = nReads = 0; failW = failR = -1; for (long i = 0; i < nLog; i++) free(L[i].d); nLog = 0; logOn = 0; failedFlag = 0; }
void vfs_crash_image(const char *name, const char *out, long k, long part) {
   int fi = findf(name); if (fi < 0) return;
   long sz = 0; for (long i = 0; i <= k && i < nLog; i++) if (L[i].file == fi) { long n = i < k ? L[i].len : part; if (n && L[i].off + n > sz) sz = L[i].off + n; }
   unsigned char *b = malloc((size_t) (sz ? sz : 1)); memset(b, 0, (size_t) (sz ? sz : 1));
   for (long i = 0; i <= k && i < nLog; i++) if (L[i].file == fi) { long n = i < k ? L[i].len : part; if (n) memcpy(b + L[i].off, L[i].d, (size_t) n); }
   vfs_put(out, b, sz); free(b);
}
int W(open)(const char *name, int flags, ...) {
   int i = findf(name);
   if (i < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } i = newf(name); if (i < 0) { errno = ENOSPC; return -1; } }
   else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
   if ((flags & O_TRUNC) && (flags & 3)) F[i].size = F[i].at = F[i].hole = 0;
   for (int d = 3; d < MAXFD; d++) if (!D[d].used) { D[d].used = 1; D[d].file = i; D[d].flags = flags; D[d].pos = 0; return d; }
   errno = EMFILE; return -1;
}
int W(open64)(const char *name, int flags, ...) { return W(open)(name, flags, 0666); }
static vfd *fdOf(int d) { if (d < 3 || d >= MAXFD || !D[d].used) { errno = EBADF; return 0; } return &D[d]; }
int W(close)(int d) { vfd *v = fdOf(d); if (!v) return -1; v->used = 0; return 0; }
ssize_t W(read)(int d, void *p, size_t n) {
   vfd *v = fdOf(d); if (!v) return -1; if ((v->flags & 3) == O_WRONLY) { errno = EBADF; return -1; }
   vfile *f = &F[v->file]; long k = (long) n;
   long call = nReads++;
   if (failR >= 0 && (call == failR || (call > failR && (failRMode & 4)))) { failedFlag = 1; if ((failRMode & 3) == 0) { errno = EIO; return -1; } k /= 2; }
   long left = fsize(f) - v->pos; if (left < 0) left = 0;
   if (k > left) k = left;
   if (k && f->hole && v->pos + k > f->at) for (long i = 0; i < k; i++) { long q = v->pos + i; ((unsigned char *) p)[i] = q < f->at ? f->d[q] : q < f->at + f->hole ? 0 : f->d[q - f->hole]; }
   else if (k) memcpy(p, f->d + v->pos, (size_t) k);
   v->pos += k; return k;
}
ssize_t W(write)(int d, const void *p, size_t n) {
   if (d == 1 || d == 2) return (ssize_t) n;
   vfd *v = fdOf(d); if (!v) return -1; if ((v->flags & 3) == O_RDONLY) { errno = EBADF; return -1; }
   vfile *f = &F[v->file]; long k = (long) n; long call = nWrites++;
   if (failW >= 0 && (call == failW || (call > failW && (failWMode & 4)))) { failedFlag = 1; if ((failWMode & 3) == 0) { errno = ENOSPC; return -1; } k /= 2; }
   if (logOn && nLog < LOGMAX) { L[nLog].off = v->pos; L[nLog].len = k; L[nLog].file = v->file; L[nLog].d = malloc((size_t) (k ? k : 1)); if (k) memcpy(L[nLog].d, p, (size_t) k); nLog++; }
   long at = v->pos; if (f->hole && at + k > f->at) { if (at < f->at + f->hole) { errno = EIO; return -1; } at -= f->hole; }
   if (grow(f, at + k)) { errno = ENOSPC; return -1; }
   if (at > f->size) memset(f->d + f->size, 0, (size_t) (at - f->size));
   if (k) memcpy(f->d + at, p, (size_t) k);
   v->pos += k; if (at + k > f->size) f->size = at + k;
   return k;
}
off_t W(lseek)(int d, off_t o, int wh) {
   vfd *v = fdOf(d); if (!v) return -1; nSeeks++;
   long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? v->pos : fsize(&F[v->file]); long p = b + o;
   if (p < 0) { errno = EINVAL; return -1; }
   v->pos = p; return p;
}
off_t W(lseek64)(int d, off_t o, int wh) { return W(lseek)(d, o, wh); }
static void fillst(struct stat *st, int i) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = fsize(&F[i]); st->st_nlink = 1; }
int W(fstat)(int d, struct stat *st) { vfd *v = fdOf(d); if (!v) return -1; fillst(st, v->file); return 0; }
int W(stat)(const char *n, struct stat *st) { int i = findf(n); if (i < 0) { errno = ENOENT; return -1; } fillst(st, i); return 0; }
int W(lstat)(const char *n, struct stat *st) { return W(stat)(n, st); }
int W(access)(const char *n, int m) { (void) m; if (findf(n) < 0) { errno = ENOENT; return -1; } return 0; }
int W(unlink)(const char *n) { if (findf(n) < 0) { errno = ENOENT; return -1; } vfs_remove(n); return 0; }
int W(remove)(const char *n) { return W(unlink)(n); }
int W(rename)(const char *a, const char *b) { b = norm(b); int i = findf(a); if (i < 0) { errno = ENOENT; return -1; } size_t k = strlen(b); if (k >= sizeof F[0].name) { errno = EINVAL; return -1; } vfs_remove(b); memcpy(F[i].name, b, k + 1); return 0; }
int W(ftruncate)(int d, off_t n) { vfd *v = fdOf(d); if (!v) return -1; vfile *f = &F[v->file]; if (n > f->size) { if (grow(f, n)) return -1; memset(f->d + f->size, 0, (size_t) (n - f->size)); } f->size = n; return 0; }
int W(fsync)(int d) { return fdOf(d) ? 0 : -1; }
int W(chmod)(const char *n, mode_t m) { (void) m; return findf(n) < 0 ? -1 : 0; }
// a directory lists the files whose name starts with it ("./" lists the files without a directory part)
typedef struct { char pre[300]; int next; struct dirent e; } vdir;
DIR *W(opendir)(const char *n) {
   vdir *v = malloc(sizeof *v); memset(v, 0, sizeof *v); size_t k = strlen(n);
   if (k >= 298) { free(v); errno = ENOENT; return 0; }
   memcpy(v->pre, n, k + 1); if (k && n[k - 1] != '/') { v->pre[k] = '/'; v->pre[k + 1] = 0; }
   const char *q = norm(v->pre); if (q != v->pre) memmove(v->pre, q, strlen(q) + 1);
   return (DIR *) v;
}
struct dirent *W(readdir)(DIR *d) {
   vdir *v = (vdir *) d;
   for (; v->next < MAXF; v->next++) {
      if (!F[v->next].used) continue;
      const char *q = F[v->next].name; size_t k = strlen(v->pre);
      if (strncmp(q, v->pre, k) || strchr(q + k, '/')) continue;
      v->next++; strncpy(v->e.d_name, q + k, 255); v->e.d_name[255] = 0; v->e.d_type = DT_REG; return &v->e;
   }
   return 0;
}
struct dirent *W(readdir64)(DIR *d) { return W(readdir)(d); }
int W(closedir)(DIR *d) { free(d); return 0; }
#ifdef VFS_WRAP
#include "zmodel.h"
#endif
