// libc/zlib models for the symbolic run (compiled as C with -fno-builtin, executed by the engine).
#define _DEFAULT_SOURCE
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/utsname.h>
#include "symx_api.h"
#undef errno
#define errno g_errno
#define nullptr 0
static int g_errno; void symx_unmodelled_scanf(void); // never defined: reaching it is an engine error, not a verdict
int *__errno_location(void) { return &g_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = (const unsigned char *) x, *b = (const unsigned char *) y; int r = 0; for (size_t i = n; i-- > 0;) { int d = (int) a[i] - (int) b[i]; r = d != 0 ? d : r; } return r; }
int bcmp(const void *x, const void *y, size_t n) { const unsigned char *a = (const unsigned char *) x, *b = (const unsigned char *) y; unsigned r = 0; for (size_t i = 0; i < n; i++) r |= (unsigned) (a[i] ^ b[i]); return (int) r; }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = (const unsigned char *) x; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char) c) return (void *) (a + i); return nullptr; }
void *memrchr(const void *x, int c, size_t n) { const unsigned char *a = (const unsigned char *) x; for (size_t i = n; i-- > 0;) if (a[i] == (unsigned char) c) return (void *) (a + i); return nullptr; }
int strcmp(const char *a, const char *b) { size_t i = 0; for (;; i++) { unsigned char x = (unsigned char) a[i], y = (unsigned char) b[i]; if (x != y) return (int) x - (int) y; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = (unsigned char) a[i], y = (unsigned char) b[i]; if (x != y) return (int) x - (int) y; if (!x) return 0; } return 0; }
int toupper(int c) { return c - (int) (((unsigned) (c - 'a') < 26u ? 1u : 0u) << 5); }
int tolower(int c) { return c + (int) (((unsigned) (c - 'A') < 26u ? 1u : 0u) << 5); }
int strcasecmp(const char *a, const char *b) { for (size_t i = 0;; i++) { int x = tolower((unsigned char) a[i]), y = tolower((unsigned char) b[i]); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char) a[i]), y = tolower((unsigned char) b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char *) h; if (!*h) return nullptr; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d + i - 1; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *) s; return nullptr; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) malloc(n); memcpy(p, s, n); return p; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return nullptr; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
int isspace(int c) { return (c == 32) | ((unsigned) (c - 9) < 5u); }
int isblank(int c) { return (c == 32) | (c == 9); }
int isdigit(int c) { return (unsigned) (c - '0') < 10u; }
int isalpha(int c) { return (unsigned) ((c | 32) - 'a') < 26u; }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isupper(int c) { return (unsigned) (c - 'A') < 26u; }
int islower(int c) { return (unsigned) (c - 'a') < 26u; }
int isprint(int c) { return (unsigned) (c - 32) < 95u; }
int isxdigit(int c) { return isdigit(c) | ((unsigned) ((c | 32) - 'a') < 6u); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != 32); }
int iscntrl(int c) { return ((unsigned) c < 32u) | (c == 127); }
int isgraph(int c) { return (unsigned) (c - 33) < 94u; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
long strtol(const char *s, char **e, int base) {
   const char *p = s; while (isspace((unsigned char) *p)) p++;
   int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
   if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char) p[2])) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
   unsigned long v = 0; int any = 0, ovf = 0;
   for (;; p++) { int c = (unsigned char) *p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = 1; if (v > (0x7fffffffffffffffUL - (unsigned long) d) / (unsigned long) base) ovf = 1; else v = v * (unsigned long) base + (unsigned long) d; }
   if (e) *e = (char *) (any ? p : s);
   if (ovf) { errno = ERANGE; return neg ? (long) 0x8000000000000000UL : 0x7fffffffffffffffL; }
   return neg ? -(long) v : (long) v;
}
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long) strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long) strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return (unsigned long) strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return (unsigned long) strtol(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, nullptr, 10); }
double atof(const char *s) { return strtod(s, nullptr); }

int symx_fmt_double(char *b, size_t n, const char *fmt, int prec, int width, double d);
int vsnprintf(char *o, size_t n, const char *f, va_list ap) {
   size_t k = 0;
#define PUT(ch) do { char q_ = (ch); if (k + 1 < n) o[k] = q_; k++; } while (0)
   for (; *f; f++) {
      if (*f != '%') { PUT(*f); continue; }
      f++; if (*f == '%') { PUT('%'); continue; }
      int left = 0, zero = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0;
      for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') plus = 2; else break; }
      if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((unsigned char) *f)) width = width * 10 + (*f++ - '0');
      if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char) *f)) prec = prec * 10 + (*f++ - '0'); }
      while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; f++; }
      char t[520]; const char *s = t; int len = 0; 
      switch (*f) {
         case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
            unsigned long v; int neg = 0;
            if (*f == 'd' || *f == 'i') { long sv = lng ? va_arg(ap, long) : (long) va_arg(ap, int); if (sv < 0) { neg = 1; v = 0UL - (unsigned long) sv; } else v = (unsigned long) sv; }
            else v = lng ? va_arg(ap, unsigned long) : (unsigned long) va_arg(ap, unsigned);
            unsigned base = (*f == 'x' || *f == 'X') ? 16 : *f == 'o' ? 8 : 10; char d[32]; int m = 0;
            if (v <= 0xffffffffUL) { unsigned w = (unsigned) v; do { unsigned g = w % base; d[m++] = (char) (g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10); w /= base; } while (w); }
            else do { unsigned g = (unsigned) (v % base); d[m++] = (char) (g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10); v /= base; } while (v);
            while (m < prec && m < 31) d[m++] = '0';
            if (zero && !left && prec < 0) { int w = width - (neg || plus ? 1 : 0); while (m < w && m < 31) d[m++] = '0'; }
            if (neg) t[len++] = '-'; else if (plus == 1) t[len++] = '+'; else if (plus == 2) t[len++] = ' ';
            while (m) t[len++] = d[--m];
            break;
         }
         case 'c': t[0] = (char) va_arg(ap, int); len = 1; break;
         case 's': { s = va_arg(ap, const char *); if (!s) s = "(null)"; len = (int) (prec >= 0 ? strnlen(s, (size_t) prec) : strlen(s)); break; }
         case 'p': { (void) va_arg(ap, void *); t[0] = '0'; t[1] = 'x'; len = 2; break; }
         case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
            double v = va_arg(ap, double); char ff[12]; int q = 0; ff[q++] = '%'; if (left) ff[q++] = '-'; if (zero) ff[q++] = '0'; if (plus == 1) ff[q++] = '+'; if (alt) ff[q++] = '#'; ff[q++] = '*'; ff[q++] = '.'; ff[q++] = '*'; ff[q++] = *f; ff[q] = 0;
            len = symx_fmt_double(t, sizeof t, ff, prec < 0 ? 6 : prec, width, v); break;
         }
         default: symx_fail("vsnprintf: unsupported conversion");
      }
      if (!left) for (int i = len; i < width; i++) PUT(' ');
      for (int i = 0; i < len; i++) PUT(s[i]);
      if (left) for (int i = len; i < width; i++) PUT(' ');
   }
   if (n) o[k < n ? k : n - 1] = 0;
   return (int) k;
}
int snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1u << 20, f, ap); va_end(ap); return r; }
int printf(const char *, ...) { return 0; }
int puts(const char *) { return 0; }
int putchar(int c) { return c; }
int fprintf(FILE *, const char *, ...) { return 0; }
int fputs(const char *, FILE *) { return 0; }
int fputc(int c, FILE *) { return c; }
int fflush(FILE *) { return 0; }
size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; }
FILE *fopen(const char *, const char *) { errno = ENOENT; return nullptr; }
FILE *fopen64(const char *, const char *) { errno = ENOENT; return nullptr; }
int fclose(FILE *) { return 0; }
int ferror(FILE *) { return 0; }
char *fgets(char *, int, FILE *) { return nullptr; }
int fscanf(FILE *, const char *, ...) { return 0; }
int __isoc23_fscanf(FILE *, const char *, ...) { return 0; }
// environment
static struct { char n[40], v[200]; int used; } envt[8];
char *getenv(const char *n) { for (int i = 0; i < 8; i++) if (envt[i].used && !strcmp(envt[i].n, n)) return envt[i].v; return 0; }
int setenv(const char *n, const char *v, int o) { (void) o; for (int i = 0; i < 8; i++) if (envt[i].used && !strcmp(envt[i].n, n)) { strcpy(envt[i].v, v); return 0; } for (int i = 0; i < 8; i++) if (!envt[i].used) { envt[i].used = 1; strcpy(envt[i].n, n); strcpy(envt[i].v, v); return 0; } return -1; }
int unsetenv(const char *n) { for (int i = 0; i < 8; i++) if (envt[i].used && !strcmp(envt[i].n, n)) envt[i].used = 0; return 0; }
// time: fixed
int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = 1700000000; tv->tv_usec = 123456; return 0; }
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
clock_t clock(void) { return 1000; }
static struct tm fixedTm(void) { struct tm x; memset(&x, 0, sizeof x); x.tm_year = 123; x.tm_mon = 10; x.tm_mday = 14; x.tm_hour = 22; x.tm_min = 13; x.tm_sec = 20; x.tm_wday = 2; x.tm_yday = 317; return x; }
struct tm *localtime_r(const time_t *, struct tm *o) { *o = fixedTm(); return o; }
struct tm *gmtime_r(const time_t *, struct tm *o) { *o = fixedTm(); return o; }
struct tm *localtime(const time_t *) { static struct tm x; x = fixedTm(); return &x; }
time_t mktime(struct tm *) { return 1700000000; }
int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int usleep(unsigned) { return 0; }
unsigned sleep(unsigned) { return 0; }
int getpid_(void) { return 4711; }
pid_t getpid(void) { return 4711; }
char *getcwd(char *b, size_t n) { if (n < 7) { errno = ERANGE; return nullptr; } strcpy(b, "/vfs/d"); return b; }
int chdir(const char *) { return 0; }
int mkdir(const char *, mode_t) { return 0; }
int rmdir(const char *) { return 0; }
void *symx_funcaddr(const char *name);
void *dlopen(const char *n, int f) { (void) n; (void) f; return (void *) symx_funcaddr("symx_dl_anchor"); }
void symx_dl_anchor(void) {}
static int dlbad;
void *dlsym(void *h, const char *n) { (void) h; void *p = symx_funcaddr(n); dlbad = !p; return p; }
int dlclose(void *h) { (void) h; return 0; }
char *dlerror(void) { int b = dlbad; dlbad = 0; return b ? (char *) "undefined symbol" : 0; }
ssize_t readlink(const char *, char *, size_t) { errno = EINVAL; return -1; }
char *realpath(const char *p, char *o) { if (!o) o = (char *) malloc(4096); strcpy(o, p); return o; }
long sysconf(int) { return 4096; }
int system(const char *) { return -1; }
int uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); return 0; }
char *cuserid(char *) { return nullptr; }
int fnmatch(const char *p, const char *s, int f) { for (; *p; p++) { if (*p == '*') { for (const char *q = s;; q++) { if (!fnmatch(p + 1, q, f)) return 0; if (!*q) return 1; } } if (!*s || (*p != '?' && *p != *s)) return 1; s++; } return *s ? 1 : 0; }
char *strerror(int) { return (char *) "error"; }
char *strerror_r_gnu(int e, char *b, size_t n) __asm__("strerror_r");
char *strerror_r_gnu(int e, char *b, size_t n) { return (char *) "error"; }
int fegetenv(void *) { return 0; }
int fesetenv(const void *) { return 0; }
int feclearexcept(int) { return 0; }
int fetestexcept(int) { return 0; }
int feraiseexcept(int) { return 0; }
// dynamic_cast without virtual bases: the complete object starts at the subobject plus its offset-to-top
int symx_ti_matches(void *have, void *want);
void *__dynamic_cast(const void *p, const void *src, const void *dst, long hint) { void **vt = *(void ***) p; return symx_ti_matches(vt[-1], (void *) dst) ? (char *) p + (long) vt[-2] : nullptr; }
int pthread_mutex_lock(void *m) { (void) m; return 0; }
int pthread_mutex_trylock(void *m) { (void) m; return 0; }
int pthread_mutex_unlock(void *m) { (void) m; return 0; }
int pthread_mutex_init(void *m, const void *a) { (void) m; (void) a; return 0; }
int pthread_mutex_destroy(void *m) { (void) m; return 0; }
int pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
double floor(double); double ceil(double); double round(double); double rint(double);
long lround(double x) { return (long) round(x); }
long long llround(double x) { return (long) round(x); }
long lrint(double x) { return (long) rint(x); }
long long llrint(double x) { return (long) rint(x); }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
   char *p = (char *) b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int r = c(k, (const char *) b + m * w); if (!r) return (char *) b + m * w; if (r < 0) hi = m; else lo = m + 1; } return nullptr; }
static char *stok; char *strtok(char *s, const char *d) { return strtok_r(s, d, &stok); }
int vsscanf(const char *s, const char *f, va_list ap) { // whitespace, literals, %d %i %u %ld %lf %s %c, %*
   int n = 0; const char *s0 = s;
   for (; *f; f++) {
      if (isspace(*f)) { while (isspace(*s)) s++; continue; }
      if (*f != '%') { if (*s != *f) return n ? n : (*s ? n : -1); s++; continue; }
      f++; if (*f == '%') { if (*s++ != '%') return n; continue; }
      int skip = 0, l = 0; if (*f == '*') { skip = 1; f++; } while (*f == 'l' || *f == 'h') { if (*f == 'l') l++; f++; }
      if (*f == 'n') { *va_arg(ap, int *) = (int) (s - s0); continue; }
      if (*f != 'c') while (isspace(*s)) s++;
      if (!*s) return n ? n : -1;
      char *e;
      if (*f == 'd' || *f == 'u' || *f == 'i' || *f == 'x') { long v = strtol(s, &e, *f == 'x' ? 16 : *f == 'i' ? 0 : 10); if (e == s) return n; s = e; if (!skip) { if (l) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int) v; n++; } }
      else if (*f == 'f' || *f == 'g' || *f == 'e') { double v = strtod(s, &e); if (e == s) return n; s = e; if (!skip) { if (l) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float) v; n++; } }
      else if (*f == 's') { char *o = skip ? nullptr : va_arg(ap, char *); while (*s && !isspace(*s)) { if (o) *o++ = *s; s++; } if (o) { *o = 0; n++; } }
      else if (*f == 'c') { if (!skip) { *va_arg(ap, char *) = *s; n++; } s++; }
      else symx_unmodelled_scanf();
   }
   return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
#include "zmodel.h"

long symx_file_slurp(const char *fn, char **d) { long n = vfs_size(fn); *d = (char *) vfs_data(fn); return n; }
void vfs_import(const char *fn) {}
void symx_file_put(const char *fn, const char *d, long n) { vfs_put(fn, d, n); }

// ctype tables of the C locale
static int ctlo[384], ctup[384]; static unsigned short ctb[384]; static const int *ctlop, *ctupp; static const unsigned short *ctbp;
static void ctinit(void) {
   if (ctbp) return;
   for (int i = 0; i < 256; i++) {
      ctlo[i + 128] = tolower(i); ctup[i + 128] = toupper(i);
      unsigned m = 0; if (isupper(i)) m |= 1u << 8; if (islower(i)) m |= 1u << 9; if (isalpha(i)) m |= 1u << 10; if (isdigit(i)) m |= 1u << 11; if (isxdigit(i)) m |= 1u << 12; if (isspace(i)) m |= 1u << 13; if (isprint(i)) m |= 1u << 14; if (isgraph(i)) m |= 1u << 15; if (isblank(i)) m |= 1u; if (iscntrl(i)) m |= 2u; if (ispunct(i)) m |= 4u; if (isalnum(i)) m |= 8u;
      ctb[i + 128] = (unsigned short) m;
   }
   for (int i = 0; i < 128; i++) { ctlo[i] = i - 128; ctup[i] = i - 128; }
   ctlop = ctlo + 128; ctupp = ctup + 128; ctbp = ctb + 128;
}
const int **__ctype_tolower_loc(void) { ctinit(); return &ctlop; }
const int **__ctype_toupper_loc(void) { ctinit(); return &ctupp; }
const unsigned short **__ctype_b_loc(void) { ctinit(); return &ctbp; }
