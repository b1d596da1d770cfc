#include <fstream>
#include <iterator>
#include <string>
// Native replay of a counterexample: the same harness source and vfs, linked with the real sources of /repo
// (ordinary build flags or sanitizers) and the real libc/zlib. Inputs come from a file produced by the engine.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include "symx_api.h"
struct In { std::string name; unsigned w; uint64_t v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, int64_t> params;
static uint64_t nextIn(const char *name) {
   if (pos >= ins.size()) return 0;   // beyond the recorded prefix: the violation happens before, or any value will do
   In &i = ins[pos++];
   if (i.name != name) { fprintf(stderr, "REPLAY-MISMATCH expected %s got %s\n", i.name.c_str(), name); fflush(nullptr); _exit(44); }
   return i.v;
}
extern "C" {
uint64_t symx_sym(unsigned w, const char *n) { (void) w; return nextIn(n); }
void symx_bytes(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = (unsigned char) nextIn((std::string(nm) + "[" + std::to_string(i) + "]").c_str()); }
void symx_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(nullptr); _exit(43); } }
void symx_assert(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-ASSERT %s\n", m); fflush(nullptr); _exit(42); } }
void symx_fail(const char *m) { fprintf(stderr, "REPLAY-ASSERT %s\n", m); fflush(nullptr); _exit(42); }
void vfs_import(const char *fn) { std::ifstream f(fn, std::ios::binary); if (!f) return; std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); vfs_put(fn, b.data(), (long) b.size()); }
void symx_cover(const char *n) { fprintf(stderr, "REPLAY-COVER %s\n", n); }
unsigned symx_choice(unsigned n, const char *nm) { (void) n; return (unsigned) nextIn(nm); }
uint64_t symx_conc(uint64_t v) { return v; }
int64_t symx_param(const char *n, int64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
int symx_is_symbolic(unsigned long) { return 0; }
void symx_print(const char *l, long v) { fprintf(stderr, "REPLAY-PRINT %s %ld\n", l, v); }
#if defined(__SANITIZE_ADDRESS__)
size_t symx_live_heap(void) { return 0; }
#define LIVE(n)
#else
static long liveHeap; // blocks in use: operator new and the wrapped C allocation functions
size_t symx_live_heap(void) { return (size_t) liveHeap; }
#define LIVE(n) liveHeap += (n)
#endif
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) LIVE(1); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) LIVE(1); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) LIVE(1); return p; }
void __wrap_free(void *p) { if (p) LIVE(-1); __real_free(p); }
// the C interface finds the exported functions in this program itself
void *__real_dlsym(void *, const char *);
void *__wrap_dlopen(const char *, int) { return (void *) __real_dlsym; }
static bool dlbad;
void *__wrap_dlsym(void *, const char *n) { void *p = __real_dlsym(RTLD_DEFAULT, n); dlbad = !p; return p; }
int __wrap_dlclose(void *) { return 0; }
char *__wrap_dlerror(void) { bool b = dlbad; dlbad = false; return b ? (char *) "undefined symbol" : nullptr; }
}
#if !defined(__SANITIZE_ADDRESS__)
#include <new>
static void *take(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); liveHeap++; return p; }
static void give(void *p) { if (p) { liveHeap--; __real_free(p); } }
void *operator new(size_t n) { return take(n); } void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = __real_malloc(n ? n : 1); if (p) liveHeap++; return p; } void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { give(p); } void operator delete[](void *p) noexcept { give(p); } void operator delete(void *p, size_t) noexcept { give(p); } void operator delete[](void *p, size_t) noexcept { give(p); }
#endif
int main(int argc, char **argv) {
   if (argc < 3) return 64;
   FILE *f = fopen(argv[2], "r"); if (!f) return 64;
   char kind[16], name[256]; unsigned w; unsigned long long v; long long pv;
   while (fscanf(f, "%15s", kind) == 1) {
      if (!strcmp(kind, "in")) { if (fscanf(f, "%u %llu %255[^\n]", &w, &v, name) != 3) return 64; ins.push_back({ name, w, v }); }
      else if (!strcmp(kind, "param")) { if (fscanf(f, "%lld %255[^\n]", &pv, name) != 2) return 64; params[name] = pv; }
      else return 64;
   }
   fclose(f);
   void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
   if (!fn) { fprintf(stderr, "entry %s not found\n", argv[1]); return 64; }
   fn();
   fprintf(stderr, "REPLAY-END\n"); fflush(nullptr);
   _exit(0);
}
