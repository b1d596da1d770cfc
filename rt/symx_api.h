// Harness API: implemented by the engine (symbolic run) and by native.cpp (replay of a counterexample).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t symx_sym(unsigned width, const char *name);           // arbitrary value of `width` bits, zero extended
void symx_bytes(void *p, size_t n, const char *name);          // n arbitrary bytes
void symx_assume(int c);
void symx_assert(int c, const char *msg);
void symx_fail(const char *msg) __attribute__((noreturn));
void symx_cover(const char *name);                             // reachability witness (vacuity guard)
unsigned symx_choice(unsigned n, const char *name);            // arbitrary value in [0,n), one path per value
uint64_t symx_conc(uint64_t v);                                // one path per feasible value
int64_t symx_param(const char *name, int64_t dflt);            // run parameter (bound)
int symx_is_symbolic(unsigned long v);
void symx_print(const char *label, long v);
size_t symx_live_heap(void);
// virtual file system (rt/vfs.c), same code in symbolic and native runs
int vfs_exists(const char *name);
long vfs_size(const char *name);
unsigned char *vfs_data(const char *name);
void vfs_put(const char *name, const void *data, long n);
void vfs_import(const char *name);             // natively: takes a file written by the C++ library itself into the model
void vfs_hole(const char *name, long at, long len); // the bytes from `at` on are now `len` bytes further on; the space between reads as zeros, is not stored and cannot be written
void vfs_remove(const char *name);
void vfs_fail_write_at(long nth, int mode);   // nth (0-based) write() from now fails: mode 0 = error ENOSPC, 1 = short write (half), -1 resets; all later writes fail as well when mode has bit 4 set
void vfs_fail_read_at(long nth, int mode);
long vfs_write_count(void);
int vfs_failed(void);                         // an injected fault has been delivered
void vfs_log_enable(int on);                  // record the sequence of write() calls
long vfs_log_len(void);
void vfs_log_get(long i, long *off, long *len);
unsigned char *vfs_log_data(long i);
void vfs_crash_image(const char *name, const char *out, long k, long part); // content after the first k logged writes plus `part` bytes of write k
long vfs_lseek_count(void);
void vfs_reset(void);
int vfs_open_count(void);                     // file descriptors currently open
#ifdef __cplusplus
}
#endif
