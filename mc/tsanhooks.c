/* The functions that -fsanitize=thread makes the compiler call, and the library functions it does not see into: each one
   tells the scheduler in c17.cpp what the code under test is about to do.  The thread sanitizer itself is not used. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "tsanhooks.h"

#define A(n, w) ts_access(p, n, w)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { ts_point(TS_FUNC); }
void __tsan_func_exit(void) { ts_point(TS_EXIT); }
#define RW(n) \
void __tsan_read##n(void *p) { A(n, 0); } void __tsan_write##n(void *p) { A(n, 1); } \
void __tsan_unaligned_read##n(void *p) { A(n, 0); } void __tsan_unaligned_write##n(void *p) { A(n, 1); } \
void __tsan_volatile_read##n(void *p) { A(n, 0); } void __tsan_volatile_write##n(void *p) { A(n, 1); } \
void __tsan_read##n##_pc(void *p, void *c) { A(n, 0); } void __tsan_write##n##_pc(void *p, void *c) { A(n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { A(n, 0); }
void __tsan_write_range(void *p, unsigned long n) { A(n, 1); }
void __tsan_vptr_update(void **p, void *v) {} void __tsan_vptr_read(void **p) {}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int m) { A(b / 8, 0); return __atomic_load_n(p, 5); } \
void __tsan_atomic##b##_store(volatile T *p, T v, int m) { A(b / 8, 1); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int m) { A(b / 8, 1); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int m, int f) { A(b / 8, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int m, int f) { A(b / 8, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int m, int f) { A(b / 8, 1); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}

/* library functions: a point before the call, and the memory they are known to touch */
#define W(ret, name, params, args, pre) ret __real_##name params; ret __wrap_##name params { ts_point(TS_LIB); pre; return __real_##name args; }
#define a_(p, n, w) ts_access((void*)(p), (n), (w))
W(void*, memcpy, (void *d, const void *s, size_t n), (d, s, n), (a_(s, n, 0), a_(d, n, 1)))
W(void*, memmove, (void *d, const void *s, size_t n), (d, s, n), (a_(s, n, 0), a_(d, n, 1)))
W(void*, memset, (void *d, int c, size_t n), (d, c, n), a_(d, n, 1))
W(int, memcmp, (const void *x, const void *y, size_t n), (x, y, n), (a_(x, n, 0), a_(y, n, 0)))
W(size_t, strlen, (const char *s), (s), a_(s, __real_strlen(s) + 1, 0))
W(char*, strcpy, (char *d, const char *s), (d, s), (a_(s, __real_strlen(s) + 1, 0), a_(d, __real_strlen(s) + 1, 1)))
W(char*, strncpy, (char *d, const char *s, size_t n), (d, s, n), (a_(s, n, 0), a_(d, n, 1)))
W(char*, strcat, (char *d, const char *s), (d, s), (a_(s, __real_strlen(s) + 1, 0), a_(d, __real_strlen(d) + __real_strlen(s) + 1, 1)))
W(size_t, fread, (void *d, size_t s, size_t n, FILE *f), (d, s, n, f), a_(d, s * n, 1))
W(size_t, fwrite, (const void *d, size_t s, size_t n, FILE *f), (d, s, n, f), a_(d, s * n, 0))
W(int, fgetc, (FILE *f), (f), (void)0)
W(int, getc, (FILE *f), (f), (void)0)
W(int, fputc, (int c, FILE *f), (c, f), (void)0)
W(int, putc, (int c, FILE *f), (c, f), (void)0)
W(int, putchar, (int c), (c), (void)0)
W(int, puts, (const char *s), (s), (void)0)
W(int, fputs, (const char *s, FILE *f), (s, f), (void)0)
W(int, ungetc, (int c, FILE *f), (c, f), (void)0)
W(int, fseek, (FILE *f, long o, int w), (f, o, w), (void)0)
W(long, ftell, (FILE *f), (f), (void)0)
W(int, fflush, (FILE *f), (f), (void)0)
W(int, vfprintf, (FILE *f, const char *t, va_list ap), (f, t, ap), (void)0)
int __real_vsprintf(char*, const char*, va_list); int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsprintf(char *d, const char *t, va_list ap) { ts_point(TS_LIB); int n = __real_vsprintf(d, t, ap); if(n >= 0) a_(d, n + 1, 1); return n; }
int __wrap_vsnprintf(char *d, size_t z, const char *t, va_list ap) { ts_point(TS_LIB); int n = __real_vsnprintf(d, z, t, ap); if(n >= 0 && z) a_(d, (size_t)n + 1 < z ? (size_t)n + 1 : z, 1); return n; }
int __wrap_printf(const char *t, ...) { va_list ap; int n; ts_point(TS_LIB); va_start(ap, t); n = vprintf(t, ap); va_end(ap); return n; }
int __wrap_fprintf(FILE *f, const char *t, ...) { va_list ap; int n; ts_point(TS_LIB); va_start(ap, t); n = __real_vfprintf(f, t, ap); va_end(ap); return n; }
int __wrap_sprintf(char *d, const char *t, ...) { va_list ap; int n; va_start(ap, t); n = __wrap_vsprintf(d, t, ap); va_end(ap); return n; }
int __wrap_snprintf(char *d, size_t z, const char *t, ...) { va_list ap; int n; va_start(ap, t); n = __wrap_vsnprintf(d, z, t, ap); va_end(ap); return n; }
/* locks: a thread that would have to wait lets the other one run instead */
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { ts_point(TS_LIB); for(;;) { int r = pthread_mutex_trylock(m); if(r != 16) return r; ts_blocked(); } }
