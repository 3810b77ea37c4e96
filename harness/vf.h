/* Shared core of every harness.

   A harness file includes this header, then the real translation unit (vf_repo.h includes
   /repo/source/c-precompiled/sph-sp/main.c), and defines entry functions void h_<name>(void).

   The same source is used twice:
   - goto-cc/cbmc: vf_* input functions return solver-chosen values, vf_assert is a proof obligation.
   - gcc (replay): the input functions read the values of a counterexample in order, vf_assert aborts. */
#ifndef VF_H
#define VF_H
#ifndef _XOPEN_SOURCE
#define _XOPEN_SOURCE
#endif
#ifndef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 199309L
#endif
#include <math.h>
#include <errno.h>
#include <arpa/inet.h>
#include <byteswap.h>
#include <inttypes.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <float.h>
#include <time.h>
#include <limits.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <pthread.h>
#include <stdarg.h>

#ifdef VF_CBMC
#define VF_IN(type, ctype)            \
  ctype nondet_vf_##type(void);       \
  static ctype vf_##type(void) {      \
    ctype v = nondet_vf_##type();     \
    __CPROVER_input("vf_" #type, v);  \
    return (v);                       \
  }
VF_IN(u8, uint8_t)
VF_IN(u16, uint16_t)
VF_IN(u32, uint32_t)
VF_IN(u64, uint64_t)
VF_IN(i32, int32_t)
VF_IN(f64, double)
#define vf_assume(x) __CPROVER_assume(x)
#define vf_assert(x, msg) __CPROVER_assert(x, "VF " msg)
#define vf_witness(msg) __CPROVER_assert(0, "WITNESS " msg)
#else
extern uint64_t vf_next(int width);
static uint8_t vf_u8(void) { return (vf_next(8)); }
static uint16_t vf_u16(void) { return (vf_next(16)); }
static uint32_t vf_u32(void) { return (vf_next(32)); }
static uint64_t vf_u64(void) { return (vf_next(64)); }
static int32_t vf_i32(void) { return ((int32_t)(vf_next(32))); }
static double vf_f64(void) {
  uint64_t b = vf_next(64);
  double d;
  memcpy(&d, &b, 8);
  return (d);
}
extern void vf_fail(const char* msg, const char* file, int line);
extern void vf_reject(const char* msg);
#define vf_assume(x)      \
  do {                    \
    if (!(x)) vf_reject(#x); \
  } while (0)
#define vf_assert(x, msg)                          \
  do {                                             \
    if (!(x)) vf_fail(msg, __FILE__, __LINE__);    \
  } while (0)
#define vf_witness(msg) \
  do {                  \
  } while (0)
#endif

/* an integer in lo..hi */
static int32_t vf_int(int32_t lo, int32_t hi) {
  int32_t v = vf_i32();
  vf_assume(v >= lo && v <= hi);
  return (v);
}
static uint32_t vf_uint(uint32_t lo, uint32_t hi) {
  uint32_t v = vf_u32();
  vf_assume(v >= lo && v <= hi);
  return (v);
}
static int vf_bool(void) { return (vf_u8() & 1); }

/* a double holding a small integer. small-integer doubles make sums and products exact,
   so that results do not depend on evaluation order */
/* the choice among constants keeps most mantissa bits constant in the encoding */
static double vf_small(int32_t lo, int32_t hi) {
  int32_t v = vf_int(lo, hi);
#ifdef VF_CBMC
  double d = 0.0;
  for (int32_t i = lo; i <= hi; i++)
    if (v == i) d = (double)(i);
  return (d);
#else
  return ((double)(v));
#endif
}

/* ---- memory: allocation failures and leaks ----
   vf_live counts live allocations made through the wrappers.
   vf_fail_at: index of the allocation that fails (counted from vf_alloc_count = 0); negative for none */
static int32_t vf_live = 0;
static int32_t vf_alloc_count = 0;
static int32_t vf_fail_at = -1;
static int vf_failed = 0;
static int vf_alloc_fails(void) {
  int r = vf_fail_at >= 0 && vf_alloc_count == vf_fail_at;
  vf_alloc_count += 1;
  if (r) {
    vf_failed = 1;
    errno = ENOMEM;
  }
  return (r);
}
#ifndef VF_CBMC
extern void vf_fill(void* p, size_t n);
#endif
static void* vf_raw_malloc(size_t n) { return (malloc(n)); }
static void* vf_raw_calloc(size_t n) { return (calloc(n, 1)); }
static void vf_raw_free(void* p) { free(p); }
#if defined(VF_CBMC) && defined(VF_PICK)
/* allocations of symbolic size as a choice between constant sizes. the harness defines vf_pick with VF_CASES lines.
   typed objects of constant size are much cheaper to encode. a size that is not among them fails the MODEL obligation */
static void* vf_pick(size_t n, int zero);
#define VF_CASES(from, to, type)          \
  for (size_t k = from; k <= to; k++)     \
    if (n == k * sizeof(type)) {          \
      found = 1;                          \
      if (zero) p = vf_raw_calloc(k * sizeof(type)); \
      else p = vf_raw_malloc(k * sizeof(type)); \
    }
#define VF_PICK_FUNCTION(cases)                          \
  static void* vf_pick(size_t n, int zero) {             \
    void* p = 0;                                         \
    int found = 0;                                       \
    cases __CPROVER_assert(found, "MODEL allocation size"); \
    return (p);                                          \
  }
/* reallocation of arrays of one type */
#define VF_RESIZE_FUNCTION(max, type)                        \
  static void* vf_resized(void* q, size_t n) {               \
    type* p = vf_pick(n, 0);                                 \
    type* o = q;                                             \
    __CPROVER_assume(p != 0);                                \
    if (q) {                                                 \
      size_t old = __CPROVER_OBJECT_SIZE(q);                 \
      for (size_t k = 0; k < max; k++)                       \
        if (k * sizeof(type) < old && k * sizeof(type) < n) p[k] = o[k]; \
      vf_raw_free(q);                                        \
    }                                                        \
    return (p);                                              \
  }
static void* vf_resized(void* q, size_t n);
#define vf_sized(n) vf_pick(n, 0)
#define vf_zeroed(n, m) vf_pick((n) * (m), 1)
#else
#define VF_PICK_FUNCTION(cases)
#define VF_RESIZE_FUNCTION(max, type)
#define vf_sized malloc
#define vf_zeroed calloc
#define vf_resized realloc
#endif
#ifdef VF_ON_FREE
static void vf_on_free(void* p);
#else
#define vf_on_free(p)
#endif
static void* vf_malloc(size_t n) {
  void* p;
  if (vf_alloc_fails()) return (0);
#ifdef VF_CBMC
  p = vf_sized(n);
  __CPROVER_assume(p != 0);
#else
  p = malloc(n ? n : 1);
  if (!p) return (p);
  vf_fill(p, n);
#endif
  vf_live += 1;
  return (p);
}
static void* vf_calloc(size_t n, size_t m) {
  void* p;
  if (vf_alloc_fails()) return (0);
#ifdef VF_CBMC
  p = vf_zeroed(n, m);
  __CPROVER_assume(p != 0);
#else
  p = calloc(n ? n : 1, m);
  if (!p) return (p);
#endif
  vf_live += 1;
  return (p);
}
static void vf_free(void* p) {
  vf_on_free(p);
  if (p) vf_live -= 1;
  free(p);
}
static void* vf_realloc(void* q, size_t n) {
  void* p;
  if (vf_alloc_fails()) return (0);
  if (!q) vf_live += 1;
#ifdef VF_CBMC
  p = vf_resized(q, n);
  __CPROVER_assume(p != 0);
#else
  p = realloc(q, n);
#endif
  return (p);
}
#endif
