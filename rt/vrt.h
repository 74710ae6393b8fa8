// Verification runtime shared by the three back ends that execute a contract
// harness against the real code of /repo:
//   * CBMC            (__CPROVER__ defined by goto-cc)
//   * dv              (VRT_DV: deductive VC generator over LLVM IR, tools/dv)
//   * native replay   (neither: gcc + AddressSanitizer, concrete inputs)
// A harness is   H(name) { inputs via nd_*; ASSUME(pre); call; CHECK(post,"id"); }
#ifndef VRT_H
#define VRT_H
#include "il_internal.h"
#include "il_stack.h"
#include "il_manip.h"
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif

#if defined(VRT_CBMC)
unsigned int nondet_uint(void); unsigned char nondet_uchar(void); unsigned short nondet_ushort(void);
int nondet_int(void); float nondet_float(void); double nondet_double(void); unsigned long nondet_ulong(void);
static unsigned int nd_u32(const char *n) { unsigned int vrt_logv = nondet_uint(); return vrt_logv; }
static unsigned long nd_u64(const char *n) { unsigned long vrt_logv = nondet_ulong(); return vrt_logv; }
static unsigned char nd_u8(const char *n) { unsigned char vrt_logv = nondet_uchar(); return vrt_logv; }
static unsigned short nd_u16(const char *n) { unsigned short vrt_logv = nondet_ushort(); return vrt_logv; }
static int nd_i32(const char *n) { int vrt_logv = nondet_int(); return vrt_logv; }
static float nd_f32(const char *n) { union { float f; unsigned int u; } v; unsigned int vrt_logv = nondet_uint(); v.u = vrt_logv; return v.f; }
static double nd_f64(const char *n) { union { double f; unsigned long u; } v; unsigned long vrt_logv = nondet_ulong(); v.u = vrt_logv; return v.f; }
static unsigned int nd_rng(const char *n, unsigned int lo, unsigned int hi) { unsigned int vrt_logv = nondet_uint(); __CPROVER_assume(vrt_logv >= lo && vrt_logv <= hi); return vrt_logv; }
static int nd_irng(const char *n, int lo, int hi) { int vrt_logv = nondet_int(); __CPROVER_assume(vrt_logv >= lo && vrt_logv <= hi); return vrt_logv; }
// a length: bounded by cb under CBMC, by nb in native runs, unbounded (31 bits) in dv
static unsigned int nd_len(const char *n, unsigned int cb, unsigned int nb) { unsigned int vrt_logv = nondet_uint(); __CPROVER_assume(vrt_logv <= cb); return vrt_logv; }
#define nd_dim(n, cb, nb) nd_rng(n, 1, cb)
#define nd_u32s(n, nb) nd_u32(n)
#define nd_i32s(n, nb) nd_i32(n)
static void *nd_buf(const char *n, size_t sz) { void *p = malloc(sz); __CPROVER_assume(p != 0); return p; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, id) __CPROVER_assert(c, id)
#define COVER(id) __CPROVER_assert(0, "COVER " id)
#define VRT_BOUND(cb, nb, dv) (cb)
#define READABLE(p, n) __CPROVER_assert(__CPROVER_r_ok(p, n), "readable")
#define H(name) void name(void)
#define VRT_FOR(i, n) for (i = 0; i < (n); i++)
#else
unsigned int nd_u32(const char *n); unsigned char nd_u8(const char *n); unsigned short nd_u16(const char *n);
unsigned long nd_u64(const char *n);
int nd_i32(const char *n); float nd_f32(const char *n); double nd_f64(const char *n);
unsigned int nd_rng(const char *n, unsigned int lo, unsigned int hi);
int nd_irng(const char *n, int lo, int hi);
unsigned int nd_len(const char *n, unsigned int cb, unsigned int nb);
unsigned int nd_dim(const char *n, unsigned int cb, unsigned int nb);
void *nd_buf(const char *n, size_t sz);
void vrt_assume(int c);
void vrt_check(int c, const char *id);
void vrt_cover(const char *id);
#define ASSUME(c) vrt_assume(!!(c))
#define CHECK(c, id) vrt_check(!!(c), id)
#define COVER(id) vrt_cover(id)
#ifdef VRT_DV
#define nd_u32s(n, nb) nd_u32(n)
#define nd_i32s(n, nb) nd_i32(n)
#else
// full range in the provers; in native runs mostly near the interesting range, sometimes anything
#define nd_u32s(n, nb) (nd_rng("k_" n, 0, 15) ? nd_rng(n, 0, nb) : nd_u32(n))
#define nd_i32s(n, nb) (nd_rng("k_" n, 0, 15) ? nd_irng(n, -(int)(nb), nb) : nd_i32(n))
#endif
#ifdef VRT_DV
#define VRT_BOUND(cb, nb, dv) (dv)
#else
#define VRT_BOUND(cb, nb, dv) (nb)
#endif
#ifdef __cplusplus
#define H(name) extern "C" __attribute__((used, visibility("default"))) void name(void)
#else
#define H(name) void name(void)
#endif
#endif

#ifdef __cplusplus
}
#endif
#endif
