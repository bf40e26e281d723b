/* One uniform table of every exported array routine, with valid inputs for each. Include after net.h/tables.h. */
#ifndef VF_ROUTINES_H
#define VF_ROUTINES_H
#undef Q
#include "ntt.h"
#include "ntt_red.h"
#include "ntt_asm.h"
#undef Q
#define Q 12289
extern __attribute__((weak)) void reduce_array_asm2(i32 *, u32);
extern __attribute__((weak)) void reduce_array_twice_asm2(i32 *, u32);
extern __attribute__((weak)) void mul_reduce_array16_asm2(i32 *, u32, const i16 *);
enum { SH_U, SH_S, SH_T, SH_M, SH_X, SH_BR, SH_PT, SH_PROD, SH_W };   /* shapes */
typedef struct { const char *name; int shape, impl, kind, fixed, step, nq; void *f; i64 lo, hi; } rtn_t;
static rtn_t RT[512]; static int NRT;
static void rt_add(const char *name, int shape, int impl, int kind, int fixed, int step, int nq, void *f, i64 lo, i64 hi) {
  rtn_t *r = &RT[NRT++]; if (!f) { NRT--; return; } r->name = name; r->shape = shape; r->impl = impl; r->kind = kind; r->fixed = fixed; r->step = step; r->nq = nq; r->f = f; r->lo = lo; r->hi = hi; }
/* step: 1 any length, 16 multiples of 16, 2 powers of two from 2, 32 powers of two from 16 */
static void rt_init(void) {
  int i;
#define U_(f, s, im, lo, hi) rt_add(#f, SH_U, im, 0, 0, s, 0, (void *)f, lo, hi)
  U_(normalize, 1, IMPL_RED, INT32_MIN, INT32_MAX); U_(normalize_inv3, 1, IMPL_RED, INT32_MIN, INT32_MAX); U_(shift_array, 1, IMPL_RED, 0, 12288);
  U_(reduce_array, 1, IMPL_RED, INT32_MIN, INT32_MAX); U_(reduce_array_twice, 1, IMPL_RED, INT32_MIN, INT32_MAX); U_(correct, 1, IMPL_RED, -12289, 24577);
  U_(shift_array_asm, 16, IMPL_ASM, 0, 12288); U_(reduce_array_asm, 16, IMPL_ASM, INT32_MIN, INT32_MAX); U_(reduce_array_twice_asm, 16, IMPL_ASM, INT32_MIN, INT32_MAX); U_(correct_asm, 16, IMPL_ASM, -12289, 24577);
  U_(reduce_array_asm2, 16, IMPL_ASM, INT32_MIN, INT32_MAX); U_(reduce_array_twice_asm2, 16, IMPL_ASM, INT32_MIN, INT32_MAX);
  rt_add("scalar_mul_array", SH_S, IMPL_NTT, 0, 0, 1, 0, scalar_mul_array, 0, 12288);
  rt_add("scalar_mul_reduce_array", SH_S, IMPL_RED, 0, 0, 1, 0, scalar_mul_reduce_array, -21499, 21499);
  rt_add("scalar_mul_reduce_array_asm", SH_S, IMPL_ASM, 0, 0, 16, 0, scalar_mul_reduce_array_asm, -21499, 21499);
  rt_add("scalar_mul_array_naive", SH_S, IMPL_NAIVE, 0, 0, 1, 1, naive_api.scalar_mul_array, 0, 12288);
  rt_add("mul_array16", SH_T, IMPL_NTT, 0, 0, 1, 0, mul_array16, 0, 12288);
  rt_add("mul_array16_naive", SH_T, IMPL_NAIVE, 0, 0, 1, 1, naive_api.mul_array16, 0, 12288);
  rt_add("mul_reduce_array16", SH_T, IMPL_RED, 0, 0, 1, 0, mul_reduce_array16, -21499, 21499);
  rt_add("mul_reduce_array16_asm", SH_T, IMPL_ASM, 0, 0, 16, 0, mul_reduce_array16_asm, -21499, 21499);
  rt_add("mul_reduce_array16_asm2", SH_T, IMPL_ASM, 0, 0, 16, 0, mul_reduce_array16_asm2, -21499, 21499);
  rt_add("mul_array", SH_M, IMPL_NTT, 0, 0, 1, 0, mul_array, 0, 12288);
  rt_add("mul_array_naive", SH_M, IMPL_NAIVE, 0, 0, 1, 1, naive_api.mul_array, 0, 12288);
  rt_add("mul_reduce_array", SH_M, IMPL_RED, 0, 0, 1, 0, mul_reduce_array, -21499, 21499);
  rt_add("mul_reduce_array_asm", SH_M, IMPL_ASM, 0, 0, 16, 0, mul_reduce_array_asm, -21499, 21499);
  rt_add("bitrev_shuffle", SH_BR, IMPL_NTT, 0, 0, 2, 0, bitrev_shuffle, INT32_MIN, INT32_MAX);
  rt_add("bitrev_shuffle (naive)", SH_BR, IMPL_NAIVE, 0, 0, 2, 0, naive_api.bitrev_shuffle, INT32_MIN, INT32_MAX);
  rt_add("shuffle_with_table", SH_PT, IMPL_NTT, 0, 0, 2, 0, shuffle_with_table, INT32_MIN, INT32_MAX);
  rt_add("shuffle_with_table (naive)", SH_PT, IMPL_NAIVE, 0, 0, 2, 0, naive_api.shuffle_with_table, INT32_MIN, INT32_MAX);
  for (i = 0; i < n_main_xforms; i++) { const xform_t *x = &main_xforms[i]; int rd = x->impl != IMPL_NTT; rt_add(x->name, SH_X, x->impl, x->kind, 0, x->impl == IMPL_ASM ? 32 : 2, 0, (void *)x->f, rd ? -21499 : 0, rd ? 21499 : 12288); }
  for (i = 0; i < n_naive_xforms; i++) { const xform_t *x = &naive_xforms[i]; rt_add(x->name, SH_X, IMPL_NAIVE, x->kind, 0, 2, 1, (void *)x->f, 0, 12288); }
  for (i = 0; i < n_main_wraps; i++) { const wrap_t *x = &main_wraps[i]; int rd = x->impl != IMPL_NTT; rt_add(x->name, SH_W, x->impl, x->kind, x->n, 0, 0, (void *)x->f, rd ? -21499 : 0, rd ? 21499 : 12288); }
  for (i = 0; i < n_naive_wraps; i++) { const wrap_t *x = &naive_wraps[i]; rt_add(x->name, SH_W, x->impl, x->kind, x->n, 0, 0, (void *)x->f, 0, 12288); }
  for (i = 0; i < n_main_prods; i++) rt_add(main_prods[i].name, SH_PROD, main_prods[i].impl, 0, main_prods[i].n, 0, 0, (void *)main_prods[i].f, 0, 12288);
  for (i = 0; i < n_naive_prods; i++) rt_add(naive_prods[i].name, SH_PROD, IMPL_NAIVE, 0, naive_prods[i].n, 0, 0, (void *)naive_prods[i].f, 0, 12288);
}
static int rt_len_ok(const rtn_t *r, u32 n) {
  if (r->fixed) return n == (u32)r->fixed;
  switch (r->step) { case 1: return 1; case 16: return n && n % 16 == 0; case 2: return n && !(n & (n - 1)) && (n > 1 || r->shape != SH_X); default: return n >= 16 && !(n & (n - 1)); }
}
static int rt_red(const rtn_t *r) { return r->impl == IMPL_RED || r->impl == IMPL_ASM; }
/* which arguments the shape has: destination a (n words), sources b (and c), 16-bit table (tabn entries) */
static int rt_has_b(const rtn_t *r) { return r->shape == SH_M || r->shape == SH_PROD; }
static int rt_b_const(const rtn_t *r) { return r->shape == SH_M; }
static u32 rt_tabn(const rtn_t *r, u32 n) {
  u32 i, k = 0; if (r->shape == SH_T || r->shape == SH_X) return n;
  if (r->shape == SH_PT) { for (i = 0; i < n; i++) if (revbits(i, lg(n)) > i) k += 2; return k; }
  return 0; }
static void rt_fill(const rtn_t *r, i32 *a, u32 n, u32 seed) { u32 i, g = seed * 2654435761u + 99; u64 span = (u64)(r->hi - r->lo) + 1; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; u64 h = (u64)g * 2654435761u >> 7; a[i] = (i32)(r->lo + (i64)(h % span)); if ((g >> 13) % 11 == 0) a[i] = (g >> 20) & 1 ? (i32)r->lo : (i32)r->hi; } }
static void rt_table(const rtn_t *r, void *p, u32 n, u32 seed) {
  u32 i, k = 0, g = seed * 77777u + 5; u16 *t = p; static i32 tw[4096];
  if (r->shape == SH_PT) { for (i = 0; i < n; i++) { u32 j = revbits(i, lg(n)); if (j > i) { t[k++] = i; t[k++] = j; } } return; }
  if (r->shape == SH_T) { for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; t[i] = rt_red(r) ? (u16)(i16)((i32)((g >> 8) % 12289) - 6144) : (u16)((g >> 8) % 12289); } return; }
  if (r->shape != SH_X) return; /* takes no table */
  if (n < 2) { if (n) t[0] = 0; return; }
  { int psi = any_psi(n); if (r->kind == CT_R2S_V1) { i64 x = 1; for (i = 0; i < n; i++) { t[i] = (u16)x; x = x * psi % Q; } return; }
    ref_table(r->kind, n, psi, rt_red(r), tw); for (i = 0; i < n; i++) t[i] = (u16)(i16)tw[i]; }
}
static inline i32 rt_scalar(const rtn_t *r, u32 seed) { return rt_red(r) ? (i32)(seed * 4099u % 12289) - 6144 : (i32)(seed * 4099u % 12289); }
static inline __attribute__((always_inline)) void rt_call(const rtn_t *r, i32 *a, u32 n, i32 *b, i32 *c, const void *p, i32 s) {
  switch (r->shape) {
  case SH_U: case SH_BR: ((void (*)(i32 *, u32))r->f)(a, n); break;
  case SH_S: ((void (*)(i32 *, u32, i32, i32))r->f)(a, n, s, Q); break;
  case SH_T: case SH_X: ((void (*)(i32 *, u32, const void *, i32))r->f)(a, n, p, Q); break;
  case SH_M: ((void (*)(i32 *, u32, const i32 *, const i32 *, i32))r->f)(a, n, b, c, Q); break;
  case SH_PT: ((void (*)(i32 *, const void *, u32))r->f)(a, p, rt_tabn(r, n) / 2); break;
  case SH_PROD: ((void (*)(i32 *, i32 *, i32 *))r->f)(a, b, c); break;
  case SH_W: ((void (*)(i32 *))r->f)(a); break;
  }
}
#endif
