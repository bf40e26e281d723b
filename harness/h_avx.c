/* C04: AVX2 routines against their C counterparts, bit for bit. */
#include "net.h"
#include "tables.h"
#undef Q
#include "ntt_red.h"
#include "ntt_asm.h"
#define Q 12289
#define WEAK __attribute__((weak))
extern WEAK void reduce_array_asm2(i32 *, u32);
extern WEAK void reduce_array_twice_asm2(i32 *, u32);
extern WEAK void mul_reduce_array16_asm2(i32 *, u32, const i16 *);
#define CH 65536
static i32 A[CH + 64] __attribute__((aligned(64))), B[CH + 64] __attribute__((aligned(64))), C[CH + 64] __attribute__((aligned(64))), S[CH + 64], D[CH + 64] __attribute__((aligned(64)));
static i16 P[CH + 64] __attribute__((aligned(64)));
typedef void (*un_fn)(i32 *, u32);
typedef struct { const char *name; un_fn c, v; i64 lo, hi; } un_t;
static un_t U[8]; static int NU;
static void mkU(void) {
  un_t t[] = { { "reduce_array_asm", reduce_array, reduce_array_asm, INT32_MIN, INT32_MAX },
    { "reduce_array_twice_asm", reduce_array_twice, reduce_array_twice_asm, INT32_MIN, INT32_MAX },
    { "reduce_array_asm2", reduce_array, reduce_array_asm2, INT32_MIN, INT32_MAX },
    { "reduce_array_twice_asm2", reduce_array_twice, reduce_array_twice_asm2, INT32_MIN, INT32_MAX },
    { "correct_asm", correct, correct_asm, -12289, 24577 }, { "shift_array_asm", shift_array, shift_array_asm, 0, 12288 } };
  int i; for (i = 0; i < 6; i++) if (t[i].v) U[NU++] = t[i];
}
static int diff(const i32 *x, const i32 *y, int n) { int i; if (!memcmp(x, y, n * 4)) return -1; for (i = 0; x[i] == y[i]; i++) ; return i; }

static void full(int chunk) { /* all 2^32 inputs */
  i64 base = (i64)INT32_MIN + (i64)chunk * CH * 64; int k, u, i;
  for (k = 0; k < 64; k++, base += CH) for (u = 0; u < NU; u++) {
    if (U[u].lo != INT32_MIN) continue;
    for (i = 0; i < CH; i++) A[i] = B[i] = (i32)(base + i);
    CASE(U[u].name, base, CH, 0, 0);
    U[u].c(A, CH); U[u].v(B, CH);
    i = diff(A, B, CH);
    if (i >= 0) { violation("op=%s n=%d input %d: avx %d, C %d", U[u].name, CH, (i32)(base + i), B[i], A[i]); if (vf_stop()) return; }
    stat_add("elements", CH);
  }
}
static void domain(int u0) { /* correct, shift: the whole domain at every lane */
  int u, off, i;
  for (u = u0; u < NU; u += 8) { if (U[u].lo == INT32_MIN) continue;
    int L = U[u].lo, n = U[u].hi - L + 1;
    for (off = 0; off < 32; off++) { int tot = (n + off + 15) & ~15;
      for (i = 0; i < tot; i++) A[i] = B[i] = S[i] = L + (i + off) % n;
      CASE(U[u].name, tot, off, 0, 0);
      U[u].c(A, tot); U[u].v(B, tot);
      i = diff(A, B, tot);
      if (i >= 0) { violation("op=%s n=%d index %d input %d: avx %d, C %d", U[u].name, tot, i, S[i], B[i], A[i]); if (vf_stop()) return; }
      stat_add("elements", tot);
    } }
}
/* multiply family: 0 = array16, 1 = array, 2 = scalar, 3 = array16 non-unrolled */
static const char *MN[] = { "mul_reduce_array16_asm", "mul_reduce_array_asm", "scalar_mul_reduce_array_asm", "mul_reduce_array16_asm2" };
static int mop(int o, int n, const i32 *x, const i32 *y, int ao, int po, int alias) {
  i32 *a = A + ao, *b = B + ao, *c1 = C + po, *d1 = D + (po * 3) % 8; i16 *p = P + po;
  int i;
  if (o == 3 && !mul_reduce_array16_asm2) return 0;
  CASE(MN[o], n, ao, po, alias);
  switch (o) {
  case 0: case 3:
    memcpy(a, x, n * 4); memcpy(b, x, n * 4); for (i = 0; i < n; i++) p[i] = y[i];
    mul_reduce_array16(a, n, p); (o ? mul_reduce_array16_asm2 : mul_reduce_array16_asm)(b, n, p); break;
  case 1:
    memcpy(c1, x, n * 4); memcpy(d1, y, n * 4); memset(a, 0x33, n * 4); memset(b, 0x55, n * 4);
    if (alias == 0) { mul_reduce_array(a, n, c1, d1); mul_reduce_array_asm(b, n, c1, d1); }
    else if (alias == 1) { memcpy(a, x, n * 4); memcpy(b, x, n * 4); mul_reduce_array(a, n, a, d1); mul_reduce_array_asm(b, n, b, d1); }
    else if (alias == 2) { memcpy(a, y, n * 4); memcpy(b, y, n * 4); mul_reduce_array(a, n, c1, a); mul_reduce_array_asm(b, n, c1, b); }
    else { mul_reduce_array(a, n, c1, c1); mul_reduce_array_asm(b, n, c1, c1); }
    break;
  case 2:
    memcpy(a, x, n * 4); memcpy(b, x, n * 4); scalar_mul_reduce_array(a, n, y[0]); scalar_mul_reduce_array_asm(b, n, y[0]); break;
  }
  stat_add("elements", n); stat_add("calls", 1);
  i = diff(a, b, n);
  if (i >= 0) violation("op=%s n=%d align a=%d p=%d alias=%d index %d: %d * %d: avx %d, C %d", MN[o], n, ao, po, alias, i, x[i], o == 2 ? y[0] : y[i], b[i], a[i]);
  return i >= 0;
}
static i32 X[CH + 64], Y[CH + 64];
static void pairs(int part) {
  int y, i, o, r, n = 12304;
  for (r = 0; r < 2; r++) for (y = part; y < Q; y += 64) for (o = 0; o < 4; o++) {
    for (i = 0; i < n; i++) { X[i] = (i < Q ? i : i - Q) - (r ? 6144 : 0); Y[i] = y - (r ? 6144 : 0); }
    mop(o, n, X, Y, 0, 0, 0); if (vf_stop()) return;
  }
}
static const i64 ZL = -8796042698752LL, ZH = 8796093026303LL; /* documented product range */
static void wide(int part) {
  static i32 V[4000]; int nv = 0, i, j, o;
  for (i = 0; i < 31; i++) for (j = -3; j <= 3; j++) { V[nv++] = (i32)((1u << i) + j); V[nv++] = (i32)-((1u << i) + j); }
  for (j = 0; j < 6; j++) { V[nv++] = INT32_MIN + j; V[nv++] = INT32_MAX - j; }
  for (i = 1; i < 40; i++) { V[nv++] = i * 12289; V[nv++] = -i * 12289; V[nv++] = i * 53687091; V[nv++] = -i * 53687091; }
  for (i = part; i < nv; i += 64) for (o = 0; o < 4; o++) {
    int m = 0, k;
#define PUT(a, b) do { i64 a_ = (a), b_ = (b); if (b_ >= INT32_MIN && b_ <= INT32_MAX && a_ * b_ >= ZL && a_ * b_ <= ZH && !((o == 0 || o == 3) && (b_ > 32767 || b_ < -32768))) { X[m] = a_; Y[m++] = b_; } } while (0)
    for (j = 0; j < nv; j++) PUT(V[i], V[j]);
    if (V[i]) for (j = -40; j <= 40; j++) { PUT(V[i], ZL / V[i] + j); PUT(V[i], ZH / V[i] + j); }
    for (j = -30000; j < 30000; j++) PUT(V[i], j);
    if (!m) continue;
    while (m % 16) { X[m] = X[m - 1]; Y[m] = Y[m - 1]; m++; }
    if (o == 2) { for (k = 0; k < m; k++) { i32 t = X[k]; X[k] = Y[k]; Y[k] = t; } }
    mop(o, m, X, Y, 0, 0, 0); if (vf_stop()) return;
  }
}
/* lengths x alignments */
static void lens(int part) {
  int q, ao, po, o, s, u, i;
  for (q = part + 1; q <= 300; q += 64) { int n = 16 * q; int all = q <= 8 || vf_thorough;
    for (ao = 0; ao < 8; ao++) {
      for (u = 0; u < NU; u++) for (s = 0; s < 4; s++) {
        i64 L = U[u].lo, w = U[u].hi - L + 1; u32 g = 12345 + s * 77 + q;
        for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; S[i] = s == 0 ? (i32)(L + i % w) : s == 1 ? (i32)(L + w - 1 - i % w) : s == 2 ? (i32)(L + (i64)((u64)g % w)) : (w > CH ? (i32)(1u << (i % 31)) - 2 + (i / 31) % 4 : (i32)(L + (Q - 6144 - 5 + i) % w)); }
        memcpy(A + ao, S, n * 4); memcpy(B + ao, S, n * 4);
        for (i = 0; i < 16; i++) B[ao + n + i] = 0x71000000 + i;
        CASE(U[u].name, n, ao, s, 0);
        U[u].c(A + ao, n); U[u].v(B + ao, n);
        i = diff(A + ao, B + ao, n);
        if (i >= 0) { violation("op=%s n=%d align=%d index %d input %d: avx %d, C %d", U[u].name, n, ao, i, S[i], B[ao + i], A[ao + i]); if (vf_stop()) return; }
        for (i = 0; i < 16; i++) if (B[ao + n + i] != 0x71000000 + i) { violation("op=%s n=%d align=%d writes index %d", U[u].name, n, ao, n + i); break; }
        stat_add("elements", n); stat_add("calls", 1);
      }
      for (o = 0; o < 4; o++) for (po = 0; po < 16; po++) for (s = 0; s < 2; s++) {
        int al;
        if (o == 2 && po) continue;
        if (!all && (po + ao + q) % 16) continue;
        u32 g = 999 + s + q * 13;
        for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; X[i] = s ? (i32)(g >> 12) % 524288 * (g & 1 ? 1 : -1) : BND[(i * 7 + q) % NBND] - 6144; g = g * 1664525 + 1013904223; Y[i] = s ? (i32)((g >> 10) % Q) - 6144 : BND[(i * 3 + po) % NBND] * (i & 1 ? 1 : -1); }
        for (al = 0; al < (o == 1 ? 4 : 1); al++) { mop(o, n, X, Y, ao, po, al); if (vf_stop()) return; }
      }
    }
  }
}
/* transforms */
typedef void (*tf)(i32 *, u32, const i16 *);
static tf TC[8], TV[8]; static const char *TN[8];
static const char *fam;
static void tcheck(int kind, int n, const i16 *tab, const i32 *in, int ao, int po) {
  i32 *a = A + ao, *b = B + ao; i16 *p = P + po; int i;
  memcpy(a, in, n * 4); memcpy(b, in, n * 4); memcpy(p, tab, n * 2);
  CASE(TN[kind], n, ao, po, 0);
  TC[kind](a, n, p); TV[kind](b, n, p);
  i = diff(a, b, n);
  stat_add("elements", n); stat_add("calls", 1); stat_add("transform_inputs", 1);
  if (i >= 0) violation("op=%s n=%d align a=%d p=%d family=%s index %d: avx %d, C %d; in=%s", TN[kind], n, ao, po, fam, i, b[i], a[i], show(in, n));
}
static void xf(int j) {
  static i16 tab[16384]; static i32 rt[16384], in[16384]; static double cf[2048]; static u16 ord[4096];
  int kind = j & 7, part = (j >> 3) & 15, n, i, v, c = 0, inverse;
  for (n = 16; n <= 2048; n *= 2) { i64 psi0 = any_psi(n); net_t *N = net_make(kind, n);
    for (inverse = 0; inverse < 2; inverse++) { i64 psi = inverse ? inv(psi0) : psi0;
      ref_table(kind, n, psi, 1, rt); for (i = 0; i < n; i++) tab[i] = rt[i];
      fam = "basis"; memset(in, 0, sizeof in);
      for (i = 0; i < n; i++) { static const int VR[] = { 1, -1, 21499, -21499, 4095, -4096 };
        if (c++ % 16 != part) continue;
        for (v = 0; v < 6; v++) { in[i] = VR[v]; tcheck(kind, n, tab, in, 0, 0); if (vf_stop()) return; } in[i] = 0; }
      fam = "walsh";
      for (v = 0; v < n; v++) { static const int PR[][2] = { { 21499, -21499 }, { 12288, 0 }, { -9216, 21499 }, { 6144, -6144 }, { -36864 / 2, 12285 } }; int q;
        if (c++ % 16 != part) continue;
        for (q = 0; q < 5; q++) { for (i = 0; i < n; i++) in[i] = PR[q][__builtin_parity(i & v)]; tcheck(kind, n, tab, in, 0, 0); if (vf_stop()) return; } }
      fam = "extremal";
      { int l, pos, sg;
        for (l = 1; l <= N->L; l++) { int g = net_groups(N, l, ord); for (pos = 0; pos < 1 << l; pos++) {
          if (c++ % 16 != part) continue;
          net_coef_multi(N, rt, l, ord, g, pos, cf);
          for (sg = -1; sg <= 1; sg += 2) { for (i = 0; i < n; i++) in[i] = cf[i] == 0 ? (i & 1 ? 21499 : -21499) : cf[i] * sg > 0 ? 21499 : -21499; tcheck(kind, n, tab, in, 0, 0); if (vf_stop()) return; }
        } } }
      fam = "alignment";
      { int ao, po; for (ao = 0; ao < 8; ao++) for (po = 0; po < 16; po++) {
          if (c++ % 16 != part) continue;
          u32 g = ao * 16 + po + 1; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; in[i] = (i32)((g >> 9) % 42999) - 21499; }
          tcheck(kind, n, tab, in, ao, po); if (vf_stop()) return; } }
    }
    /* the dense and sparse contents on every valid root */
    fam = "roots"; { int p; for (p = 2; p < Q; p++) { if (!valid_psi(n, p)) continue; if (c++ % 16 != part) continue;
      ref_table(kind, n, p, 1, rt); for (i = 0; i < n; i++) tab[i] = rt[i];
      for (v = 0; v < 3; v++) { u32 g = p * 3 + v; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; in[i] = v == 0 ? (i32)((g >> 9) % 42999) - 21499 : v == 1 ? (g >> 20 & 1 ? 21499 : -21499) : (i32)((g >> 9) % 12289); }
        tcheck(kind, n, tab, in, 0, 0); if (vf_stop()) return; } } }
    free(N);
  }
  /* arbitrary tables in range, sizes beyond the roots of unity too; values stay far from the 32-bit limits */
  fam = "arbitrary tables";
  for (n = 16; n <= 16384; n *= 2) for (v = 0; v < 64; v++) {
    int lim = n <= 64 ? 6144 : 2048;
    if (c++ % 16 != part) continue;
    u32 g = v * 131 + n; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223;
      tab[i] = v < 8 ? (i == (v * n / 8 + 1) % n ? lim : 0) : v < 16 ? (v & 1 ? lim : -lim) : v < 24 ? i % (2 * lim + 1) - lim : (i32)((g >> 9) % (2 * lim + 1)) - lim;
      g = g * 1664525 + 1013904223; in[i] = v & 1 ? (i32)((g >> 9) % 42999) - 21499 : v & 2 ? i : (i & 1 ? 21499 : -21499); }
    if (!(kind & 1)) for (i = 1; i < n; i *= 2) tab[i] = -4096; /* the documented entry omega^0 / 3 */
    tcheck(kind, n, tab, in, v & 7, v >> 2 & 15); if (vf_stop()) return;
  }
}
static void prods(int j) {
  static i32 a[1024], b[1024], x[1024] __attribute__((aligned(64))), y[1024] __attribute__((aligned(64))), c1[1024] __attribute__((aligned(64))), c2[1024] __attribute__((aligned(64)));
  int k, m, v, i;
  for (k = 0; k < n_main_prods; k++) { const prod_t *p = &main_prods[k], *q = 0; if (p->impl != IMPL_ASM) continue;
    for (m = 0; m < n_main_prods; m++) if (main_prods[m].impl == IMPL_RED && main_prods[m].n == p->n && main_prods[m].variant == p->variant) q = &main_prods[m];
    for (v = j; v < 4 * p->n; v += 16) { u32 g = v + 3; int n = p->n;
      for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; int w = __builtin_parity(i & (v % n));
        a[i] = v < n ? (w ? 12288 : 0) : v < 2 * n ? (i == v - n ? 12288 : 0) : v < 3 * n ? (i32)((g >> 9) % Q) : BND[(i + v) % NBND];
        g = g * 1664525 + 1013904223; b[i] = v < n ? 12288 : v < 2 * n ? (i == 1 ? 6145 : i == 0) : (i32)((g >> 9) % Q); }
      memcpy(x, a, n * 4); memcpy(y, b, n * 4); CASE(q->name, n, v, 0, 0); q->f(c1, x, y);
      memcpy(x, a, n * 4); memcpy(y, b, n * 4); CASE(p->name, n, v, 0, 0); p->f(c2, x, y);
      i = diff(c1, c2, n); stat_add("calls", 1); stat_add("elements", n);
      if (i >= 0) { violation("op=%s index %d: avx %d, C %d; a=%s b=%s", p->name, i, c2[i], c1[i], show(a, n), show(b, n)); if (vf_stop()) return; }
    } }
}
/* operands across a 4 GB boundary, at every sixteenth of the array, and up to it from either side */
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
static void across(int part) {
  static unsigned char *m[4]; static int ok = -1; int k, q, fr, u, o, i; const u64 MID = 0x300100000000ull, LEN = 65536;
  if (ok < 0) { ok = 1; for (k = 0; k < 4; k++) { void *w = (void *)(MID + ((u64)k << 32) - LEN / 2); m[k] = mmap(w, LEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (m[k] != w) ok = 0; } }
  if (!ok) return;
#define AT(k, bytes) (m[k] + LEN / 2 - ((u64)(bytes) * fr / 16 & ~3ull))
  for (q = 1 + part; q <= 128; q += 8) { int n = 16 * q; if (q > 16 && q != 32 && q != 64 && q != 65 && q != 128 && !vf_thorough) continue;
    for (fr = 0; fr <= 16; fr++) {
      i32 *a = (i32 *)AT(0, 4 * n), *c = (i32 *)AT(1, 4 * n), *d = (i32 *)AT(2, 4 * n); i16 *p = (i16 *)AT(3, 2 * n); u32 g = n + fr;
      for (u = 0; u < NU; u++) { i64 L = U[u].lo, w = U[u].hi - L + 1;
        for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; A[i] = a[i] = (i32)(L + (i64)((u64)g % w)); }
        CASE(U[u].name, n, fr, 4, 0); U[u].c(A, n); U[u].v(a, n); stat_add("elements", n); stat_add("calls", 1);
        i = diff(A, a, n); if (i >= 0) { violation("op=%s n=%d array at %p (across a 4 GB boundary) index %d: avx %d, C %d", U[u].name, n, (void *)a, i, a[i], A[i]); if (vf_stop()) return; } }
      for (o = 0; o < 4; o++) {
        if (o == 3 && !mul_reduce_array16_asm2) continue;
        for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; X[i] = (i32)(g >> 12) % 524288 * (g & 1 ? 1 : -1); g = g * 1664525 + 1013904223; Y[i] = (i32)((g >> 10) % Q) - 6144; A[i] = a[i] = c[i] = X[i]; p[i] = d[i] = Y[i]; }
        CASE(MN[o], n, fr, 4, 0); stat_add("elements", n); stat_add("calls", 1);
        switch (o) { case 1: mul_reduce_array(A, n, c, d); mul_reduce_array_asm(a, n, c, d); break; case 2: scalar_mul_reduce_array(A, n, Y[0]); scalar_mul_reduce_array_asm(a, n, Y[0]); break;
          default: mul_reduce_array16(A, n, p); (o ? mul_reduce_array16_asm2 : mul_reduce_array16_asm)(a, n, p); }
        i = diff(A, a, n); if (i >= 0) { violation("op=%s n=%d array at %p (across a 4 GB boundary) index %d: avx %d, C %d", MN[o], n, (void *)a, i, a[i], A[i]); if (vf_stop()) return; } }
      if (!(n & (n - 1))) for (k = 0; k < 8; k++) {
        for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; p[i] = (i32)((g >> 9) % 4097) - 2048; g = g * 1664525 + 1013904223; A[i] = a[i] = (i32)((g >> 9) % 42999) - 21499; }
        if (!(k & 1)) for (i = 1; i < n; i *= 2) p[i] = -4096;
        CASE(TN[k], n, fr, 4, 0); TC[k](A, n, p); TV[k](a, n, p); stat_add("elements", n); stat_add("calls", 1);
        i = diff(A, a, n); if (i >= 0) { violation("op=%s n=%d array at %p (across a 4 GB boundary) index %d: avx %d, C %d", TN[k], n, (void *)a, i, a[i], A[i]); if (vf_stop()) return; } }
    } }
  stat_add("across_4g_blocks", 1);
}
static void job(int j) {
  if (j < 1024) full(j); else if ((j -= 1024) < 128) xf(j); else if ((j -= 128) < 64) pairs(j); else if ((j -= 64) < 64) wide(j);
  else if ((j -= 64) < 64) lens(j); else if ((j -= 64) < 16) prods(j); else if ((j -= 16) < 8) domain(j); else across(j - 8);
}
int main(int argc, char **argv) {
  int i;
  vf_init(argc, argv);
  vf_job_limit = vf_thorough ? 3000 : 300;
  mkU();
  for (i = 0; i < n_main_xforms; i++) { if (main_xforms[i].impl == IMPL_RED) TC[main_xforms[i].kind] = (tf)main_xforms[i].f; if (main_xforms[i].impl == IMPL_ASM) { TV[main_xforms[i].kind] = (tf)main_xforms[i].f; TN[main_xforms[i].kind] = main_xforms[i].name; } }
  stat_add("routines", NU + 3 + (mul_reduce_array16_asm2 != 0) + 8 + 20);
  sample("all 2^32 inputs: reduce_array(_twice)_asm and the non-unrolled variants vs C");
  sample("lengths 16..4800 in steps of 16, array offsets 0..7 words, table offsets 0..15 halfwords, in-place and squared operands");
  sample("transforms: n=16..2048, every basis vector, Walsh pattern, node extremum, valid root; arbitrary tables up to n=16384");
  run_jobs("avx", 1024 + 128 + 64 * 3 + 16 + 8 + 8, job);
  return vf_finish();
}
