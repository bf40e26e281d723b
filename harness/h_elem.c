/* C06 / C07: elementwise arithmetic, exhaustive. argv[2]: default | red */
#include "net.h"
#include "tables.h"
#undef Q
#include "ntt.h"
#include "ntt_red.h"
#include "ntt_asm.h"
#define Q 12289
static int red_mode;
#define CH 65536
static i32 A[CH + 64] __attribute__((aligned(64))), B[CH + 64] __attribute__((aligned(64))), C[CH + 64] __attribute__((aligned(64))), S[CH + 64];
static u16 P16[CH + 64] __attribute__((aligned(64)));
static i16 S16[CH + 64] __attribute__((aligned(64)));

/* ---------------- C06 ---------------- */
static void nv16(i32 *a, u32 n, const u16 *p) { naive_api.mul_array16(a, n, p, Q); }
static void nvmul(i32 *c, u32 n, const i32 *a, const i32 *b) { naive_api.mul_array(c, n, a, b, Q); }
static void nvs(i32 *a, u32 n, i32 c) { naive_api.scalar_mul_array(a, n, c, Q); }
static const struct { const char *name; void (*f)(i32 *, u32, const u16 *); } M16[] = { { "mul_array16", mul_array16 }, { "mul_array16_naive", nv16 } };
static const struct { const char *name; void (*f)(i32 *, u32, const i32 *, const i32 *); } M32[] = { { "mul_array", mul_array }, { "mul_array_naive", nvmul } };
static const struct { const char *name; void (*f)(i32 *, u32, i32); } MS[] = { { "scalar_mul_array", scalar_mul_array }, { "scalar_mul_array_naive", nvs } };

static void cmp06(const char *op, int n, i32 y, i32 x0) {
  int i; i32 w = (i32)((i64)x0 * y % Q);
  for (i = 0; i < n; i++) { if (A[i] != w) { violation("op=%s a[%d]=%d times %d: got %d, want %d", op, i, x0 + i, y, A[i], w); return; } w += y; if (w >= Q) w -= Q; }
  stat_add("products", n);
}
static void c06_pairs(int part) {
  int y, i, v;
  for (y = part; y < Q; y += 64) {
    for (v = 0; v < 2; v++) {
      for (i = 0; i < Q; i++) { A[i] = i; P16[i] = y; }
      CASE(M16[v].name, Q, y, 0, 0); M16[v].f(A, Q, P16); cmp06(M16[v].name, Q, y, 0);
      for (i = 0; i < Q; i++) if (P16[i] != y) { violation("op=%s table entry %d modified", M16[v].name, i); break; }
      for (i = 0; i < Q; i++) { B[i] = i; C[i] = y; A[i] = -77; }
      CASE(M32[v].name, Q, y, 0, 0); M32[v].f(A, Q, B, C); cmp06(M32[v].name, Q, y, 0);
      for (i = 0; i < Q; i++) if (B[i] != i || C[i] != y) { violation("op=%s source entry %d modified", M32[v].name, i); break; }
      for (i = 0; i < Q; i++) A[i] = i;
      CASE(MS[v].name, Q, y, 0, 0); MS[v].f(A, Q, y); cmp06(MS[v].name, Q, y, 0);
      if (vf_stop()) return;
    }
    stat_add("operand_pairs", Q);
  }
}
static void c06_len(int part) {
  static const int EXTRA[] = { 384, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 12289, 16384, 65536 };
  int k, i, v, o, n, pat;
  for (k = part; k < 321 + 13; k += 64) {
    n = k < 321 ? k : EXTRA[k - 321];
    for (v = 0; v < 2; v++) for (o = 0; o < 3; o++) for (pat = 0; pat < (n < 400 ? 6 : 2); pat++) {
      const char *nm = o == 0 ? M16[v].name : o == 1 ? M32[v].name : MS[v].name;
      i32 sc = BND[(n + pat * 7) % NBND];
      for (i = 0; i < n + 16; i++) {
        S[i] = pat & 1 ? (i * 131 + 7 * pat + n) % Q : BND[(i + pat) % NBND];
        B[i] = o == 2 ? sc : pat & 1 ? (i * 577 + 12288) % Q : BND[(3 * i + n) % NBND];
        A[i] = i >= n ? 0x77000000 + i : o == 1 ? -5 : S[i]; C[i] = S[i]; P16[i] = B[i];
      }
      CASE(nm, n, pat, 0, 0);
      if (o == 0) M16[v].f(A, n, P16); else if (o == 1) M32[v].f(A, n, C, B); else MS[v].f(A, n, sc);
      for (i = 0; i < n; i++) if (A[i] != (i64)S[i] * B[i] % Q) { violation("op=%s n=%d index %d: %d * %d: got %d", nm, n, i, S[i], B[i], A[i]); break; }
      for (i = n; i < n + 16; i++) if (A[i] != 0x77000000 + i) { violation("op=%s n=%d wrote index %d", nm, n, i); break; }
      for (i = 0; i < n + 16; i++) if (P16[i] != B[i] || C[i] != S[i]) { violation("op=%s n=%d modified a source at %d", nm, n, i); break; }
      stat_add("length_cases", 1);
      if (vf_stop()) return;
    }
  }
}

/* ---------------- C07 ---------------- */
typedef void (*un_fn)(i32 *, u32);
static const struct { const char *name; un_fn f; int what, isasm; } U[] = {
  { "reduce_array", reduce_array, 3, 0 }, { "reduce_array_asm", reduce_array_asm, 3, 1 },
  { "reduce_array_twice", reduce_array_twice, 9, 0 }, { "reduce_array_twice_asm", reduce_array_twice_asm, 9, 1 },
  { "normalize", normalize, 1, 0 }, { "normalize_inv3", normalize_inv3, -3, 0 },
  { "correct", correct, 100, 0 }, { "correct_asm", correct_asm, 100, 1 }, { "shift_array", shift_array, 200, 0 }, { "shift_array_asm", shift_array_asm, 200, 1 } };
#define NU 10
static int lo_of(int w) { return w == 100 ? -12289 : w == 200 ? 0 : INT32_MIN; }
static int hi_of(int w) { return w == 100 ? 24577 : w == 200 ? 12288 : INT32_MAX; }
static inline int un_ok(int w, i32 x, i32 v) {
  switch (w) {
  case 3: return v >= -524287 && v <= 536573 && (3 * (i64)x - v) % Q == 0;
  case 9: return v >= -130 && v <= 12413 && (9 * (i64)x - v) % Q == 0;
  case 1: case 100: return v >= 0 && v < Q && ((i64)x - v) % Q == 0;
  case -3: return v >= 0 && v < Q && ((i64)x - 3 * (i64)v) % Q == 0;
  case 200: return v >= -6144 && v <= 6144 && ((i64)x - v) % Q == 0;
  }
  return 0;
}
static void c07_unary(int chunk) {
  /* 2^32 inputs in chunks of 65536*64 */
  i64 base = (i64)INT32_MIN + (i64)chunk * CH * 64;
  int k, u, i;
  for (k = 0; k < 64; k++, base += CH) for (u = 0; u < 6; u++) {
    for (i = 0; i < CH; i++) A[i] = (i32)(base + i);
    CASE(U[u].name, base, CH, 0, 0);
    U[u].f(A, CH);
    for (i = 0; i < CH; i++) if (!un_ok(U[u].what, (i32)(base + i), A[i])) { violation("op=%s input %d: got %d", U[u].name, (i32)(base + i), A[i]); if (vf_stop()) return; break; }
    stat_add("unary_inputs", CH);
  }
}
/* every length (asm: multiples of 16), every index, boundary values */
static void c07_len(int part) {
  int n, u, i, s, nv;
  i32 V[400];
  for (n = part; n <= 600; n += 64) for (u = 0; u < NU; u++) {
    int w = U[u].what, L = lo_of(w), H = hi_of(w), j;
    int nn = U[u].isasm ? 16 * (n + 1) : n;
    if (nn > 4096) continue;
    nv = 0;
    for (i = 0; i < 12; i++) V[nv++] = L + i; for (i = 0; i < 12; i++) V[nv++] = H - i;
    for (i = -8; i <= 8; i++) { V[nv++] = i; if (Q + i <= H) V[nv++] = Q + i; if (-Q + i >= L) V[nv++] = -Q + i; if (6144 + i <= H) V[nv++] = 6144 + i; if (L < -4104) V[nv++] = -4096 + i; }
    if (w < 50) for (i = 12; i < 31; i++) for (j = -2; j <= 2; j++) { V[nv++] = (1 << i) + j; V[nv++] = -(1 << i) + j; }
    for (s = 0; s < (nn < 100 ? nv : 7); s++) {
      for (i = 0; i < nn + 16; i++) { S[i] = V[(i * (1 + s % 3) + s) % nv]; A[i] = i < nn ? S[i] : 0x66000000 + i; }
      CASE(U[u].name, nn, s, 0, 0);
      U[u].f(A, nn);
      for (i = 0; i < nn; i++) if (!un_ok(w, S[i], A[i])) { violation("op=%s n=%d index %d input %d: got %d", U[u].name, nn, i, S[i], A[i]); break; }
      for (i = nn; i < nn + 16; i++) if (A[i] != 0x66000000 + i) { violation("op=%s n=%d wrote index %d", U[u].name, nn, i); break; }
      stat_add("length_cases", 1);
      if (vf_stop()) return;
    }
  }
}
static void c07_range(int u0) { /* correct and shift: their whole domain at every lane */
  int u, off, i;
  for (u = 6 + u0; u < NU; u += 4) { int L = lo_of(U[u].what), H = hi_of(U[u].what), n = H - L + 1;
    for (off = 0; off < 32; off++) {
      int tot = (n + off + 15) & ~15;
      for (i = 0; i < tot; i++) { S[i] = L + (i - off + 64 * n) % n; A[i] = S[i]; }
      CASE(U[u].name, tot, off, 0, 0);
      U[u].f(A, tot);
      for (i = 0; i < tot; i++) if (!un_ok(U[u].what, S[i], A[i])) { violation("op=%s n=%d index %d input %d: got %d", U[u].name, tot, i, S[i], A[i]); break; }
      stat_add("unary_inputs", tot);
    } }
}
/* multiply-reduce: op 0..2 = C (16, 32, scalar), 3..5 = asm */
static const char *MN[6] = { "mul_reduce_array16", "mul_reduce_array", "scalar_mul_reduce_array", "mul_reduce_array16_asm", "mul_reduce_array_asm", "scalar_mul_reduce_array_asm" };
/* operands: S[i] and B[i] (B constant for scalar) of length n; result to A */
static void mulop(int o, int n) {
  int i;
  if (o % 3 == 0) for (i = 0; i < n; i++) S16[i] = B[i];
  if (o % 3 == 1) { memcpy(C, S, n * 4); memset(A, 0x5b, n * 4); } else memcpy(A, S, n * 4);
  CASE(MN[o], n, S[0], B[0], 0);
  switch (o) {
  case 0: mul_reduce_array16(A, n, S16); break; case 1: mul_reduce_array(A, n, C, B); break; case 2: scalar_mul_reduce_array(A, n, B[0]); break;
  case 3: mul_reduce_array16_asm(A, n, S16); break; case 4: mul_reduce_array_asm(A, n, C, B); break; case 5: scalar_mul_reduce_array_asm(A, n, B[0]); break;
  }
  if (o % 3 == 0) { for (i = 0; i < n; i++) if (S16[i] != B[i]) { violation("op=%s modified its table at %d", MN[o], i); break; } }
  if (o % 3 == 1) { for (i = 0; i < n; i++) if (C[i] != S[i]) { violation("op=%s modified its source at %d", MN[o], i); break; } }
}
static void mulcheck(int o, int n, i64 lo, i64 hi) {
  int i;
  for (i = 0; i < n; i++) {
    i64 z = (i64)S[i] * B[i], v = A[i];
    if (v < lo || v > hi || (3 * z - v) % Q) { violation("op=%s n=%d index %d: %d * %d: got %d", MN[o], n, i, S[i], B[i], A[i]); break; }
  }
  stat_add("products", n);
}
static void c07_mul(int part) { /* all operand pairs of the two documented ranges */
  int y, i, o, r, n = 12304; /* 769*16 */
  for (r = 0; r < 2; r++) for (y = part; y < Q; y += 64) for (o = 0; o < 6; o++) {
    for (i = 0; i < n; i++) { S[i] = (i < Q ? i : i - Q) - (r ? 6144 : 0); B[i] = y - (r ? 6144 : 0); }
    mulop(o, n);
    if (r) mulcheck(o, n, -9216, 21499); else mulcheck(o, n, -36864, 12285);
    if (vf_stop()) return;
  }
}
static void c07_mulwide(int part) { /* the whole documented product range: boundary factors, plus all 32-bit a with small factors */
  static i32 V[4000]; int nv = 0, i, j, k, o, n;
  for (i = 0; i < 31; i++) for (j = -3; j <= 3; j++) { V[nv++] = (i32)((1u << i) + j); V[nv++] = (i32)-((1u << i) + j); }
  for (j = 0; j < 6; j++) { V[nv++] = INT32_MIN + j; V[nv++] = INT32_MAX - j; }
  for (i = 1; i < 40; i++) { V[nv++] = i * 12289; V[nv++] = -i * 12289; V[nv++] = i * 53687091; V[nv++] = -i * 53687091; }
  static i32 X[4000000 / 1], Y[4000000 / 1]; int nx = 0;
  const i64 ZL = -8796042698752LL, ZH = 8796093026303LL;
  for (i = part; i < nv; i += 64) {
    nx = 0;
    for (j = 0; j < nv; j++) { i64 z = (i64)V[i] * V[j]; if (z >= ZL && z <= ZH) { X[nx] = V[i]; Y[nx++] = V[j]; } }
    if (V[i]) for (j = -40; j <= 40; j++) { /* cofactors at the ends of the range */
      i64 c1 = ZL / V[i] + j, c2 = ZH / V[i] + j;
      if (c1 >= INT32_MIN && c1 <= INT32_MAX && V[i] * c1 >= ZL && V[i] * c1 <= ZH) { X[nx] = V[i]; Y[nx++] = (i32)c1; }
      if (c2 >= INT32_MIN && c2 <= INT32_MAX && V[i] * c2 >= ZL && V[i] * c2 <= ZH) { X[nx] = V[i]; Y[nx++] = (i32)c2; }
    }
    for (j = -32768; j < 32768; j++) { i64 z = (i64)V[i] * j; if (z >= ZL && z <= ZH) { X[nx] = V[i]; Y[nx++] = j; } }
    for (o = 0; o < 6; o++) {
      if (o % 3 == 2) { /* scalar: V[i] times all the others */
        for (k = 0; k < nx; k += CH) { int m = nx - k < CH ? nx - k : CH; n = (m + 15) & ~15; for (j = 0; j < n; j++) { S[j] = Y[k + (j < m ? j : 0)]; B[j] = V[i]; } mulop(o, n); mulcheck(o, n, INT32_MIN, INT32_MAX); if (vf_stop()) return; }
      } else {
        for (k = 0; k < nx; k += CH) { int m = nx - k < CH ? nx - k : CH; n = (m + 15) & ~15;
          int any = 0;
          for (j = 0; j < n; j++) { int q = k + (j < m ? j : 0); S[j] = X[q]; B[j] = Y[q]; if (o % 3 == 0 && (B[j] < -32768 || B[j] > 32767)) { S[j] = 1; B[j] = 1; } else any = 1; }
          if (!any) continue;
          mulop(o, n); mulcheck(o, n, INT32_MIN, INT32_MAX); if (vf_stop()) return; }
      }
    }
  }
}
static void c07_mulfull(int chunk) { /* every 32-bit a with a rotating small factor */
  static const i32 F[8] = { 1, -1, 3, 2048, -2047, 4095, -4096, 1365 };
  i64 base = (i64)INT32_MIN + (i64)chunk * CH * 64; int k, o, i;
  for (k = 0; k < 64; k++, base += CH) for (o = 0; o < 6; o++) {
    if (!vf_thorough && (k + chunk + o) % 6) continue; /* quick: each block with one of the six routines */
    for (i = 0; i < CH; i++) { S[i] = (i32)(base + i); B[i] = F[o % 3 == 2 ? (k + chunk) & 7 : (i + k) & 7]; }
    mulop(o, CH); mulcheck(o, CH, INT32_MIN, INT32_MAX); if (vf_stop()) return;
  }
}
static void c07_mullen(int part) {
  int n, o, i, s;
  for (n = part; n <= 300; n += 64) for (o = 0; o < 6; o++) {
    int nn = o >= 3 ? 16 * (n + 1) : n;
    if (nn > 4096) continue;
    for (s = 0; s < 12; s++) {
      for (i = 0; i < nn + 16; i++) { S[i] = (s & 1 ? 1 : -1) * BND[(i + s) % NBND] * (i % 7 == 3 ? 100 : 1); B[i] = (s & 2 ? 1 : -1) * BND[(o % 3 == 2 ? s : i * 3 + s) % NBND]; }
      mulop(o, nn);
      mulcheck(o, nn, INT32_MIN, INT32_MAX);
      stat_add("length_cases", 1); if (vf_stop()) return;
    }
  }
}
/* large lengths: counters and indices narrower than the documented 32 bits */
static void biglen(int j) {
  static const u32 LN[] = { 65535, 65536, 65537, 98304, 131072, 131088, 1000003, 1 << 20, (1 << 20) + 16, (1 << 22) + 3, (1 << 24) + 32 };
  int li = j % 11, grp = j / 11, k, i; u32 n = LN[li], z; i32 *a, *b, *c, *s; i16 *p;
  a = malloc(4ul * (n + 32)); b = malloc(4ul * (n + 32)); c = malloc(4ul * (n + 32)); s = malloc(4ul * (n + 32)); p = malloc(2ul * (n + 32)); if (!a || !b || !c || !s || !p) { fprintf(stderr, "memory\n"); exit(2); }
  for (k = grp; k < (red_mode ? NU + 6 : 6); k += 4) {
    int w = red_mode && k < NU ? U[k].what : 0, asmr = red_mode && (k < NU ? U[k].isasm : k - NU >= 3); u32 nn = asmr ? n & ~15u : n; const char *nm;
    i64 L = red_mode ? (k < NU ? lo_of(w) : -21499) : 0, H = red_mode ? (k < NU ? hi_of(w) : 21499) : 12288; i32 sc = red_mode ? -6143 : 12287;
    for (z = 0; z < nn + 16; z++) { u32 g = z * 2654435761u + k; s[z] = (i32)(L + (i64)((u64)g * (u64)(H - L + 1) >> 32)); p[z] = red_mode ? (i32)((g >> 7) % Q) - 6144 : (i32)((g >> 7) % Q); c[z] = s[z]; b[z] = p[z]; a[z] = z < nn ? s[z] : 0x77000000; }
    if (!red_mode) { int v = k & 1, o = k / 2; nm = o == 0 ? M16[v].name : o == 1 ? M32[v].name : MS[v].name; CASE(nm, nn, 0, 0, 0);
      if (o == 0) M16[v].f(a, nn, (u16 *)p); else if (o == 1) M32[v].f(a, nn, c, b); else MS[v].f(a, nn, sc);
      for (z = 0; z < nn; z++) if (a[z] != (i64)s[z] * (o == 2 ? sc : p[z]) % Q) { violation("op=%s n=%u index %u: %d * %d: got %d", nm, nn, z, s[z], o == 2 ? sc : p[z], a[z]); goto out; }
    } else if (k < NU) { nm = U[k].name; CASE(nm, nn, 0, 0, 0); U[k].f(a, nn); for (z = 0; z < nn; z++) if (!un_ok(w, s[z], a[z])) { violation("op=%s n=%u index %u input %d: got %d", nm, nn, z, s[z], a[z]); goto out; } }
    else { int o = k - NU; nm = MN[o]; CASE(nm, nn, 0, 0, 0);
      switch (o) { case 0: mul_reduce_array16(a, nn, p); break; case 1: mul_reduce_array(a, nn, c, b); break; case 2: scalar_mul_reduce_array(a, nn, sc); break;
        case 3: mul_reduce_array16_asm(a, nn, p); break; case 4: mul_reduce_array_asm(a, nn, c, b); break; default: scalar_mul_reduce_array_asm(a, nn, sc); }
      for (z = 0; z < nn; z++) if (a[z] != ref_red((i64)s[z] * (o % 3 == 2 ? sc : p[z])) && ((i64)a[z] - 3 * (i64)s[z] * (o % 3 == 2 ? sc : p[z])) % Q) { violation("op=%s n=%u index %u: %d * %d: got %d", nm, nn, z, s[z], o % 3 == 2 ? sc : p[z], a[z]); goto out; } }
    for (i = 0; i < 16; i++) if (a[nn + i] != 0x77000000) { violation("op=%s n=%u wrote index %u", nm, nn, nn + i); goto out; }
    stat_add("length_cases", 1);
    if (vf_stop()) break;
  }
out: free(a); free(b); free(c); free(s); free(p);
}
/* both (constant) sources may be the same array */
static void squares(void) {
  int i, v, n, r;
  if (!red_mode) { for (v = 0; v < 2; v++) for (n = 1; n <= Q; n = n < 40 ? n + 1 : n == Q ? Q + 1 : n * 3 > Q ? Q : n * 3) for (r = 0; r < Q; r += n < 40 ? 997 : Q) {
      for (i = 0; i < n; i++) { B[i] = (i + r) % Q; A[i] = -9; }
      CASE(M32[v].name, n, r, 0, 0); M32[v].f(A, n, B, B);
      for (i = 0; i < n; i++) if (B[i] != (i + r) % Q || A[i] != (i64)B[i] * B[i] % Q) { violation("op=%s n=%d both sources the same array, index %d: %d squared: got %d", M32[v].name, n, i, (i + r) % Q, A[i]); return; }
      stat_add("length_cases", 1); } return; }
  for (v = 0; v < 2; v++) for (n = 16; n <= CH; n *= 2) for (r = 0; r < 40; r++) {
      for (i = 0; i < n; i++) { B[i] = (i32)(((u32)i * 91u + (u32)r * 149773u) % 5931000u) - 2965500; A[i] = -9; }
      memcpy(C, B, 4 * n); CASE(v ? "mul_reduce_array_asm" : "mul_reduce_array", n, r, 0, 0); (v ? mul_reduce_array_asm : mul_reduce_array)(A, n, B, B);
      for (i = 0; i < n; i++) if (B[i] != C[i] || (3 * (i64)C[i] * C[i] - A[i]) % Q) { violation("op=%s n=%d both sources the same array, index %d: %d squared: got %d", v ? "mul_reduce_array_asm" : "mul_reduce_array", n, i, C[i], A[i]); return; }
      stat_add("length_cases", 1); }
}
static void job06(int j) { if (j < 64) c06_pairs(j); else if (j < 128) c06_len(j - 64); else squares(); }
static void job07(int j) {
  if (j < 1024) c07_unary(j); else if ((j -= 1024) < 1024) c07_mulfull(j); else if ((j -= 1024) < 64) c07_mul(j); else if ((j -= 64) < 64) c07_mulwide(j);
  else if ((j -= 64) < 64) c07_len(j); else if ((j -= 64) < 64) c07_mullen(j); else if ((j -= 64) == 4) squares(); else c07_range(j);
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0;
  red_mode = argc > 2 && !strcmp(argv[2], "red");
  vf_job_limit = 200;
  if (!red_mode) { sample("all (x,y) in [0,12288]^2 for mul_array16, mul_array, scalar_mul_array and the naive versions"); sample("every length 0..320 and 13 larger ones, boundary and dense contents, canaries after the end"); run_jobs("C06", 129, job06); run_jobs("large lengths", 44, biglen); }
  else { sample("all 2^32 inputs of reduce_array, reduce_array_twice (C, asm), normalize, normalize_inv3"); sample("all operand pairs of both documented ranges for the six multiply-reduce routines"); sample("boundary factors up to the ends of the documented product range, e.g. 2147483647 * 4096"); run_jobs("C07", 1024 + 1024 + 64 * 4 + 5, job07); run_jobs("large lengths", 44, biglen); }
  return vf_finish();
}
