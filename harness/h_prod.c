/* C01: every product routine on exhaustive families of operand pairs. */
#include "net.h"
#include "tables.h"
static const int NS[4] = { 16, 256, 512, 1024 };
static prod_t P[200]; static int NP;

static void ref_prod_fast(int n, const i32 *a, const i32 *b, i32 *c) {
  static i32 x[1024], y[1024], X[1024], Y[1024];
  static int sn; static i32 ps[1024], ips[1024]; static i64 psi;
  int i;
  if (sn != n) {
    i64 t = 1, u, ip; psi = any_psi(n); ip = inv(psi); u = inv(n);
    for (i = 0; i < n; i++) { ps[i] = (i32)t; t = t * psi % Q; ips[i] = (i32)u; u = u * ip % Q; }
    sn = n;
  }
  for (i = 0; i < n; i++) { x[i] = (i64)modp(a[i]) * ps[i] % Q; y[i] = (i64)modp(b[i]) * ps[i] % Q; }
  ref_dft(n, psi * psi % Q, x, X); ref_dft(n, psi * psi % Q, y, Y);
  for (i = 0; i < n; i++) X[i] = (i32)((i64)X[i] * Y[i] % Q);
  ref_dft(n, psi * psi % Q, X, x);
  /* inverse DFT = forward DFT read at -k */
  for (i = 0; i < n; i++) c[i] = (i32)((i64)x[(n - i) & (n - 1)] * ips[i] % Q);
}
static void selfcheck(void) {
  int k, i, n;
  i32 a[1024], b[1024], x[1024], y[1024];
  for (k = 0; k < 4; k++) { n = NS[k];
    int r;
    for (r = 0; r < 6; r++) {
      u32 s = 12345 + r;
      for (i = 0; i < n; i++) { s = s * 1664525 + 1013904223; a[i] = (s >> 8) % Q; s = s * 1664525 + 1013904223; b[i] = r == 5 ? 12288 : (s >> 8) % Q; }
      ref_mul(n, a, b, x); ref_prod_fast(n, a, b, y);
      if (memcmp(x, y, n * 4)) { fprintf(stderr, "product reference self-check failed\n"); exit(2); }
    } }
}

static const char *fam = "";
/* run all routines of size n accepted by mask on (a,b); want = canonical expected product */
static void check(int n, const i32 *a, const i32 *b, const i32 *want, int vmask) {
  static i32 x[1024] __attribute__((aligned(64))), y[1024] __attribute__((aligned(64))), c[1024] __attribute__((aligned(64)));
  int k, i;
  for (k = 0; k < NP; k++) {
    if (P[k].n != n || !(vmask >> P[k].variant & 1)) continue;
    memcpy(x, a, n * 4); memcpy(y, b, n * 4);
    for (i = 0; i < n; i++) c[i] = 0x5a5a5a5a ^ i;
    CASE(P[k].name, n, a[0], b[0], 0);
    P[k].f(c, x, y);
    if (memcmp(c, want, n * 4)) {
      for (i = 0; i < n && c[i] == want[i]; i++) ;
      violation("op=%s family=%s coefficient %d: got %d, want %d; a=%s b=%s", P[k].name, fam, i, c[i], want[i], show(a, n), show(b, n));
      if (vf_stop()) return;
    }
    stat_add("product_calls", 1);
  }
  stat_add("operand_pairs", 1);
}
static void check2(int n, const i32 *a, const i32 *b) {
  static i32 w[1024];
  ref_prod_fast(n, a, b, w);
  check(n, a, b, w, 0x3e);
}

/* --- families; each is split in jobs --- */
static void fam_monomials(int n, int part, int parts) {
  /* u X^i * v X^j, exact by definition */
  static i32 a[1024], b[1024], w[1024];
  static const int V[] = { 1, 2, 3, 4095, 4096, 6144, 6145, 8193, 12287, 12288 };
  int NV = 10, i, j, u, v, full = n == 16 || vf_thorough, c = 0;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
    if (!full && !(!vf_lite && (n <= 256 || (j + i * 5) % (n == 512 ? 3 : 17) == 0)) && !(j == 0 || j == 1 || j == n / 2 - 1 || j == n / 2 || j == n - 1 || i == 0 || i == n - 1 || i == j || i + j == n || i + j == n - 1)) continue;
    if (c++ % parts != part) continue;
    for (u = 0; u < NV; u++) for (v = 0; v < NV; v++) {
      if (n > 16 && !((u == 9 && v == 9) || (!vf_thorough ? (u * 3 + i) % 10 == v : (u + v + i) % 5 == 0))) continue;
      if (n > 16 && !vf_thorough && (u != 9) && (u != i % 9)) continue;
      i64 p = (i64)V[u] * V[v] % Q;
      a[i] = V[u]; b[j] = V[v];
      w[(i + j) & (n - 1)] = i + j < n ? p : (p ? Q - p : 0);
      check(n, a, b, w, 0x3e);
      a[i] = b[j] = 0; w[(i + j) & (n - 1)] = 0;
      if (vf_stop()) return;
    }
  }
}
static void fam_values(int n, int part, int parts) {
  /* every value at rotating positions (every position for n=16) against structured partners */
  static i32 a[1024], b[1024];
  int v, i, k;
  for (v = part; v < Q; v += parts) {
    if (n == 16) {
      for (i = 0; i < n; i++) {
        memset(a, 0, n * 4); memset(b, 0, n * 4);
        a[i] = v; b[(i * 5 + 3) % n] = 1; b[(i * 7 + v) % n] = 12288; check2(n, a, b); if (vf_stop()) return;
        check2(n, b, a);
        for (k = 0; k < n; k++) b[k] = 12288;
        check2(n, a, b);
        for (k = 0; k < n; k++) a[k] = v;
        check2(n, a, b); check2(n, a, a);
        if (vf_stop()) return;
      }
    } else {
      memset(a, 0, n * 4); memset(b, 0, n * 4);
      a[(v * 37) % n] = v; a[(v * 11 + 1) % n] = 12288 - v; b[(v * 53 + 7) % n] = 12288; b[(v + 3) % n] = 1;
      check2(n, a, b); if (vf_stop()) return;
      if (v % 2 == 0 || !vf_lite) check2(n, b, a);
      for (k = 0; k < n; k++) a[k] = v;
      if (v % 4 == 0 || !vf_lite) check2(n, a, a);
    }
    if (vf_stop()) return;
  }
}
static void fam_walsh(int n, int part, int parts) {
  static i32 a[1024], b[1024];
  static const int PR[][2] = { { 12288, 0 }, { 0, 12288 }, { 6144, 6145 }, { 12288, 6144 }, { 12287, 1 }, { 4095, 4096 }, { 6145, 0 } };
  int m, p, i, np = vf_thorough || n <= 256 ? 7 : 4;
  for (m = part; m < n; m += parts) for (p = 0; p < np; p++) {
    for (i = 0; i < n; i++) a[i] = PR[p][__builtin_parity(i & m)];
    check2(n, a, a);
    for (i = 0; i < n; i++) b[i] = PR[(p + 1) % 7][__builtin_parity(i & (m ^ (p * 5)) & (n - 1))];
    check2(n, a, b);
    for (i = 0; i < n; i++) b[i] = 12288;
    if (vf_thorough || p == 0) check2(n, a, b);
    if (vf_stop()) return;
  }
}
static void fam_const(int n, int part, int parts) {
  static i32 a[1024], b[1024];
  int u, v, i, c = 0;
  for (u = 0; u < NBND; u++) for (v = 0; v < NBND; v++) {
    if (c++ % parts != part) continue;
    for (i = 0; i < n; i++) { a[i] = BND[u]; b[i] = BND[v]; }
    check2(n, a, b);
    for (i = 0; i < n; i++) { a[i] = BND[(u + i) % NBND]; b[i] = BND[(v + 3 * i) % NBND]; }
    check2(n, a, b);
    for (i = 0; i < n; i++) { a[i] = i <= u * n / NBND ? 12288 : 0; b[i] = i >= v * n / NBND ? 12288 : 0; }
    check2(n, a, b);
    if (vf_stop()) return;
  }
}
static void fam_binary16(int n, int part, int parts) {
  /* n=16: every 0/12288 pattern (every 6144/6145 pattern) against structured partners */
  i32 a[16], b[16]; int m, i, k;
  for (m = part; m < 65536; m += parts) {
    for (i = 0; i < 16; i++) a[i] = m >> i & 1 ? 12288 : 0;
    check2(n, a, a);
    for (k = 0; k < 6; k++) {
      for (i = 0; i < 16; i++) b[i] = k == 0 ? 12288 : k == 1 ? (i & 1 ? 12288 : 0) : k == 2 ? (m >> (15 - i) & 1 ? 12288 : 1) : k == 3 ? 6145 - (m >> i & 1) : k == 4 ? (m >> i & 1 ? 0 : 12288) : BND[(m + i) % NBND];
      check2(n, a, b);
    }
    if (vf_stop()) return;
  }
}
/* choose transform-domain values: A[k],B[k] given in plain (standard) order; build operands */
static void from_domain(int n, const i32 *A, i32 *a) {
  static int sn; static i32 ips[1024]; static i64 psi; static i32 t[1024];
  int i;
  if (sn != n) { i64 u, ip; psi = any_psi(n); ip = inv(psi); u = inv(n); for (i = 0; i < n; i++) { ips[i] = (i32)u; u = u * ip % Q; } sn = n; }
  ref_dft(n, psi * psi % Q, A, t);
  for (i = 0; i < n; i++) a[i] = (i32)((i64)t[(n - i) & (n - 1)] * ips[i] % Q);
}
static void fam_domain(int n, int part, int parts) {
  /* every pair of residues at the pointwise product, n pairs per call (quick: all pairs for n=16, all x boundary otherwise) */
  static i32 A[1024], B[1024], C[1024], a[1024], b[1024], w[1024];
  int k, full = n == 16 || vf_thorough;
  i64 tot = full ? (i64)Q * Q : (i64)Q * NBND * 2, step = n, pos;
  for (pos = (i64)part * step; pos < tot; pos += step * parts * (vf_lite > 1 ? 16 : 1)) {
    for (k = 0; k < n; k++) {
      i64 p = (pos + k) % tot;
      int x = p % Q, y = (int)(p / Q);
      if (!full) { if (y < NBND) y = BND[y]; else { int t = x; x = BND[y - NBND]; y = t; } }
      A[k] = x; B[k] = y; C[k] = (i32)((i64)x * y % Q);
    }
    from_domain(n, A, a); from_domain(n, B, b); from_domain(n, C, w);
    check(n, a, b, w, 0x3e);
    if (vf_stop()) return;
  }
}
/* extremal operands: for each node of each forward network, operands that push it to its extremes, used on both sides */
static void fam_extreme(int n, int part, int parts) {
  static i32 a[1024], w[1024]; static double c[2048];
  i32 rt[1024], rp[1024];
  static const int K[3] = { CT_S2R, GS_S2R, MULCT_S2R };
  static const int VM[3] = { 0x0a, 0x14, 0x20 };
  int q, l, pos, sg, al, i, cnt = 0, L = lg(n);
  i64 psi = main_psi(n), t = 1;
  for (i = 0; i < n; i++) { i64 v = t * 8193 % Q; rp[i] = v > 6144 ? v - Q : v; t = t * psi % Q; }
  for (q = 0; q < 3; q++) {
    net_t *N = net_make(K[q], n);
    ref_table(K[q], n, psi, 1, rt);
    for (l = 1; l <= L; l++) for (pos = 0; pos < n; pos++) {
      if (!vf_thorough && n > 16 && l < L && pos % 16 != (l * 5) % 16) continue;
      if (cnt++ % parts != part) continue;
      net_coef(N, rt, l, pos, c);
      if (q < 2) for (i = 0; i < n; i++) c[i] *= -rp[i] / 4096.0;
      for (sg = -1; sg <= 1; sg += 2) for (al = 0; al < 2; al++) {
        for (i = 0; i < n; i++) { int up = c[i] * sg > 0; a[i] = c[i] == 0 ? 0 : al ? (up ? 6144 : 6145) : (up ? 12288 : 0); }
        ref_prod_fast(n, a, a, w);
        check(n, a, a, w, VM[q]);
        stat_add("extremal_operands", 1);
        if (vf_stop()) { free(N); return; }
      }
    }
    free(N);
  }
}
/* extremal for the inverse networks: pointwise values steered to their largest / smallest by choosing residues */
static void fam_extreme_inv(int n, int part, int parts) {
  static i32 A[1024], B[1024], C[1024], a[1024], b[1024], w[1024]; static double c[2048];
  i32 rt[1024];
  static const int K[3] = { CT_R2S, GS_R2S, GSMUL_R2S };
  static const int VM[3] = { 0x06, 0x18, 0x20 };
  int q, l, pos, sg, al, i, cnt = 0, L = lg(n);
  i64 psi = inv(main_psi(n)), fpsi = any_psi(n);
  i64 i3 = 8193;
  (void)fpsi;
  for (q = 0; q < 3; q++) {
    net_t *N = net_make(K[q], n);
    ref_table(K[q], n, psi, 1, rt);
    for (l = 1; l <= L; l++) for (pos = 0; pos < n; pos++) {
      if (!vf_thorough && n > 16 && l < L && pos % 16 != (l * 3) % 16) continue;
      if (!vf_thorough && n >= 512 && l == L && pos % 2) continue;
      if (cnt++ % parts != part) continue;
      net_coef(N, rt, l, pos, c);
      for (sg = -1; sg <= 1; sg += 2) for (al = 0; al < 3; al++) {
        /* the product value at standard frequency k sits at array index bitrev(k); order of frequencies depends on psi
         * of the generated tables: value at exponent e of main psi */
        for (i = 0; i < n; i++) {
          int k = revbits(i, L), up = c[i] * sg > 0; /* array index i holds frequency k (w.r.t. the tables' psi) */
          i64 X, Y;
          if (al == 0) { X = up ? 4095 : 12288; Y = up ? 1 : 12288; }
          else if (al == 1) { /* after double reduction: steer 27*X*Y to the ends of [0,Q-1] */ X = up ? 12288 : 1; Y = inv(27); }
          else { X = up ? 12285 : 130; Y = inv(27); }
          A[k] = (i32)(X * i3 % Q); B[k] = (i32)(Y * i3 % Q);
          if (al) { A[k] = (i32)X; B[k] = (i32)Y; }
          C[k] = (i32)((i64)A[k] * B[k] % Q);
        }
        { /* from_domain with the tables' own psi */
          static i32 t[1024]; i64 pm = main_psi(n), ip = inv(pm), u; int z; i32 *src[3] = { A, B, C }, *dst[3] = { a, b, w };
          for (z = 0; z < 3; z++) { ref_dft(n, pm * pm % Q, src[z], t); u = inv(n); for (i = 0; i < n; i++) { dst[z][i] = (i32)((i64)t[(n - i) & (n - 1)] * u % Q); u = u * ip % Q; } }
        }
        check(n, a, b, w, VM[q]);
        stat_add("extremal_operands", 1);
        if (vf_stop()) { free(N); return; }
      }
    }
    free(N);
  }
}
/* every number of nonzero coefficients, at several places; operands equal except at one index */
static void fam_weight(int n, int part, int parts) {
  static i32 a[1024], b[1024]; int k, i, sh;
  for (k = part; k <= n; k += parts) for (sh = 0; sh < 4; sh++) {
    int odd = sh == 2 ? 1 : (k * 7 | 1), st = sh == 0 ? 0 : sh == 1 ? n - k : k * 13;
    memset(a, 0, n * 4); memset(b, 0, n * 4);
    for (i = 0; i < k; i++) a[(st + i * (sh < 2 ? 1 : odd)) & (n - 1)] = (sh & 1 ? 12288 - i * 5 : 1 + i * 3) % 12288 + 1;
    for (i = 0; i < n; i++) b[i] = sh == 0 ? 12288 - i % 7 : sh == 1 ? (i < k ? 1 + i : 0) : sh == 2 ? (i * 7919 + k) % Q : (i % (k + 1) == 0 ? 6145 : 0);
    check2(n, a, b); if (vf_stop()) return;
    if (sh == 3 || vf_thorough) check2(n, b, a);
  }
  for (k = part; k < n; k += parts) for (sh = 0; sh < 2; sh++) {
    for (i = 0; i < n; i++) a[i] = b[i] = sh ? (i * i * 3 + 11 * i + k) % Q : 0;
    b[k] = (b[k] + 1) % Q; check2(n, a, b); if (vf_stop()) return;
    if (sh) { int t = a[k]; a[k] = a[(k + 1) & (n - 1)]; a[(k + 1) & (n - 1)] = t; b[k] = (b[k] + Q - 1) % Q; check2(n, a, b); } /* swapped neighbours: same sum */
  }
}
/* sequences with structure: arithmetic, geometric (every ratio: concentrated and flat spectra), symmetric, even, half-empty, opposite */
static void fam_struct(int n, int part, int parts) {
  static i32 a[1024], b[1024]; int r, i, k; i64 t;
  for (r = part; r < Q; r += parts * (vf_thorough ? 1 : vf_lite ? 16 : n == 1024 ? 5 : n == 512 ? 3 : 1)) for (k = 0; k < 8; k++) {
    for (i = 0, t = 1; i < n; i++, t = t * r % Q) {
      int m = i < n - 1 - i ? i : n - 1 - i, g = (int)(((i64)i * 7919 + (i64)r * 104729 + i % 13 * r) % Q);
      a[i] = k == 0 ? (int)(((i64)r * i + 1) % Q) : k == 1 ? (int)t : k == 2 ? (r + m) % Q : k == 3 ? 2 * ((r + i * 3) % 6145) : k == 4 ? (i < n / 2 ? g : 0) : k == 5 ? (i < n / 2 ? 0 : g) : k == 6 ? g : (i % (1 << r % lg(n)) ? 0 : g);
      b[i] = k == 0 ? (int)(((i64)r * (n - i)) % Q) : k == 1 ? (int)(t ? Q - t : 0) : k == 2 ? (r * 3 + (i < n / 2 ? m : Q - m)) % Q : k == 3 ? 2 * ((r * 5 + i) % 6145) : k == 4 ? (i < n / 2 ? (g + r) % Q : 0) : k == 5 ? (i < n / 2 ? 0 : 12288) : k == 6 ? (a[i] ? Q - a[i] : 0) : (i % (1 << r % lg(n)) ? 0 : (g * 3) % Q); }
    check2(n, a, b); if (vf_stop()) return; }
}
/* pairs of boundary values at pairs of notable positions, on an empty and on a dense background */
static void fam_ends(int n, int part, int parts) {
  static i32 a[1024], b[1024]; int x, y, u, v, i, c = 0, P[6] = { 0, 1, n / 2 - 1, n / 2, n - 2, n - 1 };
  for (x = 0; x < 6; x++) for (y = 0; y < 6; y++) for (u = 0; u < NBND; u++) for (v = 0; v < NBND; v++) {
    int bg = (u + v + x) & 1; if (c++ % parts != part || (vf_lite && c % 8) || (!vf_thorough && n > 256 && (u * 3 + v + x + y) % (n == 512 ? 3 : 5))) continue;
    for (i = 0; i < n; i++) { a[i] = bg ? (i * 7919 + u * 311 + v * 17 + i % 13 * x) % Q : 0; b[i] = bg ? (i * 6007 + v * 311 + i % 11 * y) % Q : 0; }
    a[P[x]] = BND[u]; if (x == y) b[P[x]] = BND[v]; else { a[P[y]] = BND[v]; if (!bg) b[P[y]] = BND[u]; }
    check2(n, a, b); if (vf_stop()) return; }
}
typedef void (*fam_fn)(int, int, int);
static struct { fam_fn f; const char *name; int only16; } F[] = {
  { fam_monomials, "monomials", 0 }, { fam_values, "all-values", 0 }, { fam_walsh, "walsh", 0 }, { fam_const, "constants", 0 },
  { fam_binary16, "binary16", 1 }, { fam_domain, "domain-pairs", 0 }, { fam_extreme, "extremal-forward", 0 }, { fam_extreme_inv, "extremal-inverse", 0 }, { fam_weight, "weights", 0 }, { fam_struct, "structured", 0 }, { fam_ends, "ends", 0 } };
#define NF 11
#define PARTS 24
static void job(int j) {
  int part = j % PARTS, f = j / PARTS % NF, n = NS[3 - j / PARTS / NF];
  if (F[f].only16 && n != 16) return;
  fam = F[f].name;
  F[f].f(n, part, PARTS);
}
int main(int argc, char **argv) {
  int i;
  vf_init(argc, argv);
  vf_job_limit = vf_thorough ? 3000 : 300;
  ref_selfcheck(); selfcheck();
  for (i = 0; i < n_main_prods; i++) P[NP++] = main_prods[i];
  for (i = 0; i < n_naive_prods; i++) P[NP++] = naive_prods[i];
  stat_add("routines", NP);
  sample("u*X^i times v*X^j: every i,j and u,v in {1,2,3,4095,4096,6144,6145,8193,12287,12288} for n=16");
  sample("every pair (A_k,B_k) in [0,12288]^2 at the pointwise product of n=16, operands recovered by the exact inverse transform");
  sample("operands maximising / minimising each node of the forward and inverse networks");
  run_jobs("products", 4 * NF * PARTS, job);
  return vf_finish();
}
