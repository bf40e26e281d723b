/* C15: abstract transforms and array operations against concrete runs */
#include "net.h"
#include "tables.h"
#include "ivapi.h"
#undef Q
#include "ntt_red.h"
#undef Q
#define Q 12289
#include <fcntl.h>
#include <sys/mman.h>
static const char *const AN[2][8] = { { "abstract_ntt_red_ct_rev2std", "abstract_mulntt_red_ct_rev2std", "abstract_ntt_red_ct_std2rev", "abstract_mulntt_red_ct_std2rev", "abstract_ntt_red_gs_rev2std", "abstract_nttmul_red_gs_rev2std", "abstract_ntt_red_gs_std2rev", "abstract_nttmul_red_gs_std2rev" },
  { "abstract2_ntt_red_ct_rev2std", "abstract2_mulntt_red_ct_rev2std", "abstract2_ntt_red_ct_std2rev", "abstract2_mulntt_red_ct_std2rev", "abstract2_ntt_red_gs_rev2std", "abstract2_nttmul_red_gs_rev2std", "abstract2_ntt_red_gs_std2rev", "abstract2_nttmul_red_gs_std2rev" } };
typedef void (*cfn_t)(i32 *, u32, const i16 *);
static const cfn_t CF[8] = { ntt_red_ct_rev2std, mulntt_red_ct_rev2std, ntt_red_ct_std2rev, mulntt_red_ct_std2rev, ntt_red_gs_rev2std, nttmul_red_gs_rev2std, ntt_red_gs_std2rev, nttmul_red_gs_std2rev };
static interval_t *A[2048], *P[2048]; static i64 lo[2048], hi[2048], plo[2048], phi[2048]; static i16 P16[2048];
static int memfd = -1; static int warned;
static void cap_begin(void) { if (memfd < 0) { memfd = memfd_create("cap", 0); fflush(stdout); dup2(memfd, 1); dup2(memfd, 2); } if (ftruncate(memfd, 0)) _exit(2); lseek(memfd, 0, SEEK_SET); setvbuf(stdout, 0, _IOFBF, 1 << 16); }
/* the bounds printed for each round, when the text has the documented shape: L+1 complete lists */
static int pn, prounds; static i64 PL[12][2048], PH[12][2048];
static void parse_rounds(const char *t, const char *e) {
  int g = -1, nx = pn; prounds = 0; if (pn < 2 || pn > 2048) return;
  while (t < e) {
    const char *nl = memchr(t, '\n', e - t), *c; char *q; long i; i64 a, b; if (!nl) nl = e;
    for (c = t; c + 1 < nl && !(c[0] == 'a' && c[1] == '['); c++) ;
    if (c + 1 < nl && !memmem(t, nl - t, "overflow", 8)) {
      i = strtol(c + 2, &q, 10); if (*q != ']') return;
      while (q < nl && *q != '[') q++; if (q >= nl) return;
      a = strtoll(q + 1, &q, 10); while (*q == ' ' || *q == ',') q++; b = strtoll(q, &q, 10); if (*q != ']') return;
      if (i == 0 && nx == pn) { g++; nx = 0; }
      if (i != nx || g < 0 || g > 11) return;
      PL[g][i] = a; PH[g][i] = b; nx++;
    }
    t = nl + 1;
  }
  if (nx == pn && (1 << g) == pn) prounds = g + 1;
}
static void cap_end(void) {
  off_t n; static char *buf; static size_t cap; size_t i; fflush(stdout); fflush(stderr); n = lseek(memfd, 0, SEEK_END);
  warned = prounds = 0; if (n <= 0) return;
  if ((size_t)n + 1 > cap) { cap = n + 65536; buf = realloc(buf, cap); }
  if (pread(memfd, buf, n, 0) != n) _exit(2); buf[n] = 0;
  parse_rounds(buf, buf + n);
  for (i = 0; i + 4 <= (size_t)n; i++) if ((buf[i] == 'o' || buf[i] == 'O') && !strncasecmp(buf + i, "overflow", 8)) { warned = 1; break; } else if ((buf[i] == 'w' || buf[i] == 'W') && !strncasecmp(buf + i, "warn", 4)) { warned = 1; break; }
}
/* run the abstract transform on the intervals in lo/hi (and plo/phi); results in A */
static void abstract_run(int var, int kind, int n) {
  int i; for (i = 0; i < n; i++) A[i] = ivapi.mk(lo[i], hi[i]);
  vf_fn = AN[var][kind]; vf_inf[0] = n; vf_inf[1] = lo[0]; vf_inf[2] = hi[0]; vf_inf[3] = n > 1 ? hi[1] : 0;
  cap_begin(); pn = n;
  if (var) { for (i = 0; i < n; i++) P[i] = ivapi.mk(plo[i], phi[i]); ivapi.t2[kind](A, n, P); for (i = 0; i < n; i++) { if (P[i]->min != plo[i] || P[i]->max != phi[i]) violation("op=%s n=%d modified its table at %d", vf_fn, n, i); ivapi.del(P[i]); } }
  else { for (i = 0; i < n; i++) P16[i] = plo[i]; ivapi.t1[kind](A, n, P16); }
  cap_end(); pn = 0; if (prounds) stat_add("printed_lists", prounds);
  stat_add("abstract_runs", 1);
}
static void abstract_done(int n) { int i; for (i = 0; i < n; i++) ivapi.del(A[i]); }
/* concrete 64-bit evaluation; sets *ovf when a step leaves the 32-bit range */
static int ovf; static i64 ovv; static int ovl;
static void ST(i64 v, int l) { if ((v < INT32_MIN || v > INT32_MAX) && !ovf) { ovf = 1; ovv = v; ovl = l; } }
static int rchk, rbad_l, rbad_i; static i64 rbad_v;
static void round_in(const net_t *N, int l, const i64 *a) { int i; if (prounds && rbad_l < 0) for (i = 0; i < N->n; i++) if (a[i] < PL[l][i] || a[i] > PH[l][i]) { rbad_l = l; rbad_i = i; rbad_v = a[i]; return; } }
static void conc_run(const net_t *N, const i32 *rt, i64 *a) {
  int l, b, h = N->n / 2; ovf = 0; rbad_l = -1;
  for (l = 0; l <= N->L; l++) { if (rchk) round_in(N, l, a); if (l < N->L) for (b = 0; b < h; b++) {
    i64 *x = a + N->lo[l][b], *y = a + N->hi[l][b], u = *x, v = *y; int k = N->tw[l][b];
    if (N->gs) { i64 d = u - v; ST(d, l); if (k) d = ref_red(d * rt[k]); *x = u + v; *y = d; }
    else { if (k) v = ref_red(v * rt[k]); ST(v, l); *x = u + v; *y = u - v; }
    ST(*x, l); ST(*y, l);
  } }
}
static int enclose(int var, const net_t *N, const i32 *rt, const i64 *in, const char *what) {
  static i64 x[2048]; static i32 y[2048]; static i16 p16[2048]; int i, n = N->n, kind = N->kind;
  memcpy(x, in, n * sizeof *x); rchk = 1; conc_run(N, rt, x); rchk = 0;
  if (rbad_l >= 0) { violation("op=%s n=%d (%s): bounds printed for round %d: a[%d] in [%ld,%ld], but a concrete run has %ld there; concrete input a[0..1]=%ld,%ld", AN[var][kind], n, what, rbad_l, rbad_i, PL[rbad_l][rbad_i], PH[rbad_l][rbad_i], rbad_v, in[0], n > 1 ? in[1] : 0); return 0; }
  if (prounds) stat_add("round_checks", prounds);
  stat_add("concrete_runs", 1);
  for (i = 0; i < n; i++) if (A[i]->min > A[i]->max || x[i] < A[i]->min || x[i] > A[i]->max) { violation("op=%s n=%d (%s): result[%d]=[%ld,%ld] misses the concrete value %ld; concrete input a[0..3]=%ld,%ld,%ld,%ld from intervals [%ld,%ld],[%ld,%ld],..", AN[var][kind], n, what, i, A[i]->min, A[i]->max, x[i], in[0], n > 1 ? in[1] : 0, n > 2 ? in[2] : 0, n > 3 ? in[3] : 0, lo[0], hi[0], lo[1], hi[1]); return 0; }
  if (ovf) { if (!warned) { violation("op=%s n=%d (%s): concrete step reaches %ld in round %d but no warning was printed; input a[0..1]=%ld,%ld", AN[var][kind], n, what, ovv, ovl, in[0], n > 1 ? in[1] : 0); return 0; } stat_add("overflow_warnings", 1); }
  else { int ok = 1; for (i = 0; i < n; i++) { y[i] = (i32)in[i]; p16[i] = rt[i]; if (rt[i] < -32768 || rt[i] > 32767) ok = 0; }
    if (ok) { CF[kind](y, n, p16); for (i = 0; i < n; i++) if (y[i] != x[i]) { /* the library's own run */ if (y[i] < A[i]->min || y[i] > A[i]->max) { violation("op=%s n=%d (%s): result[%d]=[%ld,%ld] misses the library's result %d", AN[var][kind], n, what, i, A[i]->min, A[i]->max, y[i]); return 0; } } stat_add("library_runs", 1); } }
  return 1;
}
static void settab(const i32 *rt, int n, i64 slack) { int i; for (i = 0; i < n; i++) { plo[i] = rt[i] - slack; phi[i] = rt[i] + slack; } }
/* 1. n=2, all subintervals of windows, all points */
static void job2(int j) {
  int kind = j % 8, var = j / 8 % 2, c = j / 16; static const i64 C[] = { 0, 4096, -6144, 21499, -21500, 12288, 1000000, -2000000 };
  static const int W[] = { 0, 1, -1, 4096, -4096, 6144, -6144, 2731, -3331, 17 }; net_t *N = net_make(kind, 2); int a, b, d, e, k, K = 3, x, y; i32 rt[2]; i64 in[2];
  for (k = 0; k < 10; k++) for (a = -K; a <= K; a++) for (b = a; b <= K; b++) for (d = -K; d <= K; d++) for (e = d; e <= K; e++) {
    int sl = var ? (k + a + e) & 1 : 0, z;
    rt[0] = 0; rt[1] = W[k]; settab(rt, 2, sl); lo[0] = C[c] + a; hi[0] = C[c] + b; lo[1] = C[(c + 3) % 8] + d; hi[1] = C[(c + 3) % 8] + e;
    abstract_run(var, kind, 2);
    for (z = -sl; z <= sl; z++) { rt[1] = W[k] + z; for (x = a; x <= b; x++) for (y = d; y <= e; y++) { in[0] = C[c] + x; in[1] = C[(c + 3) % 8] + y; if (!enclose(var, N, rt, in, "n=2")) return; } }
    abstract_done(2);
    if (vf_stop()) return;
  }
  free(N);
}
/* 2. n=4 and 8: every choice of width 0..2 per index, every point */
static void job48(int j) {
  int kind = j % 8, var = j / 8 % 2, blk = j / 16, n = blk & 1 ? 8 : 4, z, i, tot = n == 4 ? 81 : 6561, psi = any_psi(n); net_t *N = net_make(kind, n); i32 rt[8]; i64 in[8];
  ref_table(kind, n, psi, 1, rt);
  for (z = blk / 2; z < tot; z += (n == 4 ? 2 : vf_thorough ? 2 : 34)) {
    int w[8], q = z, pts = 1, m; static const i64 C[] = { -21499, 6143, 0, 4095, -4097, 12287, -2, 20000 };
    for (i = 0; i < n; i++) { w[i] = q % 3; q /= 3; lo[i] = C[(i * 3 + z) & 7]; hi[i] = lo[i] + w[i]; pts *= w[i] + 1; }
    if (var) { settab(rt, n, 0); plo[1 + z % (n - 1)]--; phi[1 + z % (n - 1)]++; } else settab(rt, n, 0);
    abstract_run(var, kind, n);
    for (m = 0; m < pts * (var ? 3 : 1); m++) { int t = m % pts, e = 1 + z % (n - 1), sv = rt[e]; for (i = 0; i < n; i++) { in[i] = lo[i] + t % (w[i] + 1); t /= w[i] + 1; } rt[e] += var ? m / pts - 1 : 0; if (!enclose(var, N, rt, in, "all points")) return; rt[e] = sv; if (n == 8 && !vf_thorough && pts > 300) m += pts / 300; }
    abstract_done(n);
    if (vf_stop()) return;
  }
  free(N);
}
/* 3. real tables, every size: degenerate intervals, one wide index, all wide with extremal points */
static void job_n(int j) {
  int kind = j % 8, var = j / 8 % 2, L = 1 + j / 16, n = 1 << L, i, s, l, rr; net_t *N = net_make(kind, n); i32 rt[2048]; static i64 in[2048]; static double c[2048]; u16 ord[2048];
  for (rr = 0; rr < (vf_thorough ? 4 : 2); rr++) {
    int psi = any_psi(n), k, reps; for (k = 0; k < rr; k++) psi = modp(pw(psi, 3));
    ref_table(kind, n, psi, 1, rt); settab(rt, n, 0);
    reps = n <= 64 ? 40 : n <= 512 ? 6 : 2;
    for (k = 0; k < reps; k++) { /* points */
      u32 g = 12345 + k * 977 + n; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; in[i] = k == 0 ? 0 : k == 1 ? 21499 : k < 2 + (reps - 2) / 2 ? (i == (int)((k * 2654435761u) % n) ? 21499 - k : 0) : (i64)(g >> 8) % 42999 - 21499; lo[i] = hi[i] = in[i]; }
      abstract_run(var, kind, n); if (!enclose(var, N, rt, in, "point intervals")) return; abstract_done(n);
      if (k >= 2) { int w = (k * 40503) % n; lo[w] = -21499; hi[w] = 21499; abstract_run(var, kind, n); for (s = 0; s < 9; s++) { static const i64 V[] = { -21499, -12289, -4096, -1, 0, 1, 4095, 6144, 21499 }; in[w] = V[s]; if (!enclose(var, N, rt, in, "one wide index")) return; } abstract_done(n); }
      if (vf_stop()) return;
    }
    for (k = 0; k < 3; k++) { /* all wide */
      static const i64 LO[] = { -21499, 0, -6144 }, HI[] = { 21499, 12288, 6144 };
      if (n > 512 && !vf_thorough && k != rr) continue;
      for (i = 0; i < n; i++) { lo[i] = LO[k]; hi[i] = HI[k]; }
      abstract_run(var, kind, n);
      for (l = 1; l <= L; l++) { int G = net_groups(N, l, ord), which, per = 1 << l, step = per > 16 && !vf_thorough ? per / 16 : 1; if (l < L && n > 64 && !vf_thorough) continue;
        for (which = 0; which < per; which += step) { net_coef_multi(N, rt, l, ord, G, which, c); for (s = 0; s < 2; s++) { for (i = 0; i < n; i++) in[i] = (c[i] > 0) == (s == 0) ? hi[i] : lo[i]; if (!enclose(var, N, rt, in, "extremal point")) return; } } }
      abstract_done(n);
      if (vf_stop()) return;
    }
    if (n <= 16 && rr == 0) { /* wide inputs, different intervals per index, all corners (n<=8) or Walsh corners */
      int z, tot = n <= 8 ? 1 << n : 64; for (i = 0; i < n; i++) { lo[i] = -100 * (i + 1); hi[i] = 3000 * (n - i) - 17 * i; if (i % 3 == 1) lo[i] = 5 + i; }
      abstract_run(var, kind, n); for (z = 0; z < tot; z++) { for (i = 0; i < n; i++) in[i] = (n <= 8 ? (z >> i) & 1 : __builtin_popcount(z * 5 & (i * 7 + z)) & 1) ? hi[i] : lo[i]; if (!enclose(var, N, rt, in, "corners")) return; } abstract_done(n);
    }
  }
  if (var && n <= 32) { /* twiddles anywhere in [-6144,6144] */
    for (i = 0; i < n; i++) { lo[i] = -21499; hi[i] = 21499; plo[i] = -6144; phi[i] = 6144; }
    abstract_run(1, kind, n);
    for (rr = 0; rr < 20; rr++) { int t = rr; for (i = 0; i < n; i++) { u32 g = (i + 1) * 2654435761u * (rr + 1); rt[i] = rr == 0 ? 6144 : rr == 1 ? -6144 : rr < 6 ? ((i + t) & 1 ? 6144 : -6144) : (i32)((g >> 8) % 12289) - 6144; }
      for (l = 0; l < n; l++) { net_coef(N, rt, L, l, c); for (s = 0; s < 2; s++) { for (i = 0; i < n; i++) in[i] = (c[i] > 0) == (s == 0) ? 21499 : -21499; if (!enclose(1, N, rt, in, "wide twiddles")) return; } } }
    abstract_done(n);
  }
  free(N);
}
/* 4. overflow thresholds: for every node (stored value or difference), the smallest amplitude at which some step overflows */
static int probe(const net_t *N, const i32 *rt, const signed char *sg, i64 amp, i64 *in) { static i64 x[2048]; int i; for (i = 0; i < N->n; i++) { in[i] = sg[i] * amp; x[i] = in[i]; } conc_run(N, rt, x); return ovf; }
static void job_ovf(int j) {
  int kind = j % 8, L = 1 + j / 8, n = 1 << L, l, i, pos, s, diff; net_t *N = net_make(kind, n); i32 rt[2048]; static i64 in[2048]; static double c[2048], c2[2048]; static signed char sg[2048]; int psi = any_psi(n);
  ref_table(kind, n, psi, 1, rt);
  for (l = 1; l <= L; l++) for (diff = 0; diff <= N->gs; diff++) {
    int stepp = n <= 16 || vf_thorough ? 1 : n / 16;
    if (vf_thorough && n > 256) stepp = n / 64;
    for (pos = l % stepp; pos < (diff ? n / 2 : n); pos += stepp) for (s = -1; s <= 1; s += 2) {
      i64 a, b; int var;
      if (diff) { net_coef(N, rt, l - 1, N->lo[l - 1][pos], c); net_coef(N, rt, l - 1, N->hi[l - 1][pos], c2); for (i = 0; i < n; i++) c[i] -= c2[i]; } else net_coef(N, rt, l, pos, c);
      for (i = 0; i < n; i++) sg[i] = c[i] > 0 ? s : c[i] < 0 ? -s : 0;
      if (!probe(N, rt, sg, INT32_MAX, in)) continue;
      a = 0; b = INT32_MAX; while (b - a > 1) { i64 m = (a + b) / 2; if (probe(N, rt, sg, m, in)) b = m; else a = m; }
      for (var = 0; var < 2; var++) {
        settab(rt, n, 0);
        probe(N, rt, sg, b, in); for (i = 0; i < n; i++) lo[i] = hi[i] = in[i];
        abstract_run(var, kind, n); if (!enclose(var, N, rt, in, "overflow threshold")) return; abstract_done(n);
        /* the same amplitude inside wider intervals */
        for (i = 0; i < n; i++) { lo[i] = in[i] < 0 ? in[i] : 0; hi[i] = in[i] > 0 ? in[i] : 0; }
        abstract_run(var, kind, n); if (!enclose(var, N, rt, in, "overflow threshold, wide")) return; abstract_done(n);
        if (n > 128 && (pos ^ l) & 1) break;
      }
      stat_add("thresholds", 1);
      if (vf_stop()) return;
    }
  }
  free(N);
}
/* 4b. one twiddle nonzero: thresholds where only that multiply-reduce can overflow */
static void job_ovf1(int j) {
  int kind = 1 + 2 * (j % 4), n = 1 << (1 + j / 4), e, v, i, s; net_t *N = net_make(kind, n); i32 rt[64]; i64 in[64]; static double c[64]; static signed char sg[64]; int l, pos;
  for (e = 1; e < n; e++) for (v = 0; v < 2; v++) {
    for (i = 0; i < n; i++) rt[i] = 0; rt[e] = v ? -6144 : 6144; settab(rt, n, 0);
    l = N->gs ? N->L - (31 - __builtin_clz(e)) : 1 + (31 - __builtin_clz(e));
    for (pos = 0; pos < n; pos++) for (s = -1; s <= 1; s += 2) { i64 a = 0, b = INT32_MAX; int var;
      net_coef(N, rt, l, pos, c); for (i = 0; i < n; i++) sg[i] = c[i] > 0 ? s : c[i] < 0 ? -s : 0;
      if (!probe(N, rt, sg, b, in)) continue;
      while (b - a > 1) { i64 m = (a + b) / 2; if (probe(N, rt, sg, m, in)) b = m; else a = m; }
      probe(N, rt, sg, b, in); for (i = 0; i < n; i++) lo[i] = hi[i] = in[i];
      for (var = 0; var < 2; var++) { abstract_run(var, kind, n); if (!enclose(var, N, rt, in, "single twiddle threshold")) return; abstract_done(n); }
      stat_add("thresholds", 1); if (vf_stop()) return; } }
  free(N);
}
/* 5. array operations */
static i64 cu(int op, i64 x) { switch (op) { case 0: return modp(x); case 1: return modp((i64)modp(x) * 8193); case 2: return x > 6144 ? x - Q : x; case 3: return ref_red(x); case 4: return ref_red(ref_red(x)); default: return x < 0 ? x + Q : x >= Q ? x - Q : x; } }
static const char *const UN[] = { "abstract_normalize", "abstract_normalize_inv3", "abstract_shift_array", "abstract_reduce_array", "abstract_reduce_array_twice", "abstract_correct" };
typedef void (*cu_t)(i32 *, u32); static const cu_t CU[] = { normalize, normalize_inv3, shift_array, reduce_array, reduce_array_twice, correct };
static int okk(const char *op, int n, int i, i64 v) { if (A[i]->min > A[i]->max || v < A[i]->min || v > A[i]->max) { violation("op=%s n=%d: result[%d]=[%ld,%ld] misses %ld for an input in [%ld,%ld]", op, n, i, A[i]->min, A[i]->max, v, lo[i], hi[i]); return 0; } return 1; }
static void job_arr(int j) {
  int n = j, op, i, f; static const i64 C[] = { 0, 12288, 12289, 6144, 6145, 4096, -4096, -1, -12289, 24577, 24570, 100000, -100000, 2147483647, -2147483648LL, 5000 }; static const int Wd[] = { 0, 1, 2, 7, 40, 300, 4096, 12287, 12288, 12289 };
  static i32 y[64], y2[64], b32[64]; static interval_t *B[64], *X[64]; static i64 blo[64], bhi[64];
  if (n == 0) return;
  for (f = 0; f < (vf_thorough ? 400 : 60); f++) {
    for (op = 0; op < 6; op++) { i64 dl = op == 2 ? 0 : op == 5 ? -12289 : INT32_MIN, dh = op == 2 ? 12288 : op == 5 ? 24577 : INT32_MAX, x, k;
      for (i = 0; i < n; i++) { i64 c = C[(f * 5 + i * 3) % 16], w = Wd[(f + i) % 10]; lo[i] = c - w / 2; hi[i] = c + (w + 1) / 2; if (lo[i] < dl) lo[i] = dl; if (hi[i] > dh) hi[i] = dh; if (lo[i] > dh) lo[i] = dh; if (hi[i] < lo[i]) hi[i] = lo[i]; A[i] = ivapi.mk(lo[i], hi[i]); }
      CASE(UN[op], n, lo[0], hi[0], f); cap_begin(); ivapi.u[op](A, n); cap_end(); stat_add("abstract_runs", 1);
      for (i = 0; i < n; i++) for (x = lo[i]; x <= hi[i]; x++) if (!okk(UN[op], n, i, cu(op, x))) return;
      for (k = 0; k < 3; k++) { for (i = 0; i < n; i++) y[i] = (i32)(k == 0 ? lo[i] : k == 1 ? hi[i] : (lo[i] + hi[i]) / 2); CU[op](y, n); for (i = 0; i < n; i++) if (!okk(UN[op], n, i, y[i])) return; }
      abstract_done(n); stat_add("concrete_runs", n); }
    { /* multiplications */ i64 x, z; int v;
      for (v = 0; v < 3; v++) { i32 sc = (i32[]){ 8193, -6144, 3, 0, 4096, 1, -1, 12288 }[f % 8];
        for (i = 0; i < n; i++) { i64 c = C[(f * 5 + i * 3) % 13], w = Wd[(f + i) % 5]; lo[i] = c - w / 2; hi[i] = c + (w + 1) / 2; A[i] = ivapi.mk(lo[i], hi[i]); P16[i] = (i32)((i * 2477 + f * 911) % 12289) - 6144; if ((i + f) % 7 == 0) P16[i] = (i16[]){ 0, 6144, -6144, 4096, -4096 }[(i + f) / 7 % 5]; c = C[(f * 7 + i) % 13]; w = Wd[(f * 3 + i) % 3]; blo[i] = c; bhi[i] = c + w; }
        CASE(v == 0 ? "abstract_mul_reduce_array16" : v == 1 ? "abstract_scalar_mul_reduce_array" : "abstract_mul_reduce_array", n, lo[0], hi[0], f);
        cap_begin();
        if (v == 0) ivapi.mul16(A, n, P16); else if (v == 1) ivapi.scal(A, n, sc);
        else { for (i = 0; i < n; i++) { X[i] = A[i]; A[i] = 0; B[i] = ivapi.mk(blo[i], bhi[i]); } ivapi.mul(A, n, X, B); for (i = 0; i < n; i++) if (X[i]->min != lo[i] || X[i]->max != hi[i] || B[i]->min != blo[i] || B[i]->max != bhi[i]) violation("op=%s modified an operand", vf_fn); }
        cap_end(); stat_add("abstract_runs", 1);
        for (i = 0; i < n; i++) for (x = lo[i]; x <= hi[i]; x++) { if (v < 2) { if (!okk(vf_fn, n, i, ref_red(x * (v ? sc : P16[i])))) return; } else for (z = blo[i]; z <= bhi[i]; z++) if (!okk(vf_fn, n, i, ref_red(x * z))) return; }
        for (i = 0; i < n; i++) { y[i] = (i32)hi[i]; b32[i] = (i32)bhi[i]; }
        if (v == 0) mul_reduce_array16(y, n, P16); else if (v == 1) scalar_mul_reduce_array(y, n, sc); else { mul_reduce_array(y2, n, y, b32); memcpy(y, y2, sizeof y); }
        for (i = 0; i < n; i++) if (!okk(vf_fn, n, i, y[i])) return;
        if (v == 2) for (i = 0; i < n; i++) { ivapi.del(X[i]); ivapi.del(B[i]); }
        abstract_done(n); stat_add("concrete_runs", n); } }
    if (vf_stop()) return;
  }
  /* abstract_correct refuses inputs outside its domain, at every index */
  for (i = 0; i < n && n <= 5; i++) for (f = 0; f < 4; f++) {
    pid_t p; int st, k; fflush(0); p = fork();
    if (p == 0) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; for (k = 1; k < 32; k++) sigaction(k, &sa, 0); cap_begin(); for (k = 0; k < n; k++) A[k] = k == i ? (f == 0 ? ivapi.mk(-12290, 0) : f == 1 ? ivapi.mk(0, 24578) : f == 2 ? ivapi.mk(-99999, -20000) : ivapi.mk(30000, 30001)) : ivapi.mk(-12289, 24577); ivapi.u[5](A, n); _exit(77); }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 0)) violation("op=abstract_correct n=%d accepts an interval outside [-12289,24577] at index %d (case %d)", n, i, f);
    stat_add("error_cases", 1);
  }
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0; vf_job_limit = vf_thorough ? 1800 : 120;
  sample("%s n=2 on all subintervals of windows of 7 values, all points, twiddle windows", AN[1][5]);
  sample("%s n=1024, point intervals and extremal points of [-21499,21499]", AN[0][6]);
  sample("%s n=16: smallest input amplitude at which the difference of node 3 in round 2 leaves 32 bits must print a warning", AN[0][4]);
  run_jobs("n=2", 8 * 16, job2);
  run_jobs("n=4,8", 64, job48);
  run_jobs("sizes", 16 * 11, job_n);
  run_jobs("thresholds", 8 * (vf_thorough ? 11 : 9), job_ovf);
  run_jobs("single twiddle", 4 * (vf_thorough ? 5 : 4), job_ovf1);
  run_jobs("arrays", 34, job_arr);
  return vf_finish();
}
