/* C19: the copies under verifier/vstte20-benchmarks against the library, and their embedded assertions.
 * bench0: built with -DSAFE; bench1: -DSAFE -DUSE_CRAB_INTRINSICS (the reduction is then supplied here). */
#include "net.h"
#include "tables.h"
#include "routines.h"
#include <setjmp.h>
typedef struct { const char *name; void *f; } fn_t;
extern const fn_t bench0_fns[], bench1_fns[]; extern int (*const bench0_mains[8])(void), (*const bench1_mains[8])(void);
static const char *const HM[8] = { "harness_intt_red1024", "harness_intt_red1024b", "harness_ntt_red1024", "harness_ntt_red1024b", "harness_ntt_red1024c", "harness_ntt_red1024d", "harness_ntt_red1024e", "harness_ntt_red1024f" };
static const int HK[8] = { CT_S2R, CT_R2S, CT_S2R, CT_R2S, CT_S2R, CT_R2S, GS_S2R, GS_R2S }; static const int HINV[8] = { 1, 1, 0, 0, 2, 2, 0, 0 };
static u64 asserts, nred; static int afail; static const i32 *nd; static int ndn, ndi; static int pruned; static jmp_buf jb; static int in_main;
void __CRAB_assert(int c) { asserts++; if (!c) afail++; }
void __CRAB_assume(int c) { if (!c) { pruned = 1; if (in_main) longjmp(jb, 1); } }
int int_nd(void) { return ndi < ndn ? nd[ndi++] : 0; }
i32 __CRAB_intrinsic_red(i64 z) { i64 r = ref_red(z); nred++; if (r != (i32)r) afail++; return (i32)r; }
/* routine pairs */
typedef struct { int r; void *f[2]; } pair_t;
static pair_t PR[128]; static int npr;
static void *find(const fn_t *t, const char *n) { for (; t->name; t++) if (!strcmp(t->name, n)) return t->f; return 0; }
static i32 A[3][4096], B[3][4096], C[3][4096]; static i32 ia[4096], ib[4096], ic[4096]; static u16 tab[4096]; static i32 sc;
static u64 ncmp, nin;
static int cmp1(const pair_t *p, u32 n, const char *what) {
  const rtn_t *r = &RT[p->r]; rtn_t q = *r; int k; u32 i;
  for (k = 0; k < 3; k++) {
    if (k) q.f = p->f[k - 1]; else q.f = r->f;
    memcpy(A[k], ia, 4 * n + 16); memcpy(B[k], ib, 4 * n + 16); memcpy(C[k], ic, 4 * n + 16);
    afail = 0;
    CASE(r->name, n, k, sc, 0);
    rt_call(&q, A[k], n, B[k], C[k], tab, sc);
    if (k && afail) { violation("op=%s n=%u (%s, %s): an embedded assertion of the benchmark copy fails; input %s", r->name, n, k == 1 ? "SAFE" : "SAFE, intrinsic reduction", what, show(ia, n > 64 ? 64 : n)); return 0; }
    if (k && memcmp(A[k], A[0], 4 * n + 16)) { for (i = 0; A[k][i] == A[0][i]; i++) ; violation("op=%s n=%u (%s, %s): benchmark copy stores %d at index %u, library %d; input %s", r->name, n, k == 1 ? "SAFE" : "SAFE, intrinsic reduction", what, A[k][i], i, A[0][i], show(ia, n > 64 ? 64 : n)); return 0; }
    if (k && rt_has_b(r) && (memcmp(B[k], B[0], 4 * n + 16) || memcmp(C[k], C[0], 4 * n + 16))) { violation("op=%s n=%u (%s): benchmark copy leaves different operand arrays", r->name, n, what); return 0; }
    ncmp++;
  }
  nin++;
  return 1;
}
static i32 clampv(const rtn_t *r, i64 x) { return (i32)(x < r->lo ? r->lo : x > r->hi ? r->hi : x); }
static void settab(const rtn_t *r, u32 n, int psi) { static i32 tw[4096]; u32 i; if (r->kind == CT_R2S_V1) { i64 x = 1; for (i = 0; i < n; i++) { tab[i] = (u16)x; x = x * psi % Q; } return; } ref_table(r->kind, n, psi, rt_red(r), tw); for (i = 0; i < n; i++) tab[i] = (u16)(i16)tw[i]; }
static void arrays(const pair_t *p, u32 n, int few) { /* families for a fixed size and table */
  const rtn_t *r = &RT[p->r]; u32 i, k; i64 v[6] = { r->lo, r->hi, 0, 1, -1, (r->lo + r->hi) / 2 };
  for (k = 0; k < 6; k++) { for (i = 0; i < n; i++) ia[i] = clampv(r, v[k]); if (!cmp1(p, n, "constant")) return; }
  for (k = 0; k < (few ? 8u : vf_thorough ? 200u : 40u); k++) { rt_fill(r, ia, n, k + 7); if (!cmp1(p, n, "mixed")) return; }
  for (k = 0; k < n; k += few ? 1 + n / 64 : 1) { int s; for (s = 0; s < 2; s++) { memset(ia, 0, 4 * n); ia[k] = (i32)(s ? r->hi : r->lo ? r->lo : 1); if (!cmp1(p, n, "unit vector")) return; } }
  if (n == 2) { i32 x, y; for (x = 0; x < 25; x++) for (y = 0; y < 25; y++) { ia[0] = BND[x]; ia[1] = BND[y]; if (!cmp1(p, n, "boundary pair")) return; } }
}
static void job(int j) {
  const pair_t *p = &PR[j % npr]; const rtn_t *r = &RT[p->r]; int part = j / npr; u32 n, i, k; i64 x;
  memset(ia, 0, sizeof ia); memset(ib, 0, sizeof ib); memset(ic, 0, sizeof ic);
  switch (r->shape) {
  case SH_U: case SH_S: { /* values in blocks of 1024, then every length */
    if (part == 0) { for (n = 0; n <= 70; n++) { rt_fill(r, ia, n + 4, n); sc = rt_scalar(r, n + 3); if (!cmp1(p, n, "length")) break; } }
    { static const i64 CEN[] = { 0, 12289, -12289, 24577, 4096, -4096, 1 << 16, -(1 << 16), 1 << 24, -(1 << 24), 1 << 30, -(1 << 30), INT32_MAX, INT32_MIN }; int c, m, ns = r->shape == SH_S ? 60 : 1;
      for (m = 0; m < ns; m++) { sc = r->shape == SH_S ? (rt_red(r) ? (m & 1 ? -1 : 1) * (m / 2 < 12 ? BND[m / 2] : (m * 977) % 6145) : m < NBND ? BND[m] : (m * 977) % Q) : 0;
        if (rt_red(r) && sc > 6144) sc = 6144; if (rt_red(r) && sc < -6144) sc = -6144;
        if (r->shape == SH_S && m % 8 != part) continue;
        if (r->hi - r->lo < 100000) { for (x = r->lo + (r->shape == SH_U ? part * 1024 : 0); x <= r->hi; x += r->shape == SH_U ? 8 * 1024 : 1024) { for (i = 0; i < 1024; i++) ia[i] = clampv(r, x + i); if (!cmp1(p, 1024, "all values")) return; } }
        else { for (c = 0; c < 14; c++) for (x = CEN[c] - 65536 + part * 1024; x < CEN[c] + 65536; x += 8 * 1024) { for (i = 0; i < 1024; i++) ia[i] = clampv(r, x + i); if (!cmp1(p, 1024, "values around a boundary")) return; }
          { i64 st = vf_thorough ? 8 * 1024 : 8 * 1024 * 64, s2 = vf_thorough ? 1 : 63; for (x = (i64)INT32_MIN + part * 1024 * (vf_thorough ? 1 : 64); x < INT32_MAX; x += st) { for (i = 0; i < 1024; i++) ia[i] = clampv(r, x + i * s2); if (!cmp1(p, 1024, "sweep")) return; } } } } }
    break; }
  case SH_T: case SH_M: {
    i64 bound = rt_red(r) ? 6144 : 12288, lo2 = rt_red(r) ? -6144 : 0, y;
    if (part == 0) for (n = 0; n <= 70; n++) { rt_fill(r, ia, n, n); rt_fill(r, ib, n, n + 1); rt_fill(r, ic, n, n + 2); rt_table(r, tab, n, n + 5); if (!cmp1(p, n, "length")) return; }
    for (y = lo2 + part; y <= bound; y += vf_thorough ? 8 : 8 * 29) { /* all x for each y */
      for (x = r->lo; x <= r->hi; x += 1024) { for (i = 0; i < 1024; i++) { ia[i] = clampv(r, x + i); tab[i] = (u16)(i16)y; ib[i] = ia[i]; ic[i] = (i32)y; } if (!cmp1(p, 1024, "operand pairs")) return; } }
    for (k = part; k < 2 * NBND; k += 8) { y = k < (u32)NBND ? BND[k] : -BND[k - NBND]; if (y > r->hi || y < r->lo) continue; /* all table values for each boundary x */
      for (x = lo2; x <= bound; x += 1024) { for (i = 0; i < 1024; i++) { i64 w = x + i > bound ? bound : x + i; ia[i] = (i32)y; tab[i] = (u16)(i16)w; ib[i] = (i32)y; ic[i] = (i32)w; } if (!cmp1(p, 1024, "operand pairs")) return; } }
    break; }
  case SH_BR: case SH_PT:
    for (n = 1; n <= 2048; n *= 2) { if (r->shape == SH_PT) rt_table(r, tab, n, 0); for (i = 0; i < n; i++) ia[i] = (i32)i; if (!cmp1(p, n, "indices")) return; }
    break;
  case SH_X: /* part: one of 8 choices of the root */
    for (n = 2; n <= 2048; n *= 2) { int c = 0, psi, want = part < 4 ? part : (int)(n - 1) * (part - 3) / 4 ; for (psi = 2; psi < Q; psi++) if (valid_psi(n, psi) && c++ == want) break; if (psi >= Q) continue;
      settab(r, n, psi); arrays(p, n, part != 0 || n > 256); if (vf_stop()) return;
      if (rt_red(r) && n >= 256 && (part == 0 || vf_thorough)) { net_t *N = net_make(r->kind, n); static i32 rt[4096]; static double c2[4096]; u32 pos; ref_table(r->kind, n, psi, 1, rt);
        for (pos = 0; pos < n; pos += vf_thorough ? 1 : n / 64 + (pos & 1)) { int s; net_coef(N, rt, N->L, pos, c2); for (s = 0; s < 2; s++) { for (i = 0; i < n; i++) ia[i] = (c2[i] > 0) == s ? (i32)r->hi : (i32)r->lo; if (!cmp1(p, n, "extremal")) return; } }
        free(N); } }
    break;
  case SH_W: case SH_PROD:
    if (part) return;
    if (r->shape == SH_W) { arrays(p, 1024, 0); return; }
    { i32 v[6] = { 0, 1, 6144, 6145, 12287, 12288 }; int a, b; for (a = 0; a < 6; a++) for (b = 0; b < 6; b++) { for (i = 0; i < 1024; i++) { ib[i] = v[a]; ic[i] = v[b]; } if (!cmp1(p, 1024, "constant operands")) return; }
      for (k = 0; k < (vf_thorough ? 2000u : 200u); k++) { rt_fill(r, ib, 1024, k); rt_fill(r, ic, 1024, k + 1000); if (!cmp1(p, 1024, "mixed operands")) return; }
      for (k = 0; k < 1024; k++) { memset(ib, 0, 4096); ib[k] = 12288; rt_fill(r, ic, 1024, k); if (!cmp1(p, 1024, "unit operand")) return; } }
    break;
  }
}
static void jobw(int j) { job(j); stat_add("comparisons", ncmp); stat_add("inputs", nin); stat_add("assertions_checked", asserts); ncmp = nin = asserts = 0; }
/* ---- the harness programs ---- */
static int run_main(int v, int h, const i32 *in, int n) {
  int r = 0; nd = in; ndn = n; ndi = 0; pruned = 0; afail = 0; in_main = 1;
  CASE(HM[h], v, in[0], in[n / 2], 0);
  if (!setjmp(jb)) r = (v ? bench1_mains : bench0_mains)[h]();
  in_main = 0; stat_add("harness_runs", 1);
  if (pruned) { stat_add("harness_runs_outside_assumptions", 1); return 1; }
  if (ndi != n) violation("op=%s: reads %d unconstrained inputs, expected %d", HM[h], ndi, n);
  if (r) violation("op=%s: exit status %d", HM[h], r);
  if (afail) { violation("op=%s (%s): assertion fails under the harness's own assumptions; a = %s", HM[h], v ? "intrinsic reduction" : "SAFE", show(in, 64)); return -1; }
  return 0;
}
static i32 CAND[300]; static int nc;
static void job_main(int j) {
  int h = j / 2, v = j % 2, n = HINV[h] == 2 ? 2048 : 1024, i, k; static i32 in[2048]; i32 lo[2] = { 0, 0 }, hi[2] = { 0, 0 }; net_t *N; static i32 rt[2048]; static double c[2048]; int ok = 0;
  if (!nc) { for (k = 0; k < 31; k++) { CAND[nc++] = (1u << k) - 1; CAND[nc++] = -(i32)((1u << k) - 1); CAND[nc++] = -(i32)(1u << k); CAND[nc++] = 1 << k; } for (k = 0; k < NBND; k++) { CAND[nc++] = BND[k]; CAND[nc++] = -BND[k]; } CAND[nc++] = INT32_MAX; CAND[nc++] = INT32_MIN; CAND[nc++] = 21499; CAND[nc++] = 12289; CAND[nc++] = 24577; }
  /* the values the assumptions admit */
  for (k = 0; k < n; k += 1024) for (i = 0; i < nc; i++) { memset(in, 0, sizeof in); in[k] = CAND[i]; if (k && CAND[i] != (i16)CAND[i]) continue; if (run_main(v, h, in, n) == 0) { if (CAND[i] < lo[k / 1024]) lo[k / 1024] = CAND[i]; if (CAND[i] > hi[k / 1024]) hi[k / 1024] = CAND[i]; ok++; } }
  if (!ok) violation("op=%s: no input satisfies the assumptions", HM[h]);
  sample("%s admits a in [%d,%d]%s", HM[h], lo[0], hi[0], n > 1024 ? " and p in a range" : "");
  N = net_make(HK[h], 1024);
  { int psi = main_psi(1024); if (HINV[h] == 1) psi = (int)inv(psi); ref_table(HK[h], 1024, psi, 1, rt); }
  for (k = 0; k < (n > 1024 ? 8 : 1); k++) { int l, pos, s;
    if (n > 1024) for (i = 0; i < 1024; i++) rt[i] = in[1024 + i] = k == 0 ? lo[1] : k == 1 ? hi[1] : k == 2 ? 0 : k == 3 ? (i & 1 ? lo[1] : hi[1]) : k == 4 ? (i & 2 ? lo[1] : hi[1]) : k == 5 ? 1 : k == 6 ? -1 : (i * 37 % (hi[1] - lo[1] + 1)) + lo[1];
    for (s = 0; s < 4; s++) { for (i = 0; i < 1024; i++) in[i] = s == 0 ? lo[0] : s == 1 ? hi[0] : s == 2 ? (i & 1 ? lo[0] : hi[0]) : (i & 512 ? lo[0] : hi[0]); if (run_main(v, h, in, n) < 0) return; }
    for (l = 0; l < 2; l++) for (pos = 0; pos < 1024; pos += vf_thorough ? 1 : 3) { net_coef(N, rt, 10 - l, pos, c); for (s = 0; s < 2; s++) { for (i = 0; i < 1024; i++) in[i] = (c[i] > 0) == s ? hi[0] : lo[0]; if (run_main(v, h, in, n) < 0) return; } }
  }
  stat_add("assertions_checked", asserts); asserts = 0;
}
int main(int argc, char **argv) {
  int i; vf_init(argc, argv); vf_only = 0; rt_init();
  for (i = 0; i < NRT; i++) { const rtn_t *r = &RT[i]; void *f0, *f1; if (r->impl != IMPL_NTT && r->impl != IMPL_RED) continue; if ((r->shape == SH_W || r->shape == SH_PROD) && (r->impl != IMPL_RED || r->fixed != 1024)) continue;
    f0 = find(bench0_fns, r->name); f1 = find(bench1_fns, r->name); if (!f0 || !f1) { fprintf(stderr, "no benchmark copy of %s\n", r->name); return 2; } PR[npr].r = i; PR[npr].f[0] = f0; PR[npr].f[1] = f1; npr++; }
  sample("%d routines of the benchmark copy compared with the library, two build configurations", npr);
  stat_add("routines", npr);
  run_jobs("routines", npr * 8, jobw);
  run_jobs("harness programs", 16, job_main);
  return vf_finish();
}
