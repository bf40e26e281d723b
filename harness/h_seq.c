/* C05: bounded exhaustive exploration of operation sequences on the real routines, next to the exact model.
 * State = (concrete array, exact residue vector); transitions = every operation whose documented input range the concrete
 * array satisfies; invariant: array congruent to the model after every step (canonical too for the default routines). */
#include "net.h"
#include "tables.h"
#undef Q
#include "ntt.h"
#include "ntt_red.h"
#include "ntt_asm.h"
#define Q 12289
enum { O_XF, O_BRV, O_BRT, O_M16, O_PW, O_SQ, O_SC, O_RED, O_RED2, O_COR, O_SHF, O_NRM, O_NRM3 };
typedef struct { const char *name; int op, kind, inverse; arr_fn f; const void *tab; i64 s0, s1; i32 sc; } op_t; /* model of M16: *= s0*s1^i ; SC: *= s0 */
static op_t OPS[64]; static int NOPS;
static int IMPL, N, DEPTH;
static const brt_t *BRT;
static i32 Bop[1024] __attribute__((aligned(64)));   /* second operand of the pointwise product */
static i64 PSI;
static const void *tab_of(const char *nm, int n, int red) { int i; for (i = 0; i < n_main_tabs; i++) if (main_tabs[i].n == n && main_tabs[i].red == red && !strcmp(main_tabs[i].name, nm)) return main_tabs[i].p; return 0; }
static void add(op_t o) { OPS[NOPS++] = o; }
static void setup(int impl, int n) {
  int i, red = impl == IMPL_RED || impl == IMPL_ASM;
  const wrap_t *W = impl == IMPL_NAIVE ? naive_wraps : main_wraps; int nw = impl == IMPL_NAIVE ? n_naive_wraps : n_main_wraps;
  i64 t3 = inv(3), k;
  IMPL = impl; N = n; NOPS = 0; PSI = red ? main_rpsi(n) : main_psi(n);
  for (i = 0; i < 4; i++) if (main_brts[i].n == n) BRT = &main_brts[i];
  for (i = 0; i < nw; i++) if (W[i].n == n && W[i].impl == impl) add((op_t){ W[i].name, O_XF, W[i].kind, W[i].inverse, W[i].f });
  add((op_t){ "bitrev_shuffle", O_BRV }); add((op_t){ "shuffle_with_table", O_BRT });
  add((op_t){ "mul psi_powers", O_M16, .tab = tab_of("psi_powers", n, red), .s0 = 1, .s1 = PSI });
  add((op_t){ "mul inv_psi_powers", O_M16, .tab = tab_of("inv_psi_powers", n, red), .s0 = 1, .s1 = inv(PSI) });
  k = red ? 3 * pw(t3, 8) % Q * inv(n) % Q : inv(n);
  add((op_t){ "mul scaled_inv_psi_powers", O_M16, .tab = tab_of("scaled_inv_psi_powers", n, red), .s0 = k, .s1 = inv(PSI) });
  add((op_t){ "pointwise product", O_PW }); add((op_t){ "square", O_SQ });
  if (red) {
    add((op_t){ "mul scaled_inv_psi_powers_var", O_M16, .tab = tab_of("scaled_inv_psi_powers_var", n, red), .s0 = 3 * pw(t3, 6) % Q * inv(n) % Q, .s1 = inv(PSI) });
    add((op_t){ "scalar rescale8", O_SC, .sc = main_rescale(n, 0), .s0 = 3 * pw(t3, 8) % Q * inv(n) % Q });
    add((op_t){ "scalar rescale6", O_SC, .sc = main_rescale(n, 1), .s0 = 3 * pw(t3, 6) % Q * inv(n) % Q });
    add((op_t){ "reduce", O_RED }); add((op_t){ "reduce twice", O_RED2 }); add((op_t){ "correct", O_COR }); add((op_t){ "shift", O_SHF });
    add((op_t){ "normalize", O_NRM }); add((op_t){ "normalize_inv3", O_NRM3 });
  } else add((op_t){ "scalar inv_n", O_SC, .sc = main_inv_n(n), .s0 = inv(n) });
}
static i64 mx(const i32 *a, i64 *mn) { int i; i32 h = a[0], l = a[0]; for (i = 1; i < N; i++) { if (a[i] > h) h = a[i]; if (a[i] < l) l = a[i]; } *mn = l; return h; }
static int enabled(const op_t *o, i64 lo, i64 hi) {
  i64 m = hi > -lo ? hi : -lo;
  if (IMPL == IMPL_NTT) return 1;
  if (IMPL == IMPL_NAIVE) return m < Q; /* as the naive products use them */
  switch (o->op) {
  case O_XF: return m <= 21499;
  case O_M16: case O_SC: return m <= 715000000; /* times at most 12288: inside the documented product range */
  case O_PW: return m <= 536573;
  case O_SQ: return m <= 2900000;
  case O_COR: return lo >= -Q && hi <= 2 * Q - 1;
  case O_SHF: return lo >= 0 && hi < Q;
  }
  return 1;
}
static void apply(const op_t *o, i32 *a) {
  static i32 t[1024] __attribute__((aligned(64)));
  const naive_api_t *V = &naive_api; int n = N;
  CASE(o->name, n, IMPL, a[0], 0);
  switch (o->op) {
  case O_XF: o->f(a); break;
  case O_BRV: IMPL == IMPL_NAIVE ? V->bitrev_shuffle(a, n) : bitrev_shuffle(a, n); break;
  case O_BRT: IMPL == IMPL_NAIVE ? V->shuffle_with_table(a, BRT->p, BRT->npairs) : shuffle_with_table(a, BRT->p, BRT->npairs); break;
  case O_M16: switch (IMPL) { case IMPL_NTT: mul_array16(a, n, o->tab); break; case IMPL_NAIVE: V->mul_array16(a, n, o->tab, Q); break; case IMPL_RED: mul_reduce_array16(a, n, o->tab); break; default: mul_reduce_array16_asm(a, n, o->tab); } break;
  case O_PW: case O_SQ: { const i32 *b = o->op == O_PW ? Bop : a;
    switch (IMPL) { case IMPL_NTT: mul_array(t, n, a, b); break; case IMPL_NAIVE: V->mul_array(t, n, a, b, Q); break; case IMPL_RED: mul_reduce_array(t, n, a, b); break; default: mul_reduce_array_asm(t, n, a, b); }
    memcpy(a, t, n * 4); break; }
  case O_SC: switch (IMPL) { case IMPL_NTT: scalar_mul_array(a, n, o->sc); break; case IMPL_NAIVE: V->scalar_mul_array(a, n, o->sc, Q); break; case IMPL_RED: scalar_mul_reduce_array(a, n, o->sc); break; default: scalar_mul_reduce_array_asm(a, n, o->sc); } break;
  case O_RED: IMPL == IMPL_ASM ? reduce_array_asm(a, n) : reduce_array(a, n); break;
  case O_RED2: IMPL == IMPL_ASM ? reduce_array_twice_asm(a, n) : reduce_array_twice(a, n); break;
  case O_COR: IMPL == IMPL_ASM ? correct_asm(a, n) : correct(a, n); break;
  case O_SHF: IMPL == IMPL_ASM ? shift_array_asm(a, n) : shift_array(a, n); break;
  case O_NRM: normalize(a, n); break;
  case O_NRM3: normalize_inv3(a, n); break;
  }
}
static void model(const op_t *o, i32 *r) {
  static i32 t[1024]; int i, n = N, L = lg(n), red = IMPL == IMPL_RED || IMPL == IMPL_ASM; i64 x;
  switch (o->op) {
  case O_XF: ref_kind(o->kind, n, o->inverse ? inv(PSI) : PSI, r, t); memcpy(r, t, n * 4); break;
  case O_BRV: case O_BRT: for (i = 0; i < n; i++) t[i] = r[revbits(i, L)]; memcpy(r, t, n * 4); break;
  case O_M16: for (i = 0, x = o->s0; i < n; i++, x = x * o->s1 % Q) r[i] = (i32)(r[i] * x % Q); break;
  case O_PW: for (i = 0; i < n; i++) r[i] = (i32)((i64)r[i] * modp(Bop[i]) % Q * (red ? 3 : 1) % Q); break;
  case O_SQ: for (i = 0; i < n; i++) r[i] = (i32)((i64)r[i] * r[i] % Q * (red ? 3 : 1) % Q); break;
  case O_SC: for (i = 0; i < n; i++) r[i] = (i32)((i64)r[i] * o->s0 % Q); break;
  case O_RED: for (i = 0; i < n; i++) r[i] = 3 * r[i] % Q; break;
  case O_RED2: for (i = 0; i < n; i++) r[i] = 9 * r[i] % Q; break;
  case O_NRM3: for (i = 0; i < n; i++) r[i] = (i32)((i64)r[i] * 8193 % Q); break;
  }
}
/* visited set: array hash -> largest remaining depth explored */
static u64 *VK; static unsigned char *VD; static u32 VM, VU;
static u64 hash(const i32 *a) { u64 h = 1469598103934665603ull; int i; for (i = 0; i < N; i++) { h ^= (u32)a[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h ? h : 1; }
static int visit(const i32 *a, int rem) {
  u64 h = hash(a); u32 k = (u32)(h & VM);
  while (VK[k] && VK[k] != h) k = (k + 1) & VM;
  if (!VK[k]) { if (VU > VM / 4 * 3) return 1; VU++; VK[k] = h; VD[k] = rem; stat_add("states", 1); return 1; }
  if (VD[k] >= rem) return 0;
  VD[k] = rem; return 1;
}
static int path[12]; static i32 init_arr[1024];
static void dfs(const i32 *a, const i32 *r, int d) {
  i32 x[1024] __attribute__((aligned(64))), y[1024]; int k, i; i64 lo, hi = mx(a, &lo);
  if (d == DEPTH) { stat_add("traces", 1); return; }
  for (k = 0; k < NOPS; k++) { const op_t *o = &OPS[k];
    if (!enabled(o, lo, hi)) continue;
    path[d] = k;
    memcpy(x, a, N * 4); memcpy(y, r, N * 4);
    apply(o, x); model(o, y);
    stat_add("transitions", 1);
    for (i = 0; i < N && (IMPL == IMPL_NTT ? x[i] == y[i] : modp(x[i]) == y[i]); i++) ;
    if (i < N) {
      char p[600] = ""; int q; for (q = 0; q <= d; q++) { strcat(p, q ? " ; " : ""); strcat(p, OPS[path[q]].name); }
      violation("impl=%d n=%d sequence: %s -> index %d: got %d (residue %d), exact residue %d; initial array %s", IMPL, N, p, i, x[i], modp(x[i]), y[i], show(init_arr, N));
      if (vf_stop()) return; continue;
    }
    if (visit(x, DEPTH - d - 1)) dfs(x, y, d + 1);
    if (vf_stop()) return;
  }
}
static void mkinit(int which) {
  int i; u32 g = 4242 + N;
  for (i = 0; i < N; i++) { g = g * 1664525 + 1013904223;
    init_arr[i] = which == 0 ? (i32)((g >> 9) % Q) : which == 1 ? (i & 1 ? 12288 : 0) : which == 2 ? (i == 1 ? 1 : 0) : which == 3 ? 12288 : BND[(i * 5) % NBND];
    Bop[i] = (i32)((g >> 13) % Q); }
}
static const int IM[4] = { IMPL_NTT, IMPL_RED, IMPL_ASM, IMPL_NAIVE };
static const int SZ[4] = { 1024, 512, 256, 16 };
#define NINIT 4
static void job(int j) {
  int first = j % 32, init, impl, sz;
  i32 x[1024] __attribute__((aligned(64))), y[1024]; i64 lo, hi; int i;
  j /= 32; impl = IM[j % 4]; j /= 4; sz = SZ[j % 4]; init = j / 4;
  setup(impl, sz);
  if (first >= NOPS) return;
  DEPTH = sz == 16 ? 5 : sz == 256 ? 4 : init == 0 ? 4 : 3;
  if (vf_thorough) DEPTH++;
  mkinit(init);
  { u32 want = vf_thorough ? 1u << 24 : 1u << 20; if (!VK) { VM = want - 1; VK = malloc(8ull * want); VD = malloc(want); } memset(VK, 0, 8ull * (VM + 1)); VU = 0; }
  hi = mx(init_arr, &lo);
  if (!enabled(&OPS[first], lo, hi)) return;
  for (i = 0; i < N; i++) { x[i] = init_arr[i]; y[i] = modp(x[i]); }
  path[0] = first;
  apply(&OPS[first], x); model(&OPS[first], y); stat_add("transitions", 1);
  for (i = 0; i < N && (IMPL == IMPL_NTT ? x[i] == y[i] : modp(x[i]) == y[i]); i++) ;
  if (i < N) { violation("impl=%d n=%d sequence: %s -> index %d: got %d, exact residue %d; initial array %s", IMPL, N, OPS[first].name, i, x[i], y[i], show(init_arr, N)); return; }
  visit(x, DEPTH - 1);
  dfs(x, y, 1);
}
int main(int argc, char **argv) {
  vf_init(argc, argv);
  vf_job_limit = vf_thorough ? 6000 : 400;
  ref_selfcheck();
  { char b[380]; int i, o = 0; setup(IMPL_ASM, 256); for (i = 0; i < NOPS && o < 340; i++) o += snprintf(b + o, 380 - o, "%s, ", OPS[i].name); sample("operations (asm, n=256): %s", b); }
  sample("sequence example: mulntt256_ct_std2rev ; pointwise product ; inttmul256_gs_rev2std ; scalar inv_n");
  run_jobs("sequences", 32 * 4 * 4 * NINIT, job);
  return vf_finish();
}
