/* C08: growth of the lazy-reduction intermediates.
 * Model: per-node integer intervals of every butterfly network with the actual twiddles (all sizes, all roots), and of the
 * product pipelines; every node must fit 32 bits. Conformance: for every node an extremal input is built and run on the real
 * routines (C, C with overflow traps, AVX2); the result must stay congruent to the exact one.
 * argv[2]: plain | trap ; argv[3]: file with tables written by the real generator (kind-name tables, see load_tables) */
#include "net.h"
#include "tables.h"
#define LIM 21499
#define MAXV 2147483647LL
static int trap;
static xform_t X[64]; static int NX; static wrap_t W[256]; static int NW; static prod_t PR[64]; static int NP;
typedef void (*tf)(i32 *, u32, const i16 *);
/* tables from the generator: n psi kind-table-name values */
typedef struct { int n, psi; i16 *t[12]; } gt_t;   /* index: kind 0..7 forward, 8: psi_powers ; inverse ones from the inverse tables */
static gt_t G[64]; static int NG; static i16 *GI[64][12];
static void load_tables(const char *path) {
  FILE *f = fopen(path, "r"); int n, psi, kind, inv_, i, v;
  if (!f) { perror(path); exit(2); }
  while (fscanf(f, "%d %d %d %d", &n, &psi, &kind, &inv_) == 4) {
    int g; for (g = 0; g < NG; g++) if (G[g].n == n && G[g].psi == psi) break;
    if (g == NG) { if (NG == 64) exit(2); G[NG].n = n; G[NG].psi = psi; NG++; }
    i16 *t = aligned_alloc(64, 2 * 2048 + 64);
    for (i = 0; i < n; i++) { if (fscanf(f, "%d", &v) != 1) exit(2); t[i] = v; }
    if (inv_) GI[g][kind] = t; else G[g].t[kind] = t;
  }
  fclose(f);
}
typedef struct { i64 lo, hi; } iv;
static inline iv iv_mulred(iv a, i64 w) { i64 p = a.lo * w, q = a.hi * w; iv r; if (p > q) { i64 t = p; p = q; q = t; } r.lo = -(q >> 12); r.hi = 12285 - (p >> 12);
  if (w == -4096) return a; return r; }
static i64 iv_abs(iv a) { return -a.lo > a.hi ? -a.lo : a.hi; }
/* interval run of a network; returns the largest magnitude */
static i64 iv_net(const net_t *N, const i32 *rt, iv *a) {
  int l, b, h = N->n / 2; i64 m = 0, z;
  for (l = 0; l < N->L; l++) for (b = 0; b < h; b++) {
    iv *x = a + N->lo[l][b], *y = a + N->hi[l][b], u = *x, v = *y; int k = N->tw[l][b];
    if (N->gs) { iv d = { u.lo - v.hi, u.hi - v.lo }; if ((z = iv_abs(d)) > m) m = z; if (k) d = iv_mulred(d, rt[k]); x->lo = u.lo + v.lo; x->hi = u.hi + v.hi; *y = d; }
    else { if (k) v = iv_mulred(v, rt[k]); if ((z = iv_abs(v)) > m) m = z; x->lo = u.lo + v.lo; x->hi = u.hi + v.hi; y->lo = u.lo - v.hi; y->hi = u.hi - v.lo; }
    if ((z = iv_abs(*x)) > m) m = z; if ((z = iv_abs(*y)) > m) m = z;
  }
  stat_add("model_states", (u64)N->L * N->n); stat_add("model_transitions", (u64)N->L * h);
  return m;
}
static i64 worst_psi[12][8], worst_val[12][8];
static vf_shared_t *dummy; static struct { i64 psi, val; } (*WP)[8];
static void model_job(int j) {
  int kind = j & 7, s = (j >> 3), n = 2 << s, p, i; static i32 rt[2048]; static iv a[2048];
  net_t *N = net_make(kind, n);
  for (p = 2; p < Q; p++) { if (!valid_psi(n, p)) continue;
    ref_table(kind, n, p, 1, rt);
    for (i = 0; i < n; i++) { a[i].lo = -LIM; a[i].hi = LIM; }
    i64 m = iv_net(N, rt, a);
    if (m > WP[s][kind].val) { WP[s][kind].val = m; WP[s][kind].psi = p; }
    stat_add("roots_modelled", 1);
  }
  if (WP[s][kind].val > MAXV) violation("model: kind=%s n=%d psi=%d: a node can reach %ld, beyond 32 bits", kind_name[kind], n, (int)WP[s][kind].psi, (long)WP[s][kind].val);
  free(N);
}
/* pipelines of the products, as documented: [shift] [mul psi] forward reduce mulred [reduce twice] inverse mul/scale reduce twice */
static iv iv_red(iv a) { iv r; if ((a.lo >> 12) == (a.hi >> 12)) { r.lo = 3 * (a.lo & 4095) - (a.lo >> 12); r.hi = 3 * (a.hi & 4095) - (a.hi >> 12); } else { r.lo = -(a.hi >> 12); r.hi = 12285 - (a.lo >> 12); } return r; }
static void model_pipe(int j) {
  static iv a[1024], c[1024]; static i32 rt[1024]; int g = j, i, fk, bk, sh, tw; i64 m, z, top = 0;
  int n = G[g].n; if (n > 1024 || n < 16) return;
  for (sh = 0; sh < 2; sh++) for (fk = 0; fk < 3; fk++) for (bk = 0; bk < 3; bk++) for (tw = 0; tw < 2; tw++) {
    static const int FK[3] = { CT_S2R, GS_S2R, MULCT_S2R }, BK[3] = { CT_R2S, GS_R2S, GSMUL_R2S };
    net_t *F = net_make(FK[fk], n), *B = net_make(BK[bk], n);
    for (i = 0; i < n; i++) { a[i].lo = sh ? -6144 : 0; a[i].hi = sh ? 6144 : 12288; if (fk < 2 && G[g].t[8]) a[i] = iv_mulred(a[i], G[g].t[8][i]); }
    for (i = 0; i < n; i++) rt[i] = G[g].t[FK[fk]][i];
    m = iv_net(F, rt, a);
    for (i = 0; i < n; i++) { iv r = iv_red(a[i]); i64 t = iv_abs(r); if (t > m) m = t; i64 zl = r.lo * r.hi, zh = r.lo * r.lo > r.hi * r.hi ? r.lo * r.lo : r.hi * r.hi; if (zl > 0) zl = 0; c[i].lo = -(zh >> 12); c[i].hi = 12285 - (zl >> 12); if (iv_abs(c[i]) > m) m = iv_abs(c[i]); if (tw) c[i] = iv_red(iv_red(c[i])); }
    for (i = 0; i < n; i++) rt[i] = GI[g][BK[bk]][i];
    z = iv_net(B, rt, c); if (z > m) m = z;
    for (i = 0; i < n; i++) { iv w = { -6144, 6144 }; z = iv_abs(c[i]) * 6144 / 4096 + 12286; if (z > m) m = z; }
    if (tw && m > MAXV) violation("model: product pipeline n=%d psi=%d forward %s backward %s can reach %ld", n, G[g].psi, kind_name[FK[fk]], kind_name[BK[bk]], (long)m);
    if (m > top) top = m;
    free(F); free(B);
  }
  sample("model: n=%d psi=%d largest magnitude in any product pipeline %ld", n, G[g].psi, (long)top);
}
/* run real transforms on one input */
static void runx(int kind, int n, i64 psi, const i16 *tab, const i32 *in, const char *what) {
  static i32 a[2048] __attribute__((aligned(64))), want[2048]; int k, i;
  ref_kind(kind, n, psi, in, want);
  for (k = 0; k < NX; k++) { if (X[k].kind != kind || (X[k].impl == IMPL_ASM && n < 16)) continue;
    memcpy(a, in, n * 4);
    CASE(X[k].name, n, psi, in[0], in[n - 1]);
    ((tf)X[k].f)(a, n, tab);
    stat_add("witness_runs", 1);
    for (i = 0; i < n && modp(a[i]) == want[i]; i++) ;
    if (i < n) { violation("op=%s n=%d psi=%d %s index %d: got %d (residue %d), want residue %d; in=%s", X[k].name, n, (int)psi, what, i, a[i], modp(a[i]), want[i], show(in, n)); if (vf_stop()) return; }
  }
}
static void extremal(int kind, int n, i64 psi, const i16 *tab, int part, int parts) {
  static i32 in[2048], rt[2048]; static double cf[2048]; static i64 lz[2048]; static u16 ord[4096]; int l, k, sg, i, c = 0, g;
  net_t *N = net_make(kind, n);
  for (i = 0; i < n; i++) rt[i] = tab[i];
  for (l = 1; l <= N->L; l++) { g = net_groups(N, l, ord);
    for (k = 0; k < 1 << l; k++) {
    if (c++ % parts != part) continue;
    net_coef_multi(N, rt, l, ord, g, k, cf);
    for (sg = -1; sg <= 1; sg += 2) {
      for (i = 0; i < n; i++) in[i] = cf[i] == 0 ? (i & 1 ? LIM : -LIM) : cf[i] * sg > 0 ? LIM : -LIM;
      if (k == 0 && l == N->L && n >= 1024) { for (i = 0; i < n; i++) lz[i] = in[i]; i64 m = net_lazy(N, rt, 0, N->L, lz); sample("witness: %s n=%d psi=%d node 0 sign %d reaches |value| %ld", kind_name[kind], n, (int)psi, sg, (long)m); }
      runx(kind, n, psi, tab, in, "extremal"); stat_add("witnesses", 1); stat_add("nodes_witnessed", g);
      if (vf_stop()) { free(N); return; }
    }
  } }
  free(N);
}
/* transforms: generator tables, both directions */
static void xf_job(int j) {
  int g = j / 128, kind = j / 16 % 8, part = j % 16, n = G[g].n;
  if (G[g].t[kind]) extremal(kind, n, G[g].psi, G[g].t[kind], part, 16);
  if (GI[g][kind]) extremal(kind, n, inv(G[g].psi), GI[g][kind], part, 16);
}
/* worst roots found by the model, documented tables */
static void worst_job(int j) {
  int s = j / 128, kind = j / 16 % 8, part = j % 16, n = 2 << s, i; static i16 tab[2048] __attribute__((aligned(64))); static i32 rt[2048];
  if (!WP[s][kind].psi) return;
  ref_table(kind, n, WP[s][kind].psi, 1, rt); for (i = 0; i < n; i++) tab[i] = rt[i];
  extremal(kind, n, WP[s][kind].psi, tab, part, 16);
}
/* products */
static void exact_prod(int n, i64 psi, const i32 *a, const i32 *b, i32 *c) {
  static i32 x[1024], y[1024]; int i; i64 t = inv(n);
  ref_kind(MULCT_S2R, n, psi, a, x); ref_kind(MULCT_S2R, n, psi, b, y);
  for (i = 0; i < n; i++) x[i] = (i32)((i64)x[i] * y[i] % Q * t % Q);
  ref_kind(GSMUL_R2S, n, inv(psi), x, c);
}
static void runp(int n, i64 psi, const i32 *a, const i32 *b, const char *what) {
  static i32 x[1024] __attribute__((aligned(64))), y[1024] __attribute__((aligned(64))), c[1024] __attribute__((aligned(64))), want[1024]; int k, i;
  exact_prod(n, psi, a, b, want);
  for (k = 0; k < NP; k++) { if (PR[k].n != n) continue;
    memcpy(x, a, n * 4); memcpy(y, b, n * 4); memset(c, 0x3c, n * 4);
    CASE(PR[k].name, n, a[0], b[0], 0);
    PR[k].f(c, x, y); stat_add("witness_runs", 1);
    if (memcmp(c, want, n * 4)) { for (i = 0; c[i] == want[i]; i++) ; violation("op=%s %s index %d: got %d want %d; a=%s b=%s", PR[k].name, what, i, c[i], want[i], show(a, n), show(b, n)); if (vf_stop()) return; }
  }
  stat_add("witnesses", 1);
}
static i32 amax[2][1024], amin[2][1024]; static int am_n;
static const i16 *maintab(const char *nm, int n) { int i; for (i = 0; i < n_main_tabs; i++) if (main_tabs[i].n == n && main_tabs[i].red && !strcmp(main_tabs[i].name, nm)) return main_tabs[i].p; return 0; }
static void prep(int n) { /* operand values giving the extreme of red(w * x), plain and shifted */
  const i16 *w = maintab("psi_powers", n); int i, x, sh;
  if (am_n == n) return; am_n = n;
  for (sh = 0; sh < 2; sh++) for (i = 0; i < n; i++) { i64 h = -1LL << 60, l = 1LL << 60;
    for (x = 0; x < Q; x++) { i64 v = ref_red((i64)w[i] * (sh && x > 6144 ? x - Q : x)); if (v > h) { h = v; amax[sh][i] = x; } if (v < l) { l = v; amin[sh][i] = x; } } }
}
static void prod_job(int j) {
  static const int FK[3] = { CT_S2R, GS_S2R, MULCT_S2R }; static const char *FT[3] = { "omega_powers_rev", "omega_powers", "mixed_powers_rev" };
  static const int BK[3] = { CT_R2S, GS_R2S, GSMUL_R2S }; static const char *BT[3] = { "inv_omega_powers", "inv_omega_powers_rev", "inv_mixed_powers_rev" };
  static const int SZ[4] = { 1024, 512, 256, 16 };
  static i32 a[2][1024], b[1024], rt[1024], t[1024], u[1024]; static double cf[1024];
  int part = j % 64, n = SZ[j / 64], f, sh, pos, sg, i, c = 0; i64 psi = main_rpsi(n);
  prep(n);
  for (f = 0; f < 3; f++) { net_t *N = net_make(FK[f], n); const i16 *tb = maintab(FT[f], n);
    for (i = 0; i < n; i++) rt[i] = tb[i];
    int l, g; static u16 ord[2048];
    for (l = 1; l <= N->L; l++) for (g = net_groups(N, l, ord), sh = 0; sh < 2; sh++) for (pos = 0; pos < 1 << l; pos++) {
      if (c++ % 64 != part) continue;
      net_coef_multi(N, rt, l, ord, g, pos, cf);
      for (sg = 0; sg < 2; sg++) for (i = 0; i < n; i++) { int up = (cf[i] > 0) == sg;
        a[sg][i] = f == 2 ? (sh ? (up ? 6144 : 6145) : (up ? 12288 : 0)) : up ? amax[sh][i] : amin[sh][i]; }
      runp(n, psi, a[0], a[0], "extremal -/-"); runp(n, psi, a[1], a[1], "extremal +/+"); runp(n, psi, a[0], a[1], "extremal -/+");
      if (vf_stop()) return;
    }
    free(N); }
  /* operands steering the transformed values so that each node of the inverse network is extremal */
  for (f = 0; f < 3; f++) { net_t *N = net_make(BK[f], n); const i16 *tb = maintab(BT[f], n); int mode;
    static const int PV[4][4] = { { 12158, 125, 1, 1 }, { 12150, 2000, 12150, 1 }, { 12158, 4095, 12158, 1 }, { 12158, 12158, 12158, 300 } };
    for (i = 0; i < n; i++) rt[i] = tb[i];
    for (pos = 0; pos < n; pos++) {
      if (c++ % 64 != part) continue;
      net_coef(N, rt, N->L, pos, cf);
      for (sg = 0; sg < 2; sg++) for (mode = 0; mode < 4; mode++) {
        if (n == 1024 && !vf_thorough && (mode + pos) % 4 > 1) continue;
        i64 k3 = mode ? inv(3) : inv(243), kb = mode ? inv(3) : 1;
        for (i = 0; i < n; i++) { int up = (cf[i] > 0) == sg; t[i] = (i32)(PV[mode][up ? 0 : 1] * k3 % Q); u[i] = (i32)(PV[mode][up ? 2 : 3] * kb % Q); }
        /* polynomials with these transforms: the inverse transform of t (bit-reversed order) */
        ref_kind(GSMUL_R2S, n, inv(psi), t, a[0]); ref_kind(GSMUL_R2S, n, inv(psi), u, b);
        for (i = 0; i < n; i++) { a[0][i] = (i32)(a[0][i] * inv(n) % Q); b[i] = (i32)(b[i] * inv(n) % Q); }
        runp(n, psi, a[0], b, "inverse side"); if (vf_stop()) return;
      }
    }
    free(N); }
}
int main(int argc, char **argv) {
  int i;
  vf_init(argc, argv); vf_only = 0;
  trap = argc > 2 && !strcmp(argv[2], "trap");
  vf_job_limit = vf_thorough ? 6000 : 400;
  ref_selfcheck();
  load_tables(argv[3]);
  WP = mmap(0, 16 * sizeof *WP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (i = 0; i < n_main_xforms; i++) if (main_xforms[i].impl == IMPL_RED || (!trap && main_xforms[i].impl == IMPL_ASM)) X[NX++] = main_xforms[i];
  for (i = 0; i < n_main_prods; i++) if (main_prods[i].impl == IMPL_RED || (!trap && main_prods[i].impl == IMPL_ASM)) PR[NP++] = main_prods[i];
  if (!trap) {
    run_jobs("model: transforms", 88, model_job);
    run_jobs("model: products", NG, model_pipe);
    for (i = 0; i < 8; i++) sample("model: %s n=2048 worst psi=%d, largest magnitude %ld", kind_name[i], (int)WP[10][i].psi, (long)WP[10][i].val);
  }
  run_jobs("products", 256, prod_job);
  run_jobs("transforms", NG * 128, xf_job);
  if (!trap) run_jobs("worst roots", 11 * 128, worst_job);
  return vf_finish();
}
