/* C13: bound functions of red_bounds.c against brute force. argv[2]: full | sub (assert-enabled build, smaller set) */
#include "net.h"
#undef Q
#include "red_bounds.h"
#undef Q
#define Q 12289
typedef i64 (*f1_t)(i64, i64, i64 *);
static int sub;
static inline i64 R(i64 w, i64 x) { return ref_red(w * x); }
/* exact extremum of red(w x) over [a,b]: red(w (x+4096)) = red(w x) - w, so 4096 consecutive x decide */
static i64 ex(int max, i64 w, i64 a, i64 b) {
  i64 x, lo = a, hi = b, best;
  if (b - a > 4096) { if ((w >= 0) == (max != 0)) hi = a + 4096; else lo = b - 4096; }
  best = R(w, lo);
  for (x = lo + 1; x <= hi; x++) { i64 v = R(w, x); if (max ? v > best : v < best) best = v; }
  return best;
}
static void chk_mul(i64 w, i64 a, i64 b, i64 mx, i64 mn) {
  i64 m = a - 7, r;
  CASE("max_red_mul", a, b, w, 0);
  r = max_red_mul(a, b, w, &m);
  if (r != mx || m < a || m > b || R(w, m) != mx) violation("op=max_red_mul a=%ld b=%ld w=%ld: returned %ld at x=%ld (red there is %ld), true maximum %ld", a, b, w, r, m, R(w, m), mx);
  m = a - 7;
  CASE("min_red_mul", a, b, w, 0);
  r = min_red_mul(a, b, w, &m);
  if (r != mn || m < a || m > b || R(w, m) != mn) violation("op=min_red_mul a=%ld b=%ld w=%ld: returned %ld at x=%ld (red there is %ld), true minimum %ld", a, b, w, r, m, R(w, m), mn);
}
static void chk_red(i64 a, i64 b, i64 mx, i64 mn) {
  i64 m = a ^ 1, r;
  CASE("max_red", a, b, 0, 0);
  r = max_red(a, b, &m);
  if (r != mx || m < a || m > b || ref_red(m) != mx) violation("op=max_red a=%ld b=%ld: returned %ld at x=%ld, true maximum %ld", a, b, r, m, mx);
  CASE("min_red", a, b, 0, 0);
  r = min_red(a, b, &m);
  if (r != mn || m < a || m > b || ref_red(m) != mn) violation("op=min_red a=%ld b=%ld: returned %ld at x=%ld, true minimum %ld", a, b, r, m, mn);
  stat_add("intervals", 1);
}
static void chk_int(i64 a, i64 b, i64 lo, i64 hi, i64 mx, i64 mn) {
  i64 m = a - 3, w = lo - 3, r;
  CASE("max_red_mul_interval", a, b, lo, hi);
  r = max_red_mul_interval(a, b, lo, hi, &m, &w);
  if (r != mx || m < a || m > b || w < lo || w > hi || R(w, m) != mx) violation("op=max_red_mul_interval x in [%ld,%ld] w in [%ld,%ld]: returned %ld at x=%ld w=%ld, true maximum %ld", a, b, lo, hi, r, m, w, mx);
  m = a - 3; w = lo - 3;
  CASE("min_red_mul_interval", a, b, lo, hi);
  r = min_red_mul_interval(a, b, lo, hi, &m, &w);
  if (r != mn || m < a || m > b || w < lo || w > hi || R(w, m) != mn) violation("op=min_red_mul_interval x in [%ld,%ld] w in [%ld,%ld]: returned %ld at x=%ld w=%ld, true minimum %ld", a, b, lo, hi, r, m, w, mn);
  stat_add("intervals", 1);
}
/* --- multipliers --- */
static i64 W[20000]; static int NW;
static void mkw(void) {
  int k; i64 i; static const int C[] = { 0, 2048, 4096, 6144, 8192, 12288, 16384, 65536, 1 << 20 };
  for (k = 0; k < 9; k++) for (i = -(k ? 3 : 40); i <= (k ? 3 : 40); i++) { W[NW++] = C[k] + i; if (k) W[NW++] = -(C[k] + i); }
  for (k = 3; k < 15; k++) for (i = 1; i < 8; i += 2) { W[NW++] = i << k; W[NW++] = -(i << k); W[NW++] = (i << k) + 1; W[NW++] = -(i << k) - 1; }
  for (k = 31; k <= 40; k += 3) for (i = -1; i <= 1; i++) { W[NW++] = (1LL << k) + i; W[NW++] = -(1LL << k) + i; W[NW++] = 3 * (1LL << k) + i * 4096; }
  if (vf_thorough && !sub) for (i = -6144; i <= 6144; i++) W[NW++] = i;
}
static const i64 CEN[] = { 0, -30, 30, 4096, -4096, 2048, -2048, 1365, -1365, 6144, -6144, 12289, -12289, 21499, -21499, 40960, -40960, 1 << 20, -(1 << 20), 2147483647, -2147483648LL, 1LL << 40, -(1LL << 40) };
#define NCEN ((int)(sizeof CEN / sizeof CEN[0]))
static void job_win(int j) { /* all subintervals of a window around each centre */
  int c, H = vf_thorough && !sub ? 34 : 17; i64 w = W[j];
  for (c = 0; c < (sub ? 7 : NCEN); c++) {
    i64 a, b, lo = CEN[c] - H, hi = CEN[c] + H;
    if (labs(w) > 1 << 30 && labs(CEN[c]) > 1 << 20) continue; /* the products have to fit */
    for (a = lo; a <= hi; a++) { i64 mx = R(w, a), mn = mx; for (b = a; b <= hi; b++) { i64 v = R(w, b); if (v > mx) mx = v; if (v < mn) mn = v; chk_mul(w, a, b, mx, mn); } if (vf_stop()) return; }
    stat_add("intervals", (u64)(2 * H + 1) * (H + 1));
  }
}
static const i64 WIDE[] = { 1, 100, 682, 1365, 2047, 4095, 4096, 4097, 8191, 8192, 12288, 12289, 21499, 40000, 65535, 1 << 20, 3000000, 2147483647, 1LL << 40 };
#define NWIDE ((int)(sizeof WIDE / sizeof WIDE[0]))
static void job_wide(int j) { /* wide intervals: every pair of end points of the list, all signs */
  i64 w0 = -6144 + 64 * (i64)j, w;
  for (w = w0; w < w0 + 64 && w <= 6144; w++) {
    int p, q, sp, sq;
    if (!vf_thorough && (w % 3) && labs(w) > 64 && (w & 63)) continue;
    if (sub && (w % 31)) continue;
    for (p = -1; p < NWIDE; p++) for (sp = -1; sp <= 1; sp += 2) for (q = -1; q < NWIDE; q++) for (sq = -1; sq <= 1; sq += 2) {
      i64 a = p < 0 ? 0 : sp * WIDE[p], b = q < 0 ? 0 : sq * WIDE[q];
      if ((p < 0 && sp > 0) || (q < 0 && sq > 0) || a > b) continue;
      if (!vf_thorough && !(p == q && sp != sq) && ((p + q * 7 + w) % 11)) continue; /* symmetric ones always */
      chk_mul(w, a, b, ex(1, w, a, b), ex(0, w, a, b));
      stat_add("intervals", 1);
      if (vf_stop()) return;
    }
  }
}
static void job_red(int j) { /* max_red / min_red */
  i64 a, b; int c;
  if (j < NCEN) { i64 lo = CEN[j] - 300, hi = CEN[j] + 300; for (a = lo; a <= hi; a++) { i64 mx = ref_red(a), mn = mx; for (b = a; b <= hi; b++) { i64 v = ref_red(b); if (v > mx) mx = v; if (v < mn) mn = v; chk_red(a, b, mx, mn); } if (vf_stop()) return; } return; }
  if (j == NCEN) { /* wide ones, including the ends of the 64-bit range: 4096 consecutive values decide */
    static i64 E[200]; int ne = 0, p, q;
    for (c = 0; c < NWIDE; c++) { E[ne++] = WIDE[c]; E[ne++] = -WIDE[c]; E[ne++] = WIDE[c] * 4096; E[ne++] = -WIDE[c] * 4096; }
    for (c = 0; c < 3; c++) { E[ne++] = INT64_MAX - c; E[ne++] = INT64_MIN + c; E[ne++] = INT64_MAX - 4095 + c - 1; E[ne++] = INT64_MIN + 4096 + c - 1; E[ne++] = c - 1; }
    for (p = 0; p < ne; p++) for (q = 0; q < ne; q++) if (E[p] <= E[q]) {
      i64 x, mx, mn; u64 k, len = (u64)E[q] - (u64)E[p], l2 = len < 4096 ? len : 4096;
      mx = ref_red(E[p]); for (k = 0; k <= l2; k++) { i64 v = ref_red(E[p] + (i64)k); if (v > mx) mx = v; }
      mn = ref_red(E[q]); for (k = 0; k <= l2; k++) { i64 v = ref_red(E[q] - (i64)k); if (v < mn) mn = v; }
      (void)x; chk_red(E[p], E[q], mx, mn);
    }
  }
}
/* intervals of multipliers: all pairs of subintervals of small windows */
static const i64 WC[] = { 0, 5, -5, 4, -4, 6140, -6140, 4096, -4096, 2048, -2048, 683, -1365 };
#define NWC ((int)(sizeof WC / sizeof WC[0]))
static void job_int(int j) {
  int cx = j / NWC, cw = j % NWC, HX = vf_thorough ? 12 : 8, HW = vf_thorough ? 7 : 5, i, k, l, m; i64 M[40][20];
  if (cx >= NCEN) return;
  if (sub && (j % 5)) return;
  for (i = 0; i <= 2 * HX; i++) for (k = 0; k <= 2 * HW; k++) M[i][k] = R(WC[cw] - HW + k, CEN[cx] - HX + i);
  for (i = 0; i <= 2 * HX; i++) for (k = 0; k <= 2 * HW; k++) {
    i64 cmx[40], cmn[40];
    for (m = k; m <= 2 * HW; m++) { /* [k..m] of w */
      i64 mx = INT64_MIN, mn = INT64_MAX;
      for (l = i; l <= 2 * HX; l++) { i64 v = M[l][m]; if (m == k || v > cmx[l]) cmx[l] = v; if (m == k || v < cmn[l]) cmn[l] = v; if (cmx[l] > mx) mx = cmx[l]; if (cmn[l] < mn) mn = cmn[l];
        chk_int(CEN[cx] - HX + i, CEN[cx] - HX + l, WC[cw] - HW + k, WC[cw] - HW + m, mx, mn); }
      if (vf_stop()) return;
    }
  }
}
static const struct { i64 a, b, l, h; } BIG[] = { { -21499, 21499, -6144, 6144 }, { 0, 12288, 0, 12288 }, { -6144, 6144, -6144, 6144 }, { 0, 12288, -6144, 6144 }, { -9216, 21499, -6144, 6144 }, { 100, 21499, -6144, -1 }, { -21499, -3, 1, 6144 },
  { -12288, 0, 0, 12288 }, { -1, 1, -6144, 6144 }, { 0, 1, -6144, 6144 }, { -1000000, 7, -4096, 4096 }, { -7, 1000000, -4096, 4096 }, { -130, 12413, -130, 12413 }, { 4095, 4097, -6144, 6144 }, { -536573, 524287, -64, 64 }, { 1, 1, -12288, 12288 } };
static void job_big(int j) {
  i64 w, mx = INT64_MIN, mn = INT64_MAX;
  if (sub && j > 3) return;
  for (w = BIG[j].l; w <= BIG[j].h; w++) { i64 v = ex(1, w, BIG[j].a, BIG[j].b); if (v > mx) mx = v; v = ex(0, w, BIG[j].a, BIG[j].b); if (v < mn) mn = v; }
  chk_int(BIG[j].a, BIG[j].b, BIG[j].l, BIG[j].h, mx, mn);
}
/* step bounds */
static i64 mabs(i64 mx, i64 mn) { return mx > -mn ? mx : -mn; }
static void need(const char *op, i64 b, i64 lo, i64 hi, i64 got, i64 want) {
  stat_add("step_bounds", 1);
  if (got < want) violation("op=%s b=%ld w in [%ld,%ld]: bound %ld but a butterfly reaches %ld", op, b, lo, hi, got, want);
}
static const i64 BV[] = { 0, 1, 2, 3, 7, 63, 511, 1365, 2048, 4095, 4096, 6144, 12288, 12289, 21499, 43000, 100000, 1 << 20, 5000000 };
#define NBV ((int)(sizeof BV / sizeof BV[0]))
static void job_step(int j) { /* fixed w: every w of the block, every b of the list */
  i64 w0 = -6144 + 64 * (i64)j, w; int i;
  for (w = w0; w < w0 + 64 && w <= 6144; w++) for (i = 0; i < NBV; i++) {
    i64 b = BV[i];
    if (!vf_thorough && (w + i) % 4 && labs(w) > 8) continue;
    if (sub && w % 17) continue;
    CASE("ct_bound_fixed", b, w, 0, 0);
    need("ct_bound_fixed", b, w, w, ct_bound_fixed(b, w), b + mabs(ex(1, w, -b, b), ex(0, w, -b, b)));
    CASE("gs_bound_fixed", b, w, 0, 0);
    { i64 t = mabs(ex(1, w, -2 * b, 2 * b), ex(0, w, -2 * b, 2 * b)); need("gs_bound_fixed", b, w, w, gs_bound_fixed(b, w), t > 2 * b ? t : 2 * b); }
    if (vf_stop()) return;
  }
}
static void job_stepi(int j) { /* intervals of w: all subintervals of small windows, plus the full range */
  int c = j / NBV, i = j % NBV; i64 b = BV[i], lo, hi, H = 4;
  if (c < NWC) {
    for (lo = WC[c] - H; lo <= WC[c] + H; lo++) { i64 ct = 0, gs = 2 * b; for (hi = lo; hi <= WC[c] + H; hi++) {
      i64 t = b + mabs(ex(1, hi, -b, b), ex(0, hi, -b, b)); if (t > ct || hi == lo) ct = t;
      t = mabs(ex(1, hi, -2 * b, 2 * b), ex(0, hi, -2 * b, 2 * b)); if (t > gs) gs = t;
      CASE("ct_bound", b, lo, hi, 0); need("ct_bound", b, lo, hi, ct_bound(b, lo, hi), ct);
      CASE("gs_bound", b, lo, hi, 0); need("gs_bound", b, lo, hi, gs_bound(b, lo, hi), gs);
    } if (vf_stop()) return; }
  } else if (c == NWC && i >= 3) {
    i64 w, ct = 0, gs = 2 * b; lo = -6144; hi = 6144; if (i & 1) { lo = 0; hi = 12288; } if (sub) return;
    for (w = lo; w <= hi; w++) { i64 t = b + mabs(ex(1, w, -b, b), ex(0, w, -b, b)); if (t > ct) ct = t; t = mabs(ex(1, w, -2 * b, 2 * b), ex(0, w, -2 * b, 2 * b)); if (t > gs) gs = t; }
    CASE("ct_bound", b, lo, hi, 0); need("ct_bound", b, lo, hi, ct_bound(b, lo, hi), ct);
    CASE("gs_bound", b, lo, hi, 0); need("gs_bound", b, lo, hi, gs_bound(b, lo, hi), gs);
  }
}
/* whole-transform bounds against concrete lazy runs */
static i64 bd[16]; static i16 P[2048];
static int run_bounds(int gs, i64 b0, int n, const char *what) {
  int L = lg(n), k; i64 r;
  for (k = 0; k < 16; k++) bd[k] = -0x5a5a5a5a5a5a5aLL;
  CASE(gs ? "ntt_gs_bounds" : "ntt_ct_bounds", b0, n, 0, 0);
  r = gs ? ntt_gs_bounds(b0, n, P, bd) : ntt_ct_bounds(b0, n, P, bd);
  for (k = L + 1; k < 16; k++) if (bd[k] != -0x5a5a5a5a5a5a5aLL) { violation("op=%s n=%d: writes bound[%d], past the documented log2(n)+1 entries", vf_fn, n, k); return 0; }
  if (r != bd[L]) { violation("op=%s n=%d b0=%ld %s: returns %ld but bound[%d] is %ld", vf_fn, n, b0, what, r, L, bd[L]); return 0; }
  if (bd[0] < b0) { violation("op=%s n=%d b0=%ld: bound[0]=%ld", vf_fn, n, b0, bd[0]); return 0; }
  stat_add("transform_bounds", 1);
  return 1;
}
static int conc(const net_t *N, const i32 *rt, const i64 *in, const char *what, i64 b0) {
  static i64 x[2048]; int l, i, n = N->n;
  memcpy(x, in, n * sizeof(i64));
  for (l = 0; l < N->L; l++) {
    net_lazy(N, rt, l, l + 1, x);
    for (i = 0; i < n; i++) if (x[i] > bd[l + 1] || -x[i] > bd[l + 1]) { violation("op=%s n=%d kind=%s b0=%ld %s: bound[%d]=%ld but a concrete run reaches %ld at index %d", N->gs ? "ntt_gs_bounds" : "ntt_ct_bounds", n, kind_name[N->kind], b0, what, l + 1, bd[l + 1], x[i], i); return 0; }
  }
  stat_add("concrete_runs", 1);
  return 1;
}
static void job_tr(int j) { /* real tables: kind x size, two roots, extremal inputs of every level */
  int kind = j % 8, L = 1 + j / 8, n = 1 << L, rr, i, l; net_t *N; i32 rt[2048]; static double c[2048]; static i64 in[2048];
  static const i64 B0[] = { 21499, 6144, 12288, 1, 0 };
  if (sub && n > 256) return;
  N = net_make(kind, n);
  for (rr = 0; rr < (vf_thorough ? 8 : 2); rr++) {
    int psi = any_psi(n), k, bi; static char what[64];
    k = rr; while (k) { psi = modp(pw(psi, 3)); k--; }
    if (!valid_psi(n, psi)) { fprintf(stderr, "bad psi\n"); exit(2); }
    ref_table(kind, n, psi, 1, rt);
    for (i = 0; i < n; i++) P[i] = rt[i];
    for (bi = 0; bi < 5; bi++) {
      u16 ord[2048]; i64 b0 = B0[bi];
      snprintf(what, 64, "psi=%d", psi);
      if (!run_bounds(N->gs, b0, n, what)) return;
      for (l = 1; l <= L; l++) {
        int G = net_groups(N, l, ord), which, per = 1 << l, step = per > 32 && !vf_thorough ? per / 32 : 1;
        for (which = 0; which < per; which += step) {
          int w2 = step > 1 ? which + (which * 7 / step) % step : which, s;
          net_coef_multi(N, rt, l, ord, G, w2, c);
          for (s = -1; s <= 1; s += 2) { for (i = 0; i < n; i++) in[i] = c[i] > 0 ? s * b0 : c[i] < 0 ? -s * b0 : s * b0; if (!conc(N, rt, in, what, b0)) return; }
        }
      }
    }
  }
  free(N);
}
static void job_syn(int j) { /* synthetic tables: one entry large, others zero; n=2,4 all inputs; n up to 64 all sign patterns of a few inputs */
  int kind = 1 + 2 * (j % 4), k = j / 4; net_t *N; i32 rt[2048]; static i64 in[2048]; int i, n, t;
  static const int WV[] = { 6144, -6144, 4095, -4096, 1, -1, 0, 12288, -32768, 32767, 2048, -2049 };
  if (k == 0) { /* n=2: every |a|<=b0, every w */
    int w; N = net_make(kind, 2);
    for (w = -6144; w <= 6144; w += (vf_thorough && !sub ? 1 : 7)) { static const int bs[] = { 0, 1, 5, 23 }; int bi; rt[0] = 0; rt[1] = w; P[0] = 0; P[1] = w;
      for (bi = 0; bi < 4; bi++) { int b = bs[bi], x, y; if (!run_bounds(N->gs, b, 2, "synthetic")) return; for (x = -b; x <= b; x++) for (y = -b; y <= b; y++) { in[0] = x; in[1] = y; if (!conc(N, rt, in, "synthetic", b)) return; } } }
    return;
  }
  if (k == 1) { /* n=4: all tables over WV, all inputs |a|<=b0 with b0 = 2, corners for larger ones */
    int tt, z; static const i64 bs[] = { 2, 100, 21499, 3000000 }; N = net_make(kind, 4);
    for (tt = 0; tt < 12 * 12 * 12; tt++) { int bi; P[0] = rt[0] = 0; P[1] = rt[1] = WV[tt % 12]; P[2] = rt[2] = WV[tt / 12 % 12]; P[3] = rt[3] = WV[tt / 144];
      if (sub && tt % 7) continue;
      for (bi = 0; bi < 4; bi++) { i64 b = bs[bi]; if (!run_bounds(N->gs, b, 4, "synthetic")) return; for (z = 0; z < 625; z++) { int q = z; for (i = 0; i < 4; i++) { static const int S[] = { -2, 2, -1, 0, 1 }; int s = S[q % 5]; in[i] = s == 2 ? b : s == -2 ? -b : s == 0 ? 0 : s > 0 ? b / 2 : -(b / 2); q /= 5; } if (!conc(N, rt, in, "synthetic", b)) return; } } }
    return;
  }
  n = 1 << (k + 1); /* 8.. */
  N = net_make(kind, n);
  for (t = 1; t < n; t++) { int v; for (v = 0; v < 4; v++) { int s, l; static double c[2048]; u16 ord[2048]; static const i64 bs[] = { 1000, 21499 }; int bi;
    for (i = 0; i < n; i++) P[i] = rt[i] = 0;
    P[t] = rt[t] = WV[v];
    for (bi = 0; bi < 2; bi++) { if (!run_bounds(N->gs, bs[bi], n, "single nonzero twiddle")) return;
    for (l = 1; l <= N->L; l++) { int G = net_groups(N, l, ord), which; for (which = 0; which < (1 << l) && which < 64; which++) { net_coef_multi(N, rt, l, ord, G, which, c);
      for (s = 0; s < 4; s++) { for (i = 0; i < n; i++) { int e = c[i] > 0 ? 1 : c[i] < 0 ? -1 : (s & 2) ? -1 : 1; if (s & 1) e = -e; in[i] = e * bs[bi]; } if (!conc(N, rt, in, "single nonzero twiddle", bs[bi])) return; } } } } } }
  free(N);
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0;
  sub = argc > 2 && !strcmp(argv[2], "sub");
  vf_job_limit = vf_thorough ? 900 : 60;
  mkw();
  { int i; for (i = 0; i < 6; i++) sample("x in [-17,17]+%ld, all subintervals, w=%ld", CEN[i], W[i * 31]); sample("x in [-21499,21499], w in [-6144,6144]"); sample("ntt_gs_bounds n=64, only p[37]=6144 nonzero, extremal sign patterns"); }
  run_jobs("windows", NW, job_win);
  run_jobs("wide", 193, job_wide);
  run_jobs("red", NCEN + 1, job_red);
  run_jobs("multiplier intervals", NCEN * NWC, job_int);
  run_jobs("large multiplier intervals", sizeof BIG / sizeof BIG[0], job_big);
  run_jobs("steps", 193, job_step);
  run_jobs("steps over intervals", (NWC + 1) * NBV, job_stepi);
  run_jobs("transform bounds", 8 * 11, job_tr);
  run_jobs("synthetic tables", 4 * 6, job_syn);
  return vf_finish();
}
