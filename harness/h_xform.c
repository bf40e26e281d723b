/* C02 / C03: generic transforms against the documented NTT, for all sizes and roots.
 * argv[2] = "default" (ntt.c and naive_ntt.c, exact / congruent) or "red" (ntt_red.c and ntt_asm.S, congruent). */
#include "net.h"
#include "tables.h"
static xform_t X[64]; static int NX;
static int red_mode;
static const int LIM = 21499;
typedef void (*f_u16)(i32 *, u32, const u16 *);
typedef void (*f_i16)(i32 *, u32, const i16 *);
typedef void (*f_nv)(i32 *, u32, const u16 *, i32);

/* table cache for the current (kind, n, psi) */
static u16 tu[2048] __attribute__((aligned(64)));
static i16 ts[2048] __attribute__((aligned(64)));
static i32 tw[2048], rtw[2048]; static int tk = -1, tn; static i64 tpsi;
static void set_table(int kind, int n, i64 psi) {
  int i;
  if (tk == kind && tn == n && tpsi == psi) return;
  if (kind == CT_R2S_V1) { i64 x = 1; for (i = 0; i < n; i++) { tw[i] = (i32)x; x = x * psi % Q; } }
  else { ref_table(kind, n, psi, 0, tw); ref_table(kind, n, psi, 1, rtw); }
  for (i = 0; i < n; i++) { tu[i] = tw[i]; ts[i] = rtw[i]; }
  tk = kind; tn = n; tpsi = psi;
}
static const char *fam = "";
/* run every implementation of `kind` on `in` and compare with `want` (canonical) */
static void check(int kind, int n, i64 psi, const i32 *in, const i32 *want) {
  static i32 a[2048] __attribute__((aligned(64)));
  int k, i;
  set_table(kind, n, psi);
  for (k = 0; k < NX; k++) {
    if (X[k].kind != kind) continue;
    if (X[k].impl == IMPL_ASM && n < 16) continue;
    memcpy(a, in, n * 4);
    CASE(X[k].name, n, psi, in[0], 0);
    switch (X[k].impl) {
    case IMPL_NTT: ((f_u16)X[k].f)(a, n, tu); break;
    case IMPL_NAIVE: ((f_nv)X[k].f)(a, n, tu, Q); break;
    default: ((f_i16)X[k].f)(a, n, ts);
    }
    if (X[k].impl == IMPL_NTT) { if (!memcmp(a, want, n * 4)) i = n; else for (i = 0; i < n && a[i] == want[i]; i++) ; }
    else for (i = 0; i < n && modp(a[i]) == want[i]; i++) ;
    if (i < n) {
      violation("op=%s n=%d psi=%d family=%s index %d: got %d (residue %d), want %d; in=%s", X[k].name, n, (int)psi, fam, i, a[i], modp(a[i]), want[i], show(in, n));
      if (vf_stop()) return;
    }
    stat_add("transform_calls", 1);
  }
  stat_add("inputs", 1);
}
static void check2(int kind, int n, i64 psi, const i32 *in) {
  static i32 w[2048];
  ref_kind(kind, n, psi, in, w);
  check(kind, n, psi, in, w);
}
static int nkinds(void) { return red_mode ? 8 : 9; }
static const int SZ[] = { 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048 };
#define NSZ 11
static i64 PSI[NSZ];   /* main root per size */

/* representative of a residue in the mode's input range; alt selects among the admissible ones */
static i32 rep(i32 r, u32 alt) {
  i32 v = modp(r);
  if (!red_mode) return v;
  if (v > 6144) v -= Q;
  switch (alt % 3) { case 1: return v + Q <= LIM ? v + Q : v; case 2: return v - Q >= -LIM ? v - Q : v; }
  return v;
}

/* every input of size 2 */
static void fam_n2(int kind, int part, int parts) {
  int x, y, k, p;
  fam = "n=2 exhaustive";
  for (p = 2; p < Q; p++) {
    if (!valid_psi(2, p)) continue;
    i64 pm = kind_premul(kind) ? p : 1, qm = kind_postmul(kind) ? p : 1;
    set_table(kind, 2, p);
    for (k = 0; k < NX; k++) {
      if (X[k].kind != kind || X[k].impl == IMPL_ASM) continue;
      i32 a[2];
      i64 cnt = 0;
      if (!red_mode) {
        for (x = part; x < Q; x += parts) for (y = 0; y < Q; y++) {
          i32 v = kind_premul(kind) ? (i32)(y * pm % Q) : y, w0 = x + v, w1 = x - v;
          if (w0 >= Q) w0 -= Q; if (w1 < 0) w1 += Q; if (kind_postmul(kind)) w1 = w1 * qm % Q;
          a[0] = x; a[1] = y;
          if (X[k].impl == IMPL_NTT) { ((f_u16)X[k].f)(a, 2, tu); if (a[0] != w0 || a[1] != w1) goto bad; }
          else { ((f_nv)X[k].f)(a, 2, tu, Q); if (a[0] != w0 && a[0] + Q != w0) goto bad; if (a[1] != w1 && a[1] + Q != w1) goto bad; }
          continue;
        bad:
          violation("op=%s n=2 psi=%d in=(%d,%d) got (%d,%d) want (%d,%d)", X[k].name, p, x, y, a[0], a[1], w0, w1); if (vf_stop()) return;
        }
        cnt = (i64)((Q - part + parts - 1) / parts) * Q;
      } else {
        int sx = vf_thorough ? 1 : 61, base = -LIM + part * sx;
        for (x = base; ; x += parts * sx) { /* quick: every 61st x plus the ends, every y */
          int last = 0;
          if (x > LIM) { if (part) break; x = LIM; last = 1; }
          for (y = -LIM; y <= LIM; y++) {
            a[0] = x; a[1] = y; ((f_i16)X[k].f)(a, 2, ts);
            if ((a[0] - (x + y * pm)) % Q || (a[1] - (x - y * pm) * qm) % Q) { violation("op=%s n=2 psi=%d in=(%d,%d) got (%d,%d)", X[k].name, p, x, y, a[0], a[1]); if (vf_stop()) return; }
          }
          cnt += 2 * LIM + 1;
          if (last) break;
        }
      }
      stat_add("transform_calls", cnt); if (X[k].impl == IMPL_NTT || X[k].impl == IMPL_RED) stat_add("inputs", cnt);
    }
  }
}
/* all roots of all sizes */
static void fam_roots(int kind, int part, int parts) {
  static i32 a[2048];
  int s, p, i, v, c = 0;
  fam = "all roots";
  for (s = 0; s < NSZ; s++) { int n = SZ[s];
    for (p = 2; p < Q; p++) {
      if (!valid_psi(n, p)) continue;
      if (c++ % parts != part) continue;
      stat_add("n_psi_kind", 1);
      for (v = 0; v < (n >= 1024 && !vf_thorough ? 2 : 5); v++) {
        u32 g = 977 * p + n;
        for (i = 0; i < n; i++) {
          g = g * 1664525 + 1013904223;
          i32 x = v == 0 ? (i32)((g >> 8) % Q) : v == 1 ? (i * i + 3 * i + p) % Q : v == 2 ? Q - 1 : v == 3 ? (i & 1 ? Q - 1 : 0) : BND[(i + p) % NBND];
          a[i] = red_mode ? (v == 2 ? LIM : v == 3 ? (i & 1 ? -LIM : LIM) : rep(x, g >> 20)) : x;
        }
        check2(kind, n, p, a); if (vf_stop()) return;
      }
    } }
}
/* scaled basis vectors; all values for small sizes */
static void fam_basis(int kind, int part, int parts) {
  static i32 a[2048];
  static const int VD[] = { 1, 12288, 6145, 4096 };
  static const int VR[] = { 1, -1, 21499, -21499, 4095, -4096 };
  int s, i, v, c = 0;
  fam = "basis";
  for (s = 0; s < NSZ; s++) { int n = SZ[s], inverse;
    for (inverse = 0; inverse < 2; inverse++) { i64 psi = inverse ? inv(PSI[s]) : PSI[s];
      memset(a, 0, n * 4);
      for (i = 0; i < n; i++) {
        if (c++ % parts != part) continue;
        for (v = 0; v < (red_mode ? 6 : 4); v++) {
          if (n > 256 && !vf_thorough && (v + i + inverse) % 2) continue;
          a[i] = red_mode ? VR[v] : VD[v]; check2(kind, n, psi, a); if (vf_stop()) return;
        }
        a[i] = 0;
        if (n <= 16 && !inverse) {
          int lo = red_mode ? -LIM : 0, hi = red_mode ? LIM : Q - 1, x;
          for (x = lo; x <= hi; x++) { a[i] = x; check2(kind, n, psi, a); if (vf_stop()) return; }
          a[i] = 0;
        }
      } } }
}
/* Walsh patterns, constants, ramps */
static void fam_walsh(int kind, int part, int parts) {
  static i32 a[2048];
  static const int PD[][2] = { { 12288, 0 }, { 0, 12288 }, { 6144, 6145 }, { 12288, 1 } };
  static const int PR[][2] = { { 21499, -21499 }, { 12288, 0 }, { -9216, 21499 }, { 6144, -6144 } };
  int s, m, p, i, c = 0;
  fam = "walsh";
  for (s = 0; s < NSZ; s++) { int n = SZ[s];
    for (m = 0; m < n; m++) {
      if (c++ % parts != part) continue;
      for (p = 0; p < 4; p++) {
        if (n > 256 && !vf_thorough && (p + m) % 4 && p) continue;
        for (i = 0; i < n; i++) a[i] = (red_mode ? PR : PD)[p][__builtin_parity(i & m)];
        check2(kind, n, (m & 1) ? PSI[s] : inv(PSI[s]), a); if (vf_stop()) return;
      }
      for (i = 0; i < n; i++) a[i] = red_mode ? rep(BND[(i + m) % NBND] * (i & 1 ? 1 : -1), i + m) : BND[(i + m) % NBND];
      if (m < 2 * NBND) check2(kind, n, PSI[s], a);
    } }
}
/* every (value, twiddle) pair at the multiplications of every level */
static void fam_pairs(int kind, int part, int parts) {
  static i32 st[2048], a[2048]; static i32 tabn[2048];
  int s, l, x, b, inverse, c = 0, v;
  if (kind == CT_R2S_V1) return;
  fam = "value x twiddle";
  for (s = 0; s < NSZ; s++) { int n = SZ[s]; net_t *N = net_make(kind, n);
    for (inverse = 0; inverse < 2; inverse++) { i64 psi = inverse ? inv(PSI[s]) : PSI[s];
      for (l = 0; l < N->L; l++) {
        int allv = 0, maxtw = 0;
        for (b = 0; b < n / 2; b++) if (N->tw[l][b] > maxtw) maxtw = N->tw[l][b];
        if (!maxtw) continue;
        if (maxtw >= n / 2 && (n == 2048 || n == 16 || n == 8 || n == 4 || vf_thorough)) allv = 1;
        for (x = 0; x < Q; x++) {
          int bd = 0;
          if (!allv) { for (b = 0; b < NBND; b++) if (BND[b] == x) bd = 1; if (!bd && !(n <= 64 && vf_thorough)) continue; }
          if (c++ % parts != part) continue;
          ref_table(kind, n, psi, 0, tabn);
          for (v = 0; v < (bd ? 5 : 1); v++) {
            for (b = 0; b < n / 2; b++) {
              i64 w = N->tw[l][b] ? tabn[N->tw[l][b]] : 1; i32 xx = x, lo;
              int sel = (v + b + x) % 5;
              if (N->gs) { /* difference = xx */ lo = sel == 0 ? 0 : sel == 1 ? xx : sel == 2 ? Q - 1 : sel == 3 ? modp((i64)xx * 31 + b) : modp(-xx); st[N->lo[l][b]] = lo; st[N->hi[l][b]] = modp(lo - xx); }
              else { i32 y = modp(xx * w); lo = sel == 0 ? 0 : sel == 1 ? y : sel == 2 ? modp(Q - y) : sel == 3 ? Q - 1 : modp((i64)xx * 31 + b); st[N->lo[l][b]] = lo; st[N->hi[l][b]] = xx; }
            }
            memcpy(a, st, n * 4);
            net_back(N, tabn, l, a);
            for (b = 0; b < n; b++) a[b] = rep(a[b], b + v + x);
            check2(kind, n, psi, a); stat_add("steered_inputs", 1);
            if (vf_stop()) { free(N); return; }
          }
        }
      }
    }
    free(N); }
}
/* every pair of boundary residues entering every butterfly of every level (for Cooley-Tukey after the multiplication) */
static void fam_states(int kind, int part, int parts) {
  static i32 st[2048], tabn[2048], iw[2048]; int s, l, r, b, c = 0, NB2 = NBND * NBND;
  if (kind == CT_R2S_V1) return;
  fam = "butterfly states";
  for (s = 0; s < NSZ; s++) { int n = SZ[s]; net_t *N = net_make(kind, n); i64 psi = s & 1 ? inv(PSI[s]) : PSI[s];
    ref_table(kind, n, psi, 0, tabn);
    for (l = 0; l < N->L; l++) {
      for (b = 0; b < n / 2; b++) iw[b] = N->tw[l][b] && !N->gs ? (i32)inv(tabn[N->tw[l][b]]) : 1;
      for (r = 0; r < NB2; r += vf_lite ? 5 : 1) {
        if (c++ % parts != part) continue;
        for (b = 0; b < n / 2; b++) { int q = (r + b * 7) % NB2; st[N->lo[l][b]] = BND[q / NBND]; st[N->hi[l][b]] = (i32)((i64)BND[q % NBND] * iw[b] % Q); }
        net_back(N, tabn, l, st);
        for (b = 0; b < n; b++) st[b] = rep(st[b], b + r);
        check2(kind, n, psi, st); stat_add("steered_inputs", 1);
        if (vf_stop()) { free(N); return; }
      } }
    free(N); }
}
/* constant arrays of every value, and sequences with structure for every parameter (the size rotates) */
static void fam_struct(int kind, int part, int parts) {
  static i32 a[2048]; int r, i, k, s; i64 t; static const int CS[] = { 3, 7, 8, 9 };
  fam = "structured";
  for (r = part; r < Q; r += parts * (vf_lite ? 8 : 1)) {
    for (k = 0; k < 4; k++) { int n = SZ[CS[k]]; if (!vf_thorough && k && r % 3 != k - 1) continue; for (s = 0; s < (red_mode ? 3 : 1); s++) { for (i = 0; i < n; i++) a[i] = rep(r, s); check2(kind, n, PSI[CS[k]], a); if (vf_stop()) return; } }
    for (k = 0; k < 7; k++) { int n, fl; s = (r + k) % NSZ; n = SZ[s];
      for (i = 0, t = 1; i < n; i++, t = t * r % Q) {
        int m = i < n - 1 - i ? i : n - 1 - i, g = (int)(((i64)i * 7919 + (i64)r * 104729 + i % 13 * r) % Q);
        a[i] = k == 0 ? (int)(((i64)r * i + 1) % Q) : k == 1 ? (int)t : k == 2 ? (r + m) % Q : k == 3 ? 2 * ((r + i * 3) % 6145) : k == 4 ? (i < n / 2 ? g : 0) : k == 5 ? (i < n / 2 ? 0 : g) : (i % (1 << r % (lg(n) + 1)) ? 0 : g);
        a[i] = rep(a[i], r); }
      fl = r & 1; check2(kind, n, fl ? inv(PSI[s]) : PSI[s], a); if (vf_stop()) return; }
  }
}
/* pairs of boundary values at pairs of notable positions, on an empty and on a dense background (the size rotates) */
static void fam_ends2(int kind, int part, int parts) {
  static i32 a[2048]; int x, y, u, v, i, c = 0;
  fam = "boundary values at notable positions";
  for (x = 0; x < 6; x++) for (y = 0; y < 6; y++) for (u = 0; u < NBND; u++) for (v = 0; v < NBND; v++) {
    int s = (x * 6 + y + u + v) % (NSZ - 2) + 2, n = SZ[s], bg = (u + v + x) & 1, P[6] = { 0, 1, n / 2 - 1, n / 2, n - 2, n - 1 }; if (x == y) continue;
    if (c++ % parts != part || (vf_lite && c % 4)) continue;
    for (i = 0; i < n; i++) a[i] = bg ? rep((i * 7919 + u * 311 + v * 17 + i % 13 * x) % Q, i) : 0;
    a[P[x]] = red_mode && (v & 1) ? BND[u] : rep(BND[u], u + v + x); a[P[y]] = red_mode && (u & 2) ? -BND[v] : rep(BND[v], u + y);
    check2(kind, n, PSI[s], a); if (vf_stop()) return;
  }
}
/* red mode: inputs that push each node to its extremes */
static void fam_extreme(int kind, int part, int parts) {
  static i32 a[2048]; static double cf[2048]; static i32 rt[2048]; static u16 ord[4096];
  int s, l, pos, sg, i, c = 0, inverse;
  if (!red_mode) return;
  fam = "extremal";
  for (s = 0; s < NSZ; s++) { int n = SZ[s]; net_t *N = net_make(kind, n);
    for (inverse = 0; inverse < 2; inverse++) { i64 psi = inverse ? inv(PSI[s]) : PSI[s];
      ref_table(kind, n, psi, 1, rt);
      for (l = 1; l <= N->L; l++) { int g = net_groups(N, l, ord); for (pos = 0; pos < 1 << l; pos++) {
        if (c++ % parts != part) continue;
        net_coef_multi(N, rt, l, ord, g, pos, cf);
        for (sg = -1; sg <= 1; sg += 2) {
          for (i = 0; i < n; i++) a[i] = cf[i] == 0 ? (i & 1 ? LIM : -LIM) : cf[i] * sg > 0 ? LIM : -LIM;
          check2(kind, n, psi, a); stat_add("extremal_inputs", 1); stat_add("extremal_nodes", g);
          if (vf_stop()) { free(N); return; }
        }
      } } }
    free(N); }
}
/* default mode: n=1 (identity) and n=4096, where omega exists but psi does not (plain kinds only) */
static void fam_ends(int kind, int part, int parts) {
  static i32 in[4096], x[4096], y[4096], want[4096], a[4096]; static u16 t4[4096]; int k, i, v, w, c = 0, L = 12, n = 4096, j, t, b;
  fam = "n=1, n=4096";
  if (red_mode) {
    static i16 t1[2] = { -4096, -4096 };
    for (k = 0; k < NX; k++) if (X[k].kind == kind && X[k].impl != IMPL_ASM) for (v = -LIM + part; v <= LIM; v += parts) { a[0] = v; a[1] = -9; CASE(X[k].name, 1, v, 0, 0); ((f_i16)X[k].f)(a, 1, t1); if (modp(a[0]) != modp(v) || a[1] != -9) { violation("op=%s n=1 in=%d got %d", X[k].name, v, a[0]); return; } stat_add("transform_calls", 1); }
    return;
  }
  for (k = 0; k < NX; k++) if (X[k].kind == kind) for (v = part; v < Q; v += parts) { t4[0] = 1; a[0] = v; a[1] = -9; CASE(X[k].name, 1, v, 0, 0); if (X[k].impl == IMPL_NTT) ((f_u16)X[k].f)(a, 1, t4); else ((f_nv)X[k].f)(a, 1, t4, Q); if (modp(a[0]) != v || (X[k].impl == IMPL_NTT && a[0] != v) || a[1] != -9) { violation("op=%s n=1 in=%d got %d", X[k].name, v, a[0]); return; } stat_add("transform_calls", 1); }
  if (kind == CT_R2S_V1 || kind_mixed(kind)) return; /* version 1 takes powers of psi */
  for (w = 2; w < Q; w++) {
    if (pw(w, 2048) != Q - 1 || c++ % parts != part) continue;
    if (!vf_thorough && (c / parts) % 8 && c > 64) continue;
    { t4[0] = 0; for (t = 1, k = 0; t < n; t *= 2, k++) { i64 g = pw(w, n / (2 * t)), z = 1; for (j = 0; j < t; j++) { t4[t + (kind_tab_rev(kind) ? (int)revbits(j, k) : j)] = z; z = z * g % Q; } } }
    for (v = 0; v < 2 + (c <= 2 * parts ? 6 : 0); v++) {
      u32 g = w * 31 + v;
      for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; in[i] = v == 0 ? (g >> 8) % Q : v == 1 ? (i & 64 ? Q - 1 : i % 5) : (i == (w * 37 + v * 911) % n ? Q - v : 0); }
      for (i = 0; i < n; i++) x[kind_in_rev(kind) ? (int)revbits(i, L) : i] = in[i];
      ref_dft(n, w, x, y);
      for (i = 0; i < n; i++) want[i] = kind_in_rev(kind) ? y[i] : y[revbits(i, L)];
      for (k = 0; k < NX; k++) if (X[k].kind == kind) {
        memcpy(a, in, sizeof in); CASE(X[k].name, n, w, v, 0);
        if (X[k].impl == IMPL_NTT) ((f_u16)X[k].f)(a, n, t4); else ((f_nv)X[k].f)(a, n, t4, Q);
        for (b = 0; b < n && (X[k].impl == IMPL_NTT ? a[b] : modp(a[b])) == want[b]; b++) ;
        if (b < n) { violation("op=%s n=4096 omega=%d index %d: got %d, want %d; in=%s", X[k].name, w, b, a[b], want[b], show(in, n)); return; }
        stat_add("transform_calls", 1);
      }
      stat_add("inputs", 1); if (vf_stop()) return;
    }
  }
}
/* the per-size wrappers (forward and inverse tables) */
static wrap_t W[256]; static int NW;
static void wrap_check(const wrap_t *w, i64 psi, const i32 *in, const i32 *want) {
  static i32 a[2048] __attribute__((aligned(64)));
  int i, n = w->n;
  memcpy(a, in, n * 4);
  CASE(w->name, n, in[0], 0, 0);
  w->f(a);
  for (i = 0; i < n && (w->impl == IMPL_NTT ? a[i] == want[i] : modp(a[i]) == want[i]); i++) ;
  if (i < n) violation("op=%s n=%d family=wrappers index %d: got %d (residue %d), want %d; in=%s", w->name, n, i, a[i], modp(a[i]), want[i], show(in, n));
  stat_add("transform_calls", 1);
}
static void fam_wraps(int kind, int part, int parts) {
  static i32 a[2048], want[2048];
  int s, inverse, k, v, i, c = 0;
  fam = "wrappers";
  for (s = 3; s < NSZ; s++) { int n = SZ[s]; if (!main_psi(n)) continue;
    for (inverse = 0; inverse < 2; inverse++) { i64 psi = inverse ? inv(main_psi(n)) : main_psi(n);
      for (v = 0; v < n + 64 + n; v++) {
        u32 g = v * 7919 + 5;
        if (c++ % parts != part) continue;
        for (i = 0; i < n; i++) {
          g = g * 1664525 + 1013904223;
          i32 hi = red_mode ? LIM : Q - 1, lo = red_mode ? -LIM : 0;
          a[i] = v < n ? (i == v ? (v & 1 ? hi : 1) : 0) : v < n + 64 ? (red_mode ? rep((g >> 8) % Q, g >> 20) : (i32)((g >> 8) % Q)) : __builtin_parity(i & (v - n - 64)) ? hi : lo;
        }
        ref_kind(kind, n, psi, a, want);
        for (k = 0; k < NW; k++) if (W[k].n == n && W[k].kind == kind && W[k].inverse == inverse) wrap_check(&W[k], psi, a, want);
        stat_add("inputs", 1);
        if (vf_stop()) return;
      } } }
}
typedef void (*fam_fn)(int, int, int);
static fam_fn F[] = { fam_pairs, fam_extreme, fam_roots, fam_basis, fam_walsh, fam_n2, fam_wraps, fam_ends, fam_states, fam_struct, fam_ends2 };
#define PARTS 16
static void job(int j) { F[j / (PARTS * nkinds())](j / PARTS % nkinds(), j % PARTS, PARTS); }
int main(int argc, char **argv) {
  int i;
  vf_init(argc, argv);
  vf_only = 0;
  red_mode = argc > 2 && !strcmp(argv[2], "red");
  vf_job_limit = vf_thorough ? 3000 : 300;
  ref_selfcheck();
  for (i = 0; i < NSZ; i++) { int p, k = 0; for (p = 2; p < Q; p++) if (valid_psi(SZ[i], p) && ++k <= 3) PSI[i] = p; }
  for (i = 0; i < n_main_xforms; i++) if ((main_xforms[i].impl == IMPL_NTT) == !red_mode) X[NX++] = main_xforms[i];
  if (!red_mode) for (i = 0; i < n_naive_xforms; i++) X[NX++] = naive_xforms[i];
  for (i = 0; i < n_main_wraps; i++) if ((main_wraps[i].impl == IMPL_NTT) == !red_mode) W[NW++] = main_wraps[i];
  if (!red_mode) for (i = 0; i < n_naive_wraps; i++) W[NW++] = naive_wraps[i];
  stat_add("routines", NX + NW);
  sample("n=2: every (x,y), both roots");
  sample("every valid psi for every n in 2..2048 with dense inputs");
  sample("states before each level chosen so that every multiplication sees (x, w) for each x, then carried back exactly to an input");
  run_jobs("transforms", PARTS * nkinds() * 11, job);
  return vf_finish();
}
