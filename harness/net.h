/* The butterfly networks of the eight transform kinds, as documented, with exact modular evaluation forwards and
 * backwards and linear coefficients for extremal witnesses. Only used to CHOOSE inputs and as an independent model;
 * what is checked is the documented transform of those inputs. */
#ifndef VF_NET_H
#define VF_NET_H
#include "common.h"
#define NET_MAXL 11
#define NET_MAXH 1024
typedef struct {
  int n, L, kind, gs;
  u16 lo[NET_MAXL][NET_MAXH], hi[NET_MAXL][NET_MAXH], tw[NET_MAXL][NET_MAXH]; /* tw 0: no multiplication */
} net_t;

static net_t *net_make(int kind, int n) {
  net_t *N = calloc(1, sizeof *N);
  int l, t, d, j, s, b;
  N->n = n; N->L = lg(n); N->kind = kind; N->gs = (kind >= GS_R2S && kind <= GSMUL_S2R);
  for (l = 0; l < N->L; l++) {
    int base = kind & ~1, contiguous;
    if (base == CT_R2S || base == CT_S2R) t = 1 << l; else t = n >> (l + 1);
    d = n / (2 * t);
    contiguous = (base == CT_R2S || base == GS_S2R); /* blocks of 2t: lo=s, hi=s+t */
    b = 0;
    for (j = 0; j < t; j++) {
      int w = (j == 0 && !(kind & 1)) ? 0 : t + j;
      if (contiguous) for (s = j; s < n; s += 2 * t) { N->lo[l][b] = s; N->hi[l][b] = s + t; N->tw[l][b] = w; b++; }
      else for (s = 2 * d * j; s < 2 * d * j + d; s++) { N->lo[l][b] = s; N->hi[l][b] = s + d; N->tw[l][b] = w; b++; }
    }
  }
  return N;
}

/* exact forward/backward over levels [from,to) modulo Q; tab: default (non-reduced) twiddles */
static void net_fwd(const net_t *N, const i32 *tab, int from, int to, i32 *a) {
  int l, b, h = N->n / 2;
  for (l = from; l < to; l++) for (b = 0; b < h; b++) {
    i32 *x = a + N->lo[l][b], *y = a + N->hi[l][b], u = *x, v = *y;
    i64 w = N->tw[l][b] ? tab[N->tw[l][b]] : 1;
    if (N->gs) { *x = modp(u + v); *y = modp((i64)(u - v) * w); }
    else { v = modp(v * w); *x = modp(u + v); *y = modp(u - v); }
  }
}
static inline i32 inv_tab(i32 x) { static u16 t[Q]; static int ok; if (!ok) { int i; for (i = 1; i < Q; i++) t[i] = inv(i); ok = 1; } return t[modp(x)]; }
static void net_back(const net_t *N, const i32 *tab, int level, i32 *a) {
  i32 itab[2048];
  int l, b, h = N->n / 2;
  i64 half = (Q + 1) / 2;
  if (level) for (b = 1; b < N->n; b++) itab[b] = inv_tab(tab[b]);
  for (l = level - 1; l >= 0; l--) for (b = 0; b < h; b++) {
    i32 *x = a + N->lo[l][b], *y = a + N->hi[l][b];
    i64 iw = N->tw[l][b] ? itab[N->tw[l][b]] : 1, u = *x, v = *y;
    if (N->gs) { v = v * iw % Q; *x = modp((u + v) * half); *y = modp((u - v) * half); }
    else { *x = modp((u + v) * half); *y = modp((u - v) * half % Q * iw); }
  }
}


static inline i64 ref_red(i64 z) { return 3 * (z & 4095) - (z >> 12); }
/* unbounded-precision lazy evaluation with reduced twiddles; returns max |value| seen at any step */
static i64 net_lazy(const net_t *N, const i32 *rtab, int from, int to, i64 *a) {
  int l, b, h = N->n / 2;
  i64 m = 0;
#define UPD(v) do { i64 z_ = (v); if (z_ < 0) z_ = -z_; if (z_ > m) m = z_; } while (0)
  for (l = from; l < to; l++) for (b = 0; b < h; b++) {
    i64 *x = a + N->lo[l][b], *y = a + N->hi[l][b], u = *x, v = *y;
    int k = N->tw[l][b];
    if (N->gs) { i64 d = u - v; UPD(d); if (k) d = ref_red(d * rtab[k]); *x = u + v; *y = d; }
    else { if (k) v = ref_red(v * rtab[k]); UPD(v); *x = u + v; *y = u - v; }
    UPD(*x); UPD(*y);
  }
  return m;
}
/* linear coefficients of the inputs in node `pos` after `level` levels, with mul_red(x,w) ~ -w*x/4096 */
static void net_coef(const net_t *N, const i32 *rtab, int level, int pos, double *c) {
  int l, b, i, h = N->n / 2;
  for (i = 0; i < N->n; i++) c[i] = 0;
  c[pos] = 1;
  for (l = level - 1; l >= 0; l--) for (b = 0; b < h; b++) {
    double *x = c + N->lo[l][b], *y = c + N->hi[l][b], u = *x, v = *y;
    double g = N->tw[l][b] ? -rtab[N->tw[l][b]] / 4096.0 : 1.0;
    if (u == 0 && v == 0) continue;
    if (N->gs) { *x = u + v * g; *y = u - v * g; }
    else { *x = u + v; *y = (u - v) * g; }
  }
}
/* Nodes after `level` levels fall into n>>level groups with disjoint inputs: ord[k*groups+g] is the k-th node of group g, so one
 * input can be extremal for one node of every group at once. Returns the number of groups. */
static int net_groups(const net_t *N, int level, u16 *ord) {
  static u16 root[2048], cnt[2048], gid[2048]; int i, l, b, h = N->n / 2, G = 0, per = 1 << level;
  for (i = 0; i < N->n; i++) root[i] = i;
  for (l = 0; l < level; l++) for (b = 0; b < h; b++) { int x = N->lo[l][b], y = N->hi[l][b], r = root[x] < root[y] ? root[x] : root[y]; root[x] = root[y] = r; }
  /* labels have to be settled: repeat until stable */
  for (;;) { int ch = 0; for (l = 0; l < level; l++) for (b = 0; b < h; b++) { int x = N->lo[l][b], y = N->hi[l][b], r = root[x] < root[y] ? root[x] : root[y]; if (root[x] != r || root[y] != r) { root[x] = root[y] = r; ch = 1; } } if (!ch) break; }
  for (i = 0; i < N->n; i++) if (root[i] == i) { gid[i] = G++; cnt[i] = 0; }
  for (i = 0; i < N->n; i++) { int r = root[i]; ord[cnt[r] * G + gid[r]] = i; cnt[r]++; }
  if (G != N->n / per) { fprintf(stderr, "net_groups: unexpected structure\n"); exit(2); }
  return G;
}
/* coefficients of the inputs for one node per group: which = 0 .. 2^level-1 */
static void net_coef_multi(const net_t *N, const i32 *rtab, int level, const u16 *ord, int G, int which, double *c) {
  int l, b, i, h = N->n / 2;
  for (i = 0; i < N->n; i++) c[i] = 0;
  for (i = 0; i < G; i++) c[ord[which * G + i]] = 1;
  for (l = level - 1; l >= 0; l--) for (b = 0; b < h; b++) {
    double *x = c + N->lo[l][b], *y = c + N->hi[l][b], u = *x, v = *y;
    double g = N->tw[l][b] ? -rtab[N->tw[l][b]] / 4096.0 : 1.0;
    if (u == 0 && v == 0) continue;
    if (N->gs) { *x = u + v * g; *y = u - v * g; }
    else { *x = u + v; *y = (u - v) * g; }
  }
}
static const int BND[] = { 0, 1, 2, 3, 5, 1023, 1024, 1365, 2047, 2048, 3072, 4095, 4096, 4097, 6143, 6144, 6145, 6146, 8191, 8192, 8193, 12285, 12286, 12287, 12288 };
#define NBND ((int)(sizeof BND / sizeof BND[0]))

/* valid roots: psi^n = -1 */
static int valid_psi(int n, int psi) { return psi > 1 && psi < Q && pw(psi, n) == Q - 1; }
static int any_psi(int n) { int p; for (p = 2; p < Q; p++) if (valid_psi(n, p)) return p; return 0; }
#endif
