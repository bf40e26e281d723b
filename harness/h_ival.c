/* C14: interval operations contain every concrete result; unrepresentable results end the program. argv[2]: full | sub */
#include "net.h"
#undef Q
#include "intervals.h"
#undef Q
#define Q 12289
#include <fcntl.h>
static int sub_;
static interval_t A, B;
typedef __int128 big;
static void chk(const char *op, interval_t *r, i64 mn, i64 mx) {
  if (r == &A || r == &B) { violation("op=%s [%ld,%ld] [%ld,%ld]: returns its argument instead of a new interval", op, A.min, A.max, B.min, B.max); return; }
  if (r->min > r->max) violation("op=%s [%ld,%ld] [%ld,%ld]: malformed result [%ld,%ld]", op, A.min, A.max, B.min, B.max, r->min, r->max);
  else if (r->min > mn || r->max < mx) violation("op=%s [%ld,%ld] [%ld,%ld]: result [%ld,%ld] misses concrete values in [%ld,%ld]", op, A.min, A.max, B.min, B.max, r->min, r->max, mn, mx);
  if (A.min != (i64)vf_inf[0] || A.max != (i64)vf_inf[1]) violation("op=%s modified its argument", op);
  delete_interval(r);
}
#define SETA(a, b) (A.min = (a), A.max = (b), vf_inf[0] = (a), vf_inf[1] = (b))
static i64 f_red(i64 x) { return ref_red(x); }
static i64 f_red2(i64 x) { return ref_red(ref_red(x)); }
static i64 f_norm(i64 x) { return modp(x); }
static i64 f_norm3(i64 x) { return modp((i64)modp(x) * 8193); }
static i64 f_shift(i64 x) { return x > 6144 ? x - Q : x; }
static i64 f_corr(i64 x) { return x < 0 ? x + Q : x >= Q ? x - Q : x; }
static interval_t *t_red(void) { return red(&A); }
static interval_t *t_red2(void) { return red_twice(&A); }
static interval_t *t_norm(void) { return normal(&A); }
static interval_t *t_norm3(void) { return normal_inv3(&A); }
static interval_t *t_shift(void) { return shift(&A); }
static interval_t *t_corr(void) { return correct(&A); }
static const struct { const char *n; i64 (*f)(i64); interval_t *(*t)(void); i64 lo, hi; } U[] = {
  { "red", f_red, t_red, INT64_MIN, INT64_MAX }, { "red_twice", f_red2, t_red2, INT64_MIN, INT64_MAX }, { "normal", f_norm, t_norm, INT64_MIN, INT64_MAX },
  { "normal_inv3", f_norm3, t_norm3, INT64_MIN, INT64_MAX }, { "shift", f_shift, t_shift, 0, 12288 }, { "correct", f_corr, t_corr, -12289, 24577 } };
#define NU 6
static const i64 CEN[] = { 0, 4096, -4096, 6144, -6144, 12288, -12289, 24577, -24578, 2048, 1365, 21499, 6200, 36867, 1 << 20, -(1 << 20), 536573, -524287, 4096 * 4096, -4096 * 4096, INT32_MAX, INT32_MIN, 1LL << 44, -(1LL << 44), INT64_MAX - 700, INT64_MIN + 700, (i64)Q * 100000, -(i64)Q * 100001 };
#define NCEN ((int)(sizeof CEN / sizeof CEN[0]))
static void job_win(int j) {
  int u = j % NU, H = vf_thorough ? 600 : sub_ ? 60 : 220; i64 c = CEN[j / NU], lo = c - H, hi = c + H, a, b;
  if (lo < U[u].lo) lo = U[u].lo; if (hi > U[u].hi) hi = U[u].hi;
  for (a = lo; a <= hi; a++) { i64 mn = INT64_MAX, mx = INT64_MIN; for (b = a; b <= hi; b++) { i64 v = U[u].f(b); if (v < mn) mn = v; if (v > mx) mx = v; SETA(a, b); vf_fn = U[u].n; chk(U[u].n, U[u].t(), mn, mx); stat_add("intervals", 1); if (b == INT64_MAX) break; } if (vf_stop()) return; if (a == INT64_MAX) break; }
}
/* every subinterval of the whole domain of shift / a stride of those of correct; running extrema */
static void job_dom(int j) {
  int u = j & 1 ? 5 : 4; i64 a, b, blk = j / 2, k;
  i64 lo = U[u].lo, hi = U[u].hi, n = hi - lo + 1;
  i64 step = u == 4 ? (sub_ ? 37 : vf_thorough ? 1 : 3) : (sub_ ? 191 : vf_thorough ? 3 : 29);
  for (k = blk; k * step < n; k += 64) {
    i64 mn = INT64_MAX, mx = INT64_MIN; a = lo + k * step + (blk % step); if (a > hi) break;
    for (b = a; b <= hi; b++) { i64 v = U[u].f(b); if (v < mn) mn = v; if (v > mx) mx = v; if ((b + k) % (u == 5 && !vf_thorough ? 5 : 1)) continue; SETA(a, b); vf_fn = U[u].n; chk(U[u].n, U[u].t(), mn, mx); stat_add("intervals", 1); }
    if (vf_stop()) return;
  }
}
/* end points k*q + d and k*4096 + d, wide: extrema by scanning at most the range, or full range once it is long enough */
static void job_wide(int j) {
  static i64 E[400]; int ne = 0, k, d, p, q, u = j % 4; i64 x;
  static const i64 KK[] = { -100000, -1000, -3, -2, -1, 0, 1, 2, 3, 1000, 100000 };
  for (k = 0; k < 11; k++) for (d = -2; d <= 2; d++) { E[ne++] = KK[k] * Q + d; E[ne++] = KK[k] * 4096 + d; E[ne++] = KK[k] * 12288 + 6144 + d; }
  for (d = 0; d < 2; d++) { E[ne++] = INT64_MIN + d; E[ne++] = INT64_MAX - d; E[ne++] = (1LL << 50) + d; E[ne++] = -(1LL << 50) - d; }
  if (sub_ && (j / 4) % 5) return;
  for (p = j / 4; p < ne; p += 40) for (q = 0; q < ne; q++) if (E[p] <= E[q]) {
    i64 a = E[p], b = E[q], mn = INT64_MAX, mx = INT64_MIN; u64 len = (u64)b - (u64)a, i;
    /* 4096 (red) or Q (mod) consecutive values at either end contain the extrema; red_twice: values next to both ends and next to the extrema of red are all real points */
    u64 m = len < 13000 ? len : 13000;
    for (i = 0; i <= m; i++) { i64 v = U[u].f(a + (i64)i); if (v < mn) mn = v; if (v > mx) mx = v; v = U[u].f(b - (i64)i); if (v < mn) mn = v; if (v > mx) mx = v; }
    SETA(a, b); vf_fn = U[u].n; chk(U[u].n, U[u].t(), mn, mx); stat_add("intervals", 1);
    if (vf_stop()) return;
  }
}
/* products: all pairs of subintervals of small windows */
static const i64 XC[] = { 0, 4, -4, 4096, -4096, 6144, -6144, 12288, -12288, 21499, -21499, 1365, 1 << 20, -(1 << 20), 2147483600, -2147483600LL, 1LL << 40 };
static const i64 WC[] = { 0, 3, -3, 4096, -4096, 6142, -6142, 12286, 2048, -2048, 683 };
#define NXC ((int)(sizeof XC / sizeof XC[0]))
#define NWC ((int)(sizeof WC / sizeof WC[0]))
static void job_mul(int j) {
  int cx = j / NWC, cw = j % NWC, HX = vf_thorough ? 9 : 6, HW = vf_thorough ? 6 : 4, i, k, l, m; i64 M[40][20];
  if (sub_ && j % 6) return;
  for (i = 0; i <= 2 * HX; i++) for (k = 0; k <= 2 * HW; k++) M[i][k] = ref_red((XC[cx] - HX + i) * (WC[cw] - HW + k));
  for (i = 0; i <= 2 * HX; i++) for (k = 0; k <= 2 * HW; k++) {
    i64 cmx[40], cmn[40];
    for (m = k; m <= 2 * HW; m++) { i64 mx = INT64_MIN, mn = INT64_MAX;
      for (l = i; l <= 2 * HX; l++) { i64 v = M[l][m]; if (m == k || v > cmx[l]) cmx[l] = v; if (m == k || v < cmn[l]) cmn[l] = v; if (cmx[l] > mx) mx = cmx[l]; if (cmn[l] < mn) mn = cmn[l];
        SETA(XC[cx] - HX + i, XC[cx] - HX + l); B.min = WC[cw] - HW + k; B.max = WC[cw] - HW + m; vf_fn = "red_mul"; chk("red_mul", red_mul(&A, &B), mn, mx);
        { interval_t t = A; A = B; B = t; SETA(A.min, A.max); chk("red_mul(swapped)", red_mul(&A, &B), mn, mx); A = B; B = t; }
        stat_add("intervals", 2);
        if (k == m) { SETA(XC[cx] - HX + i, XC[cx] - HX + l); B.min = B.max = WC[cw] - HW + k; vf_fn = "red_scale"; chk("red_scale", red_scale(B.min, &A), mn, mx); stat_add("intervals", 1); } }
      if (vf_stop()) return; }
  }
}
/* wide products: 4096 consecutive x decide for a fixed w */
static const struct { i64 a, b, l, h; } BIG[] = { { -21499, 21499, -6144, 6144 }, { 0, 12288, 0, 12288 }, { -6144, 6144, -6144, 6144 }, { -9216, 21499, -6144, 6144 }, { 100, 21499, -6144, -1 }, { -21499, -3, 1, 6144 }, { -130, 12413, -130, 12413 }, { -536573, 524287, -64, 64 }, { -524287, 536573, -130, 300 }, { 0, 1, -6144, 6144 }, { -1, 0, -6144, 6144 }, { 5, 5, -12288, 12288 }, { -1000000, 3, -4096, -1 } };
static void ext(i64 w, i64 a, i64 b, i64 *mn, i64 *mx) { i64 m = b - a < 4096 ? b - a : 4096, i; for (i = 0; i <= m; i++) { i64 v = ref_red(w * (a + i)); if (v < *mn) *mn = v; if (v > *mx) *mx = v; v = ref_red(w * (b - i)); if (v < *mn) *mn = v; if (v > *mx) *mx = v; } }
static void job_big(int j) {
  i64 w, mx = INT64_MIN, mn = INT64_MAX;
  if (j < (int)(sizeof BIG / sizeof BIG[0])) {
    if (sub_ && j > 2) return;
    for (w = BIG[j].l; w <= BIG[j].h; w++) ext(w, BIG[j].a, BIG[j].b, &mn, &mx);
    SETA(BIG[j].a, BIG[j].b); B.min = BIG[j].l; B.max = BIG[j].h; vf_fn = "red_mul"; chk("red_mul", red_mul(&A, &B), mn, mx); stat_add("intervals", 1);
    return;
  }
  j -= sizeof BIG / sizeof BIG[0]; /* red_scale with wide intervals: all w of a block */
  { static const i64 E[] = { 0, 1, 2047, 4096, 6144, 12288, 21499, 100000, 3000000, 1LL << 35 }; int p, q;
    for (w = -6144 + 128 * j; w < -6144 + 128 * (j + 1) && w <= 6144; w++) { if (w % (vf_thorough ? 1 : sub_ ? 31 : 3) && labs(w) > 20) continue; for (p = -9; p < 10; p++) for (q = p; q < 10; q++) {
      i64 a = p < 0 ? -E[-p] : E[p], b = q < 0 ? -E[-q] : E[q]; if (!vf_thorough && p != -q && (p * 5 + q + w) % 9) continue;
      mn = INT64_MAX; mx = INT64_MIN; ext(w, a, b, &mn, &mx); SETA(a, b); B.min = B.max = w; vf_fn = "red_scale"; chk("red_scale", red_scale(w, &A), mn, mx); stat_add("intervals", 1); if (vf_stop()) return; } } }
}
/* 64-bit limits: returns if representable, otherwise must end the program with an error */
static const i64 LIM[] = { INT64_MIN, INT64_MIN + 1, INT64_MIN / 2 - 1, INT64_MIN / 2, -4611686018427387000LL, -12289, -1, 0, 1, 5, INT64_MAX / 2, INT64_MAX / 2 + 1, INT64_MAX / 2 + 2, INT64_MAX - 1, INT64_MAX };
#define NLIM ((int)(sizeof LIM / sizeof LIM[0]))
static interval_t *call(int op) { return op == 0 ? add(&A, &B) : op == 1 ? sub(&A, &B) : op == 2 ? neg(&A) : interval(A.min, A.max); }
static const char *const ON[] = { "add", "sub", "neg", "interval" };
static void must_fail(int op) {
  int st; pid_t p;
  fflush(0);
  p = fork();
  if (p == 0) {
    interval_t *r; int fd = open("/dev/null", O_WRONLY);
    struct sigaction sa; int s;
    dup2(fd, 1); dup2(fd, 2);
    memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; for (s = 1; s < 32; s++) sigaction(s, &sa, 0);
    vf_limit(20);
    r = call(op); (void)r;
    _exit(77);
  }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  stat_add("error_cases", 1);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) violation("op=%s [%ld,%ld] [%ld,%ld]: not representable, but the call returned", ON[op], A.min, A.max, B.min, B.max);
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) violation("op=%s [%ld,%ld] [%ld,%ld]: ended the program with success status", ON[op], A.min, A.max, B.min, B.max);
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) violation("op=%s [%ld,%ld] [%ld,%ld]: hangs", ON[op], A.min, A.max, B.min, B.max);
}
static void job_lim(int j) {
  int p = j / NLIM, q = j % NLIM, r, s;
  if (p > q) { A.min = LIM[p]; A.max = LIM[q]; B.min = B.max = 0; must_fail(3); return; }
  for (r = 0; r < NLIM; r++) for (s = r; s < NLIM; s++) {
    big lo, hi; int op;
    SETA(LIM[p], LIM[q]); B.min = LIM[r]; B.max = LIM[s];
    for (op = 0; op < 2; op++) {
      if (op == 0) { lo = (big)A.min + B.min; hi = (big)A.max + B.max; } else { lo = (big)A.min - B.max; hi = (big)A.max - B.min; }
      if (lo < INT64_MIN || hi > INT64_MAX || lo > INT64_MAX || hi < INT64_MIN) {
        if (!vf_thorough && (p + 3 * q + 5 * r + 7 * s) % 4 && !((lo == (big)INT64_MAX + 1) || hi == (big)INT64_MAX + 1 || lo == (big)INT64_MIN - 1 || hi == (big)INT64_MIN - 1)) continue;
        must_fail(op);
      } else { vf_fn = ON[op]; chk(ON[op], call(op), (i64)lo, (i64)hi); stat_add("intervals", 1); }
    }
    if (vf_stop()) return;
  }
  SETA(LIM[p], LIM[q]); B.min = B.max = 0;
  if (A.min == INT64_MIN) must_fail(2); else { vf_fn = "neg"; chk("neg", neg(&A), -A.max, -A.min); }
  { interval_t *t = interval(A.min, A.max); if (t->min != A.min || t->max != A.max) violation("op=interval(%ld,%ld) gives [%ld,%ld]", A.min, A.max, t->min, t->max); delete_interval(t); }
  { interval_t *t = point(A.min); if (t->min != A.min || t->max != A.min) violation("op=point(%ld) gives [%ld,%ld]", A.min, t->min, t->max); delete_interval(t); }
}
static void job_add(int j) { /* small windows, all pairs of subintervals */
  i64 c1 = j % 3 == 0 ? 0 : j % 3 == 1 ? 12289 : -(1LL << 40), c2 = j / 3 == 0 ? 0 : j / 3 == 1 ? -6144 : INT32_MAX, a, b, c, d;
  for (a = -7; a <= 7; a++) for (b = a; b <= 7; b++) for (c = -7; c <= 7; c++) for (d = c; d <= 7; d++) {
    SETA(c1 + a, c1 + b); B.min = c2 + c; B.max = c2 + d;
    vf_fn = "add"; chk("add", add(&A, &B), A.min + B.min, A.max + B.max);
    vf_fn = "sub"; chk("sub", sub(&A, &B), A.min - B.max, A.max - B.min);
    stat_add("intervals", 2);
    if (c == 0 && d == 0) { vf_fn = "neg"; chk("neg", neg(&A), -A.max, -A.min); }
    if (vf_stop()) return;
  }
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0;
  sub_ = argc > 2 && !strcmp(argv[2], "sub");
  vf_job_limit = vf_thorough ? 900 : 90;
  sample("red/red_twice/normal/normal_inv3 on every subinterval of [%ld,%ld]", CEN[1] - 220, CEN[1] + 220);
  sample("shift on subintervals of [0,12288]; correct on subintervals of [-12289,24577]");
  sample("red_mul([-21499,21499],[-6144,6144]); add([INT64_MAX/2+1,INT64_MAX],[0,1]) must end the program");
  run_jobs("windows", NU * NCEN, job_win);
  run_jobs("domains", 128, job_dom);
  run_jobs("wide", 160, job_wide);
  run_jobs("products", NXC * NWC, job_mul);
  run_jobs("wide products", (int)(sizeof BIG / sizeof BIG[0]) + 97, job_big);
  run_jobs("sums", 9, job_add);
  run_jobs("limits", NLIM * NLIM, job_lim);
  return vf_finish();
}
