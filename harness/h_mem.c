/* C25: ownership of interval objects, under a checking allocator (the library's
 * malloc/free are redirected to vf_*): every block carries its state, freed
 * blocks are poisoned and never reused inside a case */
#include "common.h"
#include "ivapi.h"
#include <fcntl.h>
enum { MAXB = 1 << 19 };
typedef struct { unsigned char *p; u32 n; unsigned char live; } blk_t;
static blk_t *B; static int nb; static unsigned char *arena; static size_t apos; static const size_t ASZ = (size_t)MAXB * 64;
static unsigned char poison = 0xDB; static int nlive; static long fail_at = -1, nalloc; static int silent;
static char bad[200];
static void note(const char *w) { if (!bad[0]) snprintf(bad, sizeof bad, "%s", w); }
static void mem_reset(void) { nb = 0; apos = 0; nlive = 0; nalloc = 0; bad[0] = 0; }
static blk_t *mem_find(const void *q) { /* blocks lie in increasing order */
  int a = 0, b = nb - 1; const unsigned char *p = q;
  while (a <= b) { int m = (a + b) / 2; if (B[m].p == p) return &B[m]; if (B[m].p < p) a = m + 1; else b = m - 1; }
  return 0;
}
void *vf_malloc(size_t n) {
  blk_t *k; if (nalloc++ == fail_at) { errno = ENOMEM; return 0; }
  if (nb == MAXB || apos + n + 64 > ASZ) { note("harness arena exhausted"); _exit(2); }
  k = &B[nb++]; k->p = arena + apos; k->n = n; k->live = 1; nlive++; apos += (n + 31) / 16 * 16; memset(k->p, poison ^ 0x7e, (n + 31) / 16 * 16); return k->p;
}
void vf_free(void *p) {
  blk_t *k; if (!p) return; k = mem_find(p);
  if (!k) { note("releases a pointer that is not an allocated object"); return; }
  if (!k->live) { note("releases an object twice"); return; }
  k->live = 0; nlive--; memset(k->p, poison, k->n);
}
void *vf_calloc(size_t a, size_t b) { void *p = vf_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *vf_realloc(void *p, size_t n) { void *q = vf_malloc(n); blk_t *k = p ? mem_find(p) : 0; if (q && k) { memcpy(q, p, k->n < n ? k->n : n); vf_free(p); } return q; }
void *vf_reallocarray(void *p, size_t a, size_t b) { return vf_realloc(p, a * b); }
void *vf_aligned_alloc(size_t a, size_t n) { (void)a; return vf_malloc(n); }
int vf_posix_memalign(void **p, size_t a, size_t n) { (void)a; *p = vf_malloc(n); return *p ? 0 : ENOMEM; }
/* freed blocks still poisoned, bytes after live blocks untouched */
static void mem_scan(void) {
  int i; u32 j;
  for (i = 0; i < nb && !bad[0]; i++) {
    if (!B[i].live) for (j = 0; j < B[i].n; j++) if (B[i].p[j] != poison) { note("writes to a released object"); break; }
    for (j = B[i].n; j < (B[i].n + 31) / 16 * 16; j++) if (B[i].p[j] != (unsigned char)(poison ^ 0x7e)) { note("writes past an object"); break; }
  }
}
static int isobj(const interval_t *p) { blk_t *k = mem_find(p); return k && k->live && k->n >= sizeof(interval_t); }
static int memfd = -1; static char *cb; static size_t cbn, cbc; static u64 chash;
static void cap_begin(void) { if (memfd < 0) { memfd = memfd_create("cap", 0); fflush(stdout); dup2(memfd, 1); dup2(memfd, 2); setvbuf(stdout, 0, _IOFBF, 1 << 16); } fflush(stdout); if (ftruncate(memfd, 0)) _exit(2); lseek(memfd, 0, SEEK_SET); }
static void cap_end(void) {
  off_t n; size_t i; fflush(stdout); fflush(stderr); n = lseek(memfd, 0, SEEK_END); if (n < 0) n = 0;
  if ((size_t)n + 1 > cbc) { cbc = n + 65536; cb = realloc(cb, cbc); } if (pread(memfd, cb, n, 0) != n) _exit(2); cbn = n;
  chash = 1469598103934665603u; for (i = 0; i < cbn; i++) chash = (chash ^ (unsigned char)cb[i]) * 1099511628211u;
}
static const char *const AN[2][8] = { { "abstract_ntt_red_ct_rev2std", "abstract_mulntt_red_ct_rev2std", "abstract_ntt_red_ct_std2rev", "abstract_mulntt_red_ct_std2rev", "abstract_ntt_red_gs_rev2std", "abstract_nttmul_red_gs_rev2std", "abstract_ntt_red_gs_std2rev", "abstract_nttmul_red_gs_std2rev" },
  { "abstract2_ntt_red_ct_rev2std", "abstract2_mulntt_red_ct_rev2std", "abstract2_ntt_red_ct_std2rev", "abstract2_mulntt_red_ct_std2rev", "abstract2_ntt_red_gs_rev2std", "abstract2_nttmul_red_gs_rev2std", "abstract2_ntt_red_gs_std2rev", "abstract2_nttmul_red_gs_std2rev" } };
static const char *const ARN[9] = { "abstract_normalize", "abstract_normalize_inv3", "abstract_shift_array", "abstract_reduce_array", "abstract_reduce_array_twice", "abstract_correct", "abstract_mul_reduce_array16", "abstract_scalar_mul_reduce_array", "abstract_mul_reduce_array" };
/* routine r: 0..7 abstract, 8..15 abstract2, 16..24 array operations */
static const char *rname(int r) { return r < 16 ? AN[r / 8][r % 8] : ARN[r - 16]; }
static interval_t *A[2049], *P[2049], *X[2049]; static i64 alo[2048], ahi[2048], plo[2048], phi[2048], xlo[2048], xhi[2048]; static i16 P16[2048];
static i64 rl[2][2048], rh[2][2048]; static u64 rc[2];
static void inputs(int r, int n, int f) {
  int i; i32 rt[2048]; static const i64 C[] = { 0, 5000, -6144, 12288, 4096, -1, 700, 9000, -12289, 24577, 1 }; static const i64 W[] = { 0, 0, 1, 3, 17, 200, 0, 4096, 12288 };
  i64 dl = r == 18 ? 0 : r == 21 ? -12289 : -30000, dh = r == 18 ? 12288 : r == 21 ? 24577 : 30000;
  if (n > 1) ref_table(r & 7, n, pw(11, (Q - 1) / (2 * n)), 1, rt); else rt[0] = 5;
  for (i = 0; i < n; i++) {
    i64 c = C[(i * 3 + f * 5) % 11], w = f == 0 ? 0 : f == 3 ? 4 : W[(i + f * 2) % 9]; if (r == 24 && w > 17) w = 17;
    if (f == 3) c = -2;
    alo[i] = c; ahi[i] = c + w; if (ahi[i] > dh) ahi[i] = dh; if (alo[i] < dl) alo[i] = dl; if (alo[i] > dh) alo[i] = dh; if (ahi[i] < alo[i]) ahi[i] = alo[i];
    plo[i] = rt[i]; phi[i] = rt[i] + (f == 2 && i % 5 == 3); P16[i] = rt[i];
    xlo[i] = (i * 37 + f) % 4001 - 2000; xhi[i] = xlo[i] + i % 3;
  }
}
static void call(int r, int n, int f) {
  if (r < 8) ivapi.t1[r](A, n, P16); else if (r < 16) ivapi.t2[r - 8](A, n, P); else if (r < 22) ivapi.u[r - 16](A, n);
  else if (r == 22) ivapi.mul16(A, n, P16); else if (r == 23) ivapi.scal(A, n, (i32[]){ 8193, -6144, 0, 1 }[f & 3]);
  else ivapi.mul(A, n, P, X);
}
static int setup(int r, int n, int al) { /* returns the number of live objects */
  int i, k = 0;
  for (i = 0; i < n; i++) { A[i] = ivapi.mk(alo[i], ahi[i]); k++; if ((r >= 8 && r < 16) || r == 24) { P[i] = ivapi.mk(plo[i], phi[i]); k++; } if (r == 24) { X[i] = al ? P[i] : ivapi.mk(xlo[i], xhi[i]); k += !al; } }
  A[n] = (interval_t *)(intptr_t)0x1234560; return k;
}
static const char *aerr; static int aidx;
static int result_ok(int r, int n, int base, int al) {
  int i; aerr = 0;
  mem_scan();
  if (bad[0]) { aerr = bad; return 0; }
  for (i = 0; i < n; i++) if (!isobj(A[i])) { aerr = "leaves an entry that is not a live object"; aidx = i; return 0; }
  for (i = 0; i < n; i++) { blk_t *k = mem_find(A[i]); if (k->live == 2) { aerr = "leaves the same object in two entries"; aidx = i; } k->live = 2; }
  if (!aerr && ((r >= 8 && r < 16) || r == 24)) for (i = 0; i < n && !aerr; i++) { blk_t *k = mem_find(P[i]); aidx = i;
    if (!k || !k->live) aerr = "releases an operand it does not own"; else if (k->live == 2) aerr = "returns an operand object as a result";
    else if (P[i]->min != plo[i] || P[i]->max != phi[i]) aerr = "changes an operand it does not own";
    else if (r == 24 && !al) { k = mem_find(X[i]); if (!k || !k->live) aerr = "releases an operand it does not own"; else if (k->live == 2) aerr = "returns an operand object as a result"; else if (X[i]->min != xlo[i] || X[i]->max != xhi[i]) aerr = "changes an operand it does not own"; } }
  for (i = 0; i < n; i++) { blk_t *k = mem_find(A[i]); k->live = 1; }
  if (aerr) return 0;
  if (A[n] != (interval_t *)(intptr_t)0x1234560) { aerr = "writes past the array"; return 0; }
  if (nlive != base) { aerr = nlive > base ? "leaks objects" : "loses objects"; aidx = nlive - base; return 0; }
  return 1;
}
static void job_xf(int j) {
  int r = j % 25, k = j / 25, n, f, nn, sz[64], z, al;
  nn = 0; if (r < 16) { sz[nn++] = 1 << k; } else { if (k == 0) for (n = 0; n <= 33; n++) sz[nn++] = n; else sz[nn++] = (1 << k) + (k & 1); if (k == 11) nn = 0; }
  if (r < 16 && k == 0) return;
  for (z = 0; z < nn; z++) for (f = 0; f < 4; f++) for (al = 0; al <= (r == 24); al++) {
    int ps, i, base; n = sz[z];
    if (n >= 512 && !vf_thorough && f != (k & 1) * 3) continue;
    if (r < 16 && n == 0) continue;
    inputs(r, n, f);
    for (ps = 0; ps < 2; ps++) {
      poison = ps ? 0x21 : 0xDB; mem_reset(); base = setup(r, n, al); if (r == 24) { for (i = 0; i < n; i++) { ivapi.del(A[i]); A[i] = 0; } }
      CASE(rname(r), n, f, al, ps); cap_begin(); call(r, n, f); cap_end();
      if (!result_ok(r, n, base, al)) { violation("op=%s n=%d inputs=%d aliased=%d: %s (index/count %d)", rname(r), n, f, al, aerr, aidx); return; }
      for (i = 0; i < n; i++) { rl[ps][i] = A[i]->min; rh[ps][i] = A[i]->max; } rc[ps] = chash;
      stat_add("calls", 1); stat_add("objects", nb);
    }
    for (i = 0; i < n; i++) if (rl[0][i] != rl[1][i] || rh[0][i] != rh[1][i]) { violation("op=%s n=%d inputs=%d: reads released or uninitialised memory: result[%d] is [%ld,%ld] or [%ld,%ld] depending on its content", rname(r), n, f, i, rl[0][i], rh[0][i], rl[1][i], rh[1][i]); return; }
    if (rc[0] != rc[1]) { violation("op=%s n=%d inputs=%d: printed text depends on released or uninitialised memory", rname(r), n, f); return; }
    stat_add("configurations", 1);
    if (vf_stop()) return;
  }
}
/* allocation failure at every allocation of a call: must stop with an error, not return or crash */
static void job_fail(int j) {
  int r = j % 25, n = (int[]){ 2, 4, 8, 16 }[j / 25]; long k, tot; int al = 0;
  inputs(r, n, 1); poison = 0xDB; mem_reset(); setup(r, n, al); k = nalloc; cap_begin(); call(r, n, 1); cap_end(); tot = nalloc - k;
  for (k = 0; k < tot; k++) {
    pid_t p; int st, s, fd; fflush(0); p = fork();
    if (p == 0) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; for (s = 1; s < 32; s++) sigaction(s, &sa, 0); vf_limit(20); fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
      mem_reset(); setup(r, n, al); fail_at = nalloc + k; call(r, n, 1); _exit(0); }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    CASE(rname(r), n, k, 0, 0); stat_add("faults", 1);
    if (WIFEXITED(st) ? WEXITSTATUS(st) == 0 : WTERMSIG(st) != SIGABRT) { violation("op=%s n=%d: when allocation %ld of %ld fails the call %s instead of reporting it", rname(r), n, k, tot, WIFEXITED(st) ? "returns" : strsignal(WTERMSIG(st))); return; }
  }
}
/* every sequence of elementary operations up to a depth on a pool of intervals */
typedef struct { interval_t *p; i64 lo, hi; } ent_t;
static int depth; static const char *const ON[] = { "neg", "red", "red_twice", "normal", "normal_inv3", "shift", "correct", "add", "sub", "red_mul", "red_scale", "delete_interval" };
static char path[200];
static int pool_ok(ent_t *e, int k) { int i; for (i = 0; i < k; i++) if (!isobj(e[i].p) || e[i].p->min != e[i].lo || e[i].p->max != e[i].hi) { violation("after %s: interval %d [%ld,%ld] was changed or released", path, i, e[i].lo, e[i].hi); return 0; } return 1; }
/* reference result: the same operation on fresh copies with an otherwise empty history (memoised per call shape by value) */
static int step(ent_t *e, int k, int d);
static int after(ent_t *e, int k, int d, interval_t *z, int o, i64 a0, i64 a1, i64 b0, i64 b1) {
  int i, nl = nlive, save = nb; i64 l, h; size_t ap = apos; interval_t *x, *y, *w; int r;
  stat_add("operations", 1);
  if (bad[0]) { violation("after %s: the library %s", path, bad); return 0; }
  if (!isobj(z)) { violation("after %s: the result is not a live object", path); return 0; }
  for (i = 0; i < k; i++) if (e[i].p == z) { violation("after %s: the result is the same object as interval %d", path, i); return 0; }
  if (nlive != k + 1) { violation("after %s: %d objects live instead of %d", path, nlive, k + 1); return 0; }
  if (!pool_ok(e, k)) return 0;
  l = z->min; h = z->max; if (l > h) { violation("after %s: result [%ld,%ld] is not an interval", path, l, h); return 0; }
  /* history independence: fresh copies give the same bounds */
  x = ivapi.mk(a0, a1); y = ivapi.mk(b0, b1); w = o < 7 ? ivops.u[o](x) : o < 10 ? ivops.b[o - 7](x, y) : ivops.scale(b0, x);
  if (w->min != l || w->max != h) { violation("after %s: result [%ld,%ld], but [%ld,%ld] for the same operands on their own", path, l, h, w->min, w->max); return 0; }
  ivapi.del(x); ivapi.del(y); ivapi.del(w); nb = save; apos = ap; (void)nl;
  e[k].p = z; e[k].lo = l; e[k].hi = h;
  if (k < 6) { r = step(e, k + 1, d + 1); if (!r) return 0; }
  ivapi.del(z); if (bad[0]) { violation("after %s: releasing the result: %s", path, bad); return 0; }
  return 1;
}
static int step(ent_t *e, int k, int d) {
  int o, i, j, len = strlen(path), nb0 = nb; size_t ap0 = apos;
  if (d == depth) { mem_scan(); if (bad[0]) { violation("after %s: the library %s", path, bad); return 0; } stat_add("sequences", 1); return 1; }
  for (o = 0; o < 11; o++) for (i = 0; i < k; i++) {
    i64 a0 = e[i].lo, a1 = e[i].hi;
    if (o == 5 && (a0 < 0 || a1 > 12288)) continue;
    if (o == 6 && (a0 < -12289 || a1 > 24577)) continue;
    if (a0 < -(1LL << 30) || a1 > 1LL << 30) continue;
    for (j = 0; j < (o < 7 ? 1 : o < 10 ? k : 2); j++) {
      i64 b0 = o < 7 ? 0 : o < 10 ? e[j].lo : (j ? 8193 : -3), b1 = o >= 7 && o < 10 ? e[j].hi : b0; interval_t *z;
      if (o == 9) { if (b0 < -(1LL << 30) || b1 > 1LL << 30) continue; if (a1 - a0 > 64 && b1 - b0 > 64) continue; }
      snprintf(path + len, sizeof path - len, " %s(%d%s%d)", ON[o], i, o < 7 ? "/" : ",", o < 7 ? 0 : j); CASE("interval operations", o, i, j, d);
      z = o < 7 ? ivops.u[o](e[i].p) : o < 10 ? ivops.b[o - 7](e[i].p, e[j].p) : ivops.scale(b0, e[i].p);
      if (!after(e, k, d, z, o, a0, a1, b0, b1)) return 0;
      nb = nb0; apos = ap0;
    }
  }
  path[len] = 0;
  if (vf_stop()) return 0;
  return 1;
}
static const i64 S0[] = { 0, -1, 6100, 0, 7000, -12289, 12289, 4095 }, S1[] = { 0, 5, 6200, 12288, 7000, -1, 12300, 4096 };
static void job_seq(int j) {
  ent_t e[8]; int a = j % 8, b = j / 8;
  depth = vf_thorough ? 4 : 3;
  mem_reset(); poison = 0xDB; e[0].p = a == 0 || a == 4 ? ivops.point(S0[a]) : ivapi.mk(S0[a], S1[a]); e[1].p = ivapi.mk(S0[b], S1[b]); e[0].lo = S0[a]; e[0].hi = S1[a]; e[1].lo = S0[b]; e[1].hi = S1[b];
  snprintf(path, sizeof path, "[%ld,%ld] [%ld,%ld]:", S0[a], S1[a], S0[b], S1[b]);
  if (!pool_ok(e, 2)) return;
  step(e, 2, 0);
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0; vf_job_limit = 600;
  B = malloc(MAXB * sizeof *B); arena = mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (!B || arena == MAP_FAILED) return 2;
  sample("%s n=1024: every object of the table alive and unchanged, 1024 distinct results, nothing leaked, same bounds for both poisons", AN[1][5]);
  sample("[0,0] [-1,5]: add(0,1) red_mul(2,2) - operands untouched, one new object per operation");
  sample("%s n=8: allocation 5 fails: must stop with an error", AN[0][4]);
  run_jobs("routines", 25 * 12, job_xf);
  run_jobs("allocation failures", 25 * (vf_thorough ? 4 : 3), job_fail);
  run_jobs("operation sequences", 64, job_seq);
  return vf_finish();
}
