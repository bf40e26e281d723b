/* Shared runtime of the exploration harnesses: parallel job pool, measured
 * counters, violation log, crash / hang capture. */
#ifndef VF_COMMON_H
#define VF_COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#define Q 12289
typedef int64_t i64;
typedef uint64_t u64;
typedef int32_t i32;
typedef uint32_t u32;
typedef int16_t i16;
typedef uint16_t u16;

#define VF_MAXSTAT 64
#define VF_MAXVIOL 24
#define VF_VLEN 3000
#define VF_MAXSAMP 40
typedef struct {
  volatile int next_job;
  volatile int nviol;
  volatile int nsamp;
  char viol[VF_MAXVIOL][VF_VLEN];
  char samp[VF_MAXSAMP][400];
  char sname[VF_MAXSTAT][48];
  u64 sval[VF_MAXSTAT];
  int nstat;
  volatile int lock;
  volatile int abort;              /* a hang was found: stop everything */
} vf_shared_t;

static vf_shared_t *vf_sh;
static struct { const char *name; u64 v; } vf_loc[VF_MAXSTAT];
static int vf_nloc;
static int vf_thorough;
static int vf_ncpu = 8;
static const char *vf_only;        /* replay filter (substring of the op name) */

/* current case, for crash reports */
static const char *volatile vf_fn = "(none)";
static volatile i64 vf_inf[6];
static const char *volatile vf_phase = "";
static volatile u64 vf_cnt;        /* cases started: progress, for hang detection */
#define CASE(f, a, b, c, d) (vf_cnt++, vf_fn = (f), vf_inf[0] = (a), vf_inf[1] = (b), vf_inf[2] = (c), vf_inf[3] = (d))

static void vf_lock(void) { while (__sync_lock_test_and_set(&vf_sh->lock, 1)) ; }
static void vf_unlock(void) { __sync_lock_release(&vf_sh->lock); }

static void violation(const char *fmt, ...) {
  va_list ap;
  int k = __sync_fetch_and_add(&vf_sh->nviol, 1);
  if (k < VF_MAXVIOL) {
    va_start(ap, fmt);
    vsnprintf(vf_sh->viol[k], VF_VLEN, fmt, ap);
    va_end(ap);
  }
}
static inline int vf_stop(void) { return vf_sh->abort || vf_sh->nviol >= VF_MAXVIOL; }

static void sample(const char *fmt, ...) {
  va_list ap;
  int k = __sync_fetch_and_add(&vf_sh->nsamp, 1);
  if (k < VF_MAXSAMP) {
    va_start(ap, fmt);
    vsnprintf(vf_sh->samp[k], 400, fmt, ap);
    va_end(ap);
  }
}

static void stat_add(const char *name, u64 v) {
  int i;
  for (i = 0; i < vf_nloc; i++) if (vf_loc[i].name == name || !strcmp(vf_loc[i].name, name)) { vf_loc[i].v += v; return; }
  if (vf_nloc < VF_MAXSTAT) { vf_loc[vf_nloc].name = name; vf_loc[vf_nloc].v = v; vf_nloc++; }
}
static void stat_flush(void) {
  int i, j;
  vf_lock();
  for (i = 0; i < vf_nloc; i++) {
    for (j = 0; j < vf_sh->nstat; j++) if (!strcmp(vf_sh->sname[j], vf_loc[i].name)) break;
    if (j == vf_sh->nstat && j < VF_MAXSTAT) { snprintf(vf_sh->sname[j], 48, "%s", vf_loc[i].name); vf_sh->nstat++; }
    if (j < VF_MAXSTAT) vf_sh->sval[j] += vf_loc[i].v;
    vf_loc[i].v = 0;
  }
  vf_unlock();
  vf_nloc = 0;
}

static int vf_ticking;
/* crash and hang capture inside a worker */
static void vf_crash(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  if (sig == SIGPROF) {
    /* the timer ticks; a hang is a case that has not ended for a whole period (or any case, when the harness set a limit of its own) */
    static u64 last = ~(u64)0;
    if (vf_ticking && (vf_sh->abort || vf_cnt != last)) { if (vf_sh->abort) _exit(3); last = vf_cnt; return; }
    vf_sh->abort = vf_ticking;
    violation("op=%s hang: does not return; phase=%s args=%ld,%ld,%ld,%ld", vf_fn, vf_phase,
              (long)vf_inf[0], (long)vf_inf[1], (long)vf_inf[2], (long)vf_inf[3]);
  } else
    violation("op=%s crash: signal %d (%s) at %p; phase=%s args=%ld,%ld,%ld,%ld", vf_fn, sig, strsignal(sig), si->si_addr, vf_phase,
              (long)vf_inf[0], (long)vf_inf[1], (long)vf_inf[2], (long)vf_inf[3]);
  _exit(3);
}
static void vf_handlers(void) {
  static char alt[65536];
  stack_t ss;
  struct sigaction sa;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGTRAP, SIGXFSZ }, i;
  struct rlimit rl = { 256ul << 20, 256ul << 20 };
  setrlimit(RLIMIT_FSIZE, &rl); /* output without end */
  if (!getenv("VF_NOAS")) { rl.rlim_cur = rl.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &rl); } /* memory without end */
  memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = vf_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
  for (i = 0; i < (int)(sizeof sigs / sizeof sigs[0]); i++) sigaction(sigs[i], &sa, 0);
}
/* one-shot limit in CPU seconds on a single case of a harness's own child */
static void vf_limit(int s) { vf_ticking = 0; struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }
/* progress ticks: CPU seconds without a new case that count as a hang (harness phases without cases are far shorter) */
static int vf_job_limit = 250;
static void vf_tick(void) { int s = vf_thorough ? vf_job_limit : 45; struct itimerval it; memset(&it, 0, sizeof it); vf_ticking = 1; it.it_value.tv_sec = it.it_interval.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }

static void vf_init(int argc, char **argv) {
  const char *t = getenv("VF_TIER");
  vf_thorough = t && !strcmp(t, "thorough");
  if (argc > 1 && argv[1][0]) vf_only = argv[1];
  if (getenv("VF_NCPU")) vf_ncpu = atoi(getenv("VF_NCPU"));
  vf_sh = mmap(0, sizeof *vf_sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (vf_sh == MAP_FAILED) { perror("mmap"); exit(2); }
  setvbuf(stdout, 0, _IOLBF, 0);
}

/* run jobs 0..njobs-1 in vf_ncpu forked workers; a crashed worker is replaced */
static int vf_lite; /* VF_LITE=k: of every k consecutive jobs (the parts of one family) run one */
static void run_jobs(const char *phase, int njobs, void (*fn)(int)) {
  int w, live = 0, lost = 0;
  vf_phase = phase;
  vf_lite = getenv("VF_LITE") ? atoi(getenv("VF_LITE")) : 0;
  vf_sh->next_job = 0;
  fflush(stdout);
  for (w = 0; w < vf_ncpu && w < njobs; w++) live++;
  { int k; for (k = 0; k < live; k++) {
  again:;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      vf_nloc = 0;
      vf_handlers();
      for (;;) {
        int j = __sync_fetch_and_add(&vf_sh->next_job, 1);
        if (j >= njobs || vf_stop()) break;
        if (vf_lite > 1 && j % vf_lite != j / vf_lite % vf_lite) continue;
        vf_cnt++; vf_tick();
        fn(j);
        vf_limit(0);
      }
      stat_flush();
      _exit(0);
    }
  }
  while (live > 0) {
    int st; pid_t p = wait(&st);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed (memory?)\n"); exit(2); }
      violation("op=(worker) phase=%s worker ended abnormally: status 0x%x", phase, st);
    }
    live--;
    if (lost++ < 6 && vf_sh->next_job < njobs && !vf_stop()) { live++; k = live; goto again; }
  } }
}

static int vf_finish(void) {
  int i, n = vf_sh->nviol < VF_MAXVIOL ? vf_sh->nviol : VF_MAXVIOL;
  stat_flush();
  for (i = 0; i < vf_sh->nstat; i++) printf("STAT %s %lu\n", vf_sh->sname[i], (unsigned long)vf_sh->sval[i]);
  for (i = 0; i < (vf_sh->nsamp < VF_MAXSAMP ? vf_sh->nsamp : VF_MAXSAMP); i++) printf("SAMPLE %s\n", vf_sh->samp[i]);
  for (i = 0; i < n; i++) { char *c; for (c = vf_sh->viol[i]; *c; c++) if (*c == '\n') *c = ' '; printf("VIOL %s\n", vf_sh->viol[i]); }
  printf("DONE\n");
  fflush(stdout);
  return n ? 1 : 0;
}

/* ---------- reference arithmetic (independent of the library) ---------- */
static inline i32 modp(i64 x) { x %= Q; return (i32)(x < 0 ? x + Q : x); }
static inline i64 pw(i64 b, i64 e) { i64 r = 1; b %= Q; if (b < 0) b += Q; while (e) { if (e & 1) r = r * b % Q; b = b * b % Q; e >>= 1; } return r; }
static inline i64 inv(i64 b) { return pw(b, Q - 2); }
static inline u32 revbits(u32 x, int k) { u32 r = 0; while (k--) { r = r * 2 + (x & 1); x >>= 1; } return r; }
static inline int lg(u32 n) { int k = 0; while ((1u << k) < n) k++; return k; }

/* schoolbook product modulo X^n+1 */
static void ref_mul(int n, const i32 *a, const i32 *b, i32 *c) {
  static i64 acc[4096];
  int i, j;
  for (i = 0; i < n; i++) acc[i] = 0;
  for (i = 0; i < n; i++) {
    i64 x = a[i];
    if (!x) continue;
    for (j = 0; j < n - i; j++) acc[i + j] += x * b[j];
    for (; j < n; j++) acc[i + j - n] -= x * b[j];
  }
  for (i = 0; i < n; i++) c[i] = modp(acc[i]);
}

/* direct evaluation sum a_i w^(ik), k = 0..n-1 (quadratic) */
static void ref_dft_slow(int n, i64 w, const i32 *a, i32 *out) {
  int i, k;
  i64 wk = 1;
  for (k = 0; k < n; k++) {
    i64 s = 0, x = 1;
    for (i = 0; i < n; i++) { s = (s + a[i] * x) % Q; x = x * wk % Q; }
    out[k] = modp(s);
    wk = wk * w % Q;
  }
}
/* fast reference DFT: recursive decimation, table of powers; validated against the slow one */
static void ref_dft_rec(int n, int stride, const i32 *pwt, int full, const i32 *a, int as, i32 *out) {
  int h = n / 2, k;
  if (n == 1) { out[0] = a[0]; return; }
  ref_dft_rec(h, stride * 2, pwt, full, a, as * 2, out);
  ref_dft_rec(h, stride * 2, pwt, full, a + as, as * 2, out + h);
  for (k = 0; k < h; k++) {
    i32 u = out[k]; u32 v = (u32)((u64)(u32)out[k + h] * (u32)pwt[k * stride] % Q);
    u32 s = u + v, d = u + Q - v;
    out[k] = s >= Q ? s - Q : s;
    out[k + h] = d >= Q ? d - Q : d;
  }
}
static void ref_dft(int n, i64 w, const i32 *a, i32 *out) {
  static i32 pwt[8192]; static int pn; static i64 pwv = -1;
  static i32 canon[8192];
  int i;
  if (pn != n || pwv != w) { i64 x = 1; for (i = 0; i < n; i++) { pwt[i] = (i32)x; x = x * w % Q; } pn = n; pwv = w; }
  for (i = 0; i < n; i++) canon[i] = modp(a[i]);
  ref_dft_rec(n, 1, pwt, n, canon, 1, out);
}
static void ref_selfcheck(void) {
  /* the fast reference must agree with the definition on every basis vector */
  int n;
  for (n = 1; n <= 128; n *= 2) {
    i64 w = pw(11, (Q - 1) / n);
    i32 a[128], x[128], y[128];
    int i, j;
    for (i = 0; i < n; i++) {
      for (j = 0; j < n; j++) a[j] = (j == i) ? 12288 - i : (i * 7 + j * j * 31) % Q;
      ref_dft(n, w, a, x);
      ref_dft_slow(n, w, a, y);
      if (memcmp(x, y, n * 4)) { fprintf(stderr, "reference self-check failed\n"); exit(2); }
    }
  }
}

/* the eight transform kinds */
enum { CT_R2S, MULCT_R2S, CT_S2R, MULCT_S2R, GS_R2S, GSMUL_R2S, GS_S2R, GSMUL_S2R, CT_R2S_V1, NKIND };
static const char *const kind_name[NKIND] = { "ct_rev2std", "mul_ct_rev2std", "ct_std2rev", "mul_ct_std2rev", "gs_rev2std",
  "gs_rev2std_mul", "gs_std2rev", "gs_std2rev_mul", "ct_rev2std_v1" };
static inline int kind_in_rev(int k) { return k == CT_R2S || k == MULCT_R2S || k == GS_R2S || k == GSMUL_R2S || k == CT_R2S_V1; }
static inline int kind_premul(int k) { return k == MULCT_R2S || k == MULCT_S2R; }
static inline int kind_postmul(int k) { return k == GSMUL_R2S || k == GSMUL_S2R; }
static inline int kind_tab_rev(int k) { return k == CT_S2R || k == MULCT_S2R || k == GS_R2S || k == GSMUL_R2S; }
static inline int kind_mixed(int k) { return k & 1; }

/* exact documented transform: in/out raw arrays in the kind's own orders */
static void ref_kind(int kind, int n, i64 psi, const i32 *in, i32 *out) {
  static i32 x[8192], y[8192];
  int L = lg(n), i;
  i64 w = psi * psi % Q, t;
  for (i = 0; i < n; i++) x[kind_in_rev(kind) ? (int)revbits(i, L) : i] = modp(in[i]);
  if (kind_premul(kind)) for (i = 0, t = 1; i < n; i++, t = t * psi % Q) x[i] = (i32)(x[i] * t % Q);
  ref_dft(n, w, x, y);
  if (kind_postmul(kind)) for (i = 0, t = 1; i < n; i++, t = t * psi % Q) y[i] = (i32)(y[i] * t % Q);
  for (i = 0; i < n; i++) out[i] = kind_in_rev(kind) ? y[i] : y[revbits(i, L)];
}

/* documented twiddle table for a kind: t+j -> psi^(n/2t) * omega^((n/2t)*(j|bitrev j)) [* 1/3] */
static void ref_table(int kind, int n, i64 psi, int reduced, i32 *tab) {
  int t, j, k;
  i64 w = psi * psi % Q;
  tab[0] = 0;
  for (t = 1, k = 0; t < n; t *= 2, k++) {
    i64 b = kind_mixed(kind) ? pw(psi, n / (2 * t)) : 1, c = pw(w, n / (2 * t)), x = 1;
    for (j = 0; j < t; j++) {
      i64 v = b * x % Q;
      if (reduced) { v = v * 8193 % Q; if (v > 6144) v -= Q; }
      tab[t + (kind_tab_rev(kind) ? (int)revbits(j, k) : j)] = (i32)v;
      x = x * c % Q;
    }
  }
}

/* array to text for reports: run-length of the nonzero entries */
static const char *show(const i32 *a, int n) {
  static char buf[4][1200];
  static int which;
  char *b = buf[which = (which + 1) & 3];
  int o = 0, i, same = 1;
  for (i = 1; i < n; i++) if (a[i] != a[0]) same = 0;
  if (same) { snprintf(b, 1200, "[all %d]", a[0]); return b; }
  o += snprintf(b + o, 1200 - o, "{");
  for (i = 0; i < n && o < 1100; i++) if (a[i]) o += snprintf(b + o, 1200 - o, "%d:%d ", i, a[i]);
  snprintf(b + o, 1200 - o, i < n ? "...}" : "}");
  return b;
}
#endif
