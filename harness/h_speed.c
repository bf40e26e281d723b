/* C27: the speed programs on a virtual clock. The time-stamp counter is disabled for the process, so each RDTSC traps and the handler answers the
 * virtual time; the products are stand-ins that only let it pass. What is printed is compared with the median and average of the durations handed out. */
#include "common.h"
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <ctype.h>
extern int vf_prog_main(int, char **);
static u64 now_;
static int H, P;              /* history and its parameter */
static u64 NN[6];             /* calls per product, learnt from the first run */
typedef struct { u64 calls[6], reads, bad; int order[64], nord; } rec_t;
static rec_t *R;
static void tsc(int sig, siginfo_t *si, void *u) {
  ucontext_t *c = u; greg_t *g = c->uc_mcontext.gregs; unsigned char *p = (unsigned char *)g[REG_RIP];
  if (p[0] == 0x0f && p[1] == 0x31) g[REG_RIP] += 2;
  else if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) { g[REG_RIP] += 3; g[REG_RCX] = 0; }
  else { prctl(PR_SET_TSC, PR_TSC_ENABLE); signal(SIGSEGV, SIG_DFL); return; }
  g[REG_RAX] = (u32)now_; g[REG_RDX] = (u32)(now_ >> 32); R->reads++;
}
/* duration of call k (of n) in the current history */
static u64 dur(u64 k, u64 n) {
  switch (H) {
  case 0: return 5000;
  case 1: return (k + 1) << 20;
  case 2: return (n - k) << 20;
  case 3: { u64 pos[] = { 0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1 }; return k == pos[P % 9] ? (P < 9 ? 1000000000000ull : 0) : 2000003; }
  case 4: { u64 m = n / 2 - 2 + P % 5, w = P / 5; /* m large values: first, last, or spread */
      int big = w == 0 ? k < m : w == 1 ? k >= n - m : (k * m / n != (k + 1) * m / n); return big ? 9000001 : 17; }
  case 5: return (1ull << 40) + (k ^ (k >> 1)) * 4099;
  case 6: return 1 + (k * 2654435761u) % 1000003;               /* scattered, distinct-ish */
  case 7: return k < n / 2 ? 3 * k + 1 : 3 * (n - k);           /* organ pipe */
  case 8: return k % 7 * 100 + 1;                                /* sawtooth */
  case 9: return k % 2 ? 0 : 0xffffffffull;
  case 10: return 0x7ffffff0ull + k % 32;                        /* either side of 2^31 */
  case 11: return 0xfffffff0ull + k % 32;                        /* either side of 2^32 */
  }
  return 1;
}
static const int NPAR[] = { 1, 1, 1, 18, 15, 1, 1, 1, 1, 1, 1, 1 };
static const u64 START[] = { 0, 0xfffffff0ull, 1ull << 40, (1ull << 63) - 100000 };
static void product(int v) {
  if (!R->nord || R->order[R->nord - 1] != v) { if (R->nord < 64) R->order[R->nord++] = v; }
  now_ += NN[v] ? dur(R->calls[v] % NN[v], NN[v]) : 5000;
  R->calls[v]++;
}
#define DEF(v) void PROD(v)(i32 *c, i32 *a, i32 *b) { product(v); }
DEF(1) DEF(2) DEF(3) DEF(4) DEF(5)
static char out[65536];
static int run(void) {
  int fd = syscall(SYS_memfd_create, "o", 0), st, n; pid_t p;
  memset(R, 0, sizeof *R);
  fflush(stdout);
  if ((p = fork()) < 0) { perror("fork"); _exit(2); }
  if (!p) {
    static char *av[] = { "speed", 0 }; static char alt[65536]; stack_t ss; struct sigaction sa;
    dup2(fd, 1); vf_limit(60);
    memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa); sa.sa_sigaction = tsc; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, 0);
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV)) { perror("PR_SET_TSC"); _exit(98); }
    exit(vf_prog_main(1, av));
  }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  n = pread(fd, out, sizeof out - 1, 0); out[n < 0 ? 0 : n] = 0; close(fd);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static int cmp(const void *x, const void *y) { u64 a = *(u64 *)x, b = *(u64 *)y; return a < b ? -1 : a > b; }
/* the number after the next occurrence of word in *s */
static int field(char **s, const char *word, u64 *v) {
  char *p = strcasestr(*s, word); if (!p) return 0;
  for (p += strlen(word); *p && !isdigit((unsigned char)*p); p++) if (*p == '\n') return 0;
  if (!*p) return 0;
  *v = strtoull(p, s, 10); return 1;
}
static int nhist(void) { int h, n = 0; for (h = 0; h < 12; h++) n += NPAR[h]; return n; }
static void job(int k) {
  int s, v, st = 0; u64 n, i, hi, avg, med, mean; char *at = out;
  static int own; if (!own) { own = 1; R = mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } /* one record per worker */
  st = k % (vf_thorough ? 4 : 1); k /= vf_thorough ? 4 : 1; if (!vf_thorough) st = k % 4;
  for (H = 0, P = k; P >= NPAR[H]; P -= NPAR[H++]) ;
  CASE(PNAME, H, P, st, 0);
  now_ = START[st];
  s = run();
  stat_add("histories", 1); stat_add("clock_reads", R->reads);
  if (s) { violation("%s: history %d/%d: the program fails (status %d)", PNAME, H, P, s); return; }
  for (v = 1; v <= 5; v++) {
    char nm[16], *p; u64 *d = malloc((n = NN[v]) * 8); unsigned __int128 sum = 0;
    for (i = 0; i < n; i++) sum += d[i] = dur(i, n);
    qsort(d, n, 8, cmp); hi = d[n / 2]; avg = sum / n; free(d);
    stat_add("timed_calls", n); sprintf(nm, "product%d", v);
    if (R->calls[v] != n) { violation("%s: product %d is called %lu times, %lu before", PNAME, v, (u64)R->calls[v], n); return; }
    if ((p = strstr(at, nm))) at = p + strlen(nm);
    else { violation("%s: no result is printed for product %d", PNAME, v); return; }
    { char *a1 = at, *a2 = at;
      if (!field(&a1, "median", &med) || !field(&a2, "average", &mean)) { violation("%s: no median or average is printed for product %d", PNAME, v); return; }
      if ((p = strstr(at, "product")) && (p < a1 || p < a2)) { violation("%s: no median and average between the names of product %d and the next", PNAME, v); return; }
    }
    if (med != hi) { violation("%s: clock history %d/%d from %lu: median of product %d printed as %lu, the durations have %lu", PNAME, H, P, START[st], v, med, hi); return; }
    if (mean != avg) { violation("%s: clock history %d/%d from %lu: average of product %d printed as %lu, the durations have %lu", PNAME, H, P, START[st], v, mean, avg); return; }
  }
}
int main(int argc, char **argv) {
  int s, v;
  vf_init(argc, argv); vf_only = 0; vf_job_limit = 250;
  R = mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s = run();
  if (s == 98) { fprintf(stderr, "the time-stamp counter cannot be disabled here\n"); return 2; }
  if (s) { violation("%s: the program fails (status %d)", PNAME, s); return vf_finish(); }
  for (v = 1; v <= 5; v++) if (!R->calls[v]) { violation("%s: product %d is never timed", PNAME, v); return vf_finish(); }
  if (R->reads < 2) { printf("SAMPLE %s does not read the time-stamp counter\nSTAT untimed_programs 1\nDONE\n", PNAME); return 0; }
  for (v = 1; v <= 5; v++) NN[v] = R->calls[v];
  sample("%s: %lu calls of each product, %lu clock reads", PNAME, (u64)NN[1], (u64)R->reads);
  run_jobs(PNAME, nhist() * (vf_thorough ? 4 : 1), job);
  return vf_finish();
}
