/* C26: the known-answer programs against products that are wrong in exactly one coefficient.
 * The program under test is linked as vf_prog_main; every product is a stand-in that recognises the vector pair it is given, answers the recorded
 * product (with the fault of this run), and overwrites its operands as a real product may. PROD(v) names product v of the program. */
#include "common.h"
#include "data_poly1024.h"
#include <fcntl.h>
extern int vf_prog_main(int, char **);
static i32 A[REPETITIONS][1024], B[REPETITIONS][1024], C[REPETITIONS][1024]; /* pristine copies */
static struct { int v, i, j; i32 d; } F;                                    /* the fault of this run; v = 0: none */
static volatile unsigned char *seen;                                        /* shared: [v-1][i] calls */
static volatile int *odd;                                                   /* shared: a call whose operands are no vector pair */
static int last;
static void product(int v, i32 *c, i32 *a, i32 *b) {
  int k, i = -1, j;
  for (k = 0; k < REPETITIONS && i < 0; k++) {
    int t = (last + k) % REPETITIONS;
    if ((a[0] == A[t][0] && !memcmp(a, A[t], sizeof A[t]) && !memcmp(b, B[t], sizeof B[t])) ||
        (a[0] == B[t][0] && !memcmp(a, B[t], sizeof B[t]) && !memcmp(b, A[t], sizeof A[t]))) i = t;
  }
  if (i < 0) { *odd = v; _exit(77); }
  last = i + 1;
  for (j = 0; j < 1024; j++) { a[j] = -777 - j; b[j] = 40000 + j; }
  memcpy(c, C[i], sizeof C[i]);
  if (F.v == v && F.i == i) c[F.j] += F.d;
  if (!F.v && seen[(v - 1) * REPETITIONS + i] < 255) seen[(v - 1) * REPETITIONS + i]++;
}
#define DEF(v) void PROD(v)(i32 *c, i32 *a, i32 *b) { product(v, c, a, b); }
DEF(1) DEF(2) DEF(3) DEF(4) DEF(5)
static int run(void) { /* exit status, or 256 + signal */
  int st; pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(2); }
  if (!p) { static char *av[] = { "kat", 0 }; last = 0; vf_limit(20); exit(vf_prog_main(1, av)); }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static void fault(int v, int i, int j, i32 d) {
  int s;
  F.v = v; F.i = i; F.j = j; F.d = (i32)d; CASE(PNAME, v, i, j, d);
  s = run();
  stat_add("faulty_runs", 1);
  if (s == 0) violation("%s: product %d is wrong by %d in coefficient %d of known-answer vector %d, and the program still reports success", PNAME, v, d, j, i);
  else if (s == 77 || s == 3) violation("%s: product %d is wrong by %d in coefficient %d of vector %d, and the program does not end normally (status %d)", PNAME, v, d, j, i, s);
}
static const i32 D[] = { 1, -1, Q, -Q, 65536, (i32)0x80000000, 2, 256, -65536, 0x40000000 };
#define SLICE 64
static void job(int k) { /* one (v, i, slice of coefficients) */
  int sl = k % (1024 / SLICE), i = k / (1024 / SLICE) % REPETITIONS, v = k / (1024 / SLICE) / REPETITIONS + 1, j, q;
  for (j = sl * SLICE; j < (sl + 1) * SLICE && !vf_stop(); j++) {
    int whole = vf_thorough || i == 0 || i == REPETITIONS - 1 || i == 50 || j < 4 || j >= 1020 || !(j & (j - 1)) || !((j + 1) & j) || j % 193 == i % 193;
    if (!whole) continue;
    if (vf_thorough) for (q = 0; q < 4; q++) fault(v, i, j, D[(j + i + q * 3) % 10]);
    else fault(v, i, j, D[(j + i) % 10]);
    if (!vf_thorough && (j == 0 || j == 1023 || j == 512)) for (q = 0; q < 10; q++) fault(v, i, j, D[q]);
  }
}
int main(int argc, char **argv) {
  int s, v, i, nul;
  vf_init(argc, argv); vf_only = 0;
  build_kat();
  for (i = 0; i < REPETITIONS; i++) { memcpy(A[i], a[i], sizeof A[i]); memcpy(B[i], b[i], sizeof B[i]); memcpy(C[i], c[i], sizeof C[i]); }
  memset(a, 0, sizeof a); memset(b, 0, sizeof b); memset(c, 0, sizeof c); /* the program fills them itself */
  seen = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); odd = (volatile int *)(seen + 4096);
  fflush(stdout); int keep = dup(1); nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  s = run();
  if (*odd) violation("%s: product %d is called with operands that are no known-answer pair", PNAME, *odd);
  else if (s) violation("%s: every product is right, and the program fails (status %d)", PNAME, s);
  else for (v = 1; v <= 5; v++) for (i = 0; i < REPETITIONS; i++) if (!seen[(v - 1) * REPETITIONS + i]) { violation("%s: product %d is never tried on known-answer vector %d", PNAME, v, i); break; }
  stat_add("clean_runs", 1);
  sample("%s: fault-free run ends with status %d after %d x 5 products", PNAME, s, REPETITIONS);
  stat_flush();
  if (!vf_sh->nviol) run_jobs(PNAME, 5 * REPETITIONS * (1024 / SLICE), job);
  fflush(stdout); dup2(keep, 1);
  return vf_finish();
}
