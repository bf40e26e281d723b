/* C10 / C11 / C12: the table generators.
 * argv[2] = c10 | c11 | c12 ; argv[3] = directory with the generator binaries (plain, static; <name>_f with fault shim);
 * argv[4] = scratch directory */
#include "net.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <setjmp.h>
#include <ctype.h>
static const char *BIN, *SCR;
static char wd[300];
static const char *GNAME[3] = { "make_tables", "make_red_tables", "make_bitrev_table" };
static char base[300]; static int keep_n, bench;
static void fname(int g, long n, const char *ext, char *b) { if (g == 2) sprintf(b, "bitrev%ld_table.%s", n, ext); else sprintf(b, "%s%ld_tables.%s", g ? "ntt_red" : "ntt", n, ext); }
static void fresh(void) { static int c; if (!base[0]) { snprintf(base, sizeof base, "%s/w%d", SCR, (int)getpid()); mkdir(base, 0755); } snprintf(wd, sizeof wd, "%s/d%d", base, c++); if (mkdir(wd, 0755)) { perror(wd); _exit(2); } }
static int count_files(void) { DIR *d = opendir(wd); struct dirent *e; int n = 0; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static void wipe(void) { DIR *d = opendir(wd); struct dirent *e; char p[600]; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { snprintf(p, sizeof p, "%s/%s", wd, e->d_name); if (unlink(p)) rmdir(p); } closedir(d); }
static void drop(void) { wipe(); rmdir(wd); }
/* run a generator in wd; returns exit status, 256+sig, or -1 on timeout */
static int run(const char *prog, char *const *args, const char *fault, int logfd, long fsize) {
  char path[400]; const char *argv[8]; int i, st; pid_t pid; struct timespec t0, t1;
  snprintf(path, sizeof path, "%s/%s", BIN, prog);
  argv[0] = prog; for (i = 0; args[i] && i < 6; i++) argv[i + 1] = args[i]; argv[i + 1] = 0;
  fflush(stdout);
  pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    char lb[32], fb[80]; char *env[4]; int ne = 0, dn;
    struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
    if (chdir(wd)) _exit(126);
    dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGXFSZ, SIG_IGN);
    { struct rlimit r = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max = 2ul << 30; if (!getenv("VF_NOAS")) setrlimit(RLIMIT_AS, &r); }
    if (fsize >= 0) { struct rlimit r = { fsize, fsize }; setrlimit(RLIMIT_FSIZE, &r); }
    { struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r); r.rlim_cur = r.rlim_max = 20; setrlimit(RLIMIT_CPU, &r); }
    if (fault) { snprintf(fb, sizeof fb, "VF_FAULT=%s", fault); env[ne++] = fb; }
    if (logfd >= 0) { snprintf(lb, sizeof lb, "VF_LOGFD=%d", logfd); env[ne++] = lb; }
    env[ne] = 0;
    execve(path, (char **)argv, env); _exit(127);
  }
  if (waitpid(pid, &st, 0) < 0) { perror("wait"); _exit(2); }
  stat_add("generator_runs", 1);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? -1 : 256 + WTERMSIG(st);
  if (WEXITSTATUS(st) == 127 || WEXITSTATUS(st) == 126) { fprintf(stderr, "exec failed\n"); _exit(2); }
  return WEXITSTATUS(st);
}
static char *slurp(const char *f, long *len) {
  char p[600]; int fd; struct stat s; char *b; snprintf(p, sizeof p, "%s/%s", wd, f);
  fd = open(p, O_RDONLY); if (fd < 0) return 0; fstat(fd, &s); if (!S_ISREG(s.st_mode)) { close(fd); return 0; } b = malloc(s.st_size + 1);
  if (read(fd, b, s.st_size) != s.st_size) { fprintf(stderr, "read\n"); _exit(2); } b[s.st_size] = 0; *len = s.st_size; close(fd); return b;
}
static void uncomment(char *s) { char *o = s; while (*s) { if (s[0] == '/' && s[1] == '*') { s += 2; while (*s && !(s[0] == '*' && s[1] == '/')) s++; if (*s) s += 2; *o++ = ' '; } else if (s[0] == '/' && s[1] == '/') { while (*s && *s != '\n') s++; } else *o++ = *s++; } *o = 0; }
/* find array `name` in text; parse its initialiser; returns count or -1 */
static char *ident(char *s, const char *name) { int L = strlen(name); char *p = s; while ((p = strstr(p, name))) { int a = p == s || !(isalnum((unsigned char)p[-1]) || p[-1] == '_'), b = !(isalnum((unsigned char)p[L]) || p[L] == '_'); if (a && b) return p; p += L; } return 0; }
static int arr(char *s, const char *name, long *v, int max) {
  char *p = ident(s, name); int n = 0;
  if (!p) return -1;
  p = strchr(p, '='); if (!p) return -1; p = strchr(p, '{'); if (!p) return -1; p++;
  for (;;) { while (*p && (isspace((unsigned char)*p) || *p == ',' || *p == '{' || (*p == '}' && p[1] != ';' && 0))) p++; 
    if (*p == '}') { char *q = p + 1; while (isspace((unsigned char)*q)) q++; if (*q == ';' || !*q) return n; p++; continue; }
    char *e; long x = strtol(p, &e, 0); if (e == p) return -2; if (n < max) v[n] = x; n++; p = e; }
}
static int param(char *s, const char *name, long *v) { char *p = ident(s, name), *e; if (!p) return 0; p += strlen(name); while (isspace((unsigned char)*p)) p++; if (*p == '=') p++; while (isspace((unsigned char)*p) || *p == '(') p++; *v = strtol(p, &e, 0); return e != p; } /* constant or macro */
static long V[70000];
static void power_ref(int n, i64 s, i64 y, i32 *o) { int i; i64 x = s; for (i = 0; i < n; i++) { o[i] = (i32)x; x = x * y % Q; } }
static void c10_one(int g, int n, int psi, int compile) {
  char nb[16], pb[16], fh[64], fc[64], nm[80]; char *args[3] = { nb, pb, 0 }; long len; char *h, *c; int r, i, k;
  static i32 want[2048];
  i64 iv = inv(psi), w = (i64)psi * psi % Q, iw = inv(w), in = inv(n), i3 = inv(3);
  sprintf(nb, "%d", n); sprintf(pb, "%d", psi);
  CASE(GNAME[g], n, psi, 0, 0);
  r = run(GNAME[g], args, 0, -1, -1);
  if (r) { violation("%s %d %d: exit status %d on valid parameters", GNAME[g], n, psi, r); return; }
  fname(g, n, "h", fh); fname(g, n, "c", fc);
  h = slurp(fh, &len); c = slurp(fc, &len);
  if (!h || !c) { violation("%s %d %d: output files missing", GNAME[g], n, psi); free(h); free(c); return; }
  uncomment(h); uncomment(c);
  { struct { const char *nm; i64 v; int red; } P[] = { { "psi", psi, 2 }, { "omega", w, 2 }, { "inv_psi", iv, 2 }, { "inv_omega", iw, 2 }, { "inv_n", in, 2 }, { "inv_k", i3, 1 }, { "rescale8", pw(i3, 8) * in % Q, 1 }, { "rescale6", pw(i3, 6) * in % Q, 1 } };
    for (i = 0; i < 8; i++) { long v; if (P[i].red == 1 && !g) continue; if (bench && i == 7) continue; sprintf(nm, "%s%d_%s", g ? "ntt_red" : "ntt", n, P[i].nm);
      if (bench && i == 6 && !param(h, nm, &v)) nm[strlen(nm) - 1] = 0; /* called rescale in the benchmark copy */
      if (!param(h, nm, &v)) { violation("%s %d %d: parameter %s not defined in the header", GNAME[g], n, psi, nm); goto out; }
      if (v != P[i].v) { violation("%s %d %d: %s = %ld, want %ld", GNAME[g], n, psi, nm, v, (long)P[i].v); goto out; } stat_add("entries", 1); } }
  { static const char *TN[] = { "psi_powers", "inv_psi_powers", "scaled_inv_psi_powers", "scaled_inv_psi_powers_var", "omega_powers", "omega_powers_rev", "inv_omega_powers", "inv_omega_powers_rev", "mixed_powers", "mixed_powers_rev", "inv_mixed_powers", "inv_mixed_powers_rev", "psi_powers_rev", "inv_psi_powers_rev" };
    for (k = 0; k < 14; k++) {
      if (k == 3 && (!g || bench)) continue;
      sprintf(nm, "%s%d_%s", g ? "ntt_red" : "ntt", n, TN[k]);
      i64 f = g ? i3 : 1;
      switch (k) {
      case 0: power_ref(n, f, psi, want); break; case 1: power_ref(n, f, iv, want); break;
      case 2: power_ref(n, g ? pw(i3, 8) * in % Q : in, iv, want); break; case 3: power_ref(n, pw(i3, 6) * in % Q, iv, want); break;
      case 12: case 13: { /* undeclared extras, if written: [t+j] = (y^(n/2t))^bitrev(j) */ if (!ident(c, nm)) continue; i64 y = k == 12 ? psi : iv; int t, j, q; want[0] = 0; for (t = 1, q = 0; t < n; t *= 2, q++) for (j = 0; j < t; j++) want[t + revbits(j, q)] = (i32)(pw(pw(y, n / (2 * t)), j) * f % Q); break; }
      default: { int kk = k - 4, rev = kk & 1, inverse = (kk >> 1) & 1, mixed = kk >> 2, kind = mixed ? (rev ? MULCT_S2R : MULCT_R2S) : (rev ? CT_S2R : CT_R2S); ref_table(kind, n, inverse ? iv : psi, g, want); }
      }
      r = arr(c, nm, V, 70000);
      if (r != n) { violation("%s %d %d: table %s has %d entries, want %d", GNAME[g], n, psi, nm, r, n); goto out; }
      for (i = 0; i < n; i++) { i64 z = want[i]; if (g && z > 6144) z -= Q; if (V[i] != z) { violation("%s %d %d: %s[%d] = %ld, want %ld", GNAME[g], n, psi, nm, i, V[i], (long)z); goto out; } }
      stat_add("entries", n);
    } }
  if (compile) { /* header twice, tables declared with n elements of 16 bits */
    char p[700], cmd[2000]; FILE *f; snprintf(p, sizeof p, "%s/u.c", wd); f = fopen(p, "w");
    fprintf(f, "#include \"%s\"\n#include \"%s\"\n", fh, fh);
    { static const char *D[] = { "psi_powers", "inv_psi_powers", "scaled_inv_psi_powers", "omega_powers", "omega_powers_rev", "inv_omega_powers", "inv_omega_powers_rev", "mixed_powers", "mixed_powers_rev", "inv_mixed_powers", "inv_mixed_powers_rev", "scaled_inv_psi_powers_var" };
      for (i = 0; i < 11 + (g && !bench); i++) fprintf(f, "typedef char c%d[sizeof(%s%d_%s) == %d ? 1 : -1];\nconst void *p%d = %s%d_%s;\n", i, g ? "ntt_red" : "ntt", n, D[i], 2 * n, i, g ? "ntt_red" : "ntt", n, D[i]); }
    fprintf(f, "int main(void) { return 0; }\n"); fclose(f);
    snprintf(cmd, sizeof cmd, "cd %s && gcc -std=c99 -w -Werror=overflow -o u u.c %s >/dev/null 2>&1", wd, fc);
    if (system(cmd)) violation("%s %d %d: the generated files do not compile and link with a program using the declared tables", GNAME[g], n, psi);
    stat_add("compiled", 1);
    snprintf(p, sizeof p, "%s/u.c", wd); unlink(p); snprintf(p, sizeof p, "%s/u", wd); unlink(p);
  }
out:
  stat_add("pairs", 1);
  free(h); free(c);
}
static void c10_job(int j) {
  int g = j % 2, s = 10 - (j / 2) % 11, part = j / 22, n = 2 << s, p, c = 0;
  fresh();
  for (p = 2; p < Q; p++) { if (!valid_psi(n, p)) continue; if (c++ % 8 != part) continue;
    c10_one(g, n, p, c <= 8 && (part == 0 || part == 5)); /* files of the previous root are overwritten in place */
    if (vf_stop()) break; }
  drop();
}
static void c10_bitrev(int j) {
  int n = 2 << j, L = j + 1, i, np = 0, r; char nb[16]; char *args[2] = { nb, 0 }; char fh[64], fc[64], nm[64]; char *h, *c; long len, v; static unsigned char seen[65536];
  fresh(); sprintf(nb, "%d", n); CASE(GNAME[2], n, 0, 0, 0);
  r = run(GNAME[2], args, 0, -1, -1);
  if (r) { violation("make_bitrev_table %d: exit status %d", n, r); return; }
  fname(2, n, "h", fh); fname(2, n, "c", fc); h = slurp(fh, &len); c = slurp(fc, &len);
  if (!h || !c) { violation("make_bitrev_table %d: output files missing", n); return; }
  { char cmd[1200]; snprintf(cmd, sizeof cmd, "cd %s && gcc -std=gnu99 -w -Werror=overflow -c %s -o /dev/null >/dev/null 2>&1", wd, fc); if (system(cmd)) violation("make_bitrev_table %d: the generated files do not compile", n); stat_add("compiled", 1); }
  uncomment(h); uncomment(c);
  for (i = 0; i < n; i++) np += (u32)i < revbits(i, L);
  sprintf(nm, "BITREV%d_NPAIRS", n); if (!param(h, nm, &v)) v = -1;
  if (v != np) violation("make_bitrev_table %d: %s is %ld, want %d", n, nm, v, np);
  sprintf(nm, "bitrev%d", n); r = arr(c, nm, V, 70000);
  if (r != 2 * np) violation("make_bitrev_table %d: %d numbers listed, want %d", n, r, 2 * np);
  else { memset(seen, 0, sizeof seen); for (i = 0; i < np; i++) { long x = V[2 * i], y = V[2 * i + 1]; if (x < 0 || y < 0 || x >= n || y >= n || x >= y || (long)revbits(x, L) != y || seen[x]) { violation("make_bitrev_table %d: pair %d (%ld,%ld)", n, i, x, y); break; } seen[x] = 1; } }
  stat_add("entries", 2 * np); stat_add("pairs", 1); drop();
}
static void job10(int j) { if (j < 176) c10_job(j); else c10_bitrev(j - 176); }

/* ---------------- C11 ---------------- */
#ifdef C11
extern int gen0(int, char **), gen1(int, char **), gen2(int, char **);
static sigjmp_buf jb; static volatile int opened; static volatile int inproc;
void vf_exit(int s) { siglongjmp(jb, 1000 + (s & 255)); }
void vf__exit(int s) { siglongjmp(jb, 1000 + (s & 255)); }
FILE *vf_fopen(const char *p, const char *m) { opened = 1; siglongjmp(jb, 5000); }
void vf_abort(void) { siglongjmp(jb, 1134); }
int vf_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static void on_vt(int s) { siglongjmp(jb, 9000); }
/* returns status 0..255, 5000 opens a file, 9000 does not return */
static int inprocess(int g, char **av, int ac) {
  int r = sigsetjmp(jb, 1);
  if (!r) { r = (g == 0 ? gen0 : g == 1 ? gen1 : gen2)(ac, av); return r & 255; }
  return r >= 1000 && r < 5000 ? r - 1000 : r;
}
static int lim_set;
static void invalid(int g, char *const *args, const char *why, int real) {
  char *av[10]; int ac = 0, r, k; struct itimerval it;
  if (vf_stop()) return;
  av[ac++] = (char *)GNAME[g]; for (k = 0; args[k]; k++) av[ac++] = args[k]; av[ac] = 0;
  stat_add("argument_lists", 1);
  CASE(GNAME[g], 0, 0, 0, 0);
  if (!real) {
    if (!lim_set) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_vt; sigaction(SIGVTALRM, &sa, 0); lim_set = 1; }
    memset(&it, 0, sizeof it); it.it_value.tv_sec = 3; setitimer(ITIMER_VIRTUAL, &it, 0);
    r = inprocess(g, av, ac);
    memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, 0);
    if (r != 0 && r < 5000) return;
  }
  /* accepted, opened a file or did not return: decide with the real program */
  fresh(); r = run(GNAME[g], args, 0, -1, -1); stat_add("real_runs", 1);
  if (r == -1) vf_sh->abort = 1, violation("%s %s %s %s: does not terminate (%s)", GNAME[g], args[0] ? args[0] : "", args[0] && args[1] ? args[1] : "", args[0] && args[1] && args[2] ? args[2] : "", why);
  else if (r == 0) violation("%s %s %s: accepted (%s)", GNAME[g], args[0] ? args[0] : "", args[0] && args[1] ? args[1] : "", why);
  else if (count_files()) violation("%s %s %s: fails with status %d but leaves a file behind (%s)", GNAME[g], args[0] ? args[0] : "", args[0] && args[1] ? args[1] : "", r, why);
  drop();
}
static int pow2(long n) { return n >= 2 && (n & (n - 1)) == 0; }
static void c11_sizes(int j) { /* all sizes with several candidate roots */
  long n; int g; char nb[32], pb[16]; static const int PS[] = { 2, 7, 10, 11, 49, 1014, 1002, 12288, 1212, 6145 }; int k;
  for (n = -200 + j; n <= 140000; n += 64) {
    sprintf(nb, "%ld", n);
    for (g = 0; g < 2; g++) for (k = 0; k < (n < 5000 || pow2(n) ? 10 : 3); k++) { char *a[3] = { nb, pb, 0 }; sprintf(pb, "%d", PS[k]); if (pow2(n) && n < 4096 && valid_psi(n, PS[k])) continue; invalid(g, a, "size sweep", 0); if (vf_stop()) return; }
    if (!(pow2(n) && n <= 32768)) { char *a[2] = { nb, 0 }; invalid(2, a, "size sweep", 0); if (vf_stop()) return; }
  }
}
static void c11_roots(int j) { /* all candidate roots for all power-of-two sizes (and a few others) */
  long n; int g, k, p; char nb[32], pb[16];
  for (k = 0; k < 34; k++) { n = k < 20 ? 2L << k : (long[]){ 3, 6, 12, 1023, 1025, 1536, 2047, 3072, 4095, 6144, 12288, 12289, 24576, 1000 }[k - 20]; sprintf(nb, "%ld", n);
    for (p = -70 + j; p <= 26000; p += 64) for (g = 0; g < 2; g++) { char *a[3] = { nb, pb, 0 }; if (pow2(n) && valid_psi(n, p)) continue; sprintf(pb, "%d", p); invalid(g, a, "root sweep", 0); if (vf_stop()) return; } }
}
#define NBIG 51
static void c11_big(int j) {
  static const char *S[] = { "2147483647", "2147483648", "2147483664", "4294967295", "4294967296", "4294967298", "4294967312", "4294968320", "-2147483648", "-2147483632", "-4294967280", "-16", "-2", "-1024", "0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775792", "18446744073709551615", "18446744073709551616", "18446744073709551632", "99999999999999999999999", "65535", "65536", "65537", "99999", "100000", "131072", "1048576", "16777216", "1073741824", "4096", "8192", "16384", "32769", "12289", "12290", "24578", "3", "020", "0100", "02000", "00400", "010", "02274", "01750", "01766", "+20" };
  static const char *P[] = { "2", "1212", "1014", "10", "7", "0", "1", "-1", "12288", "12289", "13501", "-11077", "4294968508", "2147484860", "-4294966084", "18446744073709552828", "99999999999999999999" };
  int i = j % NBIG, k, g, real; char *a[5];
  for (real = 0; real < 2; real++) {
    for (g = 0; g < 2; g++) {
      for (k = 0; k < 17; k++) { long n = strtol(S[i], 0, 10), p = strtol(P[k], 0, 10); if (pow2(n) && n < 4096 && valid_psi(n, p)) continue; a[0] = (char *)S[i]; a[1] = (char *)P[k]; a[2] = 0; invalid(g, a, "boundary numbers", real); }
      /* good size, boundary root */
      a[0] = "16"; a[1] = (char *)S[i]; a[2] = 0; if (!valid_psi(16, (int)strtol(S[i], 0, 10)) || strtol(S[i], 0, 10) > 12288) invalid(g, a, "boundary root", real);
      a[0] = "1024"; if (!valid_psi(1024, (int)strtol(S[i], 0, 10)) || strtol(S[i], 0, 10) > 12288) invalid(g, a, "boundary root", real);
    }
    { long n = strtol(S[i], 0, 10); a[0] = (char *)S[i]; a[1] = 0; if (!(pow2(n) && n <= 32768)) invalid(2, a, "boundary numbers", real); }
    if (i == 0) for (g = 0; g < 3; g++) {
      a[0] = 0; invalid(g, a, "no argument", real);
      a[0] = "16"; a[1] = 0; if (g < 2) invalid(g, a, "missing root", real);
      a[0] = "16"; a[1] = "1212"; a[2] = 0; if (g == 2) invalid(g, a, "extra argument", real);
      a[0] = "16"; a[1] = "1212"; a[2] = "1212"; a[3] = 0; invalid(g, a, "extra argument", real);
      a[0] = "16"; a[1] = "1212"; a[2] = ""; a[3] = 0; invalid(g, a, "extra argument", real);
      a[0] = "16"; a[1] = "1212"; a[2] = "3"; a[3] = "4"; a[4] = 0; invalid(g, a, "extra arguments", real);
      a[0] = ""; a[1] = g < 2 ? "1212" : 0; a[2] = 0; invalid(g, a, "empty size", real);
      if (g < 2) { a[0] = "16"; a[1] = ""; a[2] = 0; invalid(g, a, "empty root", real); }
    }
    if (vf_stop()) return;
  }
}
/* valid sizes and roots moved by amounts that vanish in some narrower or wider type, or modulo 12289 */
static char *dec128(__int128 v, char *o) { char t[64], *q = o; int m = 0; unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v; if (v < 0) *q++ = '-'; do t[m++] = '0' + (int)(u % 10); while (u /= 10); while (m) *q++ = t[--m]; *q = 0; return o; }
static void c11_moved(int j) {
  static const int SH[] = { 8, 14, 15, 16, 24, 31, 32, 33, 40, 48, 62, 63, 64, 65, 80, 96 }; long n; int g, p, s, m, cnt; char nb[64], pb[64]; char *a[3] = { nb, pb, 0 };
  for (n = 2; n <= 4096; n *= 2) for (cnt = 0, p = 2; p < 12289; p++) {
    if (n <= 2048 ? !valid_psi(n, p) : p % 1229) continue;
    if (cnt++ % 64 != j && !(n <= 32 && j == cnt % 64)) continue;
    for (s = 0; s < 16; s++) for (m = -3; m <= 3; m++) { __int128 d = (__int128)m << SH[s], P = p + d, N = n + d; if (!m) continue;
      for (g = 0; g < 2; g++) {
        if (!(P > 1 && P < 12289 && n <= 2048 && valid_psi(n, (int)P))) { sprintf(nb, "%ld", n); dec128(P, pb); invalid(g, a, "root plus a multiple of a power of two", 0); }
        if (!(N >= 2 && N <= 2048 && pow2((long)N) && valid_psi((long)N, p))) { dec128(N, nb); sprintf(pb, "%d", p); invalid(g, a, "size plus a multiple of a power of two", 0); } }
      if (cnt == 1 && !(N >= 2 && N <= 32768 && pow2((long)N))) { dec128(N, nb); char *b[2] = { nb, 0 }; invalid(2, b, "size plus a multiple of a power of two", 0); } 
      if (vf_stop()) return; }
    for (m = -8; m <= 8; m++) for (g = 0; g < 2; g++) { if (!m) continue; sprintf(nb, "%ld", n); sprintf(pb, "%d", p + m * 12289); invalid(g, a, "root plus a multiple of 12289", 0); if (vf_stop()) return; }
    for (g = 0; g < 2; g++) { sprintf(nb, "%ld", n); sprintf(pb, "-%d", p); invalid(g, a, "negated root", 0); sprintf(nb, "-%ld", n); sprintf(pb, "%d", p); invalid(g, a, "negated size", 0); }
  }
}
/* a real-process sweep of a smaller window, independent of the in-process one */
static void c11_real(int j) {
  long n; int g, p; char nb[32], pb[16]; char *a[3] = { nb, pb, 0 }, *a1[2] = { nb, 0 };
  for (n = -3 + j; n <= (vf_thorough ? 5000 : 300); n += 64) { sprintf(nb, "%ld", n); sprintf(pb, "1212"); if (n != 16) for (g = 0; g < 2; g++) invalid(g, a, "real sizes", 1); if (!pow2(n)) invalid(2, a1, "real sizes", 1); if (vf_stop()) return; }
  for (p = -2 + j; p <= (vf_thorough ? 12400 : 400); p += 64) for (n = 2; n <= 4096; n *= 8) { if (valid_psi(n, p)) continue; sprintf(nb, "%ld", n); sprintf(pb, "%d", p); for (g = 0; g < 2; g++) invalid(g, a, "real roots", 1); if (vf_stop()) return; }
}
static void job11(int j) { chdir(SCR); freopen("/dev/null", "w", stderr); if (j < 64) c11_sizes(j); else if ((j -= 64) < 64) c11_roots(j); else if ((j -= 64) < 64) c11_real(j); else if ((j -= 64) < 64) c11_moved(j); else c11_big(j - 64); }
#endif

/* ---------------- C12 ---------------- */
static struct { int g; const char *n, *psi; } CFG[] = { { 0, "16", "1212" }, { 1, "16", "1212" }, { 2, "16", 0 }, { 0, "1024", "1014" }, { 1, "1024", "1014" }, { 2, "1024", 0 }, { 0, "2048", "7" }, { 1, "2048", "7" }, { 2, "32768", 0 }, { 0, "2", "1479" }, { 1, "2", "1479" }, { 2, "2", 0 }, { 0, "256", "1002" }, { 1, "512", "1003" }, { 2, "4096", 0 }, { 0, "64", "9" } };
#define NCFG 16
static char *good[2]; static long glen[2];
static char FN[2][64];
static int same(int k) { long l; char *b = slurp(FN[k], &l); int r = b && l == glen[k] && !memcmp(b, good[k], l); free(b); return r; }
/* fault_certain: an operation failed for sure */
static void judge(int c, int rc, const char *what, int failed) {
  char d[120]; snprintf(d, sizeof d, "%s %s %s", GNAME[CFG[c].g], CFG[c].n, CFG[c].psi ? CFG[c].psi : "");
  stat_add("faults", 1);
  if (rc == -1) violation("%s: %s: does not terminate", d, what);
  else if (rc == 0 && failed) violation("%s: %s: exit status 0 although an operation on an output file failed", d, what);
  else if (rc == 0 && (!same(0) || !same(1))) violation("%s: %s: exit status 0 but %s is not complete", d, what, same(0) ? FN[1] : FN[0]);
}
static void c12(int j) {
  int c = j % NCFG, kind = j / NCFG, i, rc, lf; char *args[3] = { (char *)CFG[c].n, (char *)CFG[c].psi, 0 }; char prog[64], what[120], fault[40]; static char log[100000]; long n[4] = { 0, 0, 0, 0 }, ll;
  if (CFG[c].psi && !valid_psi(atoi(CFG[c].n), atoi(CFG[c].psi))) { int p = any_psi(atoi(CFG[c].n)); static char pb[16]; sprintf(pb, "%d", p); CFG[c].psi = args[1] = pb; }
  fresh(); fname(CFG[c].g, atol(CFG[c].n), "h", FN[0]); fname(CFG[c].g, atol(CFG[c].n), "c", FN[1]);
  rc = run(GNAME[CFG[c].g], args, 0, -1, -1);
  good[0] = slurp(FN[0], &glen[0]); good[1] = slurp(FN[1], &glen[1]);
  if (rc || !good[0] || !good[1]) { violation("%s %s: fault-free run: status %d", GNAME[CFG[c].g], CFG[c].n, rc); return; }
  snprintf(prog, sizeof prog, "%s_f", GNAME[CFG[c].g]);
  if (kind == 0) { /* every open, write and close fails: persistently, once, with several errors; every write cut short */
    static const int E[] = { 28 /*ENOSPC*/, 5 /*EIO*/, 4 /*EINTR*/, 122 /*EDQUOT*/, 11 /*EAGAIN*/ }; int o, m, e; char lp[600];
    wipe(); snprintf(lp, sizeof lp, "%s.log", wd); lf = open(lp, O_RDWR | O_CREAT | O_TRUNC, 0600);
    rc = run(prog, args, 0, lf, -1); ll = pread(lf, log, sizeof log, 0);
    for (i = 0; i < ll; i++) n[log[i] == 'o' ? 0 : log[i] == 'w' ? 1 : log[i] == 'c' ? 2 : 3]++;
    if (rc || !same(0) || !same(1)) { fprintf(stderr, "fault shim: baseline run differs\n"); _exit(2); }
    if (n[0] < 2 || n[1] < 2 || n[2] < 2) { fprintf(stderr, "fault shim saw %ld opens %ld writes %ld closes\n", n[0], n[1], n[2]); if (ll == 0) _exit(2); }
    stat_add("operations_observed", n[0] + n[1] + n[2] + n[3]);
    for (o = 0; o < 4; o++) for (i = 0; i < n[o]; i++) for (m = 0; m < 3; m++) for (e = 0; e < 5; e++) {
      int reached;
      if (m == 2 && (o != 1 || e)) continue;
      snprintf(fault, sizeof fault, "%c%d%c:%d", "owcr"[o], i, "pts"[m], E[e]);
      wipe(); ftruncate(lf, 0); lseek(lf, 0, SEEK_SET); CASE(GNAME[CFG[c].g], o, i, m, E[e]);
      rc = run(prog, args, fault, lf, -1); ll = pread(lf, log, sizeof log, 0);
      { int q; for (reached = 0, q = 0; q < ll; q++) if (log[q] == "owcr"[o]) reached++; }
      snprintf(what, sizeof what, "%s number %d %s (errno %d)", o == 0 ? "open" : o == 1 ? "write" : o == 2 ? "close" : "rename", i, m == 0 ? "and all later ones fail" : m == 1 ? "fails once" : "is cut short", E[e]);
      /* a single interrupted write may be repeated, a failed rename made up for: then the files must be complete */
      judge(c, rc, what, m != 2 && reached > i && o != 3 && !(m == 1 && (E[e] == 4 || E[e] == 11) && same(0) && same(1)));
      if (vf_stop()) return;
    }
    close(lf); unlink(lp);
  } else if (kind == 1) { /* every file size limit: a write torn at every byte */
    long mx = glen[0] > glen[1] ? glen[0] : glen[1], L, step = mx <= 6000 ? 1 : vf_thorough ? 7 : 211;
    for (L = 0; L <= mx + 1; L = L < mx && L + step > mx ? mx : L + 1 > mx ? L + 1 : (L % 4096 < 2 || L % 4096 >= 4095 ? L + 1 : (L / 4096 + 1) * 4096 - 1 < L + step ? (L / 4096 + 1) * 4096 - 1 : L + step)) {
      wipe(); CASE(GNAME[CFG[c].g], L, 1, 0, 0);
      rc = run(GNAME[CFG[c].g], args, 0, -1, L);
      snprintf(what, sizeof what, "output limited to %ld bytes", L);
      judge(c, rc, what, L < glen[0] || L < glen[1]);
      if (vf_stop()) return;
    }
  } else { /* full device, directory in place of an output, missing directory, dangling symlink, stale longer file */
    int k; char p[700];
    for (k = 0; k < 2; k++) {
      wipe(); snprintf(p, sizeof p, "%s/%s", wd, FN[k]); if (symlink("/dev/full", p)) _exit(2);
      rc = run(GNAME[CFG[c].g], args, 0, -1, -1); judge(c, rc, k ? "source file on a full device" : "header on a full device", 0);
      wipe(); if (mkdir(p, 0755)) _exit(2);
      rc = run(GNAME[CFG[c].g], args, 0, -1, -1); judge(c, rc, k ? "a directory is in the way of the source file" : "a directory is in the way of the header", 0);
      wipe(); if (symlink("/nonexistent-dir/x", p)) _exit(2);
      rc = run(GNAME[CFG[c].g], args, 0, -1, -1); judge(c, rc, k ? "the source file cannot be created" : "the header cannot be created", 0);
      wipe(); { int fd = open(p, O_WRONLY | O_CREAT, 0644), q; for (q = 0; q < glen[k] + 3000; q += 1000) if (write(fd, memset(log, 'x', 1000), 1000) != 1000) _exit(2); close(fd); }
      rc = run(GNAME[CFG[c].g], args, 0, -1, -1); judge(c, rc, "a longer file of that name existed", 0); if (rc) violation("%s %s: cannot overwrite an existing file", GNAME[CFG[c].g], CFG[c].n);
    }
  }
  drop(); free(good[0]); free(good[1]);
}
int main(int argc, char **argv) {
  vf_init(argc, argv); bench = getenv("VF_BENCH") != 0; vf_only = 0;
  BIN = argv[3]; SCR = argv[4];
  vf_job_limit = vf_thorough ? 3000 : 400;
  if (!strcmp(argv[2], "c10")) {
    sample("make_tables 2048 <psi> and make_red_tables 2048 <psi> for each of the 2048 roots, every entry of every table");
    run_jobs("tables", 176 + 15, job10);
#ifdef C11
  } else if (!strcmp(argv[2], "c11")) {
    sample("make_tables 65536 7 ; make_red_tables 12 1212 ; make_bitrev_table 32769 ; make_tables 4294967312 1212 ; make_tables 16 13501");
    run_jobs("rejects", 64 * 4 + NBIG, job11);
#endif
  } else {
    sample("write 3 fails once with EINTR during make_red_tables 1024 1014 ; output limited to 1717 bytes ; close 1 fails with EIO");
    run_jobs("faults", NCFG * 3, c12);
  }
  return vf_finish();
}
