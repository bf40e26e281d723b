/* C22: sort() of src and of the benchmark copy (linked as sort2). Arrays live between two guard pages. */
#include "common.h"
extern void sort(u64 *, u32);
extern void sort2(u64 *, u32);
typedef void (*sort_t)(u64 *, u32);
static sort_t F[2] = { sort, sort2 };
static const char *NM[2] = { "src/sort.c", "verifier/vstte20-benchmarks/sort.c" };
#define PG 4096ul
static u64 *LO, *HI;          /* first word after / first word of the guard pages */
static size_t MAXW = 1 << 17; /* words between the guards */
static void arena(void) {
  if (LO) return;
  size_t sz = MAXW * 8; char *p = mmap(0, sz + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  mprotect(p, PG, PROT_NONE); mprotect(p + PG + sz, PG, PROT_NONE);
  LO = (u64 *)(p + PG); HI = (u64 *)(p + PG + sz);
}
static const u64 V[9] = { 0, 1, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull };
static int cmp(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
static u64 C[1 << 17];
/* run f on in[0..n-1]; want: sorted copy. end: place against the upper guard, else against the lower one */
static int one(int f, const u64 *in, const u64 *want, u32 n, int end) {
  u64 *a = end ? HI - n : LO, g = 0x5ca1ab1e5ca1ab1eull; u32 i, lim = n < 64 ? 64 : n + 8; (void)lim;
  u64 *pre = end ? a - 1 : 0, *post = end ? 0 : a + n;
  if (n) memcpy(a, in, 8ul * n);
  if (pre) *pre = g; if (post && n < MAXW) *post = g; else post = 0;
  CASE(NM[f], n, end, (i64)(n ? in[0] : 0), (i64)(n > 1 ? in[n - 1] : 0));
  F[f](a, n);
  if (n && memcmp(a, want, 8ul * n)) { char b[600]; int o = 0; for (i = 0; i < n && o < 500; i++) o += snprintf(b + o, 600 - o, "%lx ", (unsigned long)in[i]); for (i = 0; i < n && a[i] == want[i]; i++) ;
    violation("op=%s n=%u: index %u holds %lx, want %lx; input (hex) %s", NM[f], n, i, (unsigned long)a[i], (unsigned long)want[i], b); return 1; }
  if ((pre && *pre != g) || (post && *post != g)) { violation("op=%s n=%u: wrote outside the array", NM[f], n); return 1; }
  return 0;
}
static u64 cnt;
static void both(const u64 *in, const u64 *want, u32 n, int place) { int f; for (f = 0; f < 2; f++) { if (place != 1) one(f, in, want, n, 1); if (place != 0) one(f, in, want, n, 0); } cnt++; }
/* all arrays of length n over the first k values, by counting digits; split by the value of the leading digits */
typedef struct { int n, k, shift; } sp_t;
static sp_t SP[64]; static int NSP;
#define SPLIT 64
static void job_all(int j) {
  sp_t s = SP[j / SPLIT]; int part = j % SPLIT, i, c[9]; u64 tot = 1, k; u64 a[32], w[32]; u64 vals[9];
  arena();
  for (i = 0; i < s.n; i++) tot *= s.k;
  for (i = 0; i < s.k; i++) vals[i] = s.k <= 4 ? (const u64[]){ 0, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull }[i] : V[(i + s.shift) % 9];
  /* keep vals sorted */
  qsort(vals, s.k, 8, cmp);
  for (k = tot * part / SPLIT; k < tot * (part + 1) / SPLIT; k++) {
    u64 z = k; int m = 0, q; memset(c, 0, sizeof c);
    for (i = 0; i < s.n; i++) { int d = z % s.k; z /= s.k; a[i] = vals[d]; c[d]++; }
    for (i = 0; i < s.k; i++) for (q = 0; q < c[i]; q++) w[m++] = vals[i];
    both(a, w, s.n, (int)(k & 1));
    if (!(k & 1023) && vf_stop()) return;
  }
  stat_add("arrays", cnt); cnt = 0;
}
/* all permutations of n distinct values with a[0] = j's digit etc. */
static int PN; static u64 pa[16], pw_[16];
static void perm(int p, u32 used) {
  int i; if (p == PN) { both(pa, pw_, PN, (int)(cnt & 1)); return; }
  if (p < 5 && vf_stop()) return;
  for (i = 0; i < PN; i++) if (!(used >> i & 1)) { pa[p] = pw_[i]; perm(p + 1, used | 1u << i); }
}
static void job_perm(int j) {
  int i, x = j / PN, y = j % PN; arena();
  for (i = 0; i < PN; i++) pw_[i] = (u64)i * 0x1555555555555555ull + (u64)i;
  if (x == y) return;
  pa[0] = pw_[x]; pa[1] = pw_[y]; perm(2, 1u << x | 1u << y);
  stat_add("permutations", cnt); cnt = 0;
}
/* structured arrays of every length */
static u64 S[1 << 17];
static void job_big(int j) {
  static const u32 LN[] = { 3000, 4095, 4096, 4097, 10000, 65535, 65536, 100000 };
  u32 n, lo = j * 16, hi = lo + 16, i; int k, q;
  arena();
  if (j >= 70) { lo = LN[j - 70]; hi = lo + 1; }
  for (n = lo; n < hi; n++) for (k = 0; k < 22; k++) {
    u32 g = 12345 + k; if (n > 4097 && (k == 6 || k == 7 || k == 8 || k == 20)) continue; /* quadratic for a middle pivot */
    for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; u64 r = (u64)g << 32 | (g * 2654435761u); switch (k) {
      case 0: S[i] = i; break; case 1: S[i] = n - i; break; case 2: S[i] = 7; break; case 3: S[i] = i & 1; break; case 4: S[i] = i / 2; break; case 5: S[i] = (u64)-1 - i; break;
      case 6: S[i] = i < n / 2 ? i : n - i; break; case 7: S[i] = i < n / 2 ? n - i : i; break; case 8: S[i] = i == n / 2 ? 0 : i + 1; break; case 9: S[i] = i == n / 2 ? ~0ull : i; break;
      case 10: S[i] = r; break; case 11: S[i] = r % 3; break; case 12: S[i] = r % 17; break; case 13: S[i] = r >> 32 << 32; break; case 14: S[i] = r & 0xffffffffu; break; case 15: S[i] = i % 10; break;
      case 16: S[i] = (i * 7919ull) % (n ? n : 1); break; case 17: S[i] = i == 0 ? ~0ull : i; break; case 18: S[i] = i + 1 == n ? 0 : i + 1; break; case 19: S[i] = V[r % 9]; break; case 20: S[i] = i ^ 1; break; default: S[i] = revbits(i, 17); } }
    memcpy(C, S, 8ul * n); qsort(C, n, 8, cmp);
    both(S, C, n, 2);
    if (n <= 40 && k < 2) for (q = 0; q < (int)n; q++) { u32 p; for (p = 0; p < n; p++) { u64 t = S[q]; S[q] = S[p]; S[p] = t; memcpy(C, S, 8ul * n); qsort(C, n, 8, cmp); both(S, C, n, 2); t = S[q]; S[q] = S[p]; S[p] = t; } } /* every transposition */
    if (vf_stop()) return;
  }
  stat_add("structured", cnt); cnt = 0;
}
/* long arrays: permutations of 0..n-1 (and with repetitions) whose sorted order is known */
static u64 gcd_(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static const u32 HN[] = { 131073, 200001, 262147, 500000, 999983, 1048576, 1048577, 2097155, 4194309, 16777217 };
static void job_huge(int j) {
  u32 n = HN[j / 2], i; int f = j & 1, k; size_t sz = ((size_t)n * 8 + 4095) / 4096 * 4096;
  char *m = mmap(0, sz + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); u64 *a, p;
  if (m == MAP_FAILED) { perror("mmap"); _exit(2); }
  mprotect(m, PG, PROT_NONE); mprotect(m + PG + sz, PG, PROT_NONE);
  for (p = n / 2 * 1.2360679; gcd_(p, n) != 1; p++) ;
  for (k = 0; k < (n > 3000000 && !vf_thorough ? 2 : 5); k++) {
    int end = k & 1; a = end ? (u64 *)(m + PG + sz) - n : (u64 *)(m + PG);
    for (i = 0; i < n; i++) { u64 v = (u64)i * p % n; a[i] = k == 1 ? v / 4 * 0x100000000ull : k == 2 ? i : k == 3 ? n - 1 - i : k == 4 ? ~0ull - v : v * 0x100000001ull; }
    CASE(NM[f], n, end, k, 0);
    F[f](a, n);
    for (i = 0; i < n; i++) { u64 w = k == 1 ? (u64)i / 4 * 0x100000000ull : k == 2 || k == 3 ? i : k == 4 ? ~0ull - (n - 1 - i) : (u64)i * 0x100000001ull;
      if (a[i] != w) { violation("op=%s n=%u pattern %d: index %u holds %lx, want %lx", NM[f], n, k, i, (unsigned long)a[i], (unsigned long)w); return; } }
    cnt++;
  }
  munmap(m, sz + 2 * PG); stat_add("long_arrays", cnt); cnt = 0;
}
static void sp(int n, int k) { SP[NSP].n = n; SP[NSP].k = k; SP[NSP].shift = 0; NSP++; }
int main(int argc, char **argv) {
  int n;
  vf_init(argc, argv); vf_only = 0;
  for (n = 0; n <= (vf_thorough ? 7 : 6); n++) sp(n, 9);
  for (n = 7; n <= (vf_thorough ? 12 : 10); n++) sp(n, 4);
  for (n = 10; n <= (vf_thorough ? 16 : 13); n++) sp(n, 3);
  for (n = 11; n <= (vf_thorough ? 24 : 20); n++) sp(n, 2);
  sample("all arrays of length 0..%d over {0,1,2^31-1,2^31,2^32-1,2^32,2^63-1,2^63,2^64-1}; length 10..%d over 3 values; 11..%d over 2 values", vf_thorough ? 7 : 6, vf_thorough ? 16 : 13, vf_thorough ? 24 : 20);
  run_jobs("all arrays", NSP * SPLIT, job_all);
  for (PN = 9; PN <= (vf_thorough ? 12 : 11); PN++) { sample("all %d! permutations", PN); run_jobs("permutations", PN * PN, job_perm); }
  sample("22 structured patterns for every length 0..1119 and for 3000..100000; every transposition of sorted and reversed arrays up to length 40");
  run_jobs("structured", 78, job_big);
  sample("long arrays, length 131073 to 16777217, flush against inaccessible pages");
  run_jobs("long", 20, job_huge);
  return vf_finish();
}
