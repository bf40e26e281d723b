/* C09: bit-reversal shuffles. argv[2]: text file of pair tables: name n npairs i j i j ... */
#include "net.h"
#include "tables.h"
#undef Q
#include "ntt.h"
#define Q 12289
typedef struct { char name[64]; int n, np; u16 (*p)[2]; } T_t;
static T_t T[128]; static int NT;
#define LMAX 25
static i32 A[(1 << LMAX) + 64], S[(1 << LMAX) + 64];
static const char *GN[2] = { "bitrev_shuffle (ntt.c)", "bitrev_shuffle (naive_ntt.c)" };
static void shuf(int f, u32 n) { if (f) naive_api.bitrev_shuffle(A + 32, n); else bitrev_shuffle(A + 32, n); }
static void shuft(int f, const T_t *t) { if (f) naive_api.shuffle_with_table(A + 32, (const u16 (*)[2])t->p, t->np); else shuffle_with_table(A + 32, (const u16 (*)[2])t->p, t->np); }
static const T_t *cur;
static void one(const char *op, int f, u32 n) {
  u32 i; int L = lg(n), rep;
  for (i = 0; i < 32; i++) { A[i] = 0x51000000 + i; A[32 + n + i] = 0x52000000 + i; }
  memcpy(A + 32, S, 4ull * n);
  for (rep = 0; rep < 2; rep++) {
    CASE(op, n, f, rep, 0);
    if (cur) shuft(f, cur); else shuf(f, n);
    for (i = 0; i < n; i++) { i32 w = rep ? S[i] : S[revbits(i, L)]; if (A[32 + i] != w) { violation("op=%s impl=%d n=%u application %d index %u: got %d want %d (table %s)", op, f, n, rep + 1, i, A[32 + i], w, cur ? cur->name : "-"); return; } }
    for (i = 0; i < 32; i++) if (A[i] != 0x51000000 + (i32)i || A[32 + n + i] != 0x52000000 + (i32)i) { violation("op=%s impl=%d n=%u writes outside the array", op, f, n); return; }
  }
  stat_add("shuffles", 2); stat_add("inputs", 1);
}
static void family(const char *op, int f, u32 n, int full) {
  u32 i, k;
  for (k = 0; k < (n > 1 << 20 ? 2 : 5); k++) { u32 g = 17; for (i = 0; i < n; i++) { g = g * 1664525 + 1013904223; S[i] = k == 0 ? (i32)i : k == 1 ? -(i32)i - 1 : k == 2 ? (i32)g : k == 3 ? 7 : (i & 1 ? INT32_MIN + (i32)i : INT32_MAX - (i32)i); } one(op, f, n); if (vf_stop()) return; }
  if (full && n <= 8) { static const i32 V[5] = { INT32_MIN, -1, 0, 1, INT32_MAX }; u32 tot = 1; for (i = 0; i < n; i++) tot *= 5; for (k = 0; k < tot; k++) { u32 z = k; for (i = 0; i < n; i++) { S[i] = V[z % 5]; z /= 5; } one(op, f, n); if (vf_stop()) return; } }
  if (n <= 4096) for (k = 0; k < n; k++) { if (n > 256 && !vf_thorough && k % 3) continue; memset(S, 0, 4ull * n); S[k] = INT32_MIN; one(op, f, n); if (vf_stop()) return; }
}
static void job(int j) {
  if (j < 2 * LMAX + 2) { cur = 0; if (vf_lite && !vf_thorough && j / 2 > 20) return; family(GN[j & 1], j & 1, 1u << (j / 2), 1); return; }
  j -= 2 * LMAX + 2;
  { const T_t *t = &T[j / 2]; u32 i; int L = lg(t->n); static unsigned char seen[65536];
    memset(seen, 0, sizeof seen);
    for (i = 0; i < (u32)t->np; i++) { u32 x = t->p[i][0], y = t->p[i][1]; if (x >= (u32)t->n || y >= (u32)t->n || y != revbits(x, L) || x == y || seen[x] || seen[y]) { violation("table %s: pair %u (%u,%u) is not a bit-reversal pair listed once", t->name, i, x, y); return; } seen[x] = seen[y] = 1; }
    cur = t; family("shuffle_with_table", j & 1, t->n, t->n <= 8); stat_add("tables", 1); }
}
int main(int argc, char **argv) {
  FILE *f; int n, np, i; char nm[64];
  vf_init(argc, argv); vf_only = 0;
  f = fopen(argv[2], "r"); if (!f) return 2;
  while (fscanf(f, "%63s %d %d", nm, &n, &np) == 3) { T_t *t = &T[NT++]; strcpy(t->name, nm); t->n = n; t->np = np; t->p = calloc(np + 1, 4); for (i = 0; i < np; i++) { int x, y; if (fscanf(f, "%d %d", &x, &y) != 2) return 2; t->p[i][0] = x; t->p[i][1] = y; } }
  sample("bitrev_shuffle of 0..n-1 for n = 1, 2, 4, ..., 2^25, applied twice; all arrays over {INT_MIN,-1,0,1,INT_MAX} for n <= 8");
  for (i = 0; i < NT && i < 8; i++) sample("table %s n=%d pairs=%d", T[i].name, T[i].n, T[i].np);
  run_jobs("bitrev", 2 * LMAX + 2 + 2 * NT, job);
  return vf_finish();
}
