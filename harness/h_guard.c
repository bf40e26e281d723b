/* C16: every routine, length and alignment with inaccessible pages around its arrays and read-only constants */
#include "net.h"
#include "tables.h"
#include "routines.h"
#define PG 4096
static int DP = 3;                            /* data pages per region */
typedef struct { unsigned char *base; } reg_t; /* [PROT_NONE][DP pages][PROT_NONE] */
static reg_t RG[4], RS[4], RL[4];            /* current, small and large regions */
static void mk(reg_t *r) { r->base = mmap(0, (DP + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r->base == MAP_FAILED) exit(2); r->base += PG; if (mprotect(r->base, DP * PG, PROT_READ | PROT_WRITE)) exit(2); }
static int frac = -1;                         /* sixteenths of the array below the middle of the region, or -1 */
static unsigned char *place(int k, size_t bytes, int mode, int shift, int fill) {
  unsigned char *b = RG[k].base, *q; mprotect(b, DP * PG, PROT_READ | PROT_WRITE);
  memset(b, fill ? 0x5c : 0xa3, DP * PG);
  if (frac >= 0) return b + DP * PG / 2 - ((bytes * frac / 16) & ~(size_t)(k == 3 ? 1 : 3)) + (shift & 12);
  q = mode ? b + shift : b + DP * PG - bytes - shift;
  return q; }
static int gaps(int k, const unsigned char *q, size_t bytes, int fill) {
  const unsigned char *b = RG[k].base, *e = b + DP * PG, *x; unsigned char v = fill ? 0x5c : 0xa3;
  for (x = b; x < q; x++) if (*x != v) return (int)(x - q);
  for (x = q + bytes; x < e; x++) if (*x != v) return (int)(x - (q + bytes)) + 1;
  return 0; }
#define NMAX 70016
static i32 ref[NMAX], ina[NMAX], inb[NMAX], inc[NMAX]; static u16 tab[2 * NMAX];
static i32 x[NMAX + 128], y[NMAX + 128], z[NMAX + 128]; static u16 t[2 * NMAX + 64];
static i32 scal;
static void one(const rtn_t *r, u32 n, int mode, int s0, int s1, int s2, int fill) {
  u32 tn = rt_tabn(r, n); unsigned char *a, *b = 0, *c = 0, *p = 0; int i, g; i32 sc = scal;
  a = place(0, 4 * n, mode, s0, fill); memcpy(a, ina, 4 * n);
  if (rt_has_b(r)) { b = place(1, 4 * n, mode, s1, fill); memcpy(b, inb, 4 * n); c = place(2, 4 * n, mode, s2, fill); memcpy(c, inc, 4 * n); if (rt_b_const(r)) { mprotect(RG[1].base, DP * PG, PROT_READ); mprotect(RG[2].base, DP * PG, PROT_READ); } }
  if (tn) { p = place(3, 2 * tn, mode, s1 / 2, fill); memcpy(p, tab, 2 * tn); mprotect(RG[3].base, DP * PG, PROT_READ); }
  else p = RG[3].base + (mode ? 0 : DP * PG);
  CASE(r->name, n, mode, s0, s1);
  rt_call(r, (i32 *)a, n, (i32 *)b, (i32 *)c, p, sc);
  stat_add("calls", 1);
  if ((g = gaps(0, a, 4 * n, fill))) { violation("op=%s n=%u: byte %d outside the array was written (placement %s, offset %d)", r->name, n, g, mode ? "start" : "end", s0); return; }
  if (b && (gaps(1, b, 4 * n, fill) || gaps(2, c, 4 * n, fill))) { violation("op=%s n=%u: memory next to an operand was written", r->name, n); return; }
  if (memcmp(a, ref, 4 * n)) { for (i = 0; ((i32 *)a)[i] == ref[i]; i++) ; violation("op=%s n=%u: result[%d] is %d here but %d elsewhere for the same arguments (placement %s, offsets %d,%d,%d, fill %d)", r->name, n, i, ((i32 *)a)[i], ref[i], mode ? "start" : "end", s0, s1, s2, fill); return; }
  if (rt_b_const(r) && (memcmp(b, inb, 4 * n) || memcmp(c, inc, 4 * n))) violation("op=%s n=%u: a constant operand changed", r->name, n);
  if (tn && memcmp(p, tab, 2 * tn)) violation("op=%s n=%u: the table changed", r->name, n);
}
static void reference(const rtn_t *r, u32 n) {
  memcpy(x + 64, ina, 4 * n); memcpy(y + 64, inb, 4 * n); memcpy(z + 64, inc, 4 * n); memcpy(t, tab, 2 * rt_tabn(r, n));
  CASE(r->name, n, -1, 0, 0); rt_call(r, x + 64, n, y + 64, z + 64, t, scal); memcpy(ref, x + 64, 4 * n);
}
static void setup(void) { int k; if (RS[0].base) return; DP = 80; for (k = 0; k < 4; k++) mk(&RL[k]); DP = 3; for (k = 0; k < 4; k++) mk(&RS[k]); }
static void job(int j) {
  const rtn_t *r = &RT[j % NRT]; u32 n; int part = j / NRT;
  setup(); DP = 3; memcpy(RG, RS, sizeof RG);
  for (n = part; n <= 2048; n += 4) {
    int k, m, v; u32 lim = vf_thorough ? 2048 : 400;
    if (!rt_len_ok(r, n)) continue;
    if (!r->fixed && r->step != 2 && r->step != 32 && n > lim && n != 255 && n != 256 && n != 257 && n != 512 && n != 1000 && n != 1024 && n != 1040 && n != 2048) continue;
    if (n == 0 && r->shape != SH_U && r->shape != SH_S && r->shape != SH_T && r->shape != SH_M) continue;
    rt_fill(r, ina, n, 1); rt_fill(r, inb, n, 2); rt_fill(r, inc, n, 3); rt_table(r, tab, n, 4); scal = rt_scalar(r, n + 3);
    reference(r, n);
    for (m = 0; m < 2; m++) { one(r, n, m, 0, 0, 0, 0); one(r, n, m, 0, 0, 0, 1); }
    for (k = 0; k < 32; k++) { /* all 16 word offsets and all 32 half-word offsets of tables */
      int s0 = 4 * (k * 5 % 16), s1 = 4 * k, s2 = 4 * (k * 11 % 16);
      if (vf_thorough || n <= 64) { int q; for (q = 0; q < 16; q++) one(r, n, k & 1, 4 * q, s1, (q * 7 % 16) * 4, k >> 1 & 1); }
      else one(r, n, k & 1, s0, s1, s2, k >> 1 & 1);
      if (vf_stop()) return;
    }
    /* special contents: constant arrays of boundary values, single boundary values at the ends */
    for (v = 0; v < 10; v++) { u32 i; i64 c = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? r->lo : v == 3 ? r->hi : v == 4 ? r->lo + 1 : v == 5 ? r->hi - 1 : v == 6 ? (r->hi < 12289 ? 6144 : 12289) : v == 7 ? -1 : v == 8 ? r->hi / 2 : 2; i32 lo = rt_red(r) ? -6144 : 0, hi = rt_red(r) ? 6144 : 12288;
      if (c < r->lo || c > r->hi) continue;
      for (i = 0; i < n; i++) ina[i] = inb[i] = inc[i] = (i32)c;
      if (r->shape == SH_T) for (i = 0; i < n; i++) tab[i] = (u16)(v == 1 ? 1 : v == 2 ? lo : v == 3 ? hi : v == 7 ? -1 : 0);
      scal = v == 1 ? 1 : v == 2 ? lo : v == 3 ? hi : 0;
      reference(r, n); for (m = 0; m < 2; m++) one(r, n, m, 0, 0, 0, v & 1);
      if (r->shape == SH_T && v < 4) { for (i = 0; i < n; i++) tab[i] = 1; reference(r, n); one(r, n, 0, 0, 0, 0, 0); }
      if (vf_stop()) return; }
    stat_add("configurations", 1);
  }
}
static void job_large(int j) { /* lengths beyond 16 bits and beyond any block size */
  static const u32 LN[] = { 2064, 4095, 4096, 4097, 4112, 5000, 8192, 10000, 12289, 16384, 32768, 32784, 65535, 65536, 65537, 65552, 70000, 70016 };
  const rtn_t *r = &RT[j / 18]; u32 n = LN[j % 18]; int m;
  setup();
  if (r->fixed || !rt_len_ok(r, n) || (r->shape == SH_PT && n > 32768)) return;
  DP = 80; memcpy(RG, RL, sizeof RG);
  rt_fill(r, ina, n, 1); rt_fill(r, inb, n, 2); rt_fill(r, inc, n, 3); if (r->shape != SH_X) rt_table(r, tab, n, 4); scal = rt_scalar(r, n + 3);
  if (r->shape == SH_X) { u32 k, g = n; for (k = 0; k < n; k++) { g = g * 1664525 + 1013904223; tab[k] = rt_red(r) ? (u16)(i16)((i32)((g >> 8) % 12289) - 6144) : (u16)((g >> 8) % 12289); if (rt_red(r)) ina[k] = ina[k] % 1000; } } /* no root of that order exists: any table */
  reference(r, n);
  for (m = 0; m < 2; m++) { one(r, n, m, 0, 0, 0, 0); one(r, n, m, 4 * m, 4, 8, 1); }
  stat_add("configurations", 1);
}
/* arrays across and next to the addresses where 31, 32 and 33..46 low address bits wrap */
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
static reg_t RW[5][4]; static int rw_ok[5];
static void setup_wrap(void) {
  static const u64 W[5][4] = { { 0x300100000000, 0x300200000000, 0x300500000000, 0x300800000000 }, { 0x80000000, 0x180000000, 0x280000000, 0x380000000 },
    { 0x310080000000, 0x310180000000, 0x310280000000, 0x310380000000 }, { 0x200000000000, 0x400000000000, 0x600000000000, 0x3fff00000000 }, { 0x40000000, 0x30000000, 0x28000000, 0x20000000 } };
  int w, k; static int done; if (done) return; done = 1; DP = 8;
  for (w = 0; w < 5; w++) { rw_ok[w] = 1;
    for (k = 0; k < 4; k++) { unsigned char *want = (unsigned char *)W[w][k] - (DP / 2 + 1) * PG, *got = mmap(want, (DP + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (got != want) { if (got != MAP_FAILED) munmap(got, (DP + 2) * PG); rw_ok[w] = 0; break; }
      RW[w][k].base = got + PG; if (mprotect(RW[w][k].base, DP * PG, PROT_READ | PROT_WRITE)) exit(2); } } }
static void job_wrap(int j) {
  const rtn_t *r = &RT[j % NRT]; u32 n; int w, part = j / NRT;
  setup(); setup_wrap(); DP = 8;
  for (n = 1 + part; n <= 2048; n += 2) {
    if (!rt_len_ok(r, n)) continue;
    if (!r->fixed && r->step != 2 && r->step != 32 && n > 64 && n != 255 && n != 256 && n != 512 && n != 1023 && n != 1024 && n != 1040 && n != 2048) continue;
    rt_fill(r, ina, n, 1); rt_fill(r, inb, n, 2); rt_fill(r, inc, n, 3); rt_table(r, tab, n, 4); scal = rt_scalar(r, n + 3);
    reference(r, n);
    for (w = 0; w < 5; w++) { if (!rw_ok[w]) continue; memcpy(RG, RW[w], sizeof RG);
      for (frac = 0; frac <= 16; frac += vf_thorough || n <= 64 || r->fixed ? 1 : 2) { one(r, n, 0, 0, 0, 0, frac & 1); if (frac % 8 == 4) one(r, n, 0, 4, 12, 8, 0); if (vf_stop()) { frac = -1; return; } } }
    frac = -1;
    stat_add("wrap_configurations", 1);
  }
  if (!part && !(j % NRT)) for (w = 0; w < 5; w++) stat_add("address_windows", rw_ok[w]);
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0; rt_init();
  sample("%d routines; e.g. %s, %s, %s", NRT, RT[0].name, RT[40].name, RT[NRT - 1].name);
  sample("reduce_array_asm n=48 with the array ending at an inaccessible page; table at byte offset 62 before one; fill patterns 0xa3 / 0x5c outside");
  stat_add("routines", NRT);
  run_jobs("guard", NRT * 4, job);
  run_jobs("large lengths", NRT * 18, job_large);
  run_jobs("address wrap", NRT * 2, job_wrap);
  return vf_finish();
}
