/* C17: calling convention of the AVX2 entry points: register file, flags, control words, stack, undefined argument bits */
#include "net.h"
#include "tables.h"
#include "routines.h"
typedef struct { u64 rax, rbx, rcx, rdx, rsi, rdi, rbp, r8, r9, r10, r11, r12, r13, r14, r15, rsp, flags; u32 mxcsr; u16 cw, pad; } regs_t;
regs_t vin, vout; void *vfn; unsigned char vymm[512] __attribute__((aligned(64))); u64 vsave_rsp; unsigned char vfenv[32]; u32 vdef_mxcsr = 0x1f80; u16 vdef_cw = 0x37f;
extern void tramp(void);
__asm__(".text\n.globl tramp\ntramp:\n"
  "push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n sub $8,%rsp\n"
  "mov %rsp,vsave_rsp(%rip)\n"
  /* a frame of canaries above the call */
  "sub $512,%rsp\n mov $64,%ecx\n1: movabs $0x5ca1ab1e0ddba11,%rax\n mov %rax,-8(%rsp,%rcx,8)\n dec %ecx\n jnz 1b\n"
  /* stale data below the stack pointer */
  "mov $512,%ecx\n2: mov %rcx,%rax\n neg %rcx\n mov vin+8(%rip),%rdx\n mov %rdx,(%rsp,%rcx,8)\n neg %rcx\n dec %ecx\n jnz 2b\n"
  "lea vymm(%rip),%rax\n"
  "vmovdqu (%rax),%ymm0; vmovdqu 32(%rax),%ymm1; vmovdqu 64(%rax),%ymm2; vmovdqu 96(%rax),%ymm3; vmovdqu 128(%rax),%ymm4; vmovdqu 160(%rax),%ymm5; vmovdqu 192(%rax),%ymm6; vmovdqu 224(%rax),%ymm7\n"
  "vmovdqu 256(%rax),%ymm8; vmovdqu 288(%rax),%ymm9; vmovdqu 320(%rax),%ymm10; vmovdqu 352(%rax),%ymm11; vmovdqu 384(%rax),%ymm12; vmovdqu 416(%rax),%ymm13; vmovdqu 448(%rax),%ymm14; vmovdqu 480(%rax),%ymm15\n"
  "ldmxcsr vin+136(%rip)\n fldcw vin+140(%rip)\n"
  "mov %rsp,exp_rsp(%rip)\n push vin+128(%rip)\n popfq\n"
  "mov vin(%rip),%rax; mov vin+8(%rip),%rbx; mov vin+16(%rip),%rcx; mov vin+24(%rip),%rdx; mov vin+32(%rip),%rsi; mov vin+40(%rip),%rdi; mov vin+48(%rip),%rbp; mov vin+56(%rip),%r8; mov vin+64(%rip),%r9; mov vin+72(%rip),%r10; mov vin+80(%rip),%r11; mov vin+88(%rip),%r12; mov vin+96(%rip),%r13; mov vin+104(%rip),%r14; mov vin+112(%rip),%r15\n"
  "call *vfn(%rip)\n"
  "mov %rax,vout(%rip); mov %rbx,vout+8(%rip); mov %rcx,vout+16(%rip); mov %rdx,vout+24(%rip); mov %rsi,vout+32(%rip); mov %rdi,vout+40(%rip); mov %rbp,vout+48(%rip); mov %r12,vout+88(%rip); mov %r13,vout+96(%rip); mov %r14,vout+104(%rip); mov %r15,vout+112(%rip); mov %rsp,vout+120(%rip)\n"
  "mov vsave_rsp(%rip),%rsp\n sub $512,%rsp\n" /* our own idea of where the stack is */
  "sub $4096,%rsp\n pushfq\n pop vout+128(%rip)\n cld\n add $4096,%rsp\n"
  "stmxcsr vout+136(%rip)\n fnstenv vfenv(%rip)\n fnstcw vout+140(%rip)\n movzwl vfenv(%rip),%eax\n mov %ax,vout+140(%rip)\n"
  "fninit\n ldmxcsr vdef_mxcsr(%rip)\n fldcw vdef_cw(%rip)\n vzeroupper\n"
  "movq $0,vsave_rsp+0(%rip)\n"
  "xor %eax,%eax\n mov $64,%ecx\n movabs $0x5ca1ab1e0ddba11,%rdx\n3: cmp %rdx,-8(%rsp,%rcx,8)\n je 4f\n inc %eax\n4: dec %ecx\n jnz 3b\n mov %rax,vout+56(%rip)\n"
  "add $512,%rsp\n add $8,%rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx\n ret\n");
static const u64 PAT[] = { 0, ~0ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x8000000000000000ull, 0x00000000ffffffffull, 0xffffffff00000000ull, 0x5555aaaa5555aaaaull };
#define NP 8
#define NMAX 70016
static i32 A[NMAX] __attribute__((aligned(64))), B[NMAX] __attribute__((aligned(64))), C[NMAX] __attribute__((aligned(64))), ref[NMAX], ina[NMAX], inb[NMAX], inc[NMAX]; static u16 tab[NMAX] __attribute__((aligned(64)));
u64 exp_rsp;
static int check(const char *nm, u32 n, u64 calls) {
  const char *bad = 0; u64 got = 0, want = 0;
  (void)calls;
#define CK(r) if (!bad && vout.r != vin.r) { bad = #r; got = vout.r; want = vin.r; }
  CK(rbx) CK(rbp) CK(r12) CK(r13) CK(r14) CK(r15)
  if (!bad && vout.rsp != exp_rsp) { bad = "rsp"; got = vout.rsp; want = exp_rsp; }
  if (!bad && (vout.flags & 0x400)) { bad = "direction flag"; got = vout.flags; want = vin.flags; }
  if (!bad && ((vout.mxcsr ^ vin.mxcsr) & 0xffc0)) { bad = "MXCSR control bits"; got = vout.mxcsr; want = vin.mxcsr; }
  if (!bad && (vout.cw ^ vin.cw) & 0x0f3f) { bad = "x87 control word"; got = vout.cw; want = vin.cw; }
  if (!bad && (*(u16 *)(vfenv + 8)) != 0xffff) { bad = "x87 tag word (registers left in use)"; got = *(u16 *)(vfenv + 8); want = 0xffff; }
  if (!bad && vout.r8) { bad = "caller's stack frame (words overwritten)"; got = vout.r8; want = 0; }
  if (bad) { violation("op=%s n=%u: %s is 0x%lx after the call, expected 0x%lx", nm, n, bad, got, want); return 0; }
  return 1;
}
static u64 callsn; static int isref;
static void setregs(int base, int one) { /* base pattern everywhere; register `one` gets the next pattern */
  u64 *v = (u64 *)&vin; int i; for (i = 0; i < 15; i++) v[i] = PAT[base] ^ (PAT[2] * (base > 1 ? i : 0)); if (one >= 0) v[one] = PAT[(base + 1) % NP] ^ 0x1111; }
static void run(const rtn_t *r, u32 n, int base, int one, u64 upn, u64 upc, u32 mx, u16 cw, u64 fl, int yp) {
  u32 i; u64 nn = n | upn << 32;
  setregs(base, one);
  for (i = 0; i < 512; i += 8) *(u64 *)(vymm + i) = PAT[yp] ^ (yp > 1 ? i * 0x9e3779b97f4a7c15ull : 0);
  memcpy(A, ina, 4 * n);
  vin.mxcsr = mx; vin.cw = cw; vin.flags = 0x202 | fl; vfn = r->f;
  vin.rdi = (u64)A;
  switch (r->shape) { case SH_U: vin.rsi = nn; break; case SH_S: vin.rsi = nn; vin.rdx = (u32)rt_scalar(r, n + 3) | upc << 32; break; case SH_T: case SH_X: vin.rsi = nn; vin.rdx = (u64)tab; break;
    case SH_M: vin.rsi = nn; vin.rdx = (u64)B; vin.rcx = (u64)C; memcpy(B, inb, 4 * n); memcpy(C, inc, 4 * n); break; }
  CASE(r->name, n, base, upn, upc);
  vout.rsp = 0; tramp(); callsn++;
  if (!check(r->name, n, 1)) return;
  if (!isref && memcmp(A, ref, 4 * n)) { for (i = 0; A[i] == ref[i]; i++) ; violation("op=%s n=%u: result[%u]=%d instead of %d with register pattern %d/%d, upper half of n 0x%lx, of the scalar 0x%lx, mxcsr 0x%x, vector pattern %d", r->name, n, i, A[i], ref[i], base, one, upn, upc, mx, yp); }
}
/* the expected result: a call with all other registers zero (the C counterpart is compared by C04); through the trampoline, which survives a callee that does not restore registers */
static void reference(const rtn_t *r, u32 n) { isref = 1; run(r, n, 0, -1, 0, 0, 0x1f80, 0x37f, 0, 0); isref = 0; memcpy(ref, A, 4 * n); }
static const u32 UP[] = { 0, 1, 0xffffffff, 0x80000000, 0xdeadbeef };
static const u32 MX[] = { 0x1f80, 0x3f80, 0x5f80, 0x7f80, 0x9f80, 0x1fc0, 0xffc0, 0x1fbf };
static const u16 CW[] = { 0x37f, 0x27f, 0xf7f, 0x07f };
static const u64 FL[] = { 0, 1, 0x40, 0x80, 0x800, 0x8d5 };
static int AS[64], nas;
static void job(int j) {
  const rtn_t *r = &RT[AS[j % nas]]; u32 n; int part = j / nas;
  for (n = 16 * (1 + part); n <= 2048; n += 64) {
    int b, o, u, c, m, f, y, small = n == 16 || n == 48;
    if (!rt_len_ok(r, n)) continue;
    rt_fill(r, ina, n, 1); rt_fill(r, inb, n, 2); rt_fill(r, inc, n, 3); rt_table(r, tab, n, 4);
    /* reference through an ordinary call; the C counterpart is compared by C04 */
    reference(r, n);
    for (b = 0; b < NP; b++) for (o = -1; o < 15; o++) run(r, n, b, o, UP[(b + o + 1) % 5], UP[(b * 3 + o + 1) % 5], 0x1f80, 0x37f, 0, b);
    if (vf_stop()) return;
    for (u = 0; u < 5; u++) for (c = 0; c < (r->shape == SH_S ? 5 : 1); c++) for (m = 0; m < 8; m++) for (b = 0; b < 4; b++) for (f = 0; f < 6; f++) for (y = 0; y < 4; y++) {
      if (!small && !vf_thorough && ((u + c + m + b + f + y) % (n > 256 ? 23 : 5))) continue;
      run(r, n, (y + f) % NP, -1, UP[u], UP[c], MX[m], CW[b], FL[f], y * 2 % NP);
      if (vf_stop()) return;
    }
  }
  stat_add("calls", callsn); callsn = 0;
  stat_add("routines_done", part == 0);
}
static void job_long(int j) { /* lengths beyond the tabulated ones: every register pattern, and the control words */
  static const u32 LN[] = { 2064, 2080, 3072, 4080, 4096, 4112, 5008, 6000, 8176, 8192, 8208, 10000, 12288, 12304, 16384, 16400, 32752, 32768, 32784, 50000, 65520, 65536, 65552, 70000, 70016 };
  const int NL = sizeof LN / 4; const rtn_t *r = &RT[AS[j % nas]]; int part = j / nas, i, b, o, lite = !vf_thorough; u32 n;
  if (r->fixed) return;
  for (i = part; i < NL + 1000; i += 4) {
    n = i < NL ? LN[i] : 2048 + 16 * (u32)(i - NL + 1); if (n > 8192 && i >= NL) break;
    if (!rt_len_ok(r, n)) continue;
    rt_fill(r, ina, n, 1); rt_fill(r, inb, n, 2); rt_fill(r, inc, n, 3);
    if (r->shape != SH_X) rt_table(r, tab, n, 4); else { u32 k, g = n; for (k = 0; k < n; k++) { g = g * 1664525 + 1013904223; tab[k] = (u16)(i16)((i32)((g >> 8) % 12289) - 6144); } } /* no root of that order exists: any table */
    reference(r, n);
    for (b = 0; b < NP; b += lite ? i < NL ? 2 : 4 : 1) for (o = -1; o < (lite ? 0 : 15); o++) run(r, n, b, o, UP[(b + i) % 5], UP[(b * 3 + i) % 5], MX[(b + i) % 8], CW[b % 4], FL[b % 6], b);
    if (vf_stop()) return;
    stat_add("long_lengths", 1);
  }
  stat_add("calls", callsn); callsn = 0;
}
static void job_det(int j) { /* the detection routine: all patterns */
  int b, o, f, m, w = __builtin_cpu_supports("avx2") != 0;
  for (b = 0; b < NP; b++) for (o = -1; o < 15; o++) for (f = 0; f < 6; f++) for (m = 0; m < 8; m++) {
    setregs(b, o); vin.mxcsr = MX[m]; vin.cw = CW[m & 3]; vin.flags = 0x202 | FL[f]; vfn = (void *)avx2_supported;
    CASE("avx2_supported", b, o, 0, 0); tramp(); callsn++;
    if (!check("avx2_supported", 0, 1)) return;
    if ((vout.rax & 0xff) != (u64)w) { violation("op=avx2_supported returns 0x%lx on a machine where AVX2 is %s", vout.rax & 0xff, w ? "available" : "not available"); return; }
  }
  stat_add("calls", callsn); callsn = 0; (void)j;
}
int main(int argc, char **argv) {
  int i; vf_init(argc, argv); vf_only = 0; rt_init();
  for (i = 0; i < NRT; i++) if (RT[i].impl == IMPL_ASM && RT[i].shape <= SH_X) AS[nas++] = i;
  sample("%d entry points, e.g. %s n=48: rbx=0x%lx.., upper half of rsi 0xffffffff, MXCSR 0x7f80, x87 CW 0xf7f", nas, RT[AS[0]].name, PAT[3]);
  sample("avx2_supported with every register holding each pattern");
  stat_add("routines", nas + 1);
  run_jobs("registers", nas * 4, job);
  run_jobs("long", nas * 4, job_long);
  run_jobs("detection", 1, job_det);
  return vf_finish();
}
