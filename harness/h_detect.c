/* C23 (and the detection part of C17): avx2_supported under every combination of what CPUID and XGETBV can report.
 * The routine is single-stepped (trap flag); each CPUID / XGETBV it is about to execute is emulated from the enumerated machine.
 * argv[2]: answer = judge the returned value, abi = judge registers and the shape of the result */
#include "common.h"
#include <ucontext.h>
extern bool avx2_supported(void);
static int abi;
static struct mach { u32 c1, d1, b7, f7, xlo, xhi; u32 max; } M;
static volatile int steps, over, used_xgetbv, ud, badsub; static volatile u64 insn;
static void emul(ucontext_t *u) {
  greg_t *g = u->uc_mcontext.gregs; int k;
  for (k = 0; k < 8; k++) {
    const unsigned char *p = (const unsigned char *)g[REG_RIP];
    while (0) ;
    if (p[0] == 0x0f && p[1] == 0xa2) { u32 l = (u32)g[REG_RAX], s = (u32)g[REG_RCX], a = 0, b = 0, c = 0, d = 0;
      switch (l) { case 0: a = M.max; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; break; case 1: a = 0x306c3; b = M.f7; c = M.c1; d = M.d1; break;
        case 7: if (s == 0) { a = M.f7 & 1; b = M.b7; c = M.f7; d = M.f7; } else { badsub = 1; a = b = c = d = M.f7 & ~0x20u; } break;
        case 0xd: a = 7; b = c = 0x340; break; case 0x80000000u: a = 0x80000008u; break; default: a = b = c = d = M.f7; }
      g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] += 2; insn++; continue; }
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd0) { used_xgetbv = 1;
      if (!(M.c1 >> 27 & 1) || (u32)g[REG_RCX] > 1) ud = 1; /* #UD without OSXSAVE, #GP for another register */
      if ((u32)g[REG_RCX] == 0) { g[REG_RAX] = M.xlo; g[REG_RDX] = M.xhi; } else { g[REG_RAX] = 0; g[REG_RDX] = 0; }
      g[REG_RIP] += 3; insn++; continue; }
    return;
  }
}
static void trap(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = uc; (void)sig; (void)si;
  if (++steps > 20000) over = 1;
  if (over) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
  emul(u);
}
u64 ri[16], ro[16]; void *vfn = avx2_supported; u64 vrsp;
extern void tramp(void);
/* ri: rax rbx rcx rdx rsi rdi rbp r8 r9 r10 r11 r12 r13 r14 r15 */
__asm__(".text\ntramp: push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n sub $8,%rsp\n mov %rsp,vrsp(%rip)\n"
  "sub $256,%rsp\n movabs $0x5ca1ab1e0ddba11,%rax\n mov $32,%ecx\n1: mov %rax,-8(%rsp,%rcx,8)\n dec %ecx\n jnz 1b\n"
  "mov $64,%ecx\n2: neg %rcx\n mov ri+8(%rip),%rdx\n mov %rdx,-16(%rsp,%rcx,8)\n neg %rcx\n dec %ecx\n jnz 2b\n"
  "pushfq; orq $0x100,(%rsp); popfq\n"
  "mov ri(%rip),%rax; mov ri+8(%rip),%rbx; mov ri+16(%rip),%rcx; mov ri+24(%rip),%rdx; mov ri+32(%rip),%rsi; mov ri+40(%rip),%rdi; mov ri+48(%rip),%rbp; mov ri+56(%rip),%r8; mov ri+64(%rip),%r9; mov ri+72(%rip),%r10; mov ri+80(%rip),%r11; mov ri+88(%rip),%r12; mov ri+96(%rip),%r13; mov ri+104(%rip),%r14; mov ri+112(%rip),%r15\n"
  "call *vfn(%rip)\n"
  "mov %rax,ro(%rip); mov %rbx,ro+8(%rip); mov %rbp,ro+48(%rip); mov %r12,ro+88(%rip); mov %r13,ro+96(%rip); mov %r14,ro+104(%rip); mov %r15,ro+112(%rip); mov %rsp,ro+120(%rip)\n"
  "mov vrsp(%rip),%rsp\n sub $256,%rsp\n sub $1024,%rsp\n pushfq\n mov (%rsp),%rax\n mov %rax,ro+56(%rip)\n andq $~0x500,(%rsp)\n popfq\n add $1024,%rsp\n"
  "xor %eax,%eax\n mov $32,%ecx\n movabs $0x5ca1ab1e0ddba11,%rdx\n3: cmp %rdx,-8(%rsp,%rcx,8)\n je 4f\n inc %eax\n4: dec %ecx\n jnz 3b\n mov %rax,ro+64(%rip)\n"
  "add $256,%rsp\n add $8,%rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx\n ret\n");
static u64 calls, yes;
static const u64 PAT[4] = { 0, ~0ull, 0x0123456789abcdefull, 0xfffffffe00000007ull };
static void one(int pat) {
  int i, want = (M.c1 >> 27 & 1) && (M.c1 >> 28 & 1) && (M.b7 >> 5 & 1) && (M.xlo & 6) == 6;
  for (i = 0; i < 15; i++) ri[i] = PAT[pat] + (pat > 1 ? i * 0x1111111111111111ull : 0);
  steps = over = used_xgetbv = ud = badsub = 0;
  CASE("avx2_supported", M.c1, M.b7, M.xlo, pat);
  tramp();
  calls++; yes += want;
#define AT "leaf1.ecx=0x%x leaf7.ebx=0x%x xcr0=0x%x%08x entry pattern %d"
#define ARG M.c1, M.b7, M.xhi, M.xlo, pat
  if (over) { violation("op=avx2_supported does not return; " AT, ARG); return; }
  if (abi) { static const int R[] = { 1, 6, 11, 12, 13, 14 }; static const char *N[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
    for (i = 0; i < 6; i++) if (ro[R[i]] != ri[R[i]]) { violation("op=avx2_supported: %s not preserved; " AT, N[i], ARG); return; }
    if (ro[15] != vrsp - 256) violation("op=avx2_supported: stack pointer not preserved; " AT, ARG);
    if (ro[8]) violation("op=avx2_supported: caller's stack frame overwritten; " AT, ARG);
    if (ro[7] & 0x400) violation("op=avx2_supported: direction flag left set; " AT, ARG);
    if ((ro[0] & 0xff) > 1) violation("op=avx2_supported: returns 0x%lx, not a boolean; " AT, (long)(ro[0] & 0xff), ARG);
    return; }
  if (ud) { violation("op=avx2_supported executes xgetbv where it faults (OSXSAVE clear or wrong register); " AT, ARG); return; }
  if (((ro[0] & 0xff) != 0) != want) violation("op=avx2_supported returns %ld, CPU and OS report %d; " AT, (long)(ro[0] & 0xff), want, ARG);
}
/* words: the focus bits in every combination x the rest all 0, all 1, one bit set, one bit clear */
static u32 W1[600], W7[300], WX[1200]; static int n1, n7, nx;
static int words(u32 focus, u32 *w) { int n = 0, k, b; u32 s = 0; do { w[n++] = s; w[n++] = s | ~focus; for (b = 0; b < 32; b++) if (!(focus >> b & 1)) { w[n++] = s | 1u << b; w[n++] = (s | ~focus) & ~(1u << b); } s = (s - focus) & focus; } while (s); (void)k; return n; }
static void handlers(void) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, 0); }
static void job(int j) {
  int a, b, c, p; handlers();
  if (j < n1) { M.c1 = W1[j]; /* every leaf-1 word x the combinations of the other focus bits and fillers */
    for (a = 0; a < 8; a++) for (b = 0; b < 16; b++) for (p = 0; p < 4; p++) { M.b7 = (a & 1 ? 0x20 : 0) | (a & 2 ? ~0x20u : 0); M.f7 = a & 4 ? ~0u : 0; M.d1 = M.f7; M.xlo = (b & 7) | (b & 8 ? ~7u : 0); M.xhi = b & 8 ? ~0u : 0; one(p); if (vf_stop()) return; }
  } else if (j < n1 + n7) { M.b7 = W7[j - n1]; for (a = 0; a < 16; a++) for (b = 0; b < 16; b++) for (p = 0; p < 4; p++) { M.c1 = (a & 1 ? 1u << 27 : 0) | (a & 2 ? 1u << 28 : 0) | (a & 4 ? ~(3u << 27) : 0); M.f7 = a & 8 ? ~0u : 0; M.d1 = 0; M.xlo = (b & 7) | (b & 8 ? ~7u : 0); M.xhi = b & 8 ? ~0u : 0; one(p); if (vf_stop()) return; }
  } else { M.xlo = WX[j - n1 - n7]; for (a = 0; a < 16; a++) for (c = 0; c < 4; c++) for (p = 0; p < 4; p++) { M.c1 = (a & 1 ? 1u << 27 : 0) | (a & 2 ? 1u << 28 : 0) | (a & 4 ? ~(3u << 27) : 0); M.b7 = (c & 1 ? 0x20 : 0) | (c & 2 ? ~0x20u : 0); M.f7 = a & 8 ? ~0u : 0; M.d1 = ~0u; M.xhi = c & 2 ? ~0u : 0; one(p); if (vf_stop()) return; } }
  stat_add("detections", calls); stat_add("supported_machines", yes); stat_add("emulated_instructions", insn); calls = yes = 0; insn = 0;
}
int main(int argc, char **argv) {
  int i;
  vf_init(argc, argv); vf_only = 0; abi = argc > 2 && !strcmp(argv[2], "abi");
  M.max = 0x16;
  n1 = words(3u << 27, W1); n7 = words(0x20, W7);
  for (i = 0; i < 256; i++) { WX[nx++] = i; WX[nx++] = i | ~0xffu; }
  for (i = 8; i < 32; i++) { WX[nx++] = 7 | 1u << i; WX[nx++] = ~(1u << i); }
  sample("machine leaf1.ecx=0x%x leaf7.ebx=0x%x xcr0=0x%x: expected answer 1", 3u << 27, 0x20, 6);
  sample("machine leaf1.ecx=0x%x (OSXSAVE clear): expected answer 0 and no xgetbv", 1u << 28);
  run_jobs("detection", n1 + n7 + nx, job);
  return vf_finish();
}
