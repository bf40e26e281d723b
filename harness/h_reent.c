/* C18: every single preemption of every routine by another call, and all call histories to the bound.
 * Preemption: the outer call is single-stepped (trap flag). At every instruction boundary the state of the outer call is saved, the
 * interfering call runs to completion, the outer call runs on to its end, both results are compared with those of undisturbed calls
 * in a fresh process, and the outer call is put back to the saved state and advanced by one instruction. */
#include "net.h"
#include "tables.h"
#include "routines.h"
#include <ucontext.h>
#include "ivapi.h"
#include "red_bounds.h"
/* scalar routines of the bound and interval libraries and the sort, behind the in-place array interface: arguments and results in 64-bit slots */
#define IMPL_EXT 77
extern void sort(u64 *, u32);
static char HEAP[1 << 20] __attribute__((aligned(16))); static volatile u32 heapn;   /* blocks for the interval library: never handed out twice within a call */
void *vf_malloc(size_t n) { u32 k = __sync_fetch_and_add(&heapn, 1); if (n > 64) _exit(2); return HEAP + (k % (sizeof HEAP / 64)) * 64; }
void vf_free(void *p) { }
void *vf_calloc(size_t a, size_t b) { void *p = vf_malloc(a * b); memset(p, 0, a * b); return p; }
#define V64 i64 *v = (i64 *)a
static void e_max_red(i32 *a) { V64; i64 m = 0; v[4] = max_red(v[0], v[1], &m); v[5] = m; }
static void e_min_red(i32 *a) { V64; i64 m = 0; v[4] = min_red(v[0], v[1], &m); v[5] = m; }
static void e_max_red_mul(i32 *a) { V64; i64 m = 0; v[4] = max_red_mul(v[0], v[1], v[2], &m); v[5] = m; }
static void e_min_red_mul(i32 *a) { V64; i64 m = 0; v[4] = min_red_mul(v[0], v[1], v[2], &m); v[5] = m; }
static void e_max_red_mul_interval(i32 *a) { V64; i64 m = 0, w = 0; v[4] = max_red_mul_interval(v[0], v[1], v[2], v[3], &m, &w); v[5] = m; v[6] = w; }
static void e_min_red_mul_interval(i32 *a) { V64; i64 m = 0, w = 0; v[4] = min_red_mul_interval(v[0], v[1], v[2], v[3], &m, &w); v[5] = m; v[6] = w; }
static void e_ct_bound(i32 *a) { V64; v[4] = ct_bound(v[1] - v[0], v[2], v[3]); }
static void e_gs_bound(i32 *a) { V64; v[4] = gs_bound(v[1] - v[0], v[2], v[3]); }
static void e_ct_bound_fixed(i32 *a) { V64; v[4] = ct_bound_fixed(v[1] - v[0], v[2]); }
static void e_gs_bound_fixed(i32 *a) { V64; v[4] = gs_bound_fixed(v[1] - v[0], v[2]); }
static void e_ntt_ct_bounds(i32 *a) { V64; i16 p[4] = { 0, (i16)v[2], (i16)v[3], (i16)(v[2] + v[3]) }; v[4] = ntt_ct_bounds(v[1] - v[0], 4, p, v + 8); }
static void e_ntt_gs_bounds(i32 *a) { V64; i16 p[4] = { 0, (i16)v[2], (i16)v[3], (i16)(v[2] + v[3]) }; v[4] = ntt_gs_bounds(v[1] - v[0], 4, p, v + 8); }
static void e_sort(i32 *a) { sort((u64 *)a, 16); }
static void put(i64 *v, const interval_t *r) { v[4] = r->min; v[5] = r->max; }
#define E_U(nm, k) static void e_##nm(i32 *a) { V64; interval_t x = { v[0], v[1] }; interval_t *r = ivops.u[k](&x); put(v, r); ivapi.del(r); }
#define E_B(nm, k) static void e_##nm(i32 *a) { V64; interval_t x = { v[0], v[1] }, y = { v[2], v[3] }; interval_t *r = ivops.b[k](&x, &y); put(v, r); ivapi.del(r); }
E_U(neg, 0) E_U(red, 1) E_U(red_twice, 2) E_U(normal, 3) E_U(normal_inv3, 4) E_U(ishift, 5) E_U(icorrect, 6) E_B(iadd, 0) E_B(isub, 1) E_B(red_mul, 2)
static void e_red_scale(i32 *a) { V64; interval_t x = { v[0], v[1] }; interval_t *r = ivops.scale(v[2], &x); put(v, r); ivapi.del(r); }
static void e_point(i32 *a) { V64; interval_t *r = ivops.point(v[0]); put(v, r); ivapi.del(r); }
static void e_mk(i32 *a) { V64; interval_t *r = ivapi.mk(v[0], v[1]); put(v, r); ivapi.del(r); }
/* array operations of the interval library on four intervals */
static void e_arr(i32 *a, int k) { V64; interval_t *t[4], *u[4], *w[4]; i16 p[4] = { 3, -2, 1, 5 }; int i;
  for (i = 0; i < 4; i++) { t[i] = ivapi.mk(v[2 * i], v[2 * i + 1]); u[i] = ivapi.mk(v[2 * i + 8], v[2 * i + 9]); w[i] = 0; }
  if (k < 6) ivapi.u[k](t, 4); else if (k == 6) ivapi.mul16(t, 4, p); else if (k == 7) ivapi.scal(t, 4, 7); else { ivapi.mul(w, 4, t, u); for (i = 0; i < 4; i++) { ivapi.del(t[i]); t[i] = w[i]; } }
  for (i = 0; i < 4; i++) { v[2 * i] = t[i]->min; v[2 * i + 1] = t[i]->max; ivapi.del(t[i]); ivapi.del(u[i]); } }
#define E_A(nm, k) static void e_##nm(i32 *a) { e_arr(a, k); }
E_A(abstract_normalize, 0) E_A(abstract_normalize_inv3, 1) E_A(abstract_shift_array, 2) E_A(abstract_reduce_array, 3) E_A(abstract_reduce_array_twice, 4) E_A(abstract_correct, 5) E_A(abstract_mul_reduce_array16, 6) E_A(abstract_scalar_mul_reduce_array, 7) E_A(abstract_mul_reduce_array, 8)
static void ext_init(void) {
#define X(nm) rt_add(#nm, SH_W, IMPL_EXT, 0, 32, 0, 0, (void *)e_##nm, 0, 12288)
  X(max_red); X(min_red); X(max_red_mul); X(min_red_mul); X(max_red_mul_interval); X(min_red_mul_interval); X(ct_bound); X(gs_bound); X(ct_bound_fixed); X(gs_bound_fixed); X(ntt_ct_bounds); X(ntt_gs_bounds); X(sort);
  X(neg); X(red); X(red_twice); X(normal); X(normal_inv3); X(ishift); X(icorrect); X(iadd); X(isub); X(red_mul); X(red_scale); X(point); X(mk);
  X(abstract_normalize); X(abstract_normalize_inv3); X(abstract_shift_array); X(abstract_reduce_array); X(abstract_reduce_array_twice); X(abstract_correct); X(abstract_mul_reduce_array16); X(abstract_scalar_mul_reduce_array); X(abstract_mul_reduce_array);
}
static void ext_fill(i32 *a, u32 seed) { i64 *v = (i64 *)a; int i; u32 g = seed * 2654435761u + 9; /* eight intervals within [0,12288] */
  for (i = 0; i < 8; i++) { i64 x, y; g = g * 1664525 + 1013904223; x = (g >> 8) % 9000; g = g * 1664525 + 1013904223; y = x + (g >> 8) % (i & 1 ? 6 : 40); v[2 * i] = x; v[2 * i + 1] = y; } }
typedef struct { int r; u32 n, seed; i32 ina[1024], inb[1024], inc[1024]; u16 tab[2048]; i32 sc; i32 ref[1024]; int writes; } inst_t; /* a call with fixed arguments and its result as first call of a process */
static inst_t *IN; static int NI;
typedef struct { i32 a[1024 + 32], b[1024 + 32], c[1024 + 32]; u16 t[2048]; } bufs_t;
/* the library's own writable static memory (the build gathers its .data and .bss here); saved and put back with the outer call */
extern unsigned char __start_vfdata[] __attribute__((weak)), __stop_vfdata[] __attribute__((weak));
static unsigned char *ST, *ST0; static size_t stn;   /* ST0: as a fresh process has it */
static bufs_t OB __attribute__((aligned(64))), IB __attribute__((aligned(64))), SV __attribute__((aligned(64)));
static void load(bufs_t *o, const inst_t *x, int dirt) { u32 n = x->n, tn = rt_tabn(&RT[x->r], n); memset(o, dirt, sizeof *o); memcpy(o->a + 16, x->ina, 4 * n); if (rt_has_b(&RT[x->r])) { memcpy(o->b + 16, x->inb, 4 * n); memcpy(o->c + 16, x->inc, 4 * n); if (dirt) memset(o->a + 16, dirt, 4 * n); } memcpy(o->t, x->tab, 2 * tn); }
static void go(bufs_t *o, const inst_t *x) { rt_call(&RT[x->r], o->a + 16, x->n, o->b + 16, o->c + 16, o->t, x->sc); }
static int same(const bufs_t *o, const inst_t *x) { return !memcmp(o->a + 16, x->ref, 4 * x->n); }
static void add_inst(int r, u32 n, u32 seed) {
  inst_t *x = &IN[NI++]; const rtn_t *q = &RT[r]; x->r = r; x->n = n; x->seed = seed;
  if (q->impl == IMPL_EXT) ext_fill(x->ina, seed); else rt_fill(q, x->ina, n, seed); rt_fill(q, x->inb, n, seed + 50); rt_fill(q, x->inc, n, seed + 90); rt_table(q, x->tab, n, seed); x->sc = rt_scalar(q, seed + 3); }
/* small and equal contents in all arrays: values a table of precomputed results would hold */
static void add_small(int r, u32 n) {
  inst_t *x = &IN[NI++]; const rtn_t *q = &RT[r]; u32 i; x->r = r; x->n = n; x->seed = 0;
  if (q->impl == IMPL_EXT) ext_fill(x->ina, 3); else { rt_table(q, x->tab, n, 3); if (q->shape == SH_T) for (i = 0; i < n; i++) x->tab[i] = (u16)(2 + i % 11); for (i = 0; i < n; i++) x->ina[i] = x->inb[i] = x->inc[i] = 2 + i % 11; } x->sc = 3; }
static void fresh(void) { /* reference results: one fresh process per instance */
  int i; for (i = 0; i < NI; i++) { pid_t p = fork(); int st; if (p < 0) exit(2); if (p == 0) { vf_handlers(); vf_limit(60); CASE(RT[IN[i].r].name, IN[i].n, 0, 0, 0); vf_phase = "fresh"; load(&OB, &IN[i], 0); if (stn) memcpy(ST, __start_vfdata, stn); go(&OB, &IN[i]); IN[i].writes = stn && memcmp(ST, __start_vfdata, stn); memcpy(IN[i].ref, OB.a + 16, 4 * IN[i].n); _exit(0); } while (waitpid(p, &st, 0) < 0) ; } }

/* ---- preemption ---- */
static const inst_t *vo, *vi; static volatile int freerun, over; static u64 points, depth, total_steps; static unsigned char *sbase; static unsigned char stk[1 << 17]; static size_t stkn; static u32 sheap;
static greg_t sregs[NGREG]; static unsigned char sfp[32768] __attribute__((aligned(64))); static size_t sfpn;
static u64 skip, onlyevery = 1, phase_;
static size_t fpsize(void *fp) { u32 *sw = (u32 *)((char *)fp + 464); if (sw[0] == 0x46505853u) return sw[1]; return 512; }
static void on_trap(int s, siginfo_t *si, void *u) {
  ucontext_t *uc = u; unsigned char *sp; (void)s; (void)si;
  if (over) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
  depth++; total_steps++;
  if ((depth + phase_) % onlyevery) return;
  sp = (unsigned char *)uc->uc_mcontext.gregs[REG_RSP] - 256;
  if (sp >= sbase) return;                                       /* still in (or back in) the harness */
  stkn = sbase - sp; if (stkn > sizeof stk) { violation("op=%s uses more than 128 KB of stack", RT[vo->r].name); _exit(3); }
  memcpy(stk, sp, stkn); sheap = heapn; memcpy(&SV, &OB, sizeof SV); if (stn) memcpy(ST, __start_vfdata, stn); memcpy(sregs, uc->uc_mcontext.gregs, sizeof sregs);
  sfpn = fpsize(uc->uc_mcontext.fpregs); if (sfpn > sizeof sfp) { fprintf(stderr, "xstate too large\n"); _exit(2); } memcpy(sfp, uc->uc_mcontext.fpregs, sfpn);
  memset((unsigned char *)uc->uc_mcontext.gregs[REG_RSP] - 128 - 8192, 0xd3, 8192); /* what a handler on this stack would overwrite: all below the red zone */
  load(&IB, vi, 0x35); vf_fn = RT[vi->r].name; go(&IB, vi); vf_fn = RT[vo->r].name;
  if (!same(&IB, vi)) { violation("op=%s n=%u started after %lu instructions of %s n=%u on other arrays returns a different result than alone", RT[vi->r].name, vi->n, depth, RT[vo->r].name, vo->n); over = 2; }
  points++; freerun = 1; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
}
static void on_resume(int s, siginfo_t *si, void *u) { /* put the outer call back to the saved instruction boundary, stepping again */
  ucontext_t *uc = u; (void)s; (void)si;
  freerun = 0; heapn = sheap; memcpy(sbase - stkn, stk, stkn); memcpy(&OB, &SV, sizeof OB); if (stn) memcpy(__start_vfdata, ST, stn);
  sregs[REG_CSGSFS] = uc->uc_mcontext.gregs[REG_CSGSFS]; memcpy(uc->uc_mcontext.gregs, sregs, sizeof sregs); uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
  if (fpsize(uc->uc_mcontext.fpregs) == sfpn) memcpy(uc->uc_mcontext.fpregs, sfp, sfpn); else { fprintf(stderr, "xstate size changed\n"); _exit(2); }
}
static __attribute__((noinline)) void stepped(void) {
  __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
  go(&OB, vo);
  __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
}
static __attribute__((noinline)) void explore(void) {
  sbase = __builtin_frame_address(0); sbase -= 4096;
  { volatile char *p = __builtin_alloca(8192); p[0] = 0; __asm__ volatile("" :: "r"(p) : "memory"); }
  stepped();
  /* reached once per preemption point (freerun) and finally once more */
  if (freerun) {
    if (!same(&OB, vo) && !over) { violation("op=%s n=%u: result changes when the call is interrupted after %lu instructions by %s n=%u on other arrays", RT[vo->r].name, vo->n, depth, RT[vi->r].name, vi->n); over = 2; }
    if (over != 2) raise(SIGUSR2);
  } else if (!same(&OB, vo) && !over) violation("op=%s n=%u: single-stepped call returns a different result", RT[vo->r].name, vo->n);
}
static int PO[512], npo, PI_[512], npi, ILIST[512][8], per_i; static u64 stepcap;
static void preempt(int o, int i) {
  struct sigaction sa; static unsigned char *alt; stack_t ss;
  if (!alt) { alt = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 20; sigaltstack(&ss, 0);
  memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sa.sa_sigaction = on_trap; sigfillset(&sa.sa_mask); sigdelset(&sa.sa_mask, SIGSEGV); sigdelset(&sa.sa_mask, SIGBUS); sigdelset(&sa.sa_mask, SIGFPE); sigdelset(&sa.sa_mask, SIGILL); sigdelset(&sa.sa_mask, SIGABRT); sigaction(SIGTRAP, &sa, 0);
  sa.sa_sigaction = on_resume; sigaction(SIGUSR2, &sa, 0);
  vo = &IN[o]; vi = &IN[i]; freerun = 0; over = 0; depth = 0; CASE(RT[vo->r].name, vo->n, i, 0, 0);
  if (stn) memcpy(__start_vfdata, ST0, stn);   /* the outer call is the first of its process */
  load(&OB, vo, 0x6b); explore(); over = 1;
  stat_add("schedules", points); points = 0; stat_add("steps", total_steps); total_steps = 0; stat_add("pairs", 1);
}
static void job_pre(int j) { int o = j % npo, k = j / npo; if (k < per_i) { onlyevery = 1; preempt(PO[o], ILIST[o][k]); } }
/* larger sizes: a coarse stride for routines that write no static memory of their own; those that do get every instruction
 * boundary (thorough) or a stride that spreads a budget of preemptions over all of them (quick) */
static int BO[512], nbo, WR[2400], nwr; static u64 wstride;
static void job_big(int j) { int o = BO[j % nbo]; onlyevery = vf_thorough ? 61 : IN[o].n == 1024 ? 2003 : 1009; phase_ = j / nbo * 7; preempt(o, o + 1); onlyevery = 1; phase_ = 0; }
static int SM[512][2], nsm; /* routines that write static memory: ordinary and small contents, each way round */
static void job_small(int j) { int k = j / 3, v = j % 3; if (!IN[SM[k][0]].writes && !IN[SM[k][1]].writes) return; onlyevery = 1; phase_ = 0; preempt(SM[k][v != 0], SM[k][v != 1]); }
static void job_wr(int j) { onlyevery = 8 * wstride; phase_ = j % 8 * wstride; preempt(WR[j / 8], WR[j / 8] + 1); onlyevery = 1; phase_ = 0; }

/* ---- histories ---- */
static int HS[800], nhs;
static void job_pairs(int j) { /* history (h1, h2) for every h2, arguments of h2 in the very same buffers as those of h1 */
  int a, b = 0; const inst_t *x = &IN[HS[j]];
  for (a = 0; a < nhs; a++) { const inst_t *y = &IN[HS[a]];
    load(&OB, x, 0x11); CASE(RT[x->r].name, x->n, j, a, 0); go(&OB, x);
    if (!same(&OB, x)) { violation("op=%s n=%u: result depends on earlier calls (previous call %s n=%u)", RT[x->r].name, x->n, b ? RT[IN[HS[b - 1]].r].name : "-", b ? IN[HS[b - 1]].n : 0); return; }
    load(&OB, y, 0xee); CASE(RT[y->r].name, y->n, j, a, 0); go(&OB, y); b = a + 1;
    if (!same(&OB, y)) { violation("op=%s n=%u: result after %s n=%u differs from a fresh process", RT[y->r].name, y->n, RT[x->r].name, x->n); return; }
    stat_add("histories", 1); stat_add("calls", 2); }
}
static int TS[300], nts;
static void job_tri(int j) { /* all histories of three calls over the small instances */
  int a, b;
  for (a = 0; a < nts; a++) { for (b = 0; b < nts; b++) { int h[3] = { TS[j], TS[a], TS[b] }, k;
    for (k = 0; k < 3; k++) { const inst_t *x = &IN[h[k]]; u32 n = x->n; const rtn_t *r = &RT[x->r]; 
      memcpy(OB.a + 16, x->ina, 4 * n); if (rt_has_b(r)) { memcpy(OB.b + 16, x->inb, 4 * n); memcpy(OB.c + 16, x->inc, 4 * n); } if (r->shape == SH_T || r->shape == SH_X) memcpy(OB.t, x->tab, 2 * n); else if (r->shape == SH_PT) memcpy(OB.t, x->tab, 2 * rt_tabn(r, n));
      CASE(r->name, n, h[0], h[1], h[2]); go(&OB, x);
      if (!same(&OB, x)) { violation("op=%s n=%u: result differs as call %d of the history %s(%u), %s(%u), %s(%u)", r->name, n, k + 1, RT[IN[h[0]].r].name, IN[h[0]].n, RT[IN[h[1]].r].name, IN[h[1]].n, RT[IN[h[2]].r].name, IN[h[2]].n); return; } }
    } stat_add("histories", nts); stat_add("calls", 3 * nts); if (vf_stop()) return; }
}
/* ---- a call and then one that differs from it in a single argument element ---- */
static i32 (*RES)[1024];                      /* one shared result per worker slot, by job */
static inst_t VX;
static void fork_ref(const inst_t *first, const inst_t *x, i32 *out) { pid_t p = fork(); int st; if (p < 0) { perror("fork"); _exit(2); }
  if (p == 0) { if (first) { load(&OB, first, 0x22); go(&OB, first); } load(&OB, x, 0x44); go(&OB, x); memcpy(out, OB.a + 16, 4 * x->n); _exit(0); } while (waitpid(p, &st, 0) < 0) ; if (!WIFEXITED(st) || WEXITSTATUS(st)) { violation("op=%s n=%u: crash (status 0x%x)", RT[x->r].name, x->n, st); } }
static void job_near(int j) {
  const inst_t *x = &IN[HS[j % nhs]]; const rtn_t *r = &RT[x->r]; u32 n = x->n, k, nk = n <= 40 ? n : 10, tn; int part, half = j / nhs; i32 *o1 = RES[2 * j], *o2 = RES[2 * j + 1];
  if (r->impl == IMPL_EXT) return;
  tn = rt_tabn(r, n);
  for (part = 0; part < 5; part++) {
    if ((part == 1 || part == 2) && !rt_has_b(r)) continue; if (part == 3 && (!tn || r->shape == SH_PT)) continue; if (part == 4 && r->shape != SH_S) continue; if (part == 0 && rt_has_b(r)) continue;
    for (k = half; k < (part == 4 ? 1 : nk); k += 2) { u32 e = nk == n ? k : (u32[]){ 0, 1, 2, n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1 }[k]; i32 *q; i64 span = r->hi - r->lo + 1;
      VX = *x; q = part == 0 ? VX.ina : part == 1 ? VX.inb : VX.inc;
      if (part < 3) q[e] = (i32)(r->lo + ((i64)q[e] - r->lo + span / 3) % span);
      else if (part == 3) { i32 w = rt_red(r) ? (i32)(i16)VX.tab[e] : VX.tab[e], lo = rt_red(r) ? -6144 : 0; w = lo + (w - lo + 4096) % 12289; VX.tab[e] = (u16)w; }
      else { i32 lo = rt_red(r) ? -6144 : 0; VX.sc = lo + (VX.sc - lo + 1) % 12289; }
      CASE(r->name, n, part, e, 0);
      fork_ref(0, &VX, o1); fork_ref(x, &VX, o2);
      if (memcmp(o1, o2, 4 * n)) { violation("op=%s n=%u: after a call whose arguments differ only in element %u of argument %d, the result is not that of a fresh process", r->name, n, e, part); return; }
      stat_add("histories", 1); stat_add("calls", 3); if (vf_stop()) return;
    } }
}
/* ---- the same call many times ---- */
static void job_long(int j) {
  const inst_t *x = &IN[HS[j]]; u32 n = x->n, t, T = n <= 40 ? 70000 : 3000; const rtn_t *r = &RT[x->r];
  if (x->writes) T = n <= 40 ? 1000000 : 40000; if (vf_thorough) T *= 10;
  for (t = 0; t < T; t++) {
    if (t % 997 == 0) load(&OB, x, 0); else { memcpy(OB.a + 16, x->ina, 4 * n); if (r->shape == SH_PROD) { memcpy(OB.b + 16, x->inb, 4 * n); memcpy(OB.c + 16, x->inc, 4 * n); } }
    CASE(r->name, n, t, 0, 0); go(&OB, x);
    if (!same(&OB, x)) { violation("op=%s n=%u: result differs as call number %u of a run of equal calls", r->name, n, t + 1); return; }
    if (!(t & 255) && vf_stop()) return; }
  stat_add("histories", 1); stat_add("calls", T);
}
int main(int argc, char **argv) {
  int i, k; vf_init(argc, argv); vf_only = 0; rt_init(); ext_init(); vf_job_limit = vf_thorough ? 3000 : 200;
  IN = mmap(0, sizeof(inst_t) * 2400, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (IN == MAP_FAILED) return 2;
  for (i = 0; i < NRT; i++) { u32 n = RT[i].fixed ? RT[i].fixed : RT[i].step == 1 ? 19 : 16;
    add_inst(i, n, 7); add_inst(i, n, 1234);
    if (n <= 32) { PO[npo++] = NI - 2; TS[nts] = NI - 2; nts++; HS[nhs++] = NI - 1; }
    HS[nhs++] = NI - 2;
    if (!RT[i].fixed) { add_inst(i, RT[i].step == 1 ? 40 : 32, 77); add_inst(i, RT[i].step == 1 ? 40 : 32, 99); HS[nhs++] = NI - 2; if (RT[i].step == 2 || RT[i].step == 32) { add_inst(i, 1024, 5); add_inst(i, 1024, 6); BO[nbo++] = NI - 2; } else { add_inst(i, 1024, 5); add_inst(i, 1024, 6); HS[nhs++] = NI - 2; } }
    else if (RT[i].fixed > 32 && (RT[i].shape == SH_PROD || RT[i].fixed == 1024)) BO[nbo++] = NI - 2; }
  for (i = 0; i < npo; i++) { SM[nsm][0] = PO[i]; SM[nsm++][1] = NI; add_small(IN[PO[i]].r, IN[PO[i]].n); }
  if (NI > 2390) return 2;
  for (i = 0; i < npo; i++) { ILIST[i][0] = PO[i] + 1; for (k = 1; k < 8; k++) ILIST[i][k] = PO[(i + 1 + (k - 1) * 37 + (k > 1 ? i * 5 : 0)) % npo]; }
  per_i = vf_thorough ? 8 : 3;
  if (!vf_thorough) { int m = 0; for (i = 0; i < nts; i++) if (i % 3 == 0 || RT[IN[TS[i]].r].shape < SH_X) TS[m++] = TS[i]; nts = m; }
  stn = __start_vfdata ? __stop_vfdata - __start_vfdata : 0; ST = stn ? malloc(stn) : 0; ST0 = stn ? malloc(stn) : 0; if (stn) memcpy(ST0, __start_vfdata, stn);
  fresh();
  for (i = 0; i + 1 < NI; i++) if (IN[i].writes && IN[i].n > 32 && IN[i].r == IN[i + 1].r && IN[i].n == IN[i + 1].n) WR[nwr++] = i;

  wstride = vf_thorough ? 1 : nwr <= 2 ? 7 : nwr <= 8 ? 31 : 251;
  sample("%d routines, %d call instances; %s preempted at every instruction by itself, by %s and by %s", NRT, NI, RT[IN[PO[0]].r].name, RT[IN[ILIST[0][1]].r].name, RT[IN[ILIST[0][2]].r].name);
  sample("all %d^2 two-call histories and all %d^3 three-call histories", nhs, nts);
  run_jobs("histories of two calls", nhs, job_pairs);
  run_jobs("histories of three calls", nts, job_tri);
  RES = mmap(0, sizeof *RES * 4 * nhs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (RES == MAP_FAILED) return 2;
  run_jobs("calls that differ in one element", 2 * nhs, job_near);
  run_jobs("runs of equal calls", nhs, job_long);
  run_jobs("preemptions", npo * per_i, job_pre);
  run_jobs("preemptions at n=256, 512, 1024", nbo * (vf_thorough ? 4 : 1), job_big);
  run_jobs("preemptions of small routines that write static memory", 3 * nsm, job_small);
  if (nwr) run_jobs("preemptions of routines that write static memory", 8 * nwr, job_wr);
  stat_add("static_writers", nwr);
  return vf_finish();
}
