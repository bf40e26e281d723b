
/* single-steps avx2_supported and answers its CPUID / XGETBV */
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <stdbool.h>
#include <ucontext.h>
#include "ntt_asm.h"
static unsigned xcr0;
static void trap(int s, siginfo_t *si, void *v){ greg_t *g=((ucontext_t*)v)->uc_mcontext.gregs; for(;;){ unsigned char *p=(unsigned char*)g[REG_RIP];
 if(p[0]==0x0f&&p[1]==0xa2){ unsigned l=g[REG_RAX]; g[REG_RAX]=l?0:7; g[REG_RBX]=l==7?0x20:0; g[REG_RCX]=l==1?0x18000000:0; g[REG_RDX]=0; g[REG_RIP]+=2; }
 else if(p[0]==0x0f&&p[1]==1&&p[2]==0xd0){ g[REG_RAX]=xcr0; g[REG_RDX]=0; g[REG_RIP]+=3; } else break; } }
static int ask(unsigned x){ volatile bool r; xcr0=x; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc"); r=avx2_supported(); __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc"); return r; }
int main(void){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=trap; sa.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&sa,0);
 int e=0; for(unsigned x=0;x<256;x++){ int r=ask(x), w=(x&6)==6; if(r!=w){ printf("XCR0=%x: %d\n",x,r); e=1; } } return e; }
