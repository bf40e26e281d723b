
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/time.h>
#include "ntt_red.h"
#include "ntt_asm.h"
/* like a handler on the interrupted stack: everything below the 128-byte red zone may be overwritten */
static volatile long cnt; static void h(int s, siginfo_t *si, void *v){ greg_t sp=((ucontext_t*)v)->uc_mcontext.gregs[REG_RSP]; memset((char*)sp-128-4096,0x5a,4096); cnt++; }
#define N 65536
int main(void){ static int32_t a[N],b[N],in[N]; static char alt[65536]; stack_t ss={alt,0,sizeof alt}; struct sigaction sa; struct itimerval it={{0,50},{0,50}}; for(int i=0;i<N;i++) in[i]=(i*7919)%12289;
 memcpy(a,in,sizeof in); scalar_mul_reduce_array(a,N,4321);
 sigaltstack(&ss,0); memset(&sa,0,sizeof sa); sa.sa_sigaction=h; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGALRM,&sa,0); setitimer(ITIMER_REAL,&it,0);
 for(int k=0;k<400000 && cnt<20000;k++){ memcpy(b,in,sizeof in); scalar_mul_reduce_array_asm(b,N,4321); if(memcmp(a,b,sizeof a)){ printf("result changed by a signal\n"); return 1; } }
 return 0; }
