
#include <stdio.h>
#include <string.h>
#include "ntt_red.h"
#include "ntt_asm.h"
int main(void){ for(uint32_t n=16;n<=160;n+=16){ int32_t a[256],b[256]; for(int i=0;i<256;i++) a[i]=b[i]=(i*977+6100)%12289; shift_array(a,n); shift_array_asm(b,n); if(memcmp(a,b,sizeof a)){ printf("differs for n=%u\n",n); return 1; } } return 0; }
