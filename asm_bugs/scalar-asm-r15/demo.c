
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include "ntt_asm.h"
int32_t a[64]; uint64_t probe(void);
__asm__(".text\n.globl probe\nprobe: push %r15\n mov $0x1122334455667788,%r15\n lea a(%rip),%rdi\n mov $64,%esi\n mov $3,%edx\n call scalar_mul_reduce_array_asm@PLT\n mov %r15,%rax\n pop %r15\n ret\n");
int main(void){ uint64_t r=probe(); if(r!=0x1122334455667788ull){ printf("r15 = %lx\n",(long)r); return 1;} return 0; }
