#include "glue_ival.c"
const ivops_t ivops = { { neg, red, red_twice, normal, normal_inv3, shift, correct }, { add, sub, red_mul }, red_scale, point };
