#include "intervals.h"
#include "ntt_red_interval.h"
#include "ivapi.h"
#define A2(f) f
const ivapi_t ivapi = {
  { abstract_ntt_red_ct_rev2std, abstract_mulntt_red_ct_rev2std, abstract_ntt_red_ct_std2rev, abstract_mulntt_red_ct_std2rev,
    abstract_ntt_red_gs_rev2std, abstract_nttmul_red_gs_rev2std, abstract_ntt_red_gs_std2rev, abstract_nttmul_red_gs_std2rev },
  { (ab2_t)abstract2_ntt_red_ct_rev2std, (ab2_t)abstract2_mulntt_red_ct_rev2std, (ab2_t)abstract2_ntt_red_ct_std2rev, (ab2_t)abstract2_mulntt_red_ct_std2rev,
    (ab2_t)abstract2_ntt_red_gs_rev2std, (ab2_t)abstract2_nttmul_red_gs_rev2std, (ab2_t)abstract2_ntt_red_gs_std2rev, (ab2_t)abstract2_nttmul_red_gs_std2rev },
  { abstract_normalize, abstract_normalize_inv3, abstract_shift_array, abstract_reduce_array, abstract_reduce_array_twice, abstract_correct },
  abstract_mul_reduce_array16, (abm_t)abstract_mul_reduce_array, abstract_scalar_mul_reduce_array, interval, delete_interval };
