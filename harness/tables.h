/* Function tables exported by the glue files (compiled against /repo's headers). */
#ifndef VF_TABLES_H
#define VF_TABLES_H
#include <stdint.h>
typedef void (*prod_fn)(int32_t *, int32_t *, int32_t *);
typedef void (*arr_fn)(int32_t *);
typedef void (*xf16_fn)(int32_t *, uint32_t, const void *);
enum { IMPL_NTT, IMPL_RED, IMPL_ASM, IMPL_NAIVE, IMPL_VRED };
typedef struct { const char *name; int impl, n, variant; prod_fn f; } prod_t;
typedef struct { const char *name; int impl, n, kind, inverse; arr_fn f; } wrap_t;
typedef struct { const char *name; int impl, kind; void (*f)(void); } xform_t;
extern const prod_t main_prods[], naive_prods[];
extern const wrap_t main_wraps[], naive_wraps[];
extern const xform_t main_xforms[], naive_xforms[];
extern const int n_main_prods, n_naive_prods, n_main_wraps, n_naive_wraps, n_main_xforms, n_naive_xforms;
/* psi used by the generated tables of each size */
extern int main_psi(int n);
/* access to the tables of a size: idx enumerates named tables */
typedef struct { const char *name; int n, red; const void *p; } tab_t;
extern const tab_t main_tabs[];
extern const int n_main_tabs;
typedef struct { int n; int32_t psi, omega, inv_psi, inv_omega, inv_n; int32_t rpsi, romega, rinv_psi, rinv_omega, rinv_n, rinv_k, rescale8, rescale6; } par_t;
extern const par_t main_pars[4];
typedef struct { int n; const uint16_t (*p)[2]; uint32_t npairs; } brt_t;
extern const brt_t main_brts[4];
/* naive entry points */
typedef struct {
  void (*bitrev_shuffle)(int32_t *, uint32_t);
  void (*shuffle_with_table)(int32_t *, const uint16_t (*)[2], uint32_t);
  void (*mul_array16)(int32_t *, uint32_t, const uint16_t *, int32_t);
  void (*mul_array)(int32_t *, uint32_t, const int32_t *, const int32_t *, int32_t);
  void (*scalar_mul_array)(int32_t *, uint32_t, int32_t, int32_t);
} naive_api_t;
extern const naive_api_t naive_api;
#endif
