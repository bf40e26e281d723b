#ifndef IVAPI_H
#define IVAPI_H
#include <stdint.h>
#ifndef INTERVALS_H
typedef struct interval_s { int64_t min; int64_t max; } interval_t;
#endif
typedef void (*ab1_t)(interval_t **, uint32_t, const int16_t *);
typedef void (*ab2_t)(interval_t **, uint32_t, interval_t **);
typedef void (*abu_t)(interval_t **, uint32_t);
typedef void (*abm_t)(interval_t **, uint32_t, interval_t **, interval_t **);
typedef struct { ab1_t t1[8]; ab2_t t2[8]; abu_t u[6]; ab1_t mul16; abm_t mul; void (*scal)(interval_t **, uint32_t, int32_t);
  interval_t *(*mk)(int64_t, int64_t); void (*del)(interval_t *); } ivapi_t;
extern const ivapi_t ivapi;
typedef struct { interval_t *(*u[7])(const interval_t *); interval_t *(*b[3])(const interval_t *, const interval_t *); interval_t *(*scale)(int64_t, const interval_t *); interval_t *(*point)(int64_t); } ivops_t;
extern const ivops_t ivops;
#endif
