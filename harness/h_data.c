/* C20: known-answer vectors, and tables dumped by the driver: argv[2] = file "name n v0 v1 ..." checked in Python; here the KATs. */
#include "common.h"
#include "data_poly1024.h"
static void job(int k) {
  static i32 w[1024]; int i; CASE("kat", k, 0, 0, 0);
  for (i = 0; i < 1024; i++) if (a[k][i] < 0 || a[k][i] >= Q || b[k][i] < 0 || b[k][i] >= Q || c[k][i] < 0 || c[k][i] >= Q) { violation("known-answer vector %d: coefficient %d out of range (%d, %d, %d)", k, i, a[k][i], b[k][i], c[k][i]); return; }
  ref_mul(1024, a[k], b[k], w);
  for (i = 0; i < 1024; i++) if (w[i] != c[k][i]) { violation("known-answer vector %d: c[%d] = %d but the product of a and b modulo X^1024+1 has %d there", k, i, c[k][i], w[i]); return; }
  stat_add("kat_vectors", 1); stat_add("entries", 1024);
}
int main(int argc, char **argv) { vf_init(argc, argv); vf_only = 0; build_kat(); sample("known-answer vector 0: a[0]=%d b[0]=%d c[0]=%d", a[0][0], b[0][0], c[0][0]); run_jobs("kat", REPETITIONS, job); return vf_finish(); }
