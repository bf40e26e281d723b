import os
import gens
from vbuild import sh
LEVEL = "exploration"
ASSUMPTIONS = ["The static analyzer itself is not run; its hooks are replaced by run-time ones",
               "Benchmark table parameters are named as in the benchmark generator (rescale)"]
FN = ("bitrev_shuffle shuffle_with_table mul_array16 mul_array scalar_mul_array ntt_ct_rev2std_v1 ntt_ct_rev2std mulntt_ct_rev2std ntt_ct_std2rev "
      "mulntt_ct_std2rev ntt_gs_rev2std nttmul_gs_rev2std ntt_gs_std2rev nttmul_gs_std2rev normalize normalize_inv3 shift_array reduce_array "
      "reduce_array_twice correct mul_reduce_array16 mul_reduce_array scalar_mul_reduce_array ntt_red_ct_rev2std mulntt_red_ct_rev2std "
      "ntt_red_ct_std2rev mulntt_red_ct_std2rev ntt_red_gs_rev2std nttmul_red_gs_rev2std ntt_red_gs_std2rev nttmul_red_gs_std2rev "
      "ntt_red1024_ct_rev2std ntt_red1024_gs_rev2std ntt_red1024_ct_std2rev ntt_red1024_gs_std2rev intt_red1024_ct_rev2std "
      "intt_red1024_gs_rev2std intt_red1024_ct_std2rev intt_red1024_gs_std2rev mulntt_red1024_ct_rev2std mulntt_red1024_ct_std2rev "
      "inttmul_red1024_gs_rev2std inttmul_red1024_gs_std2rev ntt_red1024_product1 ntt_red1024_product2 ntt_red1024_product3 "
      "ntt_red1024_product4 ntt_red1024_product5").split()
MAINS = ["intt_red1024", "intt_red1024b"] + ["ntt_red1024" + x for x in ("", "b", "c", "d", "e", "f")]


def bench_object(b, k, flags):
    d = os.path.join(b.dir, "bo%d" % k)
    os.makedirs(d)
    glue = os.path.join(d, "glue.c")
    with open(glue, "w") as f:
        f.write('#include "ntt.h"\n#include "ntt_red.h"\n#include "ntt_red1024.h"\ntypedef struct { const char *name; void *f; } fn_t;\n')
        f.write("const fn_t bench_fns[] = {\n" + "".join('{"%s", (void *)%s},\n' % (x, x) for x in FN) + "{0, 0}};\n")
        f.write("".join("extern int hmain_%s(void);\n" % m for m in MAINS))
        f.write("int (*const bench_mains[8])(void) = {" + ", ".join("hmain_" + m for m in MAINS) + "};\n")
    jobs = [("ntt.c", []), ("ntt_red.c", []), ("ntt_red1024.c", []), ("ntt_red1024_tables.c", []), ("bitrev1024_table.c", []), (glue, [])]
    jobs += [("harness_%s.c" % m, ["-Dmain=hmain_" + m]) for m in MAINS]
    def one(j):
        o = os.path.join(d, os.path.basename(j[0])[:-2] + ".o")
        sh(["gcc", "-w", "-std=gnu99", "-O2", "-D_DEFAULT_SOURCE", *flags, *j[1], "-I", b.bench, "-c", j[0], "-o", o], cwd=b.bench)
        return o
    os_ = list(b.pool.map(one, jobs))
    out = os.path.join(b.dir, "bench%d.o" % k)
    sh(["ld", "-r", "-o", out, *os_])
    sh(["objcopy", "--redefine-sym=bench_fns=bench%d_fns" % k, "--redefine-sym=bench_mains=bench%d_mains" % k, out])
    sh(["objcopy", "--keep-global-symbol=bench%d_fns" % k, "--keep-global-symbol=bench%d_mains" % k, out])
    return out


def check(b, r, tier):
    b.tables()
    b.generators(b.bench)
    sh(["./make_red_tables", "1024", "1014"], cwd=b.bench, timeout=60)
    libs = [bench_object(b, 0, ["-DSAFE"]), bench_object(b, 1, ["-DSAFE", "-DUSE_CRAB_INTRINSICS"])] + b.main_lib()
    r.run(b.harness("h_bench", "h_bench.c", libs), tier=tier)
    # generators of the copy, against the documented constants
    d, s = gens.build(b, b.bench)
    r.run(b.harness("h_gen", "h_gen.c", []), ["", "c10", d, s], tier=tier, env={"VF_BENCH": "1"})
    # bound functions of the copy, against brute force
    o = os.path.join(b.dir, "red_bounds_bench.o")
    sh(["gcc", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-DNDEBUG", "-O3", "-c", "red_bounds.c", "-o", o], cwd=b.bench)
    r.run(b.harness("h_rb_bench", "h_rb.c", [o]), ["", "sub"], tier=tier)
    # committed bit-reversal table of the copy
    from gentab import bitrev_tables
    from vbuild import REPO
    tf = os.path.join(b.dir, "brt.txt")
    open(tf, "w").write(bitrev_tables(b, generated=False, srcdir=os.path.join(REPO, "verifier", "vstte20-benchmarks"), tag="bench", viols=r.viols))
    r.run(b.harness("h_bitrev", "h_bitrev.c", b.main_lib()), ["", tf], tier=tier)
    st = r.stats
    return {"evaluations": st.get("comparisons", 0) + st.get("harness_runs", 0) + st.get("entries", 0) + st.get("intervals", 0),
            "distinct_nontrivial": st.get("inputs", 0) + st.get("harness_runs", 0) + st.get("pairs", 0) + st.get("intervals", 0),
            "rule": "one evaluation = one routine of one build of the benchmark copy compared bit for bit with the library's on one input, one "
                    "harness program on one input admitted by its assumptions with every assertion checked, one entry of a table made by the copy's "
                    "generators, or one bound of the copy's bound functions against brute force", "exhaustive": True,
            "assertions_checked": st.get("assertions_checked", 0)}
