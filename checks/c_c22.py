import os
from vbuild import sh
LEVEL = "exploration"
ASSUMPTIONS = ["sort only compares and moves elements, so order types and the listed extreme values represent all contents; lengths beyond the exhaustive bounds by structured arrays"]

def check(b, r, tier):
    o1, o2 = (os.path.join(b.dir, x) for x in ("sort_src.o", "sort_bench.o"))
    sh(["gcc", "-w", "-std=c99", "-DNDEBUG", "-D_DEFAULT_SOURCE", "-O3", "-c", "sort.c", "-o", o1], cwd=b.src)
    sh(["gcc", "-w", "-std=c99", "-DNDEBUG", "-D_DEFAULT_SOURCE", "-O3", "-c", "sort.c", "-o", o2], cwd=b.bench)
    sh(["objcopy", "--redefine-sym=sort=sort2", o2])
    sh(["objcopy", "--keep-global-symbol=sort2", o2])
    sh(["objcopy", "--keep-global-symbol=sort", o1])
    r.run(b.harness("h_sort", "h_sort.c", [o1, o2]), [""], tier=tier)
    s = r.stats
    n = s.get("arrays", 0) + s.get("permutations", 0) + s.get("structured", 0)
    return {"evaluations": 2 * n, "distinct_nontrivial": n,
            "rule": "one evaluation = one call of one copy of sort on one array placed against a guard page, compared with the sorted multiset; "
                    "all arrays over the alphabets and all permutations up to the bounds, structured arrays of every length to 1119 and some to 100000",
            "exhaustive": True}
