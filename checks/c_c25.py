import os
from vbuild import sh, HARN
LEVEL = "exploration"
ASSUMPTIONS = ["The interval library obtains memory only from malloc and its relatives", "Array contents are four patterns per size; object lifetimes do not depend on values beyond those"]
REDIR = ["malloc", "free", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign"]

def check(b, r, tier):
    b.tables()
    b.compile_all("o")
    g = os.path.join(b.dir, "glue_mem.o")
    sh(["gcc", "-w", "-std=gnu99", "-O2", "-I", b.src, "-I", HARN, "-c", os.path.join(HARN, "glue_mem.c"), "-o", g])
    iv = b.closed("o", "interval", g, ["ivapi", "ivops"])
    sh(["objcopy", *["--redefine-sym=%s=vf_%s" % (s, s) for s in REDIR], iv])
    exe = b.harness("h_mem", "h_mem.c", [iv])
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("calls", 0) + s.get("operations", 0) + s.get("faults", 0), "distinct_nontrivial": s.get("configurations", 0) + s.get("sequences", 0) + s.get("faults", 0),
            "rule": "one evaluation = one library call under a checking allocator (fresh blocks and released blocks poisoned, two poisons); distinct = "
                    "(routine, size, inputs) configurations, operation sequences and injected allocation failures", "exhaustive": True,
            "states": s.get("sequences", 0), "transitions": s.get("operations", 0), "objects": s.get("objects", 0), "faults": s.get("faults", 0)}
