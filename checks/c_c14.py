import os
from vbuild import sh
LEVEL = "exploration"
ASSUMPTIONS = ["Products of interval members stay within 63 bits", "malloc succeeds"]

def check(b, r, tier):
    for tag, fl, mode in (("rel", ["-DNDEBUG", "-O3"], "full"), ("dbg", ["-O2"], "sub")):
        os_ = []
        for f in ("intervals", "red_bounds"):
            o = os.path.join(b.dir, "%s_%s.o" % (f, tag))
            sh(["gcc", "-w", "-std=c99", "-D_DEFAULT_SOURCE", *fl, "-c", f + ".c", "-o", o], cwd=b.src)
            os_.append(o)
        r.run(b.harness("h_ival_" + tag, "h_ival.c", os_), ["", mode], tier=tier)
    s = r.stats
    return {"evaluations": s.get("intervals", 0) + s.get("error_cases", 0), "distinct_nontrivial": s.get("intervals", 0),
            "rule": "one evaluation = one interval operation on one interval (pair), its result compared with the extrema of the concrete "
                    "operation over every point of the interval(s); error cases run in a child process that must end with an error; "
                    "all subintervals of each window, all pairs of the boundary lists", "exhaustive": True, "error_cases": s.get("error_cases", 0)}
