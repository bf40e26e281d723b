import os
from vbuild import sh
LEVEL = "exploration"
ASSUMPTIONS = ["Intervals beyond the enumerated windows are represented by the listed wide ones; products w*x stay within 63 bits",
               "The oracle for wide intervals uses red(w(x+4096)) = red(wx) - w (exact)"]

def check(b, r, tier):
    for tag, fl, mode in (("rel", ["-DNDEBUG", "-O3"], "full"), ("dbg", ["-O2"], "sub")):
        o = os.path.join(b.dir, "red_bounds_%s.o" % tag)
        sh(["gcc", "-w", "-std=c99", "-D_DEFAULT_SOURCE", *fl, "-c", "red_bounds.c", "-o", o], cwd=b.src)
        r.run(b.harness("h_rb_" + tag, "h_rb.c", [o]), ["", mode], tier=tier)
    s = r.stats
    return {"evaluations": 2 * s.get("intervals", 0) + s.get("step_bounds", 0) + s.get("concrete_runs", 0),
            "distinct_nontrivial": s.get("intervals", 0) + s.get("step_bounds", 0) + s.get("transform_bounds", 0),
            "rule": "one evaluation = one bound function on one interval (pair), value and witness compared with brute force, or one "
                    "concrete lazy transform compared with the per-level bounds; all subintervals of each window, all listed wide pairs, "
                    "every multiplier in the list; every case is a distinct interval/multiplier/table", "exhaustive": True}
