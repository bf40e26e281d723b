import os
from vbuild import sh, HARN
LEVEL = "exploration"
ASSUMPTIONS = ["For sizes above 8 the concrete points are the extremal, corner and listed ones of each interval box",
               "A warning is any output line mentioning a warning or overflow"]

def check(b, r, tier):
    b.tables()
    libs = b.main_lib()
    g = os.path.join(b.dir, "glue_ival.o")
    sh(["gcc", "-w", "-std=gnu99", "-O2", "-I", b.src, "-I", HARN, "-c", os.path.join(HARN, "glue_ival.c"), "-o", g])
    iv = b.closed("o", "interval", g, ["ivapi"])
    exe = b.harness("h_abs", "h_abs.c", [iv, *libs])
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("concrete_runs", 0) + s.get("library_runs", 0), "distinct_nontrivial": s.get("abstract_runs", 0),
            "rule": "one evaluation = one concrete run (exact 64-bit evaluation, and the library's own routine when nothing overflows) "
                    "checked against the intervals the abstract routine returned; distinct = abstract runs (each on different interval "
                    "arrays or tables); every overflowing concrete run also needs a printed warning", "exhaustive": True,
            "overflow_warnings": s.get("overflow_warnings", 0), "thresholds": s.get("thresholds", 0), "printed_lists": s.get("printed_lists", 0), "round_checks": s.get("round_checks", 0)}
