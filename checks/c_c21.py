import os
from vbuild import sh, HARN, REPO
LEVEL = "exploration"
ASSUMPTIONS = ["The crab, ikos and clam headers are replaced by a stand-in with the documented meaning of the operations used (they are not installed here); "
               "numbers have 128 bits instead of unlimited precision"]

def check(b, r, tier):
    exe = os.path.join(b.dir, "h_crab")
    sh(["g++", "-w", "-fpermissive", "-std=gnu++17", "-O2", "-I", os.path.join(HARN, "crabstub"), "-I", HARN, "-I", os.path.join(REPO, "verifier", "src"),
        os.path.join(HARN, "h_crab.cpp"), "-o", exe])
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("intervals", 0) + s.get("domain_operations", 0), "distinct_nontrivial": s.get("intervals", 0) + s.get("domain_operations", 0),
            "rule": "one evaluation = the reduction intrinsic on one input interval, output interval compared with the exact span (brute force over all "
                    "values of the interval), or one other operation of the domain on one small state (pair) compared with the interval domain; all distinct",
            "exhaustive": True}
