LEVEL = "exploration"
ASSUMPTIONS = ["System V x86-64 calling convention", "Vector registers are caller-saved"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_abi", "h_abi.c", b.main_lib(), cflags=["-mavx2", "-fno-pie"], ldflags=["-no-pie"])
    r.run(exe, tier=tier)
    # the detection routine on every emulated machine (its other return paths are not taken on this CPU)
    r.run(b.harness("h_detect", "h_detect.c", b.main_lib(), cflags=["-mno-avx", "-fno-pie"], ldflags=["-no-pie"]), ["", "abi"], tier=tier)
    s = r.stats
    return {"evaluations": s.get("calls", 0) + s.get("detections", 0), "distinct_nontrivial": s.get("calls", 0),
            "rule": "one evaluation = one call with a full register file, control words, vector registers, stale stack and undefined "
                    "argument bits from the pattern set; register file, stack, flags and result compared afterwards; calls differ in "
                    "routine, length or pattern", "exhaustive": True, "routines": s.get("routines", 0)}
