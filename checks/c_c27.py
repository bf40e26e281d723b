from c_c26 import harness
import os
from vbuild import sh, CPP, CFL
LEVEL = "exploration"
ASSUMPTIONS = ["The cycle counter is read with RDTSC or RDTSCP, and nothing but the products takes time", "The median of an even number of samples is the upper of the two middle ones, the average is truncated"]
PROGS = {"speed_mul1024": "ntt1024_product%d", "speed_mul1024_naive": "naive_ntt1024_product%d", "speed_mul1024_red": "ntt_red1024_product%d",
         "speed_mul1024_red_asm": "ntt_red1024_product%d_asm"}


def check(b, r, tier):
    b.tables()
    so = os.path.join(b.dir, "sort_speed.o")
    sh(["gcc", *CPP, *CFL, "-c", "sort.c", "-o", so], cwd=b.src)
    for p, f in PROGS.items():
        exe = harness(b, "h_speed.c", p, f, [so])
        if exe is None:
            r.add("programs_skipped")
            continue
        r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("histories", 0), "distinct_nontrivial": s.get("histories", 0),
            "rule": "one evaluation = one complete run of a speed program on one history of call durations and clock start; each printed median and average "
                    "compared with that of the durations", "exhaustive": True, "timed_calls": s.get("timed_calls", 0),
            "clock_reads": s.get("clock_reads", 0), "programs_skipped": s.get("programs_skipped", 0)}
