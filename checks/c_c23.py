LEVEL = "exploration"
ASSUMPTIONS = ["CPUID leaf 7 exists on the enumerated machines", "Bits outside the four deciding ones are set and cleared one at a time and all together, not in every combination"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_detect", "h_detect.c", b.main_lib(), cflags=["-mno-avx", "-fno-pie"], ldflags=["-no-pie"])
    r.run(exe, ["", "answer"], tier=tier)
    s = r.stats
    return {"evaluations": s.get("detections", 0), "distinct_nontrivial": s.get("detections", 0),
            "rule": "one evaluation = one single-stepped run of the detection routine on one emulated machine (CPUID leaf 1, leaf 7, XCR0) with "
                    "one pattern of registers on entry; answer compared with (OSXSAVE and AVX and AVX2 and XCR0[2:1]=11), xgetbv only where it cannot fault",
            "exhaustive": True, "supported_machines": s.get("supported_machines", 0), "emulated_instructions": s.get("emulated_instructions", 0)}
