LEVEL = "exploration"
ASSUMPTIONS = ["Transform inputs beyond the listed complete families are not enumerated", "AVX2 machine"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_avx", "h_avx.c", b.main_lib())
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("elements", 0), "distinct_nontrivial": s.get("calls", 0),
            "rule": "one evaluation = one destination element of an AVX2 routine compared bit for bit with the C routine on the same "
                    "arguments; all 2^32 inputs of the reductions, whole domains of correct and shift at every lane, all operand pairs of "
                    "both documented product ranges plus boundary factors, every multiple of 16 up to 4800 with all alignments, "
                    "transform families; distinct = distinct (routine, length, alignment, contents) calls of the latter kinds",
            "exhaustive": True, "routines": s.get("routines", 0)}
