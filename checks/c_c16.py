LEVEL = "exploration"
ASSUMPTIONS = ["Array contents are one mixed and up to ten constant valid patterns per length", "Reads inside the gap left by a misaligned placement are detected through the result"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_guard", "h_guard.c", b.main_lib())
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("calls", 0), "distinct_nontrivial": s.get("configurations", 0),
            "rule": "one evaluation = one call with every array flush against (or at a given offset from) an inaccessible page, constant "
                    "arguments in read-only pages, two different fillings around; distinct = (routine, length) pairs, each run with both "
                    "placements and all offsets", "exhaustive": True, "routines": s.get("routines", 0)}
