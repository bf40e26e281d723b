LEVEL = "exploration"
ASSUMPTIONS = ["Inputs beyond n=2 are covered by complete structured families, not in full", "gcc -O3 build on an AVX2 machine"]

def check(b, r, tier):
    b.tables()
    libs = b.main_lib()
    exe = b.harness("h_xform", "h_xform.c", libs)
    r.run(exe, ["", "red"], tier=tier)
    s = r.stats
    return {"evaluations": s.get("transform_calls", 0), "distinct_nontrivial": s.get("inputs", 0),
            "rule": "one evaluation = one transform routine on one input compared with the documented NTT computed by definition; "
                    "distinct = distinct (kind, n, psi, input); families: all inputs of size 2, all 4094 (n, psi) pairs, scaled basis "
                    "vectors, Walsh and boundary patterns, every (value, twiddle) pair at the multiplications of every level"
                    ", extremal inputs of every network node",
            "exhaustive": True, "routines": s.get("routines", 0), "roots_covered": s.get("n_psi_kind", 0)}
