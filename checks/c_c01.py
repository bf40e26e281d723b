LEVEL = "exploration"
ASSUMPTIONS = ["Routines are deterministic functions of their operands (C18)",
               "Beyond n=16 transform-domain pairs, operand space is covered by the listed complete families, not in full",
               "gcc -O3 build of the working tree on an AVX2 machine"]

def check(b, r, tier):
    b.tables()
    libs = b.main_lib()
    exe = b.harness("h_prod", "h_prod.c", libs)
    r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("product_calls", 0), "distinct_nontrivial": s.get("operand_pairs", 0),
            "rule": "one evaluation = one product routine on one operand pair, compared coefficient by coefficient with the exact "
                    "negacyclic product; families enumerated completely: scaled monomial pairs, every coefficient value, Walsh and "
                    "boundary patterns, all residue pairs at the pointwise product (n=16; all sizes in thorough), extremal operands "
                    "of every network node; distinct = operand pairs (all non-zero in at least one operand except the zero constants)",
            "exhaustive": True, "routines": s.get("routines", 0), "extremal_operands": s.get("extremal_operands", 0)}
