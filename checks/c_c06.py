LEVEL = "exploration"
ASSUMPTIONS = ["Results at an index depend only on the operands at that index (checked for every length up to 320 and boundary contents)"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_elem", "h_elem.c", b.main_lib())
    r.run(exe, ["", "default"], tier=tier)
    s = r.stats
    return {"evaluations": s.get("products", 0) + s.get("length_cases", 0), "distinct_nontrivial": s.get("operand_pairs", 0),
            "rule": "every operand pair in [0,12288]^2 for the three default and three naive routines (distinct = pairs), compared with the "
                    "exact residue; then every length 0..320 and larger ones with boundary contents, canaries and source comparison",
            "exhaustive": s.get("operand_pairs", 0) == 12289 * 12289, "length_cases": s.get("length_cases", 0)}
