LEVEL = "exploration"
ASSUMPTIONS = ["Multiply-reduce outside the two documented operand ranges is covered by boundary factors and all 32-bit multiplicands with small factors"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_elem", "h_elem.c", b.main_lib())
    r.run(exe, ["", "red"], tier=tier)
    s = r.stats
    return {"evaluations": s.get("unary_inputs", 0) + s.get("products", 0), "distinct_nontrivial": s.get("unary_inputs", 0),
            "rule": "one evaluation = one element processed and compared with its contract (range and congruence); unary operations on all "
                    "2^32 inputs or on their whole documented domain at every lane (distinct), multiply-reduce on all pairs of both "
                    "documented ranges, boundary factors of the full product range, every length",
            "exhaustive": True, "products": s.get("products", 0), "length_cases": s.get("length_cases", 0)}
