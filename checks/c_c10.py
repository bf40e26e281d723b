import gens
LEVEL = "exploration"
ASSUMPTIONS = ["Values are read from the generated files by a C-initialiser parser; two roots per size are also compiled and linked"]

def check(b, r, tier):
    d, s = gens.build(b)
    exe = b.harness("h_gen", "h_gen.c", [])
    r.run(exe, ["", "c10", d, s], tier=tier)
    st = r.stats
    return {"evaluations": st.get("entries", 0), "distinct_nontrivial": st.get("pairs", 0),
            "rule": "one evaluation = one table entry or parameter of a generated file compared with the documented formula; distinct = "
                    "(generator, n, psi) runs: all valid roots of all 11 sizes for both generators and all 15 bit-reversal sizes",
            "exhaustive": st.get("pairs", 0) == 2 * 4094 + 15, "compiled": st.get("compiled", 0)}
