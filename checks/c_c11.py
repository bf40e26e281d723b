import gens
LEVEL = "exploration"
ASSUMPTIONS = ["The sweep calls the generators' main in process with exit, fopen and fprintf intercepted; everything it does not see rejected is "
               "decided by running the real program"]

def check(b, r, tier):
    d, s = gens.build(b)
    exe = b.harness("h_gen11", "h_gen.c", gens.inproc(b), cflags=["-DC11"])
    r.run(exe, ["", "c11", d, s], tier=tier)
    st = r.stats
    return {"evaluations": st.get("argument_lists", 0), "distinct_nontrivial": st.get("argument_lists", 0),
            "rule": "one evaluation = one invalid argument list given to a generator, which must fail and create nothing; sizes -200..140000, "
                    "roots -70..26000 for 34 sizes, boundary and overflowing numbers, missing and extra arguments; all distinct",
            "exhaustive": True, "real_process_runs": st.get("real_runs", 0)}
