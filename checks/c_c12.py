import gens
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Faults are injected at the C library's open/write/close boundary of a statically linked generator, by RLIMIT_FSIZE and by /dev/full"]

def check(b, r, tier):
    d, s = gens.build(b)
    exe = b.harness("h_gen", "h_gen.c", [])
    r.run(exe, ["", "c12", d, s], tier=tier)
    st = r.stats
    return {"evaluations": st.get("generator_runs", 0), "distinct_nontrivial": st.get("faults", 0),
            "rule": "one evaluation = one generator process; a case is non-trivial when a fault is injected: every open, write and close "
                    "failing (persistently or once, 5 errors), every write cut short, every output size limit (every byte for files up to "
                    "6000 bytes, block boundaries and a stride for larger ones), full device, blocked and stale files",
            "exhaustive": True, "operations_observed": st.get("operations_observed", 0)}
