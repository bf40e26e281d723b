LEVEL = "model_checking"
ASSUMPTIONS = ["Visited-state pruning by 64-bit hash of the concrete array", "Starting arrays and the second operand of the pointwise product are fixed per size"]

def check(b, r, tier):
    b.tables()
    exe = b.harness("h_seq", "h_seq.c", b.main_lib())
    r.run(exe, tier=tier)
    s = r.stats
    return {"states": s.get("states", 0), "transitions": s.get("transitions", 0), "traces_validated_against_impl": s.get("traces", 0),
            "explanation": "explicit-state search: the model (exact residue vector) and the real routine take every transition together; "
                           "a trace is a maximal operation sequence executed on the implementation", "exhaustive": True}
