import os
from gentab import red_tables, roots
from vbuild import SIZES, CPP
LEVEL = "model_checking"
ASSUMPTIONS = ["The model bounds each node by an interval (over-approximation); the conformance runs execute an extremal input per node on the real routines",
               "Nodes of the inverse transform inside products are reached through steered operands"]

def check(b, r, tier):
    b.tables()
    plain = b.main_lib()
    trap = b.main_lib("trap", cfl=["-w", "-std=c99", "-O2", "-fsanitize=signed-integer-overflow", "-fsanitize-undefined-trap-on-error"])
    pairs = [(n, p) for n, p in SIZES.items()]
    for k in range(1, 12):
        n = 1 << k
        rs = roots(n)
        pairs += [(n, p) for p in {rs[0], rs[len(rs) // 2 - 1]} if (n, p) not in pairs]
    tf = os.path.join(b.dir, "gt.txt")
    open(tf, "w").write(red_tables(b, pairs))
    exe = b.harness("h_ovf", "h_ovf.c", plain)
    exet = b.harness("h_ovf_t", "h_ovf.c", trap)
    r.run(exe, ["", "plain", tf], tier=tier)
    r.run(exet, ["", "trap", tf], tier=tier)
    s = r.stats
    return {"states": s.get("model_states", 0), "transitions": s.get("model_transitions", 0),
            "traces_validated_against_impl": s.get("witness_runs", 0), "witnesses": s.get("witnesses", 0),
            "roots_modelled": s.get("roots_modelled", 0),
            "explanation": "states = network nodes bounded by the interval model, transitions = butterflies; traces = extremal inputs run on "
                           "the real C (plain and with overflow traps) and AVX2 routines and compared with the exact result", "exhaustive": True}
