import os
from gentab import bitrev_tables
LEVEL = "exploration"
ASSUMPTIONS = ["The permutation applied does not depend on array contents beyond the enumerated ones"]

def check(b, r, tier):
    b.tables()
    libs = b.main_lib()
    exe = b.harness("h_bitrev", "h_bitrev.c", libs)
    tf = os.path.join(b.dir, "brt.txt")
    open(tf, "w").write(bitrev_tables(b, viols=r.viols))
    r.run(exe, ["", tf], tier=tier)
    s = r.stats
    return {"evaluations": s.get("shuffles", 0), "distinct_nontrivial": s.get("inputs", 0),
            "rule": "one evaluation = one shuffle call compared with the bit-reversal permutation of every index; inputs: every power-of-two "
                    "length up to 2^20 (both copies of the generic shuffle), every committed pair table and every generatable size 2..32768, "
                    "index-identifying arrays, all arrays over 5 values for n<=8, unit vectors",
            "exhaustive": True, "table_runs": s.get("tables", 0)}
