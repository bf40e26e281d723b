import os, re
from vbuild import sh, BuildError, CPP, CFL
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Products are replaced by stand-ins that return the recorded answer with at most one wrong coefficient",
               "Quick: one error value per position, every coefficient of three vectors and about 30 of each other; thorough: every coefficient of every vector, four error values"]
PROGS = {"kat_mul1024": "ntt1024_product%d", "kat_mul1024_red": "ntt_red1024_product%d", "kat_mul1024_red_asm": "ntt_red1024_product%d_asm"}


def program(b, prog, fmt):
    """the program's object with main renamed, or None when its products are not calls that can be stood in for"""
    o = os.path.join(b.dir, prog + ".o")
    sh(["gcc", *CPP, *CFL, "-c", prog + ".c", "-o", o], cwd=b.src)
    und = {l.split()[-1] for l in sh(["nm", "-u", o]).stdout.decode().splitlines()}
    if all(fmt % v not in und for v in range(1, 6)):
        return None
    sh(["objcopy", "--redefine-sym", "main=vf_prog_main", o])
    return o


def harness(b, src, prog, fmt, extra):
    o = program(b, prog, fmt)
    if o is None:
        return None
    return b.harness("%s_%s" % (src[:-2], prog), src, [o, *extra], ldflags=["-Wl,-z,muldefs"],
                     cflags=['-DPNAME="%s"' % prog, "-DPROD(v)=" + fmt.replace("%d", "##v##").rstrip("#")])


def check(b, r, tier):
    b.tables()
    d = os.path.join(b.dir, "kat_data.o")
    sh(["gcc", *CPP, *CFL, "-c", "data_poly1024.c", "-o", d], cwd=b.src)
    for p, f in PROGS.items():
        exe = harness(b, "h_kat.c", p, f, [d])
        if exe is None:
            r.add("programs_skipped")
            continue
        r.run(exe, tier=tier)
    s = r.stats
    return {"evaluations": s.get("faulty_runs", 0) + s.get("clean_runs", 0), "distinct_nontrivial": s.get("faulty_runs", 0),
            "rule": "one evaluation = one run of a known-answer program in its own process, with products that are right except in one coefficient of one "
                    "vector; the exit status must be nonzero exactly when there is a fault", "exhaustive": tier == "thorough",
            "programs_skipped": s.get("programs_skipped", 0)}
