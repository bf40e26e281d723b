import os
import gens
from gentab import bitrev_tables
from vbuild import sh, HARN
LEVEL = "exploration"
ASSUMPTIONS = ["The builds listed stand for all conforming compilers; a trap of the instrumented build stands for undefined behaviour or a read of uninitialised memory",
               "Of every family of the other checks one part in sixteen (one in four for elementwise operations) is run per build in quick, all in thorough",
               "Assembly routines are not instrumented; left shifts of negative values, which both compilers define, are accepted"]
TRAP = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=shift-base", "-fsanitize-undefined-trap-on-error"]
BUILDS = [("ub", "gcc", ["-O1", *TRAP]),
          ("pat", "clang", ["-O3", "-ftrivial-auto-var-init=pattern"]),
          ("zero", "gcc", ["-O0", "-ftrivial-auto-var-init=zero"]),
          ("mem", "clang", ["-O0", "-fsanitize=memory"])]


ASAN = "-fsanitize=address"


def checker_runs(b, cc, flag):
    """these checkers need a suitable address space layout: try them on a program without fault"""
    c = os.path.join(b.dir, "probe.c")
    open(c, "w").write("int main(int c, char **v) { return c > 1; }\n")
    try:
        sh([cc, flag, c, "-o", c + ".x"])
        return sh([c + ".x"], check=False).returncode == 0
    except Exception:
        return False


def check(b, r, tier):
    b.tables()
    tf = os.path.join(b.dir, "brt.txt")
    open(tf, "w").write(bitrev_tables(b))
    for tag, cc, fl in BUILDS:
        if tag == "mem" and not checker_runs(b, "clang", "-fsanitize=memory"):
            continue
        if tag == "ub" and checker_runs(b, "gcc", ASAN):
            fl = [*fl, ASAN]
        n0 = len(r.viols)
        libs = b.main_lib(tag, cc=cc, cfl=["-w", "-std=c99", *fl])
        g = os.path.join(b.dir, "glue_ival_%s.o" % tag)
        sh(["gcc", "-w", "-std=gnu99", "-O2", "-I", b.src, "-I", HARN, "-c", os.path.join(HARN, "glue_ival.c"), "-o", g])
        iv = b.closed(tag, "interval", g, ["ivapi"])
        o = {f: b.objs[tag][f + ".c"] for f in ("red_bounds", "intervals", "sort")}
        so = os.path.join(b.dir, "sort2_%s.o" % tag)
        sh([cc, "-w", "-std=c99", "-DNDEBUG", "-D_DEFAULT_SOURCE", *fl, "-c", "sort.c", "-o", so], cwd=b.bench)
        sh(["objcopy", "--redefine-sym=sort=sort2", so])
        def h(name, src, l):
            if tag != "mem":
                return b.harness("%s_%s" % (name, tag), src, l, cflags=[ASAN] if ASAN in fl else [])
            return b.harness("%s_%s" % (name, tag), src, l, cc="clang", cflags=["-fsanitize=memory"], std="gnu89")
        jobs = [(h("h_prod", "h_prod.c", libs), [""], 16), (h("h_xform", "h_xform.c", libs), ["", "default"], 16), (h("h_xform", "h_xform.c", libs), ["", "red"], 16),
                (h("h_elem", "h_elem.c", libs), [""], 4), (h("h_elem", "h_elem.c", libs), ["", "red"], 64), (h("h_bitrev", "h_bitrev.c", libs), ["", tf], 1),
                (h("h_rb", "h_rb.c", [o["red_bounds"]]), ["", "sub"], 4), (h("h_ival", "h_ival.c", [o["intervals"], o["red_bounds"]]), ["", "sub"], 4),
                (h("h_abs", "h_abs.c", [iv, *libs]), [""], 8), (h("h_sort", "h_sort.c", [o["sort"], so]), [""], 16), (h("h_seq", "h_seq.c", libs), [""], 16)]
        if tag == "ub":
            jobs.append((h("h_guard", "h_guard.c", libs), [""], 4))
        env = {"VF_NOAS": "1", "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1"} if tag in ("ub", "mem") else {}
        for exe, args, lite in jobs:
            r.run(exe, args, tier="quick", env=dict({"VF_LITE": str(1 if tier == "thorough" else lite * (4 if tag == "mem" else 1))}, **env))
        if tag == "ub":
            d, s = gens.build(b, fl=fl, static=ASAN not in fl)
            r.run(b.harness("h_gen_ub", "h_gen.c", []), ["", "c10", d, s], tier="quick", env=dict(env, VF_LITE="1" if tier == "thorough" else "4"))
            d, s = gens.build(b, fl=BUILDS[0][2])
            r.run(b.harness("h_gen11_ub", "h_gen.c", gens.inproc(b, fl=BUILDS[0][2]), cflags=["-DC11"]), ["", "c11", d, s], tier="quick")
        r.viols[n0:] = ["build %s %s: %s" % (cc, " ".join(fl), v) for v in r.viols[n0:]]
    s = r.stats
    n = sum(v for k, v in s.items() if k in ("product_calls", "transform_calls", "products", "unary_inputs", "shuffles", "intervals", "abstract_runs", "arrays",
                                             "permutations", "structured", "transitions", "entries", "argument_lists"))
    return {"evaluations": n, "distinct_nontrivial": s.get("operand_pairs", 0) + s.get("inputs", 0) + s.get("intervals", 0) + s.get("states", 0),
            "rule": "one evaluation = one call (or element) executed in one of four builds (undefined behaviour traps; clang -O3 with automatic variables "
                    "preset to a pattern; gcc -O0 with zeroed ones; clang with a check that no branch depends on uninitialised memory) and compared with the exact result of its property", "exhaustive": True}
