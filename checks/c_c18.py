import os
from vbuild import sh, HARN
from c_c25 import REDIR

LEVEL = "model_checking"
ASSUMPTIONS = ["One preemption per schedule; the interfering call runs to completion at the preemption point",
               "At n=1024 a subset of the instruction boundaries is preempted"]

def check(b, r, tier):
    b.tables()
    libs = b.main_lib()
    g = os.path.join(b.dir, "glue_mem.o")
    sh(["gcc", "-w", "-std=gnu99", "-O2", "-I", b.src, "-I", HARN, "-c", os.path.join(HARN, "glue_mem.c"), "-o", g])
    iv = b.closed("o", "interval", g, ["ivapi", "ivops"])
    sh(["objcopy", *["--redefine-sym=%s=vf_%s" % (s, s) for s in REDIR], iv])
    rb = os.path.join(b.dir, "rb18.o")   # the bound functions, as the interval library uses them
    sh(["cp", b.objs["o"]["red_bounds.c"], rb])
    libs = [iv, rb, *libs]
    for f in libs:   # gather the library's writable static memory in one section
        sh(["objcopy", *["--rename-section=%s=vfdata" % x for x in (".data", ".data.rel", ".data.rel.local")], "--rename-section", ".bss=vfdata,alloc,load,data,contents", f])
    exe = b.harness("h_reent", "h_reent.c", libs, cflags=["-fno-stack-protector"], ldflags=["-Wl,-z,now"])
    r.run(exe, tier=tier)
    s = r.stats
    return {"states": s.get("steps", 0), "transitions": s.get("schedules", 0) + s.get("calls", 0),
            "traces_validated_against_impl": s.get("schedules", 0) + s.get("histories", 0), "histories": s.get("histories", 0),
            "explanation": "states = instruction boundaries visited by single-stepping the real routines; transitions = interfering calls "
                           "run there plus calls of the histories; every trace is an execution of the implementation compared with an "
                           "undisturbed run in a fresh process", "exhaustive": True}
