"""Static builds of the generators for the C10-C12 harness."""
import os, tempfile
from vbuild import sh
G = ["make_tables", "make_red_tables", "make_bitrev_table"]
WRAP = ["open", "open64", "__open", "__open64", "__open_nocancel", "__open64_nocancel", "openat", "openat64", "creat",
        "write", "__write", "__write_nocancel", "close", "__close", "__close_nocancel",
        "writev", "pwrite", "pwrite64", "rename", "renameat", "renameat2", "link", "linkat"]

def build(b, src=None, fl=("-g",), static=True):
    src = src or b.src
    d = tempfile.mkdtemp(dir=b.dir)
    from vbuild import HARN
    def one(g):
        sh(["gcc", "-w", *fl, *(["-static"] if static else []), "-o", os.path.join(d, g), g + ".c"], cwd=src)
        if not static:
            return
        sh(["gcc", "-w", *fl, "-static", "-o", os.path.join(d, g + "_f"), g + ".c", os.path.join(HARN, "fshim.c"),
            *["-Wl,--wrap=" + w for w in WRAP]], cwd=src)
    list(b.pool.map(one, G))
    s = tempfile.mkdtemp(dir=b.dir)
    return d, s

def inproc(b, src=None, fl=()):
    """objects gen0..gen2: the generators with main renamed and exit/fopen/fprintf intercepted"""
    src = src or b.src
    res = []
    for i, g in enumerate(G):
        o = os.path.join(b.dir, f"gen{i}.o")
        sh(["gcc", "-w", "-O1", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fno-stack-protector", *fl, "-c", g + ".c", "-o", o], cwd=src)
        sh(["objcopy", f"--redefine-sym=main=gen{i}", "--redefine-sym=exit=vf_exit", "--redefine-sym=fopen=vf_fopen", "--redefine-sym=_exit=vf__exit",
            "--redefine-sym=abort=vf_abort", "--redefine-sym=fprintf=vf_fprintf", o])
        sh(["objcopy", f"--keep-global-symbol=gen{i}", o])
        res.append(o)
    return res
