"""Builds /repo's current sources, and the harnesses against them, in a scratch directory."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
SIZES = {16: 1212, 256: 1002, 512: 1003, 1024: 1014}   # as in src/Makefile
CPP = ["-DNDEBUG", "-D_DEFAULT_SOURCE"]
CFL = ["-w", "-std=c99", "-O3"]                         # the repository's own flags (warnings off)
NCPU = os.cpu_count() or 8


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300, check=True, env=None, **kw):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, **kw)
    if check and p.returncode != 0:
        raise BuildError("%s\n%s\n%s" % (" ".join(map(str, cmd)), p.stdout.decode("utf8", "replace")[-2000:],
                                         p.stderr.decode("utf8", "replace")[-4000:]))
    return p


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_")
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src,
                        ignore=shutil.ignore_patterns("*.o", "*_tables.h.tmp"))
        self.bench = os.path.join(self.dir, "bench")
        shutil.copytree(os.path.join(REPO, "verifier", "vstte20-benchmarks"), self.bench,
                        ignore=shutil.ignore_patterns("*.o"))
        # never pick up stale products somebody built in place
        for n in SIZES:
            for f in (f"ntt{n}_tables", f"ntt_red{n}_tables"):
                for e in "ch":
                    p = os.path.join(self.src, f"{f}.{e}")
                    if os.path.exists(p):
                        os.remove(p)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.objs = {}

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- generators, exactly as the Makefile builds them
    def generators(self, where=None, out=None, cc="gcc", extra=()):
        where = where or self.src
        out = out or where
        def one(g):
            sh([cc, "-w", "-g", *extra, "-o", os.path.join(out, g), g + ".c"], cwd=where)
        list(self.pool.map(one, ["make_tables", "make_red_tables", "make_bitrev_table"]))

    def tables(self, regen_bitrev=True):
        self.generators()
        for n, psi in SIZES.items():
            sh(["./make_tables", str(n), str(psi)], cwd=self.src, timeout=60)
            sh(["./make_red_tables", str(n), str(psi)], cwd=self.src, timeout=60)
            if regen_bitrev:
                sh(["./make_bitrev_table", str(n)], cwd=self.src, timeout=60)

    def is_lib(self, f):
        """sources that are part of a library (define no main)"""
        if f.startswith(("test_avx", "speed_", "kat_", "make_")):
            return False
        txt = open(os.path.join(self.src, f), errors="replace").read()
        return re.search(r"\bint\s+main\s*\(", txt) is None

    def compile_all(self, tag="o", cc="gcc", cpp=CPP, cfl=CFL, only=None):
        d = os.path.join(self.dir, "obj_" + tag)
        os.makedirs(d, exist_ok=True)
        jobs = []
        for f in sorted(os.listdir(self.src)):
            if f.endswith(".c") and self.is_lib(f):
                jobs.append(f)
            elif f.endswith(".S"):
                jobs.append(f)
        if only:
            jobs = [j for j in jobs if only(j)]
        def one(f):
            o = os.path.join(d, f.rsplit(".", 1)[0] + ".o")
            fl = ["-DNDEBUG", "-D_DEFAULT_SOURCE"] if f.endswith(".S") else [*cpp, *cfl]
            sh([cc, *fl, "-c", f, "-o", o], cwd=self.src)
            return f, o
        self.objs[tag] = dict(self.pool.map(one, jobs))
        return self.objs[tag]

    def group(self, f):
        b = f.rsplit(".", 1)[0]
        if b.startswith("naive_"):
            return "naive"
        if b in ("intervals", "red_bounds", "ntt_red_interval"):
            return "interval"
        if b in ("data_poly1024",):
            return "data"
        return "main"

    def archive(self, tag, group):
        a = os.path.join(self.dir, f"lib_{tag}_{group}.a")
        if os.path.exists(a):
            os.remove(a)
        os_ = [o for f, o in self.objs[tag].items() if self.group(f) == group]
        sh(["ar", "rcs", a, *os_])
        return a

    def closed(self, tag, group, glue_obj, keep, libs=()):
        """relocatable object of glue + the archive members it needs, with only `keep` global"""
        out = os.path.join(self.dir, f"closed_{tag}_{group}.o")
        sh(["ld", "-r", "-o", out, glue_obj, self.archive(tag, group), *(libs or [self.archive(tag, "main")])])
        sh(["objcopy", *[f"--keep-global-symbol={k}" for k in keep], out])
        return out

    def gen_glue(self, noasm=False):
        """write the glue sources naming every exported routine"""
        kinds = ["CT_R2S", "MULCT_R2S", "CT_S2R", "MULCT_S2R", "GS_R2S", "GSMUL_R2S", "GS_S2R", "GSMUL_S2R"]
        kd = "enum { CT_R2S, MULCT_R2S, CT_S2R, MULCT_S2R, GS_R2S, GSMUL_R2S, GS_S2R, GSMUL_S2R, CT_R2S_V1, NKIND };\n"
        wrapk = [("CT_R2S", 0, "{p}ntt{s}_ct_rev2std"), ("GS_R2S", 0, "{p}ntt{s}_gs_rev2std"),
                 ("CT_S2R", 0, "{p}ntt{s}_ct_std2rev"), ("GS_S2R", 0, "{p}ntt{s}_gs_std2rev"),
                 ("CT_R2S", 1, "{p}intt{s}_ct_rev2std"), ("GS_R2S", 1, "{p}intt{s}_gs_rev2std"),
                 ("CT_S2R", 1, "{p}intt{s}_ct_std2rev"), ("GS_S2R", 1, "{p}intt{s}_gs_std2rev"),
                 ("MULCT_R2S", 0, "{p}mulntt{s}_ct_rev2std"), ("MULCT_S2R", 0, "{p}mulntt{s}_ct_std2rev"),
                 ("GSMUL_R2S", 1, "{p}inttmul{s}_gs_rev2std"), ("GSMUL_S2R", 1, "{p}inttmul{s}_gs_std2rev")]
        gm = ["#include <stddef.h>\n"]
        for n in SIZES:
            gm += [f'#include "ntt{n}.h"\n#include "ntt_red{n}.h"\n#include "ntt_red_asm{n}.h"\n#include "bitrev{n}_table.h"\n']
        gm += ['#include "%s/tables.h"\n' % HARN, kd]
        gm.append("const prod_t main_prods[] = {\n")
        for n in SIZES:
            for v in range(1, 6):
                gm.append(f'{{"ntt{n}_product{v}",IMPL_NTT,{n},{v},ntt{n}_product{v}}},\n')
                gm.append(f'{{"ntt_red{n}_product{v}",IMPL_RED,{n},{v},ntt_red{n}_product{v}}},\n')
                gm.append(f'{{"ntt_red{n}_product{v}_asm",IMPL_ASM,{n},{v},ntt_red{n}_product{v}_asm}},\n')
        gm.append("};\nconst int n_main_prods = sizeof main_prods / sizeof main_prods[0];\nconst wrap_t main_wraps[] = {\n")
        for n in SIZES:
            for k, i, t in wrapk:
                for impl, s, suf in (("IMPL_NTT", str(n), ""), ("IMPL_RED", f"_red{n}", ""), ("IMPL_ASM", f"_red{n}", "_asm")):
                    nm = t.format(p="", s=s) + suf
                    gm.append(f'{{"{nm}",{impl},{n},{k},{i},{nm}}},\n')
        gm.append("};\nconst int n_main_wraps = sizeof main_wraps / sizeof main_wraps[0];\nconst xform_t main_xforms[] = {\n")
        base = {"CT_R2S": "ntt{r}_ct_rev2std", "MULCT_R2S": "mulntt{r}_ct_rev2std", "CT_S2R": "ntt{r}_ct_std2rev",
                "MULCT_S2R": "mulntt{r}_ct_std2rev", "GS_R2S": "ntt{r}_gs_rev2std", "GSMUL_R2S": "nttmul{r}_gs_rev2std",
                "GS_S2R": "ntt{r}_gs_std2rev", "GSMUL_S2R": "nttmul{r}_gs_std2rev"}
        gm.append('{"ntt_ct_rev2std_v1",IMPL_NTT,CT_R2S_V1,(void(*)(void))ntt_ct_rev2std_v1},\n')
        for k in kinds:
            for impl, r, suf in (("IMPL_NTT", "", ""), ("IMPL_RED", "_red", ""), ("IMPL_ASM", "_red", "_asm")):
                nm = base[k].format(r=r) + suf
                gm.append(f'{{"{nm}",{impl},{k},(void(*)(void)){nm}}},\n')
        gm.append("};\nconst int n_main_xforms = sizeof main_xforms / sizeof main_xforms[0];\nconst tab_t main_tabs[] = {\n")
        tnames = ["psi_powers", "inv_psi_powers", "scaled_inv_psi_powers", "omega_powers", "omega_powers_rev",
                  "inv_omega_powers", "inv_omega_powers_rev", "mixed_powers", "mixed_powers_rev",
                  "inv_mixed_powers", "inv_mixed_powers_rev"]
        for n in SIZES:
            for t in tnames:
                gm.append(f'{{"{t}",{n},0,ntt{n}_{t}}},\n{{"{t}",{n},1,ntt_red{n}_{t}}},\n')
            gm.append(f'{{"scaled_inv_psi_powers_var",{n},1,ntt_red{n}_scaled_inv_psi_powers_var}},\n')
        gm.append("};\nconst int n_main_tabs = sizeof main_tabs / sizeof main_tabs[0];\nconst brt_t main_brts[4] = {\n")
        for n in SIZES:
            gm.append(f"{{{n}, bitrev{n}, BITREV{n}_NPAIRS}},\n")
        gm.append("};\n")
        # the parameters are static const objects: fill at load time
        gm.append("int main_psi(int n) { switch (n) {\n")
        for n in SIZES:
            gm.append(f"case {n}: return ntt{n}_psi;\n")
        gm.append("} return 0; }\n")
        gm.append("int main_rescale(int n, int six) { switch (n) {\n")
        for n in SIZES:
            gm.append(f"case {n}: return six ? ntt_red{n}_rescale6 : ntt_red{n}_rescale8;\n")
        gm.append("} return 0; }\n")
        gm.append("int main_inv_n(int n) { switch (n) {\n")
        for n in SIZES:
            gm.append(f"case {n}: return ntt{n}_inv_n;\n")
        gm.append("} return 0; }\n")
        gm.append("int main_rpsi(int n) { switch (n) {\n")
        for n in SIZES:
            gm.append(f"case {n}: return ntt_red{n}_psi;\n")
        gm.append("} return 0; }\n")
        if noasm:
            gm = [l for l in gm if "IMPL_ASM" not in l]
        def macros(lines, after):
            """a wrapper that became a function-like macro is called through a function"""
            names = [re.match(r'\{"(\w+)",IMPL_\w+,\d+,\w+,[01],', l) for l in lines]
            return lines[:after] + [f"#ifdef {m[1]}\nstatic void vf_{m[1]}(int32_t *a) {{ {m[1]}(a); }}\n#undef {m[1]}\n#define {m[1]} vf_{m[1]}\n#endif\n"
                                    for m in names if m] + lines[after:]
        gm = macros(gm, next(i for i, l in enumerate(gm) if l.startswith("const prod_t")))
        open(os.path.join(self.dir, "glue_main.c"), "w").write("".join(gm))

        gn = []
        for n in SIZES:
            gn.append(f'#include "naive_ntt{n}.h"\n')
        gn += ['#include "%s/tables.h"\n' % HARN, kd]
        gn.append("const prod_t naive_prods[] = {\n")
        for n in SIZES:
            for v in range(1, 6):
                gn.append(f'{{"naive_ntt{n}_product{v}",IMPL_NAIVE,{n},{v},naive_ntt{n}_product{v}}},\n')
        gn.append("};\nconst int n_naive_prods = sizeof naive_prods / sizeof naive_prods[0];\nconst wrap_t naive_wraps[] = {\n")
        for n in SIZES:
            for k, i, t in wrapk:
                nm = t.format(p="naive_", s=str(n))
                gn.append(f'{{"{nm}",IMPL_NAIVE,{n},{k},{i},{nm}}},\n')
        gn.append("};\nconst int n_naive_wraps = sizeof naive_wraps / sizeof naive_wraps[0];\nconst xform_t naive_xforms[] = {\n")
        for k in kinds:
            nm = base[k].format(r="") + "_naive"
            gn.append(f'{{"{nm}",IMPL_NAIVE,{k},(void(*)(void)){nm}}},\n')
        gn.append("};\nconst int n_naive_xforms = sizeof naive_xforms / sizeof naive_xforms[0];\n"
                  "const naive_api_t naive_api = { bitrev_shuffle, shuffle_with_table, mul_array16_naive, mul_array_naive, scalar_mul_array_naive };\n")
        gn = macros(gn, next(i for i, l in enumerate(gn) if l.startswith("const prod_t")))
        open(os.path.join(self.dir, "glue_naive.c"), "w").write("".join(gn))

    NAIVE_KEEP = ["naive_prods", "n_naive_prods", "naive_wraps", "n_naive_wraps", "naive_xforms", "n_naive_xforms", "naive_api"]

    def main_lib(self, tag="o", **kw):
        """compile everything; returns the link inputs giving access to all routines through tables.h"""
        if tag not in self.objs:
            self.compile_all(tag, **kw)
        # assembly code is not instrumented: what it writes would look uninitialised
        self.gen_glue(noasm="-fsanitize=memory" in kw.get("cfl", ()))
        inc = ["-I", self.src, "-w", "-std=gnu99", "-O2"]
        g1 = os.path.join(self.dir, f"glue_main_{tag}.o")
        g2 = os.path.join(self.dir, f"glue_naive_{tag}.o")
        san = [x for x in kw.get("cfl", ()) if x.startswith(("-fsanitize", "-fno-sanitize")) and "memory" not in x]
        list(self.pool.map(lambda a: sh(["gcc", *inc, *san, "-c", a[0], "-o", a[1]]),
                           [(os.path.join(self.dir, "glue_main.c"), g1), (os.path.join(self.dir, "glue_naive.c"), g2)]))
        # the naive group shares the generated default tables with the main one: give it its own copy
        nv = self.closed(tag, "naive", g2, self.NAIVE_KEEP, libs=[self.archive(tag, "main")])
        return [g1, nv, self.archive(tag, "main")]

    def harness(self, name, src, libs, cflags=(), ldflags=(), cc="gcc", std="gnu11", opt="-O2"):
        exe = os.path.join(self.dir, name)
        def link(more):
            sh([cc, "-w", "-std=" + std, opt, "-I", HARN, "-I", self.src, *cflags,
                *[s if os.path.isabs(s) else os.path.join(HARN, s) for s in ([src] if isinstance(src, str) else src)],
                *libs, *more, "-o", exe, "-lm", "-z", "noexecstack", *ldflags])
        try:
            link([])
        except BuildError as e:
            if "undefined reference" not in str(e):
                raise
            # a helper may have moved to another file of the library
            if "o" not in self.objs:
                self.tables()
                self.compile_all("o")
            link([self.archive("o", "interval"), self.archive("o", "main")])
        return exe
