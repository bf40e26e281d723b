"""Run a table generator built from the working tree and read its output back as Python data."""
import os, re, tempfile
from vbuild import sh

KIND = {"omega_powers": (0, 6), "omega_powers_rev": (2, 4), "mixed_powers": (1, 7), "mixed_powers_rev": (3, 5)}


def roots(n):
    return [p for p in range(2, 12289) if pow(p, n, 12289) == 12288]


def parse_c(txt):
    """name -> list of ints for every array definition in a C file"""
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", " ", txt)
    res = {}
    for m in re.finditer(r"(\w+)\s*((?:\[[^\]]*\]\s*)+)=\s*\{(.*?)\}\s*;", txt, flags=re.S):
        res[m.group(1)] = [int(x, 0) for x in re.findall(r"-?\b(?:0[xX][0-9a-fA-F]+|\d+)\b", m.group(3))]
    return res


def parse_h(txt):
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    return {m.group(1): int(m.group(2)) for m in re.finditer(r"(\w+)\s*=\s*(-?\d+)\s*;", txt)}


def red_tables(b, pairs):
    """lines for h_ovf: n psi kind inverse values"""
    out = []
    d = tempfile.mkdtemp(dir=b.dir)
    def one(np):
        n, psi = np
        w = tempfile.mkdtemp(dir=d)
        sh([os.path.join(b.src, "make_red_tables"), str(n), str(psi)], cwd=w, timeout=60)
        t = parse_c(open(os.path.join(w, f"ntt_red{n}_tables.c")).read())
        ls = []
        for nm, ks in KIND.items():
            for inv in (0, 1):
                v = t[f"ntt_red{n}_{'inv_' if inv else ''}{nm}"]
                for k in ks:
                    ls.append(" ".join(map(str, [n, psi, k, inv, *v])))
        ls.append(" ".join(map(str, [n, psi, 8, 0, *t[f"ntt_red{n}_psi_powers"]])))
        return ls
    for ls in b.pool.map(one, pairs):
        out += ls
    return "\n".join(out) + "\n"


def bitrev_tables(b, committed=True, generated=True, where=None, srcdir=None, tag="lib", viols=None):
    """text for h_bitrev, obtained by compiling each table with its header: name n npairs pairs..."""
    from vbuild import REPO
    d = tempfile.mkdtemp(dir=b.dir)
    jobs = []
    if committed:
        cs = srcdir or os.path.join(REPO, "src")
        for f in sorted(os.listdir(cs)):
            m = re.match(r"bitrev(\d+)_table\.c$", f)
            if m:
                n = int(m.group(1))
                jobs.append((f"{tag}:{f}", n, f"bitrev{n}", f"BITREV{n}_NPAIRS", cs, f"bitrev{n}_table"))
        if os.path.exists(os.path.join(cs, "test_bitrev_tables.c")):
            h = open(os.path.join(cs, "test_bitrev_tables.h")).read()
            for m in re.finditer(r"\b(bitrev(\d+)_pair)\s*\[", h):
                jobs.append((f"{tag}:{m.group(1)}", int(m.group(2)), m.group(1), f"BITREV{m.group(2)}_NPAIRS", cs, "test_bitrev_tables"))
    if generated:
        gen = os.path.join(where or b.src, "make_bitrev_table")
        for k in range(1, 16):
            n = 1 << k
            w = tempfile.mkdtemp(dir=d)
            p = sh([gen, str(n)], cwd=w, timeout=60, check=viols is None)
            if p.returncode:
                viols.append(f"make_bitrev_table {n}: exit status {p.returncode}")
                continue
            jobs.append((f"generated:bitrev{n}", n, f"bitrev{n}", f"BITREV{n}_NPAIRS", w, f"bitrev{n}_table"))
    def one(ij):
        i, (nm, n, arr, np, cdir, base) = ij
        c = os.path.join(d, f"p{i}.c")
        open(c, "w").write(f'''#include <stdio.h>
#include "{base}.h"
int main(void) {{ unsigned i; printf("{nm} {n} %u\\n", (unsigned){np}); for (i = 0; i < (unsigned){np}; i++) printf("%u %u\\n", {arr}[i][0], {arr}[i][1]); return 0; }}
''')
        exe = os.path.join(d, f"p{i}")
        p = sh(["gcc", "-w", "-std=gnu99", "-I", cdir, c, os.path.join(cdir, base + ".c"), "-o", exe], check=viols is None)
        if p.returncode:
            viols.append(f"{nm}: does not compile")
            return ""
        return sh([exe]).stdout.decode()
    return "".join(b.pool.map(one, enumerate(jobs)))
