import os, re
from vbuild import sh, REPO
LEVEL = "exploration"
ASSUMPTIONS = ["Tables are read back through a program compiled with their own headers"]
Q = 12289
PSI = {16: 1212, 128: 1022, 256: 1002, 512: 1003, 1024: 1014, 2048: 1016}


def rev(j, k):
    return int(format(j, "b").zfill(k)[::-1], 2) if k else 0


def power(n, s, y):
    r, x = [], s % Q
    for _ in range(n):
        r.append(x)
        x = x * y % Q
    return r


def tw(n, psi, mixed, reverse, scale=1):
    t, k, r = 1, 0, [0] * n
    while t < n:
        e = n // (2 * t)
        b, c = (pow(psi, e, Q) if mixed else 1) * scale % Q, pow(psi, 2 * e, Q)
        p = power(t, b, c)
        for j in range(t):
            r[t + j] = p[rev(j, k) if reverse else j]
        t, k = 2 * t, k + 1
    return r


def shift(v):
    return [x - Q if x > Q // 2 else x for x in v]


def pairs(n):
    k = n.bit_length() - 1
    return sorted((i, rev(i, k)) for i in range(n) if i < rev(i, k))


def dump(b, base):
    """name -> (dims, values) for every extern const array the header declares"""
    src = os.path.join(REPO, "src")
    h = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(src, base + ".h")).read(), flags=re.S)
    names = re.findall(r"extern\s+const\s+u?int16_t\s+(\w+)\s*\[", h)
    pars = re.findall(r"static\s+const\s+\w+\s+(\w+)\s*=", h)
    c = os.path.join(b.dir, "dump_%s.c" % base)
    with open(c, "w") as f:
        f.write('#include <stdio.h>\n#include "%s.h"\nint main(void) { unsigned i;\n' % base)
        for n in names:
            f.write('printf("%s %%u", (unsigned)(sizeof %s / 2)); for (i = 0; i < sizeof %s / 2; i++) printf(" %%d", VAL(%s, i)); printf("\\n");\n' % ((n,) * 4))
        for p in pars:
            f.write('printf("%s 1 %%d\\n", (int)%s);\n' % (p, p))
        f.write("return 0; }\n")
    exe = c[:-2]
    # flattened access keeping the signedness of the element type (pair tables are unsigned)
    signed = "int16_t" if re.search(r"extern\s+const\s+int16_t", h) else "uint16_t"
    val = "-DVAL(a,i)=((int)((const %s *)(a))[i])" % signed
    sh(["gcc", "-w", "-std=gnu99", "-fno-strict-aliasing", val, "-I", src, c, os.path.join(src, base + ".c"), "-o", exe])
    res = {}
    for l in sh([exe]).stdout.decode().splitlines():
        w = l.split()
        res[w[0]] = [int(x) for x in w[2:]]
        assert len(res[w[0]]) == int(w[1])
    return res


def check(b, r, tier):
    def cmp(what, got, want):
        r.add("tables")
        r.add("entries", len(want))
        if len(got) != len(want):
            r.viols.append("%s has %d entries, want %d" % (what, len(got), len(want)))
            return
        for i, (x, y) in enumerate(zip(got, want)):
            if x != y:
                r.viols.append("%s[%d] = %d, want %d" % (what, i, x, y))
                return

    # default test tables
    seen = 0
    for nm, v in dump(b, "test_ntt_tables").items():
        m = re.match(r"(psi_powers|(rev_)?shoup(_scaled)?)_ntt(\d+)_12289$", nm)
        if not m:
            continue
        n = int(m.group(4))
        cmp("test_ntt_tables.c:" + nm, v, power(n, 1, PSI[n]) if m.group(1) == "psi_powers" else tw(n, PSI[n], bool(m.group(3)), bool(m.group(2))))
        seen += 1
    if seen < 20:
        r.viols.append("test_ntt_tables: only %d of the 20 documented tables are declared" % seen)
    seen = 0
    for nm, v in dump(b, "test_ntt_red_tables").items():
        m = re.match(r"(rev_)?shoup_(s?red)(_scaled)?_ntt(\d+)_12289$", nm)
        if not m:
            continue
        n = int(m.group(4))
        w = tw(n, PSI[n], bool(m.group(3)), bool(m.group(1)), 8193)
        cmp("test_ntt_red_tables.c:" + nm, v, shift(w) if m.group(2) == "sred" else w)
        seen += 1
    if seen < 48:
        r.viols.append("test_ntt_red_tables: only %d of the 48 documented tables are declared" % seen)
    # size 32
    t = dump(b, "ntt32_tables")
    psi = 563
    ip = pow(psi, Q - 2, Q)
    inn = pow(32, Q - 2, Q)
    want = {"ntt32_psi": [psi], "ntt32_omega": [psi * psi % Q], "ntt32_inv_psi": [ip], "ntt32_inv_omega": [ip * ip % Q], "ntt32_inv_n": [inn],
            "ntt32_psi_powers": power(32, 1, psi), "ntt32_inv_psi_powers": power(32, 1, ip), "ntt32_scaled_inv_psi_powers": power(32, inn, ip)}
    for inv, y in (("", psi), ("inv_", ip)):
        for mx in (False, True):
            for rv in (False, True):
                want["ntt32_%s%s_powers%s" % (inv, "mixed" if mx else "omega", "_rev" if rv else "")] = tw(32, y, mx, rv)
    for nm, w in want.items():
        cmp("ntt32_tables:" + nm, t.get(nm, []), w)
    def br(what, n, v):
        got = sorted(tuple(v[i:i + 2]) for i in range(0, len(v), 2))
        w = pairs(n)
        r.add("tables")
        r.add("entries", 2 * len(w))
        if [tuple(sorted(x)) for x in got] != w:
            bad = sorted(set(got) ^ set(w))[:2]
            r.viols.append("%s does not list the bit-reversal pairs of %d: %s" % (what, n, bad))
    br("ntt32_tables:ntt32_bitrev", 32, t.get("ntt32_bitrev", []))
    for n in (16, 256, 512, 1024):
        br("bitrev%d_table.c" % n, n, dump(b, "bitrev%d_table" % n).get("bitrev%d" % n, []))
    tb = dump(b, "test_bitrev_tables")
    for n in (128, 256, 512, 1024, 2048):
        br("test_bitrev_tables.c:bitrev%d_pair" % n, n, tb.get("bitrev%d_pair" % n, []))
    # primitive roots
    for n in (1024, 2048, 4096):
        got = [int(l) for l in open(os.path.join(REPO, "data", "primitive-roots-%d.txt" % n)) if l.strip() and not l.startswith("#")]
        want = [x for x in range(1, Q) if pow(x, n, Q) == 1 and pow(x, n // 2, Q) == Q - 1]
        r.add("tables")
        r.add("entries", len(want))
        if len(got) != len(set(got)):
            r.viols.append("data/primitive-roots-%d.txt lists a number twice" % n)
        for x in sorted(set(got) ^ set(want))[:3]:
            r.viols.append("data/primitive-roots-%d.txt: %d is %s" % (n, x, "missing" if x in want else "not a primitive root"))
        r.samples.append("primitive-roots-%d.txt: %d numbers, first %s" % (n, len(got), got[:3]))
    # known-answer vectors
    o = os.path.join(b.dir, "kat.o")
    sh(["gcc", "-w", "-std=gnu99", "-c", "data_poly1024.c", "-o", o], cwd=b.src)
    r.run(b.harness("h_data", "h_data.c", [o]), tier=tier)
    s = r.stats
    return {"evaluations": s.get("entries", 0), "distinct_nontrivial": s.get("tables", 0) + s.get("kat_vectors", 0),
            "rule": "one evaluation = one entry of a committed table, root list or known-answer vector compared with its definition; distinct = "
                    "tables, lists and vectors", "exhaustive": True}
