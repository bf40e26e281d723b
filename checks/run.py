#!/usr/bin/env python3
"""run.py <property> [quick|thorough] : run one check, write its evidence, report."""
import hashlib, importlib, json, os, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import Build, BuildError, VERIF

_OUT = VERIF if "VF_REPO" not in os.environ else os.path.join("/tmp", "vf_scratch_results")   # scratch copies do not touch the evidence
EVID = os.path.join(_OUT, "evidence")
REPL = os.path.join(_OUT, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Result:
    def __init__(self):
        self.stats, self.samples, self.viols = {}, [], []

    def merge_output(self, out, label=""):
        done = False
        for line in out.splitlines():
            if line.startswith("STAT "):
                _, k, v = line.split()
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif line.startswith("SAMPLE "):
                self.samples.append(line[7:])
            elif line.startswith("VIOL "):
                self.viols.append(line[5:])
            elif line == "DONE":
                done = True
        return done

    def add(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def run(self, exe, args=(), tier="quick", timeout=None, env=None, cwd=None, what=None):
        """run a harness; a harness that dies or hangs outside its own capture is a violation of the code under test
        only when it says so itself, otherwise an error of the check"""
        e = dict(os.environ, VF_TIER=tier, VF_NCPU=str(vbuild.NCPU))
        if env:
            e.update(env)
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                           timeout=timeout or (840 if tier == "quick" else 7200))
        out = p.stdout.decode("utf8", "replace")
        done = self.merge_output(out)
        if p.returncode not in (0, 1) or not done:
            if p.returncode < 0 and what:
                self.viols.append("op=%s: process ended by signal %d" % (what, -p.returncode))
                return
            raise BuildError("harness %s: rc=%s\n%s\n%s" % (exe, p.returncode, out[-1500:], p.stderr.decode("utf8", "replace")[-3000:]))


def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("c_" + pid.lower())
    t0 = time.time()
    r = Result()
    b = Build()
    rc = 2
    try:
        try:
            cov = mod.check(b, r, tier)
        finally:
            b.close()
        known = load_known(pid)
        new, seenk = [], set()
        for v in r.viols:
            for m, text in known:
                if m in v:
                    seenk.add((m, text))
                    break
            else:
                new.append(v)
        for m, text in sorted(seenk):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(new)}
        ev["coverage"].setdefault("samples", r.samples[:12] or ["(none)"])
        ev["coverage"]["counters"] = r.stats
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        if new:
            os.makedirs(REPL, exist_ok=True)
            h = hashlib.sha256("\n".join(new).encode()).hexdigest()[:12]
            path = os.path.join(REPL, "%s-%s.json" % (pid, h))
            json.dump({"property": pid, "tier": tier, "violations": new,
                       "rerun": "cd /verif && python3 checks/run.py %s %s" % (pid, tier)}, open(path, "w"), indent=1)
            for v in new[:6]:
                print("  " + v[:500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        else:
            print("ok property=%s tier=%s wall=%.1fs %s" % (pid, tier, time.time() - t0,
                  json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
            rc = 0
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
