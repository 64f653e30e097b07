"""Shared by all checks: obtaining the program, collecting obligations, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.mir import Program      # noqa: E402

CONFIGS = {"f32": [], "f64": ["--cfg", 'feature="float_as_f64"']}
_progs = {}


def build():
    ok = os.path.exists(HERE + "/build/driver/debug/mirdump") and os.path.isdir(HERE + "/build/deps/debug/build")
    if not ok:
        subprocess.check_call(["bash", HERE + "/setup.sh"], stdout=sys.stderr)


def program(cfg):
    """MIR facts of /repo's current tree under one configuration"""
    if cfg not in _progs:
        build()
        d = tempfile.mkdtemp(prefix="mirfacts-")
        try:
            p = subprocess.run(["bash", HERE + "/dump.sh", d + "/d.json"] + CONFIGS[cfg], capture_output=True, text=True)
            if p.returncode != 0 or not os.path.exists(d + "/d.json"):
                sys.stderr.write(p.stdout[-3000:] + p.stderr[-3000:])
                raise SystemExit("the crate does not compile under the analysis driver (configuration %s)" % cfg)
            _progs[cfg] = Program(d + "/d.json")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _progs[cfg]


class Report:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.t0 = time.time()
        self.obl = []           # (key, status, detail)
        self.keys = {}
        self.fns = set()
        self.counts = {}
        self.assumptions = []
        self.samples = []

    def ok(self, key, detail=""):
        self.obl.append((key, "ok", detail))

    def viol(self, key, detail):
        self.obl.append((key, "viol", detail))

    def und(self, key, why):
        self.obl.append((key, "und", why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self, tier):
        known = []
        kf = HERE + "/known_findings.txt"
        if os.path.exists(kf):
            for l in open(kf):
                if l.startswith("known: property=%s " % self.prop):
                    known.append(l.split(" ", 2)[2].strip())
        vi = [(k, d) for k, s, d in self.obl if s == "viol"]
        kn = [(k, d) for k, d in vi if k in known]
        vi = [(k, d) for k, d in vi if k not in known]
        un = [(k, d) for k, s, d in self.obl if s == "und"]
        okc = sum(1 for _, s, _ in self.obl if s == "ok")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        cov = {
            "explanation": "static analysis of the MIR of /repo's working tree; nothing of it is executed. Rule: " + self.rule,
            "obligations": len(self.obl), "discharged": okc, "undecided": len(un), "refuted": len(vi) + len(kn),
            "functions_analysed": len(self.fns),
            "configurations": sorted(_progs),
            "samples": self.samples or [k for k, _, _ in self.obl[:8]],
        }
        cov.update(self.counts)
        if un:
            cov["undecided_list"] = ["%s: %s" % x for x in un[:20]]
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(vi)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for k, d in un[:20]:
            print("UNDECIDED property=%s %s: %s" % (self.prop, k, d))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %s" % (
            self.prop, len(self.obl), okc, len(un), len(vi), len(self.fns), self.counts))
        if vi:
            rp = HERE + "/evidence/%s.violation.txt" % self.prop
            with open(rp, "w") as f:
                for k, d in vi:
                    f.write("%s\n  %s\n" % (k, d))
            for k, d in vi[:10]:
                print("  %s\n    %s" % (k, d))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
