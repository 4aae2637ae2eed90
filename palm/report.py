"""Verdicts, evidence files and known findings shared by all checks."""
import json
import os
import sys
import time

from . import build


class Report:
    def __init__(self, prop, level, rule, floors=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.start = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.obligations = []      # (key, status, detail)
        self.analysed = {}
        self.assumptions = []
        self.trusted = []
        self.undecided = []
        self.floors = floors or {}
        self.samples = []
        self.thorough = False

    def ok(self, key, detail=""):
        self.obligations.append((key, "ok", detail))

    def violation(self, key, detail):
        self.obligations.append((key, "violation", detail))

    def undecide(self, key, detail):
        self.undecided.append((key, detail))

    def known(self):
        path = os.path.join(build.VERIF, "known_findings.json")
        d = json.load(open(path))
        return {f["key"]: f for f in d["findings"] if f["property"] == self.prop}

    def finish(self):
        known = self.known()
        viol = {}
        for k, s, d in self.obligations:
            if s == "violation":
                viol.setdefault(k, d)
        new = {k: d for k, d in viol.items() if k not in known}
        for k in viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]["what"]))
        for name, floor in self.floors.items():
            n = self.analysed.get(name, 0)
            if not isinstance(n, int):
                n = len(n)
            if n < floor:
                # the rule no longer applies to what it was confirmed on
                self.undecided.append(("floor:" + name, "%s: %d analysed, %d confirmed by hand" % (name, n, floor)))
        total = len(self.obligations)
        good = sum(1 for o in self.obligations if o[1] == "ok")
        print("%s: %d obligations, %d discharged, %d violated, %d undecided" % (
            self.prop, total, good, len(viol), len(self.undecided)))
        for k, d in self.undecided[:40]:
            print("UNDECIDED %s: %s" % (k, d))
        repdir = os.path.join(build.BUILD, "reports")
        os.makedirs(repdir, exist_ok=True)
        rep = os.path.join(repdir, self.prop + ".txt")
        with open(rep, "w") as f:
            for k, d in new.items():
                f.write("%s\n    %s\n" % (k, d))
        cov = {
            "explanation": self.rule,
            "rule": self.rule,
            "obligations": total,
            "discharged": good,
            "analysed": self.analysed,
            "undecided": [list(u) for u in self.undecided],
            "known_findings": sorted(k for k in viol if k in known),
            "checker_cmd": "python3 -m palm.check " + self.prop + (" thorough" if self.thorough else ""),
            "trusted_base": self.trusted or ["rustc nightly front end (types, MIR, trait resolution)", "the analyser in /verif/palm"],
            "samples": [list(o) for o in self.obligations[:12]] + self.samples,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 3), "violations": len(new)}
        evdir = os.path.join(build.VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, d in new.items():
            print("  %s: %s" % (k, d))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            sys.stdout.flush()
            return 1
        return 0
