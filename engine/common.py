"""Reporting: violations, known findings, evidence."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
EVDIR = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.viol = []          # (key, message)
        self.known = []
        self.counts = {}
        self.obl = []           # (id, ok)
        self.notes = []
        self.assume = []
        self.t0 = time.time()
        self.kf = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN))["findings"]:
                if e["property"] == pid and e["status"] == "known":
                    self.kf[e["key"]] = e
        self.broken = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def obligation(self, oid, ok, msg=None, key=None):
        """One decided instance.  A failed one is a violation unless its key is
        a listed known finding."""
        self.obl.append((oid, bool(ok)))
        if not ok:
            self.violation(key or oid, msg or oid)

    def violation(self, key, msg):
        if key in self.kf:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, self.kf[key]["what"]))
            return
        if (key, msg) not in self.viol:
            self.viol.append((key, msg))

    def require(self, what, n, minimum):
        """vacuity guard: analysis is broken if an instance class vanishes"""
        self.counts[what] = n
        if n < minimum:
            self.broken.append("%s: only %d instances (expected >= %d)" %
                               (what, n, minimum))

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        ev = {
            "property": self.pid, "tier": tier, "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source "
                "(clang-18 LLVM IR of every C unit, helper functions inlined "
                "into effect graphs; nothing executed). Rule: " + self.rule,
                "rule": self.rule,
                "analysed": self.counts,
                "obligations": len(self.obl),
                "discharged": sum(1 for _, ok in self.obl if ok),
                "obligation_list": [o + (": ok" if ok else ": FAILED")
                                    for o, ok in self.obl][:2000],
                "notes": self.notes[:200],
                "known_findings": [w for _, w in self.known],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.viol),
            "assumptions": self.assume,
        }
        os.makedirs(EVDIR, exist_ok=True)
        path = os.path.join(EVDIR, self.pid + ".json")
        print("%s: %s" % (self.pid, self.rule))
        print("analysed: " + ", ".join("%s=%s" % kv
                                       for kv in sorted(self.counts.items())))
        print("obligations: %d, discharged: %d" % (
            len(self.obl), sum(1 for _, ok in self.obl if ok)))
        for k, w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        rc = 0
        if self.viol:
            rp = os.path.join(EVDIR, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, m in self.viol:
                    f.write("[%s]\n%s\n\n" % (k, m))
            for k, m in self.viol:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("  [%s] %s" % (k, m))
            rc = 1
        for b in self.broken:
            print("ANALYSIS-BROKEN: " + b)
            rc = rc or 2
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        print("wall: %.2fs" % (time.time() - self.t0))
        return rc
