"""Findings, known findings, evidence."""
import json
import os


class Report:
    def __init__(self, root, prop, tier, seed):
        self.root, self.prop, self.tier, self.seed = root, prop, tier, seed
        self.obl = 0
        self.ok = 0
        self.samples = []
        self.viol = []            # (key, text, where)
        self.keys = set()
        self.notes = {}
        self.assumptions = []
        self.rules = {}
        self.level = "other"
        self.checker = "python3 run.py " + prop
        self.trusted = ["rustc nightly front end (type checking, MIR construction, constant evaluation)",
                        "driver/ (MIR to facts)", "engine/ (transfer functions of the abstract interpreter)"]
        self.known = self._known()

    def _known(self):
        p = os.path.join(self.root, "known-findings.txt")
        r = {}
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if not l or l.startswith("#") or l.startswith("fixed:"):
                    continue
                # known: property=C05 key=<key> <what fails>
                if l.startswith("known:"):
                    w = l.split(None, 3)
                    d = dict(x.split("=", 1) for x in w[1:3])
                    if d.get("property") == self.prop:
                        r[d["key"]] = w[3] if len(w) > 3 else ""
        return r

    def rule(self, name, text):
        self.rules[name] = text

    def hold(self, what):
        """an obligation discharged"""
        self.obl += 1
        self.ok += 1
        if len(self.samples) < 40 or (self.obl % 97 == 0 and len(self.samples) < 80):
            self.samples.append(what)

    def violation(self, key, text, where=""):
        key = key.replace(" ", "_")
        self.obl += 1
        if key in self.keys:
            return
        self.keys.add(key)
        self.viol.append((key, text, where))

    def check(self, cond, key, what, where="", text=None):
        if cond:
            self.hold(what)
        else:
            self.violation(key, text or what, where)
        return cond

    def finish(self, wall):
        new = []
        for k, t, w in self.viol:
            if k in self.known:
                print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, self.known[k] or t, k, w))
            else:
                new.append((k, t, w))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "obligations": self.obl, "discharged": self.ok,
                "checker_cmd": self.checker, "trusted_base": self.trusted,
                "rules": self.rules, "samples": self.samples,
                "known_findings": len(self.viol) - len(new),
                "explanation": "Obligations are (construct, rule) pairs extracted from the current working tree on this run; "
                               "discharged ones were shown to satisfy the rule, the others are listed as findings.",
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(new),
        }
        d = os.path.join(self.root, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.obl == 0:
            new.append(("empty", "the analysis found nothing to analyse: the anchored code is gone", ""))
        if not new:
            print("OK property=%s obligations=%d discharged=%d known=%d" % (self.prop, self.obl, self.ok, len(self.viol)))
            return 0
        rp = os.path.join(d, self.prop + ".findings.txt")
        with open(rp, "w") as f:
            for k, t, w in new:
                f.write("%s\n  where: %s\n  %s\n" % (k, w, t))
        for k, t, w in new[:40]:
            print("FINDING %s: %s\n    at %s" % (k, t, w))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1
