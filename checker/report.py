"""Collects what a check analysed and what it found; writes evidence and prints the verdict."""
import json, os, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.rules = {}
        self.count = {}
        self.viol = {}
        self.notes = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text
        self.count.setdefault(name, {"instances": 0, "violations": 0})

    def ok(self, rule, n=1):
        self.count[rule]["instances"] += n

    def bad(self, rule, key, msg, where):
        """A violated instance.  `key` identifies the construct without line numbers."""
        self.count[rule]["instances"] += 1
        self.count[rule]["violations"] += 1
        key = rule + "|" + key
        self.viol.setdefault(key, []).append((msg, where))

    def check(self, cond, rule, key, msg, where):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, key, msg, where)
        return cond

    def floor(self, rule, n):
        """Fail closed when a rule matches fewer instances than were confirmed by hand."""
        c = self.count[rule]["instances"]
        if c < n:
            self.viol.setdefault("floor|" + rule, []).append(
                ("rule %s matched %d instances, at least %d expected: the code it anchors to has moved or the analysis lost it" % (rule, c, n), "-"))

    def note(self, s):
        self.notes.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def finish(self, known, level):
        prop = self.prop
        kn = {k["key"]: k for k in known if k["property"] == prop and k.get("status") == "known"}
        lines = []
        new = []
        for key in sorted(self.viol):
            insts = self.viol[key]
            if key in kn:
                # an entry lists how many instances were confirmed for this construct
                n = kn[key].get("count", 1)
                if len(insts) <= n:
                    print("KNOWN-FINDING: property=%s %s [%s] at %s" % (prop, kn[key]["what"], key, insts[0][1]))
                    continue
            new.append((key, insts))
        rep = os.path.join(ROOT, "evidence", "%s.violations.txt" % prop)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        if new:
            with open(rep, "w") as f:
                for key, insts in new:
                    rn = key.split("|")[0]
                    f.write("rule: %s\n  %s\n" % (rn, self.rules.get(rn, "")))
                    for msg, where in insts:
                        f.write("  %s: %s\n" % (where, msg))
                    f.write("  key: %s\n\n" % key)
            for key, insts in new:
                for msg, where in insts[:4]:
                    print("%s: %s [%s]" % (where, msg, key))
        elif os.path.exists(rep):
            os.remove(rep)
        total = sum(c["instances"] for c in self.count.values())
        known_n = len([k for k in self.viol if k in kn]) - len([1 for k, _ in new if k in kn])
        expl = "Rules decided: " + "; ".join(
            "%s (%d instances): %s" % (r, self.count[r]["instances"], t) for r, t in self.rules.items())
        if self.notes:
            expl += ". Notes: " + "; ".join(self.notes)
        ev = {
            "property": prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
            "coverage": coverage(level, expl, total, known_n, self),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
            "assumptions": self.assumptions,
        }
        with open(os.path.join(ROOT, "evidence", "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1)
        for r, c in self.count.items():
            print("  %-34s %6d instances, %d violated" % (r, c["instances"], c["violations"]))
        if new:
            print("VIOLATION property=%s replay=%s" % (prop, rep))
            return 1
        print("property %s holds on %d analysed instances%s" % (prop, total, " (%d known findings)" % known_n if known_n else ""))
        return 0


def coverage(level, expl, total, known_n, R):
    return {"explanation": expl, "instances": total, "known_findings": known_n,
            "rules": {r: c["instances"] for r, c in R.count.items()}}
