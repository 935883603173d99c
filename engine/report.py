"""Common frame of every check: collects what was analysed and what was violated, writes the evidence file."""
import json, os, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.txt")


def known_findings(pid):
    """exact keys of accepted defects of the unchanged tree: `known: property=<id> key=<key> :: <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s key=" % pid):
                key, _, what = line.split("key=", 1)[1].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.counts = {}
        self.samples = {}
        self.assumptions = []
        self.viol = {}
        self.extra = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, x, limit=6):
        l = self.samples.setdefault(name, [])
        if len(l) < limit:
            l.append(x)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def violation(self, key, where, msg):
        """key: what is broken, in terms that do not change when code moves; where: construct at fault"""
        v = self.viol.setdefault(key, {"key": key, "where": [], "message": msg})
        if where and where not in v["where"]:
            v["where"].append(where)

    def require(self, cond, key, where, msg):
        self.count("obligations")
        if cond:
            self.count("discharged")
        else:
            self.violation(key, where, msg() if callable(msg) else msg)
        return cond

    def floor(self, name, least):
        """fail closed when a rule found fewer sites than were counted by hand"""
        n = self.counts.get(name, 0)
        if n < least:
            self.violation("coverage: %s" % name, "", "only %d of at least %d %s found: the rule no longer sees its subject" % (n, least, name))

    def finish(self, prog=None):
        known = known_findings(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in known}
        hit = [k for k in self.viol if k in known]
        ev_dir = os.path.join(HERE, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {"explanation": self.rule}
        cov.update(self.counts)
        cov.update(self.extra)
        if self.samples:
            cov["samples"] = self.samples
        cov["known_findings"] = hit
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
              "level": "other", "coverage": cov, "assumptions": self.assumptions, "violations": len(new),
              "wall_s": round(time.time() - self.t0, 3)}
        if ev["tier"] not in ("quick", "thorough"):
            ev["tier"] = "quick"
        with open(os.path.join(ev_dir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        rp = os.path.join(ev_dir, self.pid + ".violation.json")
        if os.path.exists(rp):
            os.unlink(rp)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, known[k]))
        for k in known:
            if k not in self.viol:
                print("note: known finding no longer present: %s" % k)
        if not new:
            print("%s held: %s" % (self.pid, ", ".join("%s %s" % (v, k) for k, v in self.counts.items())))
            return 0
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "rule": self.rule, "violations": list(new.values())}, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for v in new.values():
            print("  %s | %s | %s" % (v["key"], "; ".join(str(w) for w in v["where"][:4]), v["message"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1
