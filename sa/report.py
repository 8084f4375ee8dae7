"""Obligation bookkeeping, known findings, evidence and exit status."""
import json, os, sys, time, traceback
from build import VERIF, AnalysisBroken


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}          # key -> dict(ok, detail)
        self.counts = {}
        self.assumptions = []
        self.samples = []
        self.rules = []
        self.floors = []
        self.extra = {}
        self.units = set()
        self.fns = set()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, key, ok, detail="", where=""):
        """one obligation; the same key may be visited along many paths: it fails if any visit fails"""
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = {"ok": True, "visits": 0, "where": where, "detail": ""}
        o["visits"] += 1
        if not ok and o["ok"]:
            o["ok"] = False
            o["detail"] = detail
            o["where"] = where or o["where"]
        return ok

    def floor(self, what, n, least):
        self.floors.append((what, n, least))
        if n < least:
            raise AnalysisBroken("%s: only %d instance(s) analysed, at least %d expected - an anchor moved or vanished" % (what, n, least))

    def used(self, interp):
        self.fns |= {interp.prog.fns[n].key for n in interp.touched}
        self.units |= set(os.path.basename(u) for u in interp.prog.units)
        for fn, ins, fr in interp.stuck:
            self.ob("%s: the loop ends" % fn.key, False, "once it is entered nothing leaves it", loc(fn, ins, fr))
        self.count("abstract_blocks", interp.blocks)
        self.count("abstract_steps", interp.steps)

    def finish(self):
        kf = {}
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)).get("findings", []):
                if e["property"] == self.prop:
                    kf[e["key"]] = e
        bad = [(k, o) for k, o in self.obl.items() if not o["ok"]]
        new = [(k, o) for k, o in bad if k not in kf]
        for k, o in bad:
            if k in kf:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, kf[k]["what"], k))
        total = len(self.obl)
        if total == 0:
            raise AnalysisBroken("no obligation was generated")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current tree (LLVM IR of every unit that the build compiles). "
                               "An obligation is one rule instance at one construct; it is discharged when the abstract interpretation proves it on every analysed path.",
                "rule": self.rules,
                "obligations": total,
                "discharged": total - len(bad),
                "known_findings": len(bad) - len(new),
                "visits": sum(o["visits"] for o in self.obl.values()),
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:400],
                "units": sorted(self.units),
                "counts": self.counts,
                "instance_floors": [{"what": w, "found": n, "least": l} for w, n, l in self.floors],
                "samples": [{"key": k, "where": o["where"], "visits": o["visits"], "ok": o["ok"]} for k, o in list(self.obl.items())[:60]],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d known, %d new (%.1fs)" % (self.prop, total, total - len(bad), len(bad) - len(new), len(new), time.time() - self.t0))
        if new:
            d = os.path.join(VERIF, "build", "violations")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".txt")
            with open(path, "w") as f:
                for k, o in new:
                    f.write("[%s] %s\n  at %s\n  %s\n" % (self.prop, k, o["where"], o["detail"]))
            for k, o in new[:20]:
                print("  %s\n    at %s\n    %s" % (k, o["where"], o["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0


def loc(fn, ins=None, fr=None):
    f = os.path.relpath(fn.file, os.environ.get("SA_REPO", "/repo")) if fn.file.startswith("/") else fn.file
    s = "%s:%s (%s)" % (f, ins["l"] if ins else fn.line, fn.key)
    if fr is not None:
        st = fr.stack()
        if len(st) > 1:
            s += " called from " + " <- ".join(st[:-1][::-1][:5])
    return s


def main(registry):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in registry:
        print("unknown property", prop)
        return 2
    r = Report(prop, tier)
    try:
        registry[prop](r)
        return r.finish()
    except AnalysisBroken as e:
        if any(not o["ok"] for o in r.obl.values()):
            # what is violated is violated, whatever else could not be analysed
            if r.finish() == 1:
                print("analysis incomplete: %s" % e)
                return 1
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        return 3
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error %r" % (prop, e))
        return 3
