"""Check driver: runs one rule module, prints verdict lines, writes evidence."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "rules"))
from facts import DB, AnalysisError, REPO   # noqa: E402


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []          # dicts
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assume = []
        self.rules = []
        self.obligations = 0
        self.discharged = 0
        self._keys = set()

    def rule(self, name, text):
        self.rules.append("%s: %s" % (name, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, ok=True):
        """one obligation examined."""
        self.obligations += 1
        if ok:
            self.discharged += 1

    def sample(self, s, cap=25):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, rule, where, what, key, path=None):
        """key: stable identity of the construct (no line numbers)."""
        k = "%s|%s" % (rule, key)
        if k in self._keys:
            return
        self._keys.add(k)
        self.viol.append({"rule": rule, "where": where, "what": what, "key": k, "path": path or []})

    def floor(self, name, got, atleast):
        """instance-count floor: the analysis matched (nearly) nothing."""
        self.counts[name] = got
        if got < atleast:
            raise AnalysisError("rule instance count '%s' fell to %d (expected at least %d): the rule no longer finds its subject" % (name, got, atleast))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(pid, tier):
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, tier)
    try:
        db = DB(mod.GROUPS, getattr(mod, "WANT_DEP", False))
        ctx.counts["functions_in_scope"] = len(db.fns)
        ctx.counts["translation_units"] = db.units
        mod.run(db, ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 3
    kf = {k["key"]: k for k in known() if k["property"] == pid}
    news, olds = [], []
    for v in ctx.viol:
        (olds if v["key"] in kf else news).append(v)
    for v in olds:
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (pid, v["where"], v["what"], v["rule"]))
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, "%s.violations.json" % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    if news:
        json.dump(news, open(rp, "w"), indent=1)
        for v in news:
            print("%s: %s: %s [%s]" % (pid, v["where"], v["what"], v["rule"]))
            for p in v["path"]:
                print("      via %s" % (p,))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": "static analysis of /repo's current sources (clang front end, %d translation units of groups %s). Rules: %s" % (db.units, ",".join(mod.GROUPS), " || ".join(ctx.rules)),
                       "obligations": ctx.obligations, "discharged": ctx.discharged,
                       "counts": ctx.counts, "samples": ctx.samples, "notes": ctx.notes[:60],
                       "known_findings": [v["key"] for v in olds], "violations": news[:50]},
          "assumptions": ctx.assume, "violations": len(news), "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(evd, ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evd, pid + ".json"))
    print("%s: %d obligations, %d discharged, %d new violation(s), %d known; %s" % (pid, ctx.obligations, ctx.discharged, len(news), len(olds),
          ", ".join("%s=%s" % kv for kv in ctx.counts.items())))
    if news:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(sys.argv[1], tier))
