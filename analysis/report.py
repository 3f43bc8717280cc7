"""Obligations, verdicts, evidence and exit status of one check run."""
import json
import os
import sys
import time
import traceback
from program import AnalysisError, VERIF
from compare import Unknown, Verdict

EVID = os.environ.get("CN24_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ob:
    __slots__ = ("key", "where", "rule", "kind", "detail", "witness", "points")

    def __init__(self, key, where, rule, kind, detail=None, witness=None, points=0):
        self.key, self.where, self.rule, self.kind = key, where, rule, kind
        self.detail, self.witness, self.points = detail, witness, points


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.fns = set()
        self.stats = {}
        self.t0 = time.time()
        self.assumptions = []
        self.rules = []
        self.configs = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def uses(self, *fns):
        for f in fns:
            self.fns.add(f if isinstance(f, str) else f["q"])

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # -- recording ---------------------------------------------------------
    def ok(self, key, where, rule, detail="", points=0):
        self.obs.append(Ob(key, where, rule, "ok", detail, None, points))

    def bad(self, key, where, rule, detail, witness=None):
        self.obs.append(Ob(key, where, rule, "violation", detail, witness))

    def undecided(self, key, where, rule, why):
        self.obs.append(Ob(key, where, rule, "undecided", why))

    def verdict(self, key, where, rule, v):
        if v.kind == "equal":
            self.ok(key, where, rule, v.detail, v.points)
        elif v.kind == "different":
            self.bad(key, where, rule, "differs from the required definition", v.witness)
        else:
            self.undecided(key, where, rule, v.detail)

    def guard(self, key, where, rule, thunk):
        """run one obligation; analysis trouble makes it undecided, a missing anchor an error"""
        n = len(self.obs)
        try:
            v = thunk()
            if isinstance(v, Verdict):
                self.verdict(key, where, rule, v)
            elif v is True:
                self.ok(key, where, rule)
        except Unknown as e:
            self.undecided(key, where, rule, str(e))
        except AnalysisError as e:
            self.obs.append(Ob(key, where, rule, "error", str(e)))
        except RecursionError:
            self.undecided(key, where, rule, "term too deep")
        except Exception as e:
            if os.environ.get("CN24_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(key, where, rule, "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    # -- finish -------------------------------------------------------------
    def finish(self, min_decided=1):
        known = load_known(self.pid)
        viol, found = [], []
        for o in self.obs:
            if o.kind == "violation":
                if o.key in known:
                    found.append(o)
                else:
                    viol.append(o)
        und = [o for o in self.obs if o.kind == "undecided"]
        err = [o for o in self.obs if o.kind == "error"]
        ok = [o for o in self.obs if o.kind == "ok"]
        nf = [o for o in ok if o.detail == "normal form"]
        ident = [o for o in ok if o.detail == "identity test"]
        cov = {
            "explanation": "Static analysis of /repo's current sources: every obligation below is decided from effect "
                           "summaries (gated value numbering) extracted from the type-checked syntax tree.",
            "obligations": len(self.obs),
            "discharged": len(ok),
            "discharged_by_canonical_form": len(nf),
            "discharged_by_identity_testing_of_summary_terms": len(ident),
            "undecided": len(und), "errors": len(err), "known_findings_seen": len(found),
            "functions_analysed": len(self.fns),
            "functions": sorted(self.fns)[:400],
            "configurations": sorted(self.configs),
            "rules": sorted({o.rule for o in self.obs}),
            "samples": [{"obligation": o.key, "at": o.where, "verdict": o.kind, "by": o.detail} for o in self.obs[:60]],
            "undecided_list": [{"obligation": o.key, "at": o.where, "why": o.detail} for o in und + err][:80],
        }
        cov.update(self.stats)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o in found:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, o.key, known[o.key]))
        if viol:
            path = os.path.join(EVID, self.pid + ".violation.json")
            with open(path, "w") as f:
                json.dump([{"property": self.pid, "obligation": o.key, "where": o.where, "rule": o.rule,
                            "detail": o.detail, "witness": o.witness} for o in viol], f, indent=1, default=str)
            for o in viol[:20]:
                print("%s: [%s] %s: %s" % (o.where, o.key, o.rule, o.detail))
                if o.witness:
                    print("    witness: %s" % json.dumps(o.witness, default=str)[:1200])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: %d obligations, %d discharged (%d canonical form, %d identity test), %d undecided, %d errors, %.1fs" % (
            self.pid, len(self.obs), len(ok), len(nf), len(ident), len(und), len(err), time.time() - self.t0))
        for o in err + und:
            print("  %s %s at %s: %s" % (o.kind, o.key, o.where, o.detail))
        if len(ok) + len(found) < min_decided:
            print("analysis broken: %d obligations decided, at least %d expected" % (len(ok) + len(found), min_decided))
            return 2
        return 0


def load_known(pid):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        d = json.load(f)
    return {e["obligation"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}
