"""Obligations, findings, evidence and exit codes of one check."""
import json, os, time
from .loader import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """{(rule, construct): text} for the unrepaired findings listed for prop"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" :: ", 1)
                rule, construct = key.split("|", 1)
                out[(rule.strip(), construct.strip())] = text.strip()
    return out


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []            # (rule, construct, status, message, loc)
        self.bad_ = {}           # (rule, construct) -> message
        self.stats = {"functions": set(), "paths": 0, "calls": 0}
        self.notes = []
        self.t0 = time.time()

    # -- recording
    def _loc(self, loc):
        if loc is None:
            return ""
        if isinstance(loc, str):
            return loc
        return "%s:%s (%s)" % (loc[0], loc[1], loc[2])

    def ok(self, rule, construct, loc=None, msg=""):
        self.obs.append((rule, construct, "ok", msg, self._loc(loc)))

    def unk(self, rule, construct, msg="", loc=None):
        self.obs.append((rule, construct, "undecided", msg, self._loc(loc)))

    def bad(self, rule, construct, msg, loc=None, path=None):
        l = self._loc(loc)
        self.obs.append((rule, construct, "violation", msg, l))
        text = "%s %s [%s] %s" % (l, construct, rule, msg)
        if path is not None:
            text += "\n    on the path: " + path.describe()[:1500]
        self.bad_.setdefault((rule, construct), text)

    def check(self, cond, rule, construct, msg, loc=None, path=None):
        """cond: True ok, False violation, None undecided"""
        if cond is None:
            self.unk(rule, construct, msg, loc)
        elif cond:
            self.ok(rule, construct, loc)
        else:
            self.bad(rule, construct, msg, loc, path)
        return cond

    def need(self, rule, n=1):
        """at least n decided instances of a rule must have been found"""
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n:
            self.unk("coverage", rule, "rule %s found %d instances, expected at least %d" % (rule, k, n))

    def used(self, interp):
        s = interp.stats
        self.stats["functions"] |= s["functions"]
        self.stats["paths"] += s["paths"]
        self.stats["calls"] += s["calls"]

    # -- finishing
    def finish(self, explanation, out=print):
        known = known_findings(self.prop)
        new = {k: v for k, v in self.bad_.items() if k not in known}
        for k in sorted(known):
            if k in self.bad_:
                out("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        und = [o for o in self.obs if o[2] == "undecided"]
        ev_dir = os.environ.get("QSTATIC_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join(ev_dir, self.prop + ".violation.txt")
        rules = {}
        for r, c, s, m, l in self.obs:
            d = rules.setdefault(r, {"ok": 0, "undecided": 0, "violation": 0})
            d[s] += 1
        okobs = [o for o in self.obs if o[2] == "ok"]
        ev = {
            "property": self.prop, "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obs), "discharged": len(okobs), "undecided": len(und),
                "rules": rules,
                "functions_analysed": sorted("%s %s" % f for f in self.stats["functions"]),
                "paths_analysed": self.stats["paths"], "call_sites_on_paths": self.stats["calls"],
                "samples": ["%s | %s | %s %s" % (o[0], o[1], o[4], o[3][:160]) for o in
                            (okobs[:: max(1, len(okobs) // 12)][:12])],
                "undecided_items": ["%s | %s | %s %s" % (o[0], o[1], o[4], o[3][:200]) for o in und[:40]],
                "known_findings": [known[k] for k in sorted(known) if k in self.bad_],
                "notes": self.notes,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
        }
        with open(os.path.join(ev_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            with open(replay, "w") as f:
                for k in sorted(new):
                    f.write(new[k] + "\n")
                f.write("\nreproduce: cd %s && python3 -m qstatic %s\n" % (VERIF, self.prop))
            for k in sorted(new):
                out("REPORT %s" % new[k])
            out("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        for o in und[:10]:
            out("UNDECIDED %s %s [%s] %s" % (o[4], o[1], o[0], o[3][:300]))
        out("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d paths=%d" % (
            self.prop, len(self.obs), len(okobs), len(und), len(self.stats["functions"]), self.stats["paths"]))
        return 0


ASSUMPTIONS = [
    "pandas, numpy, h5py, threading, queue and the standard library behave as documented; a closed table in "
    "qstatic/interp.py says which of their operations change their receiver or arguments",
    "objects handed in through the public interfaces are of the documented types (series with unique labels)",
    "no monkey patching, no reflection that redefines package attributes at run time",
    "loops are covered by one generic iteration over an arbitrary element plus loop-carried values as unknowns",
]
