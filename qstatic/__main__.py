import importlib, os, pkgutil, sys, traceback, warnings
from .loader import Program, AnalysisBroken
from .report import Report
from . import rules as R
from .rules.common import Ctx


def all_rules():
    out = {}
    for m in sorted(x.name for x in pkgutil.iter_modules(R.__path__)):
        if m != "common":
            out.update(getattr(importlib.import_module("qstatic.rules." + m), "RULES", {}))
    return out


def check(prop, prog=None, out=print):
    rules = all_rules()
    if prop not in rules:
        out("no check for %s" % prop)
        return 2
    func, explanation = rules[prop][:2]
    rep = Report(prop)
    try:
        prog = prog or Program()
        func(Ctx(prog, rep))
    except AnalysisBroken as e:
        rep.unk("anchors", "-", "part of the property cannot be decided on this tree: %s" % e)
        rep.notes.append("anchor missing: %s" % e)
    except Exception:
        rep.unk("internal", "-", "the analysis failed: %s" % traceback.format_exc()[-600:].replace("\n", " | "))
        rep.notes.append(traceback.format_exc())
    return rep.finish(explanation, out)


def main():
    sys.setrecursionlimit(20000)
    warnings.simplefilter("ignore")
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(all_rules())
    rc = 0
    for i in ids:
        rc = max(rc, check(i))
    return rc


if __name__ == "__main__":
    sys.exit(main())
