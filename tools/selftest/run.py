"""Development self-test: applies textual edits to a scratch copy of /repo's package and runs the rules on it.

mutants.txt  - edits that break a property: at least the named check has to report it
refactors.txt - edits that keep the behaviour: no check may report anything

    python3 tools/selftest/run.py [mutants|refactors] [name prefix or property ...]
Format of both files: blocks '## name property file', then '<<<' old text '===' new text '>>>' (several hunks allowed)."""
import os, re, shutil, subprocess, sys, tempfile, ast
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("QTUNE_REPO", "/repo")


def blocks(path):
    text = open(path).read()
    for part in re.split(r"(?m)^## ", text)[1:]:
        head, body = part.split("\n", 1)
        name, prop, file = head.split()
        hunks = re.findall(r"(?ms)^<<<\n(.*?)\n?^===\n(.*?)\n?^>>>$", body)
        yield name, prop, file, hunks


def one(kind, name, prop, file, hunks):
    d = tempfile.mkdtemp(prefix="qst_")
    try:
        shutil.copytree(os.path.join(REPO, "qtune"), os.path.join(d, "qtune"), ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("setup.py", "tests", "README.md"):
            pass
        p = os.path.join(d, file)
        s = open(p).read()
        for old, new in hunks:
            if s.count(old) != 1:
                return name, prop, "STALE (%d matches of %r)" % (s.count(old), old[:60]), ""
            s = s.replace(old, new)
        ast.parse(s)
        open(p, "w").write(s)
        env = dict(os.environ, QTUNE_REPO=d, QSTATIC_EVIDENCE=os.path.join(d, "evidence"))
        args = os.environ.get("CHK", "all").split() if kind == "refactors" or prop == "?" else prop.split(",")
        r = subprocess.run([sys.executable, "-m", "qstatic"] + args, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        und = len(re.findall(r"(?m)^UNDECIDED", r.stdout))
        broken = r.returncode not in (0, 1)
        rep = "\n".join(x[:400] for x in r.stdout.splitlines() if x.startswith(("REPORT", "UNDECIDED", "BROKEN", "Traceback")))
        if broken:
            return name, prop, "BROKEN rc=%d" % r.returncode, r.stdout[-1500:]
        if kind == "mutants":
            return name, prop, ("caught by %s" % ",".join(hit)) if hit else "MISSED (%d undecided)" % und, rep
        return name, prop, ("FALSE ALARM %s" % ",".join(hit)) if hit else "quiet (%d undecided)" % und, rep
    finally:
        shutil.rmtree(d)


def main(argv):
    kinds = [a for a in argv if a in ("mutants", "refactors")] or ["mutants", "refactors"]
    sel = [a for a in argv if a not in ("mutants", "refactors", "-v")]
    for kind in kinds:
        jobs = [b for b in blocks(os.path.join(HERE, kind + ".txt"))
                if not sel or any(b[0].startswith(s) or s in b[1].split(",") for s in sel)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda b: one(kind, *b), jobs))
        bad = 0
        for name, prop, verdict, rep in res:
            good = verdict.startswith(("caught", "quiet (0"))
            bad += not verdict.startswith(("caught", "quiet"))
            print("%-9s %-34s %-8s %s" % (kind, name, prop, verdict))
            if (not good or "-v" in argv) and rep:
                print("      " + rep.replace("\n", "\n      "))
        print("%s: %d run, %d bad" % (kind, len(res), bad))


if __name__ == "__main__":
    main(sys.argv[1:])
