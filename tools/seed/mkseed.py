#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in bugs/*.py and verifies each one in a scratch copy of /repo.

    python3 tools/seed/mkseed.py [id prefix ...]
A definition: BUG(id, property, file, [(old, new), ...], needs, breaks, demo code)"""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUGS = []


def BUG(id, prop, edits, needs, breaks, demo):
    if edits and isinstance(edits[0], str):
        edits = [(edits[0], o, n) for o, n in edits[1]]
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change; runs in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" QT_QPA_PLATFORM=offscreen DEMO_SCRATCH="$scratch"
timeout 200 /opt/venv/bin/python "$here/demo.py"
'''


def run_tests(d, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mpl_seed", OMP_NUM_THREADS="1", QT_QPA_PLATFORM="offscreen")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not list(c):
            ok.add(c.get("classname") + "::" + c.get("name"))
        elif all(x.tag in ("system-out", "system-err") for x in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    return ok


def make(b):
    top = tempfile.mkdtemp(prefix="seed_")
    try:
        d = os.path.join(top, "repo")
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d)
        for file, old, new in b["edits"]:
            p = os.path.join(d, file)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "STALE: %d matches of %r" % (s.count(old), old[:80])
            s = s.replace(old, new)
            ast.parse(s)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        shutil.copy(os.path.join(HERE, "support.py"), os.path.join(out, "support.py"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        # fix: lines added by our own commits must not be the only lines changed
        lay = os.path.join(top, "lay")
        shutil.copytree(out, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        bad = subprocess.run(["bash", os.path.join(lay, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        good = subprocess.run(["bash", os.path.join(lay, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = base - run_tests(d, os.path.join(top, "j.xml"))
        msg = []
        if good.returncode != 0:
            msg.append("demo fails on the unchanged tree:\n" + good.stdout[-1500:])
        if bad.returncode == 0:
            msg.append("demo passes with the change")
        elif "FAILED:" not in bad.stdout:
            msg.append("(demo dies: %s)" % bad.stdout.strip().splitlines()[-1:])
        if missing:
            msg.append("tests fail: %s" % sorted(missing))
        # the check
        env = dict(os.environ, QTUNE_REPO=d, QSTATIC_EVIDENCE=os.path.join(top, "ev"))
        r = subprocess.run([sys.executable, "-m", "qstatic", "all"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hits = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        msg.append("caught by " + ",".join(hits) if b["prop"] in hits else "NOT CAUGHT (%s)" % ",".join(hits))
        return b["id"], "; ".join(msg)
    finally:
        shutil.rmtree(top)


for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
sel = sys.argv[1:]
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(make, [b for b in BUGS if not sel or any(b["id"].startswith(s) or b["prop"] == s for s in sel)]):
        print("%-34s %s" % (i, m))
