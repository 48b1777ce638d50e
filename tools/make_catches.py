#!/usr/bin/env python3
"""Runs the check of its property (CATCH_ALL: every check) on every planted bug (scratch copies) and writes the table at the end of DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QTUNE_REPO", "/repo")


def one(name):
    d = tempfile.mkdtemp(prefix="qcatch_")
    try:
        shutil.copytree(os.path.join(REPO, "qtune"), os.path.join(d, "qtune"), ignore=shutil.ignore_patterns("__pycache__"))
        patch = os.path.join(HERE, "seeded", name, "patch.diff")
        if subprocess.run(["patch", "-sp1", "-i", patch], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
            return name, None
        env = dict(os.environ, QTUNE_REPO=d, QSTATIC_EVIDENCE=os.path.join(d, "evidence"))
        prop = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))["property"]
        ids = IDS if os.environ.get("CATCH_ALL") else [prop]      # every check on every bug takes an hour
        r = subprocess.run([sys.executable, "-m", "qstatic"] + ids, cwd=HERE, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
        return name, sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
    finally:
        shutil.rmtree(d)


IDS = [c["property"] if "property" in c else c["id"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
names = sorted(os.listdir(os.path.join(HERE, "seeded")))
rows = []
with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
    for name, hit in ex.map(one, names):
        meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))
        rows.append((name, meta["property"], meta["what_it_breaks"], hit))
out = ["| planted bug | property | what it breaks | reported by |", "|---|---|---|---|"]
for n, p, b, h in rows:
    out.append("| %s | %s | %s | %s |" % (n, p, b.replace("|", "/"), "patch stale" if h is None else ", ".join(h) or "**nothing**"))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
mark = "<!-- catches: written by tools/make_catches.py -->"
s = s.split(mark)[0] + mark + "\n\n%d planted bugs, %d reported by the check of their own property.\n\n" % (
    len(rows), sum(1 for r in rows if r[3] and r[1] in r[3])) + "\n".join(out) + "\n"
open(path, "w").write(s)
print([r[0] for r in rows if not r[3] or r[1] not in r[3]])
