#!/usr/bin/env python3
"""Plants one bug (by hand): tools/plant.py SPEC.py
SPEC defines id, property, needs, what, edits=[(file, old, new)...], demo (python source).
Builds a scratch copy, checks that it applies, passes the stable tests and that the demo tells
the two trees apart; keeps it under seeded/<id>/; then runs the property's check against the copy."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# cwd: the tree under test.  Exit 0 when the property holds there, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD REPO=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
export PYTHONPYCACHEPREFIX=$work/pyc MPLCONFIGDIR=$work/mpl
cd "$work" && timeout 250 python -B -W ignore "$here/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bid = ns["id"]
    tmp = "/tmp/bug/" + bid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    tree = tmp + "/repo"
    run(["cp", "-a", "/repo", tree])
    for f, old, new in ns["edits"]:
        p = os.path.join(tree, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: pattern occurs %d times in %s" % (bid, s.count(old), f))
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "-C", tree, "diff"]).stdout
    d = os.path.join(HERE, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(ns["demo"])
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what"]},
              open(d + "/meta.json", "w"), indent=1)
    a, b = run(["bash", d + "/demo.sh"], cwd="/repo"), run(["bash", d + "/demo.sh"], cwd=tree)
    ok = a.returncode == 0 and b.returncode == 1
    if not ok or os.environ.get("V"):
        print(bid, "demo: clean", a.returncode, a.stdout[-600:], "patched", b.returncode, b.stdout[-600:])
    sh = open("/opt/vp/test.sh").read().replace("/repo", tree)
    open(tmp + "/test.sh", "w").write(sh)
    t = run(["bash", tmp + "/test.sh", tmp + "/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        out = json.load(open(tmp + "/out.json"))
    except Exception:
        print(bid, "TESTS gave nothing", t.stdout[-500:])
        return
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests", "stable_tests"):
                if k in x:
                    return names(x[k])
            return {k for k, v in x.items() if v in ("pass", "passed", True, "PASSED")}
        return set(x if not x or isinstance(x[0], str) else [y.get("id") or y.get("name") for y in x])
    miss = names(base) - names(out)
    c = run([HERE + "/bin/check", ns["property"]], env=dict(os.environ, PBT_REPO=tree, VERIF_SEED="1")) \
        if not os.environ.get("NOCHECK") else None
    print("%-28s %s demo=%s tests=%s check=%s" % (bid, ns["property"], "ok" if ok else "BAD",
          "ok(%d)" % len(names(out)) if not miss else "FAIL %r" % sorted(miss)[:3],
          {0: "MISSED", 1: "caught", 2: "ERROR"}[c.returncode] if c else "-"))
    if c and c.returncode:
        print("     ", "\n      ".join(l for l in c.stdout.splitlines() if "FAILED" in l or "VIOL" in l or "rror" in l)[:400])
    shutil.rmtree(tmp, ignore_errors=True)


for s in sys.argv[1:]:
    main(s)
