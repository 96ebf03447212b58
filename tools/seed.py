#!/usr/bin/env python3
"""seed.py SPEC...  makes or verifies planted bugs.

SPEC is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS (list of
(file, old, new)) and DEMO (a python program, exit status 0 if behaviour is
right).  With a bare id, an existing /verif/seeded/ID is verified again."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = """#!/bin/bash
# exit 0 if python-javatools behaves, run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def undo():
    sh("git", "-C", REPO, "checkout", "--", ".")


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout
    for f, old, new in ns["EDITS"]:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            undo()
            print("%s: %d matches for %r" % (ns["ID"], s.count(old), old))
            return None
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", REPO, "diff").stdout
    undo()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
               "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"),
              indent=1)
    return ns["ID"]


def passed():
    sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = json.load(open("/tmp/seed_out.json"))
    ok = set(out.get("passed", out))
    return sorted(stable - ok)


def verify(bug):
    d = os.path.join(ROOT, "seeded", bug)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("bash", "/opt/vp/build.sh")
    demo = ["bash", d + "/demo.sh"]
    r = sh(*demo, cwd=REPO)
    res = []
    if r.returncode:
        res.append("DEMO FAILS CLEAN %s" % (r.stdout + r.stderr)[-400:])
    a = sh("git", "-C", REPO, "apply", d + "/patch.diff")
    if a.returncode:
        return "%s: PATCH %s" % (bug, a.stderr)
    try:
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            res.append("BUILD " + b.stderr[-200:])
        t = passed()
        if t:
            res.append("TESTS %s" % t[:3])
        r = sh(*demo, cwd=REPO)
        if not r.returncode:
            res.append("DEMO PASSES PATCHED")
        else:
            res.append("demo: " + (r.stdout + r.stderr).strip().split(
                "\n")[-1][:80])
        c = sh("python3", "check.py", prop, cwd=ROOT)
        v = [x for x in c.stdout.split("\n") if "violated for" in x]
        res.append("%s rc=%d %s" % ("CAUGHT" if c.returncode == 1 else
                                    "MISSED", c.returncode,
                                    v[0][:160].strip() if v else ""))
    finally:
        undo()
    return "%s [%s]: %s" % (bug, prop, " | ".join(res))


for x in sys.argv[1:]:
    if x.endswith(".py"):
        x = make(x)
        if x is None:
            continue
    print(verify(x), flush=True)
sh("bash", "/opt/vp/build.sh")
