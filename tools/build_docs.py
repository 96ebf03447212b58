#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from props.py, the META of
the checks and na.py"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.setrecursionlimit(20000)
from props import PROPS, NA     # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fd:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fd.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["id"]
        path = os.path.join(ROOT, "checks", pid.lower() + ".py")
        if pid in NA or not os.path.exists(path):
            na.append({"property": pid, "reason": NA.get(
                pid, "no sound static check for it has been built")})
            continue
        m = importlib.import_module("checks." + pid.lower()).META
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "python3 check.py %s --thorough" % pid,
            "technique": m.get("technique", "static analysis: abstract "
                               "interpretation of the source, compared with "
                               "a specification"),
            "level": m["level"],
            "level_note": (m.get("note", "") + (
                " Rule: " + m["rule"] + "." if m.get("rule") else "") + (
                " Assumes: " + "; ".join(m["assumptions"]) + "."
                if m.get("assumptions") else "")).strip(),
        })
    man = {
        "version": 1,
        "setup_cmd": "python3 -c \"import ast, sys; "
                     "sys.exit(sys.version_info < (3, 8))\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "Static analysis only: no check imports or executes code of "
                 "/repo. check.py parses /repo/javatools on every run.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
        fd.write("\n")
    print("%d properties, %d claimed, %d not applicable" % (
        len(PROPS), len(checks), len(na)))


main()
