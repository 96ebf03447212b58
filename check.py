#!/usr/bin/env python3
"""python3 /verif/check.py PROPERTY [--thorough]"""

import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.report import Report, REPO      # noqa: E402
from sa.interp import Program, Interp   # noqa: E402


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rep = Report(prop, tier)
    try:
        prog = Program(REPO)
    except SyntaxError as e:
        print("ANALYSIS BROKEN: cannot parse: %s" % e)
        return 2
    mod = importlib.import_module("checks." + prop.lower())
    mod.run(rep, prog, tier)
    return rep.finish(mod.META)


if __name__ == "__main__":
    threading_stack = 512 * 1024 * 1024
    import threading
    threading.stack_size(threading_stack)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
