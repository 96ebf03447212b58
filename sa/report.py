"""Obligations, findings, evidence and exit status of a check run."""

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JT_REPO", "/repo")


class Obligation(object):
    def __init__(self, key, rule):
        self.key = key
        self.rule = rule
        self.status = "undecided"
        self.detail = ""
        self.loc = None
        self.final = False      # the analyser stopped within it


class Report(object):
    """collects the obligations of one property"""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obls = {}
        self.t0 = time.time()
        self.samples = []
        self.covered = set()
        self.info = {}
        self.expect = 1

    def ob(self, key, rule):
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(key, rule)
        return o

    def ok(self, key, rule, detail=""):
        o = self.ob(key, rule)
        if o.status != "violated" and not o.final:
            o.status = "ok"
            o.detail = detail

    def bad(self, key, rule, detail, loc=None):
        o = self.ob(key, rule)
        o.status = "violated"
        o.detail = detail
        o.loc = loc

    def und(self, key, rule, detail=""):
        o = self.ob(key, rule)
        if o.status != "violated":
            o.status = "undecided"
            o.final = True
            o.detail = detail

    def check(self, cond, key, rule, detail="", loc=None):
        if cond:
            self.ok(key, rule, "")
        else:
            self.bad(key, rule, detail, loc)
        return cond

    class Guard(object):
        def __init__(self, rep, key, rule):
            self.rep, self.key, self.rule = rep, key, rule

        def __enter__(self):
            return self

        def __exit__(self, et, ev, tb):
            if et is None:
                return False
            if issubclass(et, (KeyboardInterrupt, SystemExit)):
                return False
            msg = "%s: %s" % (et.__name__, ev)
            if os.environ.get("SA_DEBUG"):
                traceback.print_exception(et, ev, tb)
            self.rep.und(self.key, self.rule, msg)
            return True

    def guard(self, key, rule):
        """obligations inside become undecided when the analyser stops"""
        return Report.Guard(self, key, rule)

    def cover(self, interp):
        self.covered |= interp.covered

    # -- finish -------------------------------------------------------------

    def finish(self, meta):
        known, _fixed = load_known(self.prop)
        viol, kn = [], []
        for o in self.obls.values():
            if o.status == "violated":
                (kn if o.key in known else viol).append(o)
        okc = sum(1 for o in self.obls.values() if o.status == "ok")
        und = [o for o in self.obls.values() if o.status == "undecided"]
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        repfile = os.path.join(evdir, self.prop + ".report.txt")
        lines = ["property %s: %s" % (self.prop, meta.get("rule", ""))]
        for o in self.obls.values():
            l = "%-9s %s [%s]" % (o.status.upper(), o.key, o.rule)
            if o.loc:
                l += " at %s:%s in %s" % tuple(o.loc)[:3]
            if o.detail:
                l += ": " + o.detail
            lines.append(l)
        with open(repfile, "w") as fd:
            fd.write("\n".join(lines) + "\n")
        files = sorted({f for f, _q in self.covered})
        funcs = sorted({"%s:%s" % x for x in self.covered})
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": meta["level"],
            "coverage": {
                "obligations": len(self.obls),
                "discharged": okc,
                "undecided": len(und),
                "known_findings": len(kn),
                "checker_cmd": "python3 /verif/check.py %s" % self.prop,
                "trusted_base": meta.get("trusted", TRUSTED),
                "explanation": meta.get("explanation", ""),
                "rule": meta.get("rule", ""),
                "files_analysed": files,
                "functions_analysed": len(funcs),
                "functions": funcs[:80],
                "samples": [
                    "%s: %s (%s)" % (o.key, o.status, o.rule)
                    for o in list(self.obls.values())[:12]],
            },
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        ev["coverage"].update(self.info)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, "
              "%d violated, %d known; %d functions in %d files analysed" % (
                  self.prop, len(self.obls), okc, len(und), len(viol),
                  len(kn), len(funcs), len(files)))
        for o in und:
            print("UNDECIDED %s: %s" % (o.key, o.detail[:300]))
        for o in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (
                self.prop, o.key, known[o.key]))
        if viol:
            for o in viol:
                where = ""
                if o.loc:
                    where = " at %s:%s in %s" % tuple(o.loc)[:3]
                print("  rule %s violated for %s%s: %s" % (
                    o.rule, o.key, where, o.detail))
            print("VIOLATION property=%s replay=%s" % (self.prop, repfile))
            return 1
        if okc + len(kn) < 1:
            print("ANALYSIS BROKEN: none of the %d obligations could be "
                  "decided" % len(self.obls))
            return 2
        return 0


TRUSTED = [
    "the abstract interpreter in /verif/sa (values, ops, interp, extmodel)",
    "the specification tables in /verif/sa/jvms.py and /verif/checks",
    "CPython's ast module",
]


def load_known(prop):
    """known-findings file: 'finding: property=ID key=KEY text' and
    'fixed: property=ID commit text' lines"""
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fd:
            for line in fd:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    k, _s, txt = rest.partition(" ")
                    known[k[4:]] = txt
                elif line.startswith("fixed: property=%s " % prop):
                    fixed.append(line)
    return known, fixed
