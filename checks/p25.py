"""P25: comparing distributions with helper processes."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Cls, Ref, HList, Item, show
from sa import ops, gram
from checks.p01 import nrm
from checks.p43 import items
from checks.p22 import kindhook, squashhook, OPT
from checks.ctree import param, Kids, worlds, strays

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of parent and "
                 "helpers over a model of queues and processes, with "
                 "symbolic outcomes and failures of the parts and both "
                 "orders of results; every path is compared with the "
                 "specification in all worlds its conditions admit",
    "rule": "however many helpers are used, each part is checked once, the "
            "sub-reports by helpers, outcome and parts are those of the "
            "comparison without helpers, every helper ends, and the parent "
            "neither waits for a result that does not come nor loses a "
            "failure",
    "assumptions": ["queues are first-in first-out and lose nothing",
                    "helpers and parent share nothing else",
                    "failures are exceptions derived from Exception"],
}

REP = Term("new", "REPORTER")


class Hang(Exception):
    pass


class World(object):
    """queues and processes, run when the parent waits for a result"""

    def __init__(self, I, lifo):
        self.I, self.lifo = I, lifo
        self.reset()

    def reset(self):
        self.queues = []
        self.procs = []
        self.started = []
        self.ran = 0
        self.stuck = None
        self.killed = False
        self.log = []
        self.current = None

    def hooks(self):
        def queue(I, f, a, kw, node):
            self.queues.append([])
            return Term("new", "queue", (len(self.queues) - 1,))

        def mine(f, kind):
            r = f.args[0]
            if isinstance(r, Term) and r.op == "new" and r.args[0] == kind:
                return r.args[1][0]
            return None

        def put(I, f, a, kw, node):
            q = mine(f, "queue")
            if q is None:
                return NotImplemented
            self.queues[q].append(a[0])
            return NONE

        def get(I, f, a, kw, node):
            q = mine(f, "queue")
            if q is None:
                return NotImplemented
            if self.current is None:
                self.run_helpers()
            if not self.queues[q]:
                self.stuck = "a helper" if self.current is not None else \
                    "the parent"
                I.throw("Deadlock")
            last = self.lifo and self.current is None
            return self.queues[q].pop(-1 if last else 0)

        def process(I, f, a, kw, node):
            t = kw.get("target", a[1] if len(a) > 1 else None)
            args = kw.get("args", a[3] if len(a) > 3 else Tup([]))
            k = kw.get("kwargs")
            if k is not None:
                raise Undecided("process with kwargs")
            if kw.get("daemon") not in (None, NONE, Const(False)):
                self.killed = True
            self.procs.append((t, args))
            return Term("new", "process", (len(self.procs) - 1,))

        def start(I, f, a, kw, node):
            i = mine(f, "process")
            if i is None:
                return NotImplemented
            self.started.append(i)
            self.log.append("start")
            return NONE

        def none(kind):
            def h(I, f, a, kw, node):
                return NONE if mine(f, kind) is not None else NotImplemented
            return h
        def kill(I, f, a, kw, node):
            if mine(f, "process") is None:
                return NotImplemented
            self.killed = True
            return NONE
        return {"meth:terminate": kill, "meth:kill": kill,
                "ext:multiprocessing.Queue": queue,
                "ext:multiprocessing.Process": process,
                "meth:put": put, "meth:get": get, "meth:start": start}

    def run_helpers(self):
        while self.ran < len(self.started):
            i = self.started[self.ran]
            self.ran += 1
            self.current = i
            t, args = self.procs[i]
            xs = self.I.known_items(args)
            if xs is None:
                raise Undecided("arguments of the process")
            try:
                self.I.call(t, list(xs), {})
            except PyExc as e:
                if self.stuck:
                    raise
                # the helper dies of it
                self.log.append("died")
            finally:
                self.current = None


CASES = [
    ("DistClassChange",), ("DistJarChange",), ("DistTextChange",), (),
    ("DistClassChange", "DistJarChange"),
    ("DistTextChange", "DistClassChange"),
    ("DistJarChange", "DistContentRemoved"),
    ("DistClassChange", "DistClassChange"),
]
REPORTS = {"DistClassChange": "DistClassReport",
           "DistJarChange": "DistJarReport"}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    base = len(I.base.path)
    cases = list(CASES)
    if tier == "thorough":
        cases += [("DistJarChange", "DistTextChange", "DistClassChange"),
                  ("DistClassChange", "DistClassChange", "DistClassChange")]
    for case in cases:
        for procs in (1, 2, 4):
            if procs > 2 and len(case) > 2:
                continue
            for lifo in (False, True):
                if lifo and (len(case) < 2 or procs == 4):
                    continue
                one(rep, I, base, case, procs, lifo, False)
        one(rep, I, base, case, 2, False, True)
    rep.cover(I)
    rep.expect = 10


def one(rep, I, base, case, procs, lifo, failing):
    n = len(case)
    K = Kids(I, 2 * n, OPT)
    kinds = [I.get("distdiff", a) for a in case] + [
        I.get("distdiff", REPORTS.get(a, a)) for a in case]
    key = "DistReport:%s:%d%s%s" % (" ".join(case) or "none", procs,
                                    ":reversed" if lifo else "",
                                    ":failing" if failing else "")
    rule = "helpers-report-failures" if failing else "helpers-change-nothing"
    W = World(I, lifo)
    made = []
    with rep.guard(key, rule):
        rep.ok(key, rule)
        H = K.hooks()
        kh = K.hooks()["meth:check"]
        H["isinstance"] = kindhook(I, K, kinds)
        H["ext:builtins.type"] = lambda I_, f, a, kw, node: kinds[
            K.terms.index(a[0])] if len(a) == 1 and a[0] in K.terms \
            else NotImplemented
        H["change.squash"] = squashhook(K)
        H["distdiff.DistChange.collect_impl"] = \
            lambda I_, f, a, kw, node: I_.alloc(
                HList("gen", [Item(x) for x in K.terms[:n]]))

        def is_change(I_, f, a, kw, node):
            i = K.index(f)
            r = f.args[0]
            if i is None and isinstance(r, Term) and r.op == "new" and \
                    r.args[0] == "squashed":
                return param("S%d" % r.args[1][0])
            if i is None:
                return NotImplemented
            if case[i % n].endswith(("Added", "Removed")):
                return Const(True)
            if i < n and ("check", i) not in K.log:
                return param("E%d" % i)
            return param("C%d%s" % (i, K.state(i)))
        H["meth:is_change"] = is_change

        def check(I_, f, a, kw, node):
            i = K.index(f)
            if i is None:
                return NotImplemented
            K.log.append(("by", i, W.current))
            r = kh(I_, f, a, kw, node)
            if failing and I_.truth(param("X%d" % i)):
                I_.throw("ValueError")
            return r
        H["meth:check"] = check
        H["meth:setup"] = lambda I_, f, a, kw, node: (
            W.log.append("setup"), NONE)[1] if f.args[0] == REP \
            else NotImplemented

        def attr(I_, o, a):
            if o in K.terms:
                return param("%s%d" % (a, K.terms.index(o)))
            if o == REP and a == "options":
                return OPT
            return NotImplemented
        for a in ("entry", "ldata", "rdata", "options"):
            H["attr:" + a] = attr
        H["attr:processes"] = lambda I_, o, a: Const(procs) if o == OPT \
            else NotImplemented
        H["attr:shallow"] = lambda I_, o, a: Const(False) if o == OPT \
            else NotImplemented
        H["hasattr"] = lambda I_, o, a: True if o == OPT and \
            a == "processes" else NotImplemented
        H["meth:subreporter"] = lambda I_, f, a, kw, node: Term(
            "new", "subreporter", (tuple(map(I_.norm, a)),))
        for b in sorted(set(REPORTS.values())):
            def new(I_, f, args, kw, node, b=b):
                args = tuple(map(I_.norm, args))
                for j, a in enumerate(case):
                    if REPORTS.get(a) == b and param("entry%d" % j) in args:
                        made.append(j)
                        return K.terms[n + j]
                raise Undecided("report of %s" % ", ".join(map(show, args)))
            H["new:distdiff." + b] = new
        H.update(W.hooks())
        H["ext:traceback.format_exc"] = lambda *a: Term("new", "traceback")
        I.hooks = H

        def go():
            K.reset()
            W.reset()
            made[:] = []
            try:
                o = I.call(I.get("distdiff", "DistReport"),
                           [param("LEFT"), param("RIGHT"), REP], {})
                r = I.call(I.getattr(o, "check_impl"), [], {})
                W.run_helpers()
            except PyExc as e:
                left = W.stuck
                if not left:
                    # the parent ends only after its helpers
                    try:
                        W.run_helpers()
                    except PyExc:
                        left = W.stuck
                return Tup([Const("raise"), Const(left), Const(show(e.val)),
                            Const(tuple(len(q) for q in W.queues)),
                            Const(W.killed)])
            xs = I.known_items(r)
            return Tup([
                Const("done"), Const(W.stuck), Const(bool(I.truth(xs[0]))),
                I.call(I.getattr(o, "collect"), [], {}),
                Const(tuple(K.log)), Const(tuple(W.log)),
                Const(tuple(len(q) for q in W.queues)),
                Const(len(W.started))])
        names = ["E%d" % i for i in range(n)] + ["C%d" % i for i in
                                                 range(2 * n)]
        if failing:
            names = ["E%d" % i for i in range(n)] + [
                "X%d" % i for i in range(2 * n)]
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            if p.val.items[1] != NONE:
                rep.bad(key, rule, "%s waits forever" % p.val.items[1].v,
                        p.loc)
                continue
            done = p.val.items[0].v == "done"
            for w in worlds(I, p, names):
                deep = [j for j, a in enumerate(case)
                        if a in REPORTS and w["E%d" % j]]
                if failing:
                    fails = any(w["X%d" % (n + j if j in deep else j)]
                                for j in range(n))
                    if not done and any(p.val.items[3].v) and \
                            not p.val.items[4].v and not any(
                                e.kind == "setattr" and e.args and
                                e.args[0] == Const("daemon") and
                                e.args[1] == Const(True)
                                for e in p.events):
                        rep.bad(key, rule, "leaves results of helpers "
                                "unread, for which they wait, when a part "
                                "of its own fails", p.loc)
                    if done and fails:
                        rep.bad(key, rule, "the failure of a part is "
                                "lost", p.loc)
                    if not done and not fails:
                        rep.bad(key, rule, "raises %s without a failure" %
                                p.val.items[2].v, p.loc)
                    continue
                if not done:
                    rep.bad(key, rule, "raises %s" % p.val.items[2].v, p.loc)
                    continue
                judge(rep, I, base, key, rule, p, case, K, w, deep, n)


def judge(rep, I, base, key, rule, p, case, K, w, deep, n):
    _d, _s, out, parts, log, wlog, left, started = p.val.items
    if strays(p, base):
        rep.bad(key, rule, "depends on %s" % ", ".join(strays(p, base)),
                p.loc)
        return
    want, outcome, checked = [], False, []
    for j, a in enumerate(case):
        if j in deep:
            checked.append(n + j)
            want.append(Term("new", "squashed", (n + j, OPT, "")))
            outcome = outcome or None
        else:
            checked.append(j)
            outcome = outcome or w["C%d" % j] or a.endswith(
                ("Added", "Removed"))
            want.append(K.terms[j])
    # what the squashed changes answer
    sq = [squashed_changed(I, p, n + j) for j in deep]
    got = [nrm(I, p.st, x) for x in items(I, p, parts)]
    if sorted(map(show, got)) != sorted(map(show, want)):
        rep.bad(key, rule, "the parts are %s instead of %s" % (
            ", ".join(map(show, got)), ", ".join(map(show, want))), p.loc)
    if outcome is True and not out.v or any(s is True for s in sq) and \
            not out.v or out.v and not outcome and all(
                s is False for s in sq):
        rep.bad(key, rule, "the outcome is %s" % out.v, p.loc)
    if not out.v and any(s is None for s in sq):
        rep.bad(key, rule, "the outcome does not depend on a sub-report",
                p.loc)
    log = log.v
    cs = sorted(e[1] for e in log if e[0] == "check")
    if cs != sorted(checked):
        rep.bad(key, rule, "checks the parts %s instead of %s" % (
            cs, sorted(checked)), p.loc)
    if any(left.v):
        rep.bad(key, rule, "leaves %s items in queues" % (left.v,), p.loc)
    wl = wlog.v
    if "start" in wl and (wl.index("setup") if "setup" in wl else 99) > \
            wl.index("start"):
        rep.bad(key, rule, "helpers start before the report formats are set "
                "up", p.loc)
    if "died" in wl:
        rep.bad(key, rule, "a helper dies", p.loc)


def squashed_changed(I, p, i):
    return gram.known(I, p.st, ops.cond_truth(param("S%d" % i)))
