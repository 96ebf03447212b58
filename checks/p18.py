"""P18: exit status and output of the comparing commands."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ext, Ref, show
from sa import ops, gram
from checks.p01 import nrm
from checks.ctree import param

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the commands "
                 "over symbolic options and a symbolic comparison; every "
                 "path is compared with the specification in all worlds its "
                 "conditions admit",
    "rule": "each comparing command checks the comparison of its two inputs "
            "once, before anything else is asked of it; prints it unless "
            "silenced, as JSON exactly if asked to; writes reports exactly "
            "if some were asked for; and returns 0 exactly if there is no "
            "change or it is ignored",
    "assumptions": ["the result of main() becomes the exit status (the entry "
                    "points of setuptools do so)"],
}

OPT = param("OPTIONS")
LEFT, RIGHT = param("LEFT"), param("RIGHT")

# command: module, function, change, report
CLIS = [
    ("classdiff", "cli_classes_diff", "classdiff.JavaClassChange",
     "classdiff.JavaClassReport"),
    ("jardiff", "cli_jars_diff", "jardiff.JarChange", "jardiff.JarReport"),
    ("distdiff", "cli_dist_diff", "distdiff.DistChange",
     "distdiff.DistReport"),
]


def opt(n):
    return Term("attr", OPT, n)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    DELTA = Term("new", "delta")
    RPT = Term("new", "reporter")
    log = []

    def new(kind):
        def h(I_, f, a, kw, node):
            log.append(("new", kind, tuple(a) + tuple(
                v for _k, v in sorted(kw.items()))))
            return DELTA
        return h

    def reporter(I_, f, a, kw, node):
        log.append(("reporter", tuple(a), dict(kw)))
        return RPT

    def meth(name):
        def h(I_, f, a, kw, node):
            if f.args[0] == RPT and name == "add_formats_by_name":
                log.append(("formats", tuple(a)))
                return NONE
            if f.args[0] != DELTA:
                return NotImplemented
            checked = any(e[0] == "check" for e in log)
            log.append((name, tuple(a) + tuple(kw.values())))
            if name == "check":
                return NONE
            return param({"is_change": "C", "is_ignored": "G"}[name] + (
                "" if checked else "UNCHECKED"))
        return h

    def prints(I_, f, a, kw, node):
        """a[0]: the format"""
        cls = I_.obj(a[0]).cls if isinstance(a[0], Ref) else None
        log.append(("print", cls, (cls, kw.get("change", a[1] if a[1:]
                                               else None),
                                   I_.getattr(a[0], "options"))))
        return NONE
    H = {"report.ReportFormat.run": prints,
         "report.TextReportFormat.run_impl": prints,
         "report.JSONReportFormat.run_impl": prints, "new:report.Reporter": reporter}
    for n in ("check", "is_change", "is_ignored", "add_formats_by_name"):
        H["meth:" + n] = meth(n)
    for mod, fn, plain, report in CLIS:
        hooks = dict(H)
        hooks["new:" + plain] = new("plain")
        hooks["new:" + report] = new("report")
        name = "%s.%s" % (mod, fn)
        rules = ("exit-status", "checked-first", "output", "compares-inputs",
                 "reports")
        keys = {r: "%s:%s" % (name, r) for r in rules}
        with rep.guard(name, "analysed"):
            I.hooks = hooks
            snap = []

            def go():
                log[:] = []
                r = I.call(I.get(mod, fn), [OPT, LEFT, RIGHT], {})
                return Tup([r, Const(tuple(log))])
            for r in rules:
                rep.ok(keys[r], r)
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(keys["exit-status"], "exit-status",
                            "raises %s" % show(p.val), p.loc)
                    continue
                judge(I, rep, keys, p, mod, DELTA, RPT)
            rep.ok(name, "analysed")
    commands(rep, I)
    rep.cover(I)
    rep.expect = 4


def truth(I, p, t):
    return gram.known(I, p.st, ops.cond_truth(t))


def judge(I, rep, keys, p, mod, DELTA, RPT):
    ret, lg = p.val.items[0], p.val.items[1].v

    def bad(r, text):
        rep.bad(keys[r], r, text, p.loc)
    ret = nrm(I, p.st, ret)
    unknown = [n for n in ("CUNCHECKED", "GUNCHECKED")
               if truth(I, p, param(n)) is not None]
    checks = [i for i, e in enumerate(lg) if e[0] == "check"]
    if len(checks) != 1:
        bad("checked-first", "the comparison is checked %d times" %
            len(checks))
        return
    for e in lg[:checks[0]]:
        if e[0] in ("is_change", "is_ignored", "print"):
            bad("checked-first", "%s before the check" % e[0])
    if unknown:
        return
    for e in lg:
        if e[0] == "is_ignored" and e[1] != (OPT,):
            bad("exit-status", "is_ignored is asked about %s instead of the "
                "options" % ", ".join(map(show, e[1])))
    # exit status
    names = [param("C"), param("G")]
    ks = [truth(I, p, n) for n in names]
    for w in product((True, False), repeat=2):
        if any(k is not None and k != v for k, v in zip(ks, w)):
            continue
        want = 1 if w[0] and not w[1] else 0
        got = status(I, p, ret, w)
        if got is None:
            raise Undecided("status %s" % show(ret))
        if got != want:
            bad("exit-status", "returns %s if the comparison is %s and %s" % (
                got, "changed" if w[0] else "unchanged",
                "ignored" if w[1] else "not ignored"))
    # output
    silent, json = truth(I, p, opt("silent")), truth(I, p, opt("json"))
    prints = [e for e in lg if e[0] == "print"]
    for s in (True, False):
        if silent is not None and s != silent:
            continue
        if len(prints) != (0 if s else 1):
            bad("output", "the comparison is printed %d times %s" % (
                len(prints), "although silenced" if s else
                "without being silenced"))
        elif prints:
            a = prints[0][2]
            fmt = a[0]
            fmt = fmt.name if isinstance(fmt, Cls) else None
            if fmt is None:
                raise Undecided("format %s" % show(a[0]))
            if list(a[1:]) != [DELTA, OPT]:
                bad("output", "prints %s" % ", ".join(map(show, a[1:])))
            for j in (True, False):
                if json is not None and j != json:
                    continue
                want = "JSONReportFormat" if j else "TextReportFormat"
                if fmt != want:
                    bad("output", "prints with %s if JSON is %srequested" % (
                        fmt, "" if j else "not "))
    # inputs and reports
    news = [e for e in lg if e[0] == "new"]
    if len(news) != 1:
        bad("compares-inputs", "%d comparisons are made" % len(news))
        return
    _n, kind, args = news[0]
    if list(args[:2]) != [LEFT, RIGHT]:
        bad("compares-inputs", "compares %s" % ", ".join(map(show, args[:2])))
    has = gram.known(I, p.st, (Term("hasattr", OPT, "reports"), True))
    reps = truth(I, p, opt("reports"))
    if has is not False and mentioned(p, opt("reports")):
        raise Undecided("a condition on the reports requested")
    for h, r in product((True, False), repeat=2):
        if has is not None and has != h or reps is not None and reps != r:
            continue
        if has is None and reps is None:
            pass
        want = "report" if h and r else "plain"
        if not h and reps is not None and has is None:
            continue
        if kind != want:
            bad("reports", "%s written although reports were %srequested" % (
                "reports are" if kind == "report" else "no reports are",
                "" if want == "report" else "not "))
    if kind == "report":
        rp = [e for e in lg if e[0] == "reporter"]
        fm = [e for e in lg if e[0] == "formats"]
        if len(rp) != 1 or args[2:3] != (RPT,):
            raise Undecided("reporter")
        if [e[1] for e in fm] != [(opt("reports"),)] and [
                show(nrm(I, p.st, x)) for e in fm for x in e[1]] not in [
                    ["%s(%s, (*%s))" % (k, k, show(opt("reports")))]
                    for k in ("list", "tuple", "set")]:
            # copied, perhaps; which formats are written is for P37
            raise Undecided("the formats of the reports are %s" % ", ".join(
                show(nrm(I, p.st, x)) for e in fm for x in e[1]))
        a = rp[0][1]
        d = truth(I, p, opt("report_dir"))
        rdir = nrm(I, p.st, a[0])
        if len(a) != 3 or a[2] != OPT:
            raise Undecided("reporter arguments")
        if d is not False and rdir != opt("report_dir") and \
                not isinstance(rdir, Term):
            bad("reports", "reports are written to %s instead of the "
                "directory requested" % show(rdir))
        if d is False and rdir not in (Const("./"), Const("."), Const("")):
            bad("reports", "reports are written to %s by default" %
                show(rdir))
    elif mod == "distdiff":
        sh = nrm(I, p.st, args[2]) if len(args) > 2 else Const(False)
        if sh != opt("shallow"):
            bad("compares-inputs", "the depth of the comparison is %s" %
                show(sh))


def mentioned(p, t):
    """whether the path depends on t otherwise than by its truth"""
    return any(show(t) in show(c[0]) and c[0] != Term("truth", t)
               for c in p.path)


def status(I, p, ret, w):
    if isinstance(ret, Const) and isinstance(ret.v, (int, type(None))):
        return int(ret.v or 0)
    if isinstance(ret, Term):
        t = ret
        if t.op == "bool" or t.op == "truth":
            t = t.args[0]
        if t.op == "call" and isinstance(t.args[0], Ext) and \
                t.args[0].name in ("builtins.int", "builtins.bool"):
            return status(I, p, t.args[1][0], w)
        if t.op == "not":
            v = status(I, p, t.args[0], w)
            return None if v is None else int(not v)
        if t == param("C"):
            return int(w[0])
        if t == param("G"):
            return int(w[1])
    return None


def commands(rep, I):
    """main hands the two inputs on, in order, and returns the status"""
    from checks.p37 import World, CMDS
    W = World(I)
    saved = I.unroll
    I.unroll = 60
    for mod, plain, report in CMDS:
        key = "%s.main" % mod
        rule = "inputs-in-order"
        for c, g in product((True, False), repeat=2):
            with rep.guard("%s:%s%s" % (key, c, g), rule):
                W.outcome = c, g

                def go():
                    W.reset()
                    I.hooks = W.hooks((plain, report))
                    r = I.call(I.get(mod, "main"), [I.newlist(
                        [Const(x) for x in (mod, "L.x", "R.x")])], {})
                    return Tup([r, Const(tuple(W.made))])
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    r, made = p.val.items[0], p.val.items[1].v
                    want = int(c and not g)
                    if nrm(I, p.st, r) not in (Const(want),) + (
                            () if want else (NONE, Const(False))) + (
                            (Const(True),) if want else ()):
                        rep.bad(key, rule, "returns %s if the comparison is "
                                "%s and %s" % (
                                    show(r), "changed" if c else "unchanged",
                                    "ignored" if g else "not ignored"), p.loc)
                    if len(made) != 1:
                        raise Undecided("%d comparisons" % len(made))
                    got = [x.args[1][0] if isinstance(x, Term) and x.args[0]
                           == "class" else W.path(x) for x in made[0][1][:2]]
                    if got != ["/cwd/L.x", "/cwd/R.x"]:
                        rep.bad(key, rule, "compares %s" % " and ".join(got),
                                p.loc)
                rep.ok(key, rule)
    I.unroll = saved
    I.hooks = {}
