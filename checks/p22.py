"""P22: squashed changes keep what reports need."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ref, HInst, HList, Item, \
    show
from sa import ops, gram
from checks.p01 import nrm
from checks.p43 import items
from checks.ctree import param, Kids, worlds, strays

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of squashing and "
                 "of the report-writing comparisons over symbolic changes, "
                 "which are distinguished by whether they have been checked "
                 "or cleared when asked",
    "rule": "a squashed change has the label, description, entry, outcome "
            "and class of the original, its ignoredness under the options "
            "of the squashing, and is an addition or removal exactly if that "
            "is; all of it is taken before the original is cleared; "
            "report-writing comparisons have the outcome and parts of the "
            "plain ones, with sub-reports squashed in place",
    "assumptions": ["more parts are treated alike"],
}

OPT = Term("new", "OPTIONS")


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    base = len(I.base.path)
    squash(rep, I)
    squash_children(rep, I, base, tier)
    reports(rep, I, base, tier)
    wholes(rep, I, base)
    rep.cover(I)
    rep.expect = 8


def kindhook(I, K, kinds):
    """isinstance for the symbolic children of some classes"""
    def h(I_, v, c, *r):
        if isinstance(v, Term) and v in K.terms:
            k = kinds[K.terms.index(v)]
            if isinstance(c, Cls) and isinstance(k, Cls):
                return c in k.mro
        return NotImplemented
    return h


def squash(rep, I):
    rule = "squashed-like-the-original"
    for n in ("Change", "Removal", "Addition"):
        K = Kids(I, 1, OPT)
        kinds = [I.get("change", n)]
        T = K.terms[0]
        key = "squash:%s" % n
        with rep.guard(key, rule):
            rep.ok(key, rule)
            H = K.hooks()
            H["isinstance"] = kindhook(I, K, kinds)

            def attr(I_, o, a):
                if o == T:
                    return param("%s0%s" % (a, K.state(0)))
                return NotImplemented
            for a in ("label", "entry"):
                H["attr:" + a] = attr
            if n != "Change":
                H["meth:is_change"] = lambda I_, f, a, kw, node: Const(
                    True) if f.args[0] == T else NotImplemented
            H["hasattr"] = lambda I_, o, a: True if o == T and a == "entry" \
                else NotImplemented
            I.hooks = H

            def go():
                K.reset()
                K.log.append(("check", 0))
                s = I.call(I.get("change", "squash"), [T],
                           {"options": OPT})
                K.log.append(("clear", 0))
                call = lambda m, *a: I.call(I.getattr(s, m), list(a), {})
                d = call("simplify", OPT)
                get = lambda k: I.call(I.getattr(d, "get"), [
                    Const(k), Const("*missing")], {})
                return Tup([
                    I.getattr(s, "label"), call("get_description"),
                    I.getattr(s, "entry"), call("is_change"),
                    call("is_ignored", OPT), call("is_ignored", param("X")),
                    get("label"), get("is_change"), get("is_ignored"),
                    get("description"), I.getattr(s, "origclass"),
                    Const(bool(I.cond(I.isinst(s, I.get("change",
                                                        "Removal"))))),
                    Const(bool(I.cond(I.isinst(s, I.get("change",
                                                        "Addition"))))),
                    call("collect")])
            names = ("label", "description", "entry", "change", "ignored",
                     "ignored", "label in JSON", "change in JSON",
                     "ignored in JSON", "description in JSON", "class",
                     "removal", "addition")
            C = param("C0") if n == "Change" else Const(True)
            D, G = param("D0"), param("G0")
            want = [param("label0"), D, param("entry0"), C, G, G,
                    param("label0"), C, G, D, None, Const(n == "Removal"),
                    Const(n == "Addition")]
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                vals = list(p.val.items)
                if items(I, p, vals.pop()):
                    rep.bad(key, rule, "a squashed change has parts")
                d = gram.known(I, p.st, ops.cond_truth(D))
                for nm, v, w in zip(names, vals, want):
                    v = nrm(I, p.st, v)
                    if w is None:
                        if "child" not in show(v):
                            raise Undecided("class %s" % show(v))
                        continue
                    if w == D and d is False:
                        continue
                    if v == w or isinstance(v, Term) and v.op == "bool" and \
                            v.args[0] == w:
                        continue
                    if isinstance(v, Const) and isinstance(v.v, bool) and \
                            isinstance(w, Term) and \
                            gram.known(I, p.st, ops.cond_truth(w)) == v.v:
                        continue
                    rep.bad(key, rule, "%s is %s instead of %s" % (
                        nm, show(v), show(w)), p.loc)


def squash_children(rep, I, base, tier):
    rule = "children-squashed-in-place"
    for n in range(4 if tier == "thorough" else 3):
        K = Kids(I, n, OPT)
        key = "SuperChange.squash_children:%d" % n
        with rep.guard(key, rule):
            rep.ok(key, rule)
            H = K.hooks()
            H["change.squash"] = squashhook(K)
            I.hooks = H

            def go():
                K.reset()
                for i in range(n):
                    K.log.append(("check", i))
                o = I.syminst(I.get("change", "SuperChange"), "CHANGE",
                              attrs={"changed": Const(True), "entry": NONE,
                                     "changes": Tup(K.terms)})
                I.call(I.getattr(o, "squash_children"), [OPT], {})
                return Tup([I.call(I.getattr(o, "collect"), [], {}),
                            Const(tuple(K.log))])
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [nrm(I, p.st, x) for x in items(I, p, p.val.items[0])]
                want = [Term("new", "squashed", (i, OPT, "")) for i in
                        range(n)]
                if got != want:
                    rep.bad(key, rule, "leaves %s instead of %s" % (
                        ", ".join(map(show, got)), ", ".join(
                            map(show, want))), p.loc)


def squashhook(K):
    """squash as a function of the child, the options and the state"""
    def h(I_, f, a, kw, node):
        t = a[0]
        if t not in K.terms:
            raise Undecided("squashing %s" % show(t))
        i = K.terms.index(t)
        o = kw.get("options", a[2] if len(a) > 2 else NONE)
        return Term("new", "squashed", (i, o, K.state(i)))
    return h


def reports(rep, I, base, tier):
    """JarContentsReport and DistReport, with single process"""
    sub = Term("new", "subreporter")
    cases = [
        ("jardiff", "JarContentsReport", "jardiff.JarContentsChange",
         ["JarClassChange"], ["JarClassReport"],
         ["JarManifestChange", "JarContentAdded", "JarClassRemoved"]),
        ("distdiff", "DistReport", "distdiff.DistChange",
         ["DistClassChange", "DistJarChange"],
         ["DistClassReport", "DistJarReport"],
         ["DistTextChange", "DistContentRemoved", "DistJarAdded"]),
    ]
    for mod, cname, parent, plain, deep, others in cases:
        mixes = [[(p, d)] for p, d in zip(plain, deep)] + [
            [(o, None)] for o in others] + [
            [(plain[0], deep[0]), (others[0], None)],
            [(others[1], None), (plain[-1], deep[-1])],
            [(plain[0], deep[0]), (plain[-1], deep[-1])], []]
        if tier == "thorough":
            mixes += [[(others[2], None), (plain[0], deep[0]),
                       (others[1], None)]]
        for mix in mixes:
            one_report(rep, I, base, mod, cname, parent, mix)


def wholes(rep, I, base):
    """a comparison which is reported is so once it has been made, whatever
    its outcome"""
    rule = "comparison-is-reported"
    REP = Term("new", "REPORTER")
    for mod, cname, part, parent in (
            ("classdiff", "JavaClassReport", "ClassInfoChange",
             "change.SuperChange"),
            ("jardiff", "JarReport", "JarTypeChange", "change.SuperChange"),
            ("distdiff", "DistReport", "DistTextChange",
             "distdiff.DistChange")):
        key = "%s:reported" % cname
        with rep.guard(key, rule):
            K = Kids(I, 2, OPT)
            kind = I.get(mod, part)
            H = K.hooks()
            H["isinstance"] = kindhook(I, K, [kind, kind])
            H["ext:builtins.type"] = lambda I_, f, a, kw, node: kind if len(
                a) == 1 and a[0] in K.terms else NotImplemented
            given = []

            def collects(I_, f, a, kw, node):
                given.append(tuple(nrm(I_, I_.st, I_.call(I_.getattr(
                    a[0], m), [], {})) for m in ("get_ldata", "get_rdata")))
                return I_.alloc(HList("gen", [Item(x) for x in K.terms]))
            H[parent + ".collect_impl"] = collects

            def attr(I_, o, a):
                if o == REP and a == "options":
                    return OPT
                if o == OPT:
                    return Const(0 if a == "processes" else False)
                return NotImplemented
            for a in ("options", "processes", "shallow"):
                H["attr:" + a] = attr
            runs = []

            def run_(I_, f, a, kw, node):
                if f.args[0] != REP:
                    return NotImplemented
                c = a[0] if a else kw.get("change")
                cs = [e[1] for e in K.log if e[0] == "check"]
                runs.append((c, Const(tuple(cs))))
                return NONE
            H["meth:run"] = run_
            I.hooks = H

            def go():
                K.reset()
                runs[:] = []
                given[:] = []
                o = I.call(I.get(mod, cname), [param("LEFT"), param("RIGHT"),
                                               REP], {})
                I.call(I.getattr(o, "check"), [], {})
                c = I.truth(I.call(I.getattr(o, "is_change"), [], {}))
                return Const((bool(c), tuple(
                    (r[0] == o, r[1].v) for r in runs), tuple(given)))
            bad, n = None, 0
            for p in I.run(go):
                n += 1
                if p.kind == "raise":
                    bad = "raises %s" % show(p.val), p.loc
                    continue
                out, rs, gs = p.val.v
                if [g for g in gs if g != (param("LEFT"), param("RIGHT"))]:
                    bad = "compares other things than those given", p.loc
                elif len(rs) != 1:
                    bad = "is reported %d times if %schanged" % (
                        len(rs), "" if out else "not "), p.loc
                elif not rs[0][0]:
                    bad = "reports something else", p.loc
                elif sorted(rs[0][1]) != [0, 1]:
                    bad = "is reported after checking %d of 2 parts" % len(
                        set(rs[0][1])), p.loc
            if bad:
                rep.bad(key, rule, *bad)
            elif not n:
                rep.und(key, rule, "no path")
            else:
                rep.ok(key, rule)


def one_report(rep, I, base, mod, cname, parent, mix):
    n = len(mix)
    K = Kids(I, 2 * n, OPT)     # the parts, and the reports of them
    kinds = [I.get(mod, a) for a, _b in mix] + [
        I.get(mod, b or a) for a, b in mix]
    key = "%s:%s" % (cname, " ".join(a for a, _b in mix) or "none")
    rule = "report-has-the-outcome-of-the-comparison"
    REP = Term("new", "REPORTER")
    made = []
    with rep.guard(key, rule):
        rep.ok(key, rule)
        H = K.hooks()
        H["isinstance"] = kindhook(I, K, kinds)
        H["ext:builtins.type"] = lambda I_, f, a, kw, node: kinds[
            K.terms.index(a[0])] if len(a) == 1 and a[0] in K.terms \
            else NotImplemented
        H["change.squash"] = squashhook(K)
        H[parent + ".collect_impl"] = lambda I_, f, a, kw, node: I_.alloc(
            HList("gen", [Item(x) for x in K.terms[:n]]))

        def is_change(I_, f, a, kw, node):
            i = K.index(f)
            if i is None:
                return NotImplemented
            # a part knows that it is changed before it is checked
            j = i % n
            if mix[j][0].endswith(("Added", "Removed")):
                return Const(True)
            if i < n and ("check", i) not in K.log:
                return param("E%d" % i)
            return param("C%d%s" % (i, K.state(i)))
        H["meth:is_change"] = is_change

        def attr(I_, o, a):
            if o in K.terms:
                return param("%s%d" % (a, K.terms.index(o)))
            if o == REP and a == "options":
                return OPT
            return NotImplemented
        for a in ("entry", "ldata", "rdata", "options"):
            H["attr:" + a] = attr
        H["attr:processes"] = lambda I_, o, a: Const(0) if o == OPT \
            else NotImplemented
        H["attr:shallow"] = lambda I_, o, a: Const(False) if o == OPT \
            else NotImplemented
        subs = []

        def subreporter(I_, f, a, kw, node):
            if f.args[0] != REP:
                return NotImplemented
            t = Term("new", "subreporter", (tuple(map(I_.norm, a)),))
            return t
        H["meth:subreporter"] = subreporter
        for j, (a, b) in enumerate(mix):
            if b:
                def new(I_, f, args, kw, node, b=b):
                    args = tuple(map(I_.norm, args))
                    taken = [m[0] for m in made]
                    free = [j for j, (_x, y) in enumerate(mix)
                            if y == b and j not in taken]
                    named = [j for j in free if param("entry%d" % j) in args]
                    for j in named or free:
                        made.append((j, args))
                        return K.terms[n + j]
                    made.append((None, ()))
                    return Term("new", "stray")
                H["new:%s.%s" % (mod, b)] = new
        zips = []

        def opened(I_, f, a, kw, node):
            return Term("new", "zip", tuple(map(I_.norm, a)))
        H["ziputils.open_zip"] = opened
        I.hooks = H
        L, R = param("LEFT"), param("RIGHT")

        def go():
            K.reset()
            made[:] = []
            o = I.call(I.get(mod, cname), [L, R, REP], {})
            r = I.call(I.getattr(o, "check_impl"), [], {})
            c = I.known_items(r)[0]
            return Tup([Const(bool(I.truth(c))),
                        I.call(I.getattr(o, "collect"), [], {}),
                        Const(tuple(K.log)), Const(tuple(made))])
        names = ["E%d" % i for i in range(n)] + ["C%d" % i for i in
                                                 range(2 * n)]
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            out, parts, log, mk = p.val.items
            log = log.v
            if strays(p, base):
                rep.bad(key, rule, "depends on %s" % ", ".join(
                    strays(p, base)), p.loc)
                continue
            got = [nrm(I, p.st, x) for x in items(I, p, parts)]
            for w in worlds(I, p, names):
                want, outcome = [], False
                checked = []
                for j, (a, b) in enumerate(mix):
                    if b and w["E%d" % j]:
                        # written as a report of its own
                        checked.append(n + j)
                        outcome = outcome or w["C%d" % (n + j)]
                        want.append(Term("new", "squashed", (n + j, OPT, "")))
                    else:
                        checked.append(j)
                        outcome = outcome or w["C%d" % j] or \
                            a.endswith(("Added", "Removed"))
                        want.append(K.terms[j])
                if out.v != outcome:
                    rep.bad(key, rule, "the outcome is %s instead of %s with "
                            "%s" % (out.v, outcome, w), p.loc)
                if sorted(map(show, got)) != sorted(map(show, want)):
                    rep.bad(key, rule, "the parts are %s instead of %s" % (
                        ", ".join(map(show, got)), ", ".join(map(
                            show, want))), p.loc)
                cs = [e[1] for e in log if e[0] == "check"]
                if sorted(cs) != sorted(checked):
                    rep.bad(key, rule, "checks the parts %s instead of %s" % (
                        cs, checked), p.loc)
                for j, args in mk.v:
                    if j is None or not w["E%d" % j]:
                        rep.bad(key, rule, "writes a report of an unchanged "
                                "part", p.loc)
                        continue
                    e = param("entry%d" % j)
                    if list(args[:3]) != [param("ldata%d" % j),
                                          param("rdata%d" % j), e]:
                        rep.bad(key, rule, "a report is made of %s" %
                                ", ".join(map(show, args[:3])), p.loc)
                    s = args[3] if len(args) > 3 else NONE
                    if not (isinstance(s, Term) and s.op == "new" and
                            s.args[0] == "subreporter"):
                        raise Undecided("reporter %s" % show(s))
                    if s.args[1][0][0] != e:
                        rep.bad(key, rule, "the report of a part is written "
                                "for %s" % show(s.args[1][0][0]), p.loc)
