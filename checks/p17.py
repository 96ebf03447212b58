"""P17: the semantics of change trees."""

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, Ref, NONE, HList, Item, show
from sa import ops, gram
from checks.ctree import Kids, worlds, strays, param
from checks.p43 import items
from checks.p01 import nrm

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over changes with "
                 "symbolic children; every path is compared with the "
                 "specification in all worlds its conditions admit",
    "rule": "a composite change with up to three (thorough: four) children "
            "is changed exactly if one of them is, ignored exactly if it is "
            "changed and all changed children are ignored, checks each child "
            "once, and creates them once with left and right data; a generic "
            "change is changed exactly if its data differs; additions and "
            "removals are changes; grouping by type keeps all and the order",
    "assumptions": ["changes with more children are treated alike"],
}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    base = len(I.base.path)
    N = 5 if tier == "thorough" else 4
    S = I.get("change", "SuperChange")
    OPT = param("OPTIONS")
    LD, RD = param("LDATA"), param("RDATA")

    def make(kids):
        o = I.call(S, [LD, RD], {})
        I.setattr(o, "change_types", kids.types())
        return o
    # composite changes
    for n in range(N):
        K = Kids(I, n, OPT)
        names = ["C%d" % i for i in range(n)] + ["G%d" % i for i in range(n)]

        def go(what):
            K.reset()
            o = make(K)
            I.call(I.getattr(o, "check"), [], {})
            if what == "is_change":
                r = I.call(I.getattr(o, "is_change"), [], {})
            elif what == "is_ignored":
                r = I.call(I.getattr(o, "is_ignored"), [OPT], {})
            else:
                I.call(I.getattr(o, "is_change"), [], {})
                I.call(I.getattr(o, "is_ignored"), [OPT], {})
                c = I.call(I.getattr(o, "collect"), [], {})
                d = I.call(I.getattr(o, "collect"), [], {})
                return Tup([c, d, Tup([Tup([
                    Const(K.count("check", i)),
                    Const(K.count("make", i))] + [
                        Tup([Const(len(e[2]))] + list(e[2]))
                        for e in K.log if e[:2] == ("make", i)])
                    for i in range(n)])])
            return Const(bool(I.truth(r)))
        for what in ("is_change", "is_ignored"):
            key = "SuperChange.%s:%d" % (what, n)
            rule = "composite-" + what
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = K.hooks()
                for p in I.run(lambda: go(what)):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    if strays(p, base):
                        rep.bad(key, rule, "depends on %s" % ", ".join(
                            strays(p, base)), p.loc)
                    for w in worlds(I, p, names):
                        cs = [i for i in range(n) if w["C%d" % i]]
                        want = bool(cs)
                        if what == "is_ignored":
                            want = want and all(w["G%d" % i] for i in cs)
                        if p.val.v != want:
                            rep.bad(key, rule, "%s is %s with children %s" % (
                                what, p.val.v, ", ".join(
                                    "%s=%s" % x for x in sorted(w.items()))))
                            break
        key = "SuperChange.collect:%d" % n
        rule = "children-created-and-checked-once"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = K.hooks()
            for p in I.run(lambda: go("collect")):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                c, d, counts = p.val.items
                for x in (c, d):
                    got = [nrm(I, p.st, y) for y in items(I, p, x)]
                    if got != K.terms:
                        rep.bad(key, rule, "collect gives %s" % ", ".join(
                            map(show, got)))
                for i, x in enumerate(counts.items):
                    ch, mk = x.items[0].v, x.items[1].v
                    if ch != 1:
                        rep.bad(key, rule, "child %d of %d is checked %d "
                                "times" % (i, n, ch))
                    if mk != 1:
                        rep.bad(key, rule, "child %d of %d is created %d "
                                "times" % (i, n, mk))
                    for y in x.items[2:]:
                        if list(y.items[1:]) != [LD, RD]:
                            rep.bad(key, rule, "child %d is created from %s" %
                                    (i, ", ".join(map(show, y.items[1:]))))
        # no second collecting, also if there was nothing to collect
        key = "SuperChange.collect-once:%d" % n
        rule = "collected-once"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            calls = []

            def impl(I_, f, a, kw, node):
                calls.append(1)
                return I_.alloc(HList("gen", [Item(x) for x in K.terms]))
            I.hooks = K.hooks()
            I.hooks["change.SuperChange.collect_impl"] = impl

            def go2():
                K.reset()
                calls[:] = []
                o = make(K)
                I.call(I.getattr(o, "check"), [], {})
                c1 = len(calls)
                I.call(I.getattr(o, "is_ignored"), [OPT], {})
                c = I.call(I.getattr(o, "collect"), [], {})
                c2 = len(calls)
                d = I.call(I.getattr(o, "collect"), [], {"force": Const(
                    True)})
                return Tup([Const(c1), Const(c2), Const(len(calls)), c, d])
            for p in I.run(go2):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                c1, c2, c3 = [x.v for x in p.val.items[:3]]
                if c1 != 1 or c2 != 1:
                    rep.bad(key, rule, "%d children are collected %d times "
                            "by check and %d times later on" % (
                                n, c1, c2 - c1))
                if c3 != c2 + 1:
                    rep.bad(key, rule, "force does not collect anew")
                for x in p.val.items[3:]:
                    if [nrm(I, p.st, y) for y in items(I, p, x)] != K.terms:
                        rep.bad(key, rule, "collect gives other children")
        # clear
        key = "SuperChange.clear:%d" % n
        rule = "clear-reaches-children"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = K.hooks()

            def go3():
                K.reset()
                o = make(K)
                I.call(I.getattr(o, "check"), [], {})
                I.call(I.getattr(o, "clear"), [], {})
                return Tup([I.getattr(o, "ldata"), I.getattr(o, "rdata")] + [
                    Const(K.count("clear", i)) for i in range(n)])
            for p in I.run(go3):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                if any(x != NONE for x in p.val.items[:2]):
                    rep.bad(key, rule, "data is kept")
                for i, x in enumerate(p.val.items[2:]):
                    if x.v < 1:
                        rep.bad(key, rule, "child %d of %d is not cleared" %
                                (i, n))
    # generic changes
    G = I.get("change", "GenericChange")
    rule = "generic-change"

    def side(name):
        def h(I_, f, a, kw, node):
            return Term("dataof", name, a[-1])
        return h
    for how in ("default", "data", "differ"):
        key = "GenericChange.check:" + how
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = {}
            lt, rt = LD, RD
            if how != "default":
                I.hooks["change.GenericChange.fn_data"] = side("data")
                I.hooks["change.GenericChange.fn_pretty"] = side("pretty")
                lt, rt = Term("dataof", "data", LD), Term("dataof", "data", RD)
            asked = []
            if how == "differ":
                def h_differ(I_, f, a, kw, node):
                    asked.append(tuple(a[-2:]))
                    return param("DIFFER")
                I.hooks["change.GenericChange.fn_differ"] = h_differ

            def go4():
                asked[:] = []
                o = I.call(G, [LD, RD], {})
                I.call(I.getattr(o, "check"), [], {})
                r = I.call(I.getattr(o, "is_change"), [], {})
                return Tup([Const(bool(I.truth(r))), I.call(I.getattr(
                    o, "get_ldata"), [], {}), I.call(I.getattr(
                        o, "get_rdata"), [], {}), Tup([
                            Tup(list(x)) for x in asked])])
            seen = set()
            for p in I.run(go4):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                r, a, b, qs = p.val.items
                seen.add(r.v)
                if (nrm(I, p.st, a), nrm(I, p.st, b)) not in (
                        (lt, rt), (rt, lt) if gram.known(
                            I, p.st, ops.cond_eq(lt, rt)) else (lt, rt)):
                    rep.bad(key, rule, "left and right data are %s and %s" %
                            (show(a), show(b)))
                if how == "differ":
                    k = gram.known(I, p.st, ops.cond_truth(param("DIFFER")))
                    for q in qs.items:
                        if list(q.items) != [lt, rt]:
                            rep.bad(key, rule, "compares %s and %s" % tuple(
                                map(show, q.items)))
                else:
                    k = gram.known(I, p.st, ops.cond_eq(lt, rt))
                    k = None if k is None else not k
                if k is None or k != r.v:
                    rep.bad(key, rule, "changed is %s where the data is %s" %
                            (r.v, "unknown" if k is None else
                             "different" if k else "equal"))
            if seen != {True, False}:
                rep.bad(key, rule, "always %s" % seen)
    # unconditional changes and the base class
    rule = "change-kinds"
    for cls in ("Addition", "Removal", "SquashedAddition", "Change"):
        if cls == "SquashedAddition":
            continue
        key = cls + ".is_change"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = {}

            def go5():
                o = I.call(I.get("change", cls), [LD, RD], {})
                r0 = I.call(I.getattr(o, "is_change"), [], {})
                I.call(I.getattr(o, "check"), [], {})
                return Tup([r0, I.call(I.getattr(o, "is_change"), [], {}),
                            I.call(I.getattr(o, "is_ignored"), [OPT], {}),
                            I.call(I.getattr(o, "collect"), [], {}),
                            I.call(I.getattr(o, "get_ldata"), [], {}),
                            I.call(I.getattr(o, "get_rdata"), [], {})])
            for p in I.run(go5):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                a, b, g, c, l, r = p.val.items
                want = Const(cls != "Change")
                if a != want or b != want:
                    rep.bad(key, rule, "is_change is %s and after the check "
                            "%s" % (show(a), show(b)))
                if g != Const(False):
                    rep.bad(key, rule, "is_ignored is %s" % show(g))
                if items(I, p, c):
                    rep.bad(key, rule, "has children")
                if (l, r) != (LD, RD):
                    rep.bad(key, rule, "left and right data are %s and %s" %
                            (show(l), show(r)))
    # grouping
    rule = "grouping-by-type"
    kinds = {"A": "Addition", "R": "Removal", "G": "GenericChange"}
    from itertools import product
    for pat in product("ARG", repeat=3):
        key = "iterate_by_type:" + "".join(pat)
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = {}

            def go6():
                os_ = [I.call(I.get("change", kinds[k]), [
                    param("L%d" % i), RD], {}) for i, k in enumerate(pat)]
                r = I.call(I.get("change", "iterate_by_type"), [
                    I.alloc(HList("list", [Item(o) for o in os_])),
                    Tup([I.get("change", "Removal"),
                         I.get("change", "Addition")])], {})
                return Tup(list(map(lambda o: I.getattr(o, "ldata"),
                                    I.known_items(r))))
            for p in I.run(go6):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [x.args[0] for x in p.val.items]
                want = ["L%d" % i for k in "RAG" for i in range(3)
                        if pat[i] == k]
                if got != want:
                    rep.bad(key, rule, "gives %s for kinds %s" % (
                        got, "".join(pat)))
    rep.cover(I)
    rep.expect = 40
