"""P20: text and JSON reports show the same parts."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ref, HInst, show
from sa import ops, gram, strs
from checks.p01 import nrm
from checks.p43 import items
from checks.ctree import param, Kids, worlds

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the report "
                 "formats over trees of symbolic changes and symbolic "
                 "options; every path is compared with the specification in "
                 "all worlds its conditions admit",
    "rule": "a part is reported exactly if it is changed and not ignored, "
            "changed and ignored parts are requested, or it is unchanged "
            "and unchanged parts are requested; parts follow their whole, "
            "in order, one level deeper; data given for a part is its own",
    "assumptions": ["deeper and wider trees are treated alike"],
}

OPT = Term("new", "OPTIONS")
SHOWS = ("show_ignored", "show_unchanged")


def opt(n):
    return Term("attr", OPT, n)


def optval(I, p, n):
    """value of an option on a path, which counts as unset if missing"""
    if gram.known(I, p.st, (Term("hasattr", OPT, n), True)) is False:
        return False
    return gram.known(I, p.st, ops.cond_truth(opt(n)))


def allworlds(I, p, names):
    oks = [optval(I, p, n) for n in SHOWS]
    for o in product((False, True), repeat=2):
        if any(k is not None and k != v for k, v in zip(oks, o)):
            continue
        for w in worlds(I, p, names):
            yield dict(zip(SHOWS, o)), w


def visible(o, w, i):
    if w["C%d" % i]:
        return not w["G%d" % i] or o["show_ignored"]
    return o["show_unchanged"]


def mentions(t, what):
    if t == what:
        return True
    if isinstance(t, Term):
        return any(mentions(x, what) for x in t.args)
    if isinstance(t, (tuple, list)):
        return any(mentions(x, what) for x in t)
    if isinstance(t, Tup):
        return any(mentions(x, what) for x in t.items)
    return False


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    text(rep, I, tier)
    json(rep, I, tier)
    encode(rep, I)
    sequences(rep, I)
    rep.cover(I)
    rep.expect = 10


def text(rep, I, tier):
    OUT = Term("new", "OUT")
    # roots and their parts
    trees = [{}, {0: [1]}, {0: [1, 2]}, {0: [1], 1: [2]}]
    if tier == "thorough":
        trees += [{0: [1, 2, 3]}, {0: [1, 2], 1: [3]}, {0: [1, 3], 1: [2]}]
    for tree in trees:
        n = 1 + sum(map(len, tree.values()))
        K = Kids(I, n, OPT, tree)
        key = "TextReportFormat:%s" % ",".join(
            "%d(%s)" % (a, " ".join(map(str, b)))
            for a, b in sorted(tree.items()))
        rule = "text-shows-visible-parts"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            out = []

            def write(I_, f, a, kw, node):
                if f.args[0] != OUT:
                    return NotImplemented
                out.append(I_.norm(a[0]))
                return NONE

            def go():
                K.reset()
                for i in range(n):
                    K.log.append(("check", i))
                out[:] = []
                r = I.call(I.get("report", "TextReportFormat"),
                           [NONE, OPT], {})
                I.call(I.getattr(r, "run"), [K.terms[0], NONE, OUT], {})
                return Const(tuple(out))
            I.hooks = K.hooks()
            I.hooks["meth:write"] = write
            I.hooks["meth:encode"] = I.hooks["meth:decode"] = coded
            names = ["C%d" % i for i in range(n)] + [
                "G%d" % i for i in range(n)]
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                lines = split(p.val.v, n)
                for o, w in allworlds(I, p, names):
                    want = expected(tree, o, w)
                    if want != lines:
                        rep.bad(key, rule, "prints %s instead of %s if %s" % (
                            descr(lines), descr(want), world(o, w)), p.loc)
                        break


def coded(I, f, a, kw, node):
    """of a text into bytes, and back"""
    v = f.args[0]
    if isinstance(v, Const):
        return NotImplemented
    c = [x.v if isinstance(x, Const) else None for x in a[:2]]
    e = kw.get("errors")
    if f.args[1] == "encode" and c and isinstance(c[0], str) and not \
            c[0].lower().startswith("u") and (
            (c + [None])[1] if e is None else e.v) in (None, "strict"):
        I.throw("UnicodeEncodeError", Const(c[0]))
    e = (c + [None])[1] if e is None else e.v
    if c and isinstance(c[0], str) and not c[0].lower().startswith("u") \
            and e in ("replace", "ignore"):
        return Term("lossy", v)
    return v


def flat(x):
    if isinstance(x, Term) and x.op == "cat":
        return [z for y in x.args for z in flat(y)]
    if isinstance(x, Term) and x.op == "strof":
        return flat(x.args[0])
    if isinstance(x, Term) and strs.structured(x):
        return strs.parts(x)
    return [x]


def split(out, n):
    """[(part, depth, marked)] of the lines written"""
    toks = []
    for x in out:
        ps = flat(x)
        for y in ps:
            if isinstance(y, str):
                y = Const(y)
            if isinstance(y, Const) and isinstance(y.v, str):
                if toks and isinstance(toks[-1], str):
                    toks[-1] += y.v
                else:
                    toks.append(y.v)
            else:
                toks.append(y)
    lines, cur = [], []
    for t in toks:
        if isinstance(t, str):
            pieces = t.split("\n")
            for k, piece in enumerate(pieces):
                if k:
                    lines.append(cur)
                    cur = []
                if piece:
                    cur.append(piece)
        else:
            cur.append(t)
    if cur:
        raise Undecided("unfinished line %s" % [show(x) if not isinstance(x, str) else x for x in toks][:4])
    res = []
    for l in lines:
        depth = 0
        if l and isinstance(l[0], str):
            if l[0].strip(" \t"):
                raise Undecided("line starts with %r" % l[0])
            depth = len(l[0])
            l = l[1:]
        if not l or isinstance(l[0], str):
            raise Undecided("line without a part")
        ds = [i for i in range(n) if mentions(l[0], param("D%d" % i))]
        rest = l[1:]
        if len(ds) != 1 or not all(isinstance(r, str) for r in rest):
            raise Undecided("line %s" % ", ".join(map(show, l)))
        lost = any(isinstance(t, Term) and t.op == "lossy" for t in l)
        res.append((-1 if lost else ds[0], depth, "ignored" in "".join(rest).lower()))
    # depth in units of the first indentation
    unit = min([d for _c, d, _m in res if d] or [1])
    return [(c, d // unit if d % unit == 0 else d, m) for c, d, m in res]


def expected(tree, o, w, i=0, depth=0):
    if not visible(o, w, i):
        return []
    r = [(i, depth, w["C%d" % i] and w["G%d" % i])]
    for j in tree.get(i, ()):
        r += expected(tree, o, w, j, depth + 1)
    return r


def descr(lines):
    return "; ".join("%s at depth %d%s" % (
        "part %d" % c if c >= 0 else "a part without some letters", d, " marked as ignored" if m else "")
        for c, d, m in lines) or "nothing"


def world(o, w):
    return ", ".join(("" if v else "not ") + k for k, v in
                     sorted(list(o.items()) + list(w.items())))


def json(rep, I, tier):
    rule = "json-shows-visible-parts"
    for n in range(4 if tier == "thorough" else 3):
        K = Kids(I, n, OPT)
        key = "SuperChange.simplify:%d" % n
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = K.hooks()

            def go():
                K.reset()
                for i in range(n):
                    K.log.append(("check", i))
                o = I.syminst(I.get("change", "SuperChange"), "CHANGE",
                              attrs={"changed": Const(True),
                                     "entry": NONE,
                                     "ldata": NONE, "rdata": NONE,
                                     "changes": Tup(K.terms)})
                d = I.call(I.getattr(o, "simplify"), [OPT], {})
                return I.call(I.getattr(d, "__getitem__"),
                              [Const("children")], {})
            names = ["C%d" % i for i in range(n)] + [
                "G%d" % i for i in range(n)]
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [nrm(I, p.st, x) for x in items(I, p, p.val)]
                for o, w in allworlds(I, p, names):
                    want = [K.terms[i] for i in range(n) if visible(o, w, i)]
                    if got != want:
                        rep.bad(key, rule, "gives the parts %s instead of %s "
                                "if %s" % (", ".join(map(show, got)),
                                           ", ".join(map(show, want)),
                                           world(o, w)), p.loc)
                        break
    # the data of each kind of change
    rule = "json-describes-the-change"
    for n in ("Change", "GenericChange", "SuperChange", "Addition",
              "Removal"):
        key = "%s.simplify" % n
        with rep.guard(key, rule):
            rep.ok(key, rule)
            C, E = param("C"), param("E")
            add, rem = n == "Addition", n == "Removal"

            def go2():
                c = I.get("change", n)
                attrs = {
                    "changed": C, "entry": E, "description": param("D"),
                    "ldata": param("L"), "rdata": param("R"),
                    "label": param("LABEL")}
                if n == "SuperChange":
                    attrs["changes"] = Tup([])
                o = I.syminst(c, "CHANGE", attrs=attrs)
                d = I.call(I.getattr(o, "simplify"), [OPT], {})
                ks = ["class", "is_change", "description", "label",
                      "is_ignored", "is_addition", "is_removal", "entry",
                      "old_data", "new_data"]
                g = I.getattr(d, "get")
                return Tup([Tup([Const(k), I.call(g, [
                    Const(k), Const("*missing")], {})]) for k in ks])
            I.hooks = {}
            for p in I.run(go2):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                d = {x.items[0].v: nrm(I, p.st, x.items[1])
                     for x in p.val.items}
                none = Const("*missing")
                e = gram.known(I, p.st, ops.cond_truth(E))
                want = {"label": [param("LABEL")],
                        "is_change": [Const(True)] if add or rem else [C],
                        "is_addition": [Const(True)] if add else [
                            none, Const(False)],
                        "is_removal": [Const(True)] if rem else [
                            none, Const(False)]}
                if e is not None:
                    want["entry"] = [E] if e else [none, E]
                if n == "GenericChange":
                    want["old_data"] = [param("L")]
                    want["new_data"] = [param("R")]
                    for k, t in (("old_data", "L"), ("new_data", "R")):
                        if gram.known(I, p.st, (Term(
                                "isnone", param(t)), True)):
                            want[k] = [none, NONE]
                if gram.known(I, p.st, ops.cond_truth(param("D"))):
                    want["description"] = [param("D")]
                if gram.known(I, p.st, ops.cond_truth(OPT)) is not False \
                        and n != "SuperChange":
                    want["is_ignored"] = [Const(False)]
                for k, vs in want.items():
                    if d[k] not in vs and not (
                            k == "is_change" and d[k] == Term("bool", C)):
                        rep.bad(key, rule, "%s is %s instead of %s" % (
                            k, show(d[k]), show(vs[0])), p.loc)


def sequences(rep, I):
    """sequences are encoded with their items in order"""
    key = "JSONChangeEncoder.default of a sequence"
    rule = "sequences-encoded-in-order"
    items = [Term("new", "item", (i,)) for i in range(3)]
    for kind in ("gen", "tuple", "keys"):
        with rep.guard("%s (%s)" % (key, kind), rule):
            def go():
                e = I.syminst(I.get("report", "JSONChangeEncoder"), "ENC",
                              open_=True, attrs={"options": OPT})
                x = I.newlist(items, "gen") if kind == "gen" else \
                    Tup(items)
                if kind == "keys":
                    d = I.newdict()
                    for i in items:
                        I.setitem(d, i, NONE)
                    x = I.call(I.getattr(d, "keys"), [], {})
                r = I.call(I.getattr(e, "default"), [x], {})
                got = I.known_items(r)
                if got is None:
                    raise Undecided("sequence encoded")
                return Tup(got)
            I.hooks = {"hasattr": lambda I_, o, n: False
                       if n == "simplify" else NotImplemented}
            bad = None
            for p in I.run(go):
                if p.kind == "raise":
                    bad = "raises %s" % show(p.val), p.loc
                elif list(p.val.items) != items:
                    bad = "encodes %s instead of %s" % (
                        show(p.val), show(Tup(items))), p.loc
            if bad:
                rep.bad("%s (%s)" % (key, kind), rule, *bad)
            else:
                rep.ok("%s (%s)" % (key, kind), rule)


def encode(rep, I):
    """the encoder resolves parts under the options of the report"""
    key = "JSONChangeEncoder.default"
    rule = "parts-encoded-under-options"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        PART = Term("new", "part")

        def simp(I_, f, a, kw, node):
            if f.args[0] != PART:
                return NotImplemented
            return Term("param", "simple " + ", ".join(
                map(show, list(a) + list(kw.values()))))

        def go():
            e = I.syminst(I.get("report", "JSONChangeEncoder"), "ENC",
                          open_=True, attrs={"options": OPT})
            return I.call(I.getattr(e, "default"), [PART], {})
        I.hooks = {"meth:simplify": simp,
                   "hasattr": lambda I_, o, n: True if o == PART and
                   n == "simplify" else NotImplemented}
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            v = nrm(I, p.st, p.val)
            if v != param("simple " + show(OPT)):
                rep.bad(key, rule, "a part is encoded as %s" % show(v), p.loc)
