"""P44: members are looked up by name, argument types and bridge flag."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, HList, Item, NONE, show
from sa import ops
from checks.p01 import nrm
from checks.p14 import Pool, nm, member, klass
from checks.p43 import items

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over classes "
                 "whose members have symbolic names and flag words",
    "rule": "for all combinations of three members with equal or different "
            "name, argument types and bridge bit, each lookup gives exactly "
            "the members specified, in class order, whether the types are "
            "passed as tuple or list",
    "assumptions": ["classes with more members are searched alike"],
}

ARGS = {0: "()V", 1: "(I[J)V"}
TYPES = {0: (), 1: ("I", "[J")}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 40
    I.MAXREC = 8
    rule = "lookup-by-name-and-type"

    def build(pool, this, spec, method):
        cp = pool.build(I)
        ms = []
        for i, (same, a, bridge) in enumerate(spec):
            ms.append(member(
                I, pool, cp, method, nm("want") if same else nm("other"),
                ARGS[a] if method else "I",
                ops.bits("F%d" % i, 0x40, 0x40 if bridge else 0)))
        return klass(I, pool, cp, this, [] if method else ms,
                     ms if method else []), ms

    def judge(key, spec, method, ask, want, one):
        with rep.guard(key, rule):
            rep.ok(key, rule)
            pool = Pool()
            this = pool.cls(nm("THIS"))
            held = []

            def go():
                o, ms = build(pool, this, spec, method)
                held[:] = ms
                return ask(o)
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    return
                if one:
                    got = [] if p.val == NONE else [p.val]
                else:
                    got = items(I, p, p.val)
                idx = [held.index(g) if g in held else "?" for g in got]
                w = want[:1] if one else want
                if idx != w:
                    rep.bad(key, rule, "finds member %s, should find %s, of "
                            "members %s" % (idx, w, ", ".join(
                                "(%s name, %s types%s)" % (
                                    "same" if s else "other",
                                    "same" if a else "other",
                                    ", bridge" if b else "")
                                for s, a, b in spec)))
                    return

    def meth(name, *args):
        return lambda o: I.call(I.getattr(o, name), list(args), {})
    WANT = nm("want")
    for spec in product((0, 1), repeat=3):
        s = [(x, 0, 0) for x in spec]
        judge("get_field_by_name:%d%d%d" % spec, s, False,
              meth("get_field_by_name", WANT),
              [i for i in range(3) if spec[i]], True)
        judge("get_methods_by_name:%d%d%d" % spec,
              [(x, i % 2, i == 1) for i, x in enumerate(spec)], True,
              meth("get_methods_by_name", WANT),
              [i for i in range(3) if spec[i]], False)
    kinds = list(product((0, 1), repeat=3))
    for n, spec in enumerate(product(kinds, repeat=3)):
        if tier != "thorough" and spec[0] > spec[2] and n % 3:
            continue
        tag = "-".join("%d%d%d" % k for k in spec)
        for form in ("tuple", "list"):
            def types(o, name, form=form):
                ts = [Const(t) for t in TYPES[1]]
                a = Tup(ts) if form == "tuple" else I.alloc(HList("list", [Item(t) for t in ts]))
                return I.call(I.getattr(o, name), [WANT, a], {})
            if form == "list" and n % 7:
                continue
            for name, br in (("get_method", 0), ("get_method_bridges", 1)):
                judge("%s:%s:%s" % (name, form, tag), spec, True,
                      lambda o, name=name: types(o, name),
                      [i for i, k in enumerate(spec) if k == (1, 1, br)],
                      not br)
    for name, br in (("get_method", 0), ("get_method_bridges", 1)):
        spec = ((1, 1, br), (1, 0, br), (1, 0, 1 - br))
        judge(name + ":no-types", spec, True, meth(name, WANT), [1], not br)
    rep.cover(I)
    rep.expect = 300
