"""P03: every constant kind can be dereferenced and rendered."""

from sa.interp import Interp, Undecided, term_mentions
from sa.values import (Const, Term, Tup, Ref, NONE, Rep, Item, Many, HList,
                       show)
from sa import ops, jvms, gram
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "for each constant kind, with symbolic entry values and symbolic "
            "index: dereferencing gives the components in order, rendering "
            "succeeds and mentions every component in order, class names and "
            "descriptors in their readable form; the listing operations visit "
            "each index from one on once, with the entry's own tag",
    "assumptions": ["the descriptor renderers are decided by P10"],
}

IDX = Term("param", "IDX")
CP = Term("param", "cp")
CONSTS = Term("attr", CP, "consts")
RAW1 = (1, 3, 4, 5, 6)          # the value itself
REF1 = (7, 8, 16, 19, 20)       # one referenced entry
REF2 = (9, 10, 11, 12)          # two referenced entries
IDX2 = (15, 17, 18)             # a number and a referenced entry


def cv(k, *n):
    return Term("cv", k, *n)


def value(tag, k):
    lay = jvms.POOL_LAYOUT.get(tag) if tag else None
    if tag and lay and len(lay) == 2:
        return Tup([cv(k, 0), cv(k, 1)])
    return cv(k) if tag else NONE


def deref(t):
    return Term("deref", t)


def setup(I, tag, direct=False):
    def h_index(I, t, k):
        if t == CONSTS:
            return Tup([Const(tag), value(tag, k)])
        return NotImplemented

    def h_deref(I, f, a, kw, n):
        i = I.norm(a[1] if len(a) > 1 else list(kw.values())[0])
        if direct and i == IDX:
            return NotImplemented
        return deref(i)

    def opq(name):
        return lambda I, f, a, kw, n: Term(name, I.norm(a[0]))

    def h_isinst(I, v, c):
        return NotImplemented
    I.hooks = {"index": h_index, "JavaConstantPool.deref_const": h_deref,
               "_pretty_type": opq("ptype"),
               "_pretty_typeseq": opq("ptypeseq"),
               "_typeseq": opq("ptypeseq"),
               "_typeseq_iter": opq("ptypeseq"),
               "_pretty_class": opq("pclass")}


def mk(I):
    return I.syminst(I.get("", "JavaConstantPool"), CP, open_=True)


def order(t, subs):
    """the subterms in the order of their first occurrence"""
    out = []

    def walk(x):
        for s in subs:
            if x == s:
                if s not in out:
                    out.append(s)
                return
        for y in kids(x):
            walk(y)

    walk(t)
    return out


def kids(x):
    if isinstance(x, Tup):
        return x.items
    if isinstance(x, Term):
        return x.args
    if isinstance(x, (tuple, list)):
        return x
    if isinstance(x, Item):
        return (x.v,)
    if isinstance(x, Many):
        return (x.t,)
    if isinstance(x, Rep):
        return tuple(a for _c, a in x.alts)
    return ()


def raw_in(t, sub):
    """sub is inserted in the text as it is"""
    def walk(x):
        if isinstance(x, Term):
            if x.op == "strof" and x.args[0] == sub:
                return True
            if x.op == "cat":
                return any(y == sub or walk(y) for y in kids(x))
        if isinstance(x, tuple):
            return any(y == sub or walk(y) for y in x)
        return False
    return t == sub or walk(t)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    # -- deref
    rule = "deref-components"
    for tag in sorted(jvms.POOL_TAGS):
        nm = jvms.POOL_TAGS[tag]
        key = "deref:" + nm
        with rep.guard(key, rule):
            setup(I, tag, True)
            ps = I.run(lambda: I.call(I.getattr(mk(I), "deref_const"),
                                      [IDX], {}))
            v = value(tag, IDX)
            want = v if tag in RAW1 else deref(v) if tag in REF1 else \
                Tup([deref(v.items[0]), deref(v.items[1])]) \
                if tag in REF2 else Tup([v.items[0], deref(v.items[1])])
            okz = False
            for p in ps:
                z = gram.known(I, p.st, ops.cond_truth(IDX))
                if p.kind == "raise":
                    if z is not False:
                        rep.bad(key, rule, "dereferencing a %s constant "
                                "raises %s" % (nm, show(p.val)), p.loc)
                    continue
                if z is False:
                    rep.bad(key, rule, "index 0 can be dereferenced")
                    continue
                got = nrm(I, p.st, p.val)
                okz = True
                if got != want and isinstance(got, Ref) is False and not \
                        decidable(got):
                    raise Undecided("value %s" % show(got))
                rep.check(got == want, key, rule, "a %s constant "
                          "dereferences to %s, should be %s" % (
                              nm, show(got), show(want)))
            if not okz:
                rep.bad(key, rule, "no %s constant can be dereferenced" % nm)
    # -- zero
    # -- pretty_const
    rule = "raw-rendering"
    names = {}
    for tag in sorted(jvms.POOL_TAGS):
        nm = jvms.POOL_TAGS[tag]
        key = "pretty:" + nm
        with rep.guard(key, rule):
            setup(I, tag)
            v = value(tag, IDX)
            parts = list(v.items) if isinstance(v, Tup) else [v]
            for p in I.run(lambda: I.call(I.getattr(mk(I), "pretty_const"),
                                          [IDX], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "rendering a %s constant raises %s" % (
                        nm, show(p.val)), p.loc)
                    continue
                got = nrm(I, p.st, p.val)
                if not isinstance(got, Tup) or len(got.items) != 2:
                    raise Undecided(show(got))
                tn = got.items[0]
                if isinstance(tn, Const):
                    o = names.setdefault(tn.v, nm)
                    if o != nm:
                        rep.bad(key, rule, "kind %s is rendered as %r like "
                                "%s" % (nm, tn.v, o))
                        continue
                    if not tn.v:
                        rep.bad(key, rule, "kind %s has no name" % nm)
                        continue
                ord_ = order(got.items[1], parts)
                rep.check(ord_ == parts, key, rule, "a %s constant is "
                          "rendered as %s" % (nm, show(got.items[1])))
    # -- pretty_deref_const
    rule = "deref-rendering"
    for tag in sorted(jvms.POOL_TAGS):
        nm = jvms.POOL_TAGS[tag]
        key = "pretty-deref:" + nm
        with rep.guard(key, rule):
            setup(I, tag)
            v = value(tag, IDX)
            if tag in RAW1:
                parts, dots, descs = [v], [], []
            elif tag in REF1:
                parts = [deref(v)]
                dots, descs = (parts if tag == 7 else []), []
            elif tag == 12:
                parts = [deref(v.items[0]), deref(v.items[1])]
                dots, descs = [], [parts[1]]
            elif tag in REF2:
                nt = deref(v.items[1])
                parts = [deref(v.items[0]), Term("index", nt, Const(0)),
                         Term("index", nt, Const(1))]
                dots, descs = [parts[0]], [parts[2]]
            else:
                parts = [v.items[0], deref(v.items[1])]
                dots = descs = []
            for p in I.run(lambda: I.call(
                    I.getattr(mk(I), "pretty_deref_const"), [IDX], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "rendering the value of a %s constant "
                            "raises %s" % (nm, show(p.val)), p.loc)
                    continue
                got = nrm(I, p.st, p.val)
                ord_ = order(got, parts)
                if ord_ != parts:
                    rep.bad(key, rule, "the value of a %s constant is "
                            "rendered as %s; parts %s" % (
                                nm, show(got), ", ".join(map(show, ord_))))
                    continue
                for d in dots + descs:
                    if raw_in(got, d):
                        rep.bad(key, rule, "the value of a %s constant shows "
                                "an internal name or descriptor: %s" % (
                                    nm, show(got)))
                        break
                else:
                    rep.ok(key, rule)
    # unusable slots
    rule = "unusable-slot"
    for what in ("pretty_const", "pretty_deref_const"):
        key = "unusable:" + what
        with rep.guard(key, rule):
            setup(I, None)
            for p in I.run(lambda: I.call(I.getattr(mk(I), what), [IDX],
                                          {})):
                rep.check(p.kind != "raise", key, rule, "%s of an unusable "
                          "index raises" % what, p.loc)
    # -- listings
    rule = "pool-listing"
    for what in ("constants", "pretty_constants"):
        for tag in [None] + sorted(jvms.POOL_TAGS):
            nm = jvms.POOL_TAGS.get(tag, "unusable")
            key = "%s:%s" % (what, nm)
            with rep.guard(key, rule):
                setup(I, tag)
                for p in I.run(lambda: I.call(I.getattr(mk(I), what), [],
                                              {})):
                    listing(rep, I, key, rule, p, tag, nm, what)
    # the same for a pool with some entries and an unusable index
    for what in ("constants", "pretty_constants"):
        key = "%s: of four entries" % what
        with rep.guard(key, rule):
            setup(I, 3)
            del I.hooks["index"]
            V = [Term("val", x) for x in "abc"]
            es = [(None, NONE), (5, V[0]), (None, NONE), (3, V[1]),
                  (1, V[2])]
            for p in I.run(lambda: Tup(I.known_items(I.call(I.getattr(
                    I.syminst(I.get("", "JavaConstantPool"), "p", attrs={
                        "consts": Tup([Tup([Const(t), v]) for t, v in es])}),
                    what), [], {})))):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [nrm(I, p.st, x) for x in p.val.items]
                if not all(isinstance(x, Tup) and len(x.items) == 3 and
                           isinstance(x.items[0], Const) for x in got):
                    raise Undecided("listing %s" % show(p.val))
                ix = [x.items[0].v for x in got]
                rep.check(ix == [1, 3, 4], key, rule, "lists the entries %s "
                          "of a pool with the entries 1, 3 and 4" % ix)
    rep.cover(I)
    rep.expect = 60


def decidable(t):
    return not term_mentions(t, lambda x: isinstance(x, Term) and
                             x.op in ("call", "fresh", "phi"))


def listing(rep, I, key, rule, p, tag, nm, what):
    if p.kind == "raise":
        rep.bad(key, rule, "%s raises %s" % (what, show(p.val)), p.loc)
        return
    saved = I.st
    I.st = p.st
    try:
        segs = I.segs_of(p.val)
    finally:
        I.st = saved
    if tag is None:
        if not segs:
            rep.ok(key, rule)
        else:
            got = [s for s in segs if isinstance(s, (Rep, Item))]
            if len(got) != len(segs):
                raise Undecided("listing %s" % segs)
            rep.bad(key, rule, "%s lists unusable indices" % what)
        return
    if not segs:
        rep.bad(key, rule, "%s does not list %s constants" % (what, nm))
        return
    if len(segs) != 1 or not isinstance(segs[0], Rep):
        raise Undecided("listing %s" % segs)
    r = segs[0]
    for c, items in r.alts:
        vals = [x.v for x in items if isinstance(x, Item)]
        if len(vals) != 1 or len(items) != 1:
            rep.bad(key, rule, "%s lists a %s constant %d times" % (
                what, nm, len(vals)))
            return
        v = nrm(I, p.st, vals[0])
        if not isinstance(v, Tup) or len(v.items) != 3:
            raise Undecided(show(v))
        idx = v.items[0]
        n = I.count_of(r.iter)
        # indices start at one and end before the length
        base = ops.ladd(idx, Const(-1)) if is_idx(I, idx, -1) else None
        if base is None:
            if is_idx(I, idx, 0):
                rep.bad(key, rule, "%s starts at index 0" % what)
                return
            raise Undecided("index %s" % show(idx))
        ln = ops.ladd(n, Const(1))
        if not (isinstance(ln, Term) and ln.op in ("call", "len") and
                term_mentions(ln, lambda x: x == CONSTS)):
            d = n
            if term_mentions(n, lambda x: x == CONSTS):
                rep.bad(key, rule, "%s lists %s entries" % (what, show(n)))
                return
            raise Undecided("count %s" % show(n))
        if what == "constants":
            if v.items[1] != Const(tag):
                rep.bad(key, rule, "tag is reported as %s" % show(
                    v.items[1]))
                return
            if v.items[2] != deref(idx):
                if decidable(v.items[2]):
                    rep.bad(key, rule, "value is %s" % show(v.items[2]))
                    return
                raise Undecided("value %s" % show(v.items[2]))
        else:
            val = value(tag, idx)
            parts = list(val.items) if isinstance(val, Tup) else [val]
            if order(v.items[2], parts) != parts:
                rep.bad(key, rule, "value is %s" % show(v.items[2]))
                return
    rep.ok(key, rule)


def is_idx(I, t, add):
    x = ops.ladd(t, Const(add)) if add else t
    return isinstance(x, Term) and x.op == "num" and x.args and \
        x.args[0] == "idx"
