"""P14: the provided and required API of a class."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, show
from sa import ops, orders
from sa.strs import sname
from checks.p01 import nrm

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over constant "
                 "pools of known shape and symbolic names",
    "rule": "get_provides gives the class and the members selected, the "
            "public ones or all, whichever was asked for before; get_requires "
            "gives for each class, field and method reference of the pool "
            "the referenced API, arrays reduced to their element class, "
            "without what the class itself provides and nothing for other "
            "constants; an entry is left out exactly if a pattern matches it",
    "assumptions": ["the constants of a pool are treated alike wherever they "
                    "stand, members likewise"],
}

FORBIDDEN = ";[().,:<> /*?!]"


def cat(*ps):
    return ops.cat([Const(p) if isinstance(p, str) else p for p in ps])


def nm(x):
    """a name: those with different x are different"""
    return cat(x + "_", sname(x, FORBIDDEN))


class Pool(object):
    def __init__(self):
        self.items = [Tup([NONE, NONE])]

    def add(self, tag, v):
        self.items.append(Tup([Const(tag), v]))
        return Const(len(self.items) - 1)

    def utf(self, s):
        return self.add(1, Const(s) if isinstance(s, str) else s)

    def cls(self, s):
        return self.add(7, self.utf(s))

    def nat(self, n, d):
        return self.add(12, Tup([self.utf(n), self.utf(d)]))

    def ref(self, tag, c, n, d):
        return self.add(tag, Tup([self.cls(c), self.nat(n, d)]))

    def build(self, I):
        cp = I.call(I.get("", "JavaConstantPool"), [], {})
        I.setattr(cp, "consts", Tup(self.items))
        return cp


def member(I, pool, cp, method, name, desc, flags):
    m = I.call(I.get("", "JavaMemberInfo"), [cp],
               {"is_method": Const(method)})
    I.setattr(m, "name_ref", pool.utf(name))
    I.setattr(m, "descriptor_ref", pool.utf(desc))
    I.setattr(m, "access_flags", flags)
    I.setattr(cp, "consts", Tup(pool.items))
    return m


def klass(I, pool, cp, this, fields, methods):
    o = I.call(I.get("", "JavaClassInfo"), [], {})
    for k, v in (("cpool", cp), ("this_ref", this), ("fields", Tup(fields)),
                 ("methods", Tup(methods))):
        I.setattr(o, k, v)
    return o


def listing(I, p, v):
    I.st = p.st
    xs = I.known_items(nrm(I, p.st, v)) if not isinstance(v, Tup) else v.items
    if xs is None:
        xs = I.known_items(v)
    if xs is None:
        raise Undecided("result %s" % show(v))
    return [nrm(I, p.st, x) for x in xs]


THIS = cat(nm("PKG"), "/", nm("THIS"))
ME = cat(nm("PKG"), ".", nm("THIS"))
OTHER = cat(nm("QKG"), "/", nm("OTHER"))
OTHERP = cat(nm("QKG"), ".", nm("OTHER"))


def provides(I, rep):
    rule = "provides-selected-members"
    for n, bits_ in enumerate(product((0, 1), repeat=4)):
        for order in ((False,), (True,), (False, True), (True, False),
                      (False, False)):
            if len(order) == 2 and n not in (0b0110, 0b1001):
                continue
            key = "provides:%s:%s" % (
                "".join(map(str, bits_)), "+".join(
                    "private" if x else "public" for x in order))
            with rep.guard(key, rule):
                rep.ok(key, rule)
                pool = Pool()
                this = pool.cls(THIS)

                def go():
                    cp = pool.build(I)
                    ms = [member(I, pool, cp, i >= 2, nm("m%d" % i),
                                 "(I)J" if i >= 2 else "I", ops.bits(
                                     "F%d" % i, 1, b))
                          for i, b in enumerate(bits_)]
                    o = klass(I, pool, cp, this, ms[:2], ms[2:])
                    return Tup([I.call(I.getattr(o, "get_provides"), [],
                                       {"private": Const(x)})
                                for x in order])
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    for x, v in zip(order, p.val.items):
                        got = listing(I, p, v)
                        want = [ME]
                        for i, b in enumerate(bits_):
                            if b or x:
                                want.append(cat(
                                    ME, ".", nm("m%d" % i), ":int")
                                    if i < 2 else cat(
                                        ME, ".", nm("m%d" % i),
                                        "(int):long"))
                        diff(rep, key, rule, got, want, "get_provides("
                             "private=%s)" % x)


def diff(rep, key, rule, got, want, what):
    for w in want:
        if w not in got:
            rep.bad(key, rule, "%s lacks %s, has %s" % (
                what, show(w), ", ".join(map(show, got))[:200]))
            return
    for g in got:
        if g not in want:
            rep.bad(key, rule, "%s contains %s" % (what, show(g)))
            return
        if got.count(g) > 1:
            rep.bad(key, rule, "%s contains %s twice" % (what, show(g)))
            return


def arr(n, c):
    return cat("[" * n, "L", c, ";")


CASES = [
    ("class", lambda p: p.cls(OTHER), [OTHERP]),
    ("class:default-package", lambda p: p.cls(nm("X")), [nm("X")]),
    ("class:own", lambda p: None, []),
    ("field", lambda p: p.ref(9, OTHER, nm("f"), "I"),
     [OTHERP, cat(OTHERP, ".", nm("f"), ":int")]),
    ("field:array", lambda p: p.ref(9, OTHER, nm("f"), "[[J"),
     [OTHERP, cat(OTHERP, ".", nm("f"), ":long[][]")]),
    ("method", lambda p: p.ref(10, OTHER, nm("f"), "(I)V"),
     [OTHERP, cat(OTHERP, ".", nm("f"), "(int):void")]),
    ("interface-method", lambda p: p.ref(11, OTHER, nm("f"), "()V"),
     [OTHERP, cat(OTHERP, ".", nm("f"), "():void")]),
    ("field:own", lambda p: p.ref(9, THIS, nm("of"), "I"), []),
    ("field:own:private", lambda p: p.ref(9, THIS, nm("pf"), "I"), []),
    ("method:own", lambda p: p.ref(10, THIS, nm("om"), "(I)V"), []),
    ("method:own:private", lambda p: p.ref(10, THIS, nm("pm"), "()V"), []),
    ("field:inherited", lambda p: p.ref(9, THIS, nm("inh"), "I"),
     [cat(ME, ".", nm("inh"), ":int")]),
    ("method:inherited", lambda p: p.ref(10, THIS, nm("om"), "(II)V"),
     [cat(ME, ".", nm("om"), "(int,int):void")]),
    ("string", lambda p: p.add(8, p.utf(nm("s"))), []),
    ("utf8", lambda p: p.utf(nm("s")), []),
    ("int", lambda p: p.add(3, Term("num", "N")), []),
    ("float", lambda p: p.add(4, Term("num", "N")), []),
    ("name-and-type", lambda p: p.nat(nm("s"), "I"), []),
    ("method-handle", lambda p: p.add(15, Tup([Const(1), p.ref(
        9, OTHER, nm("f"), "I")])),
     [OTHERP, cat(OTHERP, ".", nm("f"), ":int")]),
    ("method-type", lambda p: p.add(16, p.utf("(I)V")), []),
    ("invokedynamic", lambda p: p.add(18, Tup([Const(0), p.nat(
        nm("s"), "(I)V")])), []),
]
for _n in (1, 2, 3):
    CASES.append(("class:array%d" % _n, lambda p, n=_n: p.cls(
        arr(n, OTHER)), [OTHERP]))
    CASES.append(("class:own-array%d" % _n, lambda p, n=_n: p.cls(
        arr(n, THIS)), []))
    for _b in "BCDFIJSZ":
        CASES.append(("class:%s-array%d" % (_b, _n), lambda p, n=_n, b=_b:
                      p.cls("[" * n + b), []))
    CASES.append(("method:of-array%d" % _n, lambda p, n=_n: p.ref(
        10, arr(n, OTHER), "clone", "()Ljava/lang/Object;"), [OTHERP]))
    CASES.append(("method:of-int-array%d" % _n, lambda p, n=_n: p.ref(
        10, "[" * n + "I", "clone", "()Ljava/lang/Object;"), []))


def double(p):
    p.add(5, Term("num", "N"))
    p.items.append(Tup([NONE, NONE]))
    p.cls(OTHER)


CASES.append(("after-long", double, [OTHERP]))


def requires(I, rep):
    rule = "requires-referenced-api"

    def built(fill):
        pool = Pool()
        this = pool.cls(THIS)
        fill(pool)

        def make():
            cp = pool.build(I)
            n = len(pool.items)
            fs = [member(I, pool, cp, False, nm("of"), "I", Const(1)),
                  member(I, pool, cp, False, nm("pf"), "I", Const(2))]
            ms = [member(I, pool, cp, True, nm("om"), "(I)V", Const(1)),
                  member(I, pool, cp, True, nm("pm"), "()V", Const(2))]
            o = klass(I, pool, cp, this, fs, ms)
            del n
            return o
        return make
    total, seen = [], []
    for name, fill, want in CASES + [("all", lambda p: [
            f(p) for _n, f, _w in CASES], None)]:
        key = "requires:" + name
        with rep.guard(key, rule):
            rep.ok(key, rule)
            if want is None:
                want = total
            else:
                total.extend(w for w in want if w not in total)
            make = built(fill)

            def go():
                o = make()
                return Tup([I.call(I.getattr(o, "get_requires"), [], {})
                            for _i in (1, 2)])
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                a, b = (listing(I, p, v) for v in p.val.items)
                diff(rep, key, rule, a, want, "get_requires()")
                diff(rep, key, rule, b, want, "the second get_requires()")


def ignoring(I, rep):
    rule = "ignored-by-pattern"
    P = [nm("PAT1"), nm("PAT2")]
    for meth in ("get_provides", "get_requires"):
        for npat in (1, 2):
            key = "%s:ignored:%d" % (meth, npat)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                pool = Pool()
                this = pool.cls(THIS)
                pool.cls(OTHER)
                pool.cls(nm("X"))

                def go():
                    cp = pool.build(I)
                    m = member(I, pool, cp, False, nm("of"), "I", Const(1))
                    o = klass(I, pool, cp, this, [m], [])
                    r1 = I.call(I.getattr(o, meth), [Tup(P[:npat])], {})
                    r2 = I.call(I.getattr(o, meth), [], {})
                    return Tup([r1, r2])
                allof = {"get_provides": [ME, cat(ME, ".", nm("of"),
                                                  ":int")],
                         "get_requires": [OTHERP, nm("X")]}[meth]
                base = len(I.base.path)
                matched = set()
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    known = {}
                    for c, b in orders.conds(p, base):
                        hits = [(e, q) for e in allof for q in P[:npat]
                                if c.op == "truth" and in_order(c, e, q)]
                        if len(hits) == 1:
                            known[hits[0]] = b
                        elif c.op == "truth" and not any(
                                mentions(c, q) for q in P):
                            raise Undecided("condition %s" % show(c))
                    got = listing(I, p, p.val.items[0])
                    for e in allof:
                        ms = [known.get((e, q)) for q in P[:npat]]
                        want = None if True not in ms and None in ms \
                            else True not in ms
                        matched.add((e, want))
                        if want is None:
                            if e in got:
                                rep.bad(key, rule, "%s is given although not "
                                        "all patterns were tried" % show(e))
                            else:
                                rep.bad(key, rule, "%s is left out without "
                                        "matching a pattern" % show(e))
                        elif want != (e in got):
                            rep.bad(key, rule, "%s %s a pattern but is %s" % (
                                show(e), "matches" if not want else
                                "does not match", "given" if not want else
                                "left out"))
                    diff(rep, key, rule, listing(I, p, p.val.items[1]),
                         allof, "the unfiltered %s()" % meth)


def walk(t):
    yield t
    for a in t.items if isinstance(t, Tup) else t if isinstance(
            t, tuple) else t.args if isinstance(t, Term) else ():
        for x in walk(a):
            yield x


def in_order(t, a, b):
    """b occurs behind a"""
    w = list(walk(t))
    return a in w and b in w[w.index(a):]


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, Tup):
        return any(mentions(a, x) for a in t.items)
    if isinstance(t, tuple):
        return any(mentions(a, x) for a in t)
    return isinstance(t, Term) and any(mentions(a, x) for a in t.args)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 60
    I.MAXREC = 8
    provides(I, rep)
    requires(I, rep)
    ignoring(I, rep)
    rep.cover(I)
    rep.expect = 70
