"""P13: annotations are read, compared and rendered by their tags."""

from sa.interp import Interp, Undecided, term_mentions
from sa.values import (Const, Ext, Term, Tup, Ref, NONE, Item, Rep, HList, HDict,
                       show)
from sa import ops, reader, gram
from sa.gram import V, Mismatch
from checks.p01 import nrm, att, I_store, h_deref, deref

META = {
    "level": "proof",
    "rule": "for every element_value tag of JVMS 4.7.16.1 the structure read "
            "is the one of that tag, nested values recursively, and is stored "
            "with its tag under the element's name; two annotations compare "
            "equal exactly if type, element names, tags and the referenced "
            "constants, each resolved in its own pool, are equal; every tag "
            "can be rendered and its references occur in the text",
    "assumptions": ["the primitive read operations deliver consecutive "
                    "bytes (P06)"],
}

CONSTTAGS = "BCDFIJSZs"
TAGS = CONSTTAGS + "ec@["


def h_nested(outer):
    """only the outermost annotation is read from source"""
    def hook(I, f, a, kw, node):
        if a[0] == outer["sym"]:
            return NotImplemented
        I.emit("anno", I.norm(a[1]), [I.norm(a[0])], node=node)
        return NONE
    return hook


def tag_of(I, st, t):
    """tag known on the path"""
    for c in TAGS:
        if gram.known(I, st, ops.cond_eq(t, Const(ord(c)))) is True:
            return c
    return None


def split_value(I, p, g, pos, depth):
    """match one element_value at g[pos:]; (tag, fields, new position)"""
    if pos >= len(g) or g[pos][0] != "u" or g[pos][1] not in "Bb":
        if pos < len(g) and g[pos][0] == "x" and g[pos][1] == "call":
            return None, None, len(g)
        raise Mismatch("no tag is read for a value, but %s" % reader.shape(
            g[pos:]))
    t = g[pos][2]
    c = tag_of(I, p.st, t)
    pos += 1
    if c is None:
        # the tag has been refuted for all known ones: must not go on
        raise Mismatch("a value is accepted without regard to its tag")
    if c in CONSTTAGS or c == "c":
        want = ["H"]
    elif c == "e":
        want = ["H", "H"]
    elif c == "@":
        if pos >= len(g) or g[pos][0] != "x" or g[pos][1] != "anno":
            raise Mismatch("tag '@': no annotation is read")
        return c, [g[pos][2]], pos + 1
    else:
        if pos + 1 >= len(g) or g[pos][:2] != ("u", "H"):
            raise Mismatch("tag '[': no u2 count is read")
        n = g[pos][2]
        x = g[pos + 1]
        if x[0] != "*":
            raise Mismatch("tag '[': no values are read")
        if x[1] is None:
            raise Undecided("count of values")
        if x[1] != n:
            raise Mismatch("tag '[': %s values are read instead of %s" % (
                show(x[1]), show(n)))
        for q, alt in x[2]:
            if q.kind == "raise":
                continue
            _c, _f, e = split_value(I, q, alt, 0, depth + 1)
            if e != len(alt):
                raise Mismatch("tag '[': reads %s after a value" %
                               reader.shape(alt[e:]))
        return c, [n, x], pos + 2
    fs = []
    for w in want:
        if pos >= len(g) or g[pos][0] != "u" or g[pos][1] != w:
            raise Mismatch("tag %r: %s is read instead of %s" % (
                c, reader.shape(g[pos:pos + 1]) or "nothing", " ".join(want)))
        fs.append(g[pos][2])
        pos += 1
    return c, fs, pos


def reading(rep, prog):
    rule = "element-value-layout"
    I = Interp(prog).load_all()
    outer = {}
    I.hooks = reader.hooks(**{"JavaConstantPool.deref_const": h_deref,
                              "JavaAnnotation.unpack": h_nested(outer),
                              "meth:deref_const": lambda I_, f, a, kw, n:
                              deref(I_.norm(a[0]))})
    U = Term("param", "U")
    cls = I.get("", "JavaAnnotation")

    def go():
        o = I.call(cls, [Term("param", "CP")], {})
        outer["sym"] = o
        I.call(I.getattr(o, "unpack"), [reader.mkup(I, U)], {})
        return o
    seen = set()
    key = "annotation:read"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        for p in I.run(go):
            g = reader.grammar(I, p.events, U, ("anno", "call"))
            if p.kind == "raise":
                continue
            if [x[:2] for x in g[:2]] != [("u", "H")] * 2 or len(g) != 3 or \
                    g[2][0] != "*":
                rep.bad(key, rule, "an annotation is read as %s" %
                        reader.shape(g))
                continue
            t, n, lp = g[0][2], g[1][2], g[2]
            v = nrm(I, p.st, att(I, p.st, p.val, "type_ref"))
            if v != t:
                rep.bad(key, rule, "type_ref is %s, should be %s" % (
                    show(v), show(t)))
            if lp[1] is None:
                raise Undecided("count of elements")
            if lp[1] != n:
                rep.bad(key, rule, "%s elements are read instead of %s" % (
                    show(lp[1]), show(n)))
            for q, alt in lp[2]:
                try:
                    if not alt or alt[0][:2] != ("u", "H"):
                        raise Mismatch("no element name is read")
                    c, fs, e = split_value(I, q, alt, 1, 0)
                    if e != len(alt):
                        raise Mismatch("reads %s after a value" %
                                       reader.shape(alt[e:]))
                except Mismatch as m:
                    rep.bad(key, rule, str(m))
                    continue
                seen.add(c)
            stored(rep, I, key, rule, p, g, lp)
    for c in TAGS:
        rep.check(c in seen, "annotation:tag:" + c, "element-value-tags",
                  "an element value with tag %r is not accepted" % c)
    rep.cover(I)


def stored(rep, I, key, rule, p, g, lp):
    """the dictionary content made by the loop"""
    d = I_store(I, p.st, p.val)
    h = p.st.heap.get(d.addr) if d is not None else None
    if not isinstance(h, HDict) or h.entries or len(h.reps) != 1:
        raise Undecided("content of the annotation")
    for cond, ents in h.reps[0].alts:
        if len(ents) != 1:
            rep.bad(key, rule, "%d elements are stored per element read if "
                    "%s" % (len(ents), ", ".join(
                        "%s%s" % ("" if b else "not ", show(c))
                        for c, b in cond)))
            continue
        k, v = ents[0]
        k = nrm(I, p.st, k)
        # find the reading alternative with the same condition
        for q, alt in lp[2]:
            if set(repr(c) for c in cond) == set(
                    repr((x[0], x[1])) for x in q.path
                    if isinstance(x[0], Term)):
                break
        else:
            q, alt = None, None
        names = [alt[0][2]] if alt else [x[2] for _q, a in lp[2]
                                         for x in a[:1]]
        if k not in [deref(x) for x in names]:
            rep.bad(key, rule, "an element is stored as %s" % show(k))
        if alt is None:
            continue
        c, fs, _e = split_value(I, q, alt, 1, 0)
        saved = I.st
        I.st = p.st
        try:
            items = I.known_items(v)
        finally:
            I.st = saved
        if items is None or len(items) != 2:
            raise Undecided("stored value %s" % show(nrm(I, p.st, v)))
        tg, data = nrm(I, p.st, items[0]), nrm(I, p.st, items[1])
        t = alt[1][2]
        if tg not in (Term("chr1", t), Const(c), t):
            rep.bad(key, rule, "the stored tag is %s for %r" % (show(tg), c))
        if c in CONSTTAGS or c == "c":
            ok = data == fs[0]
        elif c == "e":
            it = data.items if isinstance(data, Tup) else None
            if it is None:
                raise Undecided("stored enum value %s" % show(data))
            ok = list(it) == fs
        elif c == "@":
            ok = data == fs[0].args[0]
        else:
            continue
        if not ok:
            rep.bad(key, rule, "the stored value for tag %r is %s, should be "
                    "%s" % (c, show(data), ", ".join(show(x) if not hasattr(
                        x, "args") or isinstance(x, Term) else "it"
                        for x in fs)))


# -- comparison and rendering ---------------------------------------------

def pool_deref(I, f, a, kw, node):
    return Term("in", "pool", I.norm(a[0]), I.norm(a[1])) \
        if False else Term("const_of", I.norm(a[0]), I.norm(a[1]))


class Side(object):
    def __init__(self, I, name):
        self.I, self.name = I, name

    def pool(self):
        return self.I.syminst(self.I.get("", "JavaConstantPool"),
                              "CP" + self.name)

    def ref(self, n):
        return Term("num", self.name + n)

    def const(self, n):
        return Term("const_of", Term("param", "CP" + self.name),
                    self.ref(n))

    def anno(self, tname, entries):
        I = self.I
        cp = self.pool()
        o = I.call(I.get("", "JavaAnnotation"), [cp], {})
        I.setattr(o, "type_ref", self.ref(tname))
        for k, v in entries:
            I.setitem(o, Const(k), self.value(v))
        return o

    def value(self, v):
        """v: (tag, payload): payload names"""
        tag, d = v
        if tag == "e":
            return Tup([Const(tag), Tup([self.ref(x) for x in d])])
        if tag == "@":
            return Tup([Const(tag), self.anno(d[0], d[1])])
        if tag == "[":
            return Tup([Const(tag), self.I.newlist(
                [self.value(x) for x in d])])
        return Tup([Const(tag), self.ref(d)])


def refs(entries):
    """reference names of a list of (key, value)"""
    out = []
    for _k, v in entries:
        out.extend(vrefs(v))
    return out


def vrefs(v):
    tag, d = v
    if tag == "e":
        return list(d)
    if tag == "@":
        return [d[0]] + refs(d[1])
    if tag == "[":
        return [r for x in d for r in vrefs(x)]
    return [d]


def samples():
    out = []
    for c in CONSTTAGS + "c":
        out.append((c, (c, "v")))
    out.append(("e", ("e", ("v", "w"))))
    out.append(("@", ("@", ("t2", [("x", ("I", "v"))]))))
    out.append(("@-empty", ("@", ("t2", []))))
    out.append(("[]", ("[", [])))
    out.append(("[s,s]", ("[", [("s", "v"), ("s", "w")])))
    out.append(("[e,@]", ("[", [("e", ("v", "w")), ("@", ("t2", []))])))
    out.append(("[[I]]", ("[", [("[", [("I", "v")])])))
    return out


def comparing(rep, prog, tier):
    rule = "annotation-equality"
    I = Interp(prog).load_all()
    I.MAXREC = 6
    I.unroll = 12
    L, R = Side(I, "l"), Side(I, "r")
    fl = set()

    def isfloat(x):
        """is the constant the one of a float or double element"""
        return isinstance(x, Term) and x.op == "const_of" and x in fl

    def h_isinstance(I_, v, c, *rest):
        if isinstance(v, Term) and v.op == "const_of" and show(
                c) == "builtins.float":
            return isfloat(v)
        return NotImplemented
    I.hooks = {"JavaConstantPool.deref_const": pool_deref,
               "isinstance": h_isinstance}

    def floats(v):
        t, d = v
        if t in "DF":
            return [d]
        if t == "[":
            return [x for e in d for x in floats(e)]
        return []

    def same(st, x, y):
        """does the state know that the constants are the same; values of
        float and double elements are so if their representations are"""
        if not isfloat(x):
            return gram.known(I, st, ops.cond_eq(x, y))
        I.st = st
        for f in ("builtins.repr", "float.hex"):
            k = gram.known(I, st, ops.cond_eq(
                I.call(Ext(f), [x], {}), I.call(Ext(f), [y], {})))
            if k is not None:
                return k
        return None

    def both(le, re, op="__eq__"):
        def go():
            a = L.anno("t", le)
            b = R.anno("t", re)
            r = I.call(I.getattr(a, op), [b], {})
            return Const(bool(I.truth(r)))
        return I.run(go)

    def judge(key, le, re, op, ls, rs):
        fl.clear()
        fl.update(s.const(x) for s, es in ((L, le), (R, re))
                  for _k, v in es for x in floats(v))
        conds = [(L.const(x), R.const(y))
                 for x, y in zip(ls, rs)] if ls is not None else None
        with rep.guard(key, rule):
            rep.ok(key, rule)
            n = {True: 0, False: 0}
            for p in both(le, re, op):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                r = p.val.v if op == "__eq__" else not p.val.v
                n[r] += 1
                if conds is None:
                    if r:
                        rep.bad(key, rule, "compare equal")
                    continue
                ks = [same(p.st, *c) for c in conds]
                if r and not all(k is True for k in ks):
                    i = [k is True for k in ks].index(False)
                    rep.bad(key, rule, "compare equal without regard to "
                            "the constants %s and %s" % (
                                show(L.const(ls[i])), show(R.const(rs[i]))))
                if not r and not any(k is False for k in ks):
                    rep.bad(key, rule, "compare unequal although all "
                            "referenced constants may be equal%s" % (
                                undecided_terms(I, p)))
            if conds is not None and not n[True]:
                rep.bad(key, rule, "never compare equal")
    S = samples()
    for name, v in S:
        for op in ("__eq__", "__ne__"):
            judge("compare:%s:%s" % (name, op), [("k", v)], [("k", v)], op,
                  ["t"] + vrefs(v), ["t"] + vrefs(v))
    judge("compare:empty", [], [], "__eq__", ["t"], ["t"])
    two = [("k", ("I", "v")), ("m", ("e", ("w", "x")))]
    judge("compare:two", two, two[::-1], "__eq__", ["t", "v", "w", "x"],
          ["t", "v", "w", "x"])
    # different keys, tags, lengths
    judge("compare:missing-right", two, two[:1], "__eq__", None, None)
    judge("compare:missing-left", two[:1], two, "__eq__", None, None)
    judge("compare:other-key", two[:1], two[1:], "__eq__", None, None)
    some = S if tier == "thorough" else S[::3]
    for n1, a in some:
        for n2, b in some:
            if a[0] != b[0]:
                judge("compare:%s-%s" % (n1, n2), [("k", a)], [("k", b)],
                      "__eq__", None, None)
    e2 = ("[", [("s", "v"), ("s", "w")])
    e1 = ("[", [("s", "v")])
    judge("compare:longer", [("k", e2)], [("k", e1)], "__eq__", None, None)
    judge("compare:shorter", [("k", e1)], [("k", e2)], "__eq__", None, None)
    key = "compare:other-object"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        for other in (NONE, Const(3), Const("x")):
            for p in I.run(lambda: Const(bool(I.truth(I.call(I.getattr(
                    L.anno("t", two), "__eq__"), [other], {}))))):
                if p.kind == "raise" or p.val.v:
                    rep.bad(key, rule, "comparing with %s gives %s" % (
                        show(other), show(p.val)))
    # rendering
    rule = "annotation-rendering"
    for name, v in S:
        key = "pretty:" + name
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks["_pretty_type"] = lambda I_, f, a, kw, n: \
                ops.cat([Const("<"), Term("strof", I_.norm(a[0])),
                         Const(">")])
            for p in I.run(lambda: I.call(I.getattr(L.anno(
                    "t", [("kname", v)]), "pretty_annotation"), [], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                t = nrm(I, p.st, p.val)
                for r in ["t"] + vrefs(v):
                    w = L.ref(r)
                    if not term_mentions(t, lambda x: x == w):
                        rep.bad(key, rule, "reference %s does not occur in "
                                "%s" % (show(w), show(t)))
                if "kname" not in show(t):
                    rep.bad(key, rule, "the element name does not occur")
            del I.hooks["_pretty_type"]
    rep.cover(I)


def undecided_terms(I, p):
    out = [show(c) for c, _b, _l in p.path[len(I.base.path):]][-3:]
    return ", decided by " + ", ".join(out) if out else ""


def run(rep, prog, tier):
    reading(rep, prog)
    comparing(rep, prog, tier)
    rep.expect = 40
