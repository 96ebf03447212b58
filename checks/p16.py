"""P16: the comparison of two classes covers every facet."""

from itertools import product, permutations

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, Ref, NONE, HList, Item, Cls, show
from sa import ops, gram, orders
from checks.p01 import nrm
from checks.p43 import items
from checks.p41 import nm

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over two classes "
                 "which agree in everything but one facet, whose values are "
                 "symbolic; every path is compared with the specification",
    "rule": "for each facet of classes, fields, methods and code, two which "
            "differ in that facet alone are reported as changed, and as "
            "unchanged if the values are equal; members are paired by "
            "identifier, and each takes part in one comparison",
    "assumptions": ["facets which differ together are reported like each "
                    "of them alone (composite changes are judged in P17)"],
}

# facet: accessors by which it shows, the first being decisive
CLASS = {
    "this": ("get_this", "pretty_this"),
    "version": ("version",),
    "platform": ("get_platform",),
    "super": ("get_super", "pretty_super"),
    "access flags": ("access_flags", "pretty_access_flags"),
    "deprecation": ("is_deprecated",),
    "signature": ("get_signature", "pretty_signature"),
    "annotations": ("get_annotations",),
    "invisible annotations": ("get_invisible_annotations",),
    "constant pool": ("cpool",),
}
COMMON = {
    "name": ("get_name",),
    "descriptor": ("get_descriptor", "get_type_descriptor", "pretty_type"),
    "access flags": ("access_flags", "pretty_access_flags"),
    "deprecation": ("is_deprecated",),
    "signature": ("get_signature", "pretty_signature"),
    "annotations": ("get_annotations",),
    "invisible annotations": ("get_invisible_annotations",),
}
FIELD = dict(COMMON, **{
    "constant value": ("deref_constantvalue",)})
METHOD = dict(COMMON, **{
    "descriptor": ("get_type_descriptor", "pretty_type"),
    "arguments": ("get_arg_type_descriptors", "pretty_arg_types"),
    "exceptions": ("get_exceptions", "pretty_exceptions"),
})
CODE = {
    "line numbers": ("get_linenumbertable",),
    "relative lines": ("get_relativelinenumbertable",),
    "stack": ("max_stack",),
    "locals": ("max_locals",),
    "exception table": ("exceptions",),
}
INVISIBLE = {"pretty_descriptor", "pretty_identifier", "get_identifier"}
# facets which are sequences, and those of them which may be None
NONES = {"get_annotations", "get_invisible_annotations",
         "get_linenumbertable", "get_relativelinenumbertable"}
SEQF = NONES | {"exceptions", "get_exceptions", "get_arg_type_descriptors"}
# references into the constant pool, which tell nothing about equality
REFS = ("this_ref", "super_ref", "name_ref", "descriptor_ref",
        "get_constantvalue", "constantvalue_ref", "code_ref")
# results which are sequences of text
SEQS = {"pretty_access_flags", "pretty_arg_types", "pretty_exceptions",
        "pretty_interfaces"}


class Model(object):
    """terms for two sides which differ in the facets named"""

    def __init__(self, I, kind, table, extra=None, quiet=()):
        self.I, self.kind, self.table = I, kind, table
        self.differ = set()
        # number of elements of sequences
        self.shape = {}
        self.extra = extra or {}
        self.quiet = quiet
        self.by = {}
        for f, names in table.items():
            for n in names:
                self.by[n] = f

    def obj(self, side, k=0):
        return Term("new", self.kind, (side, k))

    def value(self, o, name):
        side = o.args[1][0]
        if name in self.extra:
            return self.extra[name](side)
        f = self.by.get(name)
        if f is None:
            return NotImplemented
        if f not in self.differ:
            v = Term("new", "value", (self.kind, name))
        else:
            v = self.acc(side, name)
        if name in SEQF:
            n = self.shape.get(side, 1)
            return NONE if n == 0 and name in NONES else Tup(
                [v, Term("new", "second", ())][:n])
        return v

    def acc(self, side, name):
        return Term("num" if name in ("max_stack", "max_locals") else "acc",
                    self.kind, side, name)

    def mine(self, o):
        return isinstance(o, Term) and o.op == "new" and \
            o.args[0] == self.kind and len(o.args[1]) == 2


def names_of(cls):
    return {n for k in cls.mro if isinstance(k, Cls) for n in k.attrs}


def hooks_for(I, models, sources):
    """hooks for all methods and attributes of the classes modelled"""
    H = {}
    names = set()
    for m in models:
        names |= set(m.by) | set(m.extra)
    for c in sources:
        names |= names_of(I.get("", c))
    names |= INVISIBLE | set(REFS)

    def unknown(m, name):
        raise Undecided("the comparison uses %s of a %s" % (name, m.kind))

    def meth(name):
        def h(I_, f, a, kw, node):
            for m in models:
                if m.mine(f.args[0]):
                    if name in REFS:
                        return Term("num", "ref", m.kind, f.args[0].args[1],
                                    name)
                    r = m.value(f.args[0], name)
                    if r is not NotImplemented:
                        return Tup([r]) if name in SEQS else r
                    if name in INVISIBLE:
                        return Term("text", name, f.args[0])
                    unknown(m, name)
            return NotImplemented
        return h

    def attr(name):
        def h(I_, o, n):
            for m in models:
                if m.mine(o) and name in REFS and name[:3] != "get":
                    return Term("num", "ref", m.kind, o.args[1], name)
                if m.mine(o) and (name in ("version", "access_flags", "cpool",
                                           "exceptions", "code", "max_stack",
                                           "max_locals", "fields", "methods",
                                           "is_method", "attribs")):
                    r = m.value(o, name)
                    if r is not NotImplemented:
                        return r
                    unknown(m, name)
            return NotImplemented
        return h
    for n in names:
        H["meth:" + n] = meth(n)
        H["attr:" + n] = attr(n)
    return H


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    I.MAXREC = 10
    base = len(I.base.path)
    CD = "classdiff"

    def changed(cls, l, r):
        o = I.call(I.get(CD, cls), [l, r], {})
        I.call(I.getattr(o, "check"), [], {})
        return Const(bool(I.truth(I.call(I.getattr(o, "is_change"), [],
                                         {}))))

    def judge(key, rule, thunk, model, facet):
        """the change is reported exactly if the decisive accessor of the
        facet differs"""
        with rep.guard(key, rule):
            rep.ok(key, rule)
            n = model.table[facet][0]
            a, b = [model.acc(s, n) for s in "LR"]
            seen = set()
            for p in I.run(thunk):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                k = gram.known(I, p.st, ops.cond_eq(a, b))
                if k is None and facet in ANN:
                    k = empties(I, p, a, b)
                got = p.val.v
                if k is None:
                    if any(isinstance(c, Term) and mentions(c, model.kind)
                           for c, _b in orders.conds(p, base)):
                        raise Undecided("decided by %s" % ", ".join(
                            "%s=%s" % (show(c), b_) for c, b_ in
                            orders.conds(p, base)))
                    # the facet was not looked at
                    rep.bad(key, rule, "%s although only %s is different, "
                            "which is not compared" % (
                                "changed" if got else "unchanged", facet))
                    continue
                seen.add(got)
                if got == k:
                    rep.bad(key, rule, "%s although %s is %s" % (
                        "changed" if got else "unchanged", facet,
                        "equal" if k else "different"))
            if not rep.ob(key, rule).status == "violated" and \
                    seen != {True, False}:
                rep.bad(key, rule, "always %s" % seen)

    ANN = ("annotations", "invisible annotations", "line numbers",
           "relative lines", "exception table", "stack", "locals")

    def empties(I, p, a, b):
        """None stands for an empty sequence, or zero, in these accessors"""
        ta = gram.known(I, p.st, ops.cond_truth(a))
        tb = gram.known(I, p.st, ops.cond_truth(b))
        if ta is False and tb is False:
            return True
        if ta is not None and tb is not None and ta != tb:
            return False
        return None

    def mentions(c, kind):
        if isinstance(c, Term):
            if c.op in ("acc", "num") and c.args[0] == kind and c.args[1] != "both":
                return True
            return any(mentions(x, kind) for x in c.args)
        if isinstance(c, (tuple, list)):
            return any(mentions(x, kind) for x in c)
        if isinstance(c, Tup):
            return any(mentions(x, kind) for x in c.items)
        return False

    # classes
    def no_members(s):
        return Tup([])
    cm = Model(I, "class", CLASS, {
        "fields": no_members, "methods": no_members,
        "get_interfaces": lambda s: Tup([nm("i"), nm("j")]),
        "pretty_interfaces": lambda s: Tup([nm("i"), nm("j")])})
    src = ["JavaClassInfo", "JavaMemberInfo", "JavaCodeInfo"]
    L, R = cm.obj("L"), cm.obj("R")
    H = hooks_for(I, [cm], src)

    rule = "class-facets"
    key = "class:equal"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        I.hooks = H
        for p in I.run(lambda: changed("JavaClassChange", L, R)):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
            elif p.val.v:
                rep.bad(key, rule, "two equal classes count as changed")
    for facet in CLASS:
        I.hooks = H
        cm.differ = {facet}
        judge("class:" + facet, rule,
              lambda: changed("JavaClassChange", L, R), cm, facet)
    cm.differ = set()
    # interfaces are compared without regard to their order
    for key, l, r, want in (
            ("same", "ij", "ij", False), ("reordered", "ij", "ji", False),
            ("added", "i", "ij", True), ("removed", "ij", "j", True),
            ("replaced", "ij", "ik", True), ("none", "", "", False),
            ("first", "", "i", True)):
        key = "class:interfaces:" + key
        with rep.guard(key, rule):
            rep.ok(key, rule)
            cm.extra["get_interfaces"] = cm.extra["pretty_interfaces"] = \
                lambda s: Tup([Const("if/" + x) for x in (
                    l if s == "L" else r)])
            for p in I.run(lambda: changed("JavaClassChange", L, R)):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                elif p.val.v != want:
                    rep.bad(key, rule, "interfaces %s and %s count as %s" % (
                        list(l), list(r), "changed" if p.val.v else
                        "unchanged"))
    cm.extra["get_interfaces"] = cm.extra["pretty_interfaces"] = \
        lambda s: Tup([Const("if/i")])

    # members
    code = Model(I, "code", CODE)
    fm = Model(I, "field", FIELD)
    mm = Model(I, "method", METHOD)
    for m in (fm, mm):
        m.extra["get_identifier"] = lambda s: nm("id")
        m.extra["is_method"] = lambda s, m=m: Const(m is mm)
    mm.extra["get_descriptor"] = lambda s: nm("ret")
    instrs = {}

    def dis(s):
        return Tup([Tup(list(x)) for x in instrs.get(s, instrs["both"])])
    code.extra["disassemble"] = dis
    code.extra["code"] = lambda s: Term("bytes", "L" if s == "L" and
                                        "L" in instrs else "both")
    code.extra["cpool"] = lambda s: Term("new", "pool", (s, 0))
    abstract = set()
    mm.extra["get_code"] = lambda s: NONE if s in abstract else code.obj(s)
    instrs["both"] = [(Const(0), Term("param", "OP0"), Tup([])),
                      (Const(1), Term("param", "OP1"),
                       Tup([Term("param", "ARG")]))]
    H2 = hooks_for(I, [cm, fm, mm, code], src)
    constop = {}

    def h_const(I_, f, a, kw, node):
        c = a[0]
        return Const(bool(c in constop))
    H2["opcodes.has_const_arg"] = h_const
    H2["opcodes.get_opname_by_code"] = lambda I_, f, a, kw, n: Term(
        "text", "op", a[0])
    for kind, m, cls, tab in (("field", fm, "FieldChange", FIELD),
                              ("method", mm, "MethodChange", METHOD)):
        rule = kind + "-facets"
        key = kind + ":equal"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = H2
            for p in I.run(lambda: changed(cls, m.obj("L"), m.obj("R"))):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                elif p.val.v:
                    rep.bad(key, rule, "two equal %ss count as changed" %
                            kind)
        for facet in tab:
            m.differ = {facet}
            if facet == "constant value":
                # values which are no floating point numbers
                H2["isinstance"] = lambda I_, v, c, *r: False if isinstance(
                    v, Term) and v.op == "acc" else NotImplemented
            judge("%s:%s" % (kind, facet), rule, lambda: changed(
                cls, m.obj("L"), m.obj("R")), m, facet)
            H2.pop("isinstance", None)
            m.differ = set()
    # sequences of different length
    for m, cls, l, r in (
            (cm, "JavaClassChange", L, R),
            (fm, "FieldChange", fm.obj("L"), fm.obj("R")),
            (mm, "MethodChange", mm.obj("L"), mm.obj("R")),
            (code, "MethodChange", mm.obj("L"), mm.obj("R"))):
        rule = m.kind + "-facets"
        for acc in sorted(set(m.by) & SEQF):
            for shape in ((0, 1), (1, 0), (1, 2), (2, 1)):
                key = "%s:%s:%d-%d" % ((m.kind, acc) + shape)
                with rep.guard(key, rule):
                    rep.ok(key, rule)

                    def one(side, table=m.table):
                        return Tup([Term("new", "value", (m.kind, acc)),
                                    Term("new", "second", ())][
                                        :shape["LR".index(side)]]) if shape[
                                            "LR".index(side)] or \
                            acc not in NONES else NONE
                    m.extra[acc] = one
                    I.hooks = H2
                    for p in I.run(lambda: changed(cls, l, r)):
                        if p.kind == "raise":
                            rep.bad(key, rule, "raises %s" % show(p.val),
                                    p.loc)
                        elif not p.val.v:
                            rep.bad(key, rule, "%d and %d elements of %s "
                                    "count as unchanged" % (shape + (acc,)))
                m.extra.pop(acc, None)
    # whole class with a changed member
    rule = "class-facets"
    for kind, m, facet in (("fields", fm, "access flags"),
                           ("methods", mm, "access flags")):
        cm.extra[kind] = lambda s: Tup([m.obj(s)])
        m.differ = {facet}
        judge("class:%s" % kind, rule,
              lambda: changed("JavaClassChange", L, R), m, facet)
        m.differ = set()
        cm.extra[kind] = no_members
    # code
    rule = "code-facets"

    def code_change():
        return changed("MethodChange", mm.obj("L"), mm.obj("R"))
    for facet in CODE:
        code.differ = {facet}
        judge("code:" + facet, rule, code_change, code, facet)
        code.differ = set()
    for ab, want in (((), False), (("L",), True), (("R",), True),
                     (("L", "R"), False)):
        key = "code:abstract:" + "".join(ab)
        with rep.guard(key, rule):
            rep.ok(key, rule)
            abstract.clear()
            abstract.update(ab)
            for p in I.run(code_change):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                elif p.val.v != want:
                    rep.bad(key, rule, "abstract sides %s count as %s" % (
                        list(ab), "changed" if p.val.v else "unchanged"))
    abstract.clear()
    # instructions
    rule = "code-instructions"
    A, B = Term("param", "A"), Term("param", "B")
    O0, O1 = Term("param", "OP0"), Term("param", "OP1")

    def ins(*xs):
        return [(Const(o), c, Tup(list(a))) for o, c, a in xs]
    X, Y = Term("param", "X"), Term("param", "Y")
    one = ins((0, O0, ()), (1, O1, (X, A)))
    cases = [
        ("same", one, one, (), None),
        ("opcode", one, ins((0, O0, ()), (1, Term("param", "OP2"), (X, A))),
         (), ops.cond_eq(O1, Term("param", "OP2"))),
        ("first-opcode", one, ins((0, Term("param", "OP2"), ()),
                                  (1, O1, (X, A))),
         (), ops.cond_eq(O0, Term("param", "OP2"))),
        ("argument", one, ins((0, O0, ()), (1, O1, (Y, A))), (),
         ops.cond_eq(X, Y)),
        ("second-argument", one, ins((0, O0, ()), (1, O1, (X, B))), (),
         ops.cond_eq(A, B)),
        ("constant", one, ins((0, O0, ()), (1, O1, (Y, A))), (O1,),
         "const"),
        ("constant-same-index", one, one, (O1,), "const1"),
        ("beside-constant", one, ins((0, O0, ()), (1, O1, (X, B))), (O1,),
         "const2"),
    ]
    for key, l, r, consts, cond in cases:
        key = "code:" + key
        with rep.guard(key, rule):
            rep.ok(key, rule)
            instrs.clear()
            instrs.update({"L": l, "R": r, "both": r})
            constop.clear()
            constop.update({c: 1 for c in consts})
            code.extra["code"] = lambda s: Term("bytes", "all")

            def const_of(kind):
                def h(I_, f, a, kw, n):
                    o = f.args[0]
                    if not (isinstance(o, Term) and o.op == "new" and
                            o.args[0] == "pool"):
                        return NotImplemented
                    t = Term("constof", kind, o.args[1][0], a[0])
                    if kind == "entry":
                        return Tup([Term("constof", "type", o.args[1][0],
                                         a[0]), Term("constof", "raw",
                                                     o.args[1][0], a[0])])
                    return t
                return h
            H2["meth:get_const"] = const_of("entry")
            H2["meth:deref_const"] = const_of("value")
            H2["meth:pretty_const"] = H2["meth:pretty_deref_const"] = \
                lambda I_, f, a, kw, n: Term("text", "const", a[0])

            def h_same(I_, f, a, kw, n):
                o = f.args[0]
                if not (isinstance(o, Term) and o.op == "new" and
                        o.args[0] == "pool"):
                    return NotImplemented
                return Term("same", o, *a)
            H2["meth:same_const"] = h_same
            PL, PR = Term("new", "pool", ("L", 0)), Term("new", "pool",
                                                         ("R", 0))
            i, j = one[1][2].items[0], r[1][2].items[0]

            def same_const(st):
                for a in (Term("same", PL, i, PR, j),
                          Term("same", PR, j, PL, i)):
                    k = gram.known(I, st, ops.cond_truth(a))
                    if k is not None:
                        return k
                return None
            seen = set()
            I.hooks = H2
            for p in I.run(code_change):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = p.val.v
                seen.add(got)
                if cond is None:
                    want = False
                elif isinstance(cond, str):
                    k = same_const(p.st)
                    if cond == "const2" and k is not False:
                        k2 = gram.known(I, p.st, ops.cond_eq(A, B))
                        k = k2 if k else None if k2 is not False else False
                    want = None if k is None else not k
                else:
                    k = gram.known(I, p.st, cond)
                    want = None if k is None else not k
                if want is None:
                    cs = orders.conds(p, base)
                    if any("constof" in show(c) for c, _b in cs):
                        raise Undecided("constants compared by %s" % ", ".join(
                            show(c) for c, _b in cs))
                    rep.bad(key, rule, "%s, but the difference is not looked "
                            "at" % ("changed" if got else "unchanged"))
                elif got != want:
                    rep.bad(key, rule, "counts as %s" % (
                        "changed" if got else "unchanged"))
    constop.clear()
    for key, l, r in (("longer", one, one[:1]), ("shorter", one[:1], one),
                      ("moved", one, ins((0, O0, ()), (2, O1, (X, A))))):
        key = "code:" + key
        with rep.guard(key, rule):
            rep.ok(key, rule)
            instrs.clear()
            instrs.update({"L": l, "R": r, "both": r})
            code.extra["code"] = lambda s: Term("bytes", s if key !=
                                                "code:moved" else "all")
            ln = {"L": len(l), "R": len(r)}
            H2["len"] = lambda I_, v: Const(ln.get(v.args[0], 3)) \
                if isinstance(v, Term) and v.op == "bytes" else NotImplemented
            for p in I.run(code_change):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                elif not p.val.v:
                    rep.bad(key, rule, "counts as unchanged")
            H2.pop("len")
    # constants are the same in type and value
    rule = "same-constants"
    pool = I.get("", "JavaConstantPool")
    for how in ("same", "type", "value", "float"):
        key = "constants:" + how
        with rep.guard(key, rule):
            rep.ok(key, rule)

            def entries(s):
                t = Term("param", "T" + (s if how == "type" else ""))
                v = Term("val", "V" + (s if how in ("value", "float")
                                       else ""))
                return Tup([Tup([NONE, NONE]), Tup([t, v])])
            I.hooks = {"isinstance": lambda I_, v, c, *r: (
                how == "float" and show(c) == "builtins.float")
                if isinstance(v, Term) and v.op == "val" else
                NotImplemented}

            def go():
                ps = [I.syminst(pool, "pool" + s, attrs={
                    "consts": entries(s)}) for s in "LR"]
                a = I.call(I.getattr(ps[0], "__eq__"), [ps[1]], {})
                b = bool(I.truth(a))
                c = I.call(I.getattr(ps[0], "__ne__"), [ps[1]], {})
                return Tup([Const(b), Const(bool(I.truth(c)))])
            cond = {"same": True,
                    "type": ops.cond_eq(Term("param", "TL"), Term(
                        "param", "TR")),
                    "value": ops.cond_eq(Term("val", "VL"), Term(
                        "val", "VR"))}.get(how)
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                a, b = [x.v for x in p.val.items]
                if a == b:
                    rep.bad(key, rule, "equal and unequal at once")
                if how == "float":
                    I.st = p.st
                    k = None
                    from sa.values import Ext
                    for f in ("builtins.repr", "float.hex"):
                        k = gram.known(I, p.st, ops.cond_eq(*[
                            I.call(Ext(f), [Term("val", v)], {})
                            for v in ("VL", "VR")]))
                        if k is not None:
                            break
                else:
                    k = True if cond is True else gram.known(I, p.st, cond)
                if k != a:
                    rep.bad(key, rule, "pools are %s where their entries "
                            "are %s" % ("equal" if a else "unequal", {
                                None: "not compared exactly",
                                True: "the same",
                                False: "different"}[k]))
    # the same at different places of the two pools
    if "same_const" in pool.attrs:
        V, W = Term("val", "VL"), Term("val", "VR")
        for how, l, r, want in (
                ("numbers", (3, V), (3, W), None),
                ("other kind of number", (3, V), (5, V), False),
                ("strings", (8, Const(2)), (8, Const(1)), None),
                ("text", (1, V), (1, W), None),
                ("string and class", (8, Const(2)), (7, Const(1)), False),
                ("string and text", (8, Const(2)), (1, W), False)):
            key = "constants:%s at other indices" % how
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = {"isinstance": lambda I_, v, c, *r: False if
                           isinstance(v, Term) and v.op == "val" else
                           NotImplemented}

                def go():
                    e = Tup([NONE, NONE])
                    ps = [I.syminst(pool, "pool" + s, attrs={
                        "consts": Tup(c)}) for s, c in (
                        ("L", [e, Tup([Const(l[0]), l[1]]),
                               Tup([Const(1), V])]),
                        ("R", [e, Tup([Const(1), W]),
                               Tup([Const(r[0]), r[1]])]))]
                    return Const(bool(I.truth(I.call(I.getattr(
                        ps[0], "same_const"), [Const(1), ps[1], Const(2)],
                        {}))))
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    k = gram.known(I, p.st, ops.cond_eq(V, W)) \
                        if want is None else want
                    if k != p.val.v:
                        rep.bad(key, rule, "counts as %s" % (
                            "same" if p.val.v else "different"))
    # members are paired
    members(rep, I, cm, H2, tier)
    rep.cover(I)
    rep.expect = 60


def members(rep, I, cm, H, tier):
    rule = "member-pairing"
    D = {"x": nm("dx"), "y": nm("dy")}

    def mk(side, k, spec):
        return Term("new", "member", (side, k, spec))

    def attrs(name):
        def h(I_, f, a, kw, n):
            o = f.args[0]
            if not (isinstance(o, Term) and o.op == "new" and
                    o.args[0] == "member"):
                return NotImplemented
            spec = o.args[1][2]
            if name == "get_identifier":
                return nm(spec[0])
            if name == "get_name":
                return nm(spec[0])
            if name in ("get_descriptor", "get_type_descriptor"):
                return D[spec[1]]
            return Term("text", name, o)
        return h
    hooks = {}
    for n in ("get_identifier", "get_name", "get_descriptor",
              "get_type_descriptor", "pretty_descriptor",
              "pretty_identifier"):
        hooks["meth:" + n] = attrs(n)
    single = ["", "a", "b", "ab", "ba", "abc", "cab"]
    sets = [(tuple(s + "x" for s in l), tuple(s + "x" for s in r))
            for l in single for r in single]
    sets += [(("ax",), ("ay",)), (("ax", "ay"), ("ax", "ay")),
             (("ax", "ay"), ("ay", "ax")), (("ax", "ay"), ("ay",)),
             (("ay",), ("ax", "ay")), (("ax", "ay"), ("ax",)),
             (("ax", "bx"), ("bx", "ay"))]
    for what, cls, names in (
            ("fields", "ClassFieldsChange", ("FieldChange", "FieldAdded",
                                             "FieldRemoved")),
            ("methods", "ClassMethodsChange", ("MethodChange", "MethodAdded",
                                               "MethodRemoved"))):
        for ls, rs in sets:
            key = "%s:%s:%s" % (what, "+".join(ls), "+".join(rs))
            with rep.guard(key, rule):
                rep.ok(key, rule)
                L = [mk("L", i, s) for i, s in enumerate(ls)]
                R = [mk("R", i, s) for i, s in enumerate(rs)]
                I.hooks = dict(hooks)
                I.hooks["attr:" + what] = lambda I_, o, n: (
                    Tup(L) if o.args[1][0] == "L" else Tup(R)) if cm.mine(
                        o) else NotImplemented

                def go():
                    o = I.call(I.get("classdiff", cls), [
                        cm.obj("L"), cm.obj("R")], {})
                    out = []
                    for c in I.known_items(I.call(I.getattr(
                            o, "collect"), [], {})):
                        k = I.obj(c).cls
                        out.append(Tup([Const(k.name), I.getattr(c, "ldata"),
                                        I.getattr(c, "rdata")]))
                    return Tup(out)
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    got = [tuple(x.items) for x in p.val.items]
                    # pairs of equal type are wanted where they exist
                    want = []
                    l2, r2 = list(L), list(R)
                    for same in (2, 1):
                        for r in list(r2):
                            for l in l2:
                                if l.args[1][2][:same] == \
                                        r.args[1][2][:same]:
                                    want.append((Const(names[0]), l, r))
                                    l2.remove(l)
                                    r2.remove(r)
                                    break
                    want += [(Const(names[1]), NONE, r) for r in r2]
                    want += [(Const(names[2]), l, NONE) for l in l2]

                    def text(xs):
                        return ", ".join("%s(%s, %s)" % (
                            x[0].v, show(x[1]), show(x[2])) for x in xs)
                    if sorted(map(repr, got)) != sorted(map(repr, want)):
                        rep.bad(key, rule, "gives %s, should give %s" % (
                            text(got), text(want)))
