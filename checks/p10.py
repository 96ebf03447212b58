"""P10: type descriptors of fields and methods are decoded."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, show
from sa import ops, strs
from sa.strs import sname
from checks.p01 import nrm

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over strings of "
                 "symbolic structure, compared with the descriptor grammar",
    "rule": "descriptors built by the grammar of JVMS 4.3 from every base "
            "type, class types with symbolic names and arrays of them are "
            "split into exactly their components and rendered as the Java "
            "type names, alone and as argument lists; identifiers contain "
            "name and argument descriptors",
    "assumptions": ["array dimensions are treated uniformly beyond the "
                    "explored depth, argument lists beyond the explored "
                    "length"],
}

BASE = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int",
        "J": "long", "S": "short", "Z": "boolean"}
NOTIN = ";[().,:< >"
NAME = sname("NAME", ";[().,:<> /")


class T(object):
    """a type: descriptor and readable form"""

    def __init__(self, base, dims=0):
        self.base, self.dims = base, dims
        if base in BASE:
            d, p = Const(base), Const(BASE[base])
        elif base == "V":
            d, p = Const("V"), Const("void")
        else:
            a = sname(base, NOTIN)
            d = ops.cat([Const("L"), a, Const(";")])
            p = strs.replace(a, Const("/"), Const("."))
        self.desc = ops.cat([Const("[" * dims), d])
        self.pretty = ops.cat([p, Const("[]" * dims)])
        self.label = "%s%s" % (base, "[]" * dims)


def tokens(v):
    ps = strs.parts(v)
    if ps is None:
        raise Undecided("text %s" % show(v))
    out = []
    for p in ps:
        if isinstance(p, Const):
            out.extend(p.v)
        else:
            out.append(p)
    return out


def after(toks, v, pos):
    """position behind the next occurrence of a text"""
    w = tokens(v)
    for i in range(pos, len(toks) - len(w) + 1):
        if toks[i:i + len(w)] == w:
            return i + len(w)
    return None


def shapes(tier):
    deep = 3 if tier == "thorough" else 2
    singles = [T(b, d) for b in list(BASE) + ["X"] for d in range(deep + 1)]
    fields = [("field", None, t) for t in singles]
    rets = [T("V"), T("R"), T("I"), T("R", 1), T("J", 2)]
    out = list(fields)
    for r in rets:
        out.append(("method", [], r))
        for t in singles:
            out.append(("method", [t], r))
    some = [T("I"), T("Z", 1), T("X"), T("X", 2)]
    some2 = [T("D"), T("C", 2), T("Y"), T("Y", 1)]
    some3 = [T("F"), T("Z", 1), T("Zz"), T("Zz", 3)]
    for a, b in product(some, some2):
        for r in rets[:3]:
            out.append(("method", [a, b], r))
    for a, b, c in product(some, some2, some3):
        out.append(("method", [a, b, c], rets[1]))
    if tier == "thorough":
        for a, b, c in product(some, some2, some3):
            out.append(("method", [a, b, c, T("W")], rets[0]))
            out.append(("method", [T("W"), a, b, c, T("J")], rets[3]))
    return out


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 40
    I.MAXREC = 8
    cur = {}

    def h_deref(I_, f, a, kw, node):
        i = I_.norm(a[1])
        if i == Term("num", "NREF"):
            return cur["name"]
        if i == Term("num", "DREF"):
            return cur["desc"]
        return NotImplemented
    I.hooks = {"JavaConstantPool.deref_const": h_deref}

    def inst(flags=Const(0)):
        cp = I.syminst(I.get("", "JavaConstantPool"), "CP", open_=True)
        return I.syminst(I.get("", "JavaMemberInfo"), "self", open_=True,
                         attrs={"is_method": Const(cur["m"]), "cpool": cp,
                                "name_ref": Term("num", "NREF"),
                                "descriptor_ref": Term("num", "DREF"),
                                "access_flags": flags})

    def one(key, rule, thunk):
        """the single value all paths agree on"""
        for p in I.run(thunk):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            saved = I.st
            I.st = p.st
            try:
                it = I.known_items(p.val) if not strs.structured(p.val) \
                    else None
            finally:
                I.st = saved
            yield p, (None if it is None else [nrm(I, p.st, x) for x in it]
                      ), nrm(I, p.st, p.val)

    def same(key, rule, got, want, what):
        if got == want:
            return
        if strs.parts(got) is None:
            if not isinstance(got, Const):
                raise Undecided("%s is %s" % (what, show(got)))
        r = strs.eq(got, want)
        if r is None and tokens(got) == tokens(want):
            return
        rep.bad(key, rule, "%s is %s, should be %s" % (
            what, show(got), show(want)))

    def call(m):
        return lambda: I.call(I.getattr(inst(), m), [], {})
    for kind, args, ret in shapes(tier):
        cur["m"] = kind == "method"
        if args is None:
            cur["desc"] = ret.desc
            label = "field:" + ret.label
        else:
            cur["desc"] = ops.cat([Const("(")] + [a.desc for a in args] +
                                  [Const(")"), ret.desc])
            label = "method:(%s)%s" % (",".join(a.label for a in args),
                                       ret.label)
        cur["name"] = NAME
        key, rule = label + ":type", "descriptor-type"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            for _p, _i, v in one(key, rule, call("get_type_descriptor")):
                same(key, rule, v, ret.desc, "the type descriptor")
            for _p, _i, v in one(key, rule, call("pretty_type")):
                same(key, rule, v, ret.pretty, "the readable type")
        key, rule = label + ":args", "descriptor-arguments"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            for m, want in (("get_arg_type_descriptors",
                             [a.desc for a in args or ()]),
                            ("pretty_arg_types",
                             [a.pretty for a in args or ()])):
                for _p, it, v in one(key, rule, call(m)):
                    if it is None:
                        raise Undecided("%s gives %s" % (m, show(v)))
                    if len(it) != len(want):
                        rep.bad(key, rule, "%s gives %d entries instead of "
                                "%d" % (m, len(it), len(want)))
                        continue
                    for i, (g, w) in enumerate(zip(it, want)):
                        same(key, rule, g, w, "%s entry %d" % (m, i))
        if len(args or ()) > 2 and tier != "thorough":
            continue
        # identifiers
        key, rule = label + ":identifier", "identifier-components"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            for flag in (0, 0x40):
                for _p, _i, v in one(key, rule, lambda: I.call(I.getattr(
                        inst(Const(flag)), "get_identifier"), [], {})):
                    tk = tokens(v)
                    pos = 0
                    for w in [NAME] + [a.desc for a in args or ()]:
                        pos = after(tk, w, pos)
                        if pos is None:
                            rep.bad(key, rule, "the identifier %s lacks %s, "
                                    "or has it out of order" % (
                                        show(v), show(w)))
                            break
                    if args is None and v != NAME:
                        rep.bad(key, rule, "the identifier of a field is %s"
                                % show(v))
                    if pos and args is not None:
                        rest = after(tk, ret.desc, pos)
                        if flag and rest is None:
                            rep.bad(key, rule, "the identifier of a bridge "
                                    "method lacks its return type")
                        if not flag and strs.is_atom(
                                next((x for x in strs.parts(ret.desc)
                                      if strs.is_atom(x)), None)) and \
                                rest is not None:
                            rep.bad(key, rule, "the identifier of an "
                                    "ordinary method has its return type")
            for _p, _i, v in one(key, rule, call("pretty_identifier")):
                tk = tokens(v)
                pos = 0
                for w in [NAME] + [a.pretty for a in args or ()] + [
                        ret.pretty]:
                    pos = after(tk, w, pos)
                    if pos is None:
                        rep.bad(key, rule, "the readable identifier %s "
                                "lacks %s, or has it out of order" % (
                                    show(v), show(w)))
                        break
        # the full readable descriptor
        key, rule = label + ":long", "long-descriptor"
        if args is not None and len(args) > 1 and ret.base != "V":
            continue
        with rep.guard(key, rule):
            rep.ok(key, rule)
            e1, e2 = T("E1"), T("E2")
            excs = [Tup([]), Tup([sname("E1", NOTIN), sname("E2", NOTIN)])]
            for init in (False, True):
                if init and args is None:
                    continue
                cur["name"] = Const("<init>") if init else NAME
                for ex in excs:
                    I.hooks["JavaMemberInfo.get_exceptions"] = \
                        lambda I_, f, a, kw, n: ex
                    I.hooks["JavaMemberInfo.pretty_access_flags"] = \
                        lambda I_, f, a, kw, n: Tup(
                            [sname("KW1", " "), sname("KW2", " ")])
                    want = [sname("KW1", " "), sname("KW2", " ")]
                    if not init:
                        want.append(ret.pretty)
                    want.append(cur["name"])
                    if args is not None:
                        want += [Const("(")] + [a.pretty for a in args] + [
                            Const(")")]
                    if ex.items:
                        want += [Const("throws"), e1.pretty, e2.pretty]
                    for _p, _i, v in one(key, rule,
                                         call("pretty_descriptor")):
                        tk = tokens(v)
                        pos = 0
                        for w in want:
                            pos = after(tk, w, pos)
                            if pos is None:
                                rep.bad(key, rule, "%s lacks %s, or has it "
                                        "out of order" % (show(v), show(w)))
                                break
                        if init and after(tk, ret.pretty, 0) is not None \
                                and ret.base == "R":
                            rep.bad(key, rule, "a constructor is shown with "
                                    "a type")
                        if not ex.items and after(
                                tk, Const("throws"), 0) is not None:
                            rep.bad(key, rule, "throws clause without "
                                    "exceptions")
            del I.hooks["JavaMemberInfo.get_exceptions"]
            del I.hooks["JavaMemberInfo.pretty_access_flags"]
    # class names
    A, B = sname("A", NOTIN), sname("B", NOTIN)
    dot = {x: strs.replace(x, Const("/"), Const(".")) for x in (A, B)}
    for m, attr, given, want in (
            ("pretty_this", "this_ref", A, [dot[A]]),
            ("pretty_super", "super_ref", A, [dot[A]]),
            ("pretty_interfaces", "_interfaces_refs", None,
             [dot[A], dot[B]])):
        key, rule = "class:" + m, "class-name"
        with rep.guard(key, rule):
            rep.ok(key, rule)

            def h_c(I_, f, a, kw, n):
                i = I_.norm(a[1])
                if i == Term("num", "REF"):
                    return given
                if i == Term("num", "REF1"):
                    return A
                if i == Term("num", "REF2"):
                    return B
                return NotImplemented
            I.hooks = {"JavaConstantPool.deref_const": h_c}

            def go():
                cp = I.syminst(I.get("", "JavaConstantPool"), "CP",
                               open_=True)
                r = Term("num", "REF") if given is not None else Tup(
                    [Term("num", "REF1"), Term("num", "REF2")])
                o = I.syminst(I.get("", "JavaClassInfo"), "self", open_=True,
                              attrs={"cpool": cp, attr: r})
                if given is None:
                    I.hooks["JavaClassInfo.get_interfaces"] = \
                        lambda I_, f, a, kw, n: Tup([A, B])
                return I.call(I.getattr(o, m), [], {})
            for _p, it, v in one(key, rule, go):
                if m == "pretty_super" and v == Const(""):
                    continue        # no super class
                got = [v] if given is not None else it
                if got is None or len(got) != len(want):
                    rep.bad(key, rule, "%s is %s" % (m, show(v)))
                    continue
                for g, w in zip(got, want):
                    same(key, rule, g, w, m)
    rep.cover(I)
    rep.expect = 200
