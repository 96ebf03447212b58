"""P09: access flag predicates and keywords."""

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, Ref, NONE, Item, Rep, show
from sa import ops, gram
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "with the flag word in the known-bits domain, each predicate is "
            "true exactly if its JVMS 4.1/4.5/4.6 bit is set, and each "
            "keyword is listed exactly once if its bits are set and not at "
            "all otherwise, for every combination of the remaining bits in "
            "the explored groups",
    "trusted": None,
}
del META["trusted"]

# JVMS tables 4.1-B, 4.5-A and 4.6-A
CLASS = {"is_public": 0x0001, "is_final": 0x0010, "is_super": 0x0020,
         "is_interface": 0x0200, "is_abstract": 0x0400,
         "is_annotation": 0x2000, "is_enum": 0x4000}
MEMBER = {"is_public": 0x0001, "is_private": 0x0002, "is_protected": 0x0004,
          "is_static": 0x0008, "is_final": 0x0010,
          "is_synchronized": 0x0020, "is_volatile": 0x0040,
          "is_bridge": 0x0040, "is_transient": 0x0080, "is_varargs": 0x0080,
          "is_native": 0x0100, "is_abstract": 0x0400, "is_strict": 0x0800,
          "is_synthetic": 0x1000, "is_enum": 0x4000, "is_module": 0x8000}

CONSTS = {
    "ACC_PUBLIC": 1, "ACC_PRIVATE": 2, "ACC_PROTECTED": 4, "ACC_STATIC": 8,
    "ACC_FINAL": 0x10, "ACC_SYNCHRONIZED": 0x20, "ACC_SUPER": 0x20,
    "ACC_VOLATILE": 0x40, "ACC_BRIDGE": 0x40, "ACC_TRANSIENT": 0x80,
    "ACC_VARARGS": 0x80, "ACC_NATIVE": 0x100, "ACC_INTERFACE": 0x200,
    "ACC_ABSTRACT": 0x400, "ACC_STRICT": 0x800, "ACC_SYNTHETIC": 0x1000,
    "ACC_ANNOTATION": 0x2000, "ACC_ENUM": 0x4000, "ACC_MODULE": 0x8000}

# keyword -> (bits which must be set, bits which must not be set)
CLASSKW = {"public": (1, 0), "final": (0x10, 0), "abstract": (0x400, 0),
           "@interface": (0x2200, 0), "interface": (0x200, 0x2000),
           "enum": (0x4000, 0)}
COMMON = {"public": (1, 0), "private": (2, 0), "protected": (4, 0),
          "static": (8, 0), "final": (0x10, 0), "strict": (0x800, 0),
          "native": (0x100, 0), "abstract": (0x400, 0),
          "enum": (0x4000, 0), "module": (0x8000, 0)}
METHODKW = dict(COMMON, synchronized=(0x20, 0))
FIELDKW = dict(COMMON, transient=(0x80, 0), volatile=(0x40, 0))
ALL = {"synthetic": (0x1000, 0)}
METHODALL = dict(METHODKW, bridge=(0x40, 0), varargs=(0x80, 0), **ALL)
FIELDALL = dict(FIELDKW, **ALL)

GROUPS = [0x00FF, 0xFF00, 0x0F0F, 0xF0F0, 0x3C3C, 0xC3C3, 0x5555, 0xAAAA]


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    rule = "flag-constants"
    for n, v in CONSTS.items():
        key = "constant:" + n
        with rep.guard(key, rule):
            got = I.get("", n)
            if got is None:
                raise Undecided("not defined")
            rep.check(got == Const(v), key, rule, "%s is %s, should be %#x" %
                      (n, show(got), v))
    F = ops.bits("F")

    def noattr(I_, f, a, kw, n):
        return NONE

    def inst(I, cname, is_method, flags):
        at = {"access_flags": flags}
        if is_method is not None:
            at["is_method"] = Const(is_method)
        return I.syminst(I.get("", cname), "self", open_=True, attrs=at)
    # predicates
    rule = "flag-predicate"
    for cname, table, ism in (("JavaClassInfo", CLASS, None),
                              ("JavaMemberInfo", MEMBER, True),
                              ("JavaMemberInfo", MEMBER, False)):
        for pred, bit in sorted(table.items()):
            key = "%s.%s%s" % (cname, pred, "" if ism is None else
                               ":method" if ism else ":field")
            I.hooks = {cname + ".get_attribute": noattr}
            with rep.guard(key, rule):
                def go():
                    o = inst(I, cname, ism, F)
                    r = I.call(I.getattr(o, pred), [], {})
                    return Const(bool(I.truth(r)))
                rep.ok(key, rule)
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    b = gram.known(I, p.st, (Term("bit", "F", bit), True))
                    if b is None:
                        others = [show(c) for c, _b, _l in p.path
                                  if isinstance(c, Term) and c.op == "bit"]
                        rep.bad(key, rule, "the answer does not depend on "
                                "bit %#06x%s" % (bit, ", but on " + ", ".join(
                                    others) if others else ""))
                    elif b != p.val.v:
                        rep.bad(key, rule, "answers %s if bit %#06x is %s" % (
                            p.val.v, bit, "set" if b else "not set"))
    # keywords
    rule = "flag-keywords"
    for name, cname, ism, args, kws in (
            ("class", "JavaClassInfo", None, [], CLASSKW),
            ("method", "JavaMemberInfo", True, [], METHODKW),
            ("field", "JavaMemberInfo", False, [], FIELDKW),
            ("method-all", "JavaMemberInfo", True, [Const(True)], METHODALL),
            ("field-all", "JavaMemberInfo", False, [Const(True)], FIELDALL)):
        for g in GROUPS if tier == "thorough" else GROUPS[:4]:
            for fill in (0, 0xFFFF):
                key = "keywords:%s:%04x/%04x" % (name, g, fill)
                I.hooks = {cname + ".get_attribute": noattr}
                with rep.guard(key, rule):
                    flags = ops.bits("F", 0xFFFF & ~g, fill)

                    def go():
                        o = inst(I, cname, ism, flags)
                        return I.call(I.getattr(o, "pretty_access_flags"),
                                      list(args), {})
                    rep.ok(key, rule)
                    for p in I.run(go):
                        words(rep, I, key, rule, p, kws, g, fill, name)
    rep.cover(I)
    rep.expect = 60


def words(rep, I, key, rule, p, kws, g, fill, name):
    if p.kind == "raise":
        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
        return
    saved = I.st
    I.st = p.st
    try:
        segs = I.segs_of(p.val)
    finally:
        I.st = saved
    got = []
    for s in segs:
        if not isinstance(s, Item) or not isinstance(s.v, Const):
            raise Undecided("keywords %s" % segs)
        got.append(s.v.v)

    def bit(b):
        if not g & b:
            return bool(fill & b)
        return gram.known(I, p.st, (Term("bit", "F", b), True))
    for w in sorted(set(got) | set(kws)):
        if got.count(w) > 1:
            rep.bad(key, rule, "%r is listed %d times" % (w, got.count(w)))
            continue
        if w not in kws:
            rep.bad(key, rule, "%s is described as %r" % (name, w))
            continue
        must, mustnot = kws[w]
        vals = []
        for i in range(16):
            b = 1 << i
            if must & b:
                vals.append(bit(b))
            elif mustnot & b:
                x = bit(b)
                vals.append(None if x is None else not x)
        want = False if False in vals else None if None in vals else True
        if want is None:
            rep.bad(key, rule, "keyword %r does not depend on its flag" % w)
        elif want != (w in got):
            rep.bad(key, rule, "keyword %r is %slisted although its flag is "
                    "%s" % (w, "" if w in got else "not ",
                            "set" if want else "not set"))
