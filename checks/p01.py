"""P01: the class-file reader follows the ClassFile structure."""

from sa.interp import Interp, Undecided
from sa.values import (Const, Term, Tup, Ref, HList, HInst, HDict, Rep, Item,
                       NONE, TRUE, FALSE, show)
from sa import ops, reader, gram
from sa.gram import Mismatch, V

META = {
    "level": "proof",
    "rule": "the sequence of reads performed by the class, member, "
            "attribute-table, code, exception and inner-class readers, loops "
            "summarised with their iteration counts, equals the JVMS 4.1 - "
            "4.7 layout, and every accessor returns the field which the "
            "layout names",
    "assumptions": ["the three primitive read operations of the unpacker "
                    "deliver consecutive bytes of the input (P06)"],
}

U = Term("param", "U")
CAFE = (0xCA, 0xFE, 0xBA, 0xBE)


def h_cp(I, f, args, kw, node):
    I.emit("cp", I.norm(args[0]), [I.norm(args[1])], node=node)
    return NONE


def h_deref(I, f, a, kw, node):
    idx = a[1] if len(a) > 1 else list(kw.values())[0]
    return Term("deref", I.norm(idx))


def setup(prog, **more):
    I = Interp(prog).load_all()
    I.hooks = reader.hooks(**{
        "JavaConstantPool.unpack": h_cp,
        "JavaConstantPool.deref_const": h_deref})
    I.hooks.update(more)
    return I


def deref(t):
    return Term("deref", t)


def att(I, st, o, name):
    saved = I.st
    I.st = st
    try:
        return I.getattr(o, name)
    finally:
        I.st = saved


def callm(I, st, o, name, *args):
    """outcomes of calling a method in a final state: [(state, value)]"""
    out = []
    for p in I.explore(lambda: I.call(I.getattr(o, name), list(args), {}),
                       st):
        if p.kind == "raise":
            out.append((p, None))
        else:
            out.append((p, p.val))
    return out


def nrm(I, st, v):
    saved = I.st
    I.st = st
    try:
        return I.norm(v)
    finally:
        I.st = saved


def want_eq(rep, I, key, rule, what, got, want, st):
    g = nrm(I, st, got)
    w = nrm(I, st, want)
    rep.check(g == w, key, rule, "%s is %s, should be %s" % (
        what, show(g), show(w)))


def flag_value(I, st, o):
    return att(I, st, o, "access_flags")


def check_attrs(rep, I, key, rule, st, owner, env):
    """the attribute table stores each length-delimited body by name"""
    a = att(I, st, owner, "attribs")
    d = I_store(I, st, a)
    h = st.heap.get(d.addr) if d is not None else None
    if h is None and isinstance(a, Ref):
        h = st.heap.get(a.addr)
    if not isinstance(h, HDict):
        raise Undecided("attribute table is %s" % show(a))
    if h.entries or h.base is not None or len(h.reps) != 1:
        raise Undecided("attribute table entries")
    r = h.reps[0]
    e2 = env["attrs"][0][1]
    want = Tup([deref(e2["aname"]), e2["adata"]])
    rep.ok(key, rule)
    for cond, ents in r.alts:
        ents = [x for x in ents]
        if not ents:
            rep.bad(key, rule, "an attribute is not stored if %s" % ", ".join(
                "%s%s" % ("" if b else "not ", show(c)) for c, b in cond))
            continue
        want_eq(rep, I, key, rule, "the stored attribute",
                Tup([ents[-1][0], ents[-1][1]]), want, st)


def I_store(I, st, v):
    saved = I.st
    I.st = st
    try:
        return I.store(v)
    finally:
        I.st = saved


def check_member(rep, I, key, rule, st, members, env, is_method):
    it, alts = gram.rep_of(I, st, members)
    if len(alts) != 1 or len(env) != 1 or alts[0][0]:
        raise Undecided("member alternatives")
    vals = alts[0][1]
    if len(vals) != 1:
        rep.bad(key, rule, "%d members are made per entry" % len(vals))
        return
    m = vals[0]
    e2 = env[0][1]
    for meth, want in (("get_name", deref(e2["name"])),
                       ("get_descriptor", deref(e2["desc"]))):
        for p, v in callm(I, st, m, meth):
            if v is None:
                rep.bad(key + ":" + meth, rule, "%s raises %s" % (
                    meth, show(p.val)))
            else:
                want_eq(rep, I, key + ":" + meth, rule, meth, v, want, p.st)
    want_eq(rep, I, key + ":flags", rule, "access_flags",
            flag_value(I, st, m), e2["flags"], st)
    v = att(I, st, m, "is_method")
    rep.check(v == Const(is_method), key + ":kind", rule,
              "is_method is %s" % show(v))
    check_attrs(rep, I, key + ":attributes", rule, st, m, e2)


def magic_paths(I, paths, up):
    good, bad = [], []
    for p in paths:
        g = reader.grammar(I, p.events, up, ("cp",))
        good.append((p, g)) if p.kind != "raise" else bad.append((p, g))
    return good, bad


def magic_known(I, p, env):
    """the path implies that the four bytes are the magic number"""
    rs = [gram.known(I, p.st, ops.cond_eq(env["m%d" % i], Const(c)))
          for i, c in enumerate(CAFE)]
    return rs


def split_magic(I, p, g, up):
    """the magic number may be read as four bytes, one word or a string"""
    if g and g[0][0] == "u" and g[0][1] == "I":
        r = gram.known(I, p.st, ops.cond_eq(g[0][2], Const(0xCAFEBABE)))
        return r, g[1:]
    if g and g[0][0] == "b" and g[0][1] == Const(4):
        r = gram.known(I, p.st, ops.cond_eq(g[0][2], Const(bytes(CAFE))))
        return r, g[1:]
    env = {}
    if len(g) < 4:
        raise Mismatch("only %d fields are read" % len(g))
    gram.match(I, g[:4], gram.MAGIC, env)
    rs = magic_known(I, p, env)
    r = True if all(x is True for x in rs) else (
        False if any(x is False for x in rs) else None)
    return r, g[4:]


def check_entry(rep, I, name, thunk, up, premagic=False):
    rule = "class-structure"
    paths = I.run(thunk)
    good, bad = magic_paths(I, paths, up)
    rep.cover(I)
    if not good:
        rep.bad("%s:accepts" % name, rule, "no input is accepted")
        return []
    out = []
    # the reader never rejects a class file: every exceptional path fails on
    # the magic number before anything else is read
    key = "%s:rejects-only-bad-magic" % name
    rep.ok(key, rule)
    for p, g in bad:
        try:
            r, rest = (True, g) if premagic else split_magic(I, p, g, up)
        except Mismatch:
            # gives up after the first differing byte
            r, rest = None, ()
            env = [x[2] for x in g if x[0] == "u"]
            rs = [gram.known(I, p.st, ops.cond_eq(t, Const(c)))
                  for t, c in zip(env, CAFE)]
            if any(x is False for x in rs):
                r = False
        if r is not False:
            rep.bad(key, rule, "raises %s after reading %s" % (
                show(p.val), gram.shape(g)), p.loc)
        elif rest:
            pass
    key = "%s:magic" % name
    rep.ok(key, rule)
    for p, g in good:
        if premagic:
            rest = g
        else:
            try:
                r, rest = split_magic(I, p, g, up)
            except Mismatch as e:
                rep.bad(key, rule, str(e))
                continue
            if r is not True:
                rep.bad(key, rule, "a file which does not start with the "
                        "magic number is accepted")
                continue
        k2 = "%s:layout" % name
        env = {}
        try:
            gram.match(I, rest, gram.CLASSBODY, env)
        except Mismatch as e:
            rep.bad(k2, rule, str(e))
            continue
        rep.ok(k2, rule)
        out.append((p, env))
    return out


def check_values(rep, I, name, p, o, env):
    rule = "accessor-returns-field"
    st = p.st
    for meth, want in (("get_version", Tup([env["major"], env["minor"]])),
                       ("get_this", deref(env["this"]))):
        key = "%s:%s" % (name, meth)
        with rep.guard(key, rule):
            for q, v in callm(I, st, o, meth):
                if v is None:
                    rep.bad(key, rule, "%s raises" % meth)
                else:
                    want_eq(rep, I, key, rule, meth, v, want, q.st)
    key = "%s:get_super" % name
    with rep.guard(key, rule):
        for q, v in callm(I, st, o, "get_super"):
            z = gram.known(I, q.st, ops.cond_truth(env["super"]))
            if z is None:
                rep.bad(key, rule, "get_super does not distinguish the "
                        "missing superclass")
            elif z:
                want_eq(rep, I, key, rule, "get_super", v,
                        deref(env["super"]), q.st)
            else:
                rep.check(v is not None and v in (Const(""), NONE), key,
                          rule, "missing superclass is reported as %s" %
                          show(v))
    key = "%s:get_interfaces" % name
    with rep.guard(key, rule):
        for q, v in callm(I, st, o, "get_interfaces"):
            it, alts = gram.rep_of(I, q.st, v)
            if len(alts) != 1 or len(alts[0][1]) != 1:
                raise Undecided("interfaces")
            got = nrm(I, q.st, alts[0][1][0])
            e2 = env["ifs"]
            if e2[0][0] == "arr":
                w = deref(I.elem_of(e2[0][1]))
            else:
                w = deref(e2[0][1]["if"])
            ok = got == w
            rep.check(ok and not alts[0][0], key, rule,
                      "an interface is reported as %s, should be %s" % (
                          show(got), show(w)))
    with rep.guard("%s:access_flags" % name, rule):
        want_eq(rep, I, "%s:access_flags" % name, rule, "access_flags",
                flag_value(I, st, o), env["flags"], st)
    for kind, ism in (("fields", False), ("methods", True)):
        key = "%s:%s" % (name, kind)
        with rep.guard(key, rule):
            check_member(rep, I, key, rule, st, att(I, st, o, kind),
                         env[kind], ism)
    with rep.guard("%s:attributes" % name, rule):
        check_attrs(rep, I, "%s:attributes" % name, rule, st, o, env)


def run(rep, prog, tier):
    I = setup(prog)

    # 1. JavaClassInfo.unpack
    def t1():
        up = reader.mkup(I, U)
        o = I.call(I.get("", "JavaClassInfo"), [], {})
        I.call(I.getattr(o, "unpack"), [up], {})
        return o
    with rep.guard("class:layout", "class-structure"):
        for p, env in check_entry(rep, I, "class", t1, U):
            check_values(rep, I, "class", p, p.val, env)

    # 2. unpack_class(data)
    D = Term("param", "data")
    UD = Term("up", D)

    def t2():
        return I.call(I.get("", "unpack_class"), [D], {})
    with rep.guard("unpack_class:layout", "class-structure"):
        for p, env in check_entry(rep, I, "unpack_class", t2, UD):
            if not isinstance(p.val, Ref):
                rep.bad("unpack_class:result", "class-structure",
                        "returns %s" % show(p.val))
                continue
            check_values(rep, I, "unpack_class", p, p.val, env)

    # 3. unpack_class with the magic number already consumed
    for nm, mg in (("tuple", Tup([Const(c) for c in CAFE])),
                   ("bytes", Const(bytes(CAFE))),
                   ("str", Const("\xca\xfe\xba\xbe"))):
        def t3(mg=mg):
            return I.call(I.get("", "unpack_class"), [D],
                          {"magic": mg})
        n = "premagic-%s" % nm
        with rep.guard(n + ":layout", "class-structure"):
            for p, env in check_entry(rep, I, n, t3, UD, True):
                check_values(rep, I, n, p, p.val, env)
    for nm, mg in (("tuple", Tup([Const(c) for c in (0xCA, 0xFE, 0xBA, 1)])),
                   ("bytes", Const(b"\x50\x4b\x03\x04"))):
        def t4(mg=mg):
            return I.call(I.get("", "unpack_class"), [D],
                          {"magic": mg})
        key = "badmagic-%s" % nm
        with rep.guard(key, "magic-checked"):
            ps = I.run(t4)
            rep.check(all(p.kind == "raise" for p in ps) and ps, key,
                      "magic-checked", "a wrong magic number given by the "
                      "caller is accepted")

    # 4. code, exceptions, inner classes
    def t5():
        up = reader.mkup(I, U)
        o = I.call(I.get("", "JavaCodeInfo"), [cpinst(I)], {})
        I.call(I.getattr(o, "unpack"), [up], {})
        return o
    rule = "code-structure"
    with rep.guard("code:layout", rule):
        for p in I.run(t5):
            if p.kind == "raise":
                rep.bad("code:layout", rule, "raises %s" % show(p.val), p.loc)
                continue
            env = {}
            try:
                gram.match(I, reader.grammar(I, p.events, U), gram.CODE, env)
            except Mismatch as e:
                rep.bad("code:layout", rule, str(e))
                continue
            rep.ok("code:layout", rule)
            for a, w in (("max_stack", "stack"), ("max_locals", "locals"),
                         ("code", "code")):
                want_eq(rep, I, "code:" + a, rule, a,
                        att(I, p.st, p.val, a), env[w], p.st)
            with rep.guard("code:exceptions", rule):
                it, alts = gram.rep_of(I, p.st, att(I, p.st, p.val,
                                                    "exceptions"))
                if len(alts) != 1 or len(alts[0][1]) != 1:
                    raise Undecided("exception table")
                x = alts[0][1][0]
                e2 = env["excs"][0][1]
                check_exc(rep, I, "code:exceptions", rule, p.st, x, e2)
            with rep.guard("code:attributes", rule):
                check_attrs(rep, I, "code:attributes", rule, p.st, p.val, env)

    def t6():
        up = reader.mkup(I, U)
        o = I.call(I.get("", "JavaInnerClassInfo"),
                   [cpinst(I)], {})
        I.call(I.getattr(o, "unpack"), [up], {})
        return o
    rule = "innerclass-structure"
    with rep.guard("inner:layout", rule):
        for p in I.run(t6):
            env = {}
            try:
                gram.match(I, reader.grammar(I, p.events, U), gram.INNER, env)
            except Mismatch as e:
                rep.bad("inner:layout", rule, str(e))
                continue
            rep.ok("inner:layout", rule)
            for a, w in (("inner_info_ref", "inner"),
                         ("outer_info_ref", "outer"), ("name_ref", "name"),
                         ("access_flags", "flags")):
                want_eq(rep, I, "inner:" + a, rule, a,
                        att(I, p.st, p.val, a), env[w], p.st)
            for q, v in callm(I, p.st, p.val, "get_name"):
                if v is None:
                    rep.bad("inner:get_name", rule, "raises")
                else:
                    want_eq(rep, I, "inner:get_name", rule, "get_name", v,
                            deref(env["name"]), q.st)

    # 5. detection
    rule = "magic-detection"
    with rep.guard("is_class", rule):
        ps = I.run(lambda: I.call(I.get("", "is_class"), [D], {}))
        rep.ok("is_class", rule)
        for p in ps:
            if p.kind == "raise":
                rep.bad("is_class", rule, "raises", p.loc)
                continue
            g = reader.grammar(I, p.events, UD)
            env = [x[2] for x in g if x[0] == "u"]
            if len(env) == 4:
                rs = [gram.known(I, p.st, ops.cond_eq(t, Const(c)))
                      for t, c in zip(env, CAFE)]
                m = True if all(x is True for x in rs) else (
                    False if any(x is False for x in rs) else None)
            else:
                m, _rest = split_magic(I, p, g, UD)
            v = nrm(I, p.st, p.val)
            if isinstance(v, Term):
                r = gram.known(I, p.st, (v, True))
                v = Const(r) if r is not None else v
            if m is None and isinstance(v, Term):
                raise Undecided("result %s" % show(v))
            rep.check(v == Const(m), "is_class", rule,
                      "answers %s when the magic number is %s" % (
                          show(v), "there" if m else "not there"))
    rep.expect = 60


def cpinst(I):
    return I.syminst(I.get("", "JavaConstantPool"), "cpool")


def check_exc(rep, I, key, rule, st, x, e2):
    for a, w in (("start_pc", "start"), ("end_pc", "end"),
                 ("handler_pc", "handler"), ("catch_type_ref", "type")):
        want_eq(rep, I, key + ":" + a, rule, a, att(I, st, x, a), e2[w], st)
