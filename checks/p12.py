"""P12: attribute accessors read their attribute with its layout."""

from sa.interp import Interp, Undecided, term_mentions
from sa.values import Const, Term, Tup, Ref, NONE, Item, Rep, show
from sa import ops, reader, gram
from sa.gram import V, Mismatch
from checks.p01 import nrm, deref, h_deref, callm, att
from checks import p13

META = {
    "level": "proof",
    "rule": "with every attribute of JVMS 4.7 present as a separate symbolic "
            "buffer, an accessor opens the buffer of its own attribute only, "
            "reads exactly the layout of JVMS 4.7 from it and returns the "
            "values of the fields; with that attribute missing it returns "
            "its empty value and reads nothing",
    "assumptions": ["the primitive read operations deliver consecutive "
                    "bytes (P06)", "the annotation structures are decided "
                    "by P13"],
}

NAMES = """ConstantValue Code StackMapTable Exceptions InnerClasses
EnclosingMethod Synthetic Signature SourceFile SourceDebugExtension
LineNumberTable LocalVariableTable LocalVariableTypeTable Deprecated
RuntimeVisibleAnnotations RuntimeInvisibleAnnotations
RuntimeVisibleParameterAnnotations RuntimeInvisibleParameterAnnotations
RuntimeVisibleTypeAnnotations RuntimeInvisibleTypeAnnotations
AnnotationDefault BootstrapMethods MethodParameters Module""".split()

REF = [("H", "ref")]
ANNOS = [("H", "n"), ("*", V("n"), [("x", "anno", "a")], "annos")]
PANNOS = [("B", "np"), ("*", V("np"), ANNOS, "params")]
LVT = [("H", "n"), ("*", V("n"), [
    ("H", "start"), ("H", "len"), ("H", "name"), ("H", "desc"),
    ("H", "idx")], "vars")]

EMPTY = (NONE, Tup([]), Const(""))


def buf(name):
    return Term("att", name)


def owner(I, cname, method, missing=None):
    cls = I.get("", cname)
    if cname == "JavaClassInfo":
        o = I.call(cls, [], {})
    elif cname == "JavaMemberInfo":
        o = I.call(cls, [Term("param", "CP")], {"is_method": Const(method)})
    else:
        o = I.call(cls, [Term("param", "CP")], {})
    if cname == "JavaClassInfo":
        I.setattr(o, "cpool", Term("param", "CP"))
    at = I.getattr(o, "attribs")
    for n in NAMES:
        if n != missing:
            I.setitem(at, Const(n), buf(n))
    return o


def h_anno(I, f, a, kw, node):
    up = I.norm(a[1])
    I.emit("anno", up, [I.norm(a[0])], node=node)
    return NONE


def h_code(I, f, a, kw, node):
    I.emit("code", I.norm(a[1]), [I.norm(a[0])], node=node)
    return NONE


def h_cpderef(I, f, a, kw, node):
    t = f.args[0]
    if t == Term("param", "CP"):
        return deref(I.norm(a[0]))
    return NotImplemented


# -- what the accessors return --------------------------------------------

def v_field(f):
    return lambda I, p, env: env[f]


def v_deref(f):
    return lambda I, p, env: deref(env[f])


def t_seq(elem):
    """a sequence with one element per table entry; elem(env) -> term"""
    def test(ck, I, p, v, env, tab):
        saved = I.st
        I.st = p.st
        try:
            segs = I.segs_of(v)
        finally:
            I.st = saved
        if len(segs) == 1 and not isinstance(segs[0], (Item, Rep)):
            # an array read in one go is its elements
            e = env[tab]
            if e and e[0][0] == "arr":
                return ck.same(show(v), show(e[0][1]), "the result")
            raise Undecided("result %s" % show(v))
        if len(segs) != 1 or not isinstance(segs[0], Rep):
            return ck.bad("the result %s is not one entry per table entry"
                          % show(nrm(I, p.st, v)))
        r = segs[0]
        for path, items in r.alts:
            if len(items) != 1 or not isinstance(items[0], Item):
                return ck.bad("%d entries are returned per table entry%s" % (
                    len(items), " if " + ", ".join(
                        show(c) for c, _b in path) if path else ""))
            e2 = env[tab][0][1]
            if env[tab][0][0] == "arr":
                raise Undecided("array table")
            g = nrm(I, p.st, items[0].v)
            w = elem(e2)
            if callable(w):
                w(ck, I, p, items[0].v, e2)
            elif g != w:
                ck.bad("an entry of the result is %s, should be %s" % (
                    show(g), show(w)))
        return None
    return test


class Ck(object):
    def __init__(self, rep, key, rule):
        self.rep, self.key, self.rule = rep, key, rule

    def bad(self, msg):
        self.rep.bad(self.key, self.rule, msg)

    def same(self, a, b, what):
        if a != b:
            self.bad("%s is %s, should be %s" % (what, a, b))


def value(f):
    """compare the result with a term made from the layout's fields"""
    def test(ck, I, p, v, env, _tab):
        w = f(I, p, env)
        g = nrm(I, p.st, v)
        if g != w:
            ck.bad("the result is %s, should be %s" % (show(g), show(w)))
    return test


def anno_seq(ck, I, p, v, env, _tab):
    return t_seq(lambda e: anno_elem)(ck, I, p, v, env, "annos")


def anno_elem(ck, I, p, v, env):
    want = env["a"].args[0]
    g = nrm(I, p.st, v)
    if g != want:
        ck.bad("an entry of the result is %s, not the annotation read" %
               show(g))


def pannos(ck, I, p, v, env, _tab):
    def inner(ck, I, p, v, e2):
        anno_seq(ck, I, p, v, e2, None)
    return t_seq(lambda e: inner)(ck, I, p, v, env, "params")


def linerel(ck, I, p, v, env, _tab):
    """(offset, line - first line)"""
    def elem(ck, I, p, v, e2):
        if not isinstance(v, Tup) or len(v.items) != 2:
            ck.bad("an entry is %s" % show(nrm(I, p.st, v)))
            return
        o, l = [nrm(I, p.st, x) for x in v.items]
        lin = ops.lin(l)
        if o == e2["pc"] and lin is not None and lin[1].get(
                e2["line"]) == 1 and len(lin[1]) == 2 and -1 in \
                lin[1].values() and lin[0] == 0:
            return
        # the table may be traversed again: compare by the entry symbol
        ck.bad("an entry is (%s, %s), should be (%s, %s - first line)" % (
            show(o), show(l), show(e2["pc"]), show(e2["line"])))
    return t_seq(lambda e: elem)(ck, I, p, v, env, "lines")


def inner(ck, I, p, v, env, _tab):
    def elem(ck, I, p, v, e2):
        for n, f in (("inner_info_ref", "inner"), ("outer_info_ref", "outer"),
                     ("name_ref", "name"), ("access_flags", "flags")):
            g = nrm(I, p.st, att(I, p.st, v, n))
            if g != e2[f]:
                ck.bad("%s is %s, should be %s" % (n, show(g), show(e2[f])))
        for q, r in callm(I, p.st, v, "get_name"):
            g = nrm(I, q.st, r) if r is not None else None
            if g != deref(e2["name"]):
                ck.bad("get_name() of an entry is %s" % show(g))
    return t_seq(lambda e: elem)(ck, I, p, v, env, "inner")


def code(ck, I, p, v, env, _tab):
    want = env["c"].args[0]
    g = nrm(I, p.st, v)
    if g != want:
        ck.bad("the result is %s, not the code read" % show(g))
        return
    cp = nrm(I, p.st, att(I, p.st, v, "cpool"))
    ck.same(show(cp), show(Term("param", "CP")), "the code's constant pool")


def enclosing(ck, I, p, v, env, _tab):
    ci, mi = env["class"], env["method"]
    c = gram.known(I, p.st, ops.cond_eq(ci, Const(0)))
    m = gram.known(I, p.st, ops.cond_eq(mi, Const(0)))
    g = nrm(I, p.st, v)

    def has(t):
        return term_mentions(g, lambda x: x == t)
    if c is True:
        if g not in EMPTY and has(deref(ci)):
            ck.bad("the result of a missing class is %s" % show(g))
        return
    if not has(deref(ci)):
        ck.bad("the result %s does not name the enclosing class" % show(g))
    if m is False and not has(deref(mi)):
        ck.bad("the result %s does not name the enclosing method" % show(g))
    if m is None and c is None:
        raise Undecided("both references may be zero")


def debugext(ck, I, p, v, env, _tab):
    g = nrm(I, p.st, v)
    b = buf("SourceDebugExtension")
    if g in EMPTY and gram.known(I, p.st, ops.cond_truth(b)) is False:
        return
    if not term_mentions(g, lambda x: x == b):
        ck.bad("the result is %s" % show(g))
        return
    if not term_mentions(g, lambda x: isinstance(x, Term) and x.op == "attr"
                         and x.args[1] == "decode"):
        if not (isinstance(g, Term) and g.op == "call"):
            raise Undecided("result %s" % show(g))
        if g.args[0] != Term("x") and getattr(g.args[0], "name", "") == \
                "builtins.str" and len(g.args[1]) == 1:
            ck.bad("the result is the representation of the bytes, not "
                   "their text")


def one_value(I, p, g):
    c, fs, e = p13.split_value(I, p, g, 0, 0)
    if e != len(g):
        raise Mismatch("reads %s after the value" % reader.shape(g[e:]))
    return {"tag": c, "fields": fs, "code": g[0][2]}


def unknown_tag(I, p, up):
    """the path refutes every tag, here or in an iteration"""
    g = reader.grammar(I, p.events, up, EXTRA)
    if not g or g[0][0] != "u":
        return False
    c = p13.tag_of(I, p.st, g[0][2])
    return c is None or c == "["


def defval(ck, I, p, v, env, _tab):
    saved = I.st
    I.st = p.st
    try:
        items = I.known_items(v)
    finally:
        I.st = saved
    if items is None or len(items) != 2:
        ck.bad("the result is %s, not a tag and its value" % show(
            nrm(I, p.st, v)))
        return
    tg, d = [nrm(I, p.st, x) for x in items]
    if tg not in (Term("chr1", env["code"]), Const(env["tag"])):
        ck.bad("the tag is given as %s" % show(tg))
    f = env["fields"]
    if env["tag"] in p13.CONSTTAGS + "c" and d != f[0] or \
            env["tag"] == "e" and d != Tup(f):
        ck.bad("the value for tag %r is %s" % (env["tag"], show(d)))


LINES = [("H", "n"), ("*", V("n"), [("H", "pc"), ("H", "line")], "lines")]
M, F, C, K = ("JavaMemberInfo", True), ("JavaMemberInfo", False), (
    "JavaClassInfo", None), ("JavaCodeInfo", None)

SPEC = [
    (C, "get_sourcefile", "SourceFile", REF, value(v_deref("ref")), None),
    (C, "get_signature", "Signature", REF, value(v_deref("ref")), None),
    (M, "get_signature", "Signature", REF, value(v_deref("ref")), None),
    (F, "get_signature", "Signature", REF, value(v_deref("ref")), None),
    (C, "get_annotations", "RuntimeVisibleAnnotations", ANNOS, anno_seq,
     None),
    (C, "get_invisible_annotations", "RuntimeInvisibleAnnotations", ANNOS,
     anno_seq, None),
    (M, "get_annotations", "RuntimeVisibleAnnotations", ANNOS, anno_seq,
     None),
    (F, "get_annotations", "RuntimeVisibleAnnotations", ANNOS, anno_seq,
     None),
    (M, "get_invisible_annotations", "RuntimeInvisibleAnnotations", ANNOS,
     anno_seq, None),
    (F, "get_invisible_annotations", "RuntimeInvisibleAnnotations", ANNOS,
     anno_seq, None),
    (M, "get_parameter_annotations", "RuntimeVisibleParameterAnnotations",
     PANNOS, pannos, None),
    (M, "get_invisible_parameter_annotations",
     "RuntimeInvisibleParameterAnnotations", PANNOS, pannos, None),
    (C, "get_innerclasses", "InnerClasses", [
        ("H", "n"), ("*", V("n"), gram.INNER, "inner")], inner, None),
    (C, "get_enclosingmethod", "EnclosingMethod",
     [("H", "class"), ("H", "method")], enclosing, None),
    (C, "get_source_debug_extension", "SourceDebugExtension", [], debugext,
     None),
    (M, "get_code", "Code", [("x", "code", "c")], code, None),
    (M, "get_exceptions", "Exceptions", [
        ("H", "n"), ("*", V("n"), [("H", "e")], "excs")],
     t_seq(lambda e: deref(e["e"])), "excs"),
    (F, "get_constantvalue", "ConstantValue", REF, value(v_field("ref")),
     None),
    (F, "deref_constantvalue", "ConstantValue", REF, value(v_deref("ref")),
     None),
    (M, "get_annotationdefault", "AnnotationDefault", one_value, defval,
     None),
    (K, "get_linenumbertable", "LineNumberTable", LINES,
     t_seq(lambda e: Tup([e["pc"], e["line"]])), "lines"),
    (K, "get_relativelinenumbertable", "LineNumberTable", LINES, linerel,
     None),
    (K, "get_localvariabletable", "LocalVariableTable", LVT,
     t_seq(lambda e: Tup([e["start"], e["len"], e["name"], e["desc"],
                          e["idx"]])), "vars"),
    (K, "get_localvariabletypetable", "LocalVariableTypeTable", LVT,
     t_seq(lambda e: Tup([e["start"], e["len"], e["name"], e["desc"],
                          e["idx"]])), "vars"),
]
EXTRA = ("anno", "call", "code")


def setup(prog):
    I = Interp(prog).load_all()
    I.hooks = reader.hooks(**{
        "JavaConstantPool.deref_const": h_deref,
        "JavaAnnotation.unpack": h_anno,
        "JavaCodeInfo.unpack": h_code,
        "meth:deref_const": h_cpderef})
    return I


def opens(events, out):
    for e in events:
        if e.kind == "open":
            out.append(e.fn)
        elif e.kind == "loop":
            for p in e.fn.conts():
                opens(p.st.events, out)
    return out


def run(rep, prog, tier):
    I = setup(prog)
    for (cname, method), meth, attr, layout, test, tab in SPEC:
        name = "%s.%s%s" % (cname, meth, "" if method is None else
                            ":method" if method else ":field")
        rule = "attribute-layout"
        key = name + ":present"
        up = Term("up", buf(attr))
        with rep.guard(key, rule):
            rep.ok(key, rule)
            ck = Ck(rep, key, rule)
            for p in I.run(lambda: I.call(I.getattr(owner(
                    I, cname, method), meth), [], {})):
                if p.kind == "raise" and layout is one_value and \
                        unknown_tag(I, p, up):
                    continue
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                if gram.known(I, p.st, ops.cond_truth(buf(attr))) is False:
                    continue        # an empty attribute is malformed
                if gram.known(I, p.st, ops.cond_isnone(buf(attr))) is True:
                    continue
                for o in opens(p.events, []):
                    if o != buf(attr):
                        ck.bad("%s is read" % show(o))
                try:
                    g = reader.grammar(I, p.events, up, EXTRA)
                    env = layout(I, p, g) if callable(layout) else \
                        gram.match(I, g, layout, {})
                except Mismatch as e:
                    ck.bad(str(e))
                    continue
                v = p.val
                n = env.get("n", env.get("np"))
                if n is not None and gram.known(
                        I, p.st, ops.cond_eq(n, Const(0))) is True and \
                        nrm(I, p.st, v) in EMPTY:
                    continue
                if tab is None and meth == "get_relativelinenumbertable" \
                        and nrm(I, p.st, v) == Tup([]):
                    continue
                test(ck, I, p, v, env, tab)
        key = name + ":missing"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            ck = Ck(rep, key, rule)
            for p in I.run(lambda: I.call(I.getattr(owner(
                    I, cname, method, attr), meth), [], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                for o in opens(p.events, []):
                    ck.bad("%s is read" % show(o))
                g = nrm(I, p.st, p.val)
                if g not in EMPTY and not (
                        isinstance(g, Term) and g.op == "list" and
                        not g.args[0]):
                    ck.bad("the result is %s" % show(g))
    independent(rep, I)
    default_shown(rep, I)
    rep.cover(I)
    rep.expect = 40


def cut(events, name):
    """events behind a mark"""
    for i, e in enumerate(events):
        if e.kind == "mark" and e.fn == Const(name):
            return events[i + 1:]
    return []


def independent(rep, I):
    """what was asked for before does not influence an answer"""
    rule = "accessors-independent"
    for owner_ in (C, M, F, K):
        mine = [s for s in SPEC if s[0] == owner_ and s[3] is not one_value]
        for (cname, method), meth, attr, layout, test, tab in mine:
            for other in mine:
                key = "%s.%s%s:after:%s" % (
                    cname, meth, "" if method is None else ":method"
                    if method else ":field", other[1])
                with rep.guard(key, rule):
                    rep.ok(key, rule)
                    ck = Ck(rep, key, rule)

                    def go():
                        o = owner(I, cname, method)
                        a = I.call(I.getattr(o, other[1]), [], {})
                        I.emit("mark", Const("second"), [])
                        return Tup([a, I.call(I.getattr(o, meth), [], {})])
                    for p in I.run(go):
                        if p.kind == "raise":
                            rep.bad(key, rule, "raises %s" % show(p.val),
                                    p.loc)
                            continue
                        v1, v = p.val.items
                        if other[1] == meth and nrm(I, p.st, v) == nrm(
                                I, p.st, v1):
                            continue
                        up = Term("up", buf(attr))
                        g = reader.grammar(I, cut(p.events, "second"), up,
                                           EXTRA)
                        if not g and other[2] == attr:
                            # remembered from the first call
                            g = reader.grammar(I, p.events, up, EXTRA)
                        try:
                            env = gram.match(I, g, layout, {})
                        except Mismatch as e:
                            if gram.known(I, p.st, ops.cond_truth(
                                    buf(attr))) is not False:
                                ck.bad("%s when asked after %s()" % (
                                    e, other[1]))


def default_shown(rep, I):
    rule = "annotation-default"
    cur = {}

    def h(I_, f, a, kw, n):
        return cur["val"]
    I.hooks["JavaMemberInfo.get_annotationdefault"] = h
    A, B = Term("num", "A"), Term("num", "B")
    for tag in p13.CONSTTAGS + "c":
        shown(rep, I, rule, cur, tag, Tup([Const(tag), A]), [A])
    shown(rep, I, rule, cur, "e", Tup([Const("e"), Tup([A, B])]), [A, B])
    shown(rep, I, rule, cur, "none", NONE, None)


def shown(rep, I, rule, cur, tag, val, want):
    key = "deref_annotationdefault:" + tag
    cur["val"] = val
    with rep.guard(key, rule):
        rep.ok(key, rule)
        for p in I.run(lambda: I.call(I.getattr(owner(
                I, "JavaMemberInfo", True), "deref_annotationdefault"), [],
                {})):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            g = nrm(I, p.st, p.val)
            if want is None:
                if g not in EMPTY:
                    rep.bad(key, rule, "the result is %s" % show(g))
                continue
            if opens(p.events, []):
                raise Undecided("the attribute is read")
            for w in want:
                if not term_mentions(g, lambda x: x == w):
                    rep.bad(key, rule, "the result %s lacks %s" % (
                        show(g), show(w)))
