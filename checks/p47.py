"""P47: listings of classes show what is asked for."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, show
from sa import gram, ops
from checks.ctree import param
from checks.argp import Argv
from checks.p31 import excname, Bad
from checks.obj import Objs, Lines, Dict, text, num, pyval, isobj

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the command "
                 "over a class whose members have symbolic access and whose "
                 "data are opaque; what is printed or dumped is compared with "
                 "the data asked for",
    "rule": "the members listed are those with the access asked for, in the "
            "order of the class; each detail asked for is given completely "
            "and under its label, details not asked for are not given; JSON "
            "data has the same members and can be dumped",
    "assumptions": ["classes with more members, attributes and instructions "
                    "are treated alike"],
}

FLAGS = [("-s", "sigs"), ("-c", "code"), ("-l", "lines"), ("-o", "locals"),
         ("-p", "pool")]
MARKS = ["deprecated", "synthetic", "bridge", "varargs"]
SHOW = {"--header": "none", "--public": "public", "--package": "protected",
        "--private": "all"}


class Klass(object):
    """a class with two fields and two methods

    full: whether it has every optional attribute"""

    def __init__(self, I, full, static=False, marks=None, zero=False):
        self.I, self.full = I, full
        self.marks, self.zero = marks, zero

        def mark(w, m):
            return Const(full if marks is None else (w, m) in marks)
        self.mark, self.static = mark, static
        O = self.O = Objs(I)

        def opt(v, none=NONE):
            return v if full else none

        def deref(*a, **kw):
            v = a[0] if a else kw.get("index")
            if not isinstance(v, Term):
                raise Undecided("constant %s" % show(v))
            return text("const %s" % v.args[1][0])
        self.consts = [(text("type1"), text("value1")),
                       (text("type2"), text("value2")), (None, None),
                       (text("type4"), Const("") if zero else
                        text("value4"))]

        def pretty_const(*a, **kw):
            i = a[0] if a else kw.get("index")
            if isinstance(i, Const) and 0 < i.v <= len(self.consts):
                return Tup([NONE if x is None else x
                            for x in self.consts[i.v - 1]])
            if isobj(i):
                return Tup([text("type of %s" % i.args[1][0]),
                            Const(0) if zero else
                            text("value of %s" % i.args[1][0])])
            if isinstance(i, Const):
                I.throw("IndexError")
            raise Undecided("constant %s" % show(i))

        def constants():
            return I.newlist([Tup([Const(i + 1), t, v]) for i, (t, v) in
                              enumerate(self.consts) if t is not None])
        cpool = O.new("cpool", "cpool", {
            "consts": Tup([Tup([NONE, NONE])] + [
                Tup([Const(0) if t is None else num("tag%d" % i),
                     NONE if t is None else num("raw%d" % i)])
                for i, (t, v) in enumerate(self.consts)])}, {
            "pretty_const": pretty_const, "pretty_constants": constants,
            "deref_const": deref})
        self.annos = {}

        def annos(of):
            self.annos[of] = [text("annotation %d of %s" % (i, of))
                              for i in range(2)] if full else []
            v = Tup([O.new("anno", t.args[1][0], {}, {
                "pretty_annotation": t}) for t in self.annos[of]])
            return lambda *a: v

        def fact(n):
            def f():
                v = I.truth(param(n))
                return Const(v)
            return f

        def member(name, meth):
            me = {"is_public": fact("public " + name),
                  "is_protected": fact("protected " + name),
                  "is_private": fact("private " + name),
                  "pretty_descriptor": text("descriptor " + name),
                  "get_signature": opt(text("signature " + name)),
                  "get_annotations": annos(name),
                  "get_invisible_annotations": lambda: Tup([]),
                  "get_name": text("name " + name),
                  "pretty_type": text("type " + name),
                  "pretty_access_flags": lambda: I.newlist(
                      [text("flag1 " + name), text("flag2 " + name)], "gen"),
                  "is_deprecated": mark("deprecated", name),
                  "is_synthetic": mark("synthetic", name)}
            if not meth:
                me["get_constantvalue"] = opt(num("constant " + name))
            else:
                def code(n):
                    return Const(n), num("offset%d %s" % (n, name))
                ex = O.new("handler", name, {
                    "start_pc": num("start " + name),
                    "end_pc": num("end " + name),
                    "handler_pc": num("target " + name),
                    "catch_type": num("catch type " + name)}, {
                    "pretty_catch_type": text("catch " + name)})
                c = O.new("code", name, {
                    "max_stack": num("stack " + name),
                    "max_locals": num("locals " + name),
                    "exceptions": Tup([ex] if full else [])}, {
                    "disassemble": lambda: I.newlist([
                        Tup([num("offset0 " + name), num("op0 " + name),
                             Tup([])]),
                        Tup([num("offset1 " + name), num("op1 " + name),
                             Tup([num("arg1 " + name),
                                  num("arg2 " + name)])]),
                        Tup([num("offset2 " + name), num("op2 " + name),
                             Tup([Const(0), num("arg3 " + name)])])]),
                    "get_linenumbertable": lambda: Tup([
                        Tup([num("pc%d %s" % (i, name)),
                             num("line%d %s" % (i, name))])
                        for i in range(2)] if full else []),
                    "get_localvariabletable": lambda: Tup([
                        Tup([num("%s%d %s" % (x, i, name)) for x in
                             ("vs", "vl", "vn", "vd", "vi")])
                        for i in range(2)] if full else []),
                    "get_localvariabletypetable": lambda: Tup([
                        Tup([num("%s%d %s" % (x, i, name)) for x in
                             ("ts", "tl", "tn", "td", "ti")])
                        for i in range(2)] if full else [])})
                me.update({
                    "get_code": c if name != "m1" else NONE,
                    "is_static": Const(static),
                    "is_bridge": mark("bridge", name),
                    "is_varargs": mark("varargs", name),
                    "get_arg_type_descriptors": lambda: Tup(
                        [text("arg1"), text("arg2")]),
                    "pretty_arg_types": lambda: I.newlist(
                        [text("argtype1 " + name), text("argtype2 " + name)],
                        "gen"),
                    "pretty_exceptions": lambda: I.newlist(
                        [text("throws " + name)] if full else [], "gen"),
                })
            return O.new("member", name, {"cpool": cpool,
                                          "is_method": Const(meth)}, me)
        self.major, self.minor = num("major"), num("minor")
        self.cls_fields = {
            "fields": Tup([member("f0", False), member("f1", False)]),
            "methods": Tup([member("m0", True), member("m1", True)]),
            "cpool": cpool,
            "version": Tup([self.major, self.minor])}
        self.cls_methods = {
            "get_version": Tup([self.major, self.minor]),
            "get_platform": text("platform"),
            "get_major_version": self.major,
            "get_minor_version": self.minor,
            "get_source": opt(num("index of source")),
            "get_sourcefile": opt(text("source")),
            "get_signature": opt(text("signature K")),
            "get_annotations": annos("K"),
            "get_enclosingmethod": opt(text("enclosing")),
            "pretty_descriptor": text("descriptor K"),
            "pretty_this": text("this"), "pretty_super": text("super"),
            "pretty_interfaces": lambda: I.newlist(
                [text("interface1"), text("interface2")] if full else [],
                "gen"),
            "get_provides": lambda *a, **kw: self.api("provides", a, kw),
            "get_requires": lambda *a, **kw: self.api("requires", a, kw),
        }
        self.cls = O.new("class", "K", self.cls_fields, self.cls_methods)

    def api(self, what, a, kw):
        I = self.I
        ig = a[0] if a else kw.get("ignored", Tup([]))
        if len(a) > 1 and I.truth(a[1]) or "private" in kw and I.truth(
                kw["private"]):
            raise Bad("asks for private APIs")
        pats = tuple(x.v for x in I.known_items(ig))
        return I.newlist([Const("%s %s" % (what, " ".join(pats))),
                          Const("another which it " + what)])


def platform(I, f, a, kw, node):
    if [x for x in a] != [num("major"), num("minor")] or kw:
        raise Bad("asks for the platform of %s" % ", ".join(map(show, a)))
    return text("platform")


def opname(I, f, a, kw, node):
    n = a[0].args[1][0]
    if not n.startswith("op"):
        raise Bad("asks for the name of %s" % n)
    return text("name of " + n)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 40
    I.MAXREC = 6
    I.forksort = True
    rep.expect = 97

    def go(K, args):
        A = Argv(I)
        dumped = []

        def dump(I_, f, a, kw, node):
            if len(a) < 2 and "fp" not in kw:
                raise Undecided("dump")
            dumped.append(("dump", pyval(I, a[0])))
            return NONE

        def thunk():
            A.reset()
            del dumped[:]
            I.hooks = K.O.hooks()
            I.hooks.update(A.hooks())

            def unpackf(I_, f, a, kw, node):
                if a[:1] != [Const("X.class")]:
                    raise Bad("reads %s" % show(a[0]))
                return K.cls
            I.hooks.update({
                "unpack_classfile": unpackf,
                "platform_from_version": platform,
                "opcodes.get_opname_by_code": opname,
                "ext:json.dump": dump,
            })
            try:
                r = I.call(I.get("classinfo", "main"), [I.newlist(
                    [Const("classinfo")] + [Const(x) for x in args] +
                    [Const("X.class")])], {})
            except PyExc as e:
                raise Bad("fails with %s" % excname(I, e.val)[:120])
            if r not in (NONE, Const(0)):
                raise Bad("has status %s" % show(r))
            return Const(tuple(dumped))
        return I.run(thunk)

    def several(args):
        names = ["b.class", "a.class", "c.class"]
        A = Argv(I)

        def thunk():
            A.reset()
            I.hooks = {}
            Ks = {n: Klass(I, False) for n in names}
            O = Objs(I)
            for n, K in Ks.items():
                K.cls = K.O.new("class", n, dict(K.cls_fields), dict(
                    K.cls_methods, pretty_this=text("this " + n),
                    pretty_descriptor=text("descriptor " + n)))
                O.objs.update(K.O.objs)
            I.hooks.update(O.hooks())
            I.hooks.update(A.hooks())
            out = []

            def unpackf(I_, f, a, kw, node):
                if not a or not isinstance(a[0], Const) or a[0].v not in Ks:
                    raise Bad("reads %s" % (show(a[0]) if a else "nothing"))
                return Ks[a[0].v].cls

            def dump(I_, f, a, kw, node):
                if not a:
                    raise Undecided("dump")
                d = pyval(I, a[0])
                v = isinstance(d, Dict) and d.get("name")
                out.append(Const(v.args[1][0][5:] if isobj(v) else show(a[0])
                                 [:60]))
                return NONE
            I.hooks.update({
                "unpack_classfile": unpackf, "ext:json.dump": dump,
                "platform_from_version": lambda *a: text("platform")})
            n = len(I.st.events)
            try:
                I.call(I.get("classinfo", "main"), [I.newlist(
                    [Const("classinfo")] + [Const(x) for x in args + names])],
                    {})
            except PyExc as e:
                raise Bad("fails with %s" % excname(I, e.val)[:120])
            for g in Lines(I.st.events[n:]).objects():
                if len(g) == 1 and g[0].args[1][0][11:] in names and \
                        g[0].args[1][0].startswith("descriptor "):
                    out.append(Const(g[0].args[1][0][11:]))
            return Tup(out)
        return I.run(thunk)

    def shown(p, how):
        """the members to be listed, or None where the path does not know"""
        out = []
        for m in ("f0", "f1", "m0", "m1"):
            if how == "all":
                out.append(m)
            elif how != "none":
                k = [gram.known(I, p.st, ops.cond_truth(param(
                    "%s %s" % (w, m)))) for w in ("public", "protected")]
                if how == "public":
                    k = k[:1]
                if True in k:
                    out.append(m)
                elif None in k:
                    # in one world it is listed, in another it is not
                    raise Bad("does not ask whether %s is %s" % (
                        m, " or ".join(w for w, x in zip(
                            ("public", "protected"), k) if x is None)))
        return out

    def listing(K, p, opts):
        full = K.full
        sh = shown(p, opts["show"])
        L = Lines(p.events)
        got = L.objects()

        def has(line, what):
            if line not in got:
                raise Bad("does not show %s" % what)

        def hasnot(lines, what):
            for line in lines:
                for g in got:
                    if set(line) <= set(g):
                        raise Bad("shows %s" % what)
        # members, in order
        descr = [g for g in got if len(g) == 1 and
                 g[0].args[1][0].startswith("descriptor ")]
        names = [g[0].args[1][0][11:] for g in descr]
        if names != ["K"] + sh:
            raise Bad("lists %s instead of %s" % (
                ", ".join(names) or "nothing", ", ".join(["K"] + sh)))
        # details
        where = {}
        cur = "K"
        for g in got:
            if g in descr:
                cur = g[0].args[1][0][11:]
            where.setdefault(g, []).append(cur)

        def detail(m, line, on, what):
            line = tuple(line)
            if on and m in ["K"] + sh:
                has(line, what + " of " + m)
                if where[line] != [m]:
                    raise Bad("shows %s of %s %s" % (
                        what, m, "%d times" % len(where[line]) if len(set(
                            where[line])) == 1 else "with " + where[line][0]))
            else:
                hasnot([line], what + " of " + m)
        v = opts["verbose"]
        header = v or opts["show"] == "none"
        for m in ("f0", "f1", "m0", "m1"):
            detail(m, [text("signature " + m)], opts["sigs"] and full,
                   "the signature")
        for m in ("f0", "f1"):
            if v:
                detail(m, [text("type of constant " + m)] + (
                    [] if K.zero else [text("value of constant " + m)]),
                    full, "the constant value")
        if v:
            for m in ("f0", "f1", "m0", "m1"):
                for i, t in enumerate(K.annos.get(m, [])):
                    if m in sh:
                        detail(m, [t], full, "the annotation %d" % i)
                        index(L, t, i)
        for m in ("m0", "m1"):
            c = opts["code"] and m == "m0"
            detail(m, [num("offset0 " + m), text("name of op0 " + m)], c,
                   "an instruction")
            detail(m, [num("offset1 " + m), text("name of op1 " + m),
                       num("arg1 " + m), num("arg2 " + m)], c,
                   "an instruction")
            detail(m, [num("offset2 " + m), text("name of op2 " + m),
                       num("arg3 " + m)], c, "an instruction")
            detail(m, [num("start " + m), num("end " + m),
                       num("target " + m), text("catch " + m)], c and full,
                   "the exception handler")
            detail(m, [num("stack " + m), num("locals " + m)], c and v,
                   "the stack and locals")
            if c and v and m in sh:
                want = "2" if K.static else "3"
                for l in L.lines:
                    if num("stack " + m) in l:
                        t = "".join(x if isinstance(x, str) else
                                    str(x) if isinstance(x, int) else " "
                                    for x in l)
                        if "Args_size=" in t and t.split("Args_size=")[
                                1].strip() != want:
                            raise Bad("counts %s arguments instead of %s" % (
                                t.split("Args_size=")[1], want))
            for i in range(2):
                detail(m, [num("line%d %s" % (i, m)), num("pc%d %s" % (
                    i, m))], opts["lines"] and full and m == "m0",
                    "a line number")
                for x in "vt":
                    detail(m, [num("%ss%d %s" % (x, i, m)),
                               num("%sl%d %s" % (x, i, m)),
                               num("%si%d %s" % (x, i, m)),
                               text("const %sn%d %s" % (x, i, m)),
                               text("const %sd%d %s" % (x, i, m))],
                           opts["locals"] and full and m == "m0",
                           "a local variable")
            if v:
                detail(m, [text("throws " + m)], full, "the exceptions")
        if v:
            cur, n = "K", {}
            for l in L.lines:
                for t in l:
                    if isobj(t) and (t,) in descr:
                        cur = t.args[1][0][11:]
                    for w in MARKS:
                        if isinstance(t, str) and w in t.lower():
                            n[w, cur] = n.get((w, cur), 0) + 1
            for m in sh:
                for w in MARKS:
                    want = int(m[0] == "m" and K.mark(w, m).v)
                    if m[0] == "m" and n.get((w, m), 0) != want:
                        raise Bad("marks %s as %s %d times instead of %d" % (
                            m, w, n.get((w, m), 0), want))
        # the header
        if header:
            detail("K", [text("signature K")], full, "the signature")
            detail("K", [text("platform")], True, "the platform")
            detail("K", [text("enclosing")], full, "the enclosing method")
            for t, w in ((K.major, "major"), (K.minor, "minor")):
                detail("K", [t], True, "the %s version" % w)
                for l in L.lines:
                    if t in l:
                        s = "".join(x for x in l if isinstance(x, str))
                        if w not in s.lower() or (
                                {"major": "minor", "minor": "major"}[w]
                                in s.lower()):
                            raise Bad("shows the %s version as %s" % (
                                w, s.strip()))
            for i, t in enumerate(K.annos["K"]):
                detail("K", [t], full, "the annotation %d" % i)
                index(L, t, i)
        for i, (t, x) in enumerate(K.consts):
            if t is None:
                continue
            detail("K", [t, x] if isobj(x) else [t], opts["pool"],
                   "the constant %d" % (i + 1))
            if opts["pool"]:
                index(L, t, i + 1)
        flat = [t for g in got for t in g]
        for t in (text("source"),):
            if full and t not in flat:
                raise Bad("does not show the source file")

    def index(L, t, i):
        import re
        for l in L.lines:
            if t in l:
                s = "".join(x if isinstance(x, str) else str(x) if isinstance(
                    x, int) else " " for x in l[:l.index(t)])
                if not re.search(r"(?<!\d)%d(?!\d)" % i, s):
                    raise Bad("shows %s with the index %s" % (
                        t.args[1][0], s.strip()))

    def dumped(K, p, opts):
        full = K.full
        if len(p.val.v) != 1:
            raise Bad("dumps %d values" % len(p.val.v))
        if Lines(p.events).lines:
            raise Bad("prints something else than JSON")
        d = p.val.v[0][1]
        dumpable(d)
        sh = shown(p, opts["show"])

        def val(d, k, want, where):
            g = d.get(k)
            if g != want:
                raise Bad("%s of %s is %s instead of %s" % (
                    k, where, short(g), short(want)))
        if not isinstance(d, Dict):
            raise Bad("dumps %s" % short(d))
        val(d, "name", text("this"), "the class")
        val(d, "extends", text("super"), "the class")
        val(d, "implements", (text("interface1"), text("interface2"))
            if full else (), "the class")
        val(d, "source_file", text("source") if full else None, "the class")
        val(d, "signature", text("signature K") if full else None,
            "the class")
        val(d, "enclosing_method", text("enclosing") if full else None,
            "the class")
        val(d, "version", (K.major, K.minor), "the class")
        val(d, "platform", text("platform"), "the class")
        want = tuple((i + 1, t, v.v if isinstance(v, Const) else v)
                     for i, (t, v) in enumerate(K.consts) if t is not None)
        val(d, "constants_pool", want if opts["pool"] else None,
            "the class")
        for w in ("provides", "requires"):
            g = d.get("class_" + w)
            if opts[w]:
                if sorted(g or ()) != sorted(apis(w, opts)):
                    raise Bad("class_%s is %s" % (w, short(g)))
            elif g is not None:
                raise Bad("has class_%s unasked" % w)
        for k, c in (("fields", "f"), ("methods", "m")):
            g = d.get(k)
            want = [m for m in sh if m[0] == c]
            if not isinstance(g, tuple) or [
                    isinstance(x, Dict) and x.get("name") for x in g] != [
                    text("name " + m) for m in want]:
                raise Bad("%s are %s instead of %s" % (
                    k, short(g), ", ".join(want)))
            for m, x in zip(want, g):
                val(x, "type", text("type " + m), m)
                val(x, "access_flags", (text("flag1 " + m),
                                        text("flag2 " + m)), m)
                val(x, "signature", text("signature " + m) if full else None,
                    m)
                if bool(x.get("deprecated")) != K.mark("deprecated", m).v:
                    raise Bad("deprecated of %s is %s" % (
                        m, x.get("deprecated")))
                if c == "m":
                    val(x, "arg_types", (text("argtype1 " + m),
                                         text("argtype2 " + m)), m)
                else:
                    val(x, "constant_value", (
                        text("type of constant " + m),
                        0 if K.zero else text("value of constant " + m))
                        if full else None, m)

    def apis(w, opts):
        pats = opts["ignore"]
        return ["%s %s" % (w, " ".join(pats)), "another which it " + w]

    def dumpable(d):
        if isinstance(d, tuple):
            if d[:1] == ("other",):
                raise Bad("%s cannot be dumped" % show(d[1]) if not
                          isinstance(d[1], str) else
                          "a %s cannot be dumped" % d[1])
            for x in d:
                dumpable(x)
        elif isinstance(d, Term) and d.op == "attr":
            raise Bad("a method %s cannot be dumped" % show(d)[:80])
        elif isinstance(d, Term) and not isobj(d):
            raise Undecided("data %s" % show(d)[:80])
        elif isinstance(d, bytes):
            raise Bad("bytes cannot be dumped")

    def provides(K, p, opts):
        L = Lines(p.events)
        s = ["".join(x if isinstance(x, str) else "" for x in l)
             for l in L.lines]
        for w in ("provides", "requires"):
            for a in apis(w, opts):
                n = sum(1 for x in s if x.strip() == a.strip())
                if n != (1 if opts[w] else 0):
                    raise Bad("lists %r %d times" % (a, n))

    def short(v):
        if isinstance(v, Term):
            return show(v)[:60]
        if isinstance(v, tuple):
            return "(%s)" % ", ".join(short(x) for x in v)[:120]
        return repr(v)

    def case(name, args, judge, opts, klasses):
        rule = "listing"
        for kn, mk in klasses:
            key = "%s of a class %s" % (name, kn)
            with rep.guard(key, rule):
                K = mk()
                try:
                    n = 0
                    for p in go(K, args):
                        if p.kind != "normal":
                            raise Undecided(p.kind)
                        n += 1
                        judge(K, p, opts)
                    if not n:
                        raise Undecided("no path")
                except Bad as e:
                    rep.bad(key, rule, str(e))
                else:
                    rep.ok(key, rule)

    FULL = [("with all attributes", lambda: mk(True)),
            ("without attributes", lambda: mk(False))]
    STATIC = [("with static methods", lambda: mk(True, True))]

    def mk(full, static=False):
        return Klass(I, full, static)

    def opts(how="public", *on, **kw):
        d = {k: k in on or "verbose" in on for _f, k in FLAGS}
        d.update(show=how, verbose="verbose" in on, provides=False,
                 requires=False, ignore=[])
        d.update(kw)
        return d
    case("listing", [], listing, opts(), FULL)
    for f, how in sorted(SHOW.items()):
        case("listing with " + f, [f], listing, opts(how), FULL)
        case("JSON with " + f, [f, "--json"], dumped, opts(how), FULL)
    for f, k in FLAGS:
        for s in ("--private", "--public"):
            case("listing with %s %s" % (f, s), [f, s], listing,
                 opts(SHOW[s], k), FULL)
    for f, k in FLAGS:
        for g, l in FLAGS:
            if f < g:
                case("listing with %s %s" % (f, g), [f, g, "--private"],
                     listing, opts("all", k, l), FULL[:1])
    case("verbose listing", ["--verbose", "--private"], listing,
         opts("all", "verbose"), FULL + STATIC)
    ZERO = [("with constants of value zero",
             lambda: Klass(I, True, zero=True))]
    MARK = [("of which only %s is %s" % (m, w), lambda w=w, m=m: Klass(
        I, True, marks={(w, m)})) for w in MARKS for m in ("f0", "f1", "m0", "m1")
        if m[0] == "m" or w in MARKS[:2]]
    case("verbose listing", ["--verbose", "--private"], listing,
         opts("all", "verbose"), ZERO + MARK)
    case("JSON listing", ["--json", "--private", "-p"], dumped,
         opts("all", "pool"), ZERO + MARK)
    case("verbose public listing", ["--verbose"], listing,
         opts("public", "verbose"), FULL)
    case("header with constants", ["--header", "-p"], listing,
         opts("none", "pool"), FULL)
    case("JSON", ["--json"], dumped, opts(), FULL)
    case("JSON with constants", ["--json", "-p"], dumped,
         opts("public", "pool"), FULL)
    for n, fl in (("provides", ["--class-provides"]),
                  ("requires", ["--class-requires"]),
                  ("APIs", ["--class-provides", "--class-requires"])):
        for ig in ([], ["x.*"], ["x.*", "y"]):
            o = opts(provides="--class-provides" in fl,
                     requires="--class-requires" in fl, ignore=ig)
            extra = [y for x in ig for y in ("--api-ignore", x)]
            case("%s ignoring %s" % (n, ig), fl + extra, provides, o,
                 FULL[:1])
            case("JSON %s ignoring %s" % (n, ig), fl + extra + ["--json"],
                 dumped, o, FULL[:1])
    # several classes, each once and in their order
    for name, args in (("listings", []), ("JSON data", ["--json"])):
        key = "%s of several classes" % name
        with rep.guard(key, "classes"):
            try:
                for p in several(args):
                    if p.kind != "normal":
                        raise Undecided(p.kind)
                    got = [x.v for x in p.val.items]
                    if got != ["b.class", "a.class", "c.class"]:
                        raise Bad("for b.class a.class c.class, gives %s" % (
                            " ".join(map(str, got)) or "nothing"))
            except Bad as e:
                rep.bad(key, "classes", str(e))
            else:
                rep.ok(key, "classes")
    rep.cover(I)
