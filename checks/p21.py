"""P21: HTML reports are well-formed and show texts literally."""

import copy
import posixpath
import re
import string
from html import unescape
from urllib.parse import quote, unquote, urljoin, urlsplit
from xml.parsers import expat

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Func, Bound, Ext, Cls, \
    BuiltinMethod, show
from sa import tmpl
from sa.ops import cat
from checks.argp import Argv
from checks.ctree import param
from checks.p31 import excname, Bad
from checks.obj import Objs, text, num, isobj

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the report and "
                 "of its templates (translated to syntax trees) over changes "
                 "whose data are opaque; the constant text is parsed as XML, "
                 "and what happens to each character of a datum is judged in "
                 "its place in the document",
    "rule": "the constant text of each document is well-formed whatever the "
            "data are; each datum is escaped once and as its place needs; "
            "the data of both sides are shown, those of the original first",
    "assumptions": ["what a template writes goes to the document in the "
                    "order in which it is written",
                    "plain text after the end of a document does no harm",
                    "the data have no characters which XML cannot represent",
                    "classes with more members and instructions are treated "
                    "alike"],
}

SPECIAL = "&<>\"'"


def mapped(v, f):
    """the text v in which some characters are replaced; f: pairs of
    character and text, one after another"""
    if isinstance(v, Term) and v.op == "mapped":
        return Term("mapped", v.args[0], v.args[1] + f)
    return Term("mapped", v, f)


def word(name):
    """a text without special characters"""
    return Term("new", "word", (name,))


def textlike(v):
    return isobj(v, "text", "word") or isinstance(v, Term) and v.op in (
        "cat", "fmt", "strof", "join", "mapped", "quoted", "path", "part")


class Out(object):
    """what is written: constant texts, and data with the images of the
    special characters"""

    def __init__(self):
        self.parts = []             # str | (object, kind, images, loc)
        self.directed = []          # the templates which were looked at
        self.responses = {}         # {transaction: response}

    def w(self, v, loc):
        for p in flat(v, True):
            self.parts.append((p, loc))


def flat(v, top=False):
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return [v.v]
        if v.v is None and top:
            return [""]
        if top and isinstance(v.v, (bool, int, float)):
            return [str(v.v)]
        raise Bad("writes %s within a text" % show(v))
    if isobj(v, "text"):
        return [(v, "text", {})]
    if isobj(v, "word"):
        return [(v, "word", {})]
    if isobj(v, "num"):
        if not top:
            raise Bad("uses the number %s as a text" % v.args[1][0])
        return [(v, "num", {})]
    if isinstance(v, Term):
        if v.op in ("strof", "fmt"):
            return flat(v.args[-1], True)
        if v.op == "cat":
            return [y for x in v.args for y in flat(x)]
        if v.op == "path":
            return flat(v.args[0])
        if v.op == "part":
            return [p if isinstance(p, str) else (Term("new", "text", (
                "part of " + p[0].args[1][0],)), p[1], p[2])
                for p in flat(v.args[0])]
        if v.op == "quoted":
            out = []
            for p in flat(v.args[0]):
                if isinstance(p, str):
                    out.append(quote(p, v.args[1]))
                else:
                    # what quote() gives has no special characters
                    out.append((p[0], "quoted", {None: v.args[1]}))
            return out
        if v.op == "mapped":
            out = []
            for p in flat(v.args[0]):
                for a, b in v.args[1]:
                    if isinstance(p, str):
                        p = p.replace(a, b)
                    elif p[1] == "text":
                        im = dict(p[2])
                        for c in SPECIAL:
                            im[c] = im.get(c, c).replace(a, b)
                        if a not in SPECIAL:
                            im[a] = b
                        p = (p[0], p[1], im)
                out.append(p)
            return out
    raise Undecided("%s is written" % show(v)[:100])


def literal(im, extra):
    """why a text does not appear literally, or None"""
    for c in "&<" + extra:
        x = im.get(c, c)
        if re.search("[<%s]" % extra, x) or "&" in x and not re.fullmatch(
                r"(?:[^&]|&(?:lt|gt|amp|quot|apos|#\d+|#x[0-9a-fA-F]+);)*",
                x):
            return "does not escape %s" % c
    for c in im:
        if unescape(im.get(c, c)) != c:
            return "shows %s instead of %s" % (unescape(im[c]), c)
    return None


class Doc(object):
    """the document, parsed"""

    def __init__(self, parts, whole):
        self.links = []             # (element, attribute, value)
        self.head = ""              # the last heading
        self.heads = []             # objects in texts, with their heading
        self.said = []              # texts
        self.texts = []             # objects in texts, with their marks
        self.order = []             # objects in the order of the document
        self.bad = []               # (what, place)
        objs = []
        s = "" if whole else "<body>"
        where = []
        for p, loc in parts:
            where.append((len(s), loc))
            if isinstance(p, str):
                s += p
            else:
                s += "\ue000%d\ue001" % len(objs)
                objs.append(p + (loc,))
        self.source = s
        self.stack = []
        self.elements = []          # titles, headings, links: name, text
        self.tables = []            # rows of cells
        self.open = []              # tables and cells which are open
        self.objs = objs
        x = expat.ParserCreate()
        x.StartElementHandler = self.start
        x.EndElementHandler = self.end
        x.CharacterDataHandler = self.text
        x.buffer_text = True
        x.CommentHandler = lambda d: self.place(d, "a comment", None)
        x.ProcessingInstructionHandler = lambda t, d: self.place(
            t + d, "an instruction", None)
        if whole:
            # plain text after the document is ignored
            s = re.sub(r"(</html>)[^<&\ue000]*\Z", r"\1\n", s.lstrip())
        else:
            s += "</body>"
        try:
            x.Parse(s, True)
        except expat.ExpatError as e:
            ls = self.source.split("\n")
            n = min(e.lineno + self.source.count("\n", 0, len(
                self.source) - len(self.source.lstrip()) if whole else 0),
                len(ls))
            at = sum(len(l) + 1 for l in ls[:n - 1]) + e.offset
            loc = [l for k, l in where if k <= at][-1:]
            self.bad.append(("it is not well-formed: %s at %r" % (
                expat.ErrorString(e.code), self.plain(
                    self.source[max(0, at - 40):at + 20])), loc[0]
                if loc else None))

    def plain(self, s):
        return re.sub("\ue000(\\d+)\ue001", lambda m: "[%s]" % self.objs[
            int(m.group(1))][0].args[1][0], s)

    def place(self, s, where, extra):
        for m in re.finditer("\ue000(\\d+)\ue001", s):
            o, kind, im, loc = self.objs[int(m.group(1))]
            self.order.append(o)
            if kind in ("num", "word"):
                continue
            if extra is None:
                self.bad.append(("%s is put into %s" % (
                    o.args[1][0], where), loc))
                continue
            if kind == "quoted":
                if where == "the text":
                    self.bad.append(("%s is quoted like a link" %
                                     o.args[1][0], loc))
                continue
            why = literal(im, extra)
            if why:
                self.bad.append(("%s in %s %s" % (
                    o.args[1][0], where, why), loc))

    def start(self, name, attrs):
        if "\ue000" in name or any("\ue000" in a for a in attrs):
            self.place(name + "".join(attrs), "the name of an element", None)
        if name in ("h1", "h2", "h3"):
            self.head = ""
        self.stack.append((name, self.marks(attrs)))
        for a, v in attrs.items():
            # the constant text before the parser sees it has the quote
            q = '"'
            m = re.search(r"\b%s=(['\"])%s" % (re.escape(a), re.escape(
                v[:12])), self.source)
            if m:
                q = m.group(1)
            self.place(v, "the attribute " + a, q)
            if a in ("href", "src"):
                self.links.append((name, a, v))

        if name in ("title", "h1", "h2", "h3", "a"):
            self.elements.append((name, ""))
        if name == "table":
            self.tables.append([])
            self.open.append([self.tables[-1], None])
        elif name == "tr" and self.open:
            self.open[-1][0].append([])
        elif name in ("td", "th") and self.open:
            t = self.open[-1]
            if not t[0]:
                t[0].append([])
            t[1] = {"name": name, "text": "", "objs": [], "rows": attrs.get(
                "rowspan", "1"), "cols": attrs.get("colspan", "1")}
            t[0][-1].append(t[1])

    def end(self, name):
        self.stack.pop()
        if self.open and name in ("td", "th"):
            self.open[-1][1] = None
        elif self.open and name == "table":
            self.open.pop()

    def grid(self, rows):
        """the cells by row and column"""
        g = {}
        for r, row in enumerate(rows):
            c = 0
            for cell in row:
                while (r, c) in g:
                    c += 1
                try:
                    h, w = int(cell["rows"]), int(cell["cols"])
                except ValueError:
                    raise Bad("a cell spans %r rows and %r columns" % (
                        cell["rows"], cell["cols"]))
                if h < 1 or w < 1 or r + h > len(rows):
                    raise Bad("a cell spans %d rows and %d columns of %d "
                              "rows" % (h, w, len(rows) - r))
                for i in range(h):
                    for j in range(w):
                        if (r + i, c + j) in g:
                            raise Bad("the cells of a table overlap")
                        g[r + i, c + j] = cell
        n = max(c for _r, c in g) + 1 if g else 0
        for r in range(len(rows)):
            k = sum((r, c) in g for c in range(n))
            if k != n:
                raise Bad("a row of a table has %d cells and another has %d"
                          % (k, n))
        return g, len(rows), n

    def marks(self, attrs):
        return {"is_changed", "is_unchanged", "is_ignored"}.intersection(
            attrs.get("class", "").split())

    def text(self, d):
        script = self.stack[-1][0] in ("script", "style")
        if self.stack[-1][0] in ("title", "h1", "h2", "h3", "a"):
            n, x = self.elements[-1]
            self.elements[-1] = n, x + self.plain(d)
        if self.open and self.open[-1][1]:
            t = self.open[-1][1]
            t["text"] += self.plain(d)
            t["objs"] += [self.objs[int(m.group(1))][0] for m in
                          re.finditer("\ue000(\\d+)\ue001", d)]
        if not script:
            self.said.append(d)
            if self.stack[-1][0] in ("h1", "h2", "h3"):
                self.head += d
            ms = [m for n, m in self.stack if m][-1:]
            for m in re.finditer("\ue000(\\d+)\ue001", d):
                self.texts.append((self.objs[int(m.group(1))][0], sorted(
                    ms[0]) if ms else []))
                self.heads.append((self.objs[int(m.group(1))][0], self.head))
        self.place(d, "a script" if script else "the text",
                   None if script else "")


class Side(object):
    """one of two classes; differ: whether its data are its own"""

    def __init__(self, M, side):
        self.M, self.side = M, side
        O, I = M.O, M.I
        w = M.world

        def t(n):
            own = w["differ"] and not (w.get("alike") and re.match(
                "annotation 0|(constant|type) [01]|(super|type)", n))
            v = text(n + (" of " + side if own else ""))
            M.said.setdefault(n, {})[side] = v
            return v

        def wd(n):
            own = w["differ"] and not (w.get("alike") and n == "type 1")
            v = word(n + (" of " + side if own else ""))
            M.said.setdefault(n, {})[side] = v
            return v

        def nu(n):
            own = w["differ"] and not (w.get("operands") and n.startswith(
                ("offset", "op ")))
            v = num(n + (" of " + side if own else ""))
            M.said.setdefault(n, {})[side] = v
            return v

        def opt(f, *names):
            return tuple(f(n) for n in names) if side in w["opt"] else None

        def one(f, n):
            return f(n) if side in w["opt"] else NONE

        def annos(of, n=2):
            if side not in w["opt"]:
                return NONE
            if side == "R":
                n += w.get("more", 0)
            return Tup([O.new("anno", "%s %s" % (a.args[1][0], of), {}, {
                "pretty_annotation": a}) for a in (
                    t("annotation %d of %s" % (i, of)) for i in range(n))])

        n = 3 + (w.get("more", 0) if side == "R" else w.get("less", 0))
        consts = [(None, None)] + [(wd("type %d" % i), t("constant %d" % i))
                                   for i in range(1, n)]
        if w["hole"]:
            consts.insert(2, (None, None))
        own = O.new("cpool", "pool" + (side if w["differ"] else ""), {}, {})
        O.objs[own] = ({"consts": Tup([NONE if a is None else b
                                       for a, b in consts])}, {
            "pretty_const": lambda i, **kw: Tup(
                [NONE if x is None else x for x in consts[i.v]]),
            "pretty_constants": lambda: I.newlist([
                Tup([Const(i), a, b]) for i, (a, b) in enumerate(consts)
                if a is not None]),
            "pretty_deref_const": lambda i: text(
                "constant at " + i.args[1][0] if isobj(i) else "constant"),
            "same_const": lambda *a: Const(not w["differ"]),
        })

        def member(name, meth):
            d = " " + name
            me = {"get_identifier": Const("id " + name),
                  "pretty_identifier": t("identifier" + d),
                  "get_name": t("name" + d),
                  "get_descriptor": t("descriptor" + d),
                  "pretty_descriptor": t("pretty descriptor" + d),
                  "pretty_type": t("type" + d),
                  "pretty_access_flags": lambda v=wd("flag" + d), u=wd(
                      "another flag" + d): I.newlist([v, u]),
                  "get_signature": one(t, "signature" + d),
                  "pretty_signature": one(t, "signature" + d),
                  "get_annotations": annos(name),
                  "get_invisible_annotations": annos("invisible " + name),
                  "get_type_descriptor": t("type" + d),
                  "is_deprecated": Const(w.get("dep", w["opt"]) in ("", side)),
                  "is_public": Const(True), "is_private": Const(False),
                  "is_protected": Const(False)}
            at = {"access_flags": nu("flags" + d), "cpool": own,
                  "is_method": Const(meth)}
            if not meth:
                me["deref_constantvalue"] = one(
                    nu if w["number"] else t, "value" + d)
            else:
                me["get_code"] = self.code(name, own, nu) \
                    if side in w["code"] else NONE
                a = [t("argument %d%s" % (i, d)) for i in range(2)]
                me["get_arg_type_descriptors"] = Tup(a)
                me["pretty_arg_types"] = lambda: I.newlist(a)
                x = list(opt(t, "thrown" + d, "another thrown" + d) or ())
                me["get_exceptions"] = Tup(x)
                me["pretty_exceptions"] = lambda: I.newlist(x)
            return O.new("member", name + side, at, me)
        both = ["0", side]
        inter = list(opt(t, "interface 1", "interface 2") or ())
        self.cls = O.new("class", "class " + side, {
            "fields": Tup([member("f" + x, False) for x in both]),
            "methods": Tup([member("m" + x, True) for x in both]),
            "cpool": own, "access_flags": nu("flags"),
            "version": Tup([nu("major"), nu("minor")])}, {
            "get_this": t("this"), "pretty_this": t("this"),
            "get_super": t("super"), "pretty_super": t("super"),
            "get_interfaces": Tup(inter),
            "pretty_interfaces": lambda: I.newlist(inter),
            "get_version": Tup([nu("major"), nu("minor")]),
            "get_major_version": nu("major"),
            "get_minor_version": nu("minor"),
            "get_platform": wd("platform"),
            "pretty_access_flags": lambda v=wd("flag"), u=wd("another flag"):
                I.newlist([v, u]),
            "is_deprecated": Const(w.get("dep", w["opt"]) in ("", side)),
            "get_signature": one(t, "signature"),
            "pretty_signature": one(t, "signature"),
            "get_annotations": annos("class"),
            "get_invisible_annotations": annos("invisible class"),
            "get_sourcefile": text("source"),
            "pretty_descriptor": text("descriptor"),
        })

    def code(self, name, cpool, nu):
        O, I, w, s = self.M.O, self.M.I, self.M.world, self.side
        lines = w["lines"][s]
        dis = []
        for k, (absl, rel, n) in enumerate(lines):
            ins = []
            for j in range(n):
                d = "%d.%d %s" % (k, j, name)
                op = nu("op " + d)
                self.M.said.setdefault("name of op " + d, {})[s] = word(
                    "name of " + op.args[1][0])
                ins.append(Tup([nu("offset " + d), op, Tup(
                    [nu("argument " + d), nu("argument' " + d)]
                    if j < 2 else [])]))
            dis.append(Tup([Const(absl), Const(rel), I.newlist(ins)]))
        every = [y for x in dis for y in I.known_items(x.items[2])]
        return O.new("code", name + s, {
            "code": Const(s.encode() * (137 + 114 * (s == w["longer"]))
                          if w["differ"] else b"C"),
            "max_stack": nu("stack " + name),
            "max_locals": nu("locals " + name),
            "exceptions": Tup([]), "cpool": cpool}, {
            "iter_code_by_lines": lambda: I.newlist(dis),
            "disassemble": lambda: Tup(every),
            "get_linenumbertable": lambda: Tup([Tup([nu("o"), Const(a)])
                                                for a, _r, _n in lines]),
            "get_relativelinenumbertable": lambda: Tup([
                Tup([nu("o"), Const(r)]) for _a, r, _n in lines]),
            "get_line_for_offset": lambda *a: Const(1)})


# classes which differ in everything
BASE = {"differ": True, "opt": "LR", "hole": False, "longer": "",
        "number": False, "code": "LR", "more": 0, "less": 0, "lines": {
            "L": [(10, 0, 2), (11, 1, 1)], "R": [(12, 0, 2),
                                                 (13, 1, 1)]}}


class Model(object):
    def __init__(self, I, world):
        self.I, self.world = I, world
        self.O = Objs(I)
        self.said = {}
        self.L, self.R = Side(self, "L"), Side(self, "R")


def run(rep, prog, tier):
    prog = copy.copy(prog)
    prog.trees, prog.files = dict(prog.trees), dict(prog.files)
    names, errors = tmpl.load(prog)
    I = Interp(prog).load_all()
    I.unroll = 40
    I.MAXREC = 40
    rep.expect = 300
    for n, e in sorted(errors.items()):
        rep.und("template " + n, "document", e)
    I.budget = 5000000
    OUT = Term("new", "out", ())
    W = [Out()]
    HERE = []
    OPTS = tmpl.optnames(prog)
    bads = {}
    M = [None]
    base = ".".join(tmpl.BASE.split(".")[1:])

    def get_templates(I_, f, a, kw, node):
        return Tup([I.get("cheetah." + n, n) for n in names])

    def directed(t, node):
        """whether what the template writes goes to the file to be written"""
        o = W[0]
        if t in o.directed:
            return
        o.directed.append(t)
        try:
            x = I.getattr(t, "transaction")
        except PyExc:
            return
        if isinstance(x, Term) and x.op == "new" and x.args[0] == "trans" \
                and o.responses.get(x) != OUT:
            raise Bad("what the template writes does not go to the output "
                      "given, at %s" % (I.loc(node),))

    def h_trans(I_, f, a, kw, node):
        t = Term("new", "trans", (len(W[0].responses),))
        W[0].responses[t] = None
        return t

    def h_response(I_, f, a, kw, node):
        t = f.args[0]
        if not (isinstance(t, Term) and t.op == "new" and
                t.args[0] == "trans"):
            return NotImplemented
        r = a[0] if a else kw.get("resp", NONE)
        if W[0].responses.get(t) is None and r != NONE:
            W[0].responses[t] = r
        return W[0].responses.get(t) or Term("new", "response", ())

    def h_t(I_, f, a, kw, node):
        directed(a[0], node)
        W[0].w(a[-1], I.loc(node))
        return NONE

    def h_w(I_, f, a, kw, node):
        directed(a[0], node)
        W[0].w(I.norm(a[-1]), I.loc(node))
        return NONE

    def h_auto(I_, f, a, kw, node):
        v = a[0]
        if isinstance(v, (Func, Bound, BuiltinMethod)) or isinstance(
                v, Term) and v.op == "attr" and v.args[0] in M[0].O.objs:
            return I.call(a[0], [], {})
        return a[0]

    def same(I_, a, b):
        if opaque(a) and opaque(b):
            return a == b
        sets = []
        for x in (a, b):
            x = I.norm(x)
            if not (isinstance(x, Term) and x.op == "list" and x.args[
                    0] == "set"):
                return NotImplemented
            vs = [getattr(y, "v", None) for y in x.args[1]]
            if not all(map(opaque, vs)):
                return NotImplemented
            sets.append(set(vs))
        return sets[0] == sets[1]

    def opaque(v):
        return isinstance(v, Term) and v.op == "new"

    def isinst(I_, v, c):
        if isobj(v, "text", "word", "num") and isinstance(c, Ext):
            return c.name in ("builtins.object", "builtins.int" if isobj(
                v, "num") else "builtins.str")
        return NotImplemented

    def replace(I_, f, a, kw, node):
        if isobj(f.args[0], "num"):
            I.throw("AttributeError")
        if not textlike(f.args[0]):
            return NotImplemented
        if len(a) != 2 or not all(isinstance(x, Const) for x in a) or \
                len(a[0].v) != 1:
            raise Undecided("replacement of %s" % ", ".join(map(show, a)))
        return mapped(f.args[0], ((a[0].v, a[1].v),))

    def paths(n):
        def h(I_, f, a, kw, node):
            a = [I.norm(x) for x in a]
            if not any(map(textlike, a)):
                if n == 2 and all(isinstance(x, Const) for x in a):
                    a = [posixpath.join("/cwd", x.v) for x in a]
                    return Const(posixpath.relpath(*a + ["/cwd"][len(
                        a) - 1:]))
                return NotImplemented
            if n:
                return Term("path", a[0])
            return Term("path", cat([y for i, x in enumerate(a) for y in (
                [Const("/")] if i else []) + [x]]))
        return h

    def split(I_, f, a, kw, node):
        if not textlike(f.args[0]):
            return NotImplemented
        return I.newlist([Term("part", f.args[0], i) for i in range(2)])

    def escape(q):
        def h(I_, f, a, kw, node):
            v = I.norm(a[0])
            if isinstance(v, Const) and isinstance(v.v, str):
                pass
            elif not textlike(v):
                I.throw("AttributeError")
            m = (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"))
            if q:
                x = a[1] if len(a) > 1 else kw.get("quote", Const(True))
                if x != Const(False):
                    m += (('"', "&quot;"), ("'", "&#x27;"))
            elif len(a) > 1 or kw:
                d = I.norm(a[1] if len(a) > 1 else kw["entities"])
                for kv in I.known_items(I.call(I.getattr(
                        d, "items"), [], {})):
                    k, x = I.known_items(kv)
                    m += ((k.v, x.v),)
            return mapped(v, m)
        return h

    def h_quote(I_, f, a, kw, node):
        v = I.norm(a[0])
        safe = a[1] if len(a) > 1 else kw.get("safe", Const("/"))
        if isinstance(v, Const):
            return Const(quote(v.v, safe.v))
        if not textlike(v):
            I.throw("TypeError")
        return Term("quoted", v, safe.v)

    HOOKS = {
        "cheetah.get_templates": get_templates,
        base + ".Template._t": h_t, base + ".Template._w": h_w,
        base + "._auto": h_auto,
        "ext:Cheetah.DummyTransaction.DummyTransaction": h_trans,
        "meth:response": h_response,
        "meth:replace": replace, "meth:split": split,
        "meth:rsplit": split,
        "meth:startswith": lambda I_, f, a, kw, n: Const(False)
        if textlike(f.args[0]) else NotImplemented,
        "ext:os.path.exists": lambda I_, f, a, kw, n: Const(
            isinstance(a[0], Const) and a[0].v in HERE),
        "dirutils.fnmatches": lambda I_, f, a, kw, n: Const(
            bool(world.get("ignored"))),
        "lt": lambda I_, a, b: show(a) < show(b)
        if opaque(a) and opaque(b) else NotImplemented,
        "ext:builtins.repr": lambda I_, f, a, kw, n: text(
            a[0].args[1][0]) if isobj(a[0]) else NotImplemented,
        "eq": same,
        "isinstance": isinst,
        "ext:os.path.join": paths(0), "ext:posixpath.join": paths(0),
        "ext:os.path.relpath": paths(2), "ext:os.path.normpath": paths(1),
        "ext:html.escape": escape(True), "ext:cgi.escape": escape(False),
        "ext:xml.sax.saxutils.escape": escape(False),
        "ext:urllib.parse.quote": h_quote,
        "ext:six.moves.urllib.parse.quote": h_quote,
        "ext:urllib.quote": h_quote,
        "opcodes.get_opname_by_code": lambda I_, f, a, kw, n: word(
            "name of " + a[0].args[1][0]),
        "opcodes.has_const_arg": lambda I_, f, a, kw, n: Const(
            "0.0" in a[0].args[1][0]),
    }

    def options():
        o = I.call(I.get(base, "Options"), [], {})
        for n in OPTS:
            if n.startswith("ignore_") and n.endswith((
                    "filenames", "entry", "key")):
                I.setattr(o, n, I.newlist([]))
            if world.get("ignoring") and n.startswith("ignore_") and \
                    not n.endswith(("filenames", "entry", "key")):
                I.setattr(o, n, Const(True))
        for n in ("javascript", "stylesheet"):
            I.setattr(o, "html_%ss" % n, I.newlist([text(n)]))
        return o

    A = Argv(I)

    def parsed(args):
        """the options as given on the command line"""
        A.reset()
        I.hooks.update(A.hooks())
        for n in ("multiprocessing", "multiprocessing.context", "os"):
            I.hooks["ext:%s.cpu_count" % n] = lambda *a: Const(4)
        ps = I.call(I.get(world["cmd"], "create_optparser"), [], {})
        return I.call(I.getattr(ps, "parse_args"), [I.newlist(
            [Const(x) for x in args + ["L.jar", "R.jar"]])], {})

    def mk(cls, mod, *args):
        return I.call(I.get(mod, cls), list(args), {})

    def html(change, where=None, entry=None):
        """the report of a change; where: the Reporter"""
        if where is None:
            crumbs = I.newlist([Tup([Const(".."), text("crumb")])])
        else:
            crumbs = I.call(I.getattr(where, "get_relative_breadcrumbs"),
                            [], {})
        fmt = I.call(I.get("report", "CheetahReportFormat"), [
            Const("/r") if where is None else I.getattr(where, "basedir"),
            options(), crumbs], {})
        I.call(I.getattr(fmt, "run_impl"), [change, entry or Const("entry"),
                                            OUT], {})

    def document(key, rule, thunk, judge, whole=True):
        """a document, which is judged"""
        def go():
            W[0] = Out()
            env = {}
            I.hooks = dict(HOOKS)
            try:
                thunk(env)
            except PyExc as e:
                raise Bad("fails with %s at %s" % (
                    excname(I, e.val)[:120], e.loc))
            return Const((tuple(W[0].parts), tuple(env.items())))
        with rep.guard(key, rule):
            try:
                ps = I.run(go)
                if not ps:
                    raise Undecided("no path")
                for p in ps:
                    if p.kind != "normal":
                        raise Undecided(p.kind)
                    d = Doc(p.val.v[0], whole)
                    for what, loc in d.bad:
                        bads.setdefault((what, loc), []).append(key)
                    if d.bad:
                        rep.bad(key, rule, d.bad[0][0], d.bad[0][1])
                    if not d.bad or d.order:
                        judge(key, d, dict(p.val.v[1]))
            except Bad as e:
                rep.bad(key, rule, str(e))
            else:
                rep.ok(key, rule)

    # reports of classes

    def classdoc(env):
        M[0] = Model(I, env["world"] if "world" in env else world)
        I.hooks.update(M[0].O.hooks())
        I.hooks.update(HOOKS)
        done = []

        def ran(c):
            done.append(c)
            html(c)
            return NONE
        rpt = M[0].O.new("reporter", "reporter", {}, {"run": ran})
        I.hooks.update(M[0].O.hooks())
        I.hooks.update(HOOKS)
        c = mk("JavaClassReport", "classdiff", M[0].L.cls, M[0].R.cls, rpt)
        I.call(I.getattr(c, "check"), [], {})
        if len(done) != 1:
            raise Bad("writes %d reports" % len(done))

    SHOWN = ("this", "super", "interface", "major", "minor", "platform",
             "flags", "flag", "another flag", "signature", "annotation",
             "type", "constant", "name", "argument", "value", "thrown",
             "another thrown", "offset", "pretty descriptor")

    def shown(key, d, env):
        w = world
        titled(key, d, "part of this")
        cells = {o.args[1][0] for rows in d.tables for row in rows
                 for c in row if c["name"] == "td" for o in c["objs"]}
        first = {}
        for i, o in enumerate(d.order):
            first.setdefault(o.args[1][0], i)
        for n, by in sorted(M[0].said.items()):
            if not n.startswith(SHOWN):
                continue
            last = n.split(" ")[-1]
            # of members on one side only
            alone = last in ("fL", "fR", "mL", "mR")
            if alone and not required(n, last):
                continue
            if n.startswith(("offset", "argument", "name of op")) and \
                    "." in n:
                if alone or n.startswith("argument'") and "0.0" in n:
                    continue
            elif n.startswith("pretty") and not alone:
                continue
            for s in "LR":
                o = by.get(s)
                if o is None:
                    continue
                if o.args[1][0] not in (first if n.startswith(
                        "pretty") else cells):
                    rep.bad(key + ": shown", "shown", "%s is not shown" %
                            o.args[1][0])
            l, r = [by[s].args[1][0] if by.get(s) else None for s in "LR"]
            if l in first and r in first and first[l] > first[r]:
                rep.bad(key + ": shown", "shown", "%s is shown after %s" % (
                    l, r))
        rep.ok(key + ": shown", "shown")
        wrong = "is_unchanged" if w["differ"] else "is_changed"
        for o, marks in d.texts:
            n = o.args[1][0]
            if w["differ"] and not n.endswith((" of L", " of R")) or \
                    not w["differ"] and (n.split(" ")[-1] in (
                        "fL", "fR", "mL", "mR") or re.search(
                            r" m0$", n)):
                continue
            if wrong in marks:
                rep.bad(key + ": marks", "shown", "%s is marked as %s" % (
                    n, wrong))
        rep.ok(key + ": marks", "shown")

        tables(key, d, w)
        flagged[key] = flags(key, d, w)

    def titled(key, d, what=""):
        for n in ("title", "h1"):
            ts = [t for m, t in d.elements if m == n]
            if not ts or what not in ts[0] or not ts[0].strip():
                rep.bad(key + ": title", "shown", "the document has no %s" % (
                    {"h1": "heading"}.get(n, n)) + (
                        " which names the class" if what else ""))
        for m, t in d.elements:
            if m == "a" and not t.strip():
                rep.bad(key + ": title", "shown", "a link has no text")
        rep.ok(key + ": title", "shown")

    def flags(key, d, w):
        """marks which are there or not: deprecated, abstract"""
        rows = {}
        for t, rs in enumerate(d.tables):
            try:
                g, h, n = d.grid(rs)
            except Bad:
                continue
            for (r, c), cell in sorted(g.items()):
                if cell["name"] == "td" and c and g[r, 0]["name"] == "th" \
                        and re.search("(?i)deprecat|abstract", g[r, 0][
                            "text"]):
                    rows.setdefault((t, g[r, 0]["text"].strip()), []).append(
                        cell["text"].strip())
        return sorted((re.sub("(?i).*(deprecat|abstract).*", r"\1", lb).lower(
            ), tuple(cs)) for (_t, lb), cs in rows.items())

    def marked():
        """in documents which differ in a mark only, it is shown"""
        pre = "report of classes "
        for word, left, right, both, none, pairs, all_ in (
                ("deprecat", "with attributes on the left",
                 "with attributes on the right", "alike without attributes",
                 "alike", 3, 5),
                ("abstract", "with code on the right",
                 "with code on the left", "abstract and alike", "alike", 1,
                 3)):
            key = "marks of " + word + "ed members" * (word[0] == "d")
            with rep.guard(key, "shown"):
                docs = [flagged.get(pre + x) for x in (left, right, both,
                                                       none)]
                if None in docs:
                    raise Undecided("a document is missing")
                a, b, c, d = [[cs for lb, cs in x if lb == word]
                              for x in docs]
                pa = [cs for cs in a if len(cs) == 2]
                pb = [cs for cs in b if len(cs) == 2]
                if len(pa) != pairs or sorted(pb) != sorted(
                        x[::-1] for x in pa) or any(x == y for x, y in pa):
                    rep.bad(key, "shown", "it is not shown of which version "
                            "it is a mark: %s, and %s of the other" % (pa,
                                                                       pb))
                yes = {x for x, _y in pa}
                if len(c) != all_ or {x for cs in c for x in cs} - yes:
                    rep.bad(key, "shown", "it is shown as %s where all are" %
                            c)
                if {x for cs in d for x in cs} & yes:
                    rep.bad(key, "shown", "it is shown where none is")
                one = [cs[0] for cs in a + b if len(cs) == 1]
                if len([x for x in one if x in yes]) != 2:
                    rep.bad(key, "shown", "it is shown as %s of members of "
                            "one version" % one)
                rep.ok(key, "shown")

    def kind(n):
        """what a datum is, whosever it is"""
        if n.startswith("annotation"):
            return "annotation"
        if re.search(r"\d\.\d", n):
            return re.sub("'", "", "op" if n.startswith("name") else
                          n.split(" ")[0])
        n = n.split(" ")
        n = n[1:] if n[0] == "another" else n
        return {"minor": "major", "flags": "flag"}.get(n[0], n[0])

    def tables(key, d, w):
        key += ": tables"
        lab = {}
        for t, rows in enumerate(d.tables):
            try:
                g, h, n = d.grid(rows)
            except Bad as e:
                rep.bad(key, "tables", str(e))
                continue
            seen = {}
            for (r, c), cell in sorted(g.items()):
                if cell["name"] != "td":
                    continue
                left = [g[r, k] for k in range(c)]
                above = [g[k, c] for k in range(r)]
                hs = []
                for x in left + above:
                    if x["name"] == "th" and x not in hs:
                        hs.append(x)
                lab = tuple(x["text"].strip() for x in hs)
                for o in cell["objs"]:
                    name = o.args[1][0]
                    if not any(lab):
                        rep.bad(key, "tables", "%s has no label" % name)
                    seen.setdefault(lab, {}).setdefault(kind(name), name)
                    line = re.match(r"offset (\d)\.\d m\S+(?: of ([LR]))?$",
                                    name)
                    if line:
                        row = [g[r, k]["text"].strip() for k in range(n)]
                        a, rel, _n = w["lines"][line.group(2) or "L"][int(
                            line.group(1))]
                        for x in (a, rel):
                            if str(x) not in row:
                                rep.bad(key, "tables", "%s is not shown in "
                                        "line %d" % (name, x))
            for lb, ks in seen.items():
                if len(ks) > 1:
                    rep.bad(key, "tables", "%s are both labelled %s" % (
                        " and ".join(sorted(ks.values())[:2]),
                        ", ".join(lb)))
        rep.ok(key, "tables")

    def required(n, last):
        if last[0] == "f" or n.startswith("pretty"):
            return last[0] == "f" and n.startswith("pretty")
        return not n.startswith(("annotation", "offset", "name of op"))

    flagged = {}
    WORLDS = [
        ("different", {}), ("alike", {"differ": False}),
        ("alike without attributes", {"differ": False, "opt": ""}),
        ("different without attributes", {"opt": ""}),
        ("with attributes on the left", {"opt": "L"}),
        ("with attributes on the right", {"opt": "R"}),
        ("with numbers as values", {"number": True}),
        ("with numbers as equal values", {"number": True, "differ": False}),
        ("with holes among constants", {"hole": True}),
        ("with holes among equal constants", {"hole": True,
                                              "differ": False}),
        ("with longer code on the left", {"longer": "L", "lines": {
            "L": [(10, 0, 3), (11, 1, 1)], "R": [(12, 0, 2)]}}),
        ("with longer code on the right", {"longer": "R", "lines": {
            "L": [(10, 0, 2)], "R": [(12, 0, 3), (13, 2, 2)]}}),
        ("abstract", {"code": ""}),
        ("abstract and alike", {"code": "", "differ": False}),
        ("with code on the left", {"code": "L"}),
        ("with code on the right", {"code": "R"}),
        ("different and ignored", {"ignoring": True}),
        ("alike in their code", {"differ": False, "lines": {
            "L": [(10, 0, 2), (11, 1, 1)], "R": [(10, 0, 2), (11, 1, 1)]}}),
        ("with some things alike", {"alike": True}),
        ("with more constants on the left", {"less": 2}),
        ("with more constants and annotations on the right", {"more": 2}),
    ]
    for name, ch in WORLDS:
        world = dict(BASE, **ch)
        document("report of classes " + name, "document", classdoc, shown)
    marked()

    # reports of archives and distributions

    PART = {"jardiff": ("JarContentChange", "JarContentsReport"),
            "distdiff": ("DistContentChange", "DistReport")}
    DEEP = {"jardiff": ["JarClassReport"],
            "distdiff": ["DistJarReport", "DistClassReport"]}

    def parts(mod):
        """the kinds of parts, by name"""
        root = I.get(mod, PART[mod][0])
        fid = I.module("javatools." + mod)
        vs = I.base.frames[fid].vars
        return [n for n, c in sorted(vs.items()) if isinstance(c, Cls)
                and root in c.mro and c.name == n]

    def reporter(n, base="/r"):
        return I.call(I.get("report", "Reporter"), [
            Const(base), Const(n), options()], {})

    def make(mod, n, entry, rpt, changed):
        """a part, and the report it is put into by the comparison"""
        a = [Term("new", "left", ()), Term("new", "right", ()), entry]
        if n in DEEP[mod]:
            r = I.call(I.getattr(rpt, "subreporter"), [entry, I.getattr(
                I.get(mod, n), "report_name")], {})
            c = mk(n, mod, *(a + [r]))
            I.setattr(c, "changes", Tup([]))
            I.setattr(c, "changed", Const(changed))
            return I.call(I.get("change", "squash"), [c], {
                "options": options()})
        c = mk(n, mod, *(a + [Const(changed)]))
        I.setattr(c, "changes", Tup([]))
        I.setattr(c, "changed", Const(changed))
        return c

    def whole(mod, rpt, cs):
        if mod == "jardiff":
            c = mk("JarContentsReport", mod, text("left"), text("right"), rpt)
            d = mk("JarReport", mod, text("left"), text("right"), rpt)
            I.setattr(d, "changes", Tup([c]))
        else:
            c = d = mk("DistReport", mod, text("left"), text("right"), rpt)
        for x in (c, d):
            I.setattr(x, "changed", Const(True))
        I.setattr(c, "changes", Tup(cs))
        return d

    def where(rpt):
        """the file which the HTML report is written to"""
        return posixpath.normpath("/".join([
            I.norm(I.getattr(rpt, "basedir")).v,
            I.norm(I.getattr(rpt, "entry")).v + ".html"]))

    def follow(base, href):
        u = urlsplit(urljoin("file://" + quote(base), href))
        if u.scheme != "file" or u.netloc or u.query or u.fragment:
            return href
        return posixpath.normpath(unquote(u.path))

    def archive(env):
        rpt = reporter(world["top"])
        cs, want = [], []
        for n in world["kinds"]:
            for k in range(world["n"]):
                e = text("entry %d of %s" % (k, n))
                c = make(world["mod"], n, e, rpt, world["changed"])
                cs.append(c)
                mark = "is_changed" if world["changed"] else "is_unchanged"
                if world["changed"] and world["ignored"]:
                    mark += " is_ignored"
                label = I.getattr(I.get(world["mod"], n), "label")
                want.append((e, label.v, mark, n in DEEP[world["mod"]]))
        env["want"] = want
        html(whole(world["mod"], rpt, cs), rpt)

    def listed(key, d, env):
        titled(key, d)
        for e, label, mark, deep in env["want"]:
            ts = [m for o, m in d.texts if o == e]
            if not ts:
                rep.bad(key + ": listed", "listed", "%s is not shown" %
                        e.args[1][0])
            elif [m for m in ts if " ".join(m) != mark]:
                rep.bad(key + ": listed", "listed", "%s is marked as %s" % (
                    e.args[1][0], " ".join(ts[0]) or "nothing"))
            hs = [h for o, h in d.heads if o == e]
            if hs and label not in hs[0]:
                rep.bad(key + ": listed", "listed", "%s is shown as %s" % (
                    e.args[1][0], hs[0].strip()))
            if not deep:
                continue
            hs = [o for n, a, v in d.links if (n, a) == ("a", "href")
                  for m in re.finditer("\ue000(\\d+)\ue001", v)
                  for o in [d.objs[int(m.group(1))]] if o[0] == e]
            if not hs:
                rep.bad(key + ": linked", "linked", "there is no link to the "
                        "report of %s" % e.args[1][0])
            for o in hs:
                if o[1] != "quoted" or set(o[2][None]) - set(
                        string.ascii_letters + string.digits +
                        "/-._~!$()*+,;=@"):
                    rep.bad(key + ": linked", "linked", "the link to the "
                            "report of %s is not quoted as a URL" %
                            e.args[1][0], o[3])
        rep.ok(key + ": linked", "linked")
        rep.ok(key + ": listed", "listed")

    for mod in ("jardiff", "distdiff"):
        for state in ("changed", "ignored", "unchanged"):
            ns = [x for x in parts(mod) if state != "unchanged" or
                  not re.search("Added|Removed", x)]
            for kinds in [[x] for x in ns] + [ns]:
                world = {"mod": mod, "kinds": kinds,
                         "changed": state != "unchanged",
                         "ignored": state == "ignored",
                         "n": 2 if len(kinds) == 1 else 1,
                         "top": PART[mod][1]}
                document("report of %s %s with %s" % (
                    state, mod, kinds[0] if len(kinds) == 1
                    else "every kind"), "document", archive, listed)

    # manifests

    def manifests(env):
        sides = [M[0].new("section", "section " + x, {}, {
            "primary": text("section " + x)}) for x in "ABCD"]
        I.hooks.update(M[0].hooks())
        I.hooks.update(HOOKS)
        a, b, c, d = sides
        cs = []
        for n, l, r, changed in (
                ("ManifestMainChange", a, a, True),
                ("ManifestSectionAdded", NONE, b, True),
                ("ManifestSectionRemoved", c, NONE, True),
                ("ManifestSectionChange", d, d, world["changed"])):
            x = mk(n, "manifest", l, r)
            I.setattr(x, "changed", Const(changed))
            cs.append(x)
        m = mk("ManifestChange", "manifest", text("left"), text("right"))
        I.setattr(m, "changed", Const(True))
        I.setattr(m, "changes", Tup(cs))
        rpt = reporter(world["top"])
        j = make(world["mod"], world["kind"], text("entry"), rpt, True)
        I.setattr(j, "changes", Tup([m]))
        html(whole(world["mod"], rpt, [j]), rpt)

    def sections(key, d, env):
        titled(key, d)
        for x, mark in zip("BCD", ["is_changed"] * 2 + [
                "is_changed" if world["changed"] else "is_unchanged"]):
            ms = [m for o, m in d.texts if o.args[1][0] == "section " + x]
            if not ms:
                rep.bad(key + ": sections", "listed", "section %s is not "
                        "shown" % x)
            elif [m for m in ms if m[:1] != [mark]]:
                rep.bad(key + ": sections", "listed", "section %s is marked "
                        "as %s" % (x, " ".join(ms[0])))
        rep.ok(key + ": sections", "listed")

    for mod, kind in (("jardiff", "JarManifestChange"),
                      ("distdiff", "DistManifestChange")):
        for changed in (True, False):
            M[0] = Objs(I)
            world = {"mod": mod, "kind": kind, "changed": changed,
                     "top": PART[mod][1]}
            document("report of a manifest of %s with %s sections" % (
                mod, "changed" if changed else "unchanged"), "document",
                manifests, sections)

    # style sheets and scripts

    def styled(env):
        rpt = reporter("JarReport", "/r/a b")
        c = whole("jardiff", rpt, [])
        o = parsed([w for n, ext in (("javascript", ".js"),
                                     ("stylesheet", ".css"))
                    for x in URIS for w in ("--html-" + n, x + ext)])
        fmt = I.call(I.get("report", "CheetahReportFormat"), [
            I.getattr(rpt, "basedir"), o, I.newlist([])], {})
        I.call(I.getattr(fmt, "run_impl"), [c, Const("JarReport"), OUT], {})

    def styles(key, d, env):
        for el, at, ext in (("script", "src", ".js"),
                            ("link", "href", ".css")):
            got = [v for n, a, v in d.links if (n, a) == (el, at)
                   and not v.startswith("http://ajax")]
            want = [posixpath.relpath("/cwd/" + x + ext, "/r/a b") if x + ext
                    in HERE and x[0] != "/" else x + ext for x in URIS]
            if got != want:
                rep.bad(key + ": links", "links", "the %ss lead to %s instead"
                        " of %s" % (el, ", ".join(got) or "nothing",
                                    ", ".join(want)))
        rep.ok(key + ": links", "links")

    def copied(env):
        rpt = reporter("JarReport", "/r")
        c = whole("jardiff", rpt, [])
        o = parsed(["--html-copy-data=/d", "--html-javascript=my.js",
                    "--html-stylesheet", "my.css"])
        for i in range(2):
            fmt = I.call(I.get("report", "CheetahReportFormat"), [
                I.getattr(rpt, "basedir"), o, I.newlist([])], {})
            I.call(I.getattr(fmt, "setup"), [], {})
        I.call(I.getattr(fmt, "run_impl"), [c, Const("JarReport"), OUT], {})

    def copies(key, d, env):
        for el, at, want in (
                ("script", "src", ["/d/a.js", "/d/b.js", "my.js"]),
                ("link", "href", ["/d/c.css", "my.css"])):
            got = [v for n, a, v in d.links if (n, a) == (el, at)
                   and not v.startswith("http://ajax")]
            if got != want:
                rep.bad(key + ": links", "links", "the %ss lead to %s instead"
                        " of %s" % (el, ", ".join(got) or "nothing",
                                    ", ".join(want)))
        rep.ok(key + ": links", "links")

    def jquery(env):
        rpt = reporter("JarReport", "/r")
        o = options()
        I.setattr(o, "html_no_jquery", Const(world["no"]))
        fmt = I.call(I.get("report", "CheetahReportFormat"), [
            I.getattr(rpt, "basedir"), o, I.newlist([])], {})
        I.call(I.getattr(fmt, "run_impl"), [whole("jardiff", rpt, []), Const(
            "JarReport"), OUT], {})

    def remote(key, d, env):
        got = [v for n, a, v in d.links if (n, a) == ("script", "src") and
               "jquery" in v]
        if len(got) != (not world["no"]):
            rep.bad(key + ": links", "links", "there are %d links to jquery" %
                    len(got))
        rep.ok(key + ": links", "links")

    for no in (False, True):
        world = {"no": no}
        document("a report with%s jquery" % ("out" if no else ""), "document",
                 jquery, remote)
    HOOKS["dirutils.copydir"] = lambda I_, f, a, kw, n: I.newlist([
        Tup([Const("/src/" + x), Const(I.norm(a[1]).v + "/" + x)])
        for x in ("a.js", "b.js", "c.css", "d.png")])
    for cmd in ("classdiff", "jardiff", "distdiff"):
        world = {"cmd": cmd}
        document("style sheets and scripts copied by " + cmd, "document",
                 copied, copies)
    URIS = ["style", "sub/style", "missing", "/abs/style",
            "http://host/style", "https://host/style", "file:///style"]
    HERE = [x + e for x in URIS[:2] + ["/abs/style"] for e in (
        ".js", ".css")]
    for cmd in ("classdiff", "jardiff", "distdiff"):
        world = {"cmd": cmd}
        document("style sheets and scripts given to " + cmd, "document",
                 styled, styles)

    # links to the reports of parts, and back

    def linking(env):
        """two levels of reports; the second is linked from the first and
        links back to it"""
        rpt = reporter(world["top"])
        if world["above"] is not None:
            top = I.call(I.get("report", "Reporter"), [
                Const("/r"), Const("DistReport"), options()], {})
            env["above"] = where(top)
            rpt = I.call(I.getattr(top, "subreporter"), [
                Const(world["above"]), Const("JarReport")], {})
        e = Const(world["entry"])
        deep = I.get(world["mod"], world["kind"])
        sub = I.call(I.getattr(rpt, "subreporter"), [e, I.getattr(
            deep, "report_name")], {})
        env["base"], env["sub"] = where(rpt), where(sub)
        c = make(world["mod"], world["kind"], e, rpt, True)
        if world["back"]:
            html(mk("DistReport", "distdiff", text("left"), text("right"),
                    rpt) if 0 else whole(world["mod"], rpt, []), sub)
        else:
            html(whole(world["mod"], rpt, [c]), rpt)

    def linked(key, d, env):
        titled(key, d)
        hs = [v for n, a, v in d.links if (n, a) == ("a", "href") and
              "\ue000" not in v]
        if world["back"]:
            want = [env["base"]]
            if "above" in env:
                want.insert(0, env["above"])
            got = [follow(env["sub"], h) for h in hs]
        else:
            want = [env["sub"]]
            got = [follow(env["base"], h) for h in hs]
            if "above" in env:
                want.insert(0, env["above"])
            if not any(world["entry"] in x for x in d.said):
                rep.bad(key + ": links", "links", "the entry %r is not shown"
                        % world["entry"])
        if got != want:
            rep.bad(key + ": links", "links", "the links lead to %s instead "
                    "of %s" % (", ".join(got) or "nothing", ", ".join(want)))
        rep.ok(key + ": links", "links")

    NAMES = ["A.class", "p/q/A.class", "A B.class", "A#1.class", "A?b=c",
             "100%.class", "%41.class", "A&amp;B.class", "<b>.class",
             'A"B.class', "A'B.class", "../up.class", "/abs/A.class",
             "javascript:x", "//host/A.class", "a:b/c.class", "x/./../y",
             "\xe9.class", "A+B;c=d.class"]
    for mod in DEEP:
        for kind in DEEP[mod]:
            for above in (None, "lib/a b.jar") if mod == "jardiff" else (
                    None,):
                for back in (False, True):
                    for e in NAMES:
                        world = {"mod": mod, "kind": kind, "entry": e,
                                 "above": above, "back": back,
                                 "top": PART[mod][1] if mod == "distdiff"
                                 else "JarReport"}
                        document("links %s %s %r%s" % (
                            "from" if back else "to", kind, e,
                            " in " + above if above else ""), "document",
                            linking, linked)
    rep.cover(I)
