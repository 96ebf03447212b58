"""opaque objects whose attributes and methods give what a check says, and
what a command prints"""

from sa.interp import Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Ref, HList, HDict, Item, show
from checks.p01 import nrm


def text(name):
    """a text which is not empty"""
    return Term("new", "text", (name,))


def num(name):
    return Term("new", "num", (name,))


def isobj(t, *kinds):
    return isinstance(t, Term) and t.op == "new" and t.args[0] in (
        kinds or ("text", "num"))


class Objs(object):
    def __init__(self, I):
        self.I = I
        self.objs = {}

    def new(self, kind, name, attrs=None, meths=None):
        t = Term("new", kind, (name,))
        self.objs[t] = (attrs or {}, meths or {})
        return t

    def attr(self, I, o, name, *r):
        d = self.objs.get(o) if isinstance(o, Term) else None
        if d is None or name not in d[0]:
            return NotImplemented
        v = d[0][name]
        return v() if callable(v) else v

    def meth(self, I, f, a, kw, node):
        o, name = f.args[0], f.args[1]
        d = self.objs.get(o) if isinstance(o, Term) else None
        if d is None or name not in d[1]:
            return NotImplemented
        v = d[1][name]
        return v(*a, **kw) if callable(v) else v

    def hasattr(self, I, o, name):
        d = self.objs.get(o) if isinstance(o, Term) else None
        if d is None:
            return NotImplemented
        return name in d[0] or name in d[1]

    def setitem(self, I, o, k, v):
        if o in self.objs or isobj(o):
            I.throw("TypeError", Const("item assignment"))
        return NotImplemented

    def hooks(self):
        h = {"hasattr": self.hasattr, "setitem": self.setitem}
        for at, me in self.objs.values():
            for n in at:
                h["attr:" + n] = self.attr
            for n in me:
                h["meth:" + n] = self.meth
        return h


def tokens(v, out):
    """the opaque texts and numbers of a value, in order, and its constant
    text"""
    if isobj(v):
        out.append(v)
    elif isinstance(v, Const):
        out.append(v.v)
    elif isinstance(v, Term):
        if v.op == "fmt":
            tokens(v.args[1], out)
        elif v.op in ("cat", "join", "strof", "intof", "mod", "repr",
                    "format", "str"):
            for x in v.args:
                tokens(x, out)
        elif v.op == "new":
            raise Undecided("%s is printed" % show(v)[:80])
        else:
            raise Undecided("%s is printed" % show(v)[:80])
    elif isinstance(v, Tup):
        for x in v.items:
            tokens(x, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            tokens(x, out)
    elif v is not None and not isinstance(v, (str, int, bool, float)):
        raise Undecided("%s is printed" % show(v)[:80])
    elif isinstance(v, str):
        out.append(v)
    return out


def pyval(I, v, depth=0):
    """data as lists, tuples, dicts (as pairs, sorted), constants and opaque
    values; anything else as ("other", value)"""
    if depth > 8:
        raise Undecided("depth of data")
    if not isinstance(v, Ref):
        v = I.norm(v)
    if isinstance(v, Const):
        return v.v if not isinstance(v.v, (list, tuple, dict)) else v.v
    if isinstance(v, Tup):
        return tuple(pyval(I, x, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        h = I.obj(v)
        if isinstance(h, HList):
            xs = I.known_items(v)
            if xs is None:
                raise Undecided("data %s" % show(v))
            xs = tuple(pyval(I, x, depth + 1) for x in xs)
            return xs if h.kind == "list" else ("other", h.kind)
        if isinstance(h, HDict):
            kv = I.known_items(I.call(I.getattr(v, "items"), [], {}))
            if kv is None:
                raise Undecided("data %s" % show(v))
            out = []
            for x in kv:
                k, y = I.known_items(x)
                if not isinstance(k, Const):
                    raise Undecided("key %s" % show(k))
                out.append((k.v, pyval(I, y, depth + 1)))
            return Dict(sorted(out))
        return ("other", show(v))
    if isobj(v):
        return v
    if isinstance(v, Term):
        return v
    return ("other", show(v))


class Dict(tuple):
    """the items of a dict"""

    def get(self, k, d=None):
        return dict(self).get(k, d)


class Lines(object):
    """what is printed, line by line; each line is a list of tokens"""

    def __init__(self, events):
        self.lines = []
        cur = []
        for e in events:
            if e.kind != "print":
                continue
            kw = dict(e.kwargs)
            end = kw.get("end", Const("\n"))
            sep = kw.get("sep", Const(" "))
            if set(kw) - {"end", "sep"} or not isinstance(end, Const) or \
                    not isinstance(sep, Const):
                if "file" in kw:
                    raise Undecided("print to a file")
                raise Undecided("arguments of print")
            toks = []
            for i, a in enumerate(e.args):
                if i:
                    toks.append(sep.v if sep.v is not None else " ")
                tokens(a, toks)
            toks.append("\n" if end.v is None else end.v)
            for t in toks:
                if isinstance(t, str):
                    bits = t.split("\n")
                    for i, b in enumerate(bits):
                        if i:
                            self.lines.append(cur)
                            cur = []
                        if b:
                            cur.append(b)
                else:
                    cur.append(t)
        if cur:
            self.lines.append(cur)

    def objects(self):
        """the opaque values of each line which has some"""
        out = []
        for l in self.lines:
            o = tuple(t for t in l if isinstance(t, Term))
            if o:
                out.append(o)
        return out
