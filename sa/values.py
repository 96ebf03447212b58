"""Abstract values of the analyser.

Everything here is immutable.  Mutable program objects live in the
abstract heap (State.heap) as persistent records which are replaced,
never updated in place, so that a state can be snapshotted cheaply.
"""


class Val(object):
    __slots__ = ()


class Const(Val):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash((type(v).__name__, v))
        except TypeError:
            self._h = id(v)

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) \
            and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Term(Val):
    """symbolic term: an operator applied to values / plain python data"""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Term) and self._h == o._h \
            and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def show(v):
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Term):
        a = v.args
        if v.op in ("param", "sym", "fresh"):
            return str(a[0])
        if v.op == "attr":
            return "%s.%s" % (show(a[0]), a[1])
        if v.op == "call":
            s = "%s(%s" % (show(a[0]), ", ".join(show(x) for x in a[1]))
            if a[2]:
                s += ", " + ", ".join("%s=%s" % (k, show(x)) for k, x in a[2])
            s += ")"
            if a[3]:
                s += "#%d" % a[3]
            return s
        if v.op == "sum":
            parts = ["%s%s" % ("" if c == 1 else "%d*" % c, show(t))
                     for c, t in a[1:]]
            if a[0]:
                parts.append(str(a[0]))
            return "(" + " + ".join(parts) + ")"
        if v.op == "index":
            return "%s[%s]" % (show(a[0]), show(a[1]))
        if v.op == "elem":
            return "each(%s)" % show(a[0])
        return "%s(%s)" % (v.op, ", ".join(show(x) for x in a))
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return str(v)


class Tup(Val):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("tup", self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(show(i) for i in self.items) + ",)"


class Ref(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and self.addr == o.addr

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "&%s" % self.addr


class Func(Val):
    """a function closure of the analysed program"""
    __slots__ = ("node", "fid", "mod", "cls", "name", "defaults", "kwdefaults",
                 "qual")

    def __init__(self, node, fid, mod, cls, name, defaults, kwdefaults, qual):
        self.node = node
        self.fid = fid
        self.mod = mod
        self.cls = cls
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual

    def __eq__(self, o):
        return isinstance(o, Func) and self.node is o.node \
            and self.fid == o.fid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.node), self.fid))

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound(Val):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.func == o.func \
            and self.self == o.self

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.func, self.self))

    def __repr__(self):
        return "<bound %r of %s>" % (self.func, show(self.self))


class Cls(Val):
    """a class of the analysed program"""
    __slots__ = ("name", "mod", "node", "bases", "attrs", "mro", "qual")

    def __init__(self, name, mod, node, bases, qual):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.attrs = {}
        self.qual = qual
        self.mro = c3(self)

    def __repr__(self):
        return "<class %s>" % self.qual

    def lookup(self, name):
        for k in self.mro:
            if isinstance(k, Cls) and name in k.attrs:
                return k.attrs[name], k
        return None, None

    def derives(self, other):
        return other in self.mro


class Mod(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


class Ext(Val):
    """something defined outside the analysed program, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return self.name


class PropVal(Val):
    """property object"""
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticVal(Val):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassMVal(Val):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SuperVal(Val):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PartialVal(Val):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs

    def __eq__(self, o):
        return isinstance(o, PartialVal) and self.func == o.func and \
            tuple(self.args) == tuple(o.args) and self.kwargs == o.kwargs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.func, tuple(self.args)))

    def __repr__(self):
        return "<partial %r>" % (self.func,)


class BuiltinMethod(Val):
    """method of a modelled builtin value (list, dict, str constant...)"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BuiltinMethod) and self.obj == o.obj \
            and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.name))

    def __repr__(self):
        return "<%s.%s>" % (show(self.obj), self.name)


def c3(cls):
    def mro_of(b):
        return list(b.mro) if isinstance(b, Cls) else [b]

    seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return tuple(res)
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            return tuple(res + [b for s in seqs for b in s])
        res.append(cand)
        for s in seqs:
            if s[0] == cand:
                del s[0]


# -- heap records ------------------------------------------------------

class Item(object):
    """one element of an abstract sequence"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Item) and self.v == o.v

    def __hash__(self):
        return hash(("item", self.v))

    def __repr__(self):
        return show(self.v)


class Rep(object):
    """elements contributed by the iterations of a loop.

    alts: tuple of (path, segs); path is the tuple of (cond, bool) facts
    under which an iteration contributes segs."""
    __slots__ = ("loop", "iter", "alts")

    def __init__(self, loop, iter_, alts):
        self.loop = loop
        self.iter = iter_
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, Rep) and self.iter == o.iter \
            and self.alts == o.alts

    def __hash__(self):
        return hash(("rep", self.iter, self.alts))

    def __repr__(self):
        return "rep[%s: %s]" % (
            show(self.iter),
            " | ".join("%s%s" % (
                "".join("{%s%s}" % ("" if b else "!", show(c))
                        for c, b in p), list(s)) for p, s in self.alts))


class Many(object):
    """unknown number of unknown elements, drawn from a term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Many) and self.t == o.t

    def __hash__(self):
        return hash(("many", self.t))

    def __repr__(self):
        return "*%s" % show(self.t)


class HList(object):
    __slots__ = ("kind", "segs")

    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = tuple(segs)

    def __repr__(self):
        return "%s%s" % (self.kind, list(self.segs))


class HDict(object):
    """entries: tuple of (key, value); base: None or term for an unknown
    initial content; reps: loop-contributed entries"""
    __slots__ = ("entries", "base", "reps")

    def __init__(self, entries=(), base=None, reps=()):
        self.entries = tuple(entries)
        self.base = base
        self.reps = tuple(reps)

    def __repr__(self):
        return "dict{%s%s%s}" % (
            ", ".join("%s: %s" % (show(k), show(v)) for k, v in self.entries),
            "" if self.base is None else " **" + show(self.base),
            "".join(" rep" + repr(r) for r in self.reps))


class HInst(object):
    __slots__ = ("cls", "attrs", "sym", "open", "ctor")

    def __init__(self, cls, attrs=None, sym=None, open_=False, ctor=None):
        self.cls = cls
        self.attrs = attrs or {}
        self.sym = sym
        self.open = open_
        self.ctor = ctor

    def setattr(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return HInst(self.cls, a, self.sym, self.open, self.ctor)

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "name", self.cls),
                            show(self.sym) if self.sym is not None else
                            {k: show(v) for k, v in self.attrs.items()})
