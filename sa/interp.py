"""Interprocedural abstract interpreter over the Python syntax tree.

The interpreter never imports or executes code of the analysed
repository: it evaluates syntax trees over the abstract values of
values.py.  Unknown inputs are symbolic terms; a branch on an unknown
condition partitions the trace; a loop over an unknown sequence is
analysed once per reachable valuation of its finite loop-carried
variables, all other loop-carried locations being widened to a fresh
phi symbol; containers built by a loop are summarised as repetitions.
"""

import ast
import builtins as _pybuiltins
import os

from .values import (
    Val, Const, Term, Tup, Ref, Func, Bound, Cls, Mod, Ext, PropVal,
    StaticVal, ClassMVal, SuperVal, PartialVal, BuiltinMethod,
    Item, Rep, Many, HList, HDict, HInst, NONE, TRUE, FALSE, show)
from . import desugar, ops, strs
from .ops import mk, unmk, cat, binop, cond_eq, cond_lt, cond_truth, \
    cond_isnone


class Undecided(Exception):
    """the analyser cannot follow the code here"""


class Infeasible(Exception):
    """contradictory assumptions: no concrete execution on this path"""


class Signal(Exception):
    pass


class ReturnSig(Signal):
    def __init__(self, val):
        self.val = val


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class DoneSig(Signal):
    """the test of a while loop came out false"""


class PyExc(Signal):
    def __init__(self, val, loc=None):
        self.val = val
        self.loc = loc

    def __str__(self):
        return "PyExc(%s)" % show(self.val)


class Frame(object):
    __slots__ = ("vars", "parent", "mod", "cls", "node", "yields", "globals_",
                 "nonlocals", "self_")

    def __init__(self, parent, mod, cls, node):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.cls = cls
        self.node = node
        self.yields = None
        self.globals_ = ()
        self.nonlocals = ()
        self.self_ = None

    def copy(self):
        f = Frame(self.parent, self.mod, self.cls, self.node)
        f.vars = dict(self.vars)
        f.yields = self.yields
        f.globals_ = self.globals_
        f.nonlocals = self.nonlocals
        f.self_ = self.self_
        return f


class Event(object):
    __slots__ = ("kind", "fn", "args", "kwargs", "res", "loc", "stack",
                 "within")

    def __init__(self, kind, fn, args=(), kwargs=(), res=None, loc=None,
                 stack=(), within=()):
        self.kind = kind
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.res = res
        self.loc = loc
        self.stack = stack
        self.within = within

    def __repr__(self):
        if self.kind == "loop":
            return "loop(%s)" % show(self.fn.iter)
        return "%s %s(%s)" % (self.kind, show(self.fn),
                              ", ".join(show(a) for a in self.args))


class LoopRec(object):
    """summary of one abstract loop"""

    def __init__(self, lid, node, iter_, elem, loc):
        self.lid = lid
        self.node = node
        self.iter = iter_
        self.elem = elem
        self.loc = loc
        self.seen = {}
        self.finite = ()
        self.phis = {}
        self.outcome = None
        self.entry = None
        self.exported = {}

    def conts(self):
        return [p for ps in self.seen.values() for p in ps
                if p.kind in ("normal", "continue")]

    def exits(self):
        return [p for ps in self.seen.values() for p in ps
                if p.kind not in ("normal", "continue")]


class Path(object):
    __slots__ = ("kind", "val", "st", "loc")

    def __init__(self, kind, val, st, loc=None):
        self.kind = kind
        self.val = val
        self.st = st
        self.loc = loc

    @property
    def path(self):
        return self.st.path

    @property
    def events(self):
        return self.st.events

    def __repr__(self):
        return "<%s %s | %s>" % (self.kind, show(self.val), fmt_path(self.path))


def fmt_path(path):
    out = []
    for p in path:
        if isinstance(p[0], LoopRec):
            out.append("loop:%s" % (p[1],))
        else:
            out.append(("" if p[1] else "not ") + show(p[0]))
    return " & ".join(out)


class State(object):
    __slots__ = ("frames", "heap", "facts", "eqs", "nes", "rng", "path",
                 "events", "symattrs", "n", "counts", "active", "aux", "within")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.eqs = {}
        self.nes = {}
        self.rng = {}
        self.path = []
        self.events = []
        self.symattrs = {}
        self.n = 0
        self.counts = {}
        self.active = ()
        self.aux = {}
        self.within = ()

    def copy(self):
        s = State()
        s.frames = {k: (f if k[0] == "m" else f.copy())
                    for k, f in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.nes = dict(self.nes)
        s.rng = dict(self.rng)
        s.path = list(self.path)
        s.events = list(self.events)
        s.symattrs = dict(self.symattrs)
        s.n = self.n
        s.counts = dict(self.counts)
        s.active = self.active
        s.aux = dict(self.aux)
        s.within = self.within
        return s


class Chooser(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []

    def pick(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Infeasible("replay divergence")
        self.taken.append((c, n))
        return c


def term_mentions(t, pred, _seen=None):
    """does any subterm satisfy pred?"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if pred(x):
                return True
            stack.extend(x.args)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, (Item,)):
            stack.append(x.v)
        elif isinstance(x, Many):
            stack.append(x.t)
        elif isinstance(x, Rep):
            stack.append(x.iter)
            for p, s in x.alts:
                stack.append(p)
                stack.extend(s)
        elif isinstance(x, Ref):
            if pred(x):
                return True
        elif isinstance(x, Bound):
            stack.append(x.self)
        elif isinstance(x, BuiltinMethod):
            stack.append(x.obj)
        elif isinstance(x, PartialVal):
            stack.append(x.func)
            stack.extend(x.args)
    return False


class Program(object):
    """the parsed repository package"""

    def __init__(self, root, package="javatools"):
        self.root = root
        self.package = package
        self.trees = {}
        self.files = {}
        self.lines = 0
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                with open(p, encoding="utf-8") as fd:
                    src = fd.read()
                self.lines += src.count("\n")
                self.trees[mod] = desugar.loops(ast.parse(src, p))
                self.files[mod] = rel

    def short(self, mod):
        """module name as used in qualified names"""
        if mod == self.package:
            return ""
        if mod.startswith(self.package + "."):
            return mod[len(self.package) + 1:]
        return mod


EXT_ALIAS = {
    "six.moves.range": "builtins.range", "six.moves.zip": "builtins.zip",
    "six.moves.map": "builtins.map", "six.moves.filter": "builtins.filter",
    "six.moves.input": "builtins.input", "itertools.izip": "builtins.zip",
    "itertools.imap": "builtins.map", "itertools.ifilter": "builtins.filter",
    "six.moves.zip_longest": "itertools.zip_longest",
    "itertools.izip_longest": "itertools.zip_longest",
    "six.iteritems": "six.iteritems",
    "io.open": "builtins.open", "codecs.open": "codecs.open",
    "six.text_type": "builtins.str", "six.unichr": "builtins.chr",
    "six.moves.xrange": "builtins.range",
    "builtins.buffer": "builtins.memoryview",
}

PY2_BUILTINS = {"unicode", "long", "basestring", "xrange", "unichr", "reduce",
                "buffer", "raw_input", "file", "cmp", "execfile"}

PURE_METHODS = {
    "startswith", "endswith", "strip", "rstrip", "lstrip", "split", "rsplit",
    "lower", "upper", "replace", "join", "encode", "decode", "format",
    "splitlines", "find", "rfind", "index", "count", "partition",
    "rpartition", "isdigit", "title", "hexdigest", "digest",
    "zfill", "ljust", "rjust", "keys", "values", "items",
    "tobytes", "translate", "capitalize", "isalpha", "isupper", "islower",
    "iteritems", "itervalues", "iterkeys",
}

PURE_EXT = {
    "builtins.len", "builtins.ord", "builtins.chr", "builtins.hex",
    "builtins.repr", "builtins.int", "builtins.float", "builtins.str",
    "builtins.bytes", "builtins.abs", "builtins.min", "builtins.max",
    "builtins.sum", "builtins.sorted", "builtins.type",
    "builtins.memoryview", "builtins.bytearray", "builtins.round",
    "builtins.hash", "builtins.bool", "builtins.reversed",
    "builtins.divmod", "builtins.bin", "builtins.oct", "builtins.callable",
    "os.path.join", "os.path.split", "os.path.basename", "os.path.dirname",
    "os.path.splitext", "os.path.relpath", "os.path.abspath",
    "os.path.normpath", "os.path.normcase", "os.path.commonprefix",
    "fnmatch.fnmatch", "fnmatch.filter", "struct.calcsize",
    "binascii.b2a_base64", "base64.b64encode", "base64.b64decode",
    "six.iteritems", "six.itervalues", "six.iterkeys",
    "builtins.range", "builtins.zip", "builtins.enumerate",
    "operator.itemgetter", "operator.attrgetter", "functools.cmp_to_key",
    "xml.sax.saxutils.escape", "os.path.sep", "os.fsdecode", "os.fspath",
    "cgi.escape", "html.escape", "six.ensure_str", "six.ensure_text",
    "six.ensure_binary", "six.b", "six.u", "os.path.isdir", "os.path.isfile",
    "os.path.exists", "os.path.islink",
}


def namespace(o):
    """whether a value is what parsing arguments gives, all attributes of
    which are known"""
    return isinstance(o, Term) and o.op == "new" and \
        o.args[0] == "namespace"


class Interp(object):

    MAXPATHS = 6000
    MAXDEPTH = 60

    def __init__(self, program, hooks=None, opaque=None, oracle=None,
                 raisers=None):
        self.prog = program
        self.hooks = hooks or {}
        self.opaque_pred = opaque or (lambda q: False)
        self.oracle = oracle
        self.raisers = raisers
        self.base = State()
        self.modids = {}
        self.st = self.base
        self.ch = None
        self.chstack = []
        self.stack = []         # call stack of (qual, node)
        self.node = None
        self.memo = {}
        self.epochs = []
        self.nepoch = 0
        self.budget = 2000000
        self.steps = 0
        self.covered = set()    # (file, function) analysed
        self.tryraise = 0
        self.notes = []
        self.unroll = 0         # execute known loops directly
        self.forksort = False   # sort by cases of undecided comparisons
        self.MAXREC = 3

    # -- module loading ------------------------------------------------

    def module(self, name):
        """frame id of an evaluated module of the program"""
        fid = self.modids.get(name)
        if fid is not None:
            return fid
        tree = self.prog.trees[name]
        fid = "m:" + name
        self.modids[name] = fid
        saved = (self.st, self.ch, self.chstack, self.stack, self.node,
                 self.hooks, self.oracle, self.raisers, self.memo,
                 self.opaque_pred)
        self.hooks = {}
        self.oracle = None
        self.raisers = None
        self.opaque_pred = lambda q: False
        self.st = self.base
        self.ch = None
        self.chstack = []
        self.stack = []
        f = Frame(None, name, None, tree)
        self.base.frames[fid] = f
        f.vars["__name__"] = Const(name)
        f.vars["__file__"] = Const(self.prog.files[name])
        try:
            for stmt in tree.body:
                try:
                    self.ex(stmt, fid)
                except PyExc as e:
                    self.notes.append("module %s line %d: %s" % (
                        name, stmt.lineno, show(e.val)))
                except (Undecided, Infeasible) as e:
                    self.notes.append("module %s line %d: undecided %s" % (
                        name, stmt.lineno, e))
        finally:
            base = self.st
            (self.st, self.ch, self.chstack, self.stack, self.node,
             self.hooks, self.oracle, self.raisers, self.memo,
             self.opaque_pred) = saved
            if self.st is not base:
                # make it visible to a run in progress
                self.st.frames[fid] = base.frames[fid]
                for k, v in base.heap.items():
                    self.st.heap.setdefault(k, v)
                for k, v in base.frames.items():
                    self.st.frames.setdefault(k, v)
        return fid

    def load_all(self):
        for m in self.prog.trees:
            self.module(m)
        return self

    def get(self, modname, path):
        """fetch a module-level object: get('pack', 'Unpacker.read')"""
        full = self.prog.package + ("." + modname if modname else "")
        if full not in self.prog.trees:
            return None
        fid = self.module(full)
        parts = path.split(".")
        v = self.base.frames[fid].vars.get(parts[0])
        for p in parts[1:]:
            if isinstance(v, Cls):
                v, _k = v.lookup(p)
            else:
                return None
        return v

    def modvar(self, modname, name):
        return self.get(modname, name)

    # -- exploration ---------------------------------------------------

    def run(self, thunk, st=None):
        """explore all paths of thunk from a copy of the base state"""
        self.memo = {}
        self.steps = 0
        return self.explore(thunk, (st or self.base).copy())

    def explore(self, thunk, st0, limit=None):
        limit = limit or self.MAXPATHS
        saved = (self.st, self.ch, list(self.stack), self.node)
        results = []
        work = [()]
        tries = 0
        try:
            while work:
                prefix = work.pop()
                tries += 1
                if tries > limit:
                    raise Undecided("more than %d paths" % limit)
                self.st = st0.copy()
                self.ch = Chooser(prefix)
                self.chstack.append(self.ch)
                self.stack = list(saved[2])
                kind, val, loc, ok = "normal", NONE, None, True
                try:
                    r = thunk()
                    if isinstance(r, Val):
                        val = r
                except ReturnSig as e:
                    kind, val = "return", e.val
                except BreakSig:
                    kind = "break"
                except ContinueSig:
                    kind = "continue"
                except DoneSig:
                    kind = "done"
                except PyExc as e:
                    kind, val, loc = "raise", e.val, e.loc
                except Infeasible:
                    ok = False
                finally:
                    self.chstack.pop()
                if ok:
                    results.append(Path(kind, val, self.st, loc))
                taken = self.ch.taken
                for i in range(len(taken) - 1, len(prefix) - 1, -1):
                    c, n = taken[i]
                    pre = tuple(x for x, _ in taken[:i])
                    for alt in range(n - 1, c, -1):
                        work.append(pre + (alt,))
        finally:
            self.st, self.ch, self.stack, self.node = saved
        return results

    # -- helpers -------------------------------------------------------

    def fresh(self, name, num=False):
        self.st.n += 1
        return Term("fresh", "%s~%d" % (name, self.st.n)) if not num else \
            Term("num", "%s~%d" % (name, self.st.n))

    def alloc(self, obj):
        self.st.n += 1
        addr = "%s%d" % ("h" if self.st is not self.base else "b", self.st.n)
        while addr in self.st.heap:
            self.st.n += 1
            addr = "%s%d" % (addr[0], self.st.n)
        self.st.heap[addr] = obj
        return Ref(addr)

    def obj(self, ref):
        return self.st.heap.get(ref.addr)

    def put(self, ref, obj):
        self.st.heap[ref.addr] = obj

    def newlist(self, items=(), kind="list"):
        return self.alloc(HList(kind, [Item(i) for i in items]))

    def newsegs(self, segs, kind="list"):
        return self.alloc(HList(kind, segs))

    def newdict(self, entries=(), base=None):
        return self.alloc(HDict(entries, base))

    def syminst(self, cls, sym, open_=False, attrs=None):
        if isinstance(sym, str):
            sym = Term("param", sym)
        return self.alloc(HInst(cls, dict(attrs or {}), sym, open_))

    def loc(self, node=None):
        node = node or self.node
        q = self.stack[-1] if self.stack else None
        mod = q[2] if q else None
        return (self.prog.files.get(mod, mod), getattr(node, "lineno", 0),
                q[0] if q else "<module>")

    def emit(self, kind, fn, args=(), kwargs=(), res=None, node=None):
        e = Event(kind, fn, tuple(args), tuple(kwargs), res, self.loc(node),
                  tuple(s[0] for s in self.stack), self.st.within)
        self.st.events.append(e)
        return e

    def exc(self, name, *args):
        return Term("exc", name, tuple(args))

    def throw(self, name, *args):
        raise PyExc(self.exc(name, *args), self.loc())

    def norm(self, v, seen=()):
        """structural, self-contained form of a value"""
        if isinstance(v, Ref):
            if v.addr in seen:
                return Term("cycle", v.addr)
            o = self.obj(v)
            seen = seen + (v.addr,)
            if isinstance(o, HInst):
                if o.sym is not None:
                    return o.sym
                if o.ctor is not None:
                    return Term("new", getattr(o.cls, "qual", str(o.cls)),
                                tuple(self.norm(a, seen) for a in o.ctor))
                return Term("inst", getattr(o.cls, "qual", str(o.cls)),
                            v.addr)
            if isinstance(o, HList):
                return Term("list", o.kind, tuple(
                    self.nseg(s, seen) for s in o.segs))
            if isinstance(o, HDict):
                return Term(
                    "dict", tuple(Tup([self.norm(k, seen),
                                       self.norm(x, seen)])
                                  for k, x in o.entries),
                    o.base or NONE, o.reps)
            return Term("ref", v.addr)
        if isinstance(v, Tup):
            return Tup([self.norm(i, seen) for i in v.items])
        if isinstance(v, Bound):
            return Term("attr", self.norm(v.self, seen),
                        getattr(v.func, "name", "?"))
        if isinstance(v, BuiltinMethod):
            return Term("attr", self.norm(v.obj, seen), v.name)
        if isinstance(v, PartialVal):
            return Term("partial", self.norm(v.func, seen),
                        tuple(self.norm(a, seen) for a in v.args))
        return v

    def nseg(self, s, seen=()):
        if isinstance(s, Item):
            return Item(self.norm(s.v, seen))
        if isinstance(s, Rep):
            return Rep(s.loop, s.iter, [
                (p, tuple(self.nseg(x, seen) for x in ss))
                for p, ss in s.alts])
        return s

    # -- conditions ----------------------------------------------------

    def lookup_cond(self, t):
        st = self.st
        if t in st.facts:
            return st.facts[t]
        if t.op == "eq":
            a, b = t.args
            if isinstance(b, Const):
                if a in st.eqs:
                    return st.eqs[a].v == b.v
                if b in st.nes.get(a, ()):
                    return False
                if a in st.rng and isinstance(b.v, int):
                    lo, hi = st.rng[a]
                    if (lo is not None and b.v < lo) or \
                       (hi is not None and b.v > hi):
                        return False
            else:
                x = st.eqs.get(a)
                y = st.eqs.get(b)
                if x is not None and y is not None:
                    return x.v == y.v
        elif t.op == "lt0":
            c, m = ops.lin(t.args[0])
            lo = hi = c
            for u, k in m.items():
                if u in st.eqs and isinstance(st.eqs[u].v, int):
                    ulo = uhi = st.eqs[u].v
                else:
                    ulo, uhi = st.rng.get(
                        u, (0 if ops.is_unsigned(u) else None, None))
                if k < 0:
                    ulo, uhi = uhi, ulo
                lo = None if lo is None or ulo is None else lo + k * ulo
                hi = None if hi is None or uhi is None else hi + k * uhi
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif t.op == "truth":
            a = t.args[0]
            if a in st.eqs:
                return bool(st.eqs[a].v)
            n = st.facts.get(Term("isnone", a))
            if n:
                return False
        elif t.op == "isnone":
            a = t.args[0]
            if a in st.eqs:
                return st.eqs[a].v is None
            if st.facts.get(Term("truth", a)):
                return False
        return None

    def learn(self, t, b):
        st = self.st
        st.facts[t] = b
        if t.op == "eq" and isinstance(t.args[1], Const):
            a, c = t.args
            if b:
                st.eqs[a] = c
            else:
                st.nes[a] = frozenset(st.nes.get(a, ())) | {c}
        elif t.op == "lt0":
            c, m = ops.lin(t.args[0])
            if len(m) == 1:
                (u, k), = m.items()
                if k == 1:
                    lo, hi = st.rng.get(
                        u, (0 if ops.is_unsigned(u) else None, None))
                    if b:
                        nh = -c - 1
                        hi = nh if hi is None else min(hi, nh)
                    else:
                        nl = -c
                        lo = nl if lo is None else max(lo, nl)
                    if lo is not None and hi is not None and lo > hi:
                        raise Infeasible("empty range")
                    st.rng[u] = (lo, hi)
        elif t.op == "isnone" and b:
            st.eqs[t.args[0]] = NONE

    def cond(self, c):
        """decide a canonical condition: bool or (term, polarity)"""
        if isinstance(c, bool):
            return c
        t, pol = c
        r = self.lookup_cond(t)
        if r is None and self.oracle is not None:
            r = self.oracle(self, t)
            if r is not None:
                self.learn(t, r)
        if r is None:
            if self.ch is None:
                raise Undecided("branch at module level on %s" % show(t))
            r = self.ch.pick(2) == 0
            if not pol:
                r = not r
            self.learn(t, r)
            self.st.path.append((t, r, self.loc()))
        return r if pol else not r

    def assume(self, t, b):
        r = self.lookup_cond(t)
        if r is None:
            self.learn(t, b)
            self.st.path.append((t, b, None))
        elif r != b:
            raise Infeasible()

    def pick(self, n):
        if n == 1:
            return 0
        if self.ch is None:
            raise Undecided("choice at module level")
        return self.ch.pick(n)

    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                if any(isinstance(s, Item) for s in o.segs):
                    return True
                if not o.segs:
                    return False
                if len(o.segs) == 1 and isinstance(o.segs[0], Many):
                    return self.cond(cond_truth(o.segs[0].t))
                return self.cond((Term("truth", self.norm(v)), True))
            if isinstance(o, HDict):
                if o.entries:
                    return True
                if o.base is None and not o.reps:
                    return False
                return self.cond((Term("truth", self.norm(v)), True))
            if isinstance(o, HInst):
                for m in ("__bool__", "__nonzero__", "__len__"):
                    f, _k = self.cls_lookup(o.cls, m)
                    if f is not None and isinstance(f, Func):
                        return self.truth(self.call(Bound(f, v), [], {}))
                if "*store" in o.attrs:
                    return self.truth(o.attrs["*store"])
                if o.sym is not None and self.ext_container(o.cls):
                    return self.cond((Term("truth", o.sym), True))
            return True
        if isinstance(v, Term):
            return self.cond(cond_truth(v))
        return True

    def ext_container(self, cls):
        return isinstance(cls, Cls) and any(
            isinstance(k, Ext) and k.name in (
                "builtins.dict", "builtins.list", "builtins.tuple",
                "collections.OrderedDict") for k in cls.mro)

    def boolval(self, c):
        """abstract boolean of a canonical condition without forking"""
        if isinstance(c, bool):
            return TRUE if c else FALSE
        t, pol = c
        r = self.lookup_cond(t)
        if r is None and self.oracle is not None:
            r = self.oracle(self, t)
            if r is not None:
                self.learn(t, r)
        if r is not None:
            return TRUE if r == pol else FALSE
        return t if pol else Term("not", t)

    def eq(self, a, b):
        """canonical condition for a == b"""
        if a == b and not isinstance(a, Term):
            return True
        oa = self.obj(a) if isinstance(a, Ref) else None
        ob = self.obj(b) if isinstance(b, Ref) else None
        for x, y, ox in ((a, b, oa), (b, a, ob)):
            if isinstance(ox, HInst):
                f, _k = self.cls_lookup(ox.cls, "__eq__")
                if isinstance(f, Func) and not self.is_opaque(f, x):
                    r = self.call(Bound(f, x), [y], {})
                    return self.truth_cond(r)
        if isinstance(oa, HInst) and isinstance(ob, HInst):
            r = self.eq_stores(oa, ob)
            if r is not None:
                return r
        if isinstance(oa, HList) and isinstance(ob, HList) and \
                oa.kind in ("keys", "set") and ob.kind in ("keys", "set"):
            x, y = self.known_items(a), self.known_items(b)
            if x is not None and y is not None and all(
                    isinstance(i, Const) for i in x + y):
                return set(x) == set(y)
        if isinstance(oa, HList) and isinstance(ob, HList) and \
                oa.kind == ob.kind == "list":
            x, y = self.known_items(a), self.known_items(b)
            if x is not None and y is not None:
                a, b = Tup(x), Tup(y)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                c = self.eq(x, y)
                if c is True:
                    continue
                if c is False:
                    return False
                if not self.cond(c):
                    return False
            return True
        a, b = self.norm(a), self.norm(b)
        hk = self.hooks.get("eq")
        if hk is not None:
            r = hk(self, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Tup) and isinstance(b, Term) or \
           isinstance(b, Tup) and isinstance(a, Term):
            x, y = sorted((a, b), key=repr)
            if isinstance(x, Term):
                x, y = y, x
            if not x.items:
                c = cond_truth(y)
                k = self.lookup_cond(c[0]) if not isinstance(c, bool) else c
                if k is not None and not isinstance(c, bool):
                    k = k == c[1]
                if k:
                    return False
            x, y = sorted((a, b), key=repr)
            return Term("eq", x, y), True
        if not isinstance(a, (Term, Const, Tup)) or \
           not isinstance(b, (Term, Const, Tup)):
            if isinstance(a, Term) or isinstance(b, Term):
                x, y = sorted((a, b), key=repr)
                return Term("eq", x, y), True
            return a == b
        if strs.structured(a) or strs.structured(b):
            r = strs.eq(a, b)
            if r is not None:
                return r
        return cond_eq(a, b)

    def eq_stores(self, oa, ob):
        """whether two dictionaries with known keys, instances of
        subclasses of dict, have the same contents"""
        ds = [self.obj(o.attrs["*store"]) if "*store" in o.attrs else None
              for o in (oa, ob)]
        if not all(isinstance(d, HDict) and not d.base and not d.reps
                   and all(isinstance(k, Const) for k, _v in d.entries)
                   for d in ds):
            return None
        ks = [[k for k, _v in d.entries] for d in ds]
        if set(ks[0]) != set(ks[1]):
            return False
        if ks[0] != ks[1] and all(any(
                isinstance(k, Ext) and k.name == "collections.OrderedDict"
                for k in o.cls.mro) for o in (oa, ob)):
            return False
        other = dict(ds[1].entries)
        return self.eq(Tup([v for _k, v in ds[0].entries]),
                       Tup([other[k] for k in ks[0]]))

    def truth_cond(self, v):
        if isinstance(v, Term):
            return cond_truth(v)
        return self.truth(v)

    # -- names ---------------------------------------------------------

    def lookup(self, name, fid):
        f = self.st.frames[fid]
        if name in f.vars and name not in f.globals_:
            return f.vars[name]
        p = f.parent
        first = True
        while p is not None:
            pf = self.st.frames[p]
            # class scopes are not visible from nested functions
            if not isinstance(pf.node, ast.ClassDef) and name in pf.vars:
                return pf.vars[name]
            p = pf.parent
            first = False
        m = self.st.frames.get("m:" + f.mod) or \
            self.base.frames["m:" + f.mod]
        if name in m.vars:
            return m.vars[name]
        if hasattr(_pybuiltins, name):
            if name in ("True", "False", "None"):
                return Const(getattr(_pybuiltins, name))
            return Ext("builtins." + name)
        if name in PY2_BUILTINS:
            self.throw("NameError", Const(name))
        self.throw("NameError", Const(name))

    def store_name(self, name, val, fid):
        f = self.st.frames[fid]
        if name in f.globals_:
            k = "m:" + f.mod
            mf = self.st.frames[k]
            if self.st is not self.base:
                mf = mf.copy()
                self.st.frames[k] = mf
            mf.vars[name] = val
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                pf = self.st.frames[p]
                if name in pf.vars:
                    pf.vars[name] = val
                    return
                p = pf.parent
        f.vars[name] = val

    # -- statements ----------------------------------------------------

    def block(self, stmts, fid):
        for s in stmts:
            self.ex(s, fid)

    def ex(self, node, fid):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("step budget")
        self.node = node
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(node).__name__)
        return m(node, fid)

    def ex_Expr(self, node, fid):
        if isinstance(node.value, ast.Constant):
            return
        self.ev(node.value, fid)

    def ex_Pass(self, node, fid):
        pass

    def ex_Import(self, node, fid):
        for a in node.names:
            if a.asname:
                v = self.import_name(a.name)
                self.store_name(a.asname, v, fid)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_name(top), fid)

    def import_name(self, name):
        if name in self.prog.trees:
            return Mod(name)
        return Ext(name)

    def ex_ImportFrom(self, node, fid):
        f = self.st.frames[fid]
        base = node.module or ""
        if node.level:
            parts = f.mod.split(".")
            is_pkg = self.prog.files.get(f.mod, "").endswith("__init__.py")
            drop = node.level - (1 if is_pkg else 0)
            if drop:
                parts = parts[:-drop]
            base = ".".join(parts + ([node.module] if node.module else []))
        if base == "__future__":
            return
        for a in node.names:
            if a.name == "*":
                if base in self.prog.trees:
                    m = self.module(base)
                    vs = self.base.frames[m].vars
                    allv = vs.get("__all__")
                    names = [k for k in vs if not k.startswith("_")]
                    if isinstance(allv, Tup):
                        names = [x.v for x in allv.items]
                    for n in names:
                        if n in vs:
                            self.store_name(n, vs[n], fid)
                continue
            if base in self.prog.trees:
                sub = base + "." + a.name
                m = self.module(base)
                vs = self.base.frames[m].vars
                if a.name in vs:
                    v = vs[a.name]
                elif sub in self.prog.trees:
                    v = Mod(sub)
                else:
                    # cyclic import, or a missing name
                    v = Term("import", base, a.name)
            else:
                v = self.ext(base + "." + a.name)
            self.store_name(a.asname or a.name, v, fid)

    def ext(self, name):
        if name == "os.linesep":
            return Const("\n")
        if name in ("os.sep", "os.path.sep", "posixpath.sep"):
            return Const("/")
        return Ext(EXT_ALIAS.get(name, name))

    def ex_FunctionDef(self, node, fid):
        v = self.make_func(node, fid)
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, fid)
        self.store_name(node.name, v, fid)

    ex_AsyncFunctionDef = None

    def decorate(self, d, v, fid):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter",
                                                       "getter"):
            base = self.ev(d.value, fid)
            if isinstance(base, PropVal):
                if d.attr == "setter":
                    return PropVal(base.fget, v)
                return base
        dv = self.ev(d, fid)
        if isinstance(dv, Ext):
            n = dv.name
            if n == "builtins.property":
                return PropVal(v)
            if n == "builtins.staticmethod":
                return StaticVal(v)
            if n == "builtins.classmethod":
                return ClassMVal(v)
            if n == "contextlib.contextmanager":
                return Term("ctxmgr", v)
            if n in ("abc.abstractmethod", "functools.wraps"):
                return v
            if n == "abc.abstractproperty":
                return PropVal(v)
            return v
        if isinstance(dv, (Term, BuiltinMethod)):
            return v
        return self.call(dv, [v], {}, d)

    def make_func(self, node, fid, name=None):
        f = self.st.frames[fid]
        args = node.args
        defaults = [self.ev(x, fid) for x in args.defaults]
        kwd = {}
        for a, x in zip(args.kwonlyargs, args.kw_defaults):
            if x is not None:
                kwd[a.arg] = self.ev(x, fid)
        name = name or getattr(node, "name", "<lambda>")
        cls = None
        parent = fid
        q = self.prog.short(f.mod)
        if isinstance(f.node, ast.ClassDef):
            cls = f.cls
            q = (q + "." if q else "") + self.clsname(fid)
        elif f.node is not self.prog.trees.get(f.mod):
            q = (q + "." if q else "") + self.fname(fid)
        qual = (q + "." if q else "") + name
        if str(fid).startswith("m:"):
            parent = None
        return Func(node, parent, f.mod, cls, name, tuple(defaults), kwd, qual)

    def clsname(self, fid):
        f = self.st.frames[fid]
        return f.node.name

    def fname(self, fid):
        f = self.st.frames[fid]
        return getattr(f.node, "name", "<lambda>")

    def ex_ClassDef(self, node, fid):
        f = self.st.frames[fid]
        bases = []
        for b in node.bases:
            v = self.ev(b, fid)
            if isinstance(v, (Cls, Ext)):
                bases.append(v)
            elif isinstance(v, Ref) or isinstance(v, Term):
                bases.append(Ext("?" + show(self.norm(v))))
        q = self.prog.short(f.mod)
        cls = Cls(node.name, f.mod, node, tuple(bases),
                  (q + "." if q else "") + node.name)
        cfid = self.newframe(fid if not str(fid).startswith("m:") else None,
                             f.mod, cls, node)
        self.block(node.body, cfid)
        cls.attrs = dict(self.st.frames[cfid].vars)
        v = cls
        for d in reversed(node.decorator_list):
            dv = self.ev(d, fid)
            if isinstance(dv, (Func, Bound, PartialVal)):
                r = self.call(dv, [v], {}, d)
                if isinstance(r, Cls):
                    v = r
        self.store_name(node.name, v, fid)

    def newframe(self, parent, mod, cls, node):
        self.st.n += 1
        fid = "f%d" % self.st.n
        self.st.frames[fid] = Frame(parent, mod, cls, node)
        return fid

    def ex_Return(self, node, fid):
        v = NONE if node.value is None else self.ev(node.value, fid)
        raise ReturnSig(v)

    def ex_Delete(self, node, fid):
        for t in node.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fid].vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fid)
                k = self.ev_slice(t.slice, fid)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fid)
                if isinstance(o, Ref) and isinstance(self.obj(o), HInst):
                    ho = self.obj(o)
                    a = dict(ho.attrs)
                    a.pop(t.attr, None)
                    self.put(o, HInst(ho.cls, a, ho.sym, ho.open, ho.ctor))

    def delitem(self, o, k):
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HDict):
                self.put(o, HDict([(a, b) for a, b in h.entries if a != k],
                                  h.base, h.reps))
                return
            if isinstance(h, HList):
                self.put(o, HList(h.kind, [Many(self.fresh("del"))]))
                return
            if isinstance(h, HInst):
                f, _k = self.cls_lookup(h.cls, "__delitem__")
                if isinstance(f, Func):
                    self.call(Bound(f, o), [k], {})
                    return
                if "*store" in h.attrs:
                    self.delitem(h.attrs["*store"], k)
                    return
        self.emit("delitem", self.norm(o), [self.norm(k)])

    def ex_Assign(self, node, fid):
        v = self.ev(node.value, fid)
        for t in node.targets:
            self.assign(t, v, fid)

    def ex_AnnAssign(self, node, fid):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, fid), fid)

    def ex_AugAssign(self, node, fid):
        t = node.target
        op = BINOPS[type(node.op).__name__]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid)
            v = self.ev(node.value, fid)
            self.store_name(t.id, self.aug(op, cur, v), fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            cur = self.getattr(o, t.attr)
            v = self.ev(node.value, fid)
            self.setattr(o, t.attr, self.aug(op, cur, v))
        else:
            o = self.ev(t.value, fid)
            k = self.ev_slice(t.slice, fid)
            cur = self.getitem(o, k)
            v = self.ev(node.value, fid)
            self.setitem(o, k, self.aug(op, cur, v))

    def aug(self, op, cur, v):
        if op == "+" and isinstance(cur, Ref) and \
           isinstance(self.obj(cur), HList):
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev_slice(t.slice, fid)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            star = [i for i, e in enumerate(elts)
                    if isinstance(e, ast.Starred)]
            items = self.unpack_iter(v, len(elts) if not star else None)
            if star:
                i = star[0]
                if items is None:
                    raise Undecided("starred assignment")
                k = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fid)
                self.assign(elts[i].value,
                            self.newlist(items[i:len(items) - k]), fid)
                if k:
                    for e, x in zip(elts[i + 1:], items[-k:]):
                        self.assign(e, x, fid)
                return
            if len(items) != len(elts):
                self.throw("ValueError", Const("unpack"))
            for e, x in zip(elts, items):
                self.assign(e, x, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid)
        else:
            raise Undecided("assignment target")

    def unpack_iter(self, v, n):
        """list of n values obtained by iterating v"""
        items = self.known_items(v)
        if items is not None:
            return items
        if n is None:
            return None
        t = self.norm(v)
        el = self.elem_fixed(t, n)
        if el is not None:
            return el
        return [Term("index", t, Const(i)) for i in range(n)]

    def elem_fixed(self, t, n):
        return None

    def known_items(self, v):
        if isinstance(v, Term) and "items" in self.hooks:
            r = self.hooks["items"](self, v)
            if r is not None:
                return r
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return [mk(x) for x in v.v]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                if all(isinstance(s, Item) for s in o.segs):
                    # sets have no order: any will do, and one which is not
                    # that of insertion is as good a world as any
                    return [s.v for s in (o.segs[::-1] if o.kind == "set"
                                          else o.segs)]
                return None
            if isinstance(o, HDict) and o.base is None and not o.reps:
                return [k for k, _ in o.entries]
        if isinstance(v, Term) and v.op == "range" and \
           all(isinstance(a, Const) for a in v.args):
            r = range(*[a.v for a in v.args])
            if len(r) <= 300:
                return [Const(i) for i in r]
        return None

    def ex_Global(self, node, fid):
        f = self.st.frames[fid]
        f.globals_ = tuple(f.globals_) + tuple(node.names)

    def ex_Nonlocal(self, node, fid):
        f = self.st.frames[fid]
        f.nonlocals = tuple(f.nonlocals) + tuple(node.names)

    def ex_If(self, node, fid):
        if self.test(node.test, fid):
            self.block(node.body, fid)
        else:
            self.block(node.orelse, fid)

    def ex_Assert(self, node, fid):
        if not self.test(node.test, fid):
            self.throw("AssertionError")

    def ex_Raise(self, node, fid):
        if node.exc is None:
            cur = self.st.aux.get("exc")
            raise PyExc(cur if cur is not None else self.exc("RuntimeError"),
                        self.loc(node))
        v = self.ev(node.exc, fid)
        if isinstance(v, (Cls, Ext)):
            v = self.call(v, [], {}, node)
        loc = self.loc(node)
        raise PyExc(v, loc)

    def ex_Break(self, node, fid):
        raise BreakSig()

    def ex_Continue(self, node, fid):
        raise ContinueSig()

    def ex_Try(self, node, fid):
        aux = self.st.aux.get("try", ())
        self.st.aux["try"] = aux + ((len(node.handlers) > 0,),)
        try:
            try:
                try:
                    self.block(node.body, fid)
                finally:
                    self.st.aux["try"] = aux
            except PyExc as e:
                for h in node.handlers:
                    if self.matches(e.val, h.type, fid):
                        if h.name:
                            self.store_name(h.name, e.val, fid)
                        prev = self.st.aux.get("exc")
                        self.st.aux["exc"] = e.val
                        self.st.path.append(
                            (Term("caught", self.norm(e.val)), True,
                             self.loc(h)))
                        self.block(h.body, fid)
                        self.st.aux["exc"] = prev
                        break
                else:
                    raise
            else:
                self.block(node.orelse, fid)
        except (Signal,):
            self.block(node.finalbody, fid)
            raise
        else:
            self.block(node.finalbody, fid)

    ex_TryStar = None

    def matches(self, exc, typ, fid):
        if typ is None:
            return True
        t = self.ev(typ, fid)
        ts = t.items if isinstance(t, Tup) else [t]
        for x in ts:
            r = self.exc_isinstance(exc, x)
            if r is True:
                return True
            if r is None:
                if self.cond((Term("matches", self.norm(exc),
                                   self.norm(x)), True)):
                    return True
        return False

    def exc_isinstance(self, exc, cls):
        """True / False / None (unknown)"""
        if isinstance(exc, Ref):
            o = self.obj(exc)
            if isinstance(o, HInst) and isinstance(o.cls, Cls):
                if cls in o.cls.mro:
                    return True
                if isinstance(cls, Ext):
                    for k in o.cls.mro:
                        if isinstance(k, Ext) and ext_sub(k.name, cls.name):
                            return True
                return False
        if isinstance(exc, Term) and exc.op == "exc":
            if isinstance(cls, Ext):
                return ext_sub(exc.args[0], cls.name)
            return False
        if isinstance(exc, Term) and exc.op == "anyexc":
            # some unknown subclass of Exception (or of a given class)
            if isinstance(cls, Ext) and cls.name in (
                    "builtins.Exception", "builtins.BaseException"):
                return True
            of = exc.args[0]
            if of == cls:
                return True
            if isinstance(of, Cls):
                return of.derives(cls) if isinstance(cls, Cls) else None
            if isinstance(of, Ext) and isinstance(cls, Ext) and \
               of.name != "builtins.Exception":
                return ext_sub(of.name, cls.name)
            return None
        return None

    def ex_With(self, node, fid):
        self.with_items(node, list(node.items), fid)

    def with_items(self, node, items, fid):
        if not items:
            self.block(node.body, fid)
            return
        it = items[0]
        ctx = self.ev(it.context_expr, fid)
        val, exit_ = self.enter(ctx, it.context_expr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fid)
        saved = self.st.within
        key = self.norm(ctx)
        aux = self.st.aux.get("try", ())
        self.st.within = saved + (key,)
        try:
            self.with_items(node, items[1:], fid)
        except PyExc as e:
            self.st.within = saved
            if exit_(e.val):
                self.st.path.append((Term("caught", self.norm(e.val)), True,
                                     self.loc(node)))
                return
            raise
        except Signal:
            self.st.within = saved
            exit_(None)
            raise
        self.st.within = saved
        exit_(None)

    def enter(self, ctx, node):
        """returns (value bound by as, exit function)"""
        if isinstance(ctx, Ref) and isinstance(self.obj(ctx), HInst):
            o = self.obj(ctx)
            f, _k = self.cls_lookup(o.cls, "__enter__")
            g, _k = self.cls_lookup(o.cls, "__exit__")
            if isinstance(f, Func) and isinstance(g, Func):
                val = self.call(Bound(f, ctx), [], {}, node)

                def exit_(exc):
                    if exc is None:
                        self.call(Bound(g, ctx), [NONE, NONE, NONE], {}, node)
                        return False
                    r = self.call(
                        Bound(g, ctx),
                        [Term("new", "exctype", (self.norm(exc),)), exc,
                         Term("new", "traceback", ())], {}, node)
                    return self.truth(r)
                return val, exit_
        if isinstance(ctx, Term) and ctx.op == "cmcall":
            return self.enter_gen(ctx, node)
        t = self.norm(ctx)
        val = ctx
        if isinstance(t, Term) and t.op == "call" and \
           getattr(t.args[0], "name", "") == "contextlib.closing":
            val = t.args[1][0]
        self.emit("enter", t, node=node)

        def exit_(exc):
            self.emit("exit", t, node=node)
            hk = self.hooks.get("exit")
            if hk is not None:
                hk(self, t, exc)
            return False
        return val, exit_

    def enter_gen(self, ctx, node):
        raise Undecided("contextmanager generator")

    # -- loops ---------------------------------------------------------

    def ex_For(self, node, fid):
        it = self.ev(node.iter, fid)

        def body(v):
            self.assign(node.target, v, fid)
            self.block(node.body, fid)

        r = self.loop_over(node, it, body)
        if r != "break" and node.orelse:
            self.block(node.orelse, fid)

    def loop_over(self, node, it, body):
        o = self.obj(it) if isinstance(it, Ref) else None
        gen = isinstance(o, HList) and o.kind == "gen" and all(
            isinstance(s, Item) for s in o.segs)
        for ch in self.chunks(it):
            if gen:
                # a generator yields each value once
                self.put(it, HList("gen", self.obj(it).segs[1:]))
            if ch[0] == "item":
                try:
                    body(ch[1])
                except ContinueSig:
                    pass
                except BreakSig:
                    return "break"
            else:
                if self.generic_loop(node, ch[1], ch[2], body) == "break":
                    return "break"
        return None

    def iterate_protocol(self, v):
        """handle repo instances with __iter__"""
        o = self.obj(v) if isinstance(v, Ref) else None
        if isinstance(o, HInst):
            f, _k = self.cls_lookup(o.cls, "__iter__")
            if isinstance(f, Func) and not self.is_opaque(f, v):
                return self.call(Bound(f, v), [], {})
            if "*store" in o.attrs:
                return o.attrs["*store"]
            if f is None and o.sym is None and not o.open and isinstance(
                    o.cls, Cls) and all(isinstance(k, Cls) or getattr(
                        k, "name", "") in ("builtins.object", "object")
                        for k in o.cls.mro) and self.cls_lookup(
                            o.cls, "__getitem__")[0] is None:
                self.throw("TypeError", Const("not iterable"))
        elif isinstance(v, Const) and (v.v is None or isinstance(
                v.v, (bool, int, float))):
            self.throw("TypeError", Const("not iterable"))
        return v

    def chunks(self, v):
        """decompose an iterable into ('item', v) and
        ('gen', iterterm, [(conds, value)])"""
        v = self.iterate_protocol(v)
        items = self.known_items(v)
        if items is not None:
            return [("item", x) for x in items]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                out = []
                for s in o.segs:
                    if isinstance(s, Item):
                        out.append(("item", s.v))
                    elif isinstance(s, Many):
                        out.append(self.gen_chunk(s.t))
                    else:
                        alts = self.flat_alts(s)
                        if alts:
                            out.append(("gen", Term("rep", s), alts))
                return out
            if isinstance(o, HDict):
                return [("item", k) for k, _ in o.entries] + (
                    [self.gen_chunk(Term("keys", o.base))]
                    if o.base is not None else []) + [
                        ("gen", Term("reps", r), self.flat_dict_alts(r, 0))
                        for r in o.reps]
        return [self.gen_chunk(self.norm(v))]

    def flat_dict_alts(self, rep, what):
        out = []
        for p, ents in rep.alts:
            for k, v in ents:
                out.append((p, k if what == 0 else
                            v if what == 1 else Tup([k, v])))
        return out

    def flat_alts(self, rep, pre=()):
        out = []
        for p, segs in rep.alts:
            for s in segs:
                if isinstance(s, Item):
                    out.append((pre + tuple(p), s.v))
                elif isinstance(s, Rep):
                    out.extend(self.flat_alts(s, pre + tuple(p)))
                else:
                    out.append((pre + tuple(p), self.elem_of(s.t)))
        return out

    def gen_chunk(self, t):
        return ("gen", t, [((), self.elem_of(t))])

    def idx_of(self, t):
        """canonical iteration index of a loop over t"""
        if isinstance(t, Term) and t.op == "range":
            a, b, s = t.args
            if s == Const(1):
                n = ops.ladd(b, a, -1)
                t = Term("range", Const(0), n, Const(1))
        depth = sum(1 for x in self.st.active if x == t)
        if depth:
            return Term("num", "idx", t, depth)
        return Term("num", "idx", t)

    def count_of(self, t):
        """number of elements of iterable t, as a value"""
        if isinstance(t, Term) and t.op == "range" and t.args[2] == Const(1):
            return ops.ladd(t.args[1], t.args[0], -1)
        return Term("call", Ext("builtins.len"), (t,), (), 0)

    def elem_of(self, t):
        if isinstance(t, Term):
            if t.op == "range" and isinstance(t.args[2], Const) and \
               ops.lin(t.args[0]) is not None and \
               ops.lin(t.args[1]) is not None:
                return ops.ladd(t.args[0],
                                ops.lscale(self.idx_of(t), t.args[2].v))
            if t.op == "call":
                n = getattr(t.args[0], "name", None)
                a = t.args[1]
                if n == "builtins.enumerate" and a:
                    return Tup([Term("num", "idx", t), self.elem_of(a[0])])
                if n in ("builtins.zip", "itertools.zip_longest"):
                    return Tup([self.elem_of(x) for x in a])
                if n in ("builtins.sorted", "builtins.reversed",
                         "builtins.list", "builtins.tuple",
                         "builtins.iter", "builtins.set"):
                    return self.elem_of(a[0])
                f = t.args[0]
                if n in ("six.iteritems",):
                    k = Term("elem", Term("keys", a[0]))
                    return Tup([k, Term("index", a[0], k)])
                if isinstance(f, Term) and f.op == "attr":
                    if f.args[1] in ("items", "iteritems"):
                        k = Term("elem", Term("keys", f.args[0]))
                        return Tup([k, Term("index", f.args[0], k)])
                    if f.args[1] in ("values", "itervalues"):
                        k = Term("elem", Term("keys", f.args[0]))
                        return Term("index", f.args[0], k)
                    if f.args[1] in ("keys", "iterkeys"):
                        return Term("elem", Term("keys", f.args[0]))
            if t.op == "list":
                its = [s for s in t.args[1]]
                if len(its) == 1 and isinstance(its[0], Rep) and \
                   len(its[0].alts) == 1 and len(its[0].alts[0][1]) == 1 \
                   and isinstance(its[0].alts[0][1][0], Item):
                    return its[0].alts[0][1][0].v
                if len(its) == 1 and isinstance(its[0], Many):
                    return self.elem_of(its[0].t)
        if t in self.st.active:
            return Term("elem", t, len(self.st.active))
        return Term("elem", t)

    def ex_While(self, node, fid):
        # a while loop with a known test is executed directly while its
        # test stays known, up to a small bound
        def body(_v):
            if not self.test(node.test, fid):
                raise DoneSig()
            self.block(node.body, fid)

        if self.unroll:
            for _i in range(self.unroll):
                if not self.test(node.test, fid):
                    break
                try:
                    self.block(node.body, fid)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            else:
                raise Undecided("loop bound")
            if node.orelse:
                self.block(node.orelse, fid)
            return
        r = self.generic_loop(node, None, [((), NONE)], body)
        if r == "done" and node.orelse:
            self.block(node.orelse, fid)

    def generic_loop(self, node, iterterm, alts, body):
        key = (tuple(tuple(c.taken) for c in self.chstack), id(node),
               tuple(self.epochs), self.st.n, len(self.st.events), iterterm)
        rec = self.memo.get(key) if self.ch is not None else None
        if rec is None:
            rec = self.analyse_loop(node, iterterm, alts, body)
            if self.ch is not None:
                key = (tuple(tuple(c.taken) for c in self.chstack), id(node),
                       tuple(self.epochs), self.st.n, len(self.st.events), iterterm)
                self.memo[key] = rec
        return self.leave_loop(rec)

    def analyse_loop(self, node, iterterm, alts, body):
        entry = self.st
        lid = "L%d" % entry.n
        loc = self.loc(node)
        elem = alts[0][1] if len(alts) == 1 else None
        accs = set()
        phis = set()
        finite = set()
        demoted = set()
        induct = {}
        noinduct = set()
        whileiter = None
        fixedphi = set()
        entry_bools = []
        for fid, f in entry.frames.items():
            if fid[0] == "m":
                continue
            for k, v in f.vars.items():
                if isinstance(v, Const) and isinstance(v.v, bool):
                    entry_bools.append(("var", fid, k))
        for a, o in entry.heap.items():
            if isinstance(o, HInst):
                for k, v in o.attrs.items():
                    if isinstance(v, Const) and isinstance(v.v, bool):
                        entry_bools.append(("attr", a, k))

        def iteration():
            if len(alts) > 1:
                i = self.ch.pick(len(alts))
            else:
                i = 0
            conds, val = alts[i]
            for c in conds:
                self.assume(c[0], c[1])
            if iterterm is not None:
                self.st.active = self.st.active + (iterterm,)
            act = self.st.active
            kind = None
            try:
                body(val)
            except ContinueSig:
                pass
            for l in entry_bools:
                if l in phis:
                    continue
                v = self.get_loc(self.st, l)
                if isinstance(v, Term):
                    self.set_loc(self.st, l, Const(self.truth(v)))

        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Undecided("loop does not stabilise")
            st0 = entry.copy()
            st0.path = []
            st0.events = []
            itx = iterterm if iterterm is not None else whileiter
            for l in phis:
                if l in induct:
                    self.set_loc(st0, l, ops.ladd(
                        self.get_loc(entry, l),
                        ops.lscale(self.idx_of(itx), induct[l])))
                else:
                    h = self.hooks.get("phi")
                    pv = h(self, entry, lid, l, self.get_loc(entry, l)) \
                        if h is not None else None
                    if pv is not None:
                        fixedphi.add(l)
                    self.set_loc(st0, l, pv if pv is not None else
                                 self.phi_for(entry, lid, l))
            for a in accs:
                self.mark_acc(st0, lid, a)
            fin = sorted(finite)
            v0 = tuple(self.get_loc(entry, l) for l in fin)
            work = [v0]
            seen = {}
            changed = False
            invariant = None
            while work and not changed:
                v = work.pop()
                if v in seen:
                    continue
                s = st0.copy()
                for l, x in zip(fin, v):
                    self.set_loc(s, l, x)
                self.nepoch += 1
                self.epochs.append(self.nepoch)
                try:
                    paths = self.explore(iteration, s)
                finally:
                    self.epochs.pop()
                seen[v] = paths
                for p in paths:
                    for c in p.st.path:
                        if isinstance(c[0], Term) and c[0].op not in (
                                "caught", "matches") and \
                           self.is_invariant(c[0], lid, entry):
                            invariant = c[0]
                            break
                    if invariant is not None:
                        break
                if invariant is not None:
                    break
                for p in paths:
                    if p.kind not in ("normal", "continue"):
                        continue
                    for l, kind in self.diff(s, p.st):
                        if kind == "append":
                            if l not in accs and l not in phis:
                                accs.add(l)
                                changed = True
                            continue
                        if l in phis:
                            continue
                        if l in accs:
                            accs.discard(l)
                        after = self.get_loc(p.st, l)
                        before = self.get_loc(entry, l)
                        if l[0] in ("var", "attr") and l not in demoted and \
                           isinstance(before, Const) and \
                           isinstance(after, Const) and \
                           not isinstance(before.v, float):
                            if l not in finite:
                                finite.add(l)
                                changed = True
                            continue
                        finite.discard(l)
                        demoted.add(l)
                        phis.add(l)
                        changed = True
                    if not changed:
                        nv = tuple(self.get_loc(p.st, l) for l in fin)
                        if not all(isinstance(x, Const) for x in nv):
                            for l, x in zip(fin, nv):
                                if not isinstance(x, Const):
                                    finite.discard(l)
                                    demoted.add(l)
                                    phis.add(l)
                                    changed = True
                            continue
                        if nv not in seen:
                            work.append(nv)
                    if changed:
                        break
                if len(seen) + len(work) > 12 and not changed and fin:
                    # demote the location with most distinct values
                    best = max(range(len(fin)), key=lambda i: len(
                        {x[i] for x in list(seen) + work}))
                    l = fin[best]
                    finite.discard(l)
                    demoted.add(l)
                    phis.add(l)
                    changed = True
            if invariant is not None:
                # loop-invariant condition: decide it outside the loop
                self.cond((invariant, True))
                entry = self.st
                continue
            if changed:
                continue
            rec = LoopRec(lid, node, iterterm, elem, loc)
            rec.seen = seen
            rec.finite = tuple(fin)
            rec.entry = entry.copy()
            conts = rec.conts()
            for l in phis:
                rec.phis[l] = (
                    self.get_loc(st0, l), self.get_loc(entry, l),
                    [self.get_loc(p.st, l) for p in conts])
            # while i < n: i += 1  ==>  range(i0, n)
            if iterterm is None and whileiter is None:
                whileiter = self.induction_range(rec, v0)
                if whileiter is not None:
                    changed = True
            itx = iterterm if iterterm is not None else whileiter
            if itx is not None:
                for l, (phi, init, steps) in rec.phis.items():
                    if l in noinduct or l in induct or l in fixedphi:
                        continue
                    c = self.const_step(phi, init, steps)
                    if c is None:
                        noinduct.add(l)
                    else:
                        induct[l] = c
                        changed = True
            if not changed:
                break
            for l in list(induct):
                if l not in phis:
                    del induct[l]

        if iterterm is None:
            rec.iter = whileiter or Term("while", lid)
        reps = {}
        for a in accs:
            reps[a] = self.make_rep(rec, st0, conts, a)
        outs = []
        if iterterm is not None:
            vals = list(seen)
            for v in vals:
                s = st0.copy()
                for l, x in zip(fin, v):
                    self.set_loc(s, l, x)
                self.place_reps(s, entry, reps)
                for l in induct:
                    self.set_loc(s, l, ops.ladd(
                        self.get_loc(entry, l),
                        ops.lscale(self.count_of(iterterm), induct[l])))
                s.events = []
                s.path = []
                outs.append(("exhausted", v, s, None))
        for v, ps in seen.items():
            for p in ps:
                if p.kind in ("normal", "continue"):
                    continue
                s = p.st.copy()
                self.place_reps(s, entry, reps)
                if p.kind == "done" and whileiter is not None:
                    s.facts = dict(entry.facts)
                    s.eqs = dict(entry.eqs)
                    s.nes = dict(entry.nes)
                    s.rng = dict(entry.rng)
                    for l in induct:
                        s_l = ops.ladd(
                            self.get_loc(entry, l),
                            ops.lscale(self.count_of(whileiter), induct[l]))
                        self.set_loc(s, l, s_l)
                outs.append((p.kind, v, s, p))
        if not outs:
            # while True without exit: never terminates
            outs.append(("diverge", v0, st0, None))
        rec.outcome = outs
        return rec

    def leave_loop(self, rec):
        entry = self.st
        i = self.pick(len(rec.outcome))
        kind, v, s, p = rec.outcome[i]
        if kind == "diverge":
            raise Infeasible("non terminating loop")
        events = list(entry.events)
        path = list(entry.path)
        s = s.copy()
        for a, o in rec.exported.items():
            s.heap.setdefault(a, o)
        s.active = entry.active
        s.within = entry.within
        s.n = max(s.n, entry.n) + 1
        e = Event("loop", rec, (kind, v, p), loc=rec.loc,
                  stack=tuple(x[0] for x in self.stack), within=entry.within)
        own = list(s.path) if p is not None else []
        s.events = events + [e]
        s.path = path + [(rec, kind, v, p)] + \
            (own if kind not in ("exhausted",) else [])
        self.st = s
        if kind == "break":
            return "break"
        if kind == "return":
            raise ReturnSig(p.val)
        if kind == "raise":
            raise PyExc(p.val, p.loc)
        if kind == "done":
            return "done"
        return None

    def is_invariant(self, t, lid, entry):
        def variant(x):
            if x.op in ("elem", "phi", "call", "fresh", "num", "read", "fld", "bytes", "fldarr", "acc",
                        "index", "list", "dict"):
                return True
            return False
        return not term_mentions(t, lambda x: isinstance(x, Term)
                                 and variant(x))

    # locations

    def get_loc(self, st, l):
        if l[0] == "var":
            f = st.frames.get(l[1])
            return f.vars.get(l[2]) if f else None
        if l[0] == "attr":
            o = st.heap.get(l[1])
            return o.attrs.get(l[2]) if isinstance(o, HInst) else None
        if l[0] == "sym":
            return st.symattrs.get(l[1:])
        if l[0] == "heap":
            return st.heap.get(l[1])

    def set_loc(self, st, l, v):
        if l[0] == "var":
            if v is None:
                st.frames[l[1]].vars.pop(l[2], None)
            else:
                st.frames[l[1]].vars[l[2]] = v
        elif l[0] == "attr":
            o = st.heap[l[1]]
            if v is None:
                a = dict(o.attrs)
                a.pop(l[2], None)
                st.heap[l[1]] = HInst(o.cls, a, o.sym, o.open, o.ctor)
            else:
                st.heap[l[1]] = o.setattr(l[2], v)
        elif l[0] == "sym":
            if v is None:
                st.symattrs.pop(l[1:], None)
            else:
                st.symattrs[l[1:]] = v
        elif l[0] == "heap":
            st.heap[l[1]] = v

    def const_step(self, phi, init, steps):
        if not isinstance(phi, Term) or phi.op != "num" or not steps:
            return None
        if not isinstance(init, Val) or ops.lin(init) is None or \
           not (ops.is_num(init)):
            return None
        ds = set()
        for x in steps:
            if not isinstance(x, (Term, Const)) or ops.lin(x) is None:
                return None
            ds.add(ops.ladd(x, phi, -1))
        if len(ds) != 1:
            return None
        d = ds.pop()
        return d.v if isinstance(d, Const) else None

    def phi_for(self, entry, lid, l):
        e = self.get_loc(entry, l)
        name = l[2] if l[0] != "heap" else l[1]
        t = Term("phi", lid, name)
        if l[0] == "heap":
            o = e
            if isinstance(o, HList):
                return HList(o.kind, [Many(t)])
            if isinstance(o, HDict):
                return HDict((), t)
            return o
        if isinstance(e, Const) and isinstance(e.v, (int, float)) and \
           not isinstance(e.v, bool):
            return Term("num", "phi", lid, name)
        if e is not None and ops.is_num(e):
            return Term("num", "phi", lid, name)
        return t

    def diff(self, s, e):
        """locations of s whose content differs in e"""
        out = []
        for fid, f in s.frames.items():
            if fid[0] == "m":
                g = e.frames.get(fid)
                if g is f or g is None:
                    continue
            g = e.frames.get(fid)
            if g is None:
                continue
            for k in set(f.vars) | set(g.vars):
                if f.vars.get(k) != g.vars.get(k):
                    out.append((("var", fid, k), "set"))
        for a, o in s.heap.items():
            p = e.heap.get(a)
            if p is o or p is None:
                continue
            if isinstance(o, HInst):
                for k in set(o.attrs) | set(p.attrs):
                    if o.attrs.get(k) != p.attrs.get(k):
                        out.append((("attr", a, k), "set"))
            elif isinstance(o, HList):
                if o.segs == p.segs:
                    continue
                if p.segs[:len(o.segs)] == o.segs:
                    out.append((("heap", a, ""), "append"))
                else:
                    out.append((("heap", a, ""), "set"))
            elif isinstance(o, HDict):
                n = len(o.entries)
                if p.entries[:n] == o.entries and p.base == o.base and \
                   p.reps[:len(o.reps)] == o.reps:
                    out.append((("heap", a, ""), "append"))
                else:
                    out.append((("heap", a, ""), "set"))
        for k in set(s.symattrs) | set(e.symattrs):
            if s.symattrs.get(k) != e.symattrs.get(k):
                out.append((("sym",) + k, "set"))
        return out

    def mark_acc(self, st, lid, l):
        o = st.heap[l[1]]
        t = Term("acc", lid, l[1])
        if isinstance(o, HList):
            st.heap[l[1]] = HList(o.kind, o.segs + (Many(t),))
        else:
            st.heap[l[1]] = HDict(o.entries, o.base,
                                  o.reps + (Rep(lid, t, ()),))

    def make_rep(self, rec, st0, conts, l):
        before = st0.heap[l[1]]
        alts = []
        for i, p in enumerate(conts):
            o = self.export(p.st, l[1], st0, "@%s.%d" % (rec.lid, i), rec,
                            len(before.segs) if isinstance(before, HList)
                            else len(before.entries))
            path = tuple((c[0], c[1]) for c in p.st.path
                         if isinstance(c[0], Term))
            if isinstance(before, HList):
                alts.append((path, o.segs[len(before.segs):]))
            else:
                new = o.entries[len(before.entries):]
                alts.append((path, new))
        # a contribution made under every path is unconditional
        uniq = []
        for p, s in alts:
            if s not in [u for _, u in uniq]:
                uniq.append((p, s))
        if len(uniq) == 1:
            alts = [((), uniq[0][1])]
        return Rep(rec.lid, rec.iter, alts)

    def export(self, st, addr, st0, suffix, rec, skip):
        """copy of a container whose new elements refer to objects made
        inside the loop: these become visible outside under new names"""
        names = {}
        todo = []

        def f(a):
            if a in st0.heap or a not in st.heap:
                return a
            if a not in names:
                names[a] = a + suffix
                todo.append(a)
            return names[a]
        o = st.heap[addr]
        if isinstance(o, HList):
            r = HList(o.kind, o.segs[:skip] + tuple(
                map_refs(x, f) for x in o.segs[skip:]))
        else:
            r = HDict(o.entries[:skip] + tuple(
                (map_refs(k, f), map_refs(v, f))
                for k, v in o.entries[skip:]), o.base, o.reps)
        while todo:
            a = todo.pop()
            rec.exported[names[a]] = map_refs(st.heap[a], f)
        return r

    def place_reps(self, st, entry, reps):
        for l, rep in reps.items():
            o = st.heap[l[1]]
            n = len(entry.heap[l[1]].segs) if isinstance(o, HList) else 0
            if isinstance(o, HList):
                segs = o.segs[:n] + (rep,) + o.segs[n + 1:]
                st.heap[l[1]] = HList(o.kind, segs)
            else:
                m = len(entry.heap[l[1]].reps)
                reps_ = o.reps[:m] + (rep,) + o.reps[m + 1:]
                st.heap[l[1]] = HDict(o.entries, o.base, reps_)

    def induction_range(self, rec, v0):
        """recognise while loops that count"""
        dones = [p for p in rec.exits() if p.kind == "done"]
        if len(dones) != 1:
            return None
        conds = [c for c in dones[0].st.path if isinstance(c[0], Term)]
        if len(conds) != 1:
            return None
        t, b = conds[0][0], conds[0][1]
        for l, (phi, init, steps) in rec.phis.items():
            if not isinstance(phi, Term) or phi.op != "num" or not steps:
                continue
            ds = [ops.ladd(x, phi, -1) for x in steps
                  if isinstance(x, (Term, Const))]
            if len(ds) != len(steps) or len(set(ds)) != 1 or \
               not isinstance(ds[0], Const):
                continue
            step = ds[0].v
            if t.op == "lt0":
                c, m = ops.lin(t.args[0])
                k = m.pop(phi, None)
                if k is None:
                    continue
                # continue condition in terms of phi
                rest = ops.mklin(c, m)
                if step > 0 and ((k == 1 and b is False)):
                    # phi + rest < 0 continues: phi < -rest
                    return Term("range", init, ops.lscale(rest, -1),
                                Const(step))
                if step > 0 and k == -1 and b is True:
                    # done when rest - phi < 0, continue phi <= rest
                    return Term("range", init, ops.ladd(rest, Const(1)),
                                Const(step))
                if step == -1 and k == 1 and b is True:
                    # done when phi + rest < 0 ; continue phi >= -rest
                    return Term("range", Const(0),
                                ops.ladd(ops.ladd(init, rest), Const(1)),
                                Const(1))
            if t.op == "eq" and step == -1 and b is True and \
               t.args[0] == phi and t.args[1] == Const(0):
                return Term("range", Const(0), init, Const(1))
        return None

    # -- expressions ---------------------------------------------------

    def ev(self, node, fid):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("step budget")
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(node).__name__)
        return m(node, fid)

    def test(self, node, fid):
        """truth of an expression in boolean context"""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(self.test(x, fid) for x in node.values)
            return any(self.test(x, fid) for x in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.test(node.operand, fid)
        return self.truth(self.ev(node, fid))

    def ev_Constant(self, node, fid):
        if node.value is Ellipsis:
            return Const(None)
        return Const(node.value)

    def ev_Name(self, node, fid):
        self.node = node if hasattr(node, "lineno") else self.node
        return self.lookup(node.id, fid)

    def ev_Tuple(self, node, fid):
        return Tup(self.ev_elts(node.elts, fid))

    def ev_elts(self, elts, fid):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fid)
                items = self.known_items(v)
                if items is None:
                    raise Undecided("starred display")
                out.extend(items)
            else:
                out.append(self.ev(e, fid))
        return out

    def ev_List(self, node, fid):
        return self.display(node, fid, "list")

    def ev_Set(self, node, fid):
        return self.display(node, fid, "set")

    def display(self, node, fid, kind):
        segs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.segs_of(self.ev(e.value, fid)))
            else:
                segs.append(Item(self.ev(e, fid)))
        return self.newsegs(segs, kind)

    def ev_Dict(self, node, fid):
        d = self.newdict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                self.dict_update(d, self.ev(v, fid))
            else:
                kk = self.ev(k, fid)
                self.setitem(d, kk, self.ev(v, fid))
        return d

    def ev_JoinedStr(self, node, fid):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.ev(v.value, fid)
                conv = {115: "s", 114: "r", 97: "r"}.get(v.conversion, "s")
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fid)
                    if isinstance(sp, Const) and isinstance(x, Const):
                        parts.append(Const(format(x.v, sp.v)))
                    else:
                        parts.append(Term("fmt", show(sp), self.norm(x)))
                else:
                    parts.append(ops.strof(self.norm(x), conv))
        return cat(parts)

    def ev_IfExp(self, node, fid):
        if self.test(node.test, fid):
            return self.ev(node.body, fid)
        return self.ev(node.orelse, fid)

    def ev_BoolOp(self, node, fid):
        is_and = isinstance(node.op, ast.And)
        for x in node.values[:-1]:
            v = self.ev(x, fid)
            if self.truth(v) != is_and:
                if isinstance(v, Term) and v.op in (
                        "eq", "lt0", "lt", "isnone", "truth", "in",
                        "isinstance", "hasattr", "not"):
                    return FALSE if is_and else TRUE
                return v
        return self.ev(node.values[-1], fid)

    def ev_UnaryOp(self, node, fid):
        if isinstance(node.op, ast.Not):
            v = self.ev(node.operand, fid)
            if isinstance(v, Term):
                return self.boolval(ops.neg(cond_truth(v)))
            return FALSE if self.truth(v) else TRUE
        v = self.norm(self.ev(node.operand, fid))
        if isinstance(node.op, ast.USub):
            if isinstance(v, Const):
                return Const(-v.v)
            return ops.lscale(v, -1)
        if isinstance(node.op, ast.Invert):
            if isinstance(v, Const):
                return Const(~v.v)
            return ops.ladd(Const(-1), v, -1)
        return v

    def ev_BinOp(self, node, fid):
        a = self.ev(node.left, fid)
        b = self.ev(node.right, fid)
        return self.binop(BINOPS[type(node.op).__name__], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = self.binop_ref(op, a, b)
            if r is not None:
                return r
        if op == "%" and (isinstance(a, Const) and isinstance(a.v, str)):
            exact = isinstance(b, Tup) or isinstance(b, Const) and \
                not isinstance(b.v, tuple)
            if isinstance(b, Tup):
                args = [self.norm(x) for x in b.items]
            elif isinstance(b, Ref) and isinstance(self.obj(b), HDict):
                o = self.obj(b)
                args = {k.v: self.norm(v) for k, v in o.entries
                        if isinstance(k, Const)}
            else:
                args = [self.norm(b)]
            try:
                r = ops.percent_format(a.v, args, exact)
            except ops.FormatError as ex:
                self.throw(str(ex))
            if r is not None:
                return r
            return Term("percent", a, self.norm(b))
        if op == "*" and isinstance(a, Tup) and isinstance(b, Const):
            return Tup(a.items * b.v)
        a, b = self.norm(a), self.norm(b)
        hk = self.hooks.get("binop")
        if hk is not None:
            r = hk(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Term) and a in self.st.eqs and ops.is_num(a):
            a = self.st.eqs[a]
        if isinstance(b, Term) and b in self.st.eqs and ops.is_num(b):
            b = self.st.eqs[b]
        r = binop(op, a, b)
        if r is None:
            r = Term("binop", op, a, b)
        if isinstance(r, Term) and r.op == "binop-error":
            if op in ("/", "//", "%") and isinstance(b, Const) and \
                    isinstance(b.v, (int, float)) and b.v == 0 and \
                    isinstance(a, Const) and isinstance(a.v, (int, float)):
                self.throw("ZeroDivisionError")
            self.throw("TypeError", Const("binop %s %s %s" % (
                show(a), op, show(b))))
        return r

    def members(self, x, y):
        """which of x are in y and vice versa, if that is decided"""
        if x is None or y is None or len(x) * len(y) > 4096:
            return None
        eqs = []
        for i in x:
            row = []
            for j in y:
                if isinstance(i, Const) and isinstance(j, Const):
                    c = i == j
                else:
                    c = self.eq(i, j)
                    if not isinstance(c, bool):
                        c = self.lookup_cond(c[0]) == c[1] if \
                            self.lookup_cond(c[0]) is not None else None
                if c is None:
                    return None
                row.append(c)
            eqs.append(row)
        return [any(r) for r in eqs], [any(r[k] for r in eqs)
                                       for k in range(len(y))]

    def binop_ref(self, op, a, b):
        oa = self.obj(a) if isinstance(a, Ref) else None
        ob = self.obj(b) if isinstance(b, Ref) else None
        if op == "+" and isinstance(oa, HList) and oa.kind == "list":
            return self.newsegs(oa.segs + tuple(self.segs_of(b)))
        if op == "*" and isinstance(oa, HList) and isinstance(b, Const):
            return self.newsegs(oa.segs * b.v)
        if op == "*" and isinstance(oa, HList):
            return self.newsegs([Rep("mul", self.norm(b), [((), oa.segs)])])
        if op in ("-", "&", "|", "^") and (
                isinstance(oa, HList) or isinstance(ob, HList)):
            if op == "|" and isinstance(oa, HList):
                return self.newsegs(oa.segs + tuple(self.segs_of(b)), "set")
            x = self.known_items(a)
            y = self.known_items(b)
            ms = self.members(x, y)
            if ms is not None:
                xy, yx = ms
                out = {"-": [i for i, m in zip(x, xy) if not m],
                       "&": [i for i, m in zip(x, xy) if m]}
                out["^"] = out["-"] + [i for i, m in zip(y, yx) if not m]
                if op in out:
                    return self.newlist(out[op], "set")
            return Term("setop", op, self.norm(a), self.norm(b))
        for o, m in ((oa, {"+": "__add__", "-": "__sub__", "|": "__or__"}),):
            if isinstance(o, HInst) and op in m:
                f, _k = self.cls_lookup(o.cls, m[op])
                if isinstance(f, Func):
                    return self.call(Bound(f, a), [b], {})
        return None

    def ev_Compare(self, node, fid):
        left = self.ev(node.left, fid)
        res = None
        n = len(node.ops)
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(rn, fid)
            c = self.compare(op, left, right)
            if i == n - 1:
                return self.boolval(c)
            if not self.cond(c):
                return FALSE
            left = right

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Eq":
            return self.eq(a, b)
        if n == "NotEq":
            if isinstance(a, Ref) and isinstance(self.obj(a), HInst):
                f, _k = self.cls_lookup(self.obj(a).cls, "__ne__")
                if isinstance(f, Func) and not self.is_opaque(f, a):
                    return self.truth_cond(self.call(Bound(f, a), [b], {}))
            return ops.neg(self.eq(a, b))
        if n in ("Is", "IsNot"):
            if isinstance(a, Const) and isinstance(b, Const):
                c = a == b
            elif a == NONE or b == NONE:
                x = b if a == NONE else a
                c = False if isinstance(x, (Ref, Tup, Func, Cls, Bound, Ext,
                                            Mod)) else \
                    cond_isnone(self.norm(x))
            elif isinstance(a, (Ref, Cls, Ext)) and \
                    isinstance(b, (Ref, Cls, Ext)):
                c = a == b
            else:
                x, y = self.norm(a), self.norm(b)
                if isinstance(x, Term) and isinstance(y, Term) and \
                        x.op == y.op == "new":
                    c = x == y
                elif isinstance(x, Const) and not isinstance(
                        x.v, (bool, type(None))) or \
                        isinstance(y, Const) and not isinstance(
                            y.v, (bool, type(None))) or \
                        isinstance(x, Term) and isinstance(y, Term) and \
                        x != y:
                    c = Term("is", x, y), True
                else:
                    c = cond_eq(x, y) if x != y else True
            return c if n == "Is" else ops.neg(c)
        if n in ("In", "NotIn"):
            c = self.contains(a, b)
            return c if n == "In" else ops.neg(c)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if n in ("Gt", "GtE"):
                a, b, n = b, a, {"Gt": "Lt", "GtE": "LtE"}[n]
            for x, y in zip(a.items, b.items):
                c = self.eq(x, y)
                if c is True or c is not False and self.cond(c):
                    continue
                return self.compare(ast.Lt(), x, y)
            k, m = len(a.items), len(b.items)
            return k < m if n == "Lt" else k <= m
        for l, r, m in ((a, b, {"Lt": "__lt__", "Gt": "__gt__",
                                "LtE": "__le__", "GtE": "__ge__"}[n]),
                        (b, a, {"Lt": "__gt__", "Gt": "__lt__",
                                "LtE": "__ge__", "GtE": "__le__"}[n])):
            if isinstance(l, Ref) and isinstance(self.obj(l), HInst):
                f, _k = self.cls_lookup(self.obj(l).cls, m)
                if isinstance(f, Func) and not self.is_opaque(f, l):
                    return self.truth_cond(self.call(Bound(f, l), [r], {}))
        x, y = self.norm(a), self.norm(b)
        x = self.st.eqs.get(x, x) if isinstance(x, Term) else x
        y = self.st.eqs.get(y, y) if isinstance(y, Term) else y
        hk = self.hooks.get("lt")
        if hk is not None:
            l, r = (x, y) if n in ("Lt", "GtE") else (y, x)
            r = hk(self, l, r)
            if r is not NotImplemented:
                return r if n in ("Lt", "Gt") else ops.neg(r)
        if n == "Lt":
            return cond_lt(x, y)
        if n == "Gt":
            return cond_lt(y, x)
        if n == "LtE":
            return ops.neg(cond_lt(y, x))
        return ops.neg(cond_lt(x, y))

    def contains(self, a, c):
        """canonical condition for a in c"""
        items = None
        if isinstance(c, Ref) and isinstance(self.obj(c), HDict):
            o = self.obj(c)
            if o.base is not None or o.reps:
                for k, _v in o.entries:
                    if k == a:
                        return True
                return Term("in", self.norm(a), self.norm(c)), True
            items = [k for k, _ in o.entries]
        elif isinstance(c, Ref) and isinstance(self.obj(c), HInst):
            f, _k = self.cls_lookup(self.obj(c).cls, "__contains__")
            if isinstance(f, Func) and not self.is_opaque(f, c):
                return self.truth_cond(self.call(Bound(f, c), [a], {}))
            if self.store(c) is not None:
                return self.contains(a, self.store(c))
        elif not (isinstance(c, Const)):
            items = self.known_items(c)
        if items is not None:
            for x in items:
                r = self.eq(a, x)
                if r is True:
                    return True
            for x in items:
                r = self.eq(a, x)
                if r is False:
                    continue
                if self.cond(r):
                    return True
            return False
        if isinstance(a, Const) and isinstance(c, Const):
            try:
                return a.v in c.v
            except TypeError:
                pass
        if isinstance(c, Term) and strs.structured(c):
            try:
                return strs.has(c, self.norm(a))
            except strs.Unknown:
                pass
        if isinstance(c, Const) and isinstance(c.v, str) and \
                strs.structured(a):
            if strs.sign(ops.ladd(strs.length(strs.parts(a)), Const(
                    len(c.v)), -1)) == ">":
                return False
            try:
                if not all(strs.has(Const(c.v), p) for p in strs.parts(a)
                           if isinstance(p, Const) and len(p.v) == 1):
                    return False
            except strs.Unknown:
                pass
        if isinstance(c, Const) and isinstance(c.v, str) and \
           isinstance(a, Term) and a.op == "chr1":
            for x in c.v:
                if self.cond(cond_eq(a, Const(x))):
                    return True
            return False
        hk = self.hooks.get("contains")
        if hk is not None:
            r = hk(self, self.norm(a), self.norm(c))
            if r is not NotImplemented:
                return r
        return Term("in", self.norm(a), self.norm(c)), True

    def ev_Lambda(self, node, fid):
        return self.make_func(node, fid, "<lambda>")

    def ev_NamedExpr(self, node, fid):
        v = self.ev(node.value, fid)
        self.assign(node.target, v, fid)
        return v

    def ev_Starred(self, node, fid):
        return self.ev(node.value, fid)

    def ev_ListComp(self, node, fid):
        return self.comp(node, fid, "list")

    def ev_SetComp(self, node, fid):
        return self.comp(node, fid, "set")

    def ev_GeneratorExp(self, node, fid):
        return self.comp(node, fid, "gen")

    def comp(self, node, fid, kind):
        f = self.st.frames[fid]
        res = self.alloc(HList(kind, ()))
        nf = self.newframe(fid if fid[0] != "m" else None, f.mod, f.cls, node)
        # comprehensions see the enclosing class/function/module scopes
        if fid[0] == "m":
            self.st.frames[nf].parent = None

        def level(i):
            if i == len(node.generators):
                v = self.ev(node.elt, nf)
                self.list_append(res, v)
                return
            g = node.generators[i]
            it = self.ev(g.iter, nf if i else fid)

            def body(v):
                self.assign(g.target, v, nf)
                for c in g.ifs:
                    if not self.test(c, nf):
                        raise ContinueSig()
                level(i + 1)
            self.loop_over(g, it, body)

        level(0)
        if not self.captures(node):
            self.st.frames.pop(nf, None)
        return res

    def ev_DictComp(self, node, fid):
        f = self.st.frames[fid]
        res = self.newdict()
        nf = self.newframe(fid if fid[0] != "m" else None, f.mod, f.cls, node)

        def level(i):
            if i == len(node.generators):
                k = self.ev(node.key, nf)
                v = self.ev(node.value, nf)
                self.setitem(res, k, v)
                return
            g = node.generators[i]
            it = self.ev(g.iter, nf if i else fid)

            def body(v):
                self.assign(g.target, v, nf)
                for c in g.ifs:
                    if not self.test(c, nf):
                        raise ContinueSig()
                level(i + 1)
            self.loop_over(g, it, body)

        level(0)
        if not self.captures(node):
            self.st.frames.pop(nf, None)
        return res

    def ev_Yield(self, node, fid):
        v = NONE if node.value is None else self.ev(node.value, fid)
        f = self.st.frames[fid]
        if f.yields is None:
            raise Undecided("yield outside function")
        self.emit("yield", NONE, [self.norm(v)], node=node)
        self.list_append(f.yields, v)
        return NONE

    def ev_YieldFrom(self, node, fid):
        v = self.ev(node.value, fid)
        f = self.st.frames[fid]
        self.list_extend(f.yields, v)
        return NONE

    def ev_Attribute(self, node, fid):
        o = self.ev(node.value, fid)
        self.node = node
        return self.getattr(o, node.attr, node)

    def ev_Subscript(self, node, fid):
        o = self.ev(node.value, fid)
        k = self.ev_slice(node.slice, fid)
        self.node = node
        return self.getitem(o, k)

    def ev_slice(self, s, fid):
        if isinstance(s, ast.Slice):
            parts = [NONE if x is None else self.norm(self.ev(x, fid))
                     for x in (s.lower, s.upper, s.step)]
            return Term("slice", *parts)
        return self.ev(s, fid)

    def ev_Call(self, node, fid):
        f = self.ev(node.func, fid)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                items = self.known_items(v)
                if items is None:
                    args.append(Term("star", self.norm(v)))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, fid))
        kwargs = {}
        for k in node.keywords:
            v = self.ev(k.value, fid)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.obj(v), HDict) and \
                   self.obj(v).base is None and all(
                       isinstance(x, Const) for x, _ in self.obj(v).entries):
                    for x, y in self.obj(v).entries:
                        kwargs[x.v] = y
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.node = node
        if isinstance(f, Ext) and f.name == "builtins.super" and not args:
            fr = self.st.frames[fid]
            cls, self_ = self.find_super(fid)
            args = [cls, self_]
        if isinstance(f, Ext) and f.name == "builtins.locals":
            return self.newdict([(Const(k), v) for k, v in
                                 self.st.frames[fid].vars.items()])
        return self.call(f, args, kwargs, node)

    def find_super(self, fid):
        while fid is not None:
            f = self.st.frames[fid]
            if f.cls is not None and f.self_ is not None:
                return f.cls, f.self_
            fid = f.parent
        raise Undecided("super()")

    # -- attributes ----------------------------------------------------

    def cls_lookup(self, cls, name):
        if isinstance(cls, Cls):
            return cls.lookup(name)
        return None, None

    def getattr(self, o, name, node=None):
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HInst):
                return self.inst_attr(o, h, name)
            return BuiltinMethod(o, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return Const(o.name)
            if name == "__mro__":
                return Tup(o.mro)
            if name == "__bases__":
                return Tup(o.bases)
            v, _k = o.lookup(name)
            if v is None and name == "mro":
                return BuiltinMethod(o, name)
            if v is None:
                exts = [k for k in o.mro if isinstance(k, Ext)
                        and k.name != "builtins.object"]
                if exts:
                    return Term("attr", exts[0], name)
                if name in ("__doc__", "__module__", "__dict__"):
                    return Term("attr", o, name)
                self.throw("AttributeError", Const(name))
            if isinstance(v, StaticVal):
                return v.f
            if isinstance(v, ClassMVal):
                return Bound(v.f, o)
            return v
        if isinstance(o, SuperVal):
            return self.super_attr(o, name)
        if isinstance(o, Mod):
            fid = self.module(o.name)
            vs = (self.st.frames.get(fid) or self.base.frames[fid]).vars
            if name in vs:
                return vs[name]
            sub = o.name + "." + name
            if sub in self.prog.trees:
                return Mod(sub)
            if name == "__path__" and any(m.startswith(o.name + ".")
                                          for m in self.prog.trees):
                return self.newlist([Const("/" + o.name.replace(".", "/"))])
            self.throw("AttributeError", Const(name))
        if isinstance(o, Ext):
            return self.ext(o.name + "." + name)
        if isinstance(o, (Const, Tup)):
            if isinstance(o, Const) and not hasattr(o.v, name):
                self.throw("AttributeError", Const(name), o)
            return BuiltinMethod(o, name)
        if isinstance(o, Func):
            if name in ("__name__", "func_name"):
                return Const(o.name)
            return Term("attr", self.norm(o), name)
        if isinstance(o, Bound):
            if name in ("__self__", "im_self"):
                return o.self
            return self.getattr(o.func, name)
        if isinstance(o, Term):
            if strs.structured(o) and hasattr("", name) and \
                    any(strs.is_atom(p) for p in strs.parts(o)):
                return BuiltinMethod(o, name)
            v = self.st.symattrs.get((o, name))
            if v is not None:
                return v
            h = self.hooks.get("attr:" + name)
            if h is not None:
                r = h(self, o, name)
                if r is not NotImplemented:
                    return r
            if namespace(o) and not name.startswith("_"):
                self.throw("AttributeError", Const(name), o)
            return Term("attr", o, name)
        return Term("attr", self.norm(o), name)

    def inst_attr(self, ref, h, name):
        if name == "__class__":
            return h.cls
        if name in h.attrs:
            return h.attrs[name]
        v, k = self.cls_lookup(h.cls, name)
        if v is not None:
            if isinstance(v, PropVal):
                return self.call(Bound(v.fget, ref), [], {})
            if isinstance(v, StaticVal):
                return v.f
            if isinstance(v, ClassMVal):
                return Bound(v.f, h.cls)
            if isinstance(v, Func):
                return Bound(v, ref)
            if h.sym is not None and self.assigned_on_self(h.cls, name):
                return Term("attr", h.sym, name)
            return v
        if "*store" in h.attrs and hasattr({}, name):
            return BuiltinMethod(h.attrs["*store"], name)
        if name == "__dict__":
            return Term("attr", self.norm(ref), name)
        if h.sym is not None:
            if isinstance(h.cls, Cls) and not self.assigned_on_self(
                    h.cls, name) and not h.open and \
                    not self.has_ext_base(h.cls):
                # no such attribute in any instance of this class
                hk = self.hooks.get("noattr")
                if hk is not None:
                    hk(self, ref, name)
            ht = self.hooks.get("symattr")
            if ht is not None:
                r = ht(self, ref, h, name)
                if r is not None and r is not NotImplemented:
                    return r
            return Term("attr", h.sym, name)
        if isinstance(h.cls, Cls):
            exts = self.has_ext_base(h.cls)
            if exts:
                if name == "args" and h.ctor is not None:
                    return Tup(h.ctor)
                base = self.norm(ref)
                return Term("attr", base, name)
            f, _k = h.cls.lookup("__getattr__")
            if isinstance(f, Func):
                return self.call(Bound(f, ref), [Const(name)], {})
        self.throw("AttributeError", Const(name), self.norm(ref))

    def has_ext_base(self, cls):
        return [k for k in cls.mro if isinstance(k, Ext)
                and k.name != "builtins.object"]

    def assigned_on_self(self, cls, name):
        for k in cls.mro:
            if not isinstance(k, Cls):
                continue
            s = getattr(self, "_selfattrs", None)
            if s is None:
                s = self._selfattrs = {}
            if k not in s:
                names = set()
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and \
                       isinstance(n.ctx, (ast.Store, ast.Del)) and \
                       isinstance(n.value, ast.Name):
                        names.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == "setattr" \
                            and len(n.args) == 3 and isinstance(
                                n.args[1], ast.Constant):
                        names.add(n.args[1].value)
                s[k] = names
            if name in s[k]:
                return True
        return False

    def super_attr(self, s, name):
        obj = s.obj
        if isinstance(obj, Ref):
            cls = self.obj(obj).cls
        elif isinstance(obj, Cls):
            cls = obj
        else:
            raise Undecided("super of unknown")
        mro = list(cls.mro)
        if s.cls in mro:
            mro = mro[mro.index(s.cls) + 1:]
        for k in mro:
            if isinstance(k, Cls) and name in k.attrs:
                v = k.attrs[name]
                if isinstance(v, PropVal):
                    return self.call(Bound(v.fget, obj), [], {})
                if isinstance(v, StaticVal):
                    return v.f
                if isinstance(v, ClassMVal):
                    return Bound(v.f, cls)
                if isinstance(v, Func):
                    return Bound(v, obj)
                return v
            if isinstance(k, Ext) and k.name != "builtins.object":
                if self.store(obj) is not None:
                    return BuiltinMethod(self.store(obj), name)
                return Term("superattr", k.name, self.norm(obj), name)
        return Term("superattr", "object", self.norm(obj), name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HInst):
                p, _k = self.cls_lookup(h.cls, name)
                if isinstance(p, PropVal) and p.fset is not None:
                    self.call(Bound(p.fset, o), [v], {})
                    return
                self.put(o, h.setattr(name, v))
                self.emit("setattr", self.norm(o), [Const(name), v])
                return
        if isinstance(o, Term):
            self.st.symattrs[(o, name)] = v
        elif isinstance(o, Cls):
            o.attrs[name] = v
        elif isinstance(o, Func):
            pass
        self.emit("setattr", self.norm(o), [Const(name), self.norm(v)])

    # -- items ---------------------------------------------------------

    def getitem(self, o, k):
        if isinstance(k, Term) and k.op == "slice":
            return self.getslice(o, k)
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HList):
                items = self.known_items(o)
                if items is not None:
                    return self.index_items(items, k, o)
                if isinstance(k, Const) and isinstance(k.v, int):
                    segs = h.segs if k.v >= 0 else tuple(reversed(h.segs))
                    i = k.v if k.v >= 0 else -k.v - 1
                    for s in segs:
                        if not isinstance(s, Item):
                            break
                        if i == 0:
                            return s.v
                        i -= 1
                # single unconditional repetition: element of it
                return Term("index", self.norm(o), self.norm(k))
            if isinstance(h, HDict):
                return self.dict_get(o, h, k, None)
            if isinstance(h, HInst):
                f, _k = self.cls_lookup(h.cls, "__getitem__")
                if isinstance(f, Func):
                    return self.call(Bound(f, o), [k], {})
                if "*store" in h.attrs:
                    return self.getitem(h.attrs["*store"], k)
                if h.sym is None and ("[]", self.norm(k)) in h.attrs:
                    return h.attrs[("[]", self.norm(k))]
                return Term("index", self.norm(o), self.norm(k))
        if isinstance(o, Tup):
            return self.index_items(list(o.items), k, o)
        if isinstance(o, Const):
            if isinstance(k, Const):
                try:
                    return mk(o.v[k.v])
                except (IndexError, KeyError) as e:
                    self.throw(type(e).__name__)
                except TypeError:
                    self.throw("TypeError")
        if isinstance(o, Term) and o.op == "index" and False:
            pass
        k = self.norm(k)
        if isinstance(k, Term) and k in self.st.eqs:
            k = self.st.eqs[k]
        t = self.norm(o)
        if strs.structured(t) and ops.lin(k) is not None:
            try:
                return strs.getindex(t, k)
            except strs.Out:
                self.throw("IndexError")
            except strs.Unknown:
                pass
        v = self.st.symattrs.get((t, ("[]", k)))
        if v is not None:
            return v
        h = self.hooks.get("index")
        if h is not None:
            r = h(self, t, k)
            if r is not NotImplemented:
                return r
        return Term("index", t, k)

    def index_items(self, items, k, o):
        if isinstance(k, Term) and k in self.st.eqs:
            k = self.st.eqs[k]
        if isinstance(k, Const):
            if isinstance(k.v, bool):
                k = Const(int(k.v))
            if not isinstance(k.v, int):
                self.throw("TypeError", Const("index %r" % (k.v,)))
            if -len(items) <= k.v < len(items):
                return items[k.v]
            self.throw("IndexError")
        c = None
        if isinstance(k, Term) and len(items) == 2:
            try:
                c = cond_truth(k)
            except Exception:
                c = None
            if c is not None and k.op in ("eq", "lt0", "isnone", "truth",
                                          "in", "not"):
                return items[1] if self.cond(c) else items[0]
        return Term("index", self.norm(o), self.norm(k))

    def surely_absent(self, h, kn):
        """is the structured text certainly none of the keys"""
        return h.base is None and not h.reps and isinstance(kn, Term) and \
            strs.structured(kn) and all(
                self.eq(kn, self.norm(a)) is False for a, _ in h.entries)

    def dict_get(self, o, h, k, default):
        """default None: raise KeyError"""
        if isinstance(k, Term) and k in self.st.eqs:
            k = self.st.eqs[k]
        kn = self.norm(k)
        for a, v in h.entries:
            if a == k or self.norm(a) == kn:
                return v
        if isinstance(kn, Const) and all(
                isinstance(self.norm(a), (Const, Tup, Cls, Ext))
                for a, _ in h.entries):
            if h.base is None and not h.reps:
                if default is not None:
                    return default
                self.throw("KeyError", kn)
        elif self.surely_absent(h, kn):
            if default is not None:
                return default
            self.throw("KeyError", kn)
        elif h.base is None and not h.reps and isinstance(kn, Term) and \
                all(isinstance(a, Const) for a, _ in h.entries) and \
                len(h.entries) <= 300:
            for a, v in h.entries:
                if self.cond(self.eq(kn, a)):
                    return v
            if default is not None:
                return default
            self.throw("KeyError", kn)
        elif isinstance(kn, (Cls, Ext, Tup, Func)) and h.base is None and \
                not h.reps:
            if all(not isinstance(self.norm(a), Term) for a, _ in h.entries):
                if default is not None:
                    return default
                self.throw("KeyError", kn)
        elif h.base is None and not h.reps and not h.entries:
            if default is not None:
                return default
            self.throw("KeyError", kn)
        d = self.norm(o)
        if default is not None:
            if self.cond((Term("in", kn, d), True)):
                return Term("index", d, kn)
            return default
        return Term("index", d, kn)

    def getslice(self, o, k):
        lo, hi, step = k.args
        if isinstance(o, Const) and not isinstance(o.v, (str, bytes)):
            self.throw("TypeError", Const("not subscriptable"))
        items = self.known_items(o)
        if isinstance(o, Const) and all(isinstance(x, Const)
                                        for x in k.args):
            return Const(o.v[slice(lo.v, hi.v, step.v)])
        if items is not None and all(isinstance(x, Const) for x in k.args):
            r = items[slice(lo.v, hi.v, step.v)]
            return Tup(r) if isinstance(o, Tup) else self.newlist(r)
        if (lo, hi, step) == (NONE, NONE, NONE) and isinstance(o, Ref) and \
           isinstance(self.obj(o), HList):
            h = self.obj(o)
            return self.newsegs(h.segs, h.kind)
        if isinstance(o, Ref) and isinstance(self.obj(o), HInst):
            f, _k = self.cls_lookup(self.obj(o).cls, "__getitem__")
            if isinstance(f, Func):
                return self.call(Bound(f, o), [k], {})
        t = self.norm(o)
        if strs.parts(t) is not None:
            try:
                return strs.getslice(t, Term("slice", *[
                    self.norm(x) for x in k.args]))
            except strs.Unknown:
                pass
        hk = self.hooks.get("slice")
        if hk is not None:
            r = hk(self, t, *[self.norm(x) for x in (lo, hi, step)])
            if r is not NotImplemented:
                return r
        return Term("slice", t, lo, hi, step)

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HDict):
                ents = list(h.entries)
                kn = self.norm(k)
                for i, (a, _b) in enumerate(ents):
                    if a == k or self.norm(a) == kn:
                        ents[i] = (a, v)
                        break
                else:
                    ents.append((k, v))
                self.put(o, HDict(ents, h.base, h.reps))
                if h.base is not None:
                    self.emit("setitem", self.norm(Ref(o.addr)),
                              [kn, self.norm(v)])
                return
            if isinstance(h, HList):
                items = self.known_items(o)
                if items is not None and isinstance(k, Const) and \
                   isinstance(k.v, int) and -len(items) <= k.v < len(items):
                    items[k.v] = v
                    self.put(o, HList(h.kind, [Item(i) for i in items]))
                else:
                    self.emit("setitem", self.norm(o),
                              [self.norm(k), self.norm(v)])
                    self.put(o, HList(h.kind, [Many(Term(
                        "updated", self.norm(o), self.norm(k),
                        self.norm(v)))]))
                return
            if isinstance(h, HInst):
                f, _k = self.cls_lookup(h.cls, "__setitem__")
                if isinstance(f, Func):
                    self.call(Bound(f, o), [k, v], {})
                    return
                if "*store" in h.attrs:
                    self.setitem(h.attrs["*store"], k, v)
                    return
                self.emit("setitem", self.norm(o),
                          [self.norm(k), self.norm(v)])
                return
        t = self.norm(o)
        hk = self.hooks.get("setitem")
        if hk is not None and hk(self, t, k, v) is not NotImplemented:
            return
        if namespace(t):
            self.throw("TypeError", Const("item assignment"))
        self.st.symattrs[(t, ("[]", self.norm(k)))] = v
        self.emit("setitem", t, [self.norm(k), self.norm(v)])

    # -- sequences -----------------------------------------------------

    def segs_of(self, v):
        v = self.iterate_protocol(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                if o.kind == "set" and all(
                        isinstance(s, Item) for s in o.segs):
                    return list(o.segs[::-1])
                return list(o.segs)
            if isinstance(o, HDict):
                segs = [Item(k) for k, _ in o.entries]
                if o.base is not None:
                    segs.append(Many(Term("keys", o.base)))
                for r in o.reps:
                    segs.append(Rep(r.loop, r.iter, [
                        (p, tuple(Item(k) for k, _v in ents))
                        for p, ents in r.alts]))
                return segs
        items = self.known_items(v)
        if items is not None:
            return [Item(i) for i in items]
        return [Many(self.norm(v))]

    def list_append(self, ref, v):
        o = self.obj(ref)
        if o.kind == "set" and Item(v) in o.segs:
            return
        self.put(ref, HList(o.kind, o.segs + (Item(v),)))

    def list_extend(self, ref, v):
        o = self.obj(ref)
        self.put(ref, HList(o.kind, o.segs + tuple(self.segs_of(v))))

    def dict_update(self, ref, v):
        if isinstance(v, Ref):
            h = self.obj(v)
            if isinstance(h, HDict):
                for k, x in h.entries:
                    self.setitem(ref, k, x)
                d = self.obj(ref)
                if h.reps:
                    self.put(ref, HDict(d.entries, d.base, d.reps + h.reps))
                if h.base is not None:
                    d = self.obj(ref)
                    self.put(ref, HDict(d.entries, h.base if d.base is None
                                        else Term("merge", d.base, h.base),
                                        d.reps))
                return
            if isinstance(h, HList):
                for s in h.segs:
                    if isinstance(s, Item):
                        kv = self.known_items(s.v)
                        if kv and len(kv) == 2:
                            self.setitem(ref, kv[0], kv[1])
                            continue
                    elif isinstance(s, Rep):
                        ok = True
                        alts = []
                        for p, segs in s.alts:
                            ents = []
                            for x in segs:
                                kv = self.known_items(x.v) if isinstance(
                                    x, Item) else None
                                if not kv or len(kv) != 2:
                                    ok = False
                                    break
                                ents.append((kv[0], kv[1]))
                            alts.append((p, tuple(ents)))
                        if ok:
                            d = self.obj(ref)
                            self.put(ref, HDict(
                                d.entries, d.base,
                                d.reps + (Rep(s.loop, s.iter, alts),)))
                            continue
                    d = self.obj(ref)
                    self.put(ref, HDict(d.entries, Term(
                        "merge", d.base or NONE, self.norm(v)), d.reps))
                return
        items = self.known_items(v)
        if items is not None:
            for s in items:
                kv = self.known_items(s)
                if kv is None or len(kv) != 2:
                    raise Undecided("dict update")
                self.setitem(ref, kv[0], kv[1])
            return
        d = self.obj(ref)
        t = self.norm(v)
        self.put(ref, HDict(d.entries, t if d.base is None else
                            Term("merge", d.base, t), d.reps))

    # -- calls ---------------------------------------------------------

    def is_opaque(self, f, self_=None):
        return bool(self.opaque_pred(f.qual))

    def call(self, f, args, kwargs, node=None):
        node = node if node is not None else self.node
        if isinstance(f, Bound):
            fn = f.func
            if isinstance(fn, Func):
                hk = self.hooks.get(fn.qual)
                if hk is None and isinstance(f.self, Ref) and \
                   isinstance(self.obj(f.self), HInst):
                    c = self.obj(f.self).cls
                    if isinstance(c, Cls):
                        hk = self.hooks.get(c.qual + "." + fn.name)
                if hk is not None:
                    r = hk(self, f, [f.self] + list(args), kwargs, node)
                    if r is not NotImplemented:
                        return r
                if self.is_opaque(fn, f.self):
                    return self.opaque(Term("attr", self.norm(f.self),
                                            fn.name), args, kwargs, node)
                return self.call_func(fn, [f.self] + list(args), kwargs, node)
            return self.call(fn, [f.self] + list(args), kwargs, node)
        if isinstance(f, Func):
            hk = self.hooks.get(f.qual)
            if hk is not None:
                r = hk(self, f, list(args), kwargs, node)
                if r is not NotImplemented:
                    return r
            if self.is_opaque(f):
                return self.opaque(f, args, kwargs, node)
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, PartialVal):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, node)
        if isinstance(f, BuiltinMethod):
            if isinstance(f.obj, Cls) and f.name == "mro":
                return self.newlist(f.obj.mro)
            return self.call_builtin_method(f, args, kwargs, node)
        if isinstance(f, Ext):
            hk = self.hooks.get("ext:" + f.name)
            if hk is not None:
                r = hk(self, f, list(args), kwargs, node)
                if r is not NotImplemented:
                    return r
            return self.call_ext(f, args, kwargs, node)
        if isinstance(f, Ref):
            h = self.obj(f)
            if isinstance(h, HInst):
                g, _k = self.cls_lookup(h.cls, "__call__")
                if isinstance(g, Func):
                    return self.call(Bound(g, f), args, kwargs, node)
        if isinstance(f, Term):
            if f.op == "ctxmgr":
                return Term("cmcall", f.args[0],
                            tuple(self.norm(a) for a in args))
            if f.op == "attr":
                hk = self.hooks.get("meth:" + f.args[1])
                if hk is not None:
                    r = hk(self, f, list(args), kwargs, node)
                    if r is not NotImplemented:
                        return r
            if f.op == "superattr":
                return NONE if f.args[2] == "__init__" else \
                    self.opaque(f, args, kwargs, node)
            hk = self.hooks.get("term")
            if hk is not None:
                r = hk(self, f, list(args), kwargs, node)
                if r is not NotImplemented:
                    return r
        if isinstance(f, Const):
            self.throw("TypeError", Const("not callable"), f)
        return self.opaque(self.norm(f), args, kwargs, node)

    def opaque(self, fn, args, kwargs, node, pure=False, event=True):
        """call of unknown code"""
        a = tuple(self.norm(x) for x in args)
        kw = tuple(sorted((k, self.norm(v)) for k, v in kwargs.items()))
        if isinstance(fn, Term) and fn.op == "attr" and \
           fn.args[1] in PURE_METHODS:
            pure = True
        if isinstance(fn, Ext) and fn.name in PURE_EXT:
            pure = True
        if pure:
            n = 0
        else:
            key = (fn, a, kw)
            n = self.st.counts.get(key, 0)
            self.st.counts[key] = n + 1
        t = Term("call", fn, a, kw, n)
        if not pure:
            # a generic container handed to unknown code may change
            if event:
                self.emit("call", fn, a, kw, t, node)
        if self.raisers is not None and not pure:
            excs = self.raisers(self, fn, a)
            if excs:
                i = self.pick(len(excs) + 1)
                if i:
                    raise PyExc(excs[i - 1], self.loc(node))
        return t

    def instantiate(self, cls, args, kwargs, node):
        hk = self.hooks.get("new:" + cls.qual)
        if hk is not None:
            r = hk(self, cls, list(args), kwargs, node)
            if r is not NotImplemented:
                return r
        nf, _k = cls.lookup("__new__")
        ref = self.alloc(HInst(cls, {}, None, False,
                               tuple(args) + tuple(kwargs.values())))
        self.emit("new", cls, [self.norm(a) for a in args],
                  [(k, self.norm(v)) for k, v in kwargs.items()],
                  ref, node)
        self.add_store(ref, cls)
        f, _k = cls.lookup("__init__")
        if isinstance(f, Func):
            self.call(Bound(f, ref), args, kwargs, node)
        elif args and self.store(ref) is not None:
            self.call(BuiltinMethod(self.store(ref), "__init__"), args,
                      kwargs, node)
        return ref

    def add_store(self, ref, cls=None):
        """instances of dict and list subclasses carry a container"""
        h = self.obj(ref)
        for k in (cls or h.cls).mro:
            if isinstance(k, Ext) and k.name in (
                    "builtins.dict", "collections.OrderedDict"):
                self.put(ref, h.setattr("*store", self.newdict()))
                return self.store(ref)
            if isinstance(k, Ext) and k.name == "builtins.list":
                self.put(ref, h.setattr("*store", self.newlist()))
                return self.store(ref)

    def store(self, v):
        if isinstance(v, Ref):
            h = self.obj(v)
            if isinstance(h, HInst):
                return h.attrs.get("*store")
        return None

    def bind_args(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + \
            [x.arg for x in a.args]
        vals = {}
        kwargs = dict(kwargs)
        star = [x for x in args if isinstance(x, Term) and x.op == "star"]
        if star:
            # unknown number of extra positionals
            pos = [x for x in args if not (isinstance(x, Term)
                                           and x.op == "star")]
            if a.vararg is None:
                extra = [Term("index", star[0].args[0], Const(i))
                         for i in range(len(names) - len(pos))]
                args = pos + extra
            else:
                i = list(args).index(star[0])
                pre = list(args[:i])
                for n, v in zip(names, pre):
                    vals[n] = v
                segs = [Item(x) for x in pre[len(names):]] + \
                    [Many(star[0].args[0])]
                if len(pre) < len(names):
                    raise Undecided("star arguments")
                vals[a.vararg.arg] = self.newsegs(segs, "tuple")
                args = None
        if args is not None:
            for n, v in zip(names, args):
                vals[n] = v
            extra = list(args[len(names):])
            if a.vararg is not None:
                vals[a.vararg.arg] = Tup(extra)
            elif extra:
                self.bad_call(f, "too many positional arguments", node)
        dstar = kwargs.pop("**", None)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    self.bad_call(f, "multiple values for %s" % k, node)
                vals[k] = kwargs.pop(k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.newdict(
                [(Const(k), v) for k, v in kwargs.items()],
                self.norm(dstar) if dstar is not None else None)
        elif kwargs:
            self.bad_call(f, "unexpected keyword %s" % sorted(kwargs)[0], node)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in vals:
                vals[n] = v
        for k, v in (f.kwdefaults or {}).items():
            vals.setdefault(k, v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if dstar is not None:
                    vals[n] = Term("index", self.norm(dstar), Const(n))
                else:
                    self.bad_call(f, "missing argument %s" % n, node)
        return vals

    def bad_call(self, f, why, node):
        self.emit("badcall", f, [Const(why)], node=node)
        self.throw("TypeError", Const("%s() %s" % (f.qual, why)))

    def call_func(self, f, args, kwargs, node):
        depth = sum(1 for s in self.stack if s[1] is f.node)
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided("call depth")
        if depth >= self.MAXREC:
            return self.opaque(f, args, kwargs, node)
        vals = self.bind_args(f, args, kwargs, node)
        fid = self.newframe(f.fid, f.mod, f.cls, f.node)
        fr = self.st.frames[fid]
        fr.vars.update(vals)
        if f.cls is not None and args:
            fr.self_ = args[0]
        self.stack.append((f.qual, f.node, f.mod))
        self.covered.add((self.prog.files.get(f.mod, f.mod), f.qual))
        saved_node = self.node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fid)
            gen = is_generator(f.node)
            if gen:
                y = self.alloc(HList("gen", ()))
                self.st.frames[fid].yields = y
            try:
                self.block(f.node.body, fid)
                r = NONE
            except ReturnSig as e:
                r = e.val
            if gen:
                return y
            return r
        finally:
            self.stack.pop()
            self.node = saved_node
            self.st.frames.pop(fid, None) if not self.captures(f.node) \
                else None

    def captures(self, node):
        c = getattr(node, "_captures", None)
        if c is None:
            c = any(isinstance(n, (ast.FunctionDef, ast.Lambda,
                                   ast.ClassDef))
                    for n in ast.walk(node) if n is not node)
            node._captures = c
        return c


BINOPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//",
          "Mod": "%", "Pow": "**", "LShift": "<<", "RShift": ">>",
          "BitOr": "|", "BitXor": "^", "BitAnd": "&", "MatMult": "@"}


def map_refs(v, f):
    """rename the heap addresses inside a value or heap record"""
    if isinstance(v, Ref):
        a = f(v.addr)
        return v if a == v.addr else Ref(a)
    if isinstance(v, (Const, Func, Cls, Mod, Ext, str, int)) or v is None:
        return v
    if isinstance(v, Tup):
        r = [map_refs(x, f) for x in v.items]
        return v if all(a is b for a, b in zip(r, v.items)) else Tup(r)
    if isinstance(v, tuple):
        r = tuple(map_refs(x, f) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, Term):
        r = map_refs(v.args, f)
        return v if r is v.args else Term(v.op, *r)
    if isinstance(v, Bound):
        return Bound(v.func, map_refs(v.self, f))
    if isinstance(v, PartialVal):
        return PartialVal(map_refs(v.func, f),
                          [map_refs(x, f) for x in v.args],
                          {k: map_refs(x, f) for k, x in v.kwargs.items()})
    if isinstance(v, BuiltinMethod):
        return BuiltinMethod(map_refs(v.obj, f), v.name)
    if isinstance(v, Item):
        return Item(map_refs(v.v, f))
    if isinstance(v, Many):
        return Many(map_refs(v.t, f))
    if isinstance(v, Rep):
        return Rep(v.loop, map_refs(v.iter, f), [
            (map_refs(p, f), tuple(
                map_refs(x, f) for x in segs)) for p, segs in v.alts])
    if isinstance(v, HList):
        return HList(v.kind, [map_refs(x, f) for x in v.segs])
    if isinstance(v, HDict):
        return HDict(tuple(map_refs(x, f) for x in v.entries),
                     map_refs(v.base, f), tuple(
                         map_refs(x, f) for x in v.reps))
    if isinstance(v, HInst):
        return HInst(v.cls, {k: map_refs(x, f) for k, x in v.attrs.items()},
                     map_refs(v.sym, f), v.open, map_refs(v.ctor, f))
    return v


def is_generator(node):
    g = getattr(node, "_isgen", None)
    if g is None:
        g = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._isgen = g
    return g


def ext_sub(a, b):
    """is external exception class a a subclass of b (by dotted name)?"""
    a = a.replace("builtins.", "").replace("exceptions.", "")
    b = b.replace("builtins.", "").replace("exceptions.", "")
    if a == b:
        return True
    if b in ("Exception", "BaseException"):
        if a in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
            return b == "BaseException"
        return True
    ca = getattr(_pybuiltins, a, None)
    cb = getattr(_pybuiltins, b, None)
    if isinstance(ca, type) and isinstance(cb, type):
        return issubclass(ca, cb)
    return False


from . import extmodel  # noqa: E402

for _n in dir(extmodel.ExtMixin):
    if not _n.startswith("__"):
        setattr(Interp, _n, extmodel.ExtMixin.__dict__[_n])
