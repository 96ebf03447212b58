"""a model of change trees for the checks of the comparing parts"""

from itertools import product

from sa.values import Const, Term, Tup, NONE, Ext, HList, Item, show
from sa import ops, gram
from sa.interp import Undecided


def param(n):
    return Term("param", n)


class Kids(object):
    """symbolic child changes: Ci tells whether child i is changed, Gi
    whether it is ignored; both are meaningful only after check() and before
    clear()"""

    def __init__(self, I, n, options, subs=None):
        self.I, self.n, self.options = I, n, options
        self.terms = [Term("new", "child", (i,)) for i in range(n)]
        self.subs = subs or {}
        self.log = []

    def reset(self):
        self.log[:] = []

    def index(self, f):
        r = f.args[0]
        return self.terms.index(r) if r in self.terms else None

    def state(self, i):
        if ("clear", i) in self.log:
            return "CLEARED"
        if ("check", i) not in self.log:
            return "UNCHECKED"
        return ""

    def hooks(self):
        def on(name, fn):
            def h(I, f, a, kw, node):
                i = self.index(f)
                if i is None:
                    return NotImplemented
                return fn(i, a, kw)
            return "meth:" + name, h

        def check(i, a, kw):
            self.log.append(("check", i))
            return NONE

        def clear(i, a, kw):
            self.log.append(("clear", i))
            return NONE

        def ignored(i, a, kw):
            o = a[0] if a else kw.get("options", NONE)
            if o != self.options:
                return param("G%d with %s" % (i, show(o)))
            return param("G%d%s" % (i, self.state(i)))
        hs = [on("check", check), on("clear", clear),
              on("is_change", lambda i, a, kw: param(
                  "C%d%s" % (i, self.state(i)))),
              on("is_ignored", ignored),
              on("get_description", lambda i, a, kw: param(
                  "D%d%s" % (i, self.state(i)))),
              on("collect", lambda i, a, kw: Tup(
                  [self.terms[j] for j in self.subs.get(i, ())]))]
        for i in range(self.n):
            def make(I, f, a, kw, node, i=i):
                self.log.append(("make", i, tuple(a)))
                return self.terms[i]
            hs.append(("ext:T%d" % i, make))
        return dict(hs)

    def types(self):
        return Tup([Ext("T%d" % i) for i in range(self.n)])

    def count(self, what, i):
        return sum(e[:2] == (what, i) for e in self.log)


def worlds(I, p, names):
    """all assignments of the named conditions which the path admits"""
    ks = [gram.known(I, p.st, ops.cond_truth(param(n))) for n in names]
    for w in product((True, False), repeat=len(names)):
        if all(k is None or k == v for k, v in zip(ks, w)):
            yield dict(zip(names, w))


def strays(p, base=0):
    """conditions on children in an invalid state"""
    from sa import orders
    out = []
    for c, b in orders.conds(p, base):
        t = c.args[0] if c.op == "truth" else None
        if isinstance(t, Term) and t.op == "param" and (
                t.args[0].endswith(("CLEARED", "UNCHECKED")) or
                " with " in t.args[0]):
            out.append(t.args[0])
    return out
