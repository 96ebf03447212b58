"""texts of known size and unknown content"""

from sa.interp import Undecided
from sa.values import Const, Term, Tup, NONE, show


def isseq(v):
    return isinstance(v, Term) and v.op == "new" and v.args[0] == "seq"


class Sized(object):
    """sizes: {name: (characters, bytes per character)}; a value is a
    sequence of constants and of parts of the named texts, as str ("s",
    positions in characters) or bytes ("b", positions in bytes)"""

    def __init__(self, I, sizes):
        self.I = I
        self.sizes = sizes
        self.bufs = []

    def reset(self):
        self.bufs[:] = []

    def text(self, name):
        return self.mk("s", [("t", name, 0, self.sizes[name][0])])

    def mk(self, kind, pieces):
        out = []
        for p in pieces:
            if p[0] == "c":
                if not p[1]:
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + p[1])
                    continue
            else:
                if p[2] >= p[3]:
                    continue
                if out and out[-1][0] == "t" and out[-1][1] == p[1] and \
                        out[-1][3] == p[2]:
                    out[-1] = ("t", p[1], out[-1][2], p[3])
                    continue
            out.append(p)
        if not out:
            return Const("" if kind == "s" else b"")
        if len(out) == 1 and out[0][0] == "c":
            return Const(out[0][1])
        return Term("new", "seq", (kind, tuple(out)))

    def get(self, v):
        """(kind, pieces) or None"""
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return ("s" if isinstance(v.v, str) else "b",
                    [("c", v.v)] if v.v else [])
        if isseq(v):
            return v.args[1][0], list(v.args[1][1])
        if isinstance(v, Term) and v.op == "strof":
            r = self.get(v.args[0])
            return r if r and r[0] == "s" else None
        if isinstance(v, Term) and v.op == "cat":
            rs = [self.get(x) for x in v.args]
            if None in rs or len(set(r[0] for r in rs)) != 1:
                return None
            return rs[0][0], [p for r in rs for p in r[1]]
        return None

    def plen(self, p):
        return len(p[1]) if p[0] == "c" else p[3] - p[2]

    def length(self, pieces):
        return sum(map(self.plen, pieces))

    def cut(self, pieces, lo, hi):
        out, pos = [], 0
        for p in pieces:
            n = self.plen(p)
            a, b = max(lo - pos, 0), min(hi - pos, n)
            if a < b:
                out.append(("c", p[1][a:b]) if p[0] == "c" else
                           ("t", p[1], p[2] + a, p[2] + b))
            pos += n
        return out

    def len_(self, I, v):
        g = self.get(v)
        return NotImplemented if g is None else Const(self.length(g[1]))

    def slice_(self, I, t, lo, hi, step):
        g = self.get(t)
        if g is None:
            return NotImplemented
        if not all(isinstance(x, Const) for x in (lo, hi, step)):
            raise Undecided("slice of a text")
        if step.v not in (None, 1):
            raise Undecided("step of a slice")
        n = self.length(g[1])
        a, b, _s = slice(lo.v, hi.v).indices(n)
        return self.mk(g[0], self.cut(g[1], a, b))

    def binop(self, I, op, a, b):
        if op == "%" and isinstance(a, Const) and isinstance(
                a.v, (str, bytes)):
            k = "s" if isinstance(a.v, str) else "b"
            gs = [self.get(I.norm(x)) for x in (
                b.items if isinstance(b, Tup) else [b])]
            bits = a.v.split("%s" if k == "s" else b"%s")
            if len(bits) != len(gs) + 1 or any(
                    g is None or g[0] != k for g in gs) or any(
                        ("%" if k == "s" else b"%") in x for x in bits):
                return NotImplemented
            out = [("c", bits[0])]
            for g, x in zip(gs, bits[1:]):
                out += g[1] + [("c", x)]
            return self.mk(k, out)
        x, y = self.get(a), self.get(b)
        if op == "+" and x and y and not (isinstance(a, Const) and
                                          isinstance(b, Const)):
            if x[0] != y[0]:
                I.throw("TypeError")
            return self.mk(x[0], x[1] + y[1])
        return NotImplemented

    def encode(self, I, f, a, kw, node):
        g = self.get(f.args[0])
        if g is None:
            return NotImplemented
        enc = a[0] if a else kw.get("encoding", Const("utf-8"))
        if g[0] != "s":
            I.throw("AttributeError", Const("encode"))
        if not isinstance(enc, Const) or str(enc.v).lower().replace(
                "_", "-") not in ("utf-8", "utf8"):
            raise Undecided("encoding %s" % show(enc))
        out = []
        for p in g[1]:
            if p[0] == "c":
                out.append(("c", p[1].encode("utf-8")))
            else:
                u = self.sizes[p[1]][1]
                out.append(("t", p[1], p[2] * u, p[3] * u))
        return self.mk("b", out)

    # -- buffers

    def buffer(self, I, f, a, kw, node):
        g = self.get(a[0]) if a else ("b", [])
        if g is None or g[0] != "b":
            raise Undecided("initial content of a buffer")
        self.bufs.append([list(g[1]), 0])
        return Term("new", "buf", (len(self.bufs) - 1,))

    def stream(self):
        self.bufs.append([[], 0])
        return Term("new", "buf", (len(self.bufs) - 1,))

    def written(self, t):
        return self.bufs[t.args[1][0]][0]

    def buf(self, f):
        t = f.args[0]
        if isinstance(t, Term) and t.op == "new" and t.args[0] == "buf":
            return self.bufs[t.args[1][0]]
        return None

    def meth(self, I, f, a, kw, node):
        b = self.buf(f)
        if b is None:
            return NotImplemented
        m = f.args[1]
        if m == "write":
            g = self.get(I.norm(a[0]))
            if g is None:
                raise Undecided("writing %s" % show(a[0])[:80])
            if g[0] != "b":
                I.throw("TypeError")
            if b[1] != self.length(b[0]):
                raise Undecided("writing into a buffer")
            b[0] += g[1]
            b[1] += self.length(g[1])
            return Const(self.length(g[1]))
        if m in ("read", "getvalue", "read1"):
            n = self.length(b[0])
            if m == "getvalue":
                return self.mk("b", b[0])
            k = a[0] if a else Const(-1)
            if not isinstance(k, Const):
                raise Undecided("size of read")
            end = n if k.v is None or k.v < 0 else min(n, b[1] + k.v)
            r = self.mk("b", self.cut(b[0], b[1], end))
            b[1] = max(b[1], end)
            return r
        if m == "tell":
            return Const(b[1])
        if m == "seek":
            if len(a) == 1 and isinstance(a[0], Const):
                b[1] = a[0].v
                return a[0]
        if m in ("close", "flush"):
            return NONE
        raise Undecided("method %s of a buffer" % m)

    def hasattr_(self, I, o, name):
        if isinstance(o, Term) and o.op == "new" and o.args[0] == "buf":
            import io
            return hasattr(io.BytesIO, name)
        return NotImplemented

    def hooks(self):
        h = {"len": self.len_, "slice": self.slice_, "binop": self.binop,
             "meth:encode": self.encode, "ext:io.BytesIO": self.buffer,
             "ext:six.BytesIO": self.buffer, "hasattr": self.hasattr_,
             "ext:builtins.str": self.str_}
        for m in ("write", "read", "getvalue", "close", "flush", "tell",
                  "seek", "read1"):
            h["meth:" + m] = self.meth
        return h

    def str_(self, I, f, a, kw, node):
        if len(a) == 1 and isseq(a[0]) and a[0].args[1][0] == "s":
            return a[0]
        return NotImplemented
