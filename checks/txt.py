"""texts with known separators and unknown words between them

A text is a sequence of known characters and of words, each of which stands
for any nonempty sequence of printable ASCII characters other than space and
colon. Operations whose result would depend on the characters of a word are
undecided."""

import re

from sa.interp import Undecided
from sa.values import Const, Term, Tup, NONE, show

BASE = 0x100000


def isw(c):
    return ord(c) >= BASE


def plainchar(c):
    """may c be part of a word?"""
    return 33 <= ord(c) < 127 and c != ":"


def istxt(v):
    return isinstance(v, Term) and v.op == "new" and v.args[0] == "txt"


WS = {"s": None, "b": " \t\n\r\x0b\x0c"}


class Texts(object):
    plain = staticmethod(plainchar)

    def __init__(self, I, maxlen=12):
        self.I = I
        self.words = []
        self.bufs = []
        self.maxlen = maxlen

    def reset(self):
        del self.bufs[:]

    def word(self, name):
        """the placeholder of the word"""
        if name not in self.words:
            self.words.append(name)
        return chr(BASE + self.words.index(name))

    def show(self, s):
        return "".join("<%s>" % self.words[ord(c) - BASE] if isw(c) else
                       repr(c)[1:-1] for c in s)

    def mk(self, kind, s):
        if any(map(isw, s)):
            return Term("new", "txt", (kind, s))
        return Const(s if kind == "s" else s.encode("latin-1"))

    def get(self, v):
        """(kind, s) or None"""
        if isinstance(v, Const) and isinstance(v.v, str):
            return "s", v.v
        if isinstance(v, Const) and isinstance(v.v, bytes):
            return "b", v.v.decode("latin-1")
        if istxt(v):
            return v.args[1]
        if isinstance(v, Term) and v.op == "strof":
            r = self.get(v.args[0])
            return r if r and r[0] == "s" else None
        if isinstance(v, Term) and v.op == "cat":
            rs = [self.get(x) for x in v.args]
            if None in rs or len(set(r[0] for r in rs)) != 1:
                return None
            return rs[0][0], "".join(r[1] for r in rs)
        return None

    def recv(self, v):
        """like get, but nothing for constants: those are handled as such"""
        if isinstance(v, Const):
            return None
        return self.get(v)

    # -- operators

    def len_(self, I, v):
        g = self.recv(v)
        if g is None:
            return NotImplemented
        n = sum(map(isw, g[1]))
        return Term("new", "tlen", (len(g[1]),
                                    len(g[1]) + n * (self.maxlen - 1)))

    def lt(self, I, x, y):
        def rng(t):
            if isinstance(t, Const) and isinstance(t.v, int):
                return t.v, t.v
            if isinstance(t, Term) and t.op == "new" and t.args[0] == "tlen":
                return t.args[1][:2]
        a, b = rng(x), rng(y)
        if a and b:
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
            raise Undecided("length of a text")
        a, b = self.get(x), self.get(y)
        if a and b and a[0] == b[0]:
            # words are ordered by their placeholders
            return a[1] < b[1]
        return NotImplemented

    def eq(self, I, a, b):
        """distinct words differ, and from all constants"""
        for t, u in ((a, b), (b, a)):
            if isinstance(t, Term) and t.op == "new" and \
                    t.args[0] == "tlen" and isinstance(u, Const):
                if not t.args[1][0] <= u.v <= t.args[1][1]:
                    return False
                raise Undecided("length of a text")
        x, y = self.get(a), self.get(b)
        if x and y and (self.recv(a) or self.recv(b)):
            return x == y
        for t, u in ((a, b), (b, a)):
            if isinstance(t, Term) and t.op == "new" and \
                    t.args[0] == "byte" and isinstance(u, Const):
                return False
        return NotImplemented

    def contains(self, I, a, c):
        x, y = self.get(a), self.recv(c)
        if y is None:
            return NotImplemented
        if x is None:
            raise Undecided("search in a text")
        self.sep(x, y)
        return x[1] in y[1]

    def sep(self, x, y):
        """checks that x can be searched for in y"""
        if x[0] != y[0]:
            self.I.throw("TypeError")
        if any(isw(c) or self.plain(c) for c in x[1]):
            raise Undecided("search for %r in a text" % self.show(x[1]))

    def index(self, I, t, k):
        g = self.recv(t)
        if g is None:
            return NotImplemented
        if not isinstance(k, Const) or not isinstance(k.v, int):
            raise Undecided("index of a text")
        s = g[1]
        if k.v >= 0:
            pre = s[:k.v]
        else:
            pre = s[len(s) + k.v + 1:]
        if any(map(isw, pre)) or abs(k.v) > len(s):
            raise Undecided("index of a text")
        c = s[k.v]
        if isw(c):
            if g[0] == "b":
                return Term("new", "byte", (c, k.v >= 0))
            return Term("new", "txt", ("s", self.word(
                "%s of %s" % ("first" if k.v >= 0 else "last",
                              self.words[ord(c) - BASE]))))
        return Const(c if g[0] == "s" else ord(c))

    def pos(self, s, k, end):
        """the position k means within s"""
        if isinstance(k, Term) and k.op == "new" and k.args[0] == "tlen":
            if k.args[1][2:3] == (s,):
                return k.args[1][3]
            raise Undecided("slice of a text")
        if k == NONE:
            return end
        if not isinstance(k, Const) or not isinstance(k.v, int):
            raise Undecided("slice of a text")
        if k.v >= 0:
            if any(map(isw, s[:k.v])) or k.v > len(s):
                if not any(map(isw, s)):
                    return len(s)
                raise Undecided("slice of %s at %d" % (self.show(s), k.v))
            return k.v
        if any(map(isw, s[k.v:])) or -k.v > len(s):
            raise Undecided("slice of a text")
        return len(s) + k.v

    def slice_(self, I, t, lo, hi, step):
        g = self.recv(t)
        if g is None:
            return NotImplemented
        if step != NONE and step != Const(1):
            raise Undecided("slice of a text")
        s = g[1]
        if hi == Const(0):
            return self.mk(g[0], "")
        if (lo == NONE or lo == Const(0)) and hi == Const(1) and s:
            c = self.index(I, t, Const(0))
            if g[0] == "s":
                return c
            if isinstance(c, Const):
                return Const(bytes([c.v]))
            return Term("new", "txt", ("b", self.word(
                "first of " + self.words[ord(c.args[1][0]) - BASE])))
        return self.mk(g[0], s[self.pos(s, lo, 0):self.pos(s, hi, len(s))])

    def binop(self, I, op, a, b):
        if isinstance(a, Term) and a.op == "new" and a.args[0] == "tlen" and \
                isinstance(b, Const) and op in ("+", "-"):
            if len(a.args[1]) < 4:
                return Term("new", "tlen", tuple(
                    x + b.v if op == "+" else x - b.v for x in a.args[1]))
            _l, _h, s, i = a.args[1]
            j = i + b.v if op == "+" else i - b.v
            if not 0 <= j <= len(s) or any(map(isw, s[min(i, j):max(i, j)])):
                raise Undecided("position in a text")
            return self.at(s, j)
        x, y = self.get(a), self.get(b)
        if op == "+" and x and y and not (isinstance(a, Const) and
                                          isinstance(b, Const)):
            if x[0] != y[0]:
                I.throw("TypeError")
            return self.mk(x[0], x[1] + y[1])
        if op == "*" and x and isinstance(b, Const) and \
                isinstance(b.v, int) and not isinstance(a, Const):
            return self.mk(x[0], x[1] * b.v)
        return NotImplemented

    # -- methods

    def meth(self, I, f, a, kw, node):
        m = f.args[1]
        b = self.buf(f.args[0])
        if b is not None:
            return self.bufmeth(I, b, m, a, kw)
        r = f.args[0]
        g = self.recv(I.norm(r))
        if g is None:
            return NotImplemented
        a = [I.norm(x) if not self.listlike(I, x) else x for x in a]
        fn = getattr(self, "m_" + m, None)
        if fn is None:
            raise Undecided("method %s of a text" % m)
        return fn(I, g, a, kw)

    def listlike(self, I, x):
        return I.known_items(x) is not None and not isinstance(x, (Const,
                                                                   Term))

    def const(self, x, t=None):
        if not isinstance(x, Const):
            raise Undecided("argument %s" % show(x)[:60])
        return x.v

    def arg(self, g, a, i=0):
        x = self.get(a[i]) if len(a) > i else None
        if x is None:
            raise Undecided("argument of a text's method")
        self.sep(x, g)
        return x[1]

    def lst(self, g, parts):
        return self.I.newlist([self.mk(g[0], p) for p in parts])

    def m_split(self, I, g, a, kw):
        return self.split(I, g, a, kw, "split")

    def m_rsplit(self, I, g, a, kw):
        return self.split(I, g, a, kw, "rsplit")

    def split(self, I, g, a, kw, m):
        n = self.const(a[1] if len(a) > 1 else kw.get("maxsplit", Const(-1)))
        sep = a[0] if a else kw.get("sep", NONE)
        if sep == NONE:
            if g[0] == "b":
                return self.lst(g, [x for x in re.split(
                    "[%s]+" % WS["b"], g[1]) if x]) if n < 0 else \
                    self.nope("split")
            return self.lst(g, getattr(g[1], m)(None, n))
        return self.lst(g, getattr(g[1], m)(self.arg(g, [sep]), n))

    def nope(self, what):
        raise Undecided(what)

    def m_partition(self, I, g, a, kw):
        return Tup([self.mk(g[0], x) for x in
                    g[1].partition(self.arg(g, a))])

    def m_rpartition(self, I, g, a, kw):
        return Tup([self.mk(g[0], x) for x in
                    g[1].rpartition(self.arg(g, a))])

    def m_replace(self, I, g, a, kw):
        old = self.arg(g, a)
        new = self.get(a[1])
        if new is None or len(a) > 2:
            raise Undecided("replace in a text")
        return self.mk(g[0], g[1].replace(old, new[1]))

    def m_strip(self, I, g, a, kw, m="strip"):
        if not a or a[0] == NONE:
            chars = WS[g[0]]
        else:
            chars = self.get(a[0])[1]
            if any(isw(c) or self.plain(c) for c in chars):
                raise Undecided("strip of a text")
        return self.mk(g[0], getattr(g[1], m)(chars))

    def m_lstrip(self, I, g, a, kw):
        return self.m_strip(I, g, a, kw, "lstrip")

    def m_rstrip(self, I, g, a, kw):
        return self.m_strip(I, g, a, kw, "rstrip")

    def m_splitlines(self, I, g, a, kw):
        keep = self.const(a[0] if a else kw.get("keepends", Const(False)))
        if g[0] == "s":
            return self.lst(g, g[1].splitlines(keep))
        out = re.findall("[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", g[1])
        return self.lst(g, out if keep else [x.rstrip("\r\n") if not
                                             x.endswith("\r\n") else x[:-2]
                                             for x in out])

    def affix(self, I, g, a, test, order):
        xs = I.known_items(a[0]) if self.listlike(I, a[0]) else [a[0]]
        res = False
        for x in xs:
            x = self.get(x)
            if x is None or len(a) > 1:
                raise Undecided("affix of a text")
            if x[0] != g[0]:
                I.throw("TypeError")
            for c, d in zip(order(x[1]), order(g[1])):
                if c == d:
                    continue
                if isw(d) and self.plain(c) or isw(c):
                    raise Undecided("affix of a text")
                break
            res = res or test(g[1], x[1])
        return Const(res)

    def m_startswith(self, I, g, a, kw):
        return self.affix(I, g, a, str.startswith, lambda s: s)

    def m_endswith(self, I, g, a, kw):
        return self.affix(I, g, a, str.endswith, lambda s: s[::-1])

    def m_find(self, I, g, a, kw):
        if self.arg(g, a) not in g[1]:
            return Const(-1)
        if len(a) > 1:
            raise Undecided("position in a text")
        return self.at(g[1], g[1].index(self.arg(g, a)))

    def at(self, s, i):
        """position i of s"""
        n = sum(map(isw, s[:i]))
        if not n:
            return Const(i)
        return Term("new", "tlen", (i, i + n * (self.maxlen - 1), s, i))

    def m_index(self, I, g, a, kw):
        r = self.m_find(I, g, a, kw)
        if r == Const(-1):
            I.throw("ValueError")
        return r

    def m_count(self, I, g, a, kw):
        return Const(g[1].count(self.arg(g, a)))

    def m_isspace(self, I, g, a, kw):
        return Const(False)

    def m_join(self, I, g, a, kw):
        xs = I.known_items(a[0])
        gs = [self.get(I.norm(x)) for x in xs] if xs is not None else [None]
        if None in gs:
            raise Undecided("join")
        if any(x[0] != g[0] for x in gs):
            I.throw("TypeError")
        return self.mk(g[0], g[1].join(x[1] for x in gs))

    CODECS = {"utf-8": "utf-8", "utf8": "utf-8", "latin-1": "latin-1",
              "latin1": "latin-1", "iso-8859-1": "latin-1",
              "ascii": "ascii", "us-ascii": "ascii"}

    def codec(self, a, kw):
        e = self.const(a[0] if a else kw.get("encoding", Const("utf-8")))
        e = self.CODECS.get(str(e).lower().replace("_", "-"))
        if e is None:
            raise Undecided("encoding")
        return e, self.const(a[1] if len(a) > 1 else
                             kw.get("errors", Const("strict")))

    def runs(self, s):
        return re.split("([%s-\U0010ffff])" % chr(BASE), s)

    def m_encode(self, I, g, a, kw):
        if g[0] != "s":
            I.throw("AttributeError", Const("encode"))
        e, err = self.codec(a, kw)
        try:
            return self.mk("b", "".join(
                r if isw(r[:1] or " ") else r.encode(e, err).decode("latin-1")
                for r in self.runs(g[1])))
        except UnicodeEncodeError:
            I.throw("UnicodeEncodeError")

    def m_decode(self, I, g, a, kw):
        if g[0] != "b":
            I.throw("AttributeError", Const("decode"))
        e, err = self.codec(a, kw)
        try:
            return self.mk("s", "".join(
                r if isw(r[:1] or " ") else r.encode("latin-1").decode(e, err)
                for r in self.runs(g[1])))
        except UnicodeDecodeError:
            I.throw("UnicodeDecodeError")

    # -- functions

    def str_(self, I, f, a, kw, node):
        if len(a) == 1:
            g = self.recv(I.norm(a[0]))
            if g and g[0] == "s":
                return self.mk(*g)
        return NotImplemented

    def resplit(self, I, f, a, kw, node):
        g = self.get(I.norm(a[1])) if len(a) == 2 and not kw else None
        if g is None:
            return NotImplemented
        return self.lst(g, re.split(self.pattern(a[0], g), g[1]))

    def resub(self, I, f, a, kw, node):
        g = self.get(I.norm(a[2])) if len(a) == 3 and not kw else None
        if g is None:
            return NotImplemented
        new = self.get(I.norm(a[1]))
        if new is None or "\\" in new[1]:
            raise Undecided("replacement")
        return self.mk(g[0], re.sub(self.pattern(a[0], g),
                                    lambda m: new[1], g[1]))

    def pattern(self, p, g):
        p = self.get(p)
        if p is None:
            raise Undecided("pattern")
        if p[0] != g[0]:
            self.I.throw("TypeError")
        if re.sub(r"\\[rnt0]|\\x[01][0-9a-f]|[][()?:+*|\s:\0-\x20]", "",
                  p[1]):
            raise Undecided("pattern %r" % p[1])
        return p[1]

    # -- buffers

    def buffer(self, I, f, a, kw, node):
        g = self.get(I.norm(a[0])) if a else ("b", "")
        if g is None or g[0] != "b":
            raise Undecided("initial content of a buffer")
        self.bufs.append([g[1], 0])
        return Term("new", "buf", (len(self.bufs) - 1,))

    def stream(self):
        self.bufs.append(["", 0])
        return Term("new", "buf", (len(self.bufs) - 1,))

    def buf(self, t):
        if isinstance(t, Term) and t.op == "new" and t.args[0] == "buf":
            return self.bufs[t.args[1][0]]
        return None

    def bufmeth(self, I, b, m, a, kw):
        if m == "write":
            g = self.get(I.norm(a[0]))
            if g is None:
                raise Undecided("writing %s" % show(a[0])[:80])
            if g[0] != "b":
                I.throw("TypeError")
            if b[1] != len(b[0]):
                raise Undecided("writing into a buffer")
            b[0] += g[1]
            b[1] = len(b[0])
            return Term("new", "tlen", (len(g[1]), 10 ** 6))
        if m == "writelines":
            for x in I.known_items(a[0]):
                self.bufmeth(I, b, "write", [x], {})
            return NONE
        if m == "getvalue":
            return self.mk("b", b[0])
        if m == "read" and (not a or a[0] in (NONE, Const(-1))):
            r = self.mk("b", b[0][b[1]:])
            b[1] = len(b[0])
            return r
        if m == "seek" and len(a) == 1 and a[0] == Const(0):
            b[1] = 0
            return a[0]
        if m in ("close", "flush"):
            return NONE
        raise Undecided("method %s of a buffer" % m)

    def hasattr_(self, I, o, name):
        import io
        if self.buf(o) is not None:
            return hasattr(io.BytesIO, name)
        if istxt(o):
            return hasattr(str if o.args[1][0] == "s" else bytes, name)
        return NotImplemented

    def isinst(self, I, v, cls):
        g = self.recv(v)
        if g is None:
            return NotImplemented
        n = show(cls)
        if "bytes" in n:
            return g[0] == "b"
        if "str" in n or "unicode" in n:
            return g[0] == "s"
        return NotImplemented

    def truthy(self, v):
        return True

    def hooks(self):
        h = {"eq": self.eq, "len": self.len_, "slice": self.slice_, "binop": self.binop,
             "lt": self.lt, "contains": self.contains, "index": self.index,
             "ext:io.BytesIO": self.buffer, "ext:six.BytesIO": self.buffer,
             "hasattr": self.hasattr_, "ext:builtins.str": self.str_,
             "ext:re.split": self.resplit, "ext:re.sub": self.resub,
             "isinstance": self.isinst}
        for m in dir(str) + dir(bytes) + ["write", "writelines", "getvalue",
                                          "read", "seek", "close", "flush"]:
            if not m.startswith("_"):
                h["meth:" + m] = self.meth
        return h
