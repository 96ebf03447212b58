"""a model of text files for the checks of compared distributions"""

from sa.values import Const, Term, NONE
from sa.interp import Undecided


class Files(object):
    """open() over given contents (bytes by path)"""

    def __init__(self, files):
        self.files = files
        self.opened = []        # (path, mode, errors, pos)

    def reset(self):
        self.opened[:] = []

    def hooks(self):
        def arg(a, kw, i, n, d):
            v = a[i] if len(a) > i else kw.get(n, d)
            if isinstance(v, Const):
                return v.v
            raise Undecided("argument %s of open" % n)

        def open_(I, f, a, kw, node):
            path = arg(a, kw, 0, "file", None)
            if path not in self.files:
                I.throw("FileNotFoundError")
            mode = arg(a, kw, 1, "mode", Const("r"))
            if set(mode) & set("wax+"):
                raise Undecided("writing to %s" % path)
            enc = arg(a, kw, 3, "encoding", NONE) if \
                not f.name.startswith("codecs") else None
            self.opened.append([path, mode, arg(a, kw, 4, "errors", NONE), 0,
                                enc, arg(a, kw, 5, "newline", NONE)])
            return Term("new", "file", (len(self.opened) - 1,))

        def mine(t):
            if isinstance(t, Term) and t.op == "new" and t.args[0] == "file":
                return self.opened[t.args[1][0]]
            return None

        def text(I, o):
            data = self.files[o[0]]
            if "b" in o[1]:
                return data
            try:
                s = data.decode(o[4] or "utf-8", o[2] or "strict")
            except (UnicodeError, LookupError):
                I.throw("UnicodeDecodeError")
            if o[5] is None:
                s = s.replace("\r\n", "\n").replace("\r", "\n")
            return s

        def lines(I, o):
            s = text(I, o)
            nl = b"\n" if isinstance(s, bytes) else "\n"
            if o[5] not in (None, "\n", ""):
                raise Undecided("newline of open")
            ls = s.split(nl)
            return [Const(x + nl) for x in ls[:-1]] + (
                [Const(ls[-1])] if ls[-1] else [])

        def items(I, t):
            o = mine(t)
            return None if o is None else lines(I, o)

        def read(I, f, a, kw, node):
            o = mine(f.args[0])
            if o is None:
                return NotImplemented
            s = text(I, o)
            n = a[0].v if a and isinstance(a[0], Const) else None
            if a and n is None and a[0] != NONE:
                raise Undecided("size of read")
            r = s[o[3]:] if n is None or n < 0 else s[o[3]:o[3] + n]
            o[3] += len(r)
            return Const(r)

        def readlines(I, f, a, kw, node):
            o = mine(f.args[0])
            if o is None:
                return NotImplemented
            return I.newlist(lines(I, o))

        def readline(I, f, a, kw, node):
            o = mine(f.args[0])
            if o is None:
                return NotImplemented
            ls = [x.v for x in lines(I, o)]
            pos = 0
            for l in ls:
                if pos >= o[3]:
                    o[3] += len(l)
                    return Const(l)
                pos += len(l)
            return Const(b"" if "b" in o[1] else "")
        return {"ext:builtins.open": open_, "ext:io.open": open_,
                "meth:read": read, "meth:readlines": readlines,
                "meth:readline": readline, "items": items}


# pairs of contents, and whether they differ in trailing whitespace only
TEXTS = [
    (b"a\nb\n", b"a\nc\n", False),
    (b"a\nb\n", b"a \nb\t\n", True),
    (b"a\r\nb\r\n", b"a\nb\n", True),
    (b"a\nb", b"a\nb\n", True),
    (b"a\nb\n", b"a\n b\n", False),
    (b"a\nb\n", b"a\n", False),
    (b"a\n", b"a\nb\n", False),
    (b"", b"a\n", False),
    (b"a b\n", b"a  b\n", False),
    (b"a\xff\n", b"a\xfe\n", False),
    (b"a\xff\n", b"a\xff \n", True),
    (b"\xff \nx\n", b"\xff\ny\n", False),
    (b"x\ny \n", b"z\ny\n", False),
]
