"""a model of archives, digests and buffers for the checks of manifests and
signatures"""

from sa.interp import Undecided
from sa.values import Const, Term, Tup, NONE, Ref, HList, Item, show
from sa import ops
from checks.p01 import nrm
from checks.ctree import param

ALGS = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256",
        "SHA-384": "sha384", "SHA-512": "sha512"}


def const(v, what="value"):
    if isinstance(v, Const):
        return v.v
    raise Undecided("%s %s" % (what, show(v)))


def arg(a, kw, i, n, d=NONE):
    return a[i] if len(a) > i else kw.get(n, d)


def isnew(t, kind):
    return isinstance(t, Term) and t.op == "new" and t.args[0] == kind


def bcat(parts):
    return ops.cat(parts) if parts else Const(b"")


def plain(v):
    """without conversions to str"""
    while isinstance(v, Term) and v.op == "strof":
        v = v.args[0]
    return v


def content(path, name):
    return param("content:%s!%s" % (path, name))


def b64(alg, data):
    return Term("b64s", Term("digest", ALGS[alg], data))


class Jars(object):
    """jars: {path: [entry names]}; manifests: {content: (linesep, [main
    attributes], [(name, [attributes])])}, attributes are pairs"""

    lazy = False

    def __init__(self, I, jars, manifests=None):
        self.I = I
        self.jars = jars
        self.manifests = manifests or {}
        self.log = []
        self.hashes = []
        self.bufs = []
        self.open = []

    def reset(self):
        for x in (self.log, self.hashes, self.bufs, self.open):
            del x[:]

    # -- archives

    def zipfile(self, I, f, a, kw, node):
        path = arg(a, kw, 0, "file")
        mode = const(arg(a, kw, 1, "mode", Const("r")), "mode of archive")
        if mode == "r":
            path = const(path, "path of archive")
            if path not in self.jars:
                I.throw("FileNotFoundError")
        else:
            path = nrm(I, I.st, path)
            if mode not in ("w", "x"):
                raise Undecided("mode %s of archive" % mode)
            self.log.append(("create", path))
        self.open.append([path, mode])
        return Term("new", "zip", (len(self.open) - 1,))

    def meth(self, I, f, a, kw, node):
        o, m = f.args[0], f.args[1]
        fn = getattr(self, "m_%s_%s" % (
            o.args[0] if isinstance(o, Term) and o.op == "new" else
            o.op if isinstance(o, Term) else "", m), None)
        if fn is None:
            if isnew(o, "zip") or isnew(o, "hash") or isnew(o, "buf"):
                raise Undecided("method %s of %s" % (m, o.args[0]))
            return NotImplemented
        return fn(I, o, list(a), kw)

    def zip(self, o):
        z = self.open[o.args[1][0]]
        if z is None or z[1] == "closed":
            self.I.throw("ValueError")
        return z

    def names(self, o):
        z = self.zip(o)
        if z[1] != "r":
            raise Undecided("entries of an archive being written")
        return self.jars[z[0]]

    def m_zip_namelist(self, I, o, a, kw):
        return I.alloc(HList("list", [Item(Const(x)) for x in self.names(o)]))

    def m_zip_infolist(self, I, o, a, kw):
        return I.alloc(HList("list", [
            Item(Term("new", "info", (self.zip(o)[0], x)))
            for x in self.names(o)]))

    def entry(self, o, v):
        z = self.zip(o)
        if isnew(v, "info"):
            return v.args[1]
        n = const(v, "entry")
        if z[1] != "r":
            raise Undecided("reading an archive being written")
        if n not in self.jars[z[0]]:
            self.I.throw("KeyError")
        return z[0], n

    def m_zip_getinfo(self, I, o, a, kw):
        return Term("new", "info", self.entry(o, arg(a, kw, 0, "name")))

    def m_zip_read(self, I, o, a, kw):
        return content(*self.entry(o, arg(a, kw, 0, "name")))

    def m_zip_writestr(self, I, o, a, kw):
        z = self.zip(o)
        n = arg(a, kw, 0, "zinfo_or_arcname")
        n = n.args[1][1] if isnew(n, "info") else const(n, "entry written")
        self.log.append(("write", z[0], n,
                         nrm(I, I.st, arg(a, kw, 1, "data"))))
        return NONE

    def m_zip_close(self, I, o, a, kw):
        z = self.open[o.args[1][0]]
        if z[1] not in ("r", "closed"):
            self.log.append(("close", z[0]))
        if z[1] == "r" and self.lazy:
            # generators are evaluated at once, thus an archive may seem to
            # be closed before its entries are read
            return NONE
        z[1] = "closed"
        return NONE

    def exit(self, I, t, exc):
        if isnew(t, "zip"):
            self.m_zip_close(I, t, [], {})

    def attr(self, I, o, name, *r):
        if isnew(o, "info") and name == "filename":
            return Const(o.args[1][1])
        return NotImplemented

    # -- digests

    def hash(self, alg):
        def new(I, f, a, kw, node):
            self.hashes.append([alg, [nrm(I, I.st, x) for x in a]])
            return Term("new", "hash", (len(self.hashes) - 1,))
        return new

    def hashnew(self, I, f, a, kw, node):
        return self.hash(const(a[0]).replace("-", "").lower())(
            I, f, a[1:], kw, node)

    def m_hash_update(self, I, o, a, kw):
        self.hashes[o.args[1][0]][1].append(nrm(I, I.st, a[0]))
        return NONE

    def m_hash_digest(self, I, o, a, kw):
        alg, parts = self.hashes[o.args[1][0]]
        return Term("digest", alg, bcat(parts))

    def b64encode(self, I, f, a, kw, node):
        return Term("b64", nrm(I, I.st, a[0]))

    def m_b64_decode(self, I, o, a, kw):
        return Term("b64s", o.args[0])

    # -- buffers

    def buffer(self, I, f, a, kw, node):
        self.bufs.append([nrm(I, I.st, x) for x in a])
        return Term("new", "buf", (len(self.bufs) - 1,))

    def m_buf_write(self, I, o, a, kw):
        self.bufs[o.args[1][0]].append(nrm(I, I.st, a[0]))
        return NONE

    def m_buf_getvalue(self, I, o, a, kw):
        return bcat(self.bufs[o.args[1][0]])

    def m_buf_close(self, I, o, a, kw):
        return NONE

    def binop(self, I, op, a, b):
        def isb(v):
            if isinstance(v, Const):
                return isinstance(v.v, bytes)
            return isinstance(v, Term) and (
                v.op == "kv" or v.op == "cat" and all(map(isb, v.args)))
        if op == "+" and isb(a) and isb(b):
            return bcat([a, b])
        return NotImplemented

    def lt(self, I, x, y):
        """comparison of sections, as far as their beginnings decide it"""
        def begin(t):
            out = b""
            for p in (t.args if isinstance(t, Term) and t.op == "cat"
                      else [t]):
                if isinstance(p, Term) and p.op == "kv" and all(
                        isinstance(q, Const) for q in p.args):
                    k, v, sep = (q.v.encode() for q in p.args)
                    if len(k) + len(v) > 68:
                        break
                    out += k + b": " + v + sep
                elif isinstance(p, Const) and isinstance(p.v, bytes):
                    out += p.v
                else:
                    break
            return out
        a, b = begin(x), begin(y)
        n = min(len(a), len(b))
        if a[:n] != b[:n]:
            return a < b
        return NotImplemented

    def isinst(self, I, v, cls):
        if isinstance(v, Term) and v.op in ("b64", "b64s", "kv"):
            n = getattr(cls, "name", "").split(".")[-1]
            if n in ("str", "bytes"):
                return (v.op == "b64s") == (n == "str")
        return NotImplemented

    def hasattr(self, I, o, name):
        if isnew(o, "buf"):
            return hasattr(__import__("io").BytesIO, name)
        return NotImplemented

    # -- manifests

    def kv(self, I, f, a, kw, node):
        key, val = arg(a, kw, 1, "key"), arg(a, kw, 2, "val")
        sep = arg(a, kw, 3, "linesep", Const("\n"))
        I.call(I.getattr(arg(a, kw, 0, "stream"), "write"), [Term(
            "kv", plain(nrm(I, I.st, key)), plain(nrm(I, I.st, val)),
            nrm(I, I.st, sep))], {})
        return NONE

    def parse(self, I, f, a, kw, node):
        me, data = a[0], nrm(I, I.st, arg(a, kw, 1, "data"))
        if data not in self.manifests:
            raise Undecided("manifest %s" % show(data))
        sep, main, sects = self.manifests[data]
        I.setattr(me, "linesep", Const(sep))
        self.fill(I, me, main)
        for n, attrs in sects:
            s = I.call(I.getattr(me, "create_section"), [Const(n)], {})
            self.fill(I, s, attrs)
        return NONE

    def fill(self, I, sect, attrs):
        for k, v in attrs:
            I.call(I.getattr(sect, "__setitem__"), [
                Const(k), v if isinstance(v, Term) else Const(v)], {})

    def hooks(self):
        h = {"ext:zipfile.ZipFile": self.zipfile,
             "ext:hashlib.new": self.hashnew,
             "ext:base64.b64encode": self.b64encode,
             "ext:hmac.compare_digest": lambda I, f, a, kw, n: I.boolval(
                 I.eq(a[0], a[1])),
             "ext:io.BytesIO": self.buffer,
             "ext:six.BytesIO": self.buffer,
             "manifest.write_key_val": self.kv,
             "manifest.Manifest.parse": self.parse,
             "attr:filename": self.attr,
             "binop": self.binop, "lt": self.lt, "exit": self.exit,
             "isinstance": self.isinst, "hasattr": self.hasattr}
        for n in set(ALGS.values()):
            h["ext:hashlib." + n] = self.hash(n)
        for m in set(x.split("_")[2] for x in dir(self) if x[:2] == "m_"):
            h["meth:" + m] = self.meth
        return h


def mentions(t, pred):
    if pred(t):
        return True
    if isinstance(t, Term):
        return any(mentions(x, pred) for x in t.args)
    if isinstance(t, (tuple, list)):
        return any(mentions(x, pred) for x in t)
    if isinstance(t, Tup):
        return any(mentions(x, pred) for x in t.items)
    return False


def isrec(t):
    """the value recorded for a digest"""
    return isinstance(t, Term) and t.op == "param" and \
        str(t.args[0]).startswith("R:")


def rec(what, alg):
    return param("R:%s:%s" % (what, alg))


WEAK = ("lower", "upper", "casefold", "swapcase", "startswith", "endswith",
        "find", "index", "count")


def isweak(t):
    """a test which may hold for values which differ"""
    if not isinstance(t, Term):
        return False
    if t.op in ("in", "slice"):
        return True
    return t.op == "call" and isinstance(t.args[0], Term) and \
        t.args[0].op == "attr" and t.args[0].args[1] in WEAK


class Facts(object):
    """what a path knows about the digests: for each recorded value, the
    digests it was compared with and the outcome"""

    def __init__(self, p):
        self.eqs = {}           # (recorded, digest term) -> bool
        self.never = set()      # recorded values which are empty
        self.odd = []
        for c, b, _l in p.path:
            if not mentions(c, lambda t: isrec(t) or isinstance(t, Term) and
                            t.op in ("digest", "b64", "b64s")):
                continue
            if isinstance(c, Term) and c.op == "lt":
                continue        # sections being sorted
            if isinstance(c, Term) and c.op == "eq":
                x, y = (plain(v) for v in c.args)
                if isrec(x):
                    x, y = y, x
                if isrec(y) and isinstance(x, Term) and x.op == "b64s":
                    self.eqs[y, x] = b
                    continue
                if isrec(y) and x == Const(""):
                    if b:
                        self.never.add(y)
                    continue
            if isinstance(c, Term) and c.op == "truth" and isrec(
                    plain(c.args[0])):
                if not b:
                    self.never.add(plain(c.args[0]))
                continue
            if isinstance(c, Term) and c.op == "isnone" and not b:
                continue
            if mentions(c, isweak):
                continue        # does not establish equality
            self.odd.append(c)

    def match(self, r, d):
        """whether recorded r equals digest d: True, False or None"""
        if r in self.never:
            return False
        return self.eqs.get((r, d))


def anymatch(facts, pairs):
    """whether any of the pairs (recorded, digest) is equal"""
    vs = [facts.match(r, d) for r, d in pairs]
    return True if True in vs else None if None in vs else False
