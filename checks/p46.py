"""P46: the APIs of archives and distributions follow from their classes."""

import posixpath
from itertools import product

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, HList, Item, show
from sa import gram, ops
from checks.ctree import param
from checks.jarm import arg, const, isnew
from checks.p31 import excname, Bad
from checks.p33 import Files

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over archives and "
                 "distributions whose classes provide or require symbols "
                 "according to symbolic facts; each path's result is compared "
                 "with the specification in all worlds its conditions admit",
    "rule": "an archive or distribution provides what its classes provide "
            "publicly, and requires what its classes require unless a class "
            "of it provides this, each symbol with the entries concerned; "
            "patterns to ignore remove what matches them; each class is read "
            "from its own entry, and files extracted are removed, others are "
            "not",
    "assumptions": ["symbols do not influence each other",
                    "more classes and archives are treated alike",
                    "the classes of an archive which are not public in it "
                    "may or may not satisfy other parts of a distribution"],
}

SYM = "s.Y#m"
# what they match: one and the other symbol
PAT, PAT2 = "PATTERN", "PATTERN2"
TMP = "/tmp/extracted"


class World(Files):
    """classes by their place, in a file system with archives"""

    def __init__(self, I, jars, tree):
        Files.__init__(self, I, jars, tree)
        self.tree = list(tree)
        self.dirs0, self.files0 = set(self.fs.dirs), set(self.fs.files)

    def reset(self):
        Files.reset(self)
        self.fs.dirs = set(self.dirs0)
        self.fs.files = set(self.files0)
        self.alive = True

    # places are (path, entry or None), extracted files have the path
    # within the archive they come from

    def place(self, path):
        p = self.fs.norm(path)
        if not self.fs.isfile(p):
            self.I.throw("FileNotFoundError")
        return p

    def stream(self, path, name):
        return Term("new", "cs", (path, name))

    def unpack_class(self, I, f, a, kw, node):
        s = arg(a, kw, 0, "data")
        if not isnew(s, "cs"):
            raise Undecided("class data %s" % show(s))
        self.isclass(s.args[1][1] or s.args[1][0])
        return Term("new", "class", s.args[1])

    def unpack_classfile(self, I, f, a, kw, node):
        p = self.place(const(arg(a, kw, 0, "filename"), "class file"))
        self.isclass(p)
        return Term("new", "class", (p, None))

    def isclass(self, n):
        if not n.endswith(".class"):
            raise Bad("reads %s as a class" % n)

    def member(self, I, c, what):
        path, name = c.args[1]
        k = "%s:%s" % (path, name) if name else path
        return I.truth(param("%s %s" % (what, k)))

    def syms(self, I, c, on, ign):
        out = [Const("other." + posixpath.basename(c.args[1][1] or
                                                   c.args[1][0]))]
        if on:
            out.insert(0, Const(SYM))
        if ign is not None and ign != NONE and I.known_items(ign):
            raise Undecided("patterns passed to the classes")
        return I.newlist(out)

    def m_class_get_requires(self, I, o, a, kw):
        n = posixpath.basename(o.args[1][1] or o.args[1][0])
        r = self.syms(I, o, self.member(I, o, "requires"),
                      arg(a, kw, 0, "ignored"))
        if n != "A.class":
            return r
        # what no class provides
        return I.newlist(I.known_items(r)[:-1] + [Const("other.A")])

    def m_class_get_provides(self, I, o, a, kw):
        private = I.truth(arg(a, kw, 1, "private", Const(False)))
        on = self.member(I, o, "private")
        if not private:
            on = on and self.member(I, o, "public")
        return self.syms(I, o, on, arg(a, kw, 0, "ignored"))

    def m_cs_close(self, I, o, a, kw):
        return NONE

    def m_cs_read(self, I, o, a, kw):
        raise Undecided("content of a class")

    def fnm(self, I, f, a, kw, node):
        n, p = const(a[0], "name matched"), const(a[1], "pattern")
        if p in (PAT, PAT2):
            if n != (SYM if p == PAT2 else "other.A"):
                return Const(False)
            return Const(I.truth(param("ignored " + n)))
        return Files.fnm(self, I, f, a, kw, node)

    def m_zip_extractall(self, I, o, a, kw):
        z = self.zip(o)
        d = const(arg(a, kw, 0, "path"), "directory")
        # nothing given: the current directory
        d = self.fs.norm("." if d is None else d)
        ms = arg(a, kw, 1, "members", NONE)
        if ms != NONE:
            ms = self.I.known_items(ms)
            if ms is None:
                raise Undecided("members extracted")
            ms = [const(m, "member extracted") for m in ms]
        for n in self.jars[z[0]]:
            if ms != NONE and n not in ms:
                continue
            p = d + "/" + n
            self.fs.adddir(posixpath.dirname(p))
            if not n.endswith("/"):
                self.fs.files.add(p)
        self.log.append(("extract", z[0], d))
        return NONE

    def mkdtemp(self, I, f, a, kw, node):
        self.fs.adddir(TMP)
        self.log.append(("mkdtemp",))
        return Const(TMP)

    def rmtree(self, I, f, a, kw, node):
        d = self.fs.norm(const(a[0], "directory removed"))
        self.log.append(("rmtree", d))
        for s in (self.fs.dirs, self.fs.files):
            for p in list(s):
                if p == d or p.startswith(d + "/"):
                    s.discard(p)
        return NONE

    def path(self, v):
        """archives below a directory are known by their base name"""
        p = self.fs.norm(const(v, "path of archive"))
        return p

    def zipfile(self, I, f, a, kw, node):
        p = self.fs.norm(const(arg(a, kw, 0, "file"), "path of archive"))
        mode = const(arg(a, kw, 1, "mode", Const("r")))
        if mode != "r":
            raise Undecided("mode of archive")
        if p not in self.jars or not self.fs.isfile(p):
            I.throw("FileNotFoundError")
        self.open.append([p, "r"])
        return Term("new", "zip", (len(self.open) - 1,))

    def is_zipfile(self, I, f, a, kw, node):
        p = self.fs.norm(const(a[0], "path of archive"))
        return Const(p in self.jars and self.fs.isfile(p))

    def hooks(self):
        h = Files.hooks(self)
        h.update({"meth:get_requires": self.meth,
                  "meth:get_provides": self.meth,
                  "unpack_class": self.unpack_class,
                  "unpack_classfile": self.unpack_classfile,
                  "ext:tempfile.mkdtemp": self.mkdtemp,
                  "ext:shutil.rmtree": self.rmtree,
                  "ext:zipfile.is_zipfile": self.is_zipfile,
                  "ziputils.file_crc32": lambda I, f, a, kw, n: Const(0)})
        return h


def truth(p, I, name):
    return gram.known(I, p.st, ops.cond_truth(param(name)))


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 30
    I.MAXREC = 8
    rep.expect = 20
    QUERIES = {
        "requires": [("get_requires", False)],
        "provides": [("get_provides", False)],
        "requires, ignoring": [("get_requires", True)],
        "provides, ignoring": [("get_provides", True)],
        "requires after ignoring": [("get_requires", True),
                                    ("get_requires", False)],
        "provides after ignoring": [("get_provides", True),
                                    ("get_provides", False)],
        "provides after requires": [("get_requires", False),
                                    ("get_provides", False)],
        "requires after provides": [("get_provides", False),
                                    ("get_requires", False)],
    }

    def table(v):
        """{symbol: entries}"""
        kv = I.known_items(I.call(I.getattr(v, "items"), [], {}))
        if kv is None:
            raise Undecided("result")
        out = {}
        for x in kv:
            k, vs = I.known_items(x)
            es = []
            for e in I.known_items(vs):
                e = I.known_items(e)
                es.append(const(e[1], "entry"))
            out[const(k, "symbol")] = tuple(es)
        return out

    def go(W, make, qs):
        def thunk():
            W.reset()
            I.hooks = W.hooks()
            try:
                o = make()
                r = NONE
                for q, ign in qs:
                    r = I.call(I.getattr(o, q), [I.newlist([Const(PAT), Const(PAT2)])]
                               if ign else [], {})
                r = table(r)
                I.call(I.getattr(o, "close"), [], {})
            except PyExc as e:
                raise Bad("fails with %s" % excname(I, e.val))
            return Const((tuple(sorted(r.items())), tuple(W.log)))
        return I.run(thunk)

    def spec(p, W, parts, q, ign, prefix=""):
        """judges one path; parts: (entry, kind, [class places])"""
        got, log = p.val.v
        got = dict(got)
        allc = [c for _e, _k, cs in parts for c in cs]
        names = [w + c for c in allc for w in ("requires ", "private ",
                                               "public ")]
        ig = "ignored " + SYM
        names.append(ig)
        known = [truth(p, I, n) for n in names]
        for w in product(*[(True, False) if k is None else (k,)
                           for k in known]):
            symbol(got, parts, q, ign, prefix, dict(zip(names, w)))
        # the symbols which every class has
        if q == "get_provides":
            for e, k, cs in parts:
                for c in cs:
                    s = "other." + posixpath.basename(c.split(":")[-1])
                    if e not in got.get(s, ()):
                        raise Bad("get_provides lacks what %s provides" % c)
            extra = set(got) - {SYM} - set(
                "other." + posixpath.basename(c.split(":")[-1])
                for c in allc)
        else:
            gone = ign and truth(p, I, "ignored other.A")
            has = any(posixpath.basename(c.split(":")[-1]) == "A.class"
                      for c in allc)
            if has and ("other.A" in got) == bool(gone):
                raise Bad("get_requires %s what only the pattern %s" % (
                    "has" if gone else "lacks", "matches" if gone else
                    "does not match"))
            extra = set(got) - {SYM, "other.A"}
        if extra:
            raise Bad("%s has %s" % (q, ", ".join(sorted(extra))))
        # temporary files
        made = ("mkdtemp",) in log
        for e in log:
            if e[0] == "rmtree" and not (made and (
                    e[1] == TMP or e[1].startswith(TMP + "/"))):
                raise Bad("removes %s" % e[1])
            if e[0] == "extract" and not e[2].startswith(TMP):
                raise Bad("extracts to %s" % e[2])
        if made and ("rmtree", TMP) not in log:
            raise Bad("leaves the files extracted behind")

    def symbol(got, parts, q, ign, prefix, w):
        """judges the result for the symbol in one world"""
        def pub(c):
            return w["private " + c] and w["public " + c]
        want = set()
        for e, k, cs in parts:
            if q == "get_provides":
                if any(map(pub, cs)):
                    want.add(e)
            elif any(w["requires " + c] for c in cs):
                # requirements may be satisfied within an archive
                if k != "jar" or not any(w["private " + c] for c in cs):
                    want.add(e)
        has = bool(want)
        if q != "get_provides" and has:
            maybe = False
            for e, k, cs in parts:
                for c in cs:
                    if k == "jar" and w["private " + c] and not pub(c):
                        maybe = True    # see the assumptions
                    elif w["private " + c]:
                        has = False
            if has and maybe:
                return
        if ign and w["ignored " + SYM]:
            has = False
        if has and SYM not in got:
            raise Bad("%s lacks what %s %s" % (
                q, " and ".join(sorted(want)), q[4:]))
        if not has and SYM in got:
            raise Bad("%s has a symbol although %s" % (
                q, "it is to be ignored" if ign and w["ignored " + SYM] else
                "it is satisfied within" if q == "get_requires" and want
                else "nothing in it %s it" % q[4:]))
        if has and sorted(got[SYM]) != sorted(want):
            raise Bad("%s names %s instead of %s" % (
                q, ", ".join(got[SYM]), ", ".join(sorted(want))))

    def case(name, W, make, parts, prefix=""):
        few = tier != "thorough" and name not in (
            "archive by name", "distribution of classes", "distribution",
            "packed distribution")
        for qn in sorted(QUERIES):
            if few and qn not in ("requires", "provides, ignoring"):
                continue
            key = "%s: %s" % (name, qn)
            rule = "apis"
            with rep.guard(key, rule):
                try:
                    n = 0
                    for p in go(W, make, QUERIES[qn]):
                        if p.kind != "normal":
                            raise Undecided(p.kind)
                        n += 1
                        q, ign = QUERIES[qn][-1]
                        spec(p, W, parts, q, ign, prefix)
                    if not n:
                        raise Undecided("no path")
                except Bad as e:
                    rep.bad(key, rule, str(e))
                else:
                    rep.ok(key, rule)

    def new(mod, cls, *a, **kw):
        return lambda: I.call(I.get(mod, cls), [Const(x) for x in a],
                              {k: v() for k, v in kw.items()})

    J = "/cwd/j.jar"
    ents = ["META-INF/", "META-INF/MANIFEST.MF", "p/", "p/A.class", "x.txt",
            "q/B$1.class", "q/class", "Bclass"]
    # archives
    W = World(I, {J: ents}, ["j.jar"])
    parts = [("p/A.class", "class", [J + ":p/A.class"]),
             ("q/B$1.class", "class", [J + ":q/B$1.class"])]
    case("archive by name", W, new("jarinfo", "JarInfo", "j.jar"), parts)
    W = World(I, {J: ents}, ["j.jar"])
    case("archive opened", W, new("jarinfo", "JarInfo", zipfile=lambda: I.call(
        I.get("ziputils", "zip_file"), [Const("j.jar")], {})), parts)
    W = World(I, {}, ["d/" + n for n in ents])
    dparts = [("p/A.class", "class", ["/cwd/d/p/A.class"]),
              ("q/B$1.class", "class", ["/cwd/d/q/B$1.class"])]
    case("exploded archive", W, new("jarinfo", "JarInfo", "d"), dparts)
    W = World(I, {J: ["x.txt"]}, ["j.jar"])
    case("archive without classes", W, new("jarinfo", "JarInfo", "j.jar"), [])
    # distributions
    tree = ["d/lib/x.txt", "d/lib/j.jar", "d/p/A.class", "d/B.class"]
    J = "/cwd/d/lib/j.jar"
    W = World(I, {J: ["q/C.class", "n.txt"]}, tree)

    def dparts(base, j, kind="class"):
        return [("lib/j.jar", "jar", [j + ":q/C.class"]),
                ("p/A.class", "class", [base + "/p/A.class"])]
    tree = ["d/lib/x.txt", "d/lib/j.jar", "d/p/A.class"]
    W = World(I, {J: ["q/C.class", "n.txt"]}, tree)
    case("distribution", W, new("distinfo", "DistInfo", "d"),
         dparts("/cwd/d", J), "dist")
    tree = ["d/p/A.class", "d/q/", "d/q/r/B.class"]
    W = World(I, {}, tree)
    case("distribution of classes", W, new("distinfo", "DistInfo", "/cwd/d"),
         [(n, "class", ["/cwd/d/" + n]) for n in ("p/A.class",
                                                  "q/r/B.class")], "dist")
    for ext in ("ear", "rar", "sar", "war"):
        J = "/cwd/d/k." + ext
        W = World(I, {J: ["q/A.class", "n.txt"]}, ["d/k." + ext, "d/x.zip"])
        case("distribution of a " + ext, W, new("distinfo", "DistInfo", "d"),
             [("k." + ext, "jar", [J + ":q/A.class"])], "dist")
    J1, J2 = "/cwd/d/a.jar", "/cwd/d/b/b.jar"
    W = World(I, {J1: ["q/A.class"], J2: ["q/B$1.class"]},
              ["d/a.jar", "d/b/b.jar"])
    case("distribution of archives", W, new("distinfo", "DistInfo", "d"),
         [("a.jar", "jar", [J1 + ":q/A.class"]),
          ("b/b.jar", "jar", [J2 + ":q/B$1.class"])], "dist")
    Z = "/cwd/d.zip"
    JT = TMP + "/lib/j.jar"
    W = World(I, {Z: ["lib/", "lib/j.jar", "p/A.class", "x"],
                  JT: ["q/C.class"]}, ["d.zip"])
    case("packed distribution", W, new("distinfo", "DistInfo", "d.zip"),
         dparts(TMP, JT), "dist")
    rep.cover(I)
