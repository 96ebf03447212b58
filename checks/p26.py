"""P26: comparing and copying directory trees."""

import posixpath

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Ref, Func, Ext, HList, Item, \
    show
from sa import ops, gram
from checks.p01 import nrm
from checks.p43 import items
from checks.ctree import param

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over a model of "
                 "the file system and of the comparing functions of the "
                 "standard library, for directory trees of given shapes with "
                 "symbolic content, signatures and readability of the files",
    "rule": "every file of either tree gives exactly one event: left or "
            "right only if the other tree has no such file, else same "
            "exactly if the content could be compared and is equal; the "
            "collecting functions file each event under its list; copying "
            "copies each file to its relative place, whose directory exists, "
            "and reports each copy",
    "assumptions": ["the comparing functions of the standard library do what "
                    "their documentation says",
                    "deeper and wider trees are treated alike",
                    "trees hold regular files and directories only"],
}

L, R = "/cmp/left", "/cmp/right"
DEFAULT = ["RCS", "CVS", "tags", ".git", ".hg", ".bzr", "_darcs",
           "__pycache__"]

# (left, right): files; directories without files end in /
TREES = [
    ([], []),
    (["a"], []),
    ([], ["a"]),
    (["a"], ["a"]),
    (["a", "b", "c"], ["b", "c", "d"]),
    (["d/a", "d/e/b", "d/e/c", "d/f/"], []),
    ([], ["d/a", "d/e/b", "d/e/c", "d/f/"]),
    (["d/a", "d/e/f/b", "d/g/c", "d/h/i/j/k"], []),
    ([], ["d/a", "d/e/f/b", "d/g/c", "d/h/i/j/k"]),
    (["d/a", "d/b"], ["d/b", "d/c"]),
    (["d/a", "e/a", "f/a"], ["d/a", "e/a", "f/b"]),
    (["d/e/f/a", "d/e/b"], ["d/e/f/a", "d/e/f/c"]),
    (["d/a", "d/x/a"], ["d/a", "d/y/a"]),
    (["a"], ["a/x", "a/y/z"]),
    (["a/x", "a/y/z"], ["a"]),
    (["d/a", "d/b"], ["d/a/x", "d/b"]),
    (["a/"], ["a"]),
    (["CVS/a", ".git/b", "tags", ".h"], ["CVS/a", ".git/c", "tags", ".h"]),
    (["__pycache__/a", "RCS"], ["x"]),
    (["d/CVS", "core"], ["d/CVS", "core~"]),
    (["d/"], ["d/"]),
    (["d/e/"], ["d/e/a"]),
]


class FS(object):
    """directories and files by path"""

    def __init__(self, trees):
        self.dirs, self.files = set(), set()
        for root, names in trees:
            self.adddir(root)
            for n in names:
                p = root + "/" + n.rstrip("/")
                if n.endswith("/"):
                    self.adddir(p)
                else:
                    self.adddir(posixpath.dirname(p))
                    self.files.add(p)

    def adddir(self, d):
        while d and d not in self.dirs:
            self.dirs.add(d)
            if d == "/":
                break
            d = posixpath.dirname(d)

    def norm(self, p):
        return posixpath.normpath(posixpath.join("/cwd", p))

    def isdir(self, p):
        return self.norm(p) in self.dirs

    def isfile(self, p):
        return self.norm(p) in self.files

    def exists(self, p):
        return self.isdir(p) or self.isfile(p)

    def listdir(self, d):
        d = self.norm(d)
        pre = d.rstrip("/") + "/"
        return sorted(set(x[len(pre):].split("/")[0]
                          for x in self.dirs | self.files
                          if x.startswith(pre) and x != pre))

    def walk(self, top, topdown=True):
        if not self.isdir(top):
            return []
        ds, fs = [], []
        for n in self.listdir(top):
            (ds if self.isdir(posixpath.join(top, n)) else fs).append(n)
        out = []
        for n in ds:
            out += self.walk(posixpath.join(top, n), topdown)
        me = [(top, ds, fs)]
        return me + out if topdown else out + me


def sconst(v, what):
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    raise Undecided("%s %s" % (what, show(v)))


class Model(object):
    def __init__(self, I):
        self.I = I
        self.dcs = []
        self.fs = None

    def seq(self, I, xs):
        return I.alloc(HList("list", [Item(Const(x)) for x in xs]))

    def rel(self, p):
        p = self.fs.norm(p)
        for r in (L, R):
            if p.startswith(r + "/"):
                return p[len(r) + 1:]
        raise Undecided("comparing " + p)

    def classify(self, I, a, b, shallow):
        """same, different or unreadable, by symbolic properties"""
        n = self.rel(a)
        if n != self.rel(b) or self.fs.norm(a) == self.fs.norm(b):
            raise Undecided("comparing %s with %s" % (a, b))
        if not (self.fs.isfile(a) and self.fs.isfile(b)):
            return "err"
        if shallow and I.truth(param("SIG:" + n)):
            return "same"
        if I.truth(param("ERR:" + n)):
            return "err"
        return "diff" if I.truth(param("DIFF:" + n)) else "same"

    def hooks(self):
        fs = lambda: self.fs

        def dircmp(I, f, a, kw, node):
            l, r = sconst(a[0], "directory"), sconst(a[1], "directory")

            def names(v, d):
                if v is None or v == NONE:
                    return d
                xs = I.known_items(v)
                if xs is None:
                    raise Undecided("ignored names")
                return [sconst(x, "name") for x in xs]
            ign = names(a[2] if len(a) > 2 else kw.get("ignore"), DEFAULT)
            hide = names(a[3] if len(a) > 3 else kw.get("hide"), [".", ".."])
            if set(kw) - {"ignore", "hide"}:
                raise Undecided("arguments of dircmp")
            self.dcs.append((l, r, ign, hide))
            return Term("new", "dircmp", (len(self.dcs) - 1,))

        def attr(I, o, n):
            if not (isinstance(o, Term) and o.op == "new" and
                    o.args[0] == "dircmp"):
                return NotImplemented
            l, r, ign, hide = self.dcs[o.args[1][0]]
            skip = set(ign) | set(hide)
            for d in (l, r):
                if not fs().isdir(d):
                    I.throw("FileNotFoundError")
            ls = [x for x in fs().listdir(l) if x not in skip]
            rs = [x for x in fs().listdir(r) if x not in skip]
            common = [x for x in ls if x in rs]
            kind = {}
            for x in common:
                a, b = posixpath.join(l, x), posixpath.join(r, x)
                kind[x] = "dir" if fs().isdir(a) and fs().isdir(b) else \
                    "file" if fs().isfile(a) and fs().isfile(b) else "funny"
            by = lambda k: [x for x in common if kind[x] == k]
            if n in ("left", "right"):
                return Const(l if n == "left" else r)
            if n == "left_list":
                return self.seq(I, ls)
            if n == "right_list":
                return self.seq(I, rs)
            if n == "left_only":
                return self.seq(I, [x for x in ls if x not in rs])
            if n == "right_only":
                return self.seq(I, [x for x in rs if x not in ls])
            if n == "common":
                return self.seq(I, common)
            if n in ("common_files", "common_dirs", "common_funny"):
                k = {"common_files": "file", "common_dirs": "dir",
                     "common_funny": "funny"}[n]
                return self.seq(I, by(k))
            if n in ("same_files", "diff_files", "funny_files"):
                k = {"same_files": "same", "diff_files": "diff",
                     "funny_files": "err"}[n]
                return self.seq(I, [x for x in by("file") if self.classify(
                    I, posixpath.join(l, x), posixpath.join(r, x),
                    True) == k])
            if n == "subdirs":
                d = I.call(Ext("builtins.dict"), [], {})
                for x in by("dir"):
                    self.dcs.append((posixpath.join(l, x),
                                     posixpath.join(r, x), ign, hide))
                    I.call(I.getattr(d, "__setitem__"), [
                        Const(x), Term("new", "dircmp", (
                            len(self.dcs) - 1,))], {})
                return d
            return NotImplemented

        def shallow(I, a, kw, i):
            v = a[i] if len(a) > i else kw.get("shallow", Const(True))
            return I.truth(v)

        def cmpfiles(I, f, a, kw, node):
            l, r = sconst(a[0], "directory"), sconst(a[1], "directory")
            xs = I.known_items(a[2] if len(a) > 2 else kw["common"])
            if xs is None:
                raise Undecided("names to compare")
            res = {"same": [], "diff": [], "err": []}
            sh = shallow(I, a, kw, 3)
            for x in xs:
                x = sconst(x, "name")
                res[self.classify(I, posixpath.join(l, x),
                                  posixpath.join(r, x), sh)].append(x)
            return Tup([self.seq(I, res[k]) for k in ("same", "diff",
                                                      "err")])

        def cmp_(I, f, a, kw, node):
            k = self.classify(I, sconst(a[0], "file"), sconst(a[1], "file"),
                              shallow(I, a, kw, 2))
            if k == "err":
                I.throw("OSError")
            return Const(k == "same")

        def pred(fn):
            def h(I, f, a, kw, node):
                return Const(fn(sconst(a[0], "path")))
            return h

        def walk(I, f, a, kw, node):
            td = a[1] if len(a) > 1 else kw.get("topdown", Const(True))
            if set(kw) - {"topdown"} or len(a) > 2:
                raise Undecided("arguments of walk")
            if a[0] == NONE:
                I.throw("TypeError")
            return I.alloc(HList("gen", [Item(Tup([
                Const(d), self.seq(I, ds), self.seq(I, ff)]))
                for d, ds, ff in fs().walk(sconst(a[0], "directory"),
                                           I.truth(td))]))

        def listdir(I, f, a, kw, node):
            d = sconst(a[0], "directory")
            if not fs().isdir(d):
                I.throw("FileNotFoundError")
            return self.seq(I, fs().listdir(d))

        def relpath(I, f, a, kw, node):
            b = sconst(a[1], "directory") if len(a) > 1 else "."
            return Const(posixpath.relpath(fs().norm(sconst(a[0], "path")),
                                           fs().norm(b)))
        H = {"ext:filecmp.dircmp": dircmp, "ext:filecmp.cmpfiles": cmpfiles,
             "ext:filecmp.cmp": cmp_, "ext:os.walk": walk,
             "ext:os.listdir": listdir, "ext:os.path.relpath": relpath,
             "ext:os.path.isdir": pred(lambda p: fs().isdir(p)),
             "ext:os.path.isfile": pred(lambda p: fs().isfile(p)),
             "ext:os.path.exists": pred(lambda p: fs().exists(p)),
             "ext:os.path.lexists": pred(lambda p: fs().exists(p)),
             "ext:os.path.islink": pred(lambda p: False)}
        for n in ("left", "right", "left_list", "right_list", "left_only",
                  "right_only", "common", "common_files", "common_dirs",
                  "common_funny", "same_files", "diff_files", "funny_files",
                  "subdirs"):
            H["attr:" + n] = attr
        return H


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 16
    I.MAXREC = 8
    M = Model(I)
    trees = TREES
    if tier == "thorough":
        trees = trees + [
            (["d/a", "d/b", "d/c", "e/f/g/a"], ["d/b", "d/c", "d/d",
                                                "e/f/g/a", "e/f/h"]),
            (["d/e/a", "d/f"], ["d/e", "d/f/b"]),
            (["d/" * i + "a" for i in range(4)],
             ["d/" * i + "a" for i in range(4)]),
        ]
    for t in trees:
        compare(rep, I, M, t)
    collect(rep, I)
    copies(rep, I, M)
    rep.cover(I)
    rep.expect = 20


def compare(rep, I, M, tree):
    rule = "each-file-once"
    left, right = tree
    key = "compare:%s/%s" % (",".join(left), ",".join(right))
    lf = set(x for x in left if not x.endswith("/"))
    rf = set(x for x in right if not x.endswith("/"))
    EV = dict((I.get("dirutils", n).v, n) for n in (
        "LEFT", "RIGHT", "SAME", "DIFF"))
    if len(EV) != 4:
        rep.bad("events", rule, "events are not distinct")
        return
    with rep.guard(key, rule):
        rep.ok(key, rule)
        I.hooks = M.hooks()

        def go():
            M.fs = FS([(L, left), (R, right)])
            M.dcs[:] = []
            r = I.call(I.get("dirutils", "compare"), [Const(L), Const(R)], {})
            return I.call(Ext("builtins.list"), [r], {})
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            got = {}
            for x in items(I, p, p.val):
                ev, n = [nrm(I, p.st, y) for y in I.known_items(x)]
                if not isinstance(ev, Const) or not isinstance(n, Const):
                    raise Undecided("event %s" % show(x))
                got.setdefault(n.v, []).append(EV.get(ev.v, "?"))
            for n in sorted((lf | rf) - set(got)):
                rep.bad(key, rule, "%s is not reported" % n, p.loc)
            for n, evs in sorted(got.items()):
                if len(evs) > 1:
                    rep.bad(key, rule, "%s is reported as %s" % (
                        n, " and ".join(evs)), p.loc)
                elif n not in lf | rf:
                    rep.bad(key, rule, "%s is reported, which is no file" %
                            n, p.loc)
                elif n not in rf or n not in lf:
                    w = "LEFT" if n in lf else "RIGHT"
                    if evs != [w]:
                        rep.bad(key, rule, "%s is reported as %s instead of "
                                "%s" % (n, evs[0], w), p.loc)
                else:
                    k = dict((x, gram.known(I, p.st, ops.cond_truth(param(
                        x + ":" + n)))) for x in ("DIFF", "ERR"))
                    # what could be the case on this path
                    if k["ERR"]:
                        want = ["DIFF"]
                    elif k["DIFF"] is not None and k["ERR"] is False:
                        want = ["DIFF" if k["DIFF"] else "SAME"]
                    else:
                        # decided without the content
                        rep.bad(key, rule, "%s is reported as %s without "
                                "comparing the content" % (n, evs[0]), p.loc)
                        continue
                    if evs != want:
                        rep.bad(key, rule, "%s is reported as %s instead of "
                                "%s" % (n, evs[0], want[0]), p.loc)


def collect(rep, I):
    """the collecting functions"""
    rule = "events-filed"
    order = ["RIGHT", "LEFT", "DIFF", "SAME"]   # added, removed, ...
    names = dict((e, ["%s%d" % (e, i) for i in range(2)]) for e in order)

    def gen(I_, f, a, kw, node):
        ok = tuple(map(I_.norm, a)) == (Const(L), Const(R))
        return I_.alloc(HList("gen", [Item(Tup([
            I.get("dirutils", e), Const(("" if ok else "swapped ") +
                                        names[e][i])]))
            for i in range(2) for e in order]))
    I.hooks = {"dirutils.compare": gen}
    for fn, mask in [("collect_compare", (1, 1, 1, 1))] + [
            ("collect_compare_into", m) for m in (
                (1, 1, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1),
                (1, 1, 1, 0), (0, 0, 0, 0))]:
        key = "%s:%s" % (fn, "".join(map(str, mask)))
        with rep.guard(key, rule):
            rep.ok(key, rule)

            def go():
                args = [Const(L), Const(R)]
                ls = [I.alloc(HList("list", [Item(Const("before"))]))
                      if m else NONE for m in mask]
                if fn != "collect_compare":
                    args += ls
                r = I.call(I.get("dirutils", fn), args, {})
                if fn == "collect_compare":
                    return r
                return Tup([r, Tup(ls)])
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                I.st = p.st
                vals = [p.val] if fn == "collect_compare" else p.val.items
                for v in vals:
                    got = []
                    for x in I.known_items(v):
                        got.append(None if x == NONE else [
                            show(nrm(I, p.st, y)) for y in I.known_items(x)])
                    pre = [] if fn == "collect_compare" else ["before"]
                    want = [[show(Const(y)) for y in pre + names[e]]
                            if m else None for e, m in zip(order, mask)]
                    if got != want:
                        rep.bad(key, rule, "files %s instead of %s" % (
                            got, want), p.loc)


COPIES = [
    ("/src", ["a"], "/dst", True),
    ("/src", ["a", "d/b", "d/e/c", "f/"], "/dst", True),
    ("/src", ["a", "d/b", "d/e/c", "f/"], "/dst", False),
    ("/src", ["a", "d/b", "d/e/c"], "/dst/x/y", False),
    ("/src/", ["a", "d/b"], "/dst/", False),
    ("src", ["a", "d/b", "d/e/c"], "dst", False),
    ("/src", ["d/e/f/g"], "/src2", False),
    ("/src", [], "/dst", False),
    ("/src", ["a", "d/b", "d/e/c"], "/dst", "full"),
]


def copies(rep, I, M):
    rule = "each-file-copied"
    for orig, names, dest, there in COPIES:
        key = "copydir:%s %s %s%s" % (orig, ",".join(names), dest,
                                      " has all of them" if there == "full"
                                      else " exists" if there else "")
        with rep.guard(key, rule):
            rep.ok(key, rule)
            log, errs = [], []
            H = M.hooks()

            def makedirs(I_, f, a, kw, node):
                d = sconst(a[0], "directory")
                ok = a[2] if len(a) > 2 else kw.get("exist_ok", Const(False))
                if d == "" or M.fs.exists(d) and not I_.truth(ok):
                    I_.throw("FileExistsError")
                M.fs.adddir(M.fs.norm(d))
                return NONE

            def mkdir(I_, f, a, kw, node):
                d = M.fs.norm(sconst(a[0], "directory"))
                if M.fs.exists(d) or not M.fs.isdir(posixpath.dirname(d)):
                    I_.throw("OSError")
                M.fs.adddir(d)
                return NONE

            def copy(I_, f, a, kw, node):
                s, d = sconst(a[0], "file"), sconst(a[1], "file")
                t = M.fs.norm(d)
                if M.fs.isdir(t) and not f.name.endswith("copyfile"):
                    t = posixpath.join(t, posixpath.basename(s))
                if not M.fs.isfile(s):
                    I_.throw("FileNotFoundError")
                if not M.fs.isdir(posixpath.dirname(t)):
                    errs.append("%s is copied to %s, whose directory does "
                                "not exist" % (s, d))
                    I_.throw("FileNotFoundError")
                log.append((M.fs.norm(s), t))
                M.fs.files.add(t)
                return Const(d)
            H.update({"ext:os.makedirs": makedirs, "ext:os.mkdir": mkdir})
            for n in ("copy", "copy2", "copyfile"):
                H["ext:shutil." + n] = copy
            I.hooks = H

            def go():
                del log[:], errs[:]
                M.fs = FS([(M_norm(orig), names)])
                if there:
                    M.fs.adddir(M_norm(dest))
                if there == "full":
                    for n in names:
                        t = posixpath.join(M_norm(dest), n)
                        M.fs.adddir(posixpath.dirname(t))
                        M.fs.files.add(t)
                r = I.call(I.get("dirutils", "copydir"), [
                    Const(orig), Const(dest)], {})
                rs = [tuple(sconst(y, "path") for y in I.known_items(x))
                      for x in I.known_items(r)]
                made = M.fs.isdir(M_norm(dest))
                return Tup([Const(tuple(log)), Const(tuple(rs)),
                            Const(made)])
            o, d = M_norm(orig), M_norm(dest)
            want = sorted((o + "/" + n, d + "/" + n) for n in names
                          if not n.endswith("/"))
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, errs[0] if errs else "raises %s" %
                            show(p.val), p.loc)
                    continue
                cp, rs, made = [x.v for x in p.val.items]
                if sorted(cp) != want:
                    rep.bad(key, rule, "copies %s instead of %s" % (
                        sorted(cp), want), p.loc)
                if sorted((M_norm(a), M_norm(b)) for a, b in rs) != want:
                    rep.bad(key, rule, "reports %s instead of %s" % (
                        sorted(rs), want), p.loc)
                if not made:
                    rep.bad(key, rule, "the destination does not exist",
                            p.loc)


def M_norm(p):
    return posixpath.normpath(posixpath.join("/cwd", p))
