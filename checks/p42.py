"""P42: reports are written below the report directory."""

import posixpath

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Ext, show
from checks.p01 import nrm
from checks.p31 import excname, Bad
from checks.ctree import param
from checks.txt import Texts, plainchar

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over paths of "
                 "known shape and unknown names, against a model of the file "
                 "system calls; each path opened is compared with the "
                 "specification",
    "rule": "the report of a part is written below the directory of the "
            "report it belongs to, whatever its entry is called, and for "
            "ordinary entries in the directory named by the entry, once for "
            "each format, named by the report and the format's extension, "
            "with links to the enclosing reports",
    "assumptions": ["entries of more components are treated alike",
                    "POSIX paths"],
}

EXT = {"json": ".json", "txt": ".text", "text": ".text", "htm": ".html",
       "html": ".html"}
CLS = {".json": "JSONReportFormat", ".text": "TextReportFormat",
       ".html": "CheetahReportFormat"}


class Names(Texts):
    """words are names of files, which contain no slash"""
    @staticmethod
    def plain(c):
        return plainchar(c) and c != "/"


class Paths(object):
    """the functions of os.path on paths of unknown names, and the files
    and directories which are made"""

    def __init__(self, I, T):
        self.I, self.T = I, T
        self.cwd = "/" + T.word("cwd")
        self.reset()

    def reset(self):
        self.T.reset()
        self.log = []
        self.made = set()
        self.asked = {}

    def s(self, v, what="path"):
        g = self.T.get(v)
        if g is None or g[0] != "s":
            raise Undecided("%s %s" % (what, show(v)[:80]))
        return g[1]

    def norm(self, p):
        return "/" + posixpath.normpath(
            posixpath.join(self.cwd, p)).lstrip("/")

    def fn(self, name):
        def h(I, f, a, kw, node):
            if kw:
                raise Undecided("os.path." + name)
            a = [self.s(x) for x in a]
            if name == "abspath":
                r = posixpath.normpath(posixpath.join(self.cwd, a[0]))
            elif name == "relpath":
                if not a[0]:
                    I.throw("ValueError")
                r = posixpath.relpath(self.norm(a[0]),
                                      self.norm(a[1] if a[1:] else "."))
            elif name == "realpath":
                raise Undecided("realpath")
            else:
                r = getattr(posixpath, name)(*a)
            return self.back(r)
        return h

    def back(self, r):
        if isinstance(r, tuple):
            return Tup([self.T.mk("s", x) for x in r])
        if isinstance(r, bool):
            return Const(r)
        return self.T.mk("s", r)

    def below(self, d, p):
        """whether d is p or one of the directories above it"""
        return d == p or p.startswith(d.rstrip("/") + "/")

    def isdir(self, p):
        """directories above another are directories"""
        p = self.norm(p)
        if any(self.below(p, m) for m in self.made) or \
                self.below(p, self.cwd):
            return True
        for q, v in self.asked.items():
            if not v and self.below(q, p):
                return False
            if v and self.below(p, q):
                return True
        if p not in self.asked:
            self.asked[p] = self.I.truth(param("exists" + p))
        return self.asked[p]

    def exists(self, I, f, a, kw, node):
        return Const(self.isdir(self.s(a[0])))

    def makedirs(self, I, f, a, kw, node):
        p = self.s(a[0])
        ok = kw.get("exist_ok") or (a[2] if a[2:] else Const(False))
        if self.isdir(p) and ok != Const(True):
            I.throw("FileExistsError")
        self.made.add(self.norm(p))
        self.log.append(("mkdir", p))
        return NONE

    def open_(self, I, f, a, kw, node):
        p = self.s(a[0])
        mode = kw.get("mode", a[1] if a[1:] else Const("r"))
        if not isinstance(mode, Const):
            raise Undecided("mode")
        if not self.isdir(posixpath.dirname(self.norm(p))):
            I.throw("FileNotFoundError")
        self.log.append(("open", p, mode.v))
        return Term("new", "out", (len(self.log),))

    def hooks(self):
        h = self.T.hooks()
        for n in ("join", "normpath", "abspath", "relpath", "dirname",
                  "basename", "split", "splitext", "isabs", "normcase",
                  "splitdrive", "realpath"):
            h["ext:os.path." + n] = h["ext:posixpath." + n] = self.fn(n)
        h["ext:os.path.exists"] = h["ext:os.path.isdir"] = self.exists
        h["ext:os.makedirs"] = self.makedirs
        h["ext:builtins.open"] = h["ext:io.open"] = self.open_
        return h


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 60
    rep.expect = 150
    T = Names(I)
    P = Paths(I, T)
    w = T.word
    A, B, C = w("a"), w("b"), w("c")
    R0, R1, R2 = w("Report"), w("Sub"), w("SubSub")
    R3 = w("Sub") + "." + w("Ext")
    CHANGE = Term("new", "CHANGE", ())

    def run_impl(cls):
        def h(I_, f, a, kw, node):
            n = T.get(kw.get("entry", a[2] if a[2:] else NONE))
            n = n[1] if n else ""
            crumbs = I.known_items(I.getattr(a[0], "breadcrumbs"))
            if crumbs is None:
                raise Undecided("breadcrumbs")
            crumbs = tuple(tuple(P.s(x, "breadcrumb") for x in
                                 I.known_items(c)) for c in crumbs)
            P.log.append(("run", cls, nrm(I, I.st, a[1]), n,
                          nrm(I, I.st, a[3]), crumbs,
                          nrm(I, I.st, I.getattr(a[0], "options"))))
            return NONE
        return h

    def one(base, subs, fmts, top=False):
        """subs: (path, name) of the nested reports"""
        I.hooks = P.hooks()
        for c in set(CLS.values()):
            q = "report.%s.run_impl" % c
            I.hooks[q] = run_impl(c)
        # the options have only what the command lines give by default
        OPT = Term("new", "OPTIONS", ())
        DEF = {"html_copy_data": NONE}
        I.hooks["hasattr"] = lambda I_, o, n: (n in DEF) if o == OPT else \
            T.hasattr_(I_, o, n)

        def attr(I_, o, n, *r):
            return DEF[n] if o == OPT else NotImplemented
        I.hooks["attr:html_copy_data"] = attr

        def exit_(I_, t, exc):
            if isinstance(t, Term) and t.op == "new" and t.args[0] == "out":
                P.log.append(("close", t))
                return False
            return NotImplemented
        I.hooks["exit"] = exit_

        def close(I_, f, a, kw, node):
            t = f.args[0]
            return NONE if exit_(I_, t, None) is False else NotImplemented
        I.hooks["meth:close"] = close

        def go():
            P.reset()
            try:
                r = I.call(I.get("report", "Reporter"),
                           [T.mk("s", base), T.mk("s", R0), OPT], {})
                I.call(I.getattr(r, "add_formats_by_name"),
                       [Tup([Const(f) for f in fmts])], {})
                for path, name in subs:
                    r = I.call(I.getattr(r, "subreporter"),
                               [T.mk("s", path), T.mk("s", name)], {})
                I.call(I.getattr(r, "run"), [CHANGE], {})
            except PyExc as e:
                return Const(("raised", excname(I, e.val).split()[0]))
            return Const(("log", tuple(P.log)))

        n = 0
        for p in I.run(go):
            if p.kind != "normal":
                raise Undecided(p.kind)
            n += 1
            what, lg = p.val.v
            if what == "raised":
                raise Bad("fails with %s" % lg)
            judge(base, subs, fmts, lg)
        if not n:
            raise Undecided("no path")

    def judge(base, subs, fmts, lg):
        dirs = [P.norm(base)]
        plain = True
        for path, name in subs:
            cs = path.split("/")
            if "" in cs or "." in cs or ".." in cs:
                plain = False
            dirs.append(posixpath.join(dirs[-1], path.lstrip("/")))
        names = [R0] + [n for _p, n in subs]
        opens = [e for e in lg if e[0] == "open"]
        for e in lg:
            if e[0] in ("open", "mkdir"):
                q = P.norm(e[1])
                if not P.below(dirs[0], q):
                    raise Bad("writes to %s which is not in %s" % (
                        T.show(q), T.show(dirs[0])))
        want = sorted(set(EXT[f] for f in fmts))
        for e in opens:
            if e[2] not in ("w", "wt"):
                raise Bad("opens the file with mode %s" % e[2])
        if len(opens) != len(want):
            raise Bad("%d files are written for %s" % (len(opens),
                                                       " and ".join(fmts)))
        qs = sorted(P.norm(e[1]) for e in opens)
        if sorted(posixpath.basename(q) for q in qs) != sorted(
                names[-1] + x for x in want):
            raise Bad("the files are called %s" % ", ".join(
                T.show(posixpath.basename(q)) for q in qs))
        if len(set(map(posixpath.dirname, qs))) > 1:
            raise Bad("the formats are written to different directories")
        here = posixpath.dirname(qs[0]) if qs else None
        if plain and qs and here != dirs[-1]:
            raise Bad("the report is written to %s instead of %s" % (
                T.show(here), T.show(dirs[-1])))
        runs = [e for e in lg if e[0] == "run"]
        if sorted(e[1] for e in runs) != sorted(CLS[x] for x in want):
            raise Bad("the reports written are %s" % ", ".join(
                e[1] for e in runs))
        for i, e in enumerate(lg):
            if e[0] != "run":
                continue
            _r, cls, ch, n, out, crumbs, opts = e
            if ch != CHANGE:
                raise Bad("%s reports %s" % (cls, show(ch)))
            if n != names[-1]:
                raise Bad("the report is called %s" % (T.show(n) or "nothing"))
            ops_ = [j for j, o in enumerate(lg[:i]) if o[0] == "open" and
                    Term("new", "out", (j + 1,)) == out]
            if not ops_:
                raise Undecided("output %s" % show(out)[:60])
            x = [x for x in CLS if CLS[x] == cls][0]
            if not lg[ops_[0]][1].endswith(x):
                raise Bad("%s writes to %s" % (cls, T.show(lg[ops_[0]][1])))
            if ("close", out) in lg[:i]:
                raise Bad("the file is closed before the report")
            if ("close", out) not in lg[i:]:
                raise Bad("the file is not closed")
            cs = crumbs
            if [c[1] for c in cs] != names[:-1]:
                raise Bad("names the enclosing reports %s" % ", ".join(
                    T.show(c[1]) for c in cs))
            if plain:
                for (rel, _n), d in zip(cs, dirs):
                    if rel.startswith("/") or P.norm(posixpath.join(
                            here, rel)) != d:
                        raise Bad("links to %s instead of %s from %s" % (
                            T.show(rel), T.show(d), T.show(here)))

    bases = [("a relative directory", w("out")),
             ("an absolute directory", "/" + w("tmp") + "/" + w("out")),
             ("the current directory", "./"),
             ("a directory above", "../" + w("out")),
             ("a directory with trailing slash", w("out") + "/")]
    shapes = ["", A, A + "/" + B, A + "/" + B + "/" + C, "/" + A,
              "//" + A, "/" + A + "/" + B, "../" + A, "../../" + A,
              "/../" + A, A + "/../" + B, A + "/../../" + B,
              A + "/../../../" + B, "./" + A, A + "/./" + B, A + "//" + B,
              "../" + A + "/../../" + B, ".../" + A, A + "/..", "..", "/",
              ".", A + "/", "..." + A, ".." + A + "/" + B]
    if tier == "thorough":
        import itertools
        shapes = sorted(set(shapes) | set(
            lead + "/".join(x) for n in (1, 2, 3, 4) for lead in ("", "/")
            for x in itertools.product((A, B, "..", ".", ""), repeat=n)))
    rule = "below"

    def check(name, *a):
        with rep.guard(name, rule):
            try:
                one(*a)
            except Bad as e:
                rep.bad(name, rule, str(e))
            else:
                rep.ok(name, rule)
    for bn, b in bases:
        check("report in %s" % bn, b, [], ["text"])
        for f in sorted(EXT):
            check("part reported as %s in %s" % (f, bn), b,
                  [(A + "/" + B, R1)], [f])
    check("all formats", w("out"), [(A, R1)], ["json", "txt", "html"])
    check("formats given twice", w("out"), [(A, R1)], ["txt", "text"])
    for bn, b in bases:
        check("report within three others in %s" % bn, b,
              [(A, R1), (B + "/" + C, R2), (A, R3)], ["json"])
    check("report called after a file", w("out"), [(A + "/" + B, R3)],
          ["html", "text"])
    for n in ("A.class", "a.b.c", ".x", "A", "x.", "A.html"):
        check("report called %s" % n, "out", [("p/" + n, n)],
              ["html", "text", "json"])
    for s in shapes:
        for bn, b in bases[:3]:
            check("entry %s in %s" % (T.show(s) or "without name", bn), b,
                  [(s, R1)], ["text"])
        check("entry %s of entry" % T.show(s), w("out"),
              [(w("d"), R1), (s, R2)], ["text"])
        check("entry of entry %s" % T.show(s), w("out"),
              [(s, R1), (w("d"), R2)], ["text", "json"])
    # a single format which is run itself
    GIVEN = Term("new", "given", ())
    OPT = Term("new", "OPTIONS", ())

    def alone(cls, ext, basedir, name, out):
        I.hooks = P.hooks()
        q = "report.%s.run_impl" % cls

        def impl(I_, f, a, kw, node):
            P.log.append(("run", a[1], kw.get("out", a[3] if a[3:] else NONE)))
            return NONE
        I.hooks[q] = impl

        def done(t):
            if isinstance(t, Term) and t.op == "new" and t.args[0] in (
                    "out", "given"):
                P.log.append(("close", t))
                return True

        I.hooks["exit"] = lambda I_, t, exc: False if done(t) else \
            NotImplemented
        I.hooks["meth:close"] = lambda I_, f, a, kw, node: NONE if done(
            f.args[0]) else NotImplemented

        def go():
            P.reset()
            try:
                r = I.call(I.get("report", cls), [
                    T.mk("s", basedir) if basedir else NONE, OPT], {})
                I.call(I.getattr(r, "run"), [
                    CHANGE, T.mk("s", name) if name else NONE] + (
                        [GIVEN] if out else []), {})
            except PyExc as e:
                return Const(("raised", excname(I, e.val).split()[0]))
            return Const(("log", tuple(P.log)))
        for p in I.run(go):
            if p.kind != "normal":
                raise Undecided(p.kind)
            what, lg = p.val.v
            if what == "raised":
                raise Bad("fails with %s" % lg)
            opens = [e for e in lg if e[0] == "open"]
            rs = [e for e in lg if e[0] == "run"]
            if [e[1] for e in rs] != [CHANGE]:
                raise Bad("reports %s" % ", ".join(show(e[1]) for e in rs))
            if name and not out:
                want = posixpath.join(P.norm(basedir or "."), name + ext)
                if [P.norm(e[1]) for e in opens] != [want]:
                    raise Bad("writes the files %s instead of %s" % (
                        ", ".join(T.show(e[1]) for e in opens),
                        T.show(want)))
                continue
            if opens:
                raise Bad("writes the file %s" % T.show(opens[0][1]))
            if ("close", GIVEN) in lg:
                raise Bad("closes the output given")
            o = rs[0][2]
            if out and o != GIVEN or not out and not (
                    isinstance(o, Ext) and o.name in (
                        "sys.stdout", "sys.__stdout__")):
                raise Bad("writes to %s" % show(o)[:80])

    for ext, cls in sorted(set((x, c) for x, c in CLS.items())):
        for basedir in (None, w("out")):
            for name in (None, R0):
                for out in (False, True):
                    key = "%s alone%s%s%s" % (
                        cls, " in a directory" * bool(basedir),
                        " with name" * bool(name), " with output" * out)
                    with rep.guard(key, "alone"):
                        try:
                            alone(cls, ext, basedir, name, out)
                        except Bad as e:
                            rep.bad(key, "alone", str(e))
                        else:
                            rep.ok(key, "alone")
    rep.cover(I)
