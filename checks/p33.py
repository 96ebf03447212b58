"""P33: manifests and archives created cover the files given."""

import fnmatch
import posixpath

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, HList, Item, Ext, show
from checks.p01 import nrm
from checks.ctree import param
from checks.jarm import Jars, arg, const, b64, bcat, isnew, ALGS
from checks.p26 import FS, Model
from checks.p29 import sections
from checks.argp import Argv
from checks.p31 import excname, Bad

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the command "
                 "lines over given archives and directory trees with symbolic "
                 "content, read in pieces of unknown size, digests being "
                 "uninterpreted; what is written is compared with the "
                 "specification",
    "rule": "a manifest created has one section for each file of the archive "
            "or directory which is not ignored, with its digest by each "
            "algorithm asked for, written to the file asked for or else to "
            "the standard output; an archive created holds a manifest and "
            "each file and directory given",
    "assumptions": ["archives and trees of other shapes than those explored "
                    "are treated alike", "os, zipfile and hashlib do what "
                    "their documentation says"],
}

# pieces in which a file is read, by the last letter of its name
PIECES = {"0": 0, "2": 2, "3": 3}


class Files(Jars):
    def __init__(self, I, jars, tree):
        Jars.__init__(self, I, jars)
        self.fs = FS([("/cwd", tree)])
        self.M = Model(I)
        self.M.fs = self.fs
        self.A = Argv(I)
        self.streams = []

    def reset(self):
        Jars.reset(self)
        self.A.reset()
        del self.streams[:]

    def chunks(self, path, name):
        n = PIECES.get((name or path)[-1], 1)
        return [Term("new", "chunk", (path, name, i)) for i in range(n)]

    def digest(self, alg, path, name=None):
        return b64(alg, bcat(self.chunks(path, name)))

    def stream(self, path, name):
        self.streams.append(self.chunks(path, name))
        return Term("new", "rs", (len(self.streams) - 1,))

    lazy = True

    def stdout(self, I, f, a, kw, node):
        self.log.append(("data", "stdout", nrm(I, I.st, a[0])))
        return NONE

    def m_zip_open(self, I, o, a, kw):
        if const(arg(a, kw, 1, "mode", Const("r"))) != "r":
            raise Undecided("mode of an entry")
        return self.stream(*self.entry(o, arg(a, kw, 0, "name")))

    def m_zip_read(self, I, o, a, kw):
        return bcat(self.chunks(*self.entry(o, arg(a, kw, 0, "name"))))

    def m_zip_write(self, I, o, a, kw):
        z = self.zip(o)
        f = const(arg(a, kw, 0, "filename"), "file added")
        n = arg(a, kw, 1, "arcname")
        if not self.fs.exists(f):
            I.throw("FileNotFoundError")
        n = f if n == NONE else const(n, "entry written")
        n = posixpath.normpath(n).lstrip("/")
        if self.fs.isdir(f):
            n += "/"
        self.log.append(("add", z[0], n, self.fs.norm(f)))
        return NONE

    def m_rs_read(self, I, o, a, kw):
        cs = self.streams[o.args[1][0]]
        size = arg(a, kw, 0, "size", Const(-1))
        if isinstance(size, Const) and (size.v is None or size.v < 0):
            r = bcat(cs)
            del cs[:]
            return r
        return cs.pop(0) if cs else Const(b"")

    def m_rs_close(self, I, o, a, kw):
        return NONE

    def open_(self, I, f, a, kw, node):
        path = const(a[0], "path opened")
        mode = const(arg(a, kw, 1, "mode", Const("r")), "mode")
        if "w" in mode or "x" in mode:
            if self.fs.norm(posixpath.dirname(path)) not in self.fs.dirs and \
                    ("mkdir", self.fs.norm(posixpath.dirname(path))) not in \
                    self.log:
                I.throw("FileNotFoundError")
            self.log.append(("open", path, mode))
            return Term("new", "out", (path,))
        if mode not in ("rb", "br"):
            raise Undecided("mode %s" % mode)
        if not self.fs.isfile(path):
            I.throw("FileNotFoundError")
        return self.stream(self.fs.norm(path), None)

    def m_out_write(self, I, o, a, kw):
        if ("closed", o.args[1][0]) in self.log:
            I.throw("ValueError")
        self.log.append(("data", o.args[1][0], nrm(I, I.st, a[0])))
        return NONE

    def m_out_close(self, I, o, a, kw):
        self.log.append(("closed", o.args[1][0]))
        return NONE

    def m_out_flush(self, I, o, a, kw):
        return NONE

    def exit(self, I, t, exc):
        if isnew(t, "out"):
            self.m_out_close(I, t, [], {})
        Jars.exit(self, I, t, exc)

    def hasattr(self, I, o, name):
        if isinstance(o, Ext) and o.name == "sys.stdout":
            return name == "buffer"
        if isinstance(o, Ext) and o.name == "sys.stdout.buffer":
            return False
        if isnew(o, "out"):
            return name == "buffer" and o.args[1] == ("text",) or \
                name in ("write", "close", "flush")
        return Jars.hasattr(self, I, o, name)

    def mkdirs(self, I, f, a, kw, node):
        self.log.append(("mkdir", self.fs.norm(const(a[0], "directory"))))
        return NONE

    def buffer_attr(self, I, o, name, *r):
        if isinstance(o, Ext) and o.name in ("sys.stdout",
                                             "sys.__stdout__") or \
                o == Term("new", "out", ("text",)):
            return Term("new", "out", ("stdout",))
        return NotImplemented

    def fnm(self, I, f, a, kw, node):
        n, p = const(a[0], "name matched"), const(a[1], "pattern")
        return Const(fnmatch.fnmatchcase(n, p))

    def fnfilter(self, I, f, a, kw, node):
        xs = I.known_items(a[0])
        p = const(a[1], "pattern")
        return I.newlist([x for x in xs if fnmatch.fnmatchcase(const(x), p)])

    def hooks(self):
        h = self.M.hooks()
        h.update(Jars.hooks(self))
        h.update(self.A.hooks())
        h.update({"ext:builtins.open": self.open_, "ext:io.open": self.open_,
                  "ext:os.makedirs": self.mkdirs,
                  "ext:sys.stdout.buffer.write": self.stdout,
                  "attr:buffer": self.buffer_attr,
                  "attr:stdout": lambda I, o, n, *r: Term(
                      "new", "out", ("text",)),
                  "ext:fnmatch.fnmatch": self.fnm,
                  "ext:fnmatch.fnmatchcase": self.fnm,
                  "ext:fnmatch.filter": self.fnfilter})
        return h


class Runner(object):
    def __init__(self, rep, I):
        self.rep = rep
        self.I = I

    def case(self, key, rule, F, fn, verify):
        I = self.I

        def thunk():
            F.reset()
            I.hooks = F.hooks()
            exc = r = None
            try:
                r = nrm(I, I.st, fn())
            except PyExc as e:
                exc = excname(I, e.val)
            return Const((exc, r, tuple(F.log)))
        with self.rep.guard(key, rule):
            try:
                for p in I.run(thunk):
                    if p.kind != "normal":
                        raise Undecided(p.kind)
                    verify(*p.val.v)
            except Bad as e:
                self.rep.bad(key, rule, str(e))
            else:
                self.rep.ok(key, rule)


def need(c, text):
    if not c:
        raise Bad(text)


def verify_manifest(parts, want, main=()):
    """want: {name: {digest attribute: value}}"""
    ss = sections(bcat(parts), "\n")
    need(ss and ss[0] == [(Const("Manifest-Version"), Const("1.0"))] +
         list(main), "the main section is %s" % (
             ss and [(show(k), show(v)) for k, v in ss[0]]))
    got = []
    for s in ss[1:]:
        need(s and s[0][0] == Const("Name") and isinstance(s[0][1], Const),
             "a section starts with %s" % (s and show(s[0][0])))
        got.append(s[0][1].v)
    need(sorted(got) == sorted(want), "the sections are those of %s instead "
         "of %s" % (sorted(got), sorted(want)))
    for s in ss[1:]:
        n = s[0][1].v
        at = {k.v: v for k, v in s[1:]}
        need(len(at) == len(s) - 1, "an attribute of %s is given twice" % n)
        for k in sorted(set(at) | set(want[n])):
            need(at.get(k) == want[n].get(k), "%s of %s is %s instead of %s"
                 % (k, n, k in at and show(at[k])[:120],
                    k in want[n] and show(want[n][k])[:120]))


TREE = ["t/a", "t/d/b2", "t/d/e/c0", "t/META-INF/MANIFEST.MF",
        "t/META-INF/x/y", "t/f/", "t/g.class", "u", "t/h/g.class",
        "t/x.META-INF/a"]
JAR = ["META-INF/", "META-INF/MANIFEST.MF", "META-INF/A.SF",
       "META-INF/services/x", "a", "d/", "d/b2", "d/c0", "d/e/f3", "g.class",
       "d/g.class", "x/META-INF/a"]


def manifests(R, I, tier):
    rule = "manifest of an archive or directory"
    names = [x for x in JAR if not x.endswith("/")]
    files = [x[2:] for x in TREE if x.startswith("t/") and
             not x.endswith("/")]

    def want(F, src, ns, ignore, algs):
        pats = ["META-INF/*"] + ignore
        ns = [n for n in ns if not any(fnmatch.fnmatchcase(n, p)
                                       for p in pats)]

        def dig(a, n):
            if src == "x.jar":
                return F.digest(a, "x.jar", n)
            return F.digest(a, F.fs.norm("t/" + n))
        return {n: {a + "-Digest": dig(a, n) for a in algs} for n in ns}

    def one(name, args, src, ignore=(), algs=("MD5", "SHA1"), out=None,
            ns=None, jar=JAR, tree=TREE, mkdir=None, prefix=""):
        F = Files(I, {"x.jar": jar}, tree)
        ns = ns if ns is not None else names if src == "x.jar" else files

        def fn():
            return I.call(I.get("manifest", "main"), [I.newlist(
                [Const(x) for x in ["manifest"] + args])], {})

        def verify(exc, r, log):
            need(not exc, "fails with %s" % (exc or "").split(" ")[0])
            need(r in (NONE, Const(0)), "exit status %s" % show(r))
            target = out or "stdout"
            w = [x for x in log if x[0] == "data"]
            need(all(x[1] == target for x in w), "writes to %s" % sorted(
                set(x[1] for x in w)))
            if out:
                need([x[2] for x in log if x[0] == "open"] in (
                    [["wb"], ["bw"], ["xb"], ["wb+"]]
                    if False else [["wb"], ["bw"]]),
                    "opens the output %s" % [x for x in log
                                             if x[0] == "open"])
                need(("closed", out) in log, "does not close the output")
            need([x[1] for x in log if x[0] == "mkdir"] == (
                [mkdir] if mkdir else []), "creates directories %s" % [
                    x[1] for x in log if x[0] == "mkdir"])
            wa = want(F, src, ns, list(ignore), algs)
            verify_manifest([x[2] for x in w], {
                prefix + k: v for k, v in wa.items()})
        R.case("manifest " + name, rule, F, fn, verify)

    for cmd in ("c", "create"):
        for src in ("x.jar", "t", "t/", "./t", "/cwd/t"):
            one("%s %s" % (cmd, src), [cmd, src], src)
    for src in ("x.jar", "t"):
        for d in sorted(ALGS) + ["SHA-256,MD5", "MD5,SHA1,SHA-512"]:
            one("c -d %s %s" % (d, src), ["c", "-d", d, src], src,
                algs=d.split(","))
        one("c --digest SHA-256 " + src, ["c", src, "--digest", "SHA-256"],
            src, algs=["SHA-256"])
        for args, ign in (
                (["-i", "*.class"], ["*.class"]),
                (["-i", "a", "d/*"], ["a", "d/*"]),
                (["--ignore", "d/?2"], ["d/?2"]),
                (["-i", "a", "-i", "g.class"], ["a", "g.class"]),
                (["-i", "[ab]"], ["[ab]"]),
                (["-i", "none"], [])):
            one("c %s %s" % (src, " ".join(args)), ["c", src] + args, src,
                ignore=ign)
        one("c -m out " + src, ["c", "-m", "out.mf", src], src, out="out.mf")
        one("c --manifest t/d/out " + src, ["c", "--manifest", "t/d/out",
                                            src], src, out="t/d/out")
        one("c -m new/er/out " + src, ["c", "-m", "new/er/out", src], src,
            out="new/er/out", mkdir="/cwd/new/er")
    one("c of an empty archive", ["c", "x.jar"], "x.jar", ns=[], jar=[])
    one("c of an archive of directories", ["c", "x.jar"], "x.jar", ns=[],
        jar=["a/", "META-INF/"])
    one("c of an empty directory", ["c", "t"], "t", ns=[], tree=["t/"])
    one("c -r of a directory", ["c", "-r", "t"], "t", prefix="t/",
        ns=[x for x in files if not x.startswith("META-INF/")],
        tree=[x for x in TREE if not x.startswith("t/META-INF/")])
    for ign in ([], ["-i", "*.class", "u"]):
        one("c -r of a file" + " with ignores" * bool(ign),
            ["c", "-r", "t/d/b2"] + ign, "t", prefix="t/", ns=["d/b2"],
            ignore=[])
    one("c -r of an ignored file", ["c", "-r", "t/a", "-i", "t/?"], "t",
        prefix="t/", ns=[])
    one("c -r -m -d", ["c", "-r", "t/d", "-m", "o.mf", "-d", "SHA-256"], "t",
        prefix="t/", ns=["d/b2", "d/e/c0"], out="o.mf", algs=["SHA-256"])

    # the files found under several paths, in any order
    F = Files(I, {}, TREE)

    def several():
        ps = I.call(I.get("manifest", "multi_path_generator"), [I.newlist(
            [Const(x) for x in ("t/d", "u", "t/h/g.class", "t/f")])], {})
        out = []
        for x in I.known_items(ps):
            n, c = I.known_items(x)
            out.append(Tup([n] + I.known_items(I.call(c, [], {}))))
        return Tup(out)

    def verify(exc, r, log):
        need(not exc, "fails with %s" % (exc or "").split(" ")[0])
        got = {x.items[0].v: list(x.items[1:]) for x in r.items}
        need(len(got) == len(r.items), "a file is given twice")
        names = ["t/d/b2", "t/d/e/c0", "u", "t/h/g.class"]
        need(sorted(got) == sorted(names), "the files are %s instead of %s" %
             (sorted(got), sorted(names)))
        for n in names:
            need(bcat(got[n]) == bcat(F.chunks(F.fs.norm(n), None)),
                 "the content of %s is %s" % (n, [show(x)[:60]
                                                  for x in got[n]]))
    R.case("files of several paths", rule, F, several, verify)


def archives(R, I, tier):
    rule = "archive of files and directories"

    def one(name, args, entries, main=(), jar="o.jar"):
        F = Files(I, {}, TREE)

        def fn():
            return I.call(I.get("jarutil", "main"), [I.newlist(
                [Const(x) for x in ["jarutil"] + args])], {})

        def verify(exc, r, log):
            need(not exc, "fails with %s" % (exc or "").split(" ")[0])
            need(r in (NONE, Const(0)), "exit status %s" % show(r))
            need([x[1] for x in log if x[0] == "create"] == [Const(jar)],
                 "creates %s" % [show(x[1]) for x in log
                                 if x[0] == "create"])
            need(log[-1][0] == "close", "does not complete the archive")
            ws = [x for x in log if x[0] == "write"]
            need([x[2] for x in ws] in (
                ["META-INF/", "META-INF/MANIFEST.MF"],
                ["META-INF/MANIFEST.MF"]), "starts with %s" % [
                    x[2] for x in ws])
            need(log.index(ws[-1]) < min([i for i, x in enumerate(log)
                                          if x[0] == "add"] or [99]),
                 "the manifest is not at the begin of the archive")
            ss = sections(ws[-1][3], "\n")
            want = [(Const("Manifest-Version"), Const("1.0"))] + [
                (Const(k), Const(v)) for k, v in main]
            need(ss == [want], "the manifest holds %s" % [
                (show(k), show(v)) for s in ss for k, v in s])
            got = sorted((x[2], x[3]) for x in log if x[0] == "add")
            exp = sorted((n + ("/" if F.fs.isdir(n) else ""),
                          F.fs.norm(n)) for n in entries)
            need(got == exp, "the entries are %s instead of %s" % (
                [x[0] for x in got], [x[0] for x in exp]))
        R.case("jarutil " + name, rule, F, fn, verify)

    def below(d):
        F = FS([("/cwd", TREE)])
        out = [d]
        for n in F.listdir(d):
            p = d + "/" + n
            out += below(p) if F.isdir(p) else [p]
        return out

    for cmd in ("c", "create"):
        one(cmd + " of a file", [cmd, "o.jar", "u"], ["u"])
    one("c of nothing", ["c", "o.jar"], [])
    one("c of a file in a directory", ["c", "o.jar", "t/a"], ["t/a"])
    one("c of files", ["c", "o.jar", "t/a", "u", "t/d/b2"],
        ["t/a", "u", "t/d/b2"])
    one("c of a directory", ["c", "o.jar", "t"], below("t"))
    one("c of a directory without files", ["c", "o.jar", "t/f"], ["t/f"])
    one("c of directories and files", ["c", "o.jar", "t/d", "u", "t/h"],
        below("t/d") + ["u"] + below("t/h"))
    for o in ("-m", "--main-class"):
        one("c %s" % o, ["c", o, "p.Main", "o.jar", "u"], ["u"],
            [("Main-Class", "p.Main")])


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 40
    I.forksort = True
    rep.expect = 30
    R = Runner(rep, I)
    manifests(R, I, tier)
    archives(R, I, tier)
    rep.cover(I)
