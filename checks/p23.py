"""P23: changed entries are compared by their kind."""

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ref, HList, Item, show
from sa import ops, gram
from checks.p01 import nrm
from checks.p43 import items
from checks.ctree import param, Kids, worlds, strays
from checks.texts import Files, TEXTS

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the comparison "
                 "of archives and distributions over events for entries of "
                 "each kind, with symbolic content and symbolic outcomes of "
                 "the deeper comparison",
    "rule": "each event gives one part for its entry, an addition, a removal "
            "or a comparison by the kind of the entry, of the content of the "
            "left with that of the right entry; the part is changed exactly "
            "if the deeper comparison is, or, if there is none, if the "
            "content differs",
    "assumptions": ["entry names are treated by their patterns"],
}

OPT = Term("new", "OPTIONS")
REP = Term("new", "REPORTER")

# kind -> (entry names)
JAR_KINDS = {
    "manifest": ["META-INF/MANIFEST.MF"],
    "sigfile": ["META-INF/KEY.SF", "META-INF/key.sf"],
    "sigblock": ["META-INF/KEY.RSA", "META-INF/KEY.DSA", "META-INF/KEY.EC",
                 "META-INF/key.rsa", "META-INF/SIG-KEY"],
    "class": ["A.class", "pkg/sub/A$1.class", "META-INF/versions/9/A.class"],
    "other": ["a.txt", "pkg/MANIFEST.MF", "pkg/KEY.SF", "META-INF/a/KEY.SF",
              "META-INF/a/KEY.RSA", "KEY.RSA", "A.class.txt",
              "META-INF/SIG/x", "Aclass"],
}
DIST_KINDS = {
    "jar": ["a.jar", "lib/a.jar", "a.war", "x/a.ear", "a.sar", "a.rar"],
    "class": ["A.class", "pkg/A$B.class"],
    "text": ["a.txt", "doc/a.html", "a.xml", "bin/run.sh", "a.properties",
             "a.cfg", "a.ini", "a.conf", "a.bat", "a.cert", "a.dtd",
             "a.text"],
    "manifest": ["MANIFEST.MF", "META-INF/MANIFEST.MF"],
    "other": ["a.bin", "ajar", "a.jar.old", "XMANIFEST.MF", "README"],
}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    base = len(I.base.path)
    E = Eval(rep, I, base)
    for kind, names in sorted(JAR_KINDS.items()):
        for n in names:
            for ev in ("LEFT", "RIGHT", "SAME", "DIFF"):
                E.jar(kind, n, ev)
    for kind, names in sorted(DIST_KINDS.items()):
        for n in names:
            for ev in ("LEFT", "RIGHT", "SAME", "DIFF"):
                for shallow in (False, True):
                    E.dist(kind, n, ev, shallow)
    E.reports()
    for i, (l, r, _t) in enumerate(TEXTS):
        E.text(i, l, r)
    E.generic()
    rep.cover(I)
    rep.expect = 100


# class of the part by kind and event
JAR_CLASSES = {
    "manifest": ("JarContentRemoved", "JarContentAdded", "JarManifestChange"),
    "sigfile": ("JarSignatureFileRemoved", "JarSignatureFileAdded",
                "JarSignatureFileChange"),
    "sigblock": ("JarSignatureBlockFileRemoved", "JarSignatureBlockFileAdded",
                 "JarSignatureBlockFileChange"),
    "class": ("JarClassRemoved", "JarClassAdded", "JarClassChange"),
    "other": ("JarContentRemoved", "JarContentAdded", "JarContentChange"),
}
JAR_DEEP = {
    "manifest": ("manifest.ManifestChange", "manifest"),
    "sigfile": ("manifest.SignatureManifestChange", "manifest"),
    "sigblock": ("manifest.SignatureBlockFileChange", "data"),
    "class": ("classdiff.JavaClassChange", "class"),
    "other": ("jardiff.GenericFileChange", "data"),
}
DIST_CLASSES = {
    "jar": ("DistJarRemoved", "DistJarAdded", "DistJarChange"),
    "class": ("DistClassRemoved", "DistClassAdded", "DistClassChange"),
    "text": ("DistContentRemoved", "DistContentAdded", "DistTextChange"),
    "manifest": ("DistContentRemoved", "DistContentAdded",
                 "DistManifestChange"),
    "other": ("DistContentRemoved", "DistContentAdded", "DistContentChange"),
}
DIST_DEEP = {
    "jar": ("jardiff.JarChange", "path"),
    "class": ("classdiff.JavaClassChange", "class"),
    "manifest": ("manifest.ManifestChange", "manifest"),
}
ALL_DEEP = ("manifest.ManifestChange", "manifest.SignatureManifestChange",
            "manifest.SignatureBlockFileChange", "classdiff.JavaClassChange",
            "classdiff.JavaClassReport", "jardiff.GenericFileChange",
            "jardiff.JarChange", "jardiff.JarReport")


class Eval(object):
    def __init__(self, rep, I, base):
        self.rep, self.I, self.base = rep, I, base

    def model(self, files=None):
        """hooks for content and deeper comparisons"""
        I = self.I
        K = self.K = Kids(I, 1, OPT)
        self.made = []
        self.manifests = []
        H = K.hooks()

        def entry(I_, f, a, kw, node):
            z, n = a[0], a[1]
            if not isinstance(n, Const):
                raise Undecided("entry name")
            return Term("new", "stream", (z, n.v))

        def stream(t):
            if isinstance(t, Term) and t.op == "new" and \
                    t.args[0] == "stream":
                return t.args[1]
            return None

        F = Files(dict((k, k.encode()) for k in files or ()))

        def read(I_, f, a, kw, node):
            s = stream(f.args[0])
            if s is None:
                return F.hooks()["meth:read"](I_, f, a, kw, node)
            if a and a[0] != NONE:
                raise Undecided("partial read")
            return Term("new", "data", s)
        H.update(F.hooks())
        H["meth:read"] = read

        def zopen(I_, f, a, kw, node):
            z = f.args[0]
            if isinstance(z, Term) and z.op == "new" and z.args[0] == "zip":
                r = Term("new", "stream", (z, a[0].v))
                return r if f.args[1] == "open" else Term(
                    "new", "data", r.args[1])
            return NotImplemented
        H["meth:open"] = zopen
        H["ziputils.open_zip"] = lambda I_, f, a, kw, node: Term(
            "new", "zip", (I_.norm(a[0]),))
        H["ziputils.open_zip_entry"] = entry

        def unpack(I_, f, a, kw, node):
            x = a[0]
            if stream(x) is not None:
                x = Term("new", "data", stream(x))
            return Term("new", "class", (x,))
        H["unpack_class"] = unpack
        H["unpack_classfile"] = unpack

        def manifest(I_, f, a, kw, node):
            if a or kw:
                raise Undecided("arguments of a manifest")
            self.manifests.append([])
            return Term("new", "manifest", (len(self.manifests) - 1,))
        H["new:manifest.Manifest"] = manifest

        def parse(I_, f, a, kw, node):
            r = f.args[0]
            if isinstance(r, Term) and r.op == "new" and \
                    r.args[0] == "manifest":
                x = a[0]
                if stream(x) is not None:
                    x = Term("new", "data", stream(x))
                self.manifests[r.args[1][0]].append(x)
                return NONE
            return NotImplemented
        H["meth:parse"] = H["meth:parse_file"] = H["meth:load"] = parse

        def norm(x):
            x = I.norm(x)
            if isinstance(x, Term) and x.op == "new" and \
                    x.args[0] == "manifest":
                xs = self.manifests[x.args[1][0]]
                return Term("new", "parsed", tuple(xs))
            return x

        def deep(q):
            def new(I_, f, a, kw, node):
                self.made.append((q, tuple(map(norm, a)),
                                  tuple(sorted((k, norm(v))
                                               for k, v in kw.items()))))
                return K.terms[0]
            return new
        for q in ALL_DEEP:
            H["new:" + q] = deep(q)
        H["attr:options"] = lambda I_, o, n: OPT if o == REP \
            else NotImplemented
        return H

    def listing(self, H, q, ev, name, log):
        I = self.I

        def gen(I_, f, a, kw, node):
            log.append(tuple(map(I_.norm, a)))
            return I_.alloc(HList("gen", [Item(Tup([
                I.get("dirutils", ev), Const(name)]))]))
        H[q] = gen

    def jar(self, kind, name, ev):
        I = self.I
        key = "JarContentsChange:%s:%s" % (ev, name)
        rule = "entry-compared-by-kind"
        with self.rep.guard(key, rule):
            self.rep.ok(key, rule)
            H = self.model()
            log = []
            self.listing(H, "ziputils.compare_zips", ev, name, log)
            I.hooks = H
            L, R = Const("left.jar"), Const("right.jar")
            zl, zr = Term("new", "zip", (L,)), Term("new", "zip", (R,))

            def go():
                del log[:], self.made[:], self.manifests[:]
                self.K.reset()
                o = I.call(I.get("jardiff", "JarContentsChange"), [L, R], {})
                I.call(I.getattr(o, "check"), [], {})
                return self.outcome(o, log)
            q, via = JAR_DEEP[kind]
            dl, dr = Term("new", "data", (zl, name)), Term(
                "new", "data", (zr, name))
            self.judge(key, rule, go, "jardiff", JAR_CLASSES[kind], name, ev,
                       (zl, zr), q, via, dl, dr)

    def dist(self, kind, name, ev, shallow):
        I = self.I
        key = "DistChange:%s:%s%s" % (ev, name,
                                      ":shallow" if shallow else "")
        rule = "file-compared-by-kind"
        if shallow:
            kind = "other"
        L, R = Const("/left"), Const("/right")
        pl, pr = "/left/" + name, "/right/" + name
        with self.rep.guard(key, rule):
            self.rep.ok(key, rule)
            H = self.model([pl, pr])
            if kind == "text":
                fs = Files({pl: b"a\n", pr: b"a\n" if ev == "SAME"
                            else b"b\n"})
                H.update(fs.hooks())
            log = []
            self.listing(H, "dirutils.compare", ev, name, log)
            I.hooks = H

            def go():
                del log[:], self.made[:], self.manifests[:]
                self.K.reset()
                o = I.call(I.get("distdiff", "DistChange"), [
                    L, R, Const(shallow)], {})
                I.call(I.getattr(o, "check"), [], {})
                return self.outcome(o, log)
            q, via = DIST_DEEP.get(kind, (None, None))
            self.judge(key, rule, go, "distdiff", DIST_CLASSES[kind], name,
                       ev, (L, R), q, via, Const(pl), Const(pr),
                       kind == "text")

    def outcome(self, o, log):
        I = self.I
        cs = I.known_items(I.call(I.getattr(o, "collect"), [], {}))
        if cs is None:
            raise Undecided("parts")
        out = []
        for c in cs:
            b = I.obj(c)
            ks = I.known_items(I.call(I.getattr(c, "collect"), [], {}))
            out.append(Tup([
                b.cls, I.getattr(c, "entry"), I.getattr(c, "ldata"),
                I.getattr(c, "rdata"),
                Const(bool(I.truth(I.call(I.getattr(c, "is_change"), [],
                                          {})))),
                Const(None if ks is None else tuple(
                    I.obj(k).cls.qual if isinstance(k, Ref) else k
                    for k in ks))]))
        return Tup([Tup(out),
                    Const(bool(I.truth(I.call(I.getattr(o, "is_change"), [],
                                              {})))),
                    Const(tuple(log)), Const(tuple(self.made))])

    def judge(self, key, rule, go, mod, classes, name, ev, sides, q, via, dl,
              dr, text=False):
        rep, I, K = self.rep, self.I, self.K
        kidx = {"LEFT": 0, "RIGHT": 1}.get(ev, 2)
        want = I.get(mod, classes[kidx])
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            parts, out, log, made = p.val.items
            log, made = log.v, made.v
            if strays(p, self.base):
                rep.bad(key, rule, "depends on %s" % ", ".join(
                    strays(p, self.base)), p.loc)
                continue
            if [x[:2] for x in log] != [sides]:
                rep.bad(key, rule, "compares %s" % (", ".join(
                    "%s with %s" % tuple(map(show, x[:2])) for x in log)),
                    p.loc)
                continue
            if len(parts.items) != 1:
                rep.bad(key, rule, "gives %d parts" % len(parts.items), p.loc)
                continue
            c, entry, l, r, changed, kids = parts.items[0].items
            if want not in c.mro:
                rep.bad(key, rule, "is a %s instead of a %s" % (
                    c.name, want.name), p.loc)
                continue
            other = [x for i, x in enumerate(("Removal", "Addition"))
                     if i != kidx]
            if any(I.get("change", x) in c.mro for x in other):
                rep.bad(key, rule, "is a %s" % c.name, p.loc)
            if entry != Const(name):
                rep.bad(key, rule, "the entry is %s" % show(entry), p.loc)
            if (nrm(I, p.st, l), nrm(I, p.st, r)) != sides:
                rep.bad(key, rule, "the part compares %s with %s" % (
                    show(l), show(r)), p.loc)
            if ev == "DIFF" and q:
                self.deeper(key, rule, p, made, q, via, dl, dr)
                for w in worlds(I, p, ["C0"]):
                    if changed.v != w["C0"]:
                        rep.bad(key, rule, "is %schanged while the deeper "
                                "comparison says otherwise" % (
                                    "" if changed.v else "un"), p.loc)
                if kids.v != (K.terms[0],):
                    rep.bad(key, rule, "the deeper comparison is not part of "
                            "it", p.loc)
            else:
                if made:
                    rep.bad(key, rule, "compares by %s" % made[0][0], p.loc)
                if changed.v != (ev != "SAME"):
                    rep.bad(key, rule, "is %schanged" % (
                        "" if changed.v else "un"), p.loc)
                if not text and kids.v not in ((), None):
                    rep.bad(key, rule, "has parts", p.loc)
                if text and bool(kids.v) != (ev == "DIFF"):
                    rep.bad(key, rule, "has %d parts" % len(kids.v or ()),
                            p.loc)
            if out.v != changed.v:
                rep.bad(key, rule, "the comparison is %schanged" % (
                    "" if out.v else "un"), p.loc)

    def deeper(self, key, rule, p, made, q, via, dl, dr, extra=()):
        rep = self.rep
        if len(made) != 1 or made[0][0] != q:
            rep.bad(key, rule, "compares by %s instead of %s" % (
                ", ".join(m[0] for m in made) or "nothing", q), p.loc)
            return
        args = made[0][1]
        if made[0][2]:
            raise Undecided("named arguments of " + q)

        def wrap(x):
            if via == "class":
                return Term("new", "class", (x,))
            if via == "manifest":
                return Term("new", "parsed", (x,))
            return x
        want = (wrap(dl), wrap(dr)) + tuple(extra)
        if args != want:
            rep.bad(key, rule, "compares %s instead of %s" % (
                ", ".join(map(show, args)), ", ".join(map(show, want))),
                p.loc)

    def reports(self):
        """the report-writing variants"""
        I, rep = self.I, self.rep
        rule = "reported-entry-compared-by-kind"
        name = "pkg/X"
        L, R = Const("/left"), Const("/right")
        zl, zr = Term("new", "zip", (L,)), Term("new", "zip", (R,))
        pl, pr = Const("/left/" + name), Const("/right/" + name)
        for mod, cn, l, r, q, via, dl, dr in (
                ("jardiff", "JarClassReport", zl, zr,
                 "classdiff.JavaClassReport", "class",
                 Term("new", "data", (zl, name)),
                 Term("new", "data", (zr, name))),
                ("distdiff", "DistClassReport", L, R,
                 "classdiff.JavaClassReport", "class", pl, pr),
                ("distdiff", "DistJarReport", L, R, "jardiff.JarReport",
                 "path", pl, pr)):
            key = "%s.%s" % (mod, cn)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = self.model()

                def go():
                    del self.made[:], self.manifests[:]
                    self.K.reset()
                    o = I.call(I.get(mod, cn), [l, r, Const(name), REP], {})
                    I.call(I.getattr(o, "check"), [], {})
                    return Tup([
                        Const(bool(I.truth(I.call(I.getattr(
                            o, "is_change"), [], {})))),
                        Const(tuple(self.made))])
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    if strays(p, self.base):
                        rep.bad(key, rule, "depends on %s" % ", ".join(
                            strays(p, self.base)), p.loc)
                        continue
                    self.deeper(key, rule, p, p.val.items[1].v, q, via, dl,
                                dr, (REP,))
                    for w in worlds(I, p, ["C0"]):
                        if p.val.items[0].v != w["C0"]:
                            rep.bad(key, rule, "does not have the outcome of "
                                    "the deeper comparison", p.loc)
        # archives as a whole
        rule = "archive-compared-as-a-whole"
        for cn, want in (("JarChange", "JarContentsChange"),
                         ("JarReport", "JarContentsReport")):
            key = "jardiff." + cn
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = {"attr:options": lambda I_, o, n: OPT
                           if o == REP else NotImplemented}

                def go2():
                    o = I.call(I.get("jardiff", cn), [L, R] + (
                        [REP] if cn == "JarReport" else []), {})
                    cs = I.known_items(I.call(I.getattr(o, "collect"), [],
                                              {}))
                    return Tup([Tup([I.obj(c).cls, I.getattr(c, "ldata"),
                                     I.getattr(c, "rdata")]) for c in cs])
                for p in I.run(go2):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    got = sorted((x.items[0].name,) + tuple(map(
                        show, x.items[1:])) for x in p.val.items)
                    exp = sorted((n, show(L), show(R)) for n in (
                        "JarTypeChange", want))
                    if got != exp:
                        rep.bad(key, rule, "compares %s instead of %s" % (
                            got, exp), p.loc)

    def text(self, i, l, r):
        """text files: content as text, ignoring nothing"""
        I, rep = self.I, self.rep
        key = "DistTextChange:%d" % i
        rule = "text-compared"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            F = Files({"/left/a.txt": l, "/right/a.txt": r})
            I.hooks = F.hooks()

            def go():
                F.reset()
                o = I.call(I.get("distdiff", "DistTextChange"), [
                    Const("/left"), Const("/right"), Const("a.txt")], {})
                I.call(I.getattr(o, "check"), [], {})
                parts = []
                for c in I.known_items(I.getattr(o, "changes")) or []:
                    d = [I.call(I.getattr(c, m), [], {})
                         for m in ("get_ldata", "get_rdata")]
                    if all(isinstance(x, Const) for x in d):
                        parts.append(tuple(x.v for x in d))
                return Const((bool(I.truth(I.call(I.getattr(
                    o, "is_change"), [], {}))), tuple(parts)))

            def full(data, s):
                """the content as text, if it is text"""
                try:
                    t = data.decode("utf-8")
                except UnicodeError:
                    return True
                t = t.replace("\r\n", "\n").replace("\r", "\n")
                return s in (data, t, t.splitlines(), t.splitlines(True))

            def same(a, b):
                try:
                    return full(a, b.decode("utf-8").replace(
                        "\r\n", "\n").replace("\r", "\n"))
                except UnicodeError:
                    return a == b
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s for %r and %r" % (
                        show(p.val), l, r), p.loc)
                elif not p.val.v[0]:
                    rep.bad(key, rule, "%r and %r count as unchanged" % (
                        l, r), p.loc)
                elif not same(l, r) and not any(
                        a != b and full(l, a) and full(r, b)
                        for a, b in p.val.v[1]):
                    rep.bad(key, rule, "the texts %r and %r are not shown" % (
                        l, r), p.loc)

    def generic(self):
        """comparison of content of unknown kind"""
        I, rep = self.I, self.rep
        rule = "data-compared"
        for mod, cn in (("jardiff", "GenericFileChange"),
                        ("manifest", "SignatureBlockFileChange")):
            for same in (False, True):
                key = "%s.%s:%s" % (mod, cn, "same" if same else "different")
                with rep.guard(key, rule):
                    rep.ok(key, rule)
                    I.hooks = {}

                    def go():
                        o = I.call(I.get(mod, cn), [
                            Const(b"\x00a"),
                            Const(b"\x00a" if same else b"\xffb")], {})
                        I.call(I.getattr(o, "check"), [], {})
                        return Const(bool(I.truth(I.call(I.getattr(
                            o, "is_change"), [], {}))))
                    for p in I.run(go):
                        if p.kind == "raise":
                            rep.bad(key, rule, "raises %s" % show(p.val),
                                    p.loc)
                        elif p.val.v == same:
                            rep.bad(key, rule, "%s data is %schanged" % (
                                "equal" if same else "different",
                                "" if p.val.v else "un"), p.loc)
