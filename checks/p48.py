"""P48: listings of archives, distributions and manifests show what is asked
for."""

import re

from fractions import Fraction

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, show
from sa import gram, ops
from checks.ctree import param
from checks.jarm import arg, const, isnew, bcat
from checks.p31 import excname, Bad
from checks.p46 import World, SYM, PAT, PAT2, TMP
from checks.obj import Lines, Dict, text, num, pyval, isobj

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the command "
                 "lines over given archives whose manifests and sizes are "
                 "opaque; what is printed or dumped is compared with the "
                 "specification",
    "rule": "the files, directories and sizes shown are those of the "
            "archive, empty ones included; each attribute of each section of "
            "its manifest is shown, or that there is none; each class is "
            "shown once with the entry it comes from; the APIs shown are "
            "those of the archive or distribution but for the ignored; a "
            "query shows the value of the attribute asked for",
    "assumptions": ["larger archives and manifests are treated alike"],
}

MF = "META-INF/MANIFEST.MF"
MAIN = [("Main-Class", text("main class")), ("Created-By", text("creator"))]
SECTS = [("p/A.class", [("X-One", text("one")), ("X-Two", text("two"))]),
         ("b:c", [("X-One", text("other"))])]


class Shown(World):
    """archives with sizes and manifests; sizes: "some", or "zero" """

    def __init__(self, I, jars, tree, sizes="some", api=False, mf=None):
        World.__init__(self, I, jars, tree)
        self.sizes, self.api = sizes, api
        self.qs = {}
        self.manifests = {}
        self.listed, self.dumped = [], []
        for path, names in jars.items():
            self.manifests[bcat(self.chunks(path, MF))] = (
                "\n", *(mf or (MAIN, SECTS)))
        for p in self.files0:
            if p.endswith("/" + MF):
                self.manifests[bcat(self.chunks(p, None))] = (
                    "\n", *(mf or (MAIN, SECTS)))

    def reset(self):
        World.reset(self)
        del self.listed[:], self.dumped[:]

    def stream(self, path, name):
        if (name or path).endswith(".class"):
            return Term("new", "cs", (path, name))
        self.streams.append(self.chunks(path, name))
        return Term("new", "rs", (len(self.streams) - 1,))

    def unpack_class(self, I, f, a, kw, node):
        if isnew(arg(a, kw, 0, "data"), "rs"):
            raise Bad("reads an entry which is no class")
        return World.unpack_class(self, I, f, a, kw, node)

    def size(self, I, o, name, *r):
        if not isnew(o, "info"):
            return NotImplemented
        n = o.args[1][1]
        if self.sizes == "zero" or n.endswith("/"):
            return Const(0)
        return num("%s of %s" % (name, n))

    # sums and ratios

    def sum(self, ns):
        ns = [n for n in ns if n != Const(0)]
        if not ns:
            return 0
        v = ns[0]
        for n in ns[1:]:
            v = self.binop(self.I, "+", v, n)
        return v

    def q(self, v):
        if isinstance(v, Const) and isinstance(v.v, (int, float)) and \
                v.v == v.v:
            return Fraction(v.v), (), ()
        if isobj(v, "num"):
            return self.qs.get(v, (Fraction(1), (v.args[1][0],), ()))
        return None

    def make(self, f, n, d):
        if not n:
            return Const(int(f) if f.denominator == 1 else float(f))
        v = num("%s * (%s)%s" % (f, " + ".join(n), " / (%s)" % " + ".join(d)
                                 if d else "")) if (f, d) != (1, ()) or \
            len(n) > 1 else num(n[0])
        self.qs[v] = (f, n, d)
        return v

    def isratio(self, t):
        return isobj(t, "num") and bool(self.qs.get(t, ((), (), ()))[2])

    def ratio(self, a, b):
        return self.binop(self.I, "*", self.binop(self.I, "/", a, b),
                          Const(100))

    def binop(self, I, op, a, b):
        if isobj(a, "num") or isobj(b, "num"):
            x, y = self.q(a), self.q(b)
            if x is not None and y is not None:
                f, n, d = x
                g, m, e = y
                if op == "+" and (f, d) == (g, e) or op == "+" and (
                        f == 0 or g == 0):
                    if f == 0:
                        return b
                    if g == 0:
                        return a
                    return self.make(f, tuple(sorted(n + m)), d)
                if op == "*" and (not m or not n):
                    return self.make(f * g, n or m, d or e)
                if op == "/" and not d and not e:
                    if g == 0:
                        I.throw("ZeroDivisionError")
                    if n:
                        return self.make(f / g, n, m)
        return World.binop(self, I, op, a, b)

    def float(self, I, f, a, kw, node):
        if isobj(a[0], "num"):
            return a[0]
        return NotImplemented

    def lt(self, I, x, y):
        if isinstance(x, Const) and x.v == 0 and isobj(y, "num"):
            return True
        if isinstance(y, Const) and y.v in (0, 1) and isobj(x, "num"):
            return False
        return World.lt(self, I, x, y)

    def getsize(self, I, f, a, kw, node):
        p = self.place(const(a[0]))
        return num("size of " + p)

    def listing(self, I, f, a, kw, node):
        self.listed.append(arg(a, kw, 1, "info"))
        I.emit("print", None, [Term("new", "text", ("listing of %s" % (
            ":".join(x for x in self.listed[-1].args[1] if x)),))])
        return NONE

    def dump(self, I, f, a, kw, node):
        self.dumped.append(pyval(I, a[0]))
        return NONE

    def syms(self, I, c, on, ign):
        if self.api:
            return World.syms(self, I, c, on, ign)
        return I.newlist([])

    def member(self, I, c, what):
        return World.member(self, I, c, what) if self.api else False

    def hooks(self):
        h = World.hooks(self)
        h.update({"classinfo.cli_print_classinfo": self.listing,
                  "ext:json.dump": self.dump,
                  "ext:builtins.float": self.float,
                  "binop": self.binop, "lt": self.lt,
                  "ext:os.path.getsize": self.getsize,
                  "attr:file_size": self.size,
                  "attr:compress_size": self.size})
        return h


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 30
    I.MAXREC = 8
    rep.expect = 75

    def go(W, mod, args):
        def thunk():
            W.reset()
            I.hooks = W.hooks()
            try:
                r = I.call(I.get(mod, "main"), [I.newlist(
                    [Const(mod)] + [Const(x) for x in args])], {})
            except PyExc as e:
                raise Bad("fails with %s" % excname(I, e.val)[:150])
            if r not in (NONE, Const(0)):
                raise Bad("has status %s" % show(r))
            return Const((tuple(W.listed), tuple(W.dumped), tuple(W.log)))
        return I.run(thunk)

    def case(key, W, mod, args, judge):
        rule = "listing"
        with rep.guard(key, rule):
            try:
                n = 0
                for p in go(W, mod, args):
                    if p.kind != "normal":
                        raise Undecided(p.kind)
                    n += 1
                    judge(W, p)
                if not n:
                    raise Undecided("no path")
            except Bad as e:
                rep.bad(key, rule, str(e))
            else:
                rep.ok(key, rule)

    def truth(p, name):
        return gram.known(I, p.st, ops.cond_truth(param(name)))

    def flat(L):
        return [tuple(t for t in l if not (isinstance(t, str) and
                                           not t.strip())) for l in L.lines]

    def strs(l):
        return "".join(t if isinstance(t, str) else str(t) if isinstance(
            t, int) else " " for t in l)

    def zipinfo(W, p, names, sizes):
        files = [n for n in names if n[-1] != "/"]
        dirs = [n for n in names if n[-1] == "/"]
        comp, full = sizes(files, "compress_size"), sizes(files, "file_size")
        L = flat(Lines(p.events))
        for v, w in ((full, "uncompressed"), (comp, "compressed")):
            ls = [l for l in L if w in strs(l).lower().split()]
            if len(ls) != 1:
                raise Bad("shows the %s size %d times" % (w, len(ls)))
            if v not in ls[0] and not (v == 0 and re.findall(
                    r"[\d.]+", strs(ls[0]))[:1] == ["0"]):
                raise Bad("shows %s as the %s size" % (
                    ", ".join(show(t) for t in ls[0] if not isinstance(
                        t, str)) or strs(ls[0]), w))
        percent(W, [t for l in L for t in l if W.isratio(t)], comp, full)
        text = "\n".join(strs(l) for l in L)
        for n, w in ((len(files), "files?"), (len(dirs), "director(?:y|ies)")):
            got = re.findall(r"(\d+) %s\b|\b%s: *(\d+)" % (w, w), text,
                             re.I)
            if len(got) != 1:
                raise Undecided("number of %s" % w)
            if int("".join(got[0])) != n:
                raise Bad("counts %s %s instead of %d" % (
                    "".join(got[0]), w.split("(")[0].rstrip("?"), n))

    def percent(W, ts, comp, full):
        for t in ts:
            if comp == 0:
                raise Bad("shows a ratio of sizes which are zero")
            if t != W.ratio(comp, full):
                raise Bad("shows a wrong percentage %s" % t.args[1][0])

    def zipjson(W, p, names, sizes):
        files = [n for n in names if n[-1] != "/"]
        d = data(p)
        want = {"zip.file_count": len(files),
                "zip.dir_count": len(names) - len(files),
                "zip.uncompressed_size": sizes(files, "file_size"),
                "zip.compressed_size": sizes(files, "compress_size")}
        for k, v in sorted(want.items()):
            if d.get(k) != v:
                raise Bad("%s is %s instead of %s" % (k, d.get(k), v))
        r = d.get("zip.compress_percent")
        comp = want["zip.compressed_size"]
        if isobj(r):
            percent(W, [r], comp, want["zip.uncompressed_size"])
        elif not isinstance(r, (int, float)) or r != r or comp != 0:
            raise Bad("the percentage is %s" % (r,))

    def data(p):
        if len(p.val.v[1]) != 1:
            raise Bad("dumps %d values" % len(p.val.v[1]))
        if Lines(p.events).lines:
            raise Bad("prints something else than JSON")
        d = p.val.v[1][0]
        if not isinstance(d, Dict):
            raise Bad("dumps %s" % (d,))
        dumpable(d)
        return d

    def dumpable(d):
        if isinstance(d, tuple):
            if d[:1] == ("other",):
                raise Bad("a %s cannot be dumped" % (d[1],))
            for x in d:
                dumpable(x)
        elif isinstance(d, bytes):
            raise Bad("bytes cannot be dumped")

    def total(W):
        def f(files, what):
            ns = [W.size(I, Term("new", "info", ("", n)), what)
                  for n in files]
            return W.sum(ns)
        return f

    def exploded(W):
        def f(files, what):
            return W.sum([num("size of /cwd/d/" + n) for n in files])
        return f

    def manifest(W, p, main, sects):
        L = flat(Lines(p.events))
        # the sections begin where a line without value is
        groups = [[]]
        for l in L:
            if not [t for t in l if isinstance(t, Term)] and not any(
                    "Name" in t for t in l if isinstance(t, str)):
                groups.append([])
            else:
                groups[-1].append(l)
        groups = [g for g in groups if g]
        want = [main] + [[("Name", n)] + a for n, a in sects]
        for a in want:
            for k, v in a:
                n = [l for g in groups for l in g if v in l and any(
                    isinstance(t, str) and t.strip().rstrip(":").strip() == k
                    for t in l) or isinstance(v, str) and
                    strs(l).replace(" ", "") == "%s:%s" % (k, v)]
                if len(n) != 1:
                    raise Bad("shows %s of the manifest %d times" % (
                        k, len(n)))
        got = [sorted(str([t for t in l]) for l in g) for g in groups]
        for a in want:
            if not any(len(g) == len(a) and all(any(
                    v in l or isinstance(v, str) and v in strs(l)
                    for l in g) for k, v in a) for g in groups):
                raise Bad("does not show the attributes %s together" %
                          ", ".join(k for k, v in a))
        if len(got) != len([a for a in want if a]):
            raise Bad("shows %d sections instead of %d" % (
                len(got), len(want)))

    def nomanifest(W, p):
        for l in flat(Lines(p.events)):
            if any(isinstance(t, Term) for t in l):
                raise Bad("shows %s" % strs(l))

    def classes(places):
        def judge(W, p):
            if sorted(x.args[1] for x in p.val.v[0]) != sorted(places):
                raise Bad("lists %s" % (", ".join(
                    ":".join(y for y in x.args[1] if y)
                    for x in p.val.v[0]) or "nothing"))
            last = None
            n = 0
            for l in flat(Lines(p.events)):
                for t in l:
                    if isinstance(t, Term):
                        want = t.args[1][0][len("listing of "):]
                        if last is None or want.split(":")[-1].split(
                                "/cwd/d/")[-1] not in last:
                            raise Bad("does not name the entry of %s" % want)
                        last = None
                        n += 1
                    elif t.strip():
                        last = t
            if n != len(places):
                raise Bad("%d listings" % n)
        return judge

    J = "/cwd/j.jar"
    NAMES = [MF, "p/", "p/A.class", "x", "e", "q/r/", "q/r/B.class", "q/class"]
    KINDS = [("an archive", lambda **kw: Shown(I, {J: NAMES}, ["j.jar"],
                                               **kw), "j.jar"),
             ("an exploded archive", lambda **kw: Shown(
                 I, {}, ["d/" + n for n in NAMES], **kw), "d")]
    for kn, mk, f in KINDS:
        W = mk()
        names = NAMES if f != "d" else NAMES + ["META-INF/", "q/"]
        size = total(W) if f != "d" else exploded(W)
        case("sizes of %s" % kn, W, "jarinfo", ["--zip", f],
             lambda W, p, n=names, s=size: zipinfo(W, p, n, s))
        case("sizes of %s as JSON" % kn, W, "jarinfo", ["--zip", "--json", f],
             lambda W, p, n=names, s=size: zipjson(W, p, n, s))
        case("sizes of %s, verbose" % kn, W, "jarinfo", ["--verbose", f],
             lambda W, p, n=names, s=size: zipinfo(W, p, n, s))
        W = mk()
        case("manifest of %s" % kn, W, "jarinfo", ["--manifest", f],
             lambda W, p: manifest(W, p, MAIN, SECTS))
        W = mk(mf=(MAIN, []))
        case("manifest without sections of %s" % kn, W, "jarinfo",
             ["--manifest", f], lambda W, p: manifest(W, p, MAIN, []))
        W = mk()
        base = [(J, "p/A.class"), (J, "q/r/B.class")] if f != "d" else [
            ("/cwd/d/p/A.class", None), ("/cwd/d/q/r/B.class", None)]
        case("classes of %s" % kn, W, "jarinfo", ["--jar-classes", f],
             classes(base))
    EMPTY = [("an empty archive", {J: []}, ["j.jar"], "j.jar", []),
             ("an archive of empty files", {J: ["x", "y/"]}, ["j.jar"],
              "j.jar", ["x", "y/"]),
             ("an empty directory", {}, ["d/"], "d", [])]
    for kn, jars, tree, f, names in EMPTY:
        W = Shown(I, jars, tree, "zero")
        case("sizes of %s" % kn, W, "jarinfo", ["--zip", f],
             lambda W, p, n=names: zipinfo(W, p, n, lambda a, b: 0))
        case("sizes of %s as JSON" % kn, W, "jarinfo", ["--zip", "--json", f],
             lambda W, p, n=names: zipjson(W, p, n, lambda a, b: 0))
        case("manifest of %s" % kn, W, "jarinfo", ["--manifest", f],
             nomanifest)
        case("classes of %s" % kn, W, "jarinfo", ["--jar-classes", f],
             classes([]))

    # APIs

    def apis(entries, what, ign, json, prefix):
        def judge(W, p):
            if json:
                d = data(p)
                for w in ("provides", "requires"):
                    k = "%s.%s" % (prefix, w)
                    if (d.get(k) is None) != (w != what):
                        raise Bad("%s is %s" % (k, d.get(k)))
                d = dict(d.get("%s.%s" % (prefix, what)))
                got = list(d)
                for k, es in d.items():
                    for e in es:
                        if not isinstance(e, tuple) or e[1] not in entries:
                            raise Bad("%s is in %s" % (k, e))
            else:
                got = [strs(l).strip() for l in flat(Lines(p.events))]
                got = [g for g in got if g and g[-1] != ":"]
            if len(set(got)) != len(got):
                raise Bad("lists a symbol twice")
            places = entries.values()
            names = [w + c for c in places
                     for w in ("requires ", "private ", "public ")]
            names += ["ignored " + SYM, "ignored other.A"]
            from itertools import product
            known = [truth(p, n) for n in names]
            for w in product(*[(True, False) if k is None else (k,)
                               for k in known]):
                w = dict(zip(names, w))
                want = set("other." + e.split("/")[-1] for e in entries) \
                    if what == "provides" else {"other.A"}
                if what == "provides":
                    has = any(w["private " + c] and w["public " + c]
                              for c in places)
                else:
                    has = any(w["requires " + c] for c in places) and \
                        not any(w["private " + c] for c in places)
                if has:
                    want.add(SYM)
                if ign:
                    want -= {x for x in (SYM, "other.A")
                             if w["ignored " + x]}
                if set(got) != want:
                    raise Bad("lists %s instead of %s" % (
                        ", ".join(sorted(got)), ", ".join(sorted(want))))
        return judge
    jc = {"p/A.class": J + ":p/A.class", "q/r/B.class": J + ":q/r/B.class"}
    dc = {n: "/cwd/d/" + n for n in jc}
    tc = {n: TMP + "/" + n for n in jc}
    Z = "/cwd/d.zip"
    for name, mod, f, entries, jars, tree, pre in (
            ("an archive", "jarinfo", "j.jar", jc, {J: NAMES}, ["j.jar"],
             "jar"),
            ("an exploded archive", "jarinfo", "d", dc, {},
             ["d/" + n for n in NAMES], "jar"),
            ("a distribution", "distinfo", "d", dc, {},
             ["d/" + n for n in NAMES], "dist"),
            ("a packed distribution", "distinfo", "d.zip", tc, {Z: NAMES},
             ["d.zip"], "dist")):
        W = Shown(I, jars, tree, api=True)
        for what in ("provides", "requires"):
            for ign in (False, True):
                for json in (False, True):
                    args = ["--%s-%s" % (pre, what)]
                    if ign:
                        args += ["--api-ignore", PAT, "--api-ignore", PAT2]
                    if json:
                        args.append("--json")

                    def judge(W, p, j=apis(entries, what, ign, json, pre)):
                        j(W, p)
                        log = p.val.v[2]
                        if ("mkdtemp",) in log and \
                                ("rmtree", TMP) not in log:
                            # unless they are when it is collected
                            raise Undecided("files extracted are left")
                    case("%s of %s%s%s" % (what, name, ", ignoring" if ign
                                           else "", " as JSON" if json else
                                           ""), W, mod, args + [f], judge)

    # several archives, several things at once
    J2 = "/cwd/k.jar"
    W = Shown(I, {J: NAMES, J2: ["Z.class", "y"]}, ["j.jar", "k.jar"])
    case("classes of several archives", W, "jarinfo",
         ["--jar-classes", "k.jar", "j.jar"],
         classes([(J, "p/A.class"), (J, "q/r/B.class"), (J2, "Z.class")]))

    def counts(W, p):
        got = [d.get("zip.file_count") for d in p.val.v[1]
               if isinstance(d, Dict)]
        want = [2, len([n for n in NAMES if n[-1] != "/"])]
        if got != want:
            raise Bad("counts %s files instead of %s" % (got, want))
    case("sizes of several archives as JSON", W, "jarinfo",
         ["--zip", "--json", "k.jar", "j.jar"], counts)
    W = Shown(I, {J: NAMES}, ["j.jar"])
    case("sizes of an archive as JSON, verbose", W, "jarinfo",
         ["--verbose", "--json", "j.jar"],
         lambda W, p: zipjson(W, p, NAMES, total(W)))
    for mod, pre, f in (("jarinfo", "jar", "j.jar"),
                        ("distinfo", "dist", "d")):
        jars, tree = ({J: NAMES}, ["j.jar"]) if pre == "jar" else (
            {}, ["d/" + n for n in NAMES])

        def both(W, p, pre=pre, json=False):
            if json:
                d = data(p)
                got = [k for w in ("provides", "requires")
                       for k, _v in d.get("%s.%s" % (pre, w)) or ()]
            else:
                got = [strs(l).strip() for l in flat(Lines(p.events))]
                got = [g for g in got if g and g[-1] != ":"]
            want = ["other.A", "other.A.class", "other.B.class"]
            if sorted(set(got) - {SYM}) != want:
                raise Bad("lists %s" % (", ".join(got) or "nothing"))
        for json in (False, True):
            case("APIs of %s, both%s" % (pre, " as JSON" if json else ""),
                 Shown(I, jars, tree, api=True), mod,
                 ["--%s-requires" % pre, "--%s-provides" % pre] +
                 ["--json"] * json + [f],
                 lambda W, p, b=both, j=json: b(W, p, json=j))

    # queries

    def answers(qs):
        def judge(W, p):
            L = [l for l in flat(Lines(p.events)) if l]
            if len(L) != len(qs):
                raise Bad("%d answers" % len(L))
            for l, (q, v) in zip(L, qs):
                s = strs(l)
                if not s.startswith(q):
                    raise Bad("answers %r to %s" % (s, q))
                ts = [t for t in l if isinstance(t, Term)]
                if v is None and ts or v is not None and not (
                        ts == [v] or isinstance(v, str) and not ts and
                        s[len(q):].strip(" =") == v):
                    raise Bad("answers %s to %s instead of %s" % (
                        ", ".join(map(show, ts)) or s, q, show(v)))
        return judge
    one = [("Main-Class", MAIN[0][1]), ("X-One", None), ("X", None),
           ("main-class", None),
           ("p/A.class:X-One", SECTS[0][1][0][1]),
           ("p/A.class:X-Two", SECTS[0][1][1][1]),
           ("p/A.class:Main-Class", None), ("p/B.class:X-One", None),
           ("b:c:X-One", SECTS[1][1][0][1]), ("b:c:X-Two", None),
           ("p/A.class:Name", "p/A.class"), ("b:X-One", None)]
    for q in one:
        if q[0] != "main-class":
            case("query %s" % q[0], Shown(I, {J: NAMES}, ["j.jar"]),
                 "manifest", ["q", "j.jar", q[0]], answers([q]))
    case("queries", Shown(I, {J: NAMES}, ["j.jar"]), "manifest",
         ["q", "j.jar", "p/A.class:X-Two", "Created-By", "Main-Class"],
         answers([("p/A.class:X-Two", SECTS[0][1][1][1]),
                  ("Created-By", MAIN[1][1]), ("Main-Class", MAIN[0][1])]))
    rep.cover(I)
