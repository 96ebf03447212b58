"""P19: the ignore options ignore exactly what they name."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ref, Ext, HInst, HList, \
    Item, show
from sa import ops, gram
from checks.p01 import nrm
from checks.ctree import param, Kids
from checks.texts import Files, TEXTS

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of every "
                 "is_ignored over symbolic options, versions, entries and "
                 "child changes, and of the option declarations over a model "
                 "of argparse; every path is compared with the specification "
                 "in all worlds its conditions admit",
    "rule": "a change is ignored exactly if the options named after it are "
            "set (versions: in the direction named; entries: if one of the "
            "patterns matches; manifest keys: if all differing keys are "
            "among them, in any case), or it is composite and all its "
            "changed parts are; each option of the command lines sets "
            "exactly the values it names",
    "assumptions": ["argparse stores what its documentation says",
                    "fnmatch decides whether a pattern matches"],
}

OPT = param("OPTIONS")


def opt(n):
    return Term("attr", OPT, n)


def has(n):
    return Term("hasattr", OPT, n)


class Var(object):
    """boolean variables, decided by the conditions of a path"""

    def __init__(self, I, p):
        self.I, self.p = I, p

    def get(self, name):
        if name.startswith("opt:"):
            h = gram.known(self.I, self.p.st, (has(name[4:]), True))
            if h is False:
                return False
            return gram.known(self.I, self.p.st,
                              ops.cond_truth(opt(name[4:])))
        return gram.known(self.I, self.p.st, ops.cond_truth(param(name)))


def judge(rep, key, rule, I, p, names, want, describe=None):
    if p.kind == "raise":
        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
        return
    V = Var(I, p)
    ks = [V.get(n) for n in names]
    for w in product((False, True), repeat=len(names)):
        if any(k is not None and k != v for k, v in zip(ks, w)):
            continue
        d = dict(zip(names, w))
        x = want(d)
        if x is None or x == p.val.v:
            continue
        rep.bad(key, rule, "%s if %s" % (
            "ignored" if p.val.v else "not ignored", ", ".join(
                "%s%s" % ("" if v else "not ", n)
                for n, v in sorted(d.items()))), p.loc)
        return


LEAVES = {
    "ignore_deprecated": ["ClassDeprecationChange", "MethodDeprecationChange",
                          "FieldDeprecationChange"],
    "ignore_absolute_lines": ["CodeAbsoluteLinesChange"],
    "ignore_relative_lines": ["CodeRelativeLinesChange"],
    "ignore_pool": ["ClassConstantPoolChange"],
    "ignore_added": ["FieldAdded", "MethodAdded"],
    None: ["ClassNameChange", "ClassSuperclassChange",
           "ClassInterfacesChange", "ClassAccessflagsChange",
           "ClassSignatureChange", "MethodNameChange", "MethodTypeChange",
           "MethodParametersChange", "MethodSignatureChange",
           "MethodAccessflagsChange", "MethodExceptionsChange",
           "FieldNameChange", "FieldTypeChange", "FieldSignatureChange",
           "FieldAccessflagsChange", "FieldConstvalueChange",
           "CodeStackChange", "CodeLocalsChange", "CodeExceptionChange",
           "CodeConstantsChange", "CodeBodyChange", "FieldRemoved",
           "MethodRemoved"],
}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12

    def cls(mod, n):
        c = I.get(mod, n)
        if not isinstance(c, Cls):
            raise Undecided("no class %s" % n)
        return c

    def ignored(o):
        r = I.call(I.getattr(o, "is_ignored"), [OPT], {})
        return Const(bool(I.truth(r)))
    # single changes
    rule = "ignored-by-its-option"
    for o, names in LEAVES.items():
        for n in names:
            try:
                c = cls("classdiff", n)
            except Exception:
                continue
            key = "classdiff.%s" % n
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = {}
                for p in I.run(lambda: ignored(I.syminst(c, "CHANGE"))):
                    judge(rep, key, rule, I, p, ["opt:" + o] if o else [],
                          lambda d: any(d.values()))
    versions(rep, I, cls, ignored)
    composites(rep, I, cls, ignored, tier)
    texts(rep, I, cls, ignored)
    manifests(rep, I, cls)
    from checks.p19opts import options
    options(rep, I, prog)
    rep.cover(I)
    rep.expect = 40


def versions(rep, I, cls, ignored):
    rule = "ignored-by-direction"
    for n, up, down in (
            ("ClassVersionChange", "ignore_version_up",
             "ignore_version_down"),
            ("ClassPlatformChange", "ignore_platform_up",
             "ignore_platform_down")):
        for l, r in product((0, 1, 2), repeat=2):
            if l == r:
                continue
            key = "classdiff.%s:%d-%d" % (n, l, r)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                ver = {"L": Tup([Const(49 + l), Const(0)]),
                       "R": Tup([Const(49 + r), Const(0)])}
                if l and r:
                    # the minor version decides
                    ver = {"L": Tup([Const(50), Const(l)]),
                           "R": Tup([Const(50), Const(r)])}
                L, R = param("L"), param("R")

                def attr(I_, o, a):
                    if o in (L, R):
                        return ver[o.args[0]]
                    return NotImplemented

                def go():
                    c = cls("classdiff", n)
                    return ignored(I.call(c, [L, R], {}))
                I.hooks = {"attr:version": attr}
                for p in I.run(go):
                    judge(rep, key, rule, I, p, ["opt:" + up, "opt:" + down],
                          lambda d: d["opt:" + up] and l < r or
                          d["opt:" + down] and l > r)


def composites(rep, I, cls, ignored, tier):
    rule = "ignored-by-option-or-parts"
    N = 2
    sig = [("jardiff", "JarSignature%s%s" % (b, s)) for b in
           ("File", "BlockFile") for s in ("Change", "Added", "Removed")]
    content = [("jardiff", x) for x in (
        "JarContentChange", "JarContentAdded", "JarContentRemoved",
        "JarClassChange", "JarClassAdded", "JarClassRemoved",
        "JarManifestChange", "JarGenericFileChange", "JarClassReport")]
    dist = [("distdiff", x) for x in (
        "DistContentChange", "DistContentAdded", "DistContentRemoved",
        "DistManifestChange", "DistJarChange",
        "DistJarAdded", "DistJarRemoved", "DistClassChange", "DistClassAdded",
        "DistClassRemoved", "DistJarReport", "DistClassReport")]
    mans = [("manifest", "ManifestChange"),
            ("manifest", "SignatureManifestChange")]
    other = [("classdiff", x) for x in (
        "JavaClassChange", "ClassInfoChange", "ClassFieldsChange",
        "ClassMethodsChange", "FieldChange", "MethodChange",
        "MethodCodeChange", "JavaClassReport")] + [
        ("jardiff", "JarChange"), ("jardiff", "JarContentsChange"),
        ("jardiff", "JarReport"), ("jardiff", "JarContentsReport"),
        ("distdiff", "DistChange"), ("distdiff", "DistReport")]
    ENTRY = param("ENTRY")
    # the names of entries are not empty, and neither are the patterns
    P = [Term("new", "P0"), Term("new", "P1")]

    def matches(I_, f, a, kw, node):
        if a[0] == ENTRY and a[1] in P:
            return param("M%d" % P.index(a[1]))
        return param("whether %s matches %s" % (show(a[0]), show(a[1])))

    for mod, n in sig + content + dist + mans + other:
        key = "%s.%s" % (mod, n)
        with rep.guard(key, rule):
            c = cls(mod, n)
            rep.ok(key, rule)
            for k in range(N + 1):
                K = Kids(I, k, OPT)
                H = K.hooks()
                for q in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
                    H["ext:" + q] = matches
                names = []
                if (mod, n) in sig + content:
                    H["attr:ignore_jar_entry"] = lambda *a: Tup(P)
                    names = ["M0", "M1"]
                if (mod, n) in dist:
                    H["attr:ignore_filenames"] = lambda *a: Tup(P)
                    names = ["M0", "M1"]
                alone = []
                if (mod, n) in sig or n == "SignatureManifestChange":
                    alone.append("opt:ignore_jar_signature")
                if n == "ManifestChange":
                    alone.append("opt:ignore_manifest")
                kids = ["C%d" % i for i in range(k)] + [
                    "G%d" % i for i in range(k)]
                always = n.endswith(("Added", "Removed"))
                I.hooks = H

                def go(state):
                    K.reset()
                    for i in range(k):
                        K.log.append(("check", i))
                    o = I.syminst(c, "CHANGE", attrs={
                        "entry": ENTRY, "changed": Const(state),
                        "changes": Tup(K.terms)})
                    return ignored(o)

                def want(d, state):
                    if any(d[x] for x in names + alone):
                        return True
                    cs = [i for i in range(k) if d["C%d" % i]]
                    if state != bool(cs) and k and not always:
                        return None
                    return bool(k) and (state or always) and \
                        all(d["G%d" % i] for i in cs)
                for state in (True, False):
                    for p in I.run(lambda: go(state)):
                        judge(rep, key, rule, I, p,
                              names + alone + kids,
                              lambda d: want(d, state))


def texts(rep, I, cls, ignored):
    """text files by their content"""
    rule = "text-ignored-by-content"
    ENTRY = Const("a.txt")
    P = [Term("new", "P0")]

    def matches(I_, f, a, kw, node):
        if a[0] == ENTRY and a[1] in P:
            return param("M0")
        return param("whether %s matches %s" % (show(a[0]), show(a[1])))
    for i, (l, r, only) in enumerate(TEXTS):
        key = "distdiff.DistTextChange:%d" % i
        with rep.guard(key, rule):
            rep.ok(key, rule)
            F = Files({"/left/a.txt": l, "/right/a.txt": r})
            I.hooks = dict(F.hooks())
            for q in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
                I.hooks["ext:" + q] = matches
            I.hooks["attr:ignore_filenames"] = lambda *a: Tup(P)

            def go():
                F.reset()
                o = I.call(cls("distdiff", "DistTextChange"), [
                    Const("/left"), Const("/right"), ENTRY], {})
                I.call(I.getattr(o, "check"), [], {})
                return ignored(o)
            for p in I.run(go):
                judge(rep, key, rule, I, p,
                      ["M0", "opt:ignore_trailing_whitespace"],
                      lambda d: d["M0"] or
                      only and d["opt:ignore_trailing_whitespace"])


SECTION = [
    # left, right: values by key, as names of symbols
    ({"Name": "n", "Key-One": "a"}, {"Name": "n", "Key-One": "b"}),
    ({"Name": "n", "Key-One": "a", "key-two": "c"},
     {"Name": "n", "Key-One": "a", "KEY-Three": "d"}),
    ({"Name": "n", "Key-One": "a", "key-two": "c"},
     {"Name": "n", "Key-One": "b", "key-two": "d"}),
]
KEYS = ([], ["Key-One"], ["KEY-ONE"], ["key-one", "KEY-TWO"],
        ["Key-Two", "key-three"], ["key-two"], ["other"],
        ["key-one", "key-two", "key-three"])


def manifests(rep, I, cls):
    rule = "ignored-by-key"
    for n in ("ManifestMainChange", "ManifestSectionChange"):
        for i, (l, r) in enumerate(SECTION):
            for j, keys in enumerate(KEYS):
                key = "manifest.%s:%d:%s" % (n, i, ",".join(keys) or "none")
                diff = {k.lower() for k in set(l) | set(r)
                        if l.get(k) != r.get(k)}
                inside = bool(keys) and diff <= {k.lower() for k in keys}
                with rep.guard(key, rule):
                    rep.ok(key, rule)

                    def go():
                        sides = []
                        for d in (l, r):
                            s = I.call(cls("manifest", "ManifestSection"),
                                       [Const(d["Name"])], {})
                            for k, v in d.items():
                                I.call(I.getattr(s, "__setitem__"),
                                       [Const(k), Const(v)], {})
                            sides.append(s)
                        c = I.call(cls("manifest", n), sides, {})
                        I.setattr(c, "changed", Const(True))
                        r_ = I.call(I.getattr(c, "is_ignored"), [OPT], {})
                        return Const(bool(I.truth(r_)))
                    I.hooks = {
                        "attr:ignore_manifest_key": lambda *a: I.alloc(
                            HList("list", [Item(Const(k)) for k in keys]))}
                    sub = n == "ManifestSectionChange"
                    names = ["opt:ignore_manifest_subsections"] if sub else []
                    for p in I.run(go):
                        h = gram.known(I, p.st,
                                       (has("ignore_manifest_key"), True))
                        w = inside and h is not False
                        judge(rep, key, rule, I, p, names,
                              lambda d: any(d.values()) or w)
    rule = "ignored-by-its-option"
    for n in ("ManifestSectionAdded", "ManifestSectionRemoved"):
        key = "manifest.%s" % n
        with rep.guard(key, rule):
            rep.ok(key, rule)
            c = cls("manifest", n)
            I.hooks = {}

            def go2():
                r_ = I.call(I.getattr(I.syminst(c, "CHANGE"), "is_ignored"),
                            [OPT], {})
                return Const(bool(I.truth(r_)))
            for p in I.run(go2):
                judge(rep, key, rule, I, p,
                      ["opt:ignore_manifest_subsections"],
                      lambda d: any(d.values()))
