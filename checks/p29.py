"""P29: signing writes consistent signature files and keeps the content."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, show
from checks.p01 import nrm
from checks.ctree import param
from checks.jarm import (Jars, arg, const, content, b64, bcat, plain, ALGS)
from checks.argp import Argv

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over archives and "
                 "manifests with symbolic content, digests and signatures "
                 "being uninterpreted; what is written is compared with the "
                 "specification as a term",
    "rule": "the archive written starts with the manifest, signature file "
            "and signature block, followed by each other entry unchanged; "
            "the manifest keeps its attributes and holds the digest of every "
            "entry, the signature file the digests of the manifest as "
            "written, and the block is made over the signature file as "
            "written; the output is replaced only by the completed archive",
    "assumptions": ["archives of other shapes than those explored are "
                    "treated alike", "zipfile, shutil and M2Crypto do what "
                    "their documentation says"],
}

MF = "META-INF/MANIFEST.MF"
SIZES = ("RSA", "DSA", "EC")

# entries of the original archive besides the manifest
JARS = {
    "one entry": ["a"],
    "no other entry": [],
    "entries and directories": ["META-INF/", "META-INF/services/x", "d/",
                                "d/a", "b"],
    "signed by the same alias": ["META-INF/AL.SF", "META-INF/AL.RSA", "a"],
    "signed by the alias in lower case": ["META-INF/al.sf",
                                          "META-INF/al.dsa", "a"],
    "signed by the alias, another key": ["META-INF/AL.SF", "META-INF/AL.EC",
                                         "META-INF/AL.DSA", "a"],
    "signed by another alias": ["META-INF/OTHER.SF", "META-INF/OTHER.RSA",
                                "a"],
    "names like those of signatures": ["AL.SF", "d/META-INF/AL.RSA",
                                       "META-INF/d/AL.SF", "META-INF/AL.txt",
                                       "d/" + MF, "META-INF/AL"],
}

# original manifests: (main attributes, sections)
MANIFESTS = {
    "bare": ([], []),
    "attributes": ([("Main-Class", param("MAINCLASS")),
                    ("Created-By", param("BY"))],
                   [("a", [("Sealed", param("SEALED"))])]),
    "digests": ([("X", param("X"))],
                [("a", [("Content-Type", param("CT")),
                        ("SHA1-Digest", param("OLD1")),
                        ("MD5-Digest", param("OLD2")),
                        ("SHA-256-Digest", param("OLD3"))]),
                 ("b", [("SHA-256-Digest", param("OLD4"))])]),
    "section without entry": ([], [("gone", [("Y", param("Y"))]),
                                   ("pkg/", [("Sealed", param("Z"))])]),
}


def skipped(n):
    u = n.upper()
    if u == MF or u.endswith("/"):
        return True
    p = u.split("/")
    if len(p) != 2 or p[0] != "META-INF":
        return False
    return p[1].startswith("SIG-") or p[1].rpartition(".")[1:] in [
        (".", x) for x in ("SF", "RSA", "DSA", "EC")]


def parts(v):
    if isinstance(v, Term) and v.op == "cat":
        return list(v.args)
    return [v]


def sections(v, sep):
    """[[(key, value)]] of a serialised manifest"""
    out, cur = [], []
    for x in parts(v):
        if isinstance(x, Term) and x.op == "kv":
            if x.args[2] != Const(sep):
                raise Undecided("line separator %s" % show(x.args[2]))
            cur.append((x.args[0], x.args[1]))
        elif x == Const(sep.encode()):
            out.append(cur)
            cur = []
        else:
            raise Undecided("part of a manifest: %s" % show(x)[:100])
    if cur:
        raise Undecided("unterminated section")
    return out


def data(sect, sep):
    return bcat([Term("kv", k, v, Const(sep)) for k, v in sect] +
                [Const(sep.encode())])


class Problem(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Problem(text)


class Signing(object):
    def __init__(self, I, names, manifest, sep, keytype="RSA", fault=None):
        self.I = I
        main, sects = manifest
        self.names, self.main, self.sects, self.sep = names, main, sects, sep
        self.keytype, self.fault = keytype, fault
        self.J = Jars(I, {"x.jar": names}, {
            content("x.jar", MF): (sep, main, sects)})
        self.calls = []

    def hooks(self):
        I = self.I
        h = self.J.hooks()
        TMP = Term("new", "tmpfile", ())

        def fault(n):
            if self.fault and self.fault[0] == n:
                raise PyExc(I.call(I.get(*self.fault[1]), [], {}), I.loc())

        def keytype(I, f, a, kw, node):
            self.calls.append(("type", nrm(I, I.st, arg(
                a, kw, 0, "key_file"))))
            fault("type")
            return Const(self.keytype)

        def block(I, f, a, kw, node):
            v = [arg(a, kw, i, n, None) for i, n in enumerate((
                "openssl_digest", "certificate", "private_key",
                "extra_certs", "data"))]
            extra = v[3]
            if extra != NONE:
                xs = I.known_items(extra)
                v[3] = Tup(xs) if xs is not None else extra
            v = [nrm(I, I.st, x) for x in v]
            self.calls.append(("block", tuple(v)))
            fault("block")
            return param("SIGBLOCK")

        def copy(I, f, a, kw, node):
            self.J.log.append(("copy", nrm(I, I.st, arg(a, kw, 0, "src")),
                               nrm(I, I.st, arg(a, kw, 1, "dst"))))
            return NONE

        def name(I, o, n, *r):
            if o == TMP:
                return Const("/tmp/new")
            return NotImplemented
        h.update({"crypto.private_key_type": keytype,
                  "crypto.create_signature_block": block,
                  "ext:shutil.copyfile": copy, "ext:shutil.copy": copy,
                  "ext:shutil.move": copy, "ext:os.rename": copy,
                  "ext:os.replace": copy,
                  "ext:tempfile.NamedTemporaryFile": lambda *a: TMP,
                  "attr:name": name})
        return h

    def run(self, args, kw):
        I = self.I
        I.hooks = self.hooks()

        def thunk():
            self.J.reset()
            self.calls[:] = []
            exc = None
            try:
                I.call(I.get("jarutil", "sign"), args, kw)
            except PyExc as e:
                exc = show(e.val)
            return Const((exc, tuple(self.J.log), tuple(self.calls)))
        for p in I.run(thunk):
            yield p.val.v


def replaced(n, alias):
    u = n.upper()
    return u == MF or u in [("META-INF/%s.%s" % (alias, e)).upper()
                            for e in ("SF", "RSA", "DSA", "EC")]


def verify(s, log, calls, alg, out, extra, alias="AL"):
    tmp = [x for x in log if x[0] == "create"]
    need(len(tmp) == 1, "%d archives are written" % len(tmp))
    tmp = tmp[0][1]
    copies = [x for x in log if x[0] == "copy"]
    if tmp in (Const("/tmp/new"), Term("new", "tmpfile", ())):
        need([x[2] for x in copies] == [Const(out)],
             "the result is copied to %s" % [show(x[2]) for x in copies])
        if copies[0][1] != Const("/tmp/new"):
            raise Undecided("copy of %s" % show(copies[0][1]))
        order = [x[0] for x in log]
        need("close" in order, "the archive is not completed")
        need(order.index("close") < order.index("copy"),
             "the archive is copied before it is completed")
        need(max(i for i, x in enumerate(order) if x == "write") <
             order.index("close"), "entries are written after the archive "
             "has been closed")
    else:
        need(tmp != Const("x.jar"), "the original archive is overwritten "
             "while it is needed")
        raise Undecided("archive written to %s" % show(tmp))
    ws = [(x[2], x[3]) for x in log if x[0] == "write"]
    blockname = "META-INF/%s.%s" % (alias, s.keytype)
    need([w[0] for w in ws[:3]] == [MF, "META-INF/%s.SF" % alias, blockname],
         "the archive starts with %s" % [w[0] for w in ws[:3]])
    rest = [n for n in s.names if not replaced(n, alias)]
    need(sorted(w[0] for w in ws[3:]) == sorted(rest),
         "the other entries are %s instead of %s" % (
             [w[0] for w in ws[3:]], rest))
    for n, d in ws[3:]:
        need(d == content("x.jar", n), "the content of %s is %s" % (
            n, show(d)[:80]))
    mf, sf, block = (w[1] for w in ws[:3])
    manifest(s, mf, alg)
    sigfile(s, mf, sf, alg)
    need(block == param("SIGBLOCK"), "the signature block is %s" %
         show(block)[:80])
    types = [c[1] for c in calls if c[0] == "type"]
    need(types and set(types) == {param("KEY")},
         "the type of key %s is asked for" % types)
    blocks = [c[1] for c in calls if c[0] == "block"]
    need(len(blocks) == 1, "%d signatures are made" % len(blocks))
    d, cert, key, ex, over = blocks[0]
    need(d == Const(ALGS[alg]), "the signature uses digest %s" % show(d))
    need((cert, key) == (param("CERT"), param("KEY")),
         "the signature is made with %s, %s" % (show(cert), show(key)))
    need(ex == extra, "the additional certificates are %s" % show(ex))
    need(over == sf, "the signature is not made over the signature file "
         "as written, but %s" % show(over)[:200])


def manifest(s, mf, alg):
    ss = sections(mf, s.sep)
    main = ss[0]
    want = [(Const("Manifest-Version"), Const("1.0"))] + [
        (Const(k), v) for k, v in s.main]
    need(sorted(map(str, main)) == sorted(map(str, want)),
         "the main section of the manifest holds %s" % show(Const(main))[:200])
    need(main[0] == want[0], "the manifest starts with %s" % show(main[0][0]))
    orig = dict(s.sects)
    for n in s.names:
        if not skipped(n):
            orig.setdefault(n, [])
    got = {}
    for x in ss[1:]:
        need(x and x[0][0] == Const("Name") and isinstance(x[0][1], Const),
             "a section starts with %s" % (x and show(x[0][0])))
        n = x[0][1].v
        need(n not in got, "two sections for %s" % n)
        got[n] = x[1:]
    need(set(got) == set(orig), "the sections are those of %s" %
         sorted(got))
    for n, at in got.items():
        isentry = n in s.names and not skipped(n)
        want = [(Const(k), v) for k, v in orig[n]
                if not (isentry and k.endswith("-Digest"))]
        if isentry:
            want.append((Const(alg + "-Digest"),
                         b64(alg, content("x.jar", n))))
        need(sorted(map(str, at)) == sorted(map(str, want)),
             "the section of %s holds %s" % (n, ", ".join(
                 "%s: %s" % (show(k), show(v)) for k, v in at)[:300]))


def sigfile(s, mf, sf, alg):
    ms = sections(mf, s.sep)
    seps = set(x.args[2] for x in parts(sf) if isinstance(x, Term) and
               x.op == "kv")
    if len(seps) != 1:
        raise Undecided("line separators of the signature file")
    ss = sections(sf, seps.pop().v)
    main = dict(ss[0])
    need(ss[0][0] == (Const("Signature-Version"), Const("1.0")),
         "the signature file starts with %s" % show(ss[0][0][0]))
    allof = main.pop(Const(alg + "-Digest-Manifest"), None)
    need(allof == b64(alg, mf), "the digest of the manifest is not that of "
         "the manifest as written, but %s" % (
             allof is not None and show(allof)[:200]))
    m = main.pop(Const(alg + "-Digest-Manifest-Main-Attributes"), None)
    need(m is None or m == b64(alg, data(ms[0], s.sep)),
         "the digest of the main attributes is not that of the main section "
         "as written")
    for k in main:
        need("-Digest" not in str(k.v), "the signature file has an attribute "
             "%s" % show(k))
    need(len(ss) == len(ms), "the signature file has %d sections for %d of "
         "the manifest" % (len(ss), len(ms)))
    byname = {x[0]: x[1:] for x in ss[1:]}
    for x in ms[1:]:
        at = byname.get(x[0])
        need(at is not None, "no section in the signature file for %s" %
             show(x[0][1]))
        need([y for y in at if str(y[0].v).endswith("-Digest")] == [
            (Const(alg + "-Digest"), b64(alg, data(x, s.sep)))],
            "the digest of section %s is not that of the section as written"
            % show(x[0][1]))


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.forksort = True
    rep.expect = 30
    rule = "what is written is what the specification says"
    C = [Const("x.jar"), param("CERT"), param("KEY"), Const("AL")]

    def one(key, names, mf, sep="\n", alg="SHA-256", args=(), kw=None,
            keytype="RSA", out="x.jar", extra=NONE):
        with rep.guard(key, rule):
            s = Signing(I, names, mf, sep, keytype)
            n = 0
            for exc, log, calls in s.run(C + list(args), kw or {}):
                n += 1
                if exc:
                    rep.bad(key, rule, "fails with %s" % exc)
                    return
                try:
                    verify(s, log, calls, alg, out, extra)
                except Problem as e:
                    rep.bad(key, rule, str(e))
                    return
            rep.check(n > 0, key, rule, "no path")

    for jn, names in JARS.items():
        for mn, mf in MANIFESTS.items():
            for sep in ("\n", "\r\n"):
                for first in (True, False):
                    one("%s, manifest with %s, %s, manifest %s" % (
                        jn, mn, "LF" if sep == "\n" else "CRLF",
                        "first" if first else "last"),
                        [MF] + names if first else names + [MF], mf, sep)
    base = [MF, "a", "b"], MANIFESTS["digests"]
    for a in sorted(ALGS):
        one("digest %s" % a, *base, alg=a, kw={"digest": Const(a)})
    one("digest None", *base, kw={"digest": NONE})
    for k in ("RSA", "DSA", "EC"):
        one("key of type %s" % k, *base, keytype=k)
    for k in ("RSA", "DSA", "EC"):
        one("key of type %s, signed before" % k, [
            MF, "META-INF/AL.SF", "META-INF/AL.RSA", "a"],
            MANIFESTS["bare"], keytype=k)
    one("other output", *base, kw={"output": Const("y.jar")}, out="y.jar")
    ex = Tup([param("EX1"), param("EX2")])
    one("additional certificates", *base, kw={"extra_certs": ex}, extra=ex)
    one("by position", *base, alg="SHA-512", args=[
        ex, Const("SHA-512"), Const("y.jar")], extra=ex, out="y.jar")
    faults(rep, I, C)
    cli(rep, I)
    rep.cover(I)


def faults(rep, I, C):
    rule = "a failing signature leaves the output as it is"
    for what, fault, names in (
            ("unknown type of key",
             ("type", ("crypto", "CannotFindKeyTypeError")), [MF, "a"]),
            ("failing signature",
             ("block", ("crypto", "CryptoDisabled")), [MF, "a"]),
            ("no manifest", None, ["a"])):
        with rep.guard(what, rule):
            s = Signing(I, names, MANIFESTS["bare"], "\n", fault=fault)
            for exc, log, calls in s.run(list(C), {}):
                if not exc:
                    rep.bad(what, rule, "does not fail")
                    break
                if any(x[0] == "copy" for x in log):
                    rep.bad(what, rule, "the output is written")
                    break
            else:
                rep.ok(what, rule)
    with rep.guard("unknown digest", rule):
        s = Signing(I, [MF, "a"], MANIFESTS["bare"], "\n")
        for exc, log, calls in s.run(list(C), {"digest": Const("FOO")}):
            if not exc or any(x[0] == "copy" for x in log):
                rep.bad("unknown digest", rule, "does not fail")
                break
        else:
            rep.ok("unknown digest", rule)


NAMES = ("jar_file", "cert_file", "key_file", "key_alias", "extra_certs",
         "digest", "output")


def cli(rep, I):
    rule = "the command signs with the arguments given and reports failure"
    J, C, K, A = param("JAR"), param("CRT"), param("PKEY"), param("ALIAS")
    D, O, X, Y = param("DIG"), param("OUT"), param("EX1"), param("EX2")
    none = (NONE, Tup([]))
    cases = [
        ("plain", [J, C, K, A], none, (NONE, Const("SHA-256")), (NONE,)),
        ("options", [Const("-d"), D, Const("-c"), X, Const("-c"), Y,
                     Const("-o"), O, J, C, K, A], (Tup([X, Y]),), (D,), (O,)),
        ("long options", [J, C, Const("--digest"), D, Const("--chain"), X, K,
                          Const("--output"), O, A], (Tup([X]),), (D,), (O,)),
    ]
    AV = Argv(I)
    for key, words, extra, digest, output in cases:
        for entry in ("cli_sign_jar", "main s", "main sign"):
            k = "command %s by %s" % (key, entry)
            with rep.guard(k, rule):
                seen = []
                I.hooks = AV.hooks()

                def sign(I, f, a, kw, node):
                    v = [arg(a, kw, i, n, NONE) for i, n in enumerate(NAMES)]
                    xs = I.known_items(v[4]) if v[4] != NONE else None
                    if xs is not None:
                        v[4] = Tup(xs)
                    seen.append(tuple(nrm(I, I.st, x) for x in v))
                    return NONE
                I.hooks["jarutil.sign"] = sign

                def thunk():
                    AV.reset()
                    seen[:] = []
                    r = start(I, entry, "cli_sign_jar", words)
                    return Const((r, tuple(seen)))
                for p in I.run(thunk):
                    if p.kind != "normal":
                        rep.bad(k, rule, "fails with %s" % show(p.val), p.loc)
                        break
                    r, got = p.val.v
                    if r not in (Const(0), NONE) or len(got) != 1:
                        rep.bad(k, rule, "returns %s, signing %d times" % (
                            show(r), len(got)), p.loc)
                        break
                    g = got[0]
                    if g[:4] != (J, C, K, A) or g[4] not in extra or \
                            g[5] not in digest or g[6] not in output:
                        rep.bad(k, rule, "signs with %s" % ", ".join(
                            map(show, g)), p.loc)
                        break
                else:
                    rep.ok(k, rule)
    for exc in (("crypto", "CryptoDisabled"),
                ("crypto", "CannotFindKeyTypeError"),
                ("jarutil", "MissingManifestError"),
                ("manifest", "UnsupportedDigest"), ("", "OSError")):
        for entry in ("cli_sign_jar", "main s"):
            k = "command by %s, %s" % (entry, exc[1])
            with rep.guard(k, rule):
                fails(rep, k, rule, I, AV, "jarutil.sign", exc, entry,
                      "cli_sign_jar", [J, C, K, A])


def start(I, entry, fn, words):
    if entry.startswith("main"):
        return nrm(I, I.st, I.call(I.get("jarutil", "main"), [
            I.newlist([Const("jarutil"), Const(entry.split()[1])] +
                      list(words))], {}))
    return nrm(I, I.st, I.call(I.get("jarutil", fn), [
        I.newlist(list(words))], {}))


def fails(rep, k, rule, I, AV, what, exc, entry, fn, words):
    """the command must not report success if the exception is raised"""
    I.hooks = AV.hooks()

    def hook(I, f, a, kw, node):
        if not exc[0]:
            I.throw(exc[1])
        raise PyExc(I.call(I.get(*exc), [], {}), I.loc(node))
    I.hooks[what] = hook

    def thunk():
        AV.reset()
        return start(I, entry, fn, words)
    for p in I.run(thunk):
        if p.kind == "normal":
            if not isinstance(p.val, Const):
                raise Undecided("status %s" % show(p.val))
            if p.val.v in (0, None, False):
                rep.bad(k, rule, "returns %s, which means success" %
                        show(p.val), p.loc)
                return
    rep.ok(k, rule)
