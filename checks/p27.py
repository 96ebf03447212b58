"""P27: a jar verifies only if every step of the verification succeeds."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, NONE, show
from checks.p01 import nrm
from checks.ctree import param
from checks.jarm import (Jars, Facts, anymatch, arg, content, b64, rec, bcat)
from checks.p29 import start

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over archives "
                 "with symbolic content, signatures and digests being "
                 "uninterpreted; on each path the outcome is compared with "
                 "the facts which the path has established",
    "rule": "verification succeeds exactly on the paths on which the "
            "signature block of the signature file's alias is valid for the "
            "signature file under the given certificate, the signature file "
            "accepts the manifest and the manifest every entry; each other "
            "path raises an exception, and the command line reports failure",
    "assumptions": ["archives of other shapes than those explored are "
                    "treated alike", "M2Crypto verifies signatures as its "
                    "documentation says"],
}

MF = "META-INF/MANIFEST.MF"
CERT = param("CERT")
SF, RSA = "META-INF/AL.SF", "META-INF/AL.RSA"

# what is missing: entries, sf_name, the signature file, admissible blocks
CHOICES = [
    ("one signature", [MF, SF, RSA, "a"], None, SF, [RSA]),
    ("one signature, given", [MF, SF, RSA, "a"], "AL.SF", SF, [RSA]),
    ("one signature, another given", [MF, SF, RSA, "a"], "B.SF", None, []),
    ("one signature, part of its name given", [MF, SF, RSA, "a"], "L.SF",
     None, []),
    ("DSA", [MF, SF, "META-INF/AL.DSA", "a"], None, SF, ["META-INF/AL.DSA"]),
    ("EC", [MF, SF, "META-INF/AL.EC", "a"], None, SF, ["META-INF/AL.EC"]),
    ("DSA and EC", [MF, SF, "META-INF/AL.EC", "META-INF/AL.DSA", "a"], None,
     SF, ["META-INF/AL.DSA", "META-INF/AL.EC"]),
    ("no signature file", [MF, RSA, "a"], None, None, []),
    ("no signature file, given", [MF, RSA, "a"], "AL.SF", None, []),
    ("no block", [MF, SF, "a"], None, SF, []),
    ("block of another alias", [MF, SF, "META-INF/B.RSA", "a"], None, SF,
     []),
    ("block elsewhere", [MF, SF, "AL.RSA", "a"], None, SF, []),
    ("block in a directory", [MF, SF, "META-INF/d/AL.RSA", "a"], None, SF,
     []),
    ("signature file elsewhere", [MF, "AL.SF", RSA, "a"], None, None, []),
    ("signature file in a directory", [MF, "META-INF/d/AL.SF", RSA, "a"],
     None, None, []),
    ("two signatures", [MF, SF, RSA, "META-INF/B.SF", "META-INF/B.RSA", "a"],
     None, None, []),
    ("two signatures, first", [MF, SF, RSA, "META-INF/B.SF",
                               "META-INF/B.DSA", "a"], "AL.SF", SF, [RSA]),
    ("two signatures, second", [MF, "META-INF/B.SF", "META-INF/B.DSA", SF,
                                RSA, "a"], "AL.SF", SF, [RSA]),
    ("two signatures, second without block", [
        MF, "META-INF/B.SF", "META-INF/B.DSA", SF, "a"], "AL.SF", SF, []),
    ("two signatures, none of them", [
        MF, SF, RSA, "META-INF/B.SF", "META-INF/B.RSA", "a"], "C.SF", None,
     []),
    ("no manifest", [SF, RSA, "a"], None, "no manifest", []),
]

# main attributes and sections of the signature file, entries, sections of
# the manifest
W, M = "SHA-256-Digest-Manifest", "SHA-256-Digest-Manifest-Main-Attributes"
D = "SHA-256-Digest"
COVERS = [
    ("all digests", [W, M], ["a"], ["a"], ["a"]),
    ("no digest of the manifest", [M], ["a"], ["a"], ["a"]),
    ("digest of the manifest only", [W], [], ["a"], ["a"]),
    ("no digest of the main attributes", [], ["a"], ["a"], ["a"]),
    ("no digest", [], [], ["a"], ["a"]),
    ("a section is missing", [W, M], [], ["a"], ["a"]),
    ("an added entry", [W, M], ["a"], ["a", "b"], ["a"]),
    ("a removed entry", [W, M], ["a", "b"], ["a"], ["a", "b"]),
    ("an entry in META-INF", [W, M], ["a"], ["a", "META-INF/x"], ["a"]),
    ("two entries", [W, M], ["a", "b"], ["b", "a"], ["a", "b"]),
]


def sect(n, sep):
    return bcat([Term("kv", Const("Name"), Const(n), Const(sep)),
                 Term("kv", Const(D), rec(n, "e"), Const(sep)),
                 Const(sep.encode())])


class Verify(object):
    def __init__(self, I, names, sep, sfmain=(W, M), sfsects=("a",),
                 sects=("a",)):
        self.I, self.names, self.sep = I, names, sep
        self.sfmain, self.sfsects, self.sects = sfmain, sfsects, sects
        mans = {content("x.jar", MF): (sep, [], [
            (n, [(D, rec(n, "e"))]) for n in sects])}
        for n in names:
            if n.endswith(".SF"):
                mans[content("x.jar", n)] = (sep, [
                    (k, rec("w" if k == W else "m", n)) for k in sfmain], [
                        (x, [(D, rec(x, "s" + n))]) for x in sfsects])
        self.J = Jars(I, {"x.jar": names}, mans)
        self.calls = []

    def run(self, go):
        I = self.I
        I.hooks = self.J.hooks()

        def block(I, f, a, kw, node):
            v = tuple(nrm(I, I.st, arg(a, kw, i, n, None)) for i, n in
                      enumerate(("certificate_file", "content",
                                 "signature")))
            self.calls.append(v)
            if not I.truth(param("VALID:%d" % len(self.calls))):
                raise PyExc(I.call(I.get(
                    "crypto", "SignatureBlockVerificationError"),
                    [Const("bad")], {}), I.loc(node))
            return NONE
        I.hooks["crypto.verify_signature_block"] = block

        def thunk():
            self.J.reset()
            self.calls[:] = []
            exc = r = None
            try:
                r = go(I)
            except PyExc as e:
                exc = show(e.val)
            return Const((exc, r, tuple(self.calls)))
        return I.run(thunk)

    def facts(self, p, calls, sf, blocks):
        """name of each condition -> True, False or None (not known)"""
        if sf is None:
            return {"one signature file is chosen": False}
        if sf == "no manifest":
            return {"the manifest exists": False}
        f = Facts(p)
        valid = False if not blocks else None
        for i, c in enumerate(calls):
            ok = [b for x, b, _l in p.path if isinstance(x, Term) and
                  x.op == "truth" and x.args[0] == param(
                      "VALID:%d" % (i + 1))]
            if c in [(CERT, content("x.jar", sf), content("x.jar", b))
                     for b in blocks]:
                valid = ok[0] if ok else None
        sep = self.sep
        main = bcat([Term("kv", Const("Manifest-Version"), Const("1.0"),
                          Const(sep)), Const(sep.encode())])
        whole = bcat([main] + [sect(n, sep) for n in sorted(self.sects)])
        al = "SHA-256"
        w = anymatch(f, [(rec("w", sf), b64(al, whole))]
                     if W in self.sfmain else [])
        m = anymatch(f, [(rec("m", sf), b64(al, main))]
                     if M in self.sfmain else [])
        ss = [anymatch(f, [(rec(n, "s" + sf), b64(al, sect(n, sep)))]
                       if n in self.sfsects else []) for n in self.sects]
        second = False if m is False or False in ss else None if \
            m is None or None in ss else True
        man = True if w or second else False if w is False and \
            second is False else None
        r = {"the signature block is valid": valid,
             "the signature file accepts the manifest": man}
        for n in self.names:
            if n.endswith("/") or n == MF or n.startswith("META-INF/") and \
                    n.count("/") == 1 and n.endswith((".SF", ".RSA", ".DSA",
                                                      ".EC")):
                continue
            r["the manifest accepts entry " + n] = anymatch(
                f, [(rec(n, "e"), b64(al, content("x.jar", n)))]
                if n in self.sects else [])
        return r, f


def judge(rep, key, rule, v, paths, sf, blocks, success):
    for p in paths:
        if p.kind != "normal":
            raise Undecided("outcome %s" % p.kind)
        exc, r, calls = p.val.v
        fs = v.facts(p, calls, sf, blocks)
        fs, f = fs if isinstance(fs, tuple) else (fs, None)
        good = not exc and success(r)
        if good is None:
            raise Undecided("status %s" % show(r))
        no = [n for n, x in fs.items() if x is not True]
        odd = f is not None and f.odd
        if good and no:
            if odd:
                raise Undecided("condition %s" % show(f.odd[0]))
            rep.bad(key, rule, "succeeds although it is not known that %s" %
                    no[0], p.loc)
            return
        if not good and not any(x is False for x in fs.values()):
            if odd:
                raise Undecided("condition %s" % show(f.odd[0]))
            rep.bad(key, rule, "fails (%s) although %s" % (
                exc or show(r), "everything is valid" if not no else
                "nothing is known to be invalid"), p.loc)
            return
    rep.check(bool(paths), key, rule, "no path")


def status(r):
    if not isinstance(r, Const):
        return None
    return r.v in (0, None) or r.v is False


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.forksort = True
    rep.expect = 60
    rule = "success means that every step has succeeded"
    JAR = Const("x.jar")

    def api(sfname):
        def go(I):
            I.call(I.get("jarutil", "verify"), [CERT, JAR] + (
                [Const(sfname)] if sfname else []), {})
            return NONE
        return go

    def cli(entry, sfname):
        def go(I):
            return start(I, entry, "cli_verify_jar_signature", [
                JAR, CERT] + ([Const(sfname)] if sfname else []))
        return go

    def each(key, v, sfname, sf, blocks):
        for how, go, ok in (
                ("", api(sfname), lambda r: True),
                (" by the command", cli("cli", sfname), status),
                (" by main", cli("main verify", sfname), status)):
            with rep.guard(key + how, rule):
                judge(rep, key + how, rule, v, v.run(go), sf, blocks, ok)

    for name, names, sfname, sf, blocks in CHOICES:
        each(name, Verify(I, names, "\n"), sfname, sf, blocks)
    for name, main, sfs, entries, sects in COVERS:
        for sep in ("\n", "\r\n"):
            v = Verify(I, [MF, SF, RSA] + entries, sep, main, sfs, sects)
            each("%s, %s" % (name, "LF" if sep == "\n" else "CRLF"), v, None,
                 SF, [RSA])
    outcomes(rep, I)
    manifest(rep, I)
    rep.cover(I)


def outcomes(rep, I):
    """any failure of the verification is a failure of the command"""
    rule = "the command does not report success for a failure"
    for exc in (("jarutil", "VerificationError"),
                ("jarutil", "SignatureBlockFileVerificationError"),
                ("jarutil", "ManifestChecksumError"),
                ("jarutil", "JarChecksumError"),
                ("jarutil", "JarSignatureMissingError"),
                ("jarutil", "MissingManifestError"),
                ("manifest", "UnsupportedDigest"),
                ("manifest", "MalformedManifest"),
                ("crypto", "CryptoDisabled"), ("", "OSError"),
                ("", "KeyError")):
        for entry in ("cli", "main v"):
            k = "%s, %s" % (exc[1], entry)
            with rep.guard(k, rule):
                I.hooks = {}

                def fail(I, f, a, kw, node):
                    if not exc[0]:
                        I.throw(exc[1])
                    raise PyExc(I.call(I.get(*exc), [Const("x")], {}),
                                I.loc(node))
                I.hooks["jarutil.verify"] = fail

                def thunk():
                    return start(I, entry, "cli_verify_jar_signature", [
                        Const("x.jar"), CERT])
                for p in I.run(thunk):
                    if p.kind == "normal":
                        s = status(p.val)
                        if s is None:
                            raise Undecided("status %s" % show(p.val))
                        if s:
                            rep.bad(k, rule, "returns %s" % show(p.val),
                                    p.loc)
                            break
                else:
                    rep.ok(k, rule)
    for words in ([], [Const("x.jar")], [Const("x.jar"), CERT, Const("A.SF"),
                                         Const("more")]):
        k = "%d arguments" % len(words)
        with rep.guard(k, rule):
            called = []
            I.hooks = {"jarutil.verify": lambda *a: called.append(1) or NONE}
            for p in I.run(lambda: start(
                    I, "cli", "cli_verify_jar_signature", words)):
                if p.kind == "normal" and status(p.val):
                    rep.bad(k, rule, "returns %s" % show(p.val), p.loc)
                    break
            else:
                rep.ok(k, rule)


def manifest(rep, I):
    """verifying the manifest alone"""
    rule = "the manifest command succeeds only if every entry is accepted"
    for name, _m, _s, entries, sects in COVERS:
        for entry in ("cli", "main v", "main verify"):
            k = "manifest: %s, %s" % (name, entry)
            with rep.guard(k, rule):
                v = Verify(I, [MF] + entries, "\n", sects=sects)

                def go(I):
                    ws = [Const("x.jar")]
                    if entry == "cli":
                        return nrm(I, I.st, I.call(I.get(
                            "manifest", "cli_verify"), [I.newlist(ws)], {}))
                    return nrm(I, I.st, I.call(I.get("manifest", "main"), [
                        I.newlist([Const("manifest"), Const(
                            entry.split()[1])] + ws)], {}))
                v.facts = entryfacts(v)
                judge(rep, k, rule, v, v.run(go), None, [], status)


def entryfacts(v):
    def facts(p, calls, sf, blocks):
        f = Facts(p)
        return {"the manifest accepts entry " + n: anymatch(
            f, [(rec(n, "e"), b64("SHA-256", content("x.jar", n)))]
            if n in v.sects else []) for n in v.names if n != MF}, f
    return facts
