"""P28: digests recorded in manifests and signature files are verified."""

from itertools import combinations

from sa.interp import Interp, Undecided
from sa.values import Const, Term, NONE, show
from checks.p01 import nrm
from checks.ctree import param
from checks.jarm import (Jars, Facts, anymatch, content, b64, rec, bcat,
                         ALGS)

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation with symbolic "
                 "content and recorded values, digests being uninterpreted; "
                 "each path's verdict is compared with the equalities of "
                 "recorded and computed digests the path has established",
    "rule": "an entry or section is accepted exactly if one of the values "
            "recorded for it equals the digest of its own data by the named "
            "algorithm; nothing but the signature related files and "
            "directories is exempt",
    "assumptions": ["digests are functions of algorithm and data",
                    "more entries, sections or digests than explored are "
                    "treated alike"],
}

MF = "META-INF/MANIFEST.MF"

# entry names and whether they are exempt
EXEMPT = [
    (MF, True), ("META-INF/A.SF", True), ("META-INF/A.RSA", True),
    ("META-INF/A.DSA", True), ("META-INF/A.EC", True),
    ("META-INF/SIG-A", True), ("META-INF/SIG-A.x", True),
    ("META-INF/a.sf", True), ("META-INF/a.rsa", True),
    ("meta-inf/manifest.mf", True),
    ("d/", True), ("META-INF/", True), ("META-INF/services/", True),
    ("a", False), ("d/a", False), ("A.SF", False), ("A.RSA", False),
    ("SIG-A", False), ("META-INF/services/x", False),
    ("META-INF/d/A.SF", False), ("META-INF/d/A.RSA", False),
    ("META-INF/d/SIG-A", False), ("x/META-INF/A.SF", False),
    ("x/META-INF/A.EC", False), ("x/" + MF, False), ("MANIFEST.MF", False),
    ("META-INF/x.txt", False), ("META-INF/A.SFX", False),
    ("META-INF/ARSA", False), ("META-INF/A.RSA.txt", False),
    ("META-INF/XSIG-A", False), ("META-INF/MANIFEST.MFX", False),
    ("META-INF/d/MANIFEST.MF", False), ("META-INFX/A.SF", False),
    ("META-INF/INDEX.LIST", False), ("DSA", False), ("x.class", False),
    ("META-INF/SIG", False), ("META-INF/ASF", False),
    ("META-INF/A.EC/x", False),
]


def failures(I, r):
    xs = I.known_items(r)
    if xs is None:
        raise Undecided("failures %s" % show(nrm(I, I.st, r)))
    return Const(tuple(x.v if isinstance(x, Const) else x for x in xs))


def judge(rep, key, rule, p, specs, bad=None):
    """specs: name -> pairs (recorded, digest), or True or False; the path
    returns the names which failed"""
    f = Facts(p)
    if p.kind != "normal":
        return "raised"
    got = list(p.val.v)
    for n, pairs in specs.items():
        want = pairs if isinstance(pairs, bool) else anymatch(f, pairs)
        acc = n not in got
        if want is None or acc != want:
            if f.odd:
                raise Undecided("condition %s" % show(f.odd[0]))
            rep.bad(key, rule, "%s is %s although %s%s" % (
                n, "accepted" if acc else "reported as failing",
                "it should" + (" not" if acc else "") + " be"
                if isinstance(pairs, bool) else
                "no recorded digest is known to equal that of its data"
                if acc else "a recorded digest equals that of its data"
                if want else "not all of its digests were compared",
                where(f)), p.loc)
            return "bad"
    extra = [x for x in got if x not in specs]
    if extra:
        rep.bad(key, rule, "reports %r" % (extra,), p.loc)
        return "bad"
    if len(set(map(str, got))) != len(got):
        rep.bad(key, rule, "reports an entry twice: %r" % (got,), p.loc)
        return "bad"
    return "ok"


def where(f):
    return "".join("; %s %s %s" % (show(d), "==" if b else "!=", show(r))
                   for (r, d), b in f.eqs.items())[:400]


def attrs(what, algs):
    return [(a + "-Digest", rec(what, a)) for a in algs]


def algsets():
    yield ()
    for a in sorted(ALGS):
        yield (a,)
    for c in combinations(sorted(ALGS), 2):
        yield c
    yield ("SHA-512", "MD5", "SHA1")
    yield ("FOO",)
    yield ("FOO", "SHA1")
    yield ("SHA1", "FOO")
    yield ("SHA-256", "FOO", "MD5")


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.forksort = True
    jar(rep, I)
    sigfile(rep, I)
    rep.cover(I)


# -- entries of a jar against the manifest


def jar(rep, I):
    rule = "entries are accepted exactly by their recorded digests"

    def one(key, names, sects, specs, args=(), kw=None, unsupported=False):
        with rep.guard(key, rule):
            J = Jars(I, {"x.jar": names})
            I.hooks = J.hooks()

            def thunk():
                J.reset()
                mf = I.call(I.get("manifest", "Manifest"), [], {})
                for n, at in sects:
                    s = I.call(I.getattr(mf, "create_section"),
                               [Const(n)], {})
                    J.fill(I, s, at)
                return failures(I, I.call(
                    I.getattr(mf, "verify_jar_checksums"),
                    [Const("x.jar")] + list(args), kw or {}))
            for p in I.run(thunk):
                r = judge(rep, key, rule, p, specs)
                if r == "bad":
                    return
                if r == "raised":
                    f = Facts(p)
                    if not unsupported:
                        if f.odd:
                            raise Undecided("condition %s" % show(f.odd[0]))
                        rep.bad(key, rule, "fails with %s" % show(p.val),
                                p.loc)
                        return
            rep.ok(key, rule)

    def pairs(n, algs):
        return [(rec(n, a), b64(a, content("x.jar", n))) for a in algs
                if a in ALGS]

    for n, ex in EXEMPT:
        one("entry %s without digest" % n, [n], [], {n: ex})
        if not ex:
            one("entry %s with digest" % n, [n],
                [(n, attrs(n, ["SHA1"]))], {n: pairs(n, ["SHA1"])})
    for algs in algsets():
        key = "digests %s of an entry" % (", ".join(algs) or "none")
        one(key, ["a"], [("a", attrs("a", algs))],
            {"a": pairs("a", algs) or False}, unsupported="FOO" in algs)
    one("other attributes of a section", ["a"], [("a", [
        ("Content-Type", param("CT")), ("SHA1-Digest-Manifest", rec("x", "1")),
        ("SHA-256-Digest-x", rec("x", "2")),
        ("Digest", rec("x", "3"))])], {"a": False})
    one("several entries", ["a", MF, "b", "d/", "c", "META-INF/A.SF"], [
        ("b", attrs("b", ["MD5", "SHA-256"])), ("a", attrs("a", ["SHA1"]))],
        {"a": pairs("a", ["SHA1"]), "b": pairs("b", ["MD5", "SHA-256"]),
         "c": False})
    one("sections of other entries", ["a"], [
        ("b", attrs("b", ["MD5"])), ("A", attrs("A", ["MD5"])),
        ("d/a", attrs("d/a", ["MD5"]))], {"a": False})
    one("sections of entries of other case", ["D/A.class"], [
        (n, attrs(n, ["MD5"])) for n in (
            "d/a.class", "D/a.class", "A.class", "D", "D/A.CLASS",
            "d/A.class")], {"D/A.class": False})
    one("sections of missing entries", ["a"], [
        ("b", attrs("b", ["MD5"])), ("a", attrs("a", ["MD5"]))],
        {"a": pairs("a", ["MD5"])})
    for strict, args, kw in (
            (False, [Const(False)], {}), (True, [Const(True)], {}),
            (False, [], {"strict": Const(False)})):
        one("entries without digests, strict=%s%s" % (
            strict, " by keyword" if kw else ""), ["a", "b"],
            [("b", attrs("b", ["SHA1"]))],
            {"a": not strict, "b": pairs("b", ["SHA1"])}, args, kw)


# -- the manifest against a signature file


def sigfile(rep, I):
    J = Jars(I, {})

    def one(key, rule, meth, linesep, sections, main, sects, judge_,
            args=(), kw=None):
        """sections of the manifest; main attributes and sections of the
        signature file"""
        with rep.guard(key, rule):
            I.hooks = J.hooks()

            def thunk():
                J.reset()
                mf = I.call(I.get("manifest", "Manifest"), [], {})
                I.setattr(mf, "linesep", Const(linesep) if linesep else NONE)
                J.fill(I, mf, [("Main", param("MAIN"))])
                ss = {}
                for n in sections:
                    ss[n] = s = I.call(I.getattr(mf, "create_section"),
                                       [Const(n)], {})
                    J.fill(I, s, [("Attr", param("ATTR:" + n))])
                sf = I.call(I.get("manifest", "SignatureManifest"), [], {})
                I.setattr(sf, "linesep", Const("\r\n"))
                J.fill(I, sf, main)
                for n, at in sects:
                    J.fill(I, I.call(I.getattr(sf, "create_section"),
                                     [Const(n)], {}), at)
                r = I.call(I.getattr(sf, meth), [mf] + list(args), kw or {})
                if not isinstance(r, Const):
                    r = failures(I, r)
                sep = linesep or "\n"
                data = {n: section(n, sep) for n in sections}
                whole = nrm(I, I.st, I.call(I.getattr(mf, "get_data"),
                                            [], {}))
                return Const((r.v, whole, tuple(data.items())))
            for p in I.run(thunk):
                if p.kind != "normal":
                    rep.bad(key, rule, "fails with %s" % show(p.val), p.loc)
                    return
                got, whole, data = p.val.v
                data = dict(data)
                f = Facts(p)
                msg = judge_(f, got, whole, data)
                if msg:
                    if f.odd:
                        raise Undecided("condition %s" % show(f.odd[0]))
                    rep.bad(key, rule, msg + where(f), p.loc)
                    return
            rep.ok(key, rule)

    def kvs(pairs, sep):
        return bcat([Term("kv", Const(k), v if isinstance(v, Term) else
                          Const(v), Const(sep)) for k, v in pairs] +
                    [Const(sep.encode())])

    def section(n, sep):
        return kvs([("Name", n), ("Attr", param("ATTR:" + n))], sep)

    def mainsec(sep):
        return kvs([("Manifest-Version", "1.0"), ("Main", param("MAIN"))],
                   sep)

    def wholes(ns, whole, data, sep):
        """the manifest is its main section and all others"""
        from itertools import permutations
        return any(whole == bcat([mainsec(sep)] + [data[n] for n in o])
                   for o in permutations(ns))

    # digests are recorded of the texts as written

    def recorded(key, linesep, own, alg):
        rule = "digests recorded are those of the texts as written"
        with rep.guard(key, rule):
            I.hooks = J.hooks()

            def value(s, k):
                return nrm(I, I.st, I.call(I.getattr(s, "get"), [Const(k)],
                                           {}))

            def thunk():
                J.reset()
                mf = I.call(I.get("manifest", "Manifest"), [], {})
                I.setattr(mf, "linesep", Const(linesep) if linesep else NONE)
                J.fill(I, mf, [("Main", param("MAIN"))])
                for n in ("b", "a"):
                    J.fill(I, I.call(I.getattr(mf, "create_section"),
                                     [Const(n)], {}),
                           [("Attr", param("ATTR:" + n))])
                sf = I.call(I.get("manifest", "SignatureManifest"), [], {})
                I.setattr(sf, "linesep", Const(own) if own else NONE)
                I.call(I.getattr(sf, "digest_manifest"), [mf] + (
                    [Const(alg)] if alg else []), {})
                a = alg or "SHA-256"
                whole = nrm(I, I.st, I.call(I.getattr(mf, "get_data"),
                                            [], {}))
                subs = I.getattr(sf, "sub_sections")
                out = [whole, value(sf, a + SUF), value(sf, a + MSUF)]
                for n in ("a", "b"):
                    s = I.call(I.getattr(subs, "get"), [Const(n)], {})
                    out.append(NONE if s == NONE else value(
                        s, a + "-Digest"))
                return Const(tuple(out))
            for p in I.run(thunk):
                if p.kind != "normal":
                    rep.bad(key, rule, "fails with %s" % show(p.val), p.loc)
                    return
                whole, w, m, a, b = p.val.v
                sep = linesep or "\n"
                g = alg or "SHA-256"
                texts = {n: section(n, sep) for n in "ab"}
                if not wholes(["a", "b"], whole, texts, sep):
                    raise Undecided("the stored manifest is %s" % show(whole))
                for what, got, text in (
                        ("the manifest", w, whole),
                        ("its main attributes", m, mainsec(sep)),
                        ("section a", a, texts["a"]),
                        ("section b", b, texts["b"])):
                    if got not in (b64(g, text), Term("strof", b64(g, text))):
                        rep.bad(key, rule, "records for %s %s" % (
                            what, show(got)[:120]), p.loc)
                        return
            rep.ok(key, rule)
    SUF = "-Digest-Manifest"
    MSUF = "-Digest-Manifest-Main-Attributes"
    for ls in ("\n", "\r\n", None):
        for own in ("\n", "\r\n", None):
            recorded("digests of a manifest with %r in a signature file with "
                     "%r" % (ls, own), ls, own, None)
    for alg in ("SHA1", "SHA-512"):
        recorded("digests by %s" % alg, "\r\n", "\r\n", alg)
    for ls in ("\n", "\r\n", None):
        sep = ls or "\n"
        tag = "" if ls == "\n" else ", manifest with %s" % (
            "CRLF" if ls else "no known line separator")

        for algs in algsets() if ls == "\r\n" else [("SHA-256",)]:
            if "FOO" in algs:
                continue
            name = ", ".join(algs) or "none"

            def main_(f, got, whole, data):
                if not wholes(["a", "b"], whole, data, sep):
                    raise Undecided("the stored manifest is %s" % show(whole))
                want = anymatch(f, [(rec("w", a), b64(a, whole))
                                    for a in algs])
                return None if want is not None and want == bool(got) else \
                    "accepted %s" % (got,)
            main = [(a + SUF, rec("w", a)) for a in algs] + [
                ("SHA-384" + MSUF, rec("m", "SHA-384"))]
            one("digests %s of the manifest%s" % (name, tag),
                "the manifest is accepted exactly by a digest of all of it",
                "verify_manifest_main_checksum", ls, ["b", "a"], main, [],
                main_)

            def attr_(f, got, whole, data):
                want = anymatch(f, [(rec("m", a), b64(a, mainsec(sep)))
                                    for a in algs])
                return None if want is not None and want == bool(got) else \
                    "accepted %s" % (got,)
            main = [(a + MSUF, rec("m", a)) for a in algs] + [
                ("SHA-384" + SUF, rec("w", "SHA-384"))]
            one("digests %s of the main attributes%s" % (name, tag),
                "the main attributes are accepted exactly by their digest",
                "verify_manifest_main_attributes_checksum", ls, ["a"], main,
                [], attr_)

            def sect_(f, got, whole, data):
                for n in ("a", "b"):
                    ps = [(rec(n, a), b64(a, data[n])) for a in algs]
                    want = anymatch(f, ps) if ps else False
                    if want is None or want != (n not in got):
                        return "section %s %s" % (
                            n, "accepted" if n not in got else "failed")
                if set(got) - {"a", "b"} or len(set(got)) != len(got):
                    return "reports %r" % (got,)
            one("digests %s of sections%s" % (name, tag),
                "a section is accepted exactly by a digest of it",
                "verify_manifest_entry_checksums", ls, ["a", "b"], [],
                [("a", attrs("a", algs)), ("c", attrs("c", ["SHA1"])),
                 ("b", attrs("b", algs))], sect_)

        def strict_(want):
            def f_(f, got, whole, data):
                w = anymatch(f, [(rec("b", "SHA1"), b64("SHA1", data["b"]))])
                if ("a" not in got) != want:
                    return "section without digests %s" % (
                        "failed" if want else "accepted")
                return None if w is not None and w == ("b" not in got) else \
                    "section b"
            return f_
        for st, args in ((True, []), (True, [Const(True)]),
                         (False, [Const(False)])):
            one("sections without digests, strict %s%s" % (
                st if args else "by default", tag),
                "sections without digests fail if strict",
                "verify_manifest_entry_checksums", ls, ["a", "b"], [],
                [("b", attrs("b", ["SHA1"]))], strict_(not st), args)

        def both(algw, algm, algs):
            def f_(f, got, whole, data):
                if not wholes(["a", "b"], whole, data, sep):
                    raise Undecided("the stored manifest is %s" % show(whole))
                w = anymatch(f, [(rec("w", a), b64(a, whole))
                                 for a in algw])
                m = anymatch(f, [(rec("m", a), b64(a, mainsec(sep)))
                                 for a in algm])
                ss = [anymatch(f, [(rec(n, a), b64(a, data[n]))
                                   for a in algs[n]]) for n in ("a", "b")]
                acc = not got
                if acc and not (w or m and all(ss)):
                    return "accepted though not all digests match"
                if not acc and (w is not False or
                                m is not False and False not in ss):
                    return "failed though %s" % (
                        "the digests match" if w or m and all(ss) else
                        "not all digests were compared")
                return None
            return f_
        for algw in ((), ("SHA-256",), ("MD5", "SHA1")):
            for algm in ((), ("SHA-256",)):
                for asec in ((), ("SHA-256",)):
                    al = {"a": asec, "b": ("SHA-256",)}
                    one("whole %s, main %s, section %s%s" % (
                        "+".join(algw) or "no", "+".join(algm) or "no",
                        "+".join(asec) or "no", tag),
                        "a manifest is accepted as a whole or by its main "
                        "attributes and every section",
                        "verify_manifest", ls, ["a", "b"],
                        [(a + SUF, rec("w", a)) for a in algw] +
                        [(a + MSUF, rec("m", a)) for a in algm],
                        [(n, attrs(n, x)) for n, x in sorted(al.items())
                         if x], both(algw, algm, al))
