"""P34: signatures are made and verified with the parameters required."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Ext, show
from checks.p01 import nrm
from checks.p31 import Bad
from checks.ctree import param
from checks.jarm import arg, isnew

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation against a model "
                 "of the cryptographic library, whose objects record what "
                 "they are given and whose answers fork",
    "rule": "a signature is made over the data with the key, certificate, "
            "chain and digest given; it is accepted exactly if the library "
            "verifies it against the data and the trusted certificate only, "
            "the single failure waived being the purpose of the signing "
            "certificate whose key usage allows to sign; without the library "
            "every function refuses to work",
    "assumptions": ["M2Crypto and OpenSSL do what their documentation says",
                    "key usages are reported by OpenSSL's long names"],
}

FLAGS = {"PKCS7_TEXT": 1, "PKCS7_NOCERTS": 2, "PKCS7_NOSIGS": 4,
         "PKCS7_NOCHAIN": 8, "PKCS7_NOINTERN": 16, "PKCS7_NOVERIFY": 32,
         "PKCS7_DETACHED": 64, "PKCS7_BINARY": 128, "PKCS7_NOATTR": 256}
M = "M2Crypto."


class Lib(object):
    """objects are Term("new", kind, (number,)), their state a list"""

    def __init__(self, I):
        self.I = I
        self.state = []
        self.usage = None
        self.depth = 0
        self.enabled = True
        self.fails = {}

    def reset(self):
        del self.state[:]

    def new(self, kind, *init):
        self.state.append(list(init))
        return Term("new", kind, (len(self.state) - 1,))

    def st(self, t):
        return self.state[t.args[1][0]]

    def desc(self, t):
        """what a value is made of"""
        t = nrm(self.I, self.I.st, t)
        if isinstance(t, Term) and t.op == "new" and t.args[0] in (
                "bio", "stack", "store", "pkcs7", "signers", "cert", "cptr"):
            return (t.args[0],) + tuple(
                x if isinstance(x, (str, int)) else self.desc(x)
                for x in self.st(t))
        if isinstance(t, Tup):
            return tuple(map(self.desc, t.items))
        return t

    def flags(self, v):
        if isinstance(v, Const) and isinstance(v.v, int):
            return v.v
        raise Undecided("flags %s" % show(v))

    def ext(self, f):
        def h(I, fn, a, kw, node):
            return f([nrm(I, I.st, x) for x in a], kw)
        return h

    def fork(self, name, exc):
        """an operation which may fail"""
        if self.I.truth(param("FAILS:" + name)):
            self.I.throw(exc)

    def bio_file(self, a, kw):
        mode = arg(a, kw, 1, "mode", Const("rb"))
        if not isinstance(mode, Const) or "r" not in mode.v:
            raise Bad("opens a file for writing")
        return self.new("bio", "file", a[0])

    def load_key(self, kind):
        def h(I, f, a, kw, node):
            k = nrm(I, I.st, a[0])
            if k != param("KEYFILE"):
                raise Bad("loads key %s" % show(k))
            self.asked.append(kind)
            how = self.fails.get(kind)
            if how:
                I.throw(how)
            return Term("new", "key", (kind,))
        return h

    def hooks(self):
        I = self.I

        def meth(kinds, fn):
            def h(I, f, a, kw, node):
                t = f.args[0]
                if isinstance(t, Term) and t.op == "new" and \
                        t.args[0] in kinds:
                    return fn(t, [nrm(I, I.st, x) for x in a], kw)
                if t in (param("CTX"), param("CERTOBJ"), param("EXT")) and \
                        "ctx" in kinds:
                    return fn(t, a, kw)
                return NotImplemented
            return h

        def smime_load(kind):
            def h(t, a, kw):
                key, cert = self.desc(a[0]), arg(a, kw, 1, "certbio" if kind
                                                 == "bio" else "certfile")
                self.st(t).append(("key", kind, key, cert if cert == NONE
                                   else self.desc(cert)))
                return NONE
            return h

        def add(what):
            def h(t, a, kw):
                self.st(t).append((what,) + tuple(self.desc(x) for x in a))
                return Const(1)
            return h

        def sign(t, a, kw):
            data = self.desc(a[0])
            fl = self.flags(arg(a, kw, 1, "flags", Const(0)))
            algo = arg(a, kw, 2, "algo", Const("sha1"))
            p = self.new("pkcs7", "signed")
            self.made.append((tuple(x for x in self.st(t)), data, fl, algo))
            return p

        def write_der(t, a, kw):
            if not isnew(a[0], "bio"):
                raise Undecided("output of a signature")
            self.st(a[0]).append(("der", self.desc(t)))
            return NONE

        def bio_read(t, a, kw):
            s = self.st(t)
            if a or len(s) != 1 or s[0] != ("der", ("pkcs7", "signed")):
                raise Undecided("reading %s" % show(Const(tuple(s))))
            return param("DER")

        def read_der(a, kw):
            if self.desc(a[0]) != ("cptr", ("bio", param("SIGNATURE"))):
                raise Bad("reads the signature from %s" % show(Const(
                    self.desc(a[0]))))
            self.fork("read", M + "SMIME.PKCS7_Error")
            return self.new("cptr", "sig")

        def pkcs7(a, kw):
            if self.desc(a[0]) != ("cptr", "sig"):
                raise Undecided("PKCS7 of %s" % show(a[0]))
            return self.new("pkcs7", "sig")

        def signers(t, a, kw):
            self.fork("signers", M + "SMIME.PKCS7_Error")
            return self.new("signers", "of", self.desc(t))

        def verify(t, a, kw):
            bio = arg(a, kw, 1, "data_bio")
            fl = self.flags(arg(a, kw, 2, "flags", Const(0)))
            self.verified.append((tuple(self.st(t)), self.desc(a[0]),
                                  NONE if bio == NONE else self.desc(bio),
                                  fl, tuple(self.cbs)))
            self.fork("verify", M + "SMIME.PKCS7_Error")
            return param("CONTENT")

        def set_cb(t, a, kw):
            self.cbs.append(a[0])
            self.st(t).append("callback")
            return NONE

        def get_ext(t, a, kw):
            if a[0] != Const("keyUsage"):
                raise Undecided("extension %s" % show(a[0]))
            if self.usage is None:
                I.throw("LookupError")
            return param("EXT")

        def attr_flag(I, o, n, *r):
            return NotImplemented

        def eq(I, a, b):
            for x, y in ((a, b), (b, a)):
                if x == param("ERR"):
                    if isinstance(y, Ext) and y.name.startswith(
                            M + "m2.X509_V_ERR_"):
                        return I.truth(param(y.name.split(".")[-1]))
                    if y == Const(0) or isinstance(y, Ext) and \
                            y.name == M + "m2.X509_V_OK":
                        return I.truth(param("NOERR"))
                    raise Undecided("error compared with %s" % show(y))
            return NotImplemented

        def binop(I, op, a, b):
            for x in (a, b):
                if isinstance(x, Ext) and x.name.split(".")[-1] in FLAGS:
                    r = [FLAGS[y.name.split(".")[-1]] if isinstance(y, Ext)
                         else self.flags(y) for y in (a, b)]
                    if op == "|":
                        return Const(r[0] | r[1])
                    if op == "+":
                        return Const(r[0] + r[1])
                    raise Undecided("flags")
            return NotImplemented

        old = self.flags

        def flags(v):
            if isinstance(v, Ext) and v.name.split(".")[-1] in FLAGS:
                return FLAGS[v.name.split(".")[-1]]
            return Lib.flags(self, v)
        self.flags = flags
        h = {
            "ext:" + M + "SMIME.SMIME": self.ext(
                lambda a, kw: self.new("smime")),
            "ext:" + M + "BIO.openfile": self.ext(self.bio_file),
            "ext:" + M + "BIO.MemoryBuffer": self.ext(
                lambda a, kw: self.new("bio", *a)),
            "ext:" + M + "X509.X509_Stack": self.ext(
                lambda a, kw: self.new("stack")),
            "ext:" + M + "X509.X509_Store": self.ext(
                lambda a, kw: self.new("store")),
            "ext:" + M + "X509.load_cert": self.ext(
                lambda a, kw: self.new("cert", a[0])),
            "ext:" + M + "m2.pkcs7_read_bio_der": self.ext(read_der),
            "ext:" + M + "SMIME.PKCS7": self.ext(pkcs7),
            "meth:load_key_bio": meth(("smime",), smime_load("bio")),
            "meth:load_key": meth(("smime",), smime_load("file")),
            "meth:push": meth(("stack",), add("push")),
            "meth:set_x509_stack": meth(("smime",), add("stack")),
            "meth:set_x509_store": meth(("smime",), add("store")),
            "meth:sign": meth(("smime",), sign),
            "meth:write_der": meth(("pkcs7",), write_der),
            "meth:read": meth(("bio",), bio_read),
            "meth:_ptr": meth(("bio",), lambda t, a, kw: self.new(
                "cptr", t)),
            "meth:get0_signers": meth(("pkcs7",), signers),
            "meth:load_info": meth(("store",), add("trust")),
            "meth:load_locations": meth(("store",), add("trust")),
            "meth:add_x509": meth(("store",), add("trust")),
            "meth:set_flags": meth(("store",), add("flags")),
            "meth:set_verify_cb": meth(("store",), set_cb),
            "meth:verify": meth(("smime",), verify),
            "meth:get_error": meth(("ctx",), lambda t, a, kw: param("ERR")),
            "meth:get_error_depth": meth(("ctx",), lambda t, a, kw: Const(
                self.depth)),
            "meth:get_current_cert": meth(("ctx",), lambda t, a, kw: param(
                "CERTOBJ")),
            "meth:get_ext": meth(("ctx",), get_ext),
            "meth:get_value": meth(("ctx",), lambda t, a, kw: Const(
                self.usage)),
            "eq": eq, "binop": binop,
            "exit": lambda *a: None,
        }
        for k in ("RSA", "DSA", "EC"):
            h["ext:" + M + k + ".load_key"] = self.load_key(k)
        if not self.enabled:
            h["crypto.crypto_enabled"] = lambda *a: Const(False)
        return h

    def paths(self, fn, args, kw=None):
        I = self.I

        def thunk():
            self.reset()
            self.asked, self.made, self.verified, self.cbs = [], [], [], []
            I.hooks = self.hooks()
            exc = r = None
            try:
                r = nrm(I, I.st, I.call(I.get("crypto", fn), args, kw or {}))
            except PyExc as e:
                o = I.obj(e.val) if not isinstance(e.val, Term) else None
                exc = e.val.args[0] if o is None and e.val.op == "exc" else \
                    o.cls.name if o is not None else show(e.val)
            return Const((exc, r, tuple(self.asked), tuple(self.made),
                          tuple(self.verified)))
        for p in I.run(thunk):
            if p.kind != "normal":
                raise Undecided(p.kind)
            yield p.val.v, {t.args[0].args[0]: b for t, b in [
                x[:2] for x in p.path] if isinstance(t, Term) and t.op == "truth" and
                            getattr(t.args[0], "op", "") == "param"}


def need(c, text):
    if not c:
        raise Bad(text)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    rep.expect = 20
    L = Lib(I)

    def guard(key, rule, fn):
        with rep.guard(key, rule):
            try:
                fn()
            except Bad as e:
                rep.bad(key, rule, str(e))
            else:
                rep.ok(key, rule)

    # kinds of keys
    rule = "kind of a private key"
    kinds = ("RSA", "DSA", "EC")

    def keytype(good, exc):
        L.fails = {k: exc.get(k) for k in kinds if k != good}
        for (e, r, asked, _m, _v), _c in L.paths("private_key_type",
                                                 [param("KEYFILE")]):
            if good:
                need(e is None, "fails with %s" % e)
                need(r == Const(good), "gives %s" % show(r))
            else:
                need(e == "CannotFindKeyTypeError", "fails with %s" % e
                     if e else "gives %s" % show(r))
    import itertools
    own = {"RSA": M + "RSA.RSAError", "DSA": M + "DSA.DSAError",
           "EC": "ValueError"}
    for good in kinds + (None,):
        for alt in itertools.product((0, 1), repeat=3):
            guard("key %s, others fail %s" % (good, alt), rule,
                  lambda: keytype(good, {
                      k: "ValueError" if x else own[k]
                      for k, x in zip(kinds, alt)}))

    # signing
    rule = "a signature over the data with what is given"

    def signing(extra, desc):
        L.fails = {}
        D, C, K, X = (param(x) for x in ("DIGEST", "CERT", "KEY", "DATA"))

        def args():
            ex = NONE if extra is None else I.newlist(
                [param(x) for x in extra])
            return [D, C, K, ex, X]
        n = 0
        orig = L.reset
        for (e, r, _a, made, _v), _c in pathsargs(L, I,
                                                  "create_signature_block",
                                                  args):
            n += 1
            need(e is None, "fails with %s" % e)
            need(r == param("DER"), "gives %s" % show(r))
            need(len(made) == 1, "signs %d times" % len(made))
            state, data, fl, algo = made[0]
            keys = [x for x in state if x[0] == "key"]
            need(keys in ([("key", "bio", ("bio", "file", K),
                            ("bio", "file", C))],
                          [("key", "file", K, C)]),
                 "signs with key and certificate %s" % show(Const(
                     tuple(keys))))
            need(data == ("bio", X), "signs %s" % show(Const(data)))
            need(algo == D, "uses digest %s" % show(algo))
            need(fl & FLAGS["PKCS7_DETACHED"], "embeds the content")
            need(fl & FLAGS["PKCS7_BINARY"], "translates the content as text")
            need(fl & FLAGS["PKCS7_NOATTR"], "adds signed attributes")
            need(not fl & FLAGS["PKCS7_NOCERTS"], "omits the certificate")
            need(fl == 64 | 128 | 256, "signs with flags %d" % fl)
            stacks = [x[1] for x in state if x[0] == "stack"]
            want = [("cert", param(x)) for x in extra or ()]
            need(len(stacks) <= 1 and [
                y[1] for s in stacks for y in s[1:]] == want,
                "embeds certificates %s" % show(Const(tuple(stacks))))
        need(n, "no path")
    for extra in (None, [], ["X1"], ["X1", "X2", "X3"]):
        guard("sign, certificates %s" % extra, rule,
              lambda: signing(extra, ""))

    # verification
    rule = "accepted exactly if the library verifies it"

    def verification():
        seen = set()
        for (e, r, _a, _m, verified), c in L.paths(
                "verify_signature_block", [param("CERT"), param("DATA"),
                                           param("SIGNATURE")]):
            failed = [k for k, v in c.items() if v and k.startswith("FAILS")]
            seen.update(failed or ["accepted"])
            if failed:
                need(e == "SignatureBlockVerificationError",
                     "if %s: %s" % (failed[0][6:] + " fails", e or
                                    "the signature is accepted"))
                continue
            need(e is None, "a signature verified fails with %s" % e)
            need(len(verified) == 1, "verifies %d times" % len(verified))
            state, sig, data, fl, cbs = verified[0]
            need(sig == ("pkcs7", "sig"), "verifies %s" % show(Const(sig)))
            need(data == ("bio", param("DATA")), "the signature is verified "
                 "for content %s" % show(Const((data,))))
            need(not fl & ~FLAGS["PKCS7_BINARY"] & ~FLAGS["PKCS7_DETACHED"],
                 "verifies with flags %d" % fl)
            stores = [x[1] for x in state if x[0] == "store"]
            need(len(stores) == 1, "%d stores are used" % len(stores))
            trust = [x for x in stores[0][1:] if x != "callback"]
            need(trust == [("trust", param("CERT"))] or trust == [
                ("trust", ("cert", param("CERT")))],
                "trusts %s" % show(Const(tuple(trust))))
            stacks = [x[1] for x in state if x[0] == "stack"]
            need(stacks == [("signers", "of", ("pkcs7", "sig"))],
                 "looks for the signer in %s" % show(Const(tuple(stacks))))
            need(len(cbs) == 1, "%d callbacks are set" % len(cbs))
            need(cbs[0] == nrm(I, I.st, I.get(
                "crypto", "ignore_missing_email_protection_eku_cb")),
                "the callback is %s" % show(cbs[0]))
        need("accepted" in seen, "no signature is accepted")
        need("FAILS:verify" in seen, "the library does not verify it")
    guard("verify", rule, verification)

    # waived failures
    rule = "the purpose is waived exactly for signing certificates"

    def callback(depth, usage, ok):
        L.depth, L.usage = depth, usage
        for (e, r, _a, _m, _v), c in L.paths(
                "ignore_missing_email_protection_eku_cb",
                [Const(ok), param("CTX")]):
            need(e is None, "fails with %s" % e)
            true = [k for k, v in c.items() if v]
            if len(true) > 1:
                continue
            may = usage is None or "Digital Signature" in usage or \
                "Non Repudiation" in usage
            known = "X509_V_ERR_INVALID_PURPOSE" in c or true
            if not known and r != Const(ok):
                raise Bad("any failure is waived")
            want = 1 if true == ["X509_V_ERR_INVALID_PURPOSE"] and \
                depth == 0 and may else ok
            if r != Const(want) and not (r == Const(True) and want == 1):
                raise Bad("gives %s instead of %d if the error is %s" % (
                    show(r), want, true and true[0] or "another"))
    for depth in (0, 1, 2):
        for usage in (None, "Digital Signature", "Non Repudiation",
                      "Digital Signature, Key Encipherment",
                      "Key Encipherment, Data Encipherment",
                      "Certificate Sign, CRL Sign",
                      "Certificate Sign, CRL Sign, Non Repudiation",
                      "Key Agreement"):
            for ok in (0, 1):
                guard("depth %d, usage %s, ok %d" % (depth, usage, ok), rule,
                      lambda: callback(depth, usage, ok))

    # without the library
    rule = "refused without the library"
    L.enabled = False

    def disabled(fn, args):
        for (e, r, asked, made, verified), _c in L.paths(fn, args):
            need(e == "CryptoDisabled", "fails with %s" % e if e else
                 "gives %s" % show(r))
            need(not (asked or made or verified), "uses the library")
    for fn, n in (("private_key_type", 1), ("create_signature_block", 5),
                  ("verify_signature_block", 3)):
        guard(fn + " without the library", rule, lambda: disabled(
            fn, [param("A%d" % i) for i in range(n)]))
    rep.cover(I)


def pathsargs(L, I, fn, args):
    """like Lib.paths with arguments made anew for each path"""
    def thunk():
        L.reset()
        L.asked, L.made, L.verified, L.cbs = [], [], [], []
        I.hooks = L.hooks()
        exc = r = None
        try:
            r = nrm(I, I.st, I.call(I.get("crypto", fn), args(), {}))
        except PyExc as e:
            exc = show(e.val)
        return Const((exc, r, tuple(L.asked), tuple(L.made),
                      tuple(L.verified)))
    for p in I.run(thunk):
        if p.kind != "normal":
            raise Undecided(p.kind)
        yield p.val.v, {}
