"""P32: manifests are read and written as the specification says."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, NONE, Ref, show
from checks.txt import Texts
from checks.p31 import excname, Bad

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of texts made of "
                 "known separators and unknown words; an operation which "
                 "would look into a word is undecided, and the attributes "
                 "and bytes found are compared with the specification",
    "rule": "a manifest read has exactly the sections and attributes its "
            "lines spell, a malformed one is rejected, and one written "
            "spells its attributes and reads as itself",
    "assumptions": ["words are not compared with constants of the code",
                    "more lines, sections or attributes than explored are "
                    "treated alike"],
}

SEPS = {"LF": "\n", "CRLF": "\r\n", "CR": "\r"}
MISSING = object()


def utf8(s):
    """the bytes of a text with words, one character for each"""
    return "".join(c if ord(c) >= 0x100000 else
                   c.encode("utf-8").decode("latin-1") for c in s)


class Case(object):
    """sections: lists of (key, value); a value is a list of the pieces which
    are on lines of their own"""

    def __init__(self, name, sections, sep="\n", blanks=1, end=None,
                 cls="Manifest"):
        self.name = name
        self.sections = sections
        self.sep = sep
        self.blanks = blanks
        self.end = sep * 2 if end is None else end
        self.cls = cls

    def data(self):
        secs = []
        for s in self.sections:
            lines = []
            for k, v in s:
                # pieces are given as characters, or as bytes if they are
                # parts of one
                b = [p if isinstance(p, str) else None for p in v]
                b = [utf8(p) if isinstance(p, str) else p.decode("latin-1")
                     for p in v]
                lines.append(utf8(k) + ": " + (self.sep + " ").join(b))
            secs.append(self.sep.join(lines))
        return (self.sep * (1 + self.blanks)).join(secs) + self.end

    def attrs(self, T):
        out = []
        for s in self.sections:
            d = []
            for k, v in s:
                bs = [utf8(p) if isinstance(p, str) else
                      p.decode("latin-1") for p in v]
                d.append((k, T.get(T.m_decode(None, ("b", "".join(bs)), [
                    Const("utf-8")], {}))[1]))
            out.append(d)
        return out


def cases(T):
    w = T.word
    MV = ("Manifest-Version", ["1.0"])

    def sec(n, *attrs):
        return [("Name", [w("name %s" % n)])] + list(attrs)

    def at(n, *v):
        return (w("key %s" % n), list(v) or [w("value %s" % n)])

    for sn, sep in sorted(SEPS.items()):
        for n in range(4):
            secs = [[MV, at("m")]] + [
                sec(i, at("a%d" % i), at("b%d" % i)) for i in range(n)]
            for blanks in (1, 2, 3):
                if n == 0 and blanks > 1:
                    continue
                for en, end in (("no separator", ""), ("one", sep),
                                ("two", sep * 2), ("three", sep * 3)):
                    yield Case("%d sections apart by %d blank lines, %s at "
                               "the end, %s" % (n, blanks, en, sn), secs, sep,
                               blanks, end)
        yield Case("sections of only a name, " + sn,
                   [[MV], sec(1), sec(2)], sep)
        yield Case("names out of order, " + sn,
                   [[MV], sec("z"), sec("y"), sec("x")], sep)
        yield Case("signature file, " + sn,
                   [[("Signature-Version", ["1.0"]), at("m")],
                    sec(1, at("a"))], sep, cls="SignatureManifest")
        yield Case("name is not the first attribute, " + sn,
                   [[at("m"), MV], [at("a"), ("Name", [w("n")]), at("b")]],
                   sep)
        for vn, v in (
                ("empty value", [""]),
                ("words apart by spaces", [w("x") + " " + w("y") + "  " +
                                           w("z")]),
                ("colons", [w("x") + ":" + w("y") + ": " + w("z") + ":"]),
                ("value begins with a colon", [":" + w("x")]),
                ("value begins with spaces", ["  " + w("x")]),
                ("value ends with spaces", [w("x") + "  "]),
                ("value of one space", [" "]),
                ("tab", ["\t" + w("x") + "\t"]),
                ("letters of two bytes", ["\xe9" + w("x") + "\xfc"]),
                ("letters of three and four bytes",
                 [w("x") + "\u20ac\U0001f600" + w("y")]),
                ("next line character", [w("x") + "\x85" + w("y")]),
                ("line and paragraph separator",
                 [w("x") + "\u2028" + w("y") + "\u2029" + w("z")]),
                ("vertical tab and form feed",
                 [w("x") + "\x0b" + w("y") + "\x0c" + w("z")]),
                ("information separators",
                 [w("x") + "\x1c" + w("y") + "\x1d\x1e\x1f" + w("z")]),
                ("no-break space at both ends", ["\xa0" + w("x") + "\xa0"]),
                ("continuation", [w("x"), w("y")]),
                ("continuations", [w("x"), w("y"), w("z"), w("a"), w("b")]),
                ("continuation after the colon", ["", w("x")]),
                ("continuation beginning with spaces", [w("x"),
                                                        "  " + w("y")]),
                ("continuation after spaces", [w("x") + "  ", w("y")]),
                ("continuation holding a colon", [w("x"), w("y") + ": " +
                                                  w("z")]),
                ("continuation like a name", [w("x"), "Name: " + w("z")]),
                ("empty continuation", [w("x"), "", w("y")]),
                ("continuation of spaces", [w("x"), "  ", w("y")]),
                ("continuation within a letter of two bytes",
                 [w("x") + "\xe9", b"\xc3", b"\xa9", w("y")]),
                ("continuation within a letter of three bytes",
                 [b"\xe2", b"\x82\xac", w("y")]),
                ("continuation within letters of four bytes",
                 [w("x"), b"\xf0\x9f", b"\x98\x80\xf0", b"\x9f\x98\x80"]),
                ("next line character within continuations",
                 [w("x"), b"\xc2", b"\x85", w("y")])):
            yield Case("%s in the main section, %s" % (vn, sn),
                       [[MV, (w("k"), v), at("m")], sec(1, at("a"))], sep)
            yield Case("%s in a section, %s" % (vn, sn),
                       [[MV], sec(1, (w("k"), v), at("a")),
                        sec(2, at("a"))], sep)
            yield Case("%s as the last attribute, %s" % (vn, sn),
                       [[MV], sec(1, at("a"), (w("k"), v))], sep, end="")
            if v not in ([""], [" "]):
                yield Case("%s in a name, %s" % (vn, sn),
                           [[MV], [("Name", v), at("a")], sec(2)], sep)
        yield Case("letters in a key, " + sn,
                   [[MV, ("\xe9" + w("k"), [w("v")])]], sep)


def malformed(T):
    w = T.word
    mv = "Manifest-Version: 1.0"
    k = w("k") + ": " + w("v")
    n = "Name: " + w("n")
    for sn, s in sorted(SEPS.items()):
        for end in ("", s):
            for what, text in (
                    ("continuation as the first line", " " + w("x") + s + mv),
                    ("continuation after a blank line",
                     mv + s + s + " " + w("x")),
                    ("continuation after blank lines",
                     mv + s + s + n + s + s + s + " " + w("x") + s + k),
                    ("no colon", w("x")),
                    ("no colon after an attribute", mv + s + w("x")),
                    ("no colon in a section", mv + s + s + n + s + w("x")),
                    ("no colon in a continued attribute",
                     mv + s + w("x") + s + " " + w("y")),
                    ("no colon at a section's begin",
                     mv + s + s + w("x") + s + n)):
                yield what + ", %s%s" % (sn, ", separator at the end" if end
                                         else ""), text + end


def attributes(I, T, m):
    """[(key, value)] of a section"""
    items = I.known_items(I.call(I.getattr(m, "items"), [], {}))
    if items is None:
        raise Undecided("attributes of a section")
    out = []
    for i in items:
        k, v = [T.get(I.norm(x)) for x in I.known_items(i)]
        if k is None or v is None:
            raise Undecided("attribute %s" % show(I.norm(i))[:80])
        out.append((k[1], v[1]))
    return out


def sections(I, T, m):
    """[(key, attributes)]"""
    subs = I.getattr(m, "sub_sections")
    out = []
    for i in I.known_items(I.call(I.getattr(subs, "items"), [], {})):
        k, s = I.known_items(i)
        k = T.get(I.norm(k))
        out.append((k and k[1], attributes(I, T, s)))
    return out


def showattrs(T, attrs):
    return ", ".join("%s: %s" % (T.show(k), T.show(v)) for k, v in attrs)


def expect_attrs(T, what, got, want, primary):
    """the attributes are those given; in a section, the primary one comes
    first"""
    if len(dict(got)) != len(got):
        raise Bad("%s names an attribute twice" % what)
    if dict(got) != dict(want):
        raise Bad("%s reads %s instead of %s" % (
            what, showattrs(T, got), showattrs(T, want)))
    rest = [x for x in want if x[0] != primary]
    if [x for x in got if x[0] != primary] != rest:
        raise Bad("%s has its attributes in another order" % what)


def start(I, T, cls):
    I.hooks = T.hooks()
    T.reset()
    return I.call(I.get("manifest", cls), [], {})


def parsing(rep, I, tier):
    rule = "sections and attributes as spelled"
    T = Texts(I)
    T.words[:] = ["name %s" % n for n in ("x", "y", "z", "0", "1", "2", "3")]

    def one(c, rd):
        cells = []

        def thunk():
            m = start(I, T, c.cls)
            rd(m, T.mk("b", c.data()))
            del cells[:]
            main = attributes(I, T, m)
            return Const((tuple(main), tuple(
                (k, tuple(a)) for k, a in sections(I, T, m))))
        want = c.attrs(T)
        prim = want[0] and ("Signature-Version" if c.cls != "Manifest" else
                            "Manifest-Version")
        for p in I.run(thunk):
            if p.kind == "raise":
                raise Bad("fails with %s" % excname(I, p.val, p.st).split(" ")[0])
            if p.kind != "normal":
                raise Undecided(p.kind)
            main, subs = p.val.v
            expect_attrs(T, "main section", list(main), want[0], prim)
            names = [dict(s)["Name"] for s in want[1:]]
            if [k for k, _a in subs] != names:
                raise Bad("sections %s instead of %s" % (
                    ", ".join(T.show(k) for k, _a in subs),
                    ", ".join(map(T.show, names))))
            for (k, a), s in zip(subs, want[1:]):
                expect_attrs(T, "section " + T.show(k), list(a), s, "Name")

    def parse(m, data):
        I.call(I.getattr(m, "parse"), [data], {})

    def guard(key, fn):
        with rep.guard(key, rule):
            try:
                fn()
            except Bad as e:
                rep.bad(key, rule, str(e))
            else:
                rep.ok(key, rule)

    for c in cases(T):
        guard("parse " + c.name, lambda: one(c, parse))
    guard("parse nothing", lambda: one(
        Case("nothing", [[("Manifest-Version", ["1.0"])]]),
        lambda m, data: parse(m, Const(b""))))

    def fromfile(m, data):
        def opened(I, f, a, kw, node):
            if a[:1] != [Const("FILE")]:
                raise Bad("opens %s" % show(I.norm(a[0]))[:60])
            mode = a[1] if len(a) > 1 else kw.get("mode", Const("r"))
            if not isinstance(mode, Const):
                raise Undecided("mode")
            if "b" not in mode.v:
                raise Bad("reads text of the locale's encoding")
            return T.buffer(I, f, [data], {}, node)
        I.hooks.update({"ext:builtins.open": opened, "ext:io.open": opened,
                        "ext:codecs.open": opened,
                        "exit": lambda *a: None})
        I.call(I.getattr(m, "parse_file"), [Const("FILE")], {})

    for c in cases(T):
        if c.name.startswith(("2 sections apart by 1 ", "letters of two")):
            guard("parse_file " + c.name, lambda: one(c, fromfile))

    def rejected(text):
        def thunk():
            m = start(I, T, "Manifest")
            try:
                parse(m, T.mk("b", utf8(text)))
            except PyExc as e:
                return Const(excname(I, e.val))
            return NONE
        for p in I.run(thunk):
            if p.kind != "normal":
                raise Undecided(p.kind)
            if p.val == NONE:
                raise Bad("is accepted")
            if "MalformedManifest" not in p.val.v:
                raise Bad("fails with %s" % p.val.v.split(" ")[0])

    for what, text in malformed(T):
        guard("parse malformed: " + what, lambda: rejected(text))


# -- writing

def writing(rep, I, tier):
    rule = "attributes as lines, sections apart by blank lines"
    T = Texts(I)
    w = T.word
    T.words[:] = ["name 1", "name 2", "name 3"]
    NAMES = [w("name %d" % i) for i in (1, 2, 3)]

    def kv(I, f, a, kw, node):
        fn = {"stream": None, "key": None, "val": None, "linesep": None}
        args = dict(zip(("stream", "key", "val", "linesep"), a))
        args.update(kw)
        b = T.buf(I.norm(args["stream"]))
        if b is None:
            raise Undecided("stream of write_key_val")
        k, v, s = [T.get(I.norm(args.get(x, Const("\n"))))
                   for x in ("key", "val", "linesep")]
        if None in (k, v, s):
            raise Undecided("attribute written: %s" % " / ".join(show(I.norm(x))[:60] for x in a))
        b[0] += utf8(k[1]) + ": " + utf8(v[1]) + s[1]
        b[1] = len(b[0])
        return NONE

    def build(main, secs, cls="Manifest"):
        m = start(I, T, cls)
        I.hooks["manifest.write_key_val"] = kv
        for k, v in main:
            I.setitem(m, T.mk("s", k), T.mk("s", v))
        for n, attrs in secs:
            s = I.call(I.getattr(m, "create_section"), [T.mk("s", n)], {})
            for k, v in attrs:
                I.setitem(s, T.mk("s", k), T.mk("s", v))
        return m

    def block(attrs, sep):
        return "".join(utf8(k) + ": " + utf8(v) + sep
                       for k, v in attrs) + sep

    def one(main, secs, cls, prim, how, sep):
        import itertools
        full = [(prim, "1.0")] + main

        def thunk():
            m = build(main, secs, cls)
            r = how(m)
            back = I.call(I.get("manifest", cls), [], {})
            data = T.get(I.norm(r))
            if data is None or data[0] != "b":
                raise Bad("gives %s" % show(I.norm(r))[:80])
            if "only" not in name:
                I.call(I.getattr(back, "parse"), [r], {})
                again = I.call(I.getattr(back, "get_data"), [], {})
                again = T.get(I.norm(again))
            else:
                again = data
            return Const((data[1], again and again[1]))
        for p in I.run(thunk):
            if p.kind == "raise":
                raise Bad("fails with %s" % excname(I, p.val, p.st).split(" ")[0])
            if p.kind != "normal":
                raise Undecided(p.kind)
            got, again = p.val.v
            alls = [block(full, sep) + "".join(x) for x in
                    itertools.permutations([
                        block([("Name", n)] + list(a), sep)
                        for n, a in secs])]
            if got not in alls:
                raise Bad("is written as %s instead of %s" % (
                    T.show(got), T.show(alls[0])))
            if again != got:
                raise Bad("is written after reading as %s instead of %s" % (
                    T.show(again), T.show(got)))

    def reread(main, secs, sep, end):
        parts = [block([("Manifest-Version", "1.0")] + main, sep)] + [
            block([("Name", n)] + list(a), sep) for n, a in secs]
        want = "".join(parts)
        given = want[:len(want) - 2 * len(sep)] + end

        def thunk():
            m = start(I, T, "Manifest")
            I.hooks["manifest.write_key_val"] = kv
            I.call(I.getattr(m, "parse"), [T.mk("b", given)], {})
            got = T.get(I.norm(I.call(I.getattr(m, "get_data"), [], {})))
            first = T.get(I.norm(I.call(I.getattr(m, "get_main_section"),
                                        [], {})))
            return Const((got and got[1], first and first[1]))
        for p in I.run(thunk):
            if p.kind == "raise":
                raise Bad("fails with %s" % excname(I, p.val, p.st).split(
                    " ")[0])
            if p.kind != "normal":
                raise Undecided(p.kind)
            for g, t in zip(p.val.v, (want, parts[0])):
                if g is None:
                    raise Undecided("text written")
                if g != t:
                    raise Bad("is written as %s instead of %s" % (
                        T.show(g), T.show(t)))

    def call(m, meth, *a, **kw):
        return I.call(I.getattr(m, meth), [Const(x) for x in a],
                      {k: Const(v) for k, v in kw.items()})

    def stored(m, *a):
        t = T.stream()
        I.call(I.getattr(m, "store"), [t] + [Const(x) for x in a], {})
        return T.mk("b", T.buf(t)[0])

    def preset(m, sep):
        I.setattr(m, "linesep", Const(sep))
        return m

    at = [(w("k"), w("v")), (w("l"), w("x") + " " + w("y") + ": "),
          ("a" + w("k"), "\u20ac"), ("B" + w("k"), "")]
    contents = {
        "nothing but the version": ([], []),
        "main attributes": (at, []),
        "one section": (at[:1], [(NAMES[0], at)]),
        "sections in order": ([], [(n, at[:i]) for i, n in
                                   enumerate(NAMES)]),
        "sections out of order": (at, [(n, at[i:]) for i, n in
                                       enumerate(NAMES[::-1])]),
        "names with letters": (at[:1], [("\xe9" + NAMES[0], at[:1]),
                                        ("a" + NAMES[0], at[:1]),
                                        (NAMES[0] + "/" + NAMES[1], [])]),
    }
    HOW = {
        "get_data": (lambda m: call(m, "get_data"), "\n"),
        "get_data with LF": (lambda m: call(m, "get_data", "\n"), "\n"),
        "get_data with CRLF": (lambda m: call(m, "get_data", "\r\n"),
                               "\r\n"),
        "get_data, own CRLF": (lambda m: call(preset(m, "\r\n"),
                                              "get_data"), "\r\n"),
        "get_data with LF, own CRLF": (
            lambda m: call(preset(m, "\r\n"), "get_data", linesep="\n"),
            "\n"),
        "store": (lambda m: stored(m), "\n"),
        "store with CRLF": (lambda m: stored(m, "\r\n"), "\r\n"),
        "store, own CRLF": (lambda m: stored(preset(m, "\r\n")), "\r\n"),
    }
    for cn in sorted(contents):
        main, secs = contents[cn]
        for hn in sorted(HOW):
            for cls, prim in (("Manifest", "Manifest-Version"),
                              ("SignatureManifest", "Signature-Version")):
                name = "%s of a %s with %s" % (hn, cls, cn)
                with rep.guard(name, rule):
                    try:
                        one(main, secs, cls, prim, *HOW[hn])
                    except Bad as e:
                        rep.bad(name, rule, str(e))
                    else:
                        rep.ok(name, rule)
    HOWM = {"get_main_section": (lambda m: call(m, "get_main_section"),
                                 "\n"),
            "get_main_section with CRLF": (
                lambda m: call(m, "get_main_section", "\r\n"), "\r\n"),
            "get_main_section, own CRLF": (
                lambda m: call(preset(m, "\r\n"), "get_main_section"),
                "\r\n")}
    for cn in sorted(contents):
        main, secs = contents[cn]
        for hn in sorted(HOWM):
            name = "only %s with %s" % (hn, cn)
            with rep.guard(name, rule):
                how, sep = HOWM[hn]
                try:
                    one(main, [], "Manifest", "Manifest-Version",
                        lambda m: (addsecs(I, T, m, secs), how(m))[1], sep)
                except Bad as e:
                    rep.bad(name, rule, str(e))
                else:
                    rep.ok(name, rule)


    # a manifest which was read keeps the separator of its lines
    for sn, sep in sorted(SEPS.items()):
        if sep == "\r":
            continue
        for en, end in (("no separator", ""), ("one", sep), ("two", 2 * sep)):
            for secs in ([], [(NAMES[0], at[:1])]):
                name = "written after reading, %s, %s at the end, %d " \
                    "sections" % (sn, en, len(secs))
                with rep.guard(name, rule):
                    try:
                        reread(at[:2], secs, sep, end)
                    except Bad as e:
                        rep.bad(name, rule, str(e))
                    else:
                        rep.ok(name, rule)


def addsecs(I, T, m, secs):
    for n, attrs in secs:
        s = I.call(I.getattr(m, "create_section"), [T.mk("s", n)], {})
        for k, v in attrs:
            I.setitem(s, T.mk("s", k), T.mk("s", v))


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 60
    I.forksort = True
    rep.expect = 660
    parsing(rep, I, tier)
    writing(rep, I, tier)
    rep.cover(I)
