"""P31: manifest lines hold at most 72 bytes and unfold to what was given."""

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, NONE, show
from checks.sized import Sized

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation with keys and "
                 "values of given sizes and of unknown content; the sequence "
                 "of parts written is compared with the specification",
    "rule": "every line written has at most 72 bytes with its line "
            "separator, lines but the first start with one space, and "
            "without separators and spaces they are the key, a colon, a "
            "space and the value; keys of no or of more than 68 bytes are "
            "rejected before anything is written",
    "assumptions": ["values longer than those explored (some lines) are "
                    "treated alike", "keys and values contain no line "
                    "separator"],
}


def lines(pieces, sep):
    """lines written, each a list of pieces, and whether the last one is
    terminated"""
    out = [[]]
    for p in pieces:
        if p[0] == "c":
            bits = p[1].split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append([])
                if b"\n" in b or b"\r" in b:
                    return None
                if b:
                    out[-1].append(("c", b))
        else:
            out[-1].append(p)
    return out


class Bad(Exception):
    pass


def verify(Z, pieces, want, sep):
    ls = lines(pieces, sep)
    if ls is None:
        raise Bad("holds other line separators")
    if ls[-1]:
        raise Bad("does not end with a line separator")
    ls.pop()
    got = []
    for i, l in enumerate(ls):
        n = Z.length(l) + len(sep)
        if n > 72:
            raise Bad("line %d has %d bytes" % (i + 1, n))
        if i:
            if not l or l[0][0] != "c" or l[0][1][:1] != b" ":
                raise Bad("line %d does not start with a space" % (i + 1))
            l = [("c", l[0][1][1:])] + l[1:]
        got += l
    k = Z.length(want[:1]) + 2
    if ls and Z.length(ls[0]) < k and len(ls) > 1:
        raise Bad("the key is continued")
    if Z.mk("b", got) != Z.mk("b", want):
        raise Bad("reads %s instead of %s" % (
            show(Z.mk("b", got))[:200], show(Z.mk("b", want))[:100]))


def excname(I, v, st=None):
    try:
        o = st.heap.get(v.addr) if st else I.obj(v)
        return " ".join(getattr(c, "name", show(c)) for c in o.cls.mro)
    except Exception:
        return show(v)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 60
    rep.expect = 30
    top = 700 if tier == "thorough" else 290
    KEYS = [1, 2, 33, 60, 66, 67, 68] if tier != "thorough" else range(1, 69)
    rule = "lines of at most 72 bytes which unfold to key and value"

    def one(k, v, unit, sep, through, sepname):
        Z = Sized(I, {"K": (k, 1), "V": (v, unit)})
        I.hooks = Z.hooks()
        if through:
            def attr(I, o, n, *r):
                return through_(o)
            I.hooks["attr:buffer"] = attr

            def hasa(I, o, n):
                if o == Term("new", "outer", ()):
                    return n == "buffer"
                return Z.hasattr_(I, o, n)
            I.hooks["hasattr"] = hasa
        st = [None]

        def through_(o):
            return st[0] if o == Term("new", "outer", ()) else NotImplemented

        def thunk():
            Z.reset()
            st[0] = Z.stream()
            exc = None
            try:
                I.call(I.get("manifest", "write_key_val"), [
                    Term("new", "outer", ()) if through else st[0],
                    Z.text("K") if k else Const(""),
                    Z.text("V") if v else Const("")] + (
                        [Const(sep)] if sep else []), {})
            except PyExc as e:
                exc = excname(I, e.val)
            return Const((exc, tuple(Z.written(st[0]))))
        for p in I.run(thunk):
            if p.kind != "normal":
                raise Undecided(p.kind)
            exc, out = p.val.v
            where = "key of %d, value of %d bytes: " % (k, v * unit)
            if 0 < k < 69:
                if exc:
                    raise Bad(where + "fails with %s" % exc)
                want = [("t", "K", 0, k), ("c", b": "),
                        ("t", "V", 0, v * unit)]
                try:
                    verify(Z, out, want, (sep or "\n").encode())
                except Bad as e:
                    raise Bad(where + str(e))
            else:
                if not exc:
                    raise Bad(where + "is not rejected")
                if "ManifestKeyException" not in exc:
                    raise Bad(where + "fails with %s" % exc)
                if out:
                    raise Bad(where + "writes before it is rejected")

    def group(key, cases):
        with rep.guard(key, rule):
            try:
                for c in cases:
                    one(*c)
            except Bad as e:
                rep.bad(key, rule, str(e))
            else:
                rep.ok(key, rule)

    for sep, name in (("\n", "LF"), ("\r\n", "CRLF"), (None, "default")):
        for k in KEYS:
            for unit in (1, 2, 3, 4):
                n = top if sep != None and unit == 1 else 160
                group("key of %d bytes, characters of %d bytes, %s" % (
                    k, unit, name), [
                        (k, v, unit, sep, False, name)
                        for v in range(0, n // unit + 1)
                        if tier == "thorough" or interesting(
                            k, v * unit, unit)])
        group("stream with a buffer, %s" % name, [
            (5, v, 1, sep, True, name) for v in (0, 10, 62, 63, 64, 140)])
        for k in (0, 69, 70, 71, 100, 200):
            group("key of %d bytes is rejected, %s" % (k, name), [
                (k, v, 1, sep, False, name) for v in (0, 1, 5, 100)])
    rep.cover(I)


def interesting(k, v, unit):
    """sizes at which a further line begins or ends"""
    if v <= 2 * unit:
        return True
    n = k + 2 + v
    return any(abs(n - x) <= 3 * unit for x in (70, 72, 139, 141, 208, 210,
                                            277, 279))
