"""P06: unpackers deliver consecutive bytes or raise."""

from sa.interp import Interp, Undecided, term_mentions
from sa.values import (Const, Term, Tup, Ref, NONE, Rep, Item, Many, HInst,
                       Cls, Ext, show)
from sa import ops, gram, reader
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "symbolic data, offset, sizes: a normal return of a read "
            "operation implies that enough data was there and the value is "
            "exactly the next bytes, and the following operation starts "
            "right behind them; an exceptional one implies that there was "
            "not and is an UnpackException; counted reads perform exactly "
            "count reads",
    "assumptions": ["struct.unpack_from, len, slicing and stream.read behave "
                    "as documented"],
}

D = Term("param", "D")
O = Term("num", "O")


def mkops():
    out = []
    for n in ("1", "2"):
        out.append([
            ("read", Term("num", "N" + n), Term("num", "N" + n), None),
            ("unpack_struct", Term("param", "S" + n),
             Term("attr", Term("param", "S" + n), "size"),
             Term("param", "S" + n)),
            ("unpack", Term("param", "F" + n),
             Term("attr", Term("Struct", Term("param", "F" + n)), "size"),
             Term("Struct", Term("param", "F" + n))),
        ])
    return out


def h_compile(I, f, a, kw, node):
    return Term("Struct", I.norm(a[0]))


def exc_class(I, st, v):
    if isinstance(v, Ref):
        h = st.heap.get(v.addr)
        if isinstance(h, HInst):
            return h.cls.name if hasattr(h.cls, "name") else str(h.cls)
    if isinstance(v, Term) and v.op == "exc":
        return str(v.args[0])
    raise Undecided("exception %s" % show(v))


def lt(I, st, a, b):
    return gram.known(I, st, ops.cond_lt(a, b))


def lenof(v):
    return Term("call", Ext("builtins.len"), (v,), (), 0)


def same_bytes(v, at, size, struct):
    """v is the data [at, at + size) of D"""
    if struct is not None:
        if not (isinstance(v, Term) and v.op == "call"):
            return None
        f, a = v.args[0], v.args[1]
        if f == Term("attr", struct, "unpack_from"):
            kw = dict(v.args[2])
            data = a[0] if a else kw.get("buffer")
            off = a[1] if len(a) > 1 else kw.get("offset", Const(0))
            if data != D:
                return None
            return off == at
        if f == Term("attr", struct, "unpack"):
            return same_bytes(a[0], at, size, None)
        return None
    while isinstance(v, Term) and v.op == "call" and v.args[0] in (
            Ext("builtins.bytes"),) and len(v.args[1]) == 1:
        v = v.args[1][0]
    if isinstance(v, Term) and v.op == "slice" and v.args[0] == D:
        lo, hi = v.args[1], v.args[2]
        if len(v.args) > 3 and v.args[3] not in (NONE, Const(1)):
            return False
        return lo == at and hi == ops.ladd(at, size)
    return None


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    first, second = mkops()
    rule = "buffer-bounds"
    I.hooks = {"pack.compile_struct": h_compile}
    for a in first:
        for b in second:
            key = "buffer:%s+%s" % (a[0], b[0])
            with rep.guard(key, rule):
                two(rep, I, key, rule, a, b)
    rule = "stream-bounds"
    for a in first:
        key = "stream:" + a[0]
        with rep.guard(key, rule):
            stream(rep, I, key, rule, a)
    # closed unpackers
    rule = "closed-unpacker"
    for cls in ("BufferUnpacker", "StreamUnpacker"):
        for a in first:
            key = "closed:%s.%s" % (cls, a[0])
            with rep.guard(key, rule):
                closed(rep, I, key, rule, cls, a)
    # precompiled structures
    rule = "struct-cache"
    I.hooks = {}
    key = "compile_struct"
    with rep.guard(key, rule):
        F = Term("param", "F")
        cache = Term("param", "cache")
        for p in I.run(lambda: I.call(I.get("pack", "compile_struct"),
                                      [F, cache], {})):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            v = nrm(I, p.st, p.val)
            ok = v == Term("Struct", F)
            if not ok and isinstance(v, Term) and v.op == "Struct":
                ok = gram.known(I, p.st, ops.cond_eq(F, v.args[0])) is True
            if not ok and isinstance(v, Term) and (
                    term_mentions(v, lambda x: x == cache)):
                k = v.args[1][0] if v.op == "call" else v.args[1]
                ok = k == F
                if not ok:
                    rep.bad(key, rule, "cached under %s" % show(k))
                    continue
            if not ok:
                rep.bad(key, rule, "returns %s" % show(v))
                continue
            for e in p.events:
                if e.kind == "setitem" and e.fn == cache and (
                        e.args[0] != F or e.args[1] != Term("Struct", F)):
                    rep.bad(key, rule, "caches %s under %s" % (
                        show(e.args[1]), show(e.args[0])))
            rep.ok(key, rule)
    # choice of the implementation
    rule = "unpacker-choice"
    key = "unpack"
    with rep.guard(key, rule):
        choice(rep, I, key, rule)
    # counted reads
    rule = "counted-reads"
    I.hooks = reader.hooks(**{"pack.compile_struct": h_compile})
    U = Term("param", "U")
    for what, args in (("unpack_array", [Const(">HB")]),
                       ("unpack_struct_array",
                        [Term("Struct", Const(">HB"))])):
        key = what
        with rep.guard(key, rule):
            def go():
                up = reader.mkup(I, U)
                return I.call(I.getattr(up, what), list(args), {})
            for p in I.run(go):
                g = reader.grammar(I, p.events, U)
                env = {}
                try:
                    gram.match(I, g, [("H", "n"), (
                        "*", gram.V("n"), [("H", "a"), ("B", "b")], "t")],
                        env)
                except gram.Mismatch as e:
                    rep.bad(key, rule, str(e))
                    continue
                it, alts = gram.rep_of(I, p.st, p.val)
                e2 = env["t"][0][1]
                want = Tup([e2["a"], e2["b"]])
                for c, vals in alts:
                    vs = [nrm(I, p.st, v) for v in vals]
                    rep.check(vs == [want] and not c, key, rule,
                              "yields %s" % ", ".join(map(show, vs)))
    key = "unpack_objects"
    with rep.guard(key, rule):
        A = Term("param", "atype")
        X, Y = Term("param", "x"), Term("param", "y")

        def go():
            up = reader.mkup(I, U)
            return I.call(I.getattr(up, "unpack_objects"), [A, X],
                          {"k": Y})
        for p in I.run(go):
            rd = [e for e in p.events if e.kind == "rd"]
            if len(rd) != 1 or rd[0].args[0] != Const("H"):
                rep.bad(key, rule, "count is not one unsigned short")
                continue
            it, alts = gram.rep_of(I, p.st, p.val)
            n = I.count_of(it)
            if n != rd[0].args[1]:
                rep.bad(key, rule, "%s objects, should be %s" % (
                    show(n), show(rd[0].args[1])))
                continue
            rec = [e.fn for e in p.events if e.kind == "loop"]
            if len(rec) != 1:
                raise Undecided("loops")
            for q in rec[0].conts():
                ev = [e for e in q.st.events if e.kind == "call"]
                mk = [e for e in ev if e.fn == A]
                un = [e for e in ev if isinstance(e.fn, Term) and
                      e.fn.op == "attr" and e.fn.args[1] == "unpack"]
                ok = len(mk) == 1 and len(un) == 1 and \
                    tuple(mk[0].args) == (X,) and \
                    dict(mk[0].kwargs) == {"k": Y} and \
                    un[0].fn.args[0] == mk[0].res and \
                    list(un[0].args) == [U]
                rep.check(ok, key, rule, "an iteration performs %s" % ev)
            for c, vals in alts:
                rep.check(len(vals) == 1 and not c, key, rule,
                          "yields %d objects per entry" % len(vals))
    rep.cover(I)
    rep.expect = 20


def enough(I, st, at, size):
    """True/False/None: the path implies that the data is there"""
    r = lt(I, st, ops.ladd(lenof(D), at, -1), size)
    if r is not None:
        return not r
    if gram.known(I, st, ops.cond_truth(D)) is False:
        r = lt(I, st, Const(0), size)
        if r is not None:
            return not r
    return None


def two(rep, I, key, rule, a, b):
    marks = {}

    def go():
        o = I.call(I.get("pack", "BufferUnpacker"), [D, O], {})
        r1 = I.call(I.getattr(o, a[0]), [a[1]], {})
        I.emit("mark", Const(1), [])
        r2 = I.call(I.getattr(o, b[0]), [b[1]], {})
        return Tup([r1, r2])
    at2 = ops.ladd(O, a[2])
    rep.ok(key, rule)
    normal = 0
    for p in I.run(go):
        normal += p.kind != "raise"
        with rep.guard(key, rule):
            two_path(rep, I, key, rule, a, b, p, at2)
    if not normal:
        rep.bad(key, rule, "never succeeds")


def two_path(rep, I, key, rule, a, b, p, at2):
    for _once in (1,):
        if p.kind == "raise":
            second = any(e.kind == "mark" for e in p.events)
            n = exc_class(I, p.st, p.val)
            if n != "UnpackException":
                rep.bad(key, rule, "raises %s" % n, p.loc)
                continue
            at, size = (at2, b[2]) if second else (O, a[2])
            e = enough(I, p.st, at, size)
            if e is None and gram.known(I, p.st, ops.cond_truth(D)) is False:
                e = False
            if e is None:
                raise Undecided("raise without a bounds comparison")
            if e:
                rep.bad(key, rule, "raises although the data is there",
                        p.loc)
            continue
        for at, size, op, v in ((O, a[2], a, p.val.items[0]),
                                (at2, b[2], b, p.val.items[1])):
            e = enough(I, p.st, at, size)
            if e is None:
                rep.bad(key, rule, "%s returns without having compared the "
                        "remaining data with the requested size" % op[0])
                continue
            if not e:
                rep.bad(key, rule, "%s returns although fewer than the "
                        "requested bytes remain" % op[0])
                continue
            vv = nrm(I, p.st, v)
            s = same_bytes(vv, at, size, op[3])
            if s is None:
                if vv == NONE:
                    s = False
                elif gram.known(I, p.st, ops.cond_truth(D)) is False:
                    continue
                else:
                    raise Undecided("value %s" % show(vv))
            if not s and lt(I, p.st, Const(0), size) is not False:
                rep.bad(key, rule, "%s yields %s, should be the %s bytes at "
                        "%s" % (op[0], show(vv), show(size), show(at)))


def stream(rep, I, key, rule, a):
    def go():
        o = I.call(I.get("pack", "StreamUnpacker"), [D], {})
        return I.call(I.getattr(o, a[0]), [a[1]], {})
    rep.ok(key, rule)
    normal = 0
    rd = Term("attr", D, "read")
    for p in I.run(go):
        reads = [e for e in p.events if e.kind == "call" and
                 isinstance(e.fn, Term) and e.fn.op == "attr" and
                 e.fn.args[0] == D and e.fn.args[1].startswith("read")]
        if p.kind == "raise":
            n = exc_class(I, p.st, p.val)
            if n != "UnpackException":
                rep.bad(key, rule, "raises %s" % n, p.loc)
                continue
            if reads:
                r = lt(I, p.st, lenof(reads[-1].res), a[2])
                if r is None:
                    raise Undecided("raise")
                if not r:
                    rep.bad(key, rule, "raises although all bytes were read",
                            p.loc)
            elif gram.known(I, p.st, ops.cond_truth(D)) is not False:
                rep.bad(key, rule, "raises without reading", p.loc)
            continue
        normal += 1
        if len(reads) != 1 or reads[0].fn != rd:
            raise Undecided("%d reads" % len(reads))
        if list(reads[0].args) != [a[2]]:
            rep.bad(key, rule, "reads %s bytes, should be %s" % (
                ", ".join(map(show, reads[0].args)), show(a[2])))
            continue
        r = lt(I, p.st, lenof(reads[0].res), a[2])
        if r is not False:
            rep.bad(key, rule, "returns although the stream may have "
                    "delivered fewer bytes")
            continue
        v = nrm(I, p.st, p.val)
        want = reads[0].res
        if a[3] is not None:
            want = Term("call", Term("attr", a[3], "unpack"), (want,), (), 0)
        if v != want:
            if a[3] is not None and isinstance(v, Term) and \
                    v.op == "call" and v.args[1][:1] == (reads[0].res,) and \
                    isinstance(v.args[0], Term) and \
                    v.args[0].args[0] == a[3]:
                continue
            raise Undecided("value %s" % show(v))
    if not normal:
        rep.bad(key, rule, "never succeeds")


def closed(rep, I, key, rule, cls, a):
    def go():
        o = I.call(I.get("pack", cls), [D], {})
        I.call(I.getattr(o, "close"), [], {})
        I.emit("mark", Const(1), [])
        return I.call(I.getattr(o, a[0]), [a[1]], {})
    rep.ok(key, rule)
    for p in I.run(go):
        if p.kind == "raise":
            n = exc_class(I, p.st, p.val)
            if lt(I, p.st, Const(0), a[2]) is False:
                continue
            rep.check(n == "UnpackException", key, rule, "raises %s" % n,
                      p.loc)
            continue
        late = False
        for e in p.events:
            if e.kind == "mark":
                late = True
            elif late and e.kind == "call" and isinstance(e.fn, Term) and \
                    e.fn.op == "attr" and e.fn.args[0] == D:
                rep.bad(key, rule, "reads from the released data", e.loc)
        if lt(I, p.st, Const(0), a[2]) is not False:
            rep.bad(key, rule, "reading after close succeeds", p.loc)


def choice(rep, I, key, rule):
    rep.ok(key, rule)
    kinds = set()
    for p in I.run(lambda: I.call(I.get("pack", "unpack"), [D], {})):
        isb = [b for c, b, _l in p.path if isinstance(c, Term) and
               c.op == "isinstance" and c.args[0] == D]
        has = [b for c, b, _l in p.path if isinstance(c, Term) and
               c.op == "hasattr" and c.args[0] == D]
        if p.kind == "raise":
            n = exc_class(I, p.st, p.val)
            if any(isb) or any(has):
                rep.bad(key, rule, "data is refused with %s" % n, p.loc)
            continue
        h = p.st.heap.get(p.val.addr) if isinstance(p.val, Ref) else None
        if not isinstance(h, HInst):
            raise Undecided("returns %s" % show(p.val))
        kinds.add(h.cls.name)
        # what the chosen unpacker reads from
        want = "StreamUnpacker" if not any(isb) else "BufferUnpacker"
        if h.cls.name not in ("StreamUnpacker", "BufferUnpacker"):
            raise Undecided(h.cls.name)
        rep.check(h.cls.name == want, key, rule, "%s is chosen for %s" % (
            h.cls.name, "a buffer" if any(isb) else "a stream"))
        saved = I.st
        for q in I.explore(lambda: I.call(I.getattr(p.val, "read"),
                                          [Term("num", "N")], {}), p.st):
            if q.kind == "raise":
                continue
            v = nrm(I, q.st, q.val)
            if want == "BufferUnpacker":
                s = same_bytes(v, Const(0), Term("num", "N"), None)
                if s is False and lt(I, q.st, Const(0), Term(
                        "num", "N")) is not False:
                    rep.bad(key, rule, "reading starts with %s" % show(v))
    if kinds != {"StreamUnpacker", "BufferUnpacker"}:
        rep.bad(key, rule, "only %s are chosen" % ", ".join(sorted(kinds)))
