"""Models reading of fixed-format values from an in-memory buffer:
every read becomes Term('read', buffer, offset, format-char)."""

import struct

from .values import Const, Term, Tup, Ext, NONE
from . import ops


def fmt_fields(fmt):
    """[(relative offset, char, size)] of a struct format, or None"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    order = "@"
    body = fmt
    if fmt[:1] in "<>=!@":
        order, body = fmt[0], fmt[1:]
    out = []
    off = 0
    num = ""
    for ch in body:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        num = ""
        if ch == "s":
            out.append((off, "%ds" % n, n))
            off += n
            continue
        size = struct.calcsize(("<" if order == "@" else order) + ch)
        for _ in range(n):
            if ch != "x":
                big = order in ">!" or size == 1
                out.append((off, ch if big else "le:" + ch, size))
            off += size
    if struct.calcsize(fmt) != off:
        return None
    return out, off


def reads(I, buf, off, fmt, node=None):
    r = fmt_fields(fmt)
    if r is None:
        return NotImplemented
    fields, size = r
    vals = []
    for rel, ch, _sz in fields:
        o = ops.ladd(off, Const(rel)) if not isinstance(off, Const) \
            else Const(off.v + rel)
        t = Term("read", buf, o, ch)
        I.emit("read", t, [o, Const(ch)], node=node)
        v = I.hooks.get("readval")
        vals.append(v(I, t) if v else t)
    return Tup(vals)


def struct_fmt(t):
    if isinstance(t, Term) and t.op == "Struct" and isinstance(
            t.args[0], Const):
        return t.args[0].v
    return None


def h_unpack_from(I, f, args, kwargs, node):
    fmt = struct_fmt(f.args[0])
    if fmt is None:
        return NotImplemented
    buf = I.norm(args[0] if args else kwargs["buffer"])
    off = I.norm(args[1]) if len(args) > 1 else I.norm(
        kwargs.get("offset", Const(0)))
    return reads(I, buf, off, fmt, node)


def h_unpack(I, f, args, kwargs, node):
    fmt = struct_fmt(f.args[0])
    if fmt is None:
        return NotImplemented
    return unpack_slice(I, fmt, I.norm(args[0]), node)


def unpack_slice(I, fmt, v, node):
    if isinstance(v, Term) and v.op == "slice":
        lo = v.args[1]
        if lo == NONE:
            lo = Const(0)
        hi = v.args[2]
        r = fmt_fields(fmt)
        if r is None:
            return NotImplemented
        if hi != NONE and ops.ladd(hi, lo, -1) == Const(r[1]):
            return reads(I, v.args[0], lo, fmt, node)
    return NotImplemented


def h_s_unpack(I, f, args, kwargs, node):
    if isinstance(args[0], Const):
        return unpack_slice(I, args[0].v, I.norm(args[1]), node)
    return NotImplemented


def h_s_unpack_from(I, f, args, kwargs, node):
    if isinstance(args[0], Const):
        off = I.norm(args[2]) if len(args) > 2 else Const(0)
        return reads(I, I.norm(args[1]), off, args[0].v, node)
    return NotImplemented


def h_ord(I, f, args, kwargs, node):
    v = I.norm(args[0])
    if isinstance(v, Term) and v.op == "slice":
        r = unpack_slice(I, "B", v, node)
        if r is not NotImplemented:
            return r.items[0]
    if isinstance(v, Term) and v.op == "read":
        # ord() of an int: python 3 indexing already gives an int
        I.throw("TypeError", Const("ord of int"))
    return NotImplemented


def h_index(isbuf):
    def hook(I, t, k):
        if isbuf(t):
            v = I.hooks.get("readval")
            r = Term("read", t, k, "B")
            I.emit("read", r, [k, Const("B")])
            return v(I, r) if v else r
        return NotImplemented
    return hook


def h_size(I, o, name):
    fmt = struct_fmt(o)
    if fmt is not None:
        if name == "size":
            return Const(struct.calcsize(fmt))
        return Const(fmt)
    return NotImplemented


def h_from_bytes(I, f, args, kwargs, node):
    v = I.norm(args[0])
    order = args[1] if len(args) > 1 else kwargs.get("byteorder")
    signed = kwargs.get("signed", Const(False))
    if isinstance(v, Term) and v.op == "slice" and isinstance(order, Const) \
       and isinstance(signed, Const):
        w = ops.ladd(v.args[2], v.args[1], -1)
        if isinstance(w, Const) and w.v in (1, 2, 4, 8):
            ch = {1: "B", 2: "H", 4: "I", 8: "Q"}[w.v]
            if signed.v:
                ch = ch.lower()
            return reads(I, v.args[0], v.args[1],
                         (">" if order.v == "big" else "<") + ch,
                         node).items[0]
    return NotImplemented


def hooks(isbuf):
    return {
        "meth:unpack_from": h_unpack_from,
        "meth:unpack": h_unpack,
        "ext:struct.unpack": h_s_unpack,
        "ext:struct.unpack_from": h_s_unpack_from,
        "ext:builtins.ord": h_ord,
        "ext:builtins.int.from_bytes": h_from_bytes,
        "attr:size": h_size,
        "attr:format": h_size,
        "index": h_index(isbuf),
    }
