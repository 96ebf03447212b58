"""A symbolic class-file unpacker.

The unpacker is an instance of the repository's own unpacker class whose
three primitive operations are replaced: each emits an 'rd' event and returns
terms naming the field read.  The composite operations of the unpacker
(counted arrays and the like) are interpreted from source.

The sequence of events of a path, with loop summaries inlined, is the grammar
which the analysed reader accepts."""

from .values import Const, Term, Tup, Ref, Rep, Item, NONE, Ext, HInst
from . import ops, bytestream
from .interp import Undecided

KINDS = ("pack.Unpacker", "pack.BufferUnpacker", "pack.StreamUnpacker")


def upsym(I, v):
    return I.norm(v)


def field(I, up, ch, node):
    k = ("rd", up)
    n = I.st.counts.get(k, 0)
    I.st.counts[k] = n + 1
    within = I.st.within
    t = Term("fld", up, (within, n) if within else n, ch)
    I.emit("rd", up, [Const(ch), t], node=node)
    h = I.hooks.get("fieldval")
    return h(I, t) if h else t


def unpack_fmt(I, up, fmt, node):
    fmt = I.norm(fmt)
    up = upsym(I, up)
    if isinstance(fmt, Const):
        r = bytestream.fmt_fields(fmt.v)
        if r is None:
            raise Undecided("format %r" % (fmt.v,))
        return Tup([field(I, up, ch, node) for _o, ch, _s in r[0]])
    # a repeat count built into the format
    if isinstance(fmt, Term) and fmt.op == "cat":
        parts = [p for p in fmt.args[0] if p != Const("")] \
            if len(fmt.args) == 1 and isinstance(fmt.args[0], tuple) \
            else [p for p in fmt.args if p != Const("")]
        if len(parts) == 3 and parts[0] in (Const(">"), Const("!")) and \
           isinstance(parts[2], Const) and len(parts[2].v) == 1:
            c = parts[1]
            if isinstance(c, Term) and c.op == "strof":
                c = c.args[0]
            ch = parts[2].v
            k = ("rd", up)
            n = I.st.counts.get(k, 0)
            I.st.counts[k] = n + 1
            t = Term("fldarr", up, n, ch, c)
            I.emit("rdarr", up, [Const(ch), c, t], node=node)
            return t
    raise Undecided("format %s" % (fmt,))


def h_unpack(I, f, args, kwargs, node):
    return unpack_fmt(I, args[0], args[1], node)


def h_unpack_struct(I, f, args, kwargs, node):
    fmt = bytestream.struct_fmt(I.norm(args[1]))
    if fmt is None:
        st = I.norm(args[1])
        if isinstance(st, Term) and st.op == "Struct":
            return unpack_fmt(I, args[0], st.args[0], node)
        raise Undecided("struct %s" % (args[1],))
    return unpack_fmt(I, args[0], Const(fmt), node)


def h_read(I, f, args, kwargs, node):
    up = upsym(I, args[0])
    k = ("rd", up)
    n = I.st.counts.get(k, 0)
    I.st.counts[k] = n + 1
    c = I.norm(args[1])
    t = Term("bytes", up, (I.st.within, n) if I.st.within else n, c)
    I.emit("rdbytes", up, [c, t], node=node)
    return t


def mkup(I, sym):
    cls = I.get("pack", "BufferUnpacker")
    if cls is None:
        raise Undecided("no buffer unpacker")
    return I.syminst(cls, sym)


def h_open(I, f, args, kwargs, node):
    """unpack(buffer)"""
    buf = I.norm(args[0])
    I.emit("open", buf, [], node=node)
    return mkup(I, Term("up", buf))


def h_close(I, f, args, kwargs, node):
    I.emit("close", upsym(I, args[0]), [], node=node)
    return NONE


def hooks(**more):
    h = {"pack.unpack": h_open}
    for k in KINDS:
        h[k + ".unpack"] = h_unpack
        h[k + ".unpack_struct"] = h_unpack_struct
        h[k + ".read"] = h_read
        h[k + ".close"] = h_close
    h.update(more)
    return h


class Seq(list):
    pass


def grammar(I, events, up, extra=()):
    """[('u', ch, term) | ('b', count, term) | ('a', ch, count, term) |
    ('*', count, [alternatives]) | ('x', kind, event)] of an event list"""
    out = []
    for e in events:
        if e.kind == "rd" and e.fn == up:
            out.append(("u", e.args[0].v, e.args[1]))
        elif e.kind == "rdbytes" and e.fn == up:
            out.append(("b", e.args[0], e.args[1]))
        elif e.kind == "rdarr" and e.fn == up:
            out.append(("a", e.args[0].v, e.args[1], e.args[2]))
        elif e.kind == "loop":
            rec = e.fn
            alts = []
            for p in rec.conts():
                g = grammar(I, p.st.events, up, extra)
                alts.append((p, g))
            if any(g for _p, g in alts):
                cnt = None
                try:
                    cnt = I.count_of(rec.iter) if rec.iter is not None \
                        else None
                except Undecided:
                    pass
                out.append(("*", cnt, alts, rec))
        elif e.kind in extra:
            out.append(("x", e.kind, e))
    return out


def shape(g):
    """printable shape of a grammar"""
    out = []
    for x in g:
        if x[0] == "u":
            out.append(x[1])
        elif x[0] == "b":
            out.append("bytes")
        elif x[0] == "a":
            out.append("%s[]" % x[1])
        elif x[0] == "*":
            out.append("{%s}" % " | ".join(shape(a) for _p, a in x[2]))
        else:
            out.append(x[1])
    return " ".join(out)
