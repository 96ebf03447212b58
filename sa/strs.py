"""Strings of known structure: concatenations of constant text and of named
unknown parts ("sname") which are not empty and do not contain certain
characters.  Positions in them are linear in the lengths of the parts."""

from .values import Const, Term, Tup, Ext, NONE
from . import ops
from .ops import mk


def sname(name, forbidden):
    return Term("sname", name, forbidden)


def is_atom(v):
    return isinstance(v, Term) and v.op == "sname"


def parts(v):
    """list of constant texts and atoms, or None"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return [v] if v.v else []
    if is_atom(v):
        return [v]
    if isinstance(v, Term) and v.op == "cat":
        if all(is_atom(p) or isinstance(p, Const) and isinstance(p.v, str)
               for p in v.args):
            return list(v.args)
    return None


def structured(v):
    return isinstance(v, Term) and v.op in ("sname", "cat") and \
        parts(v) is not None


def alen(a):
    return Term("call", Ext("builtins.len"), (a,), (), 0)


def length(ps):
    r = Const(0)
    for p in ps:
        r = ops.ladd(r, Const(len(p.v)) if isinstance(p, Const) else alen(p))
    return r


def sub(a, b):
    return ops.ladd(a, b, -1)


def sign(d):
    """definite sign information of a linear value, atoms being >= 1 long:
    '<', '<=', '=', '>=', '>' or None"""
    c, m = ops.lin(d)
    for t in m:
        if not (isinstance(t, Term) and t.op == "call" and t.args[1] and
                is_atom(t.args[1][0])):
            return None
    if not m:
        return "=" if c == 0 else ">" if c > 0 else "<"
    if all(k > 0 for k in m.values()):
        low = c + sum(m.values())
        if low > 0:
            return ">"
        if low == 0:
            return ">="
    if all(k < 0 for k in m.values()):
        high = c + sum(m.values())
        if high < 0:
            return "<"
        if high == 0:
            return "<="
    return None


class Unknown(Exception):
    pass


def split_at(ps, off):
    """(left parts, right parts) at a position which is clipped to the text"""
    s = sign(off)
    if s in ("=", "<", "<="):
        return [], list(ps)
    left = []
    rest = off
    for i, p in enumerate(ps):
        s = sign(rest)
        if s in ("=", "<", "<="):
            return left, list(ps[i:])
        if isinstance(p, Const):
            r = sub(rest, Const(len(p.v)))
            s = sign(r)
            if s in (">", ">=", "="):
                left.append(p)
                rest = r
                continue
            if isinstance(rest, Const):
                k = rest.v
                return left + [Const(p.v[:k])], [Const(p.v[k:])] + list(
                    ps[i + 1:])
            raise Unknown()
        r = sub(rest, alen(p))
        if sign(r) in (">", ">=", "="):
            left.append(p)
            rest = r
            continue
        raise Unknown()
    return left, []


def absolute(ps, k, default):
    if k == NONE:
        return default
    if isinstance(k, Const) and isinstance(k.v, bool):
        k = Const(int(k.v))
    if ops.lin(k) is None:
        raise Unknown()
    s = sign(k)
    if s in ("=", ">", ">="):
        return k
    if s == "<":
        r = ops.ladd(length(ps), k)
        if sign(r) == "<":
            return Const(0)
        return r
    raise Unknown()


def getslice(v, k):
    ps = parts(v)
    lo, hi, step = k.args
    if step not in (NONE, Const(1)):
        raise Unknown()
    total = length(ps)
    lo = absolute(ps, lo, Const(0))
    hi = absolute(ps, hi, total)
    d = sub(hi, lo)
    s = sign(d)
    if s in ("<", "<=", "="):
        return Const("")
    if s is None:
        raise Unknown()
    _l, r = split_at(ps, lo)
    # hi relative to the rest: lo may lie behind the end
    if sign(sub(lo, total)) in (">", ">=", "="):
        return Const("")
    l, _r = split_at(r, d)
    return ops.cat(l)


class Out(Exception):
    pass


def getindex(v, k):
    ps = parts(v)
    k = absolute(ps, k, None)
    total = length(ps)
    s = sign(sub(k, total))
    if s in (">", ">=", "="):
        raise Out()
    _l, r = split_at(ps, k)
    if not r:
        raise Out()
    if isinstance(r[0], Const):
        return Const(r[0].v[0])
    return Term("char0", r[0])


def find(v, needle, start, end, last=False):
    """position of a text, -1 if it is not there"""
    ps = parts(v)
    if end != NONE:
        raise Unknown()
    if not (isinstance(needle, Const) and isinstance(needle.v, str)) or \
            len(needle.v) != 1:
        raise Unknown()
    c = needle.v
    start = absolute(ps, start, Const(0))
    left, right = split_at(ps, start)
    if last:
        pos = length(ps)
        for p in reversed(right):
            if isinstance(p, Const):
                i = p.v.rfind(c)
                if i >= 0:
                    return sub(pos, Const(len(p.v) - i))
                pos = sub(pos, Const(len(p.v)))
            else:
                if c not in p.args[1]:
                    raise Unknown()
                pos = sub(pos, alen(p))
        return Const(-1)
    pos = length(left)
    for p in right:
        if isinstance(p, Const):
            i = p.v.find(c)
            if i >= 0:
                return ops.ladd(pos, Const(i))
            pos = ops.ladd(pos, Const(len(p.v)))
        else:
            if c not in p.args[1]:
                raise Unknown()
            pos = ops.ladd(pos, alen(p))
    return Const(-1)


def has(v, needle):
    return find(v, needle, NONE, NONE) != Const(-1)


def replace_atom(a, x, y):
    if x in a.args[1]:
        return a
    return Term("sname", ("repl", a.args[0], x, y),
                "".join(sorted((set(a.args[1]) - set(y)) | (
                    {x} if x not in y else set()))))


def replace(v, x, y):
    if not (isinstance(x, Const) and isinstance(y, Const) and
            isinstance(x.v, str) and isinstance(y.v, str) and
            len(x.v) == 1 and len(y.v) >= 1):
        raise Unknown()
    out = []
    for p in parts(v):
        if isinstance(p, Const):
            out.append(Const(p.v.replace(x.v, y.v)))
        elif len(y.v) == 1:
            out.append(replace_atom(p, x.v, y.v))
        else:
            raise Unknown()
    return ops.cat(out)


def strip(v, n, chars):
    """strip, lstrip, rstrip of given characters"""
    if not (isinstance(chars, Const) and isinstance(chars.v, str)):
        raise Unknown()
    ps = parts(v)

    def one(ps, left):
        ps = list(ps)
        while ps:
            i = 0 if left else -1
            p = ps[i]
            if isinstance(p, Const):
                q = p.v.lstrip(chars.v) if left else p.v.rstrip(chars.v)
                if q:
                    ps[i] = Const(q)
                    break
                del ps[i]
            else:
                if not set(chars.v) <= set(p.args[1]):
                    raise Unknown()
                break
        return ps
    if n in ("strip", "lstrip"):
        ps = one(ps, True)
    if n in ("strip", "rstrip"):
        ps = one(ps, False)
    return ops.cat(ps)


def affix(v, x, end):
    """startswith / endswith"""
    if isinstance(x, Tup):
        rs = [affix(v, y, end) for y in x.items]
        return any(rs)
    if not (isinstance(x, Const) and isinstance(x.v, str)):
        raise Unknown()
    t = x.v
    ps = list(parts(v))
    while t:
        if not ps:
            return False
        p = ps.pop(-1 if end else 0)
        if isinstance(p, Const):
            n = min(len(t), len(p.v))
            if end:
                if t[-n:] != p.v[-n:]:
                    return False
                t = t[:-n]
            else:
                if t[:n] != p.v[:n]:
                    return False
                t = t[n:]
        else:
            if (t[-1] if end else t[0]) in p.args[1]:
                return False
            raise Unknown()
    return True


def split(v, sep, maxsplit):
    if not (isinstance(sep, Const) and isinstance(sep.v, str) and
            len(sep.v) == 1) or maxsplit not in (NONE, Const(-1)):
        raise Unknown()
    c = sep.v
    out = [[]]
    for p in parts(v):
        if isinstance(p, Const):
            bits = p.v.split(c)
            out[-1].append(Const(bits[0]))
            for b in bits[1:]:
                out.append([Const(b)])
        else:
            if c not in p.args[1]:
                if len(parts(v)) == 1:
                    return Term("splitof", v, sep)
                raise Unknown()
            out[-1].append(p)
    return [ops.cat(x) for x in out]


def partition(v, sep, last):
    i = find(v, sep, NONE, NONE, last)
    if i == Const(-1):
        r = [v, Const(""), Const("")]
        return Tup(r[::-1] if last else r)
    j = ops.ladd(i, Const(1))
    return Tup([getslice(v, Term("slice", NONE, i, NONE)), sep,
                getslice(v, Term("slice", j, NONE, NONE))])


def eq(a, b):
    """True, False or None"""
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return None
    if pa == pb:
        return True
    # strip common ends
    pa, pb = list(pa), list(pb)
    for end in (False, True):
        i = -1 if end else 0
        while pa and pb:
            x, y = pa[i], pb[i]
            if x == y:
                del pa[i], pb[i]
                continue
            if isinstance(x, Const) and isinstance(y, Const):
                n = min(len(x.v), len(y.v))
                if (x.v[-n:] != y.v[-n:]) if end else (
                        x.v[:n] != y.v[:n]):
                    return False
                for p, z in ((pa, x), (pb, y)):
                    rest = z.v[:-n] if end else z.v[n:]
                    if rest:
                        p[i] = Const(rest)
                    else:
                        del p[i]
                continue
            for x_, y_ in ((x, y), (y, x)):
                if isinstance(x_, Const) and is_atom(y_) and \
                        (x_.v[-1] if end else x_.v[0]) in y_.args[1]:
                    return False
            break
    if not pa or not pb:
        return not pa and not pb
    s = sign(sub(length(pa), length(pb)))
    if s in ("<", ">"):
        return False
    return None


def method(I, v, n, args, kw):
    """value of a method call, NotImplemented if not known"""
    a = [I.norm(x) for x in args]

    def arg(i, d=NONE):
        return a[i] if i < len(a) else d
    try:
        if kw:
            return NotImplemented
        if n in ("find", "index", "rfind", "rindex"):
            r = find(v, arg(0), arg(1), arg(2), n[0] == "r")
            if n.endswith("index") and r == Const(-1):
                I.throw("ValueError", Const("substring not found"))
            return r
        if n == "replace" and len(a) == 2:
            return replace(v, *a)
        if n in ("strip", "lstrip", "rstrip"):
            return strip(v, n, arg(0, Const(" \t\n\r\x0b\x0c")))
        if n in ("startswith", "endswith") and len(a) == 1:
            return Const(affix(v, a[0], n == "endswith"))
        if n in ("split", "rsplit"):
            r = split(v, arg(0), arg(1))
            return r if isinstance(r, Term) else I.newlist(r)
        if n in ("partition", "rpartition"):
            return partition(v, arg(0), n == "rpartition")
        if n == "count" and len(a) == 1 and isinstance(a[0], Const) and \
                len(a[0].v) == 1:
            k = 0
            for p in parts(v):
                if isinstance(p, Const):
                    k += p.v.count(a[0].v)
                elif a[0].v not in p.args[1]:
                    raise Unknown()
            return Const(k)
    except Unknown:
        pass
    return NotImplemented


def join(sep, v):
    """sep.join(text.split(c)) is a replacement"""
    if isinstance(v, Term) and v.op == "splitof":
        try:
            return replace(v.args[0], v.args[1], sep)
        except Unknown:
            pass
    return None
