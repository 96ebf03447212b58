"""Normal forms for symbolic operators (linear sums, bit tests, text)."""

from .values import Const, Term, Tup, NONE, TRUE, FALSE

NUMOPS = {"bits", "sum", "mul", "mod", "div", "&", "|", "^", "<<", ">>", "~", "num",
          "pow"}
UNSIGNED_FMT = set("BHILQ")


def mk(v):
    """python value to abstract value"""
    if isinstance(v, tuple):
        return Tup([mk(x) for x in v])
    return Const(v)


def unmk(v):
    """abstract value to python value, or raise ValueError"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(unmk(x) for x in v.items)
    raise ValueError(v)


def is_num(v):
    if isinstance(v, Const):
        return isinstance(v.v, (int, float))
    if isinstance(v, Term):
        if v.op in NUMOPS:
            return True
        if v.op == "param" and len(v.args) > 1 and v.args[1] == "num":
            return True
        if v.op in ("read", "fld"):
            return v.args[-1] in set("bBhHiIlLqQfd")
        if v.op == "call":
            f = v.args[0]
            return getattr(f, "name", None) in (
                "builtins.len", "builtins.ord", "builtins.int",
                "builtins.sum")
        if v.op == "attr" and v.args[1] in ("size",):
            return True
    return False


def is_unsigned(t):
    if t.op in ("read", "fld"):
        return t.args[-1] in UNSIGNED_FMT
    if t.op == "call":
        return getattr(t.args[0], "name", None) in (
            "builtins.len", "builtins.ord")
    if t.op in ("mod", "&", "num", "bits"):
        return True
    return False


# -- known-bits domain: ('bits', base, known mask, value) over 16 bits -------

BITMASK = 0xFFFF


def bits(base, known=0, value=0):
    known &= BITMASK
    value &= known
    if known == BITMASK:
        return Const(value)
    return Term("bits", base, known, value)


def bits_op(op, t, m):
    _b, base, known, value = (t.op,) + tuple(t.args)
    if op == "&":
        return bits(base, known | (BITMASK & ~m), value & m)
    if op == "|" and 0 <= m <= BITMASK:
        return bits(base, known | m, value | m)
    return None


def is_strish(v):
    if isinstance(v, Const):
        return isinstance(v.v, (str, bytes))
    return isinstance(v, Term) and v.op in ("cat", "strof", "fmt", "join", "chr1",
                                               "sname")


def lin(v):
    """(const, {term: coef})"""
    if isinstance(v, Const) and isinstance(v.v, (int, bool)) \
       and not isinstance(v.v, float):
        return int(v.v), {}
    if isinstance(v, Term) and v.op == "sum":
        return v.args[0], {t: c for c, t in v.args[1:]}
    if isinstance(v, Term):
        return 0, {v: 1}
    return None


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return Const(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return Term("sum", c, *[(k, t) for t, k in
                            sorted(d.items(), key=lambda x: repr(x[0]))])


def ladd(a, b, sign=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sign * k
    return mklin(ca + sign * cb, d)


def lscale(a, k):
    ca, da = lin(a)
    return mklin(ca * k, {t: c * k for t, c in da.items()})


def cat(parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == "cat":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, Const) and isinstance(p.v, (str, bytes)):
            if len(p.v) == 0:
                continue
            if res and isinstance(res[-1], Const) \
               and type(res[-1].v) is type(p.v):
                res[-1] = Const(res[-1].v + p.v)
                continue
        res.append(p)
    if not res:
        return Const("")
    if len(res) == 1:
        return res[0]
    return Term("cat", *res)


def strof(v, conv="s"):
    if isinstance(v, Const) and conv in "s":
        if isinstance(v.v, bytes):
            return Term("strof", v)
        return Const(str(v.v))
    if isinstance(v, Const) and conv in "di" and isinstance(v.v, (int, bool)):
        return Const("%d" % v.v)
    if isinstance(v, Const) and conv == "r":
        return Const(repr(v.v))
    if conv == "s" and is_strish(v):
        return v
    if conv in ("s", "d", "i", "u"):
        return Term("strof", v)
    return Term("fmt", conv, v)


def pow2(n):
    return n > 0 and (n & (n - 1)) == 0


def binop(op, a, b):
    """op is a string; returns Val or None when nothing is known"""
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            r = PYOPS[op](a.v, b.v)
        except Exception:
            return Term("binop-error", op, a, b)
        return mk(r) if not isinstance(r, list) else None
    if op == "+":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if is_strish(a) or is_strish(b):
            return cat([a, b])
        if (is_num(a) or is_num(b)) and lin(a) is not None \
           and lin(b) is not None:
            return ladd(a, b)
        return Term("+", a, b)
    if op == "-":
        if (is_num(a) or is_num(b) or True) and lin(a) is not None \
           and lin(b) is not None:
            return ladd(a, b, -1)
        return Term("-", a, b)
    if op == "*":
        if isinstance(a, Const) and isinstance(a.v, int) \
           and isinstance(b, Term):
            return lscale(b, a.v)
        if isinstance(b, Const) and isinstance(b.v, int) \
           and isinstance(a, Term) and not is_strish(a):
            return lscale(a, b.v)
        if isinstance(a, Term) and isinstance(b, Term):
            x, y = sorted((a, b), key=repr)
            return Term("mul", x, y)
        return Term("mul", a, b)
    if op == "%":
        if isinstance(b, Const) and isinstance(b.v, int) and b.v > 0 \
           and isinstance(a, Term):
            c, d = lin(a)
            d = {t: k % b.v for t, k in d.items()}
            r = mklin(c % b.v, d)
            if isinstance(r, Const):
                return r
            return Term("mod", r, b)
        return Term("mod", a, b)
    if op == "//":
        if isinstance(b, Const) and isinstance(b.v, int) and b.v > 0 \
           and isinstance(a, Term):
            c, d = lin(a)
            if all(k % b.v == 0 for k in d.values()):
                return mklin(c // b.v, {t: k // b.v for t, k in d.items()})
        return Term("div", a, b)
    if op == "/":
        return Term("fdiv", a, b)
    if op in ("&", "|"):
        if isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Term) and a.op == "bits" and \
           isinstance(b, Const) and isinstance(b.v, int):
            r = bits_op(op, a, int(b.v))
            if r is not None:
                return r
    if op == "&":
        if isinstance(b, Const) and isinstance(b.v, int):
            m = int(b.v)
            if m == 0:
                return Const(0)
            if isinstance(a, Term):
                if a.op == ">>" and isinstance(a.args[1], Const) and \
                        isinstance(a.args[0], Term) and \
                        a.args[0].op == "bits" and m >= 0:
                    return binop(">>", binop("&", a.args[0],
                                             Const(m << a.args[1].v)),
                                 a.args[1])
                if m > 0 and pow2(m + 1):
                    if not (a.op in ("read", "fld") and a.args[-1] == "B"
                            and m == 255):
                        c, d = lin(a)
                        if a.op == "sum" or not d:
                            return binop("%", a, Const(m + 1))
                    else:
                        return a
                if m < 0 and pow2(-m) and isinstance(a, Term):
                    return ladd(a, binop("%", a, Const(-m)), -1)
                if a.op == ">>" and isinstance(a.args[1], Const):
                    # (x >> k) & m : same set bits test as x & (m << k)
                    return Term(">>", binop("&", a.args[0],
                                            Const(m << a.args[1].v)),
                                a.args[1])
                if a.op == "&" and isinstance(a.args[1], Const):
                    return binop("&", a.args[0], Const(a.args[1].v & m))
            return Term("&", a, b)
        x, y = sorted((a, b), key=repr)
        return Term("&", x, y)
    if op in ("|", "^"):
        x, y = sorted((a, b), key=repr)
        return Term(op, x, y)
    if op == "<<" and isinstance(b, Const) and isinstance(b.v, int) \
       and isinstance(a, Term):
        return lscale(a, 1 << b.v)
    if op in ("<<", ">>"):
        return Term(op, a, b)
    if op == "**":
        return Term("pow", a, b)
    return Term("binop", op, a, b)


PYOPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b,
    "*": lambda a, b: a * b, "%": lambda a, b: a % b,
    "//": lambda a, b: a // b, "/": lambda a, b: a / b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b,
    "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b,
    ">>": lambda a, b: a >> b, "**": lambda a, b: a ** b,
    "@": lambda a, b: None,
}


class FormatError(Exception):
    """formatting is certain to fail, with the exception named"""


def percent_format(fmt, args, exact=False):
    """fmt: str; args: list of Val, or dict name->Val. -> Val or None.
    exact: the args are those of a tuple, or one which is no tuple"""
    import re
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?"
                         r"([hlL]?)([a-zA-Z%])", fmt):
        parts.append(Const(fmt[pos:m.start()]))
        if "%" in parts[-1].v or m.group(6) not in "diouxXeEfFgGcrsa%":
            raise FormatError("ValueError")
        pos = m.end()
        conv = m.group(6)
        if conv == "%":
            parts.append(Const("%"))
            continue
        if m.group(1):
            if not isinstance(args, dict) or m.group(1) not in args:
                return None
            v = args[m.group(1)]
        else:
            if isinstance(args, dict):
                return None
            if m.group(3) == "*":
                i += 1
            if i >= len(args):
                if exact:
                    raise FormatError("TypeError")
                return None
            v = args[i]
            i += 1
        if conv not in "rsac" and (
                isinstance(v, Const) and (v.v is None or isinstance(
                    v.v, (str, bytes))) or is_strish(v) or
                isinstance(v, Tup)):
            raise FormatError("TypeError")
        spec = (m.group(2) or "") + (m.group(3) or "")
        if m.group(4):
            spec += "." + m.group(4)
        if spec:
            if isinstance(v, Const):
                try:
                    parts.append(Const(("%" + spec + conv) % v.v))
                    continue
                except Exception:
                    pass
            parts.append(Term("fmt", spec + conv, v))
        else:
            parts.append(strof(v, conv))
    parts.append(Const(fmt[pos:]))
    if "%" in parts[-1].v:
        raise FormatError("ValueError")
    if not isinstance(args, dict) and i != len(args):
        if exact:
            raise FormatError("TypeError")
        return None
    return cat(parts)


# -- conditions --------------------------------------------------------

def cond_eq(a, b):
    """canonical equality condition: TRUE/FALSE or (term, polarity)"""
    if a == b:
        return True
    if isinstance(a, Const) and isinstance(b, Const):
        return bool(a.v == b.v)
    if isinstance(b, Const) and b.v is None:
        return cond_isnone(a)
    if isinstance(a, Const) and a.v is None:
        return cond_isnone(b)
    if b in (Const(""), Const(b"")) and isinstance(a, Term) and \
       a.op == "sname":
        return False
    if isinstance(a, Tup) and isinstance(b, Const) \
       or isinstance(b, Tup) and isinstance(a, Const):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.op == "chr1" and isinstance(y, Const):
            if not isinstance(y.v, str) or len(y.v) != 1:
                return False
            return cond_eq(x.args[0], Const(ord(y.v)))
        if isinstance(x, Term) and x.op == "char0" and isinstance(y, Const):
            if not isinstance(y.v, str) or len(y.v) != 1 \
               or y.v in x.args[0].args[1]:
                return False
    # boolean comparison  t == True
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Const) and y.v is True and isinstance(x, Term):
            return cond_truth(x)
        if isinstance(y, Const) and y.v is False and isinstance(x, Term):
            c = cond_truth(x)
            return neg(c)
    # numeric: normal form of difference
    if is_num(a) or is_num(b):
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            d = ladd(a, b, -1)
            if isinstance(d, Const):
                return d.v == 0
            c, m = lin(d)
            items = sorted(m.items(), key=lambda x: repr(x[0]))
            if items[0][1] < 0:
                c = -c
                m = {t: -k for t, k in m.items()}
                items = sorted(m.items(), key=lambda x: repr(x[0]))
            if len(items) == 1 and items[0][1] == 1:
                return eq_const(items[0][0], -c)
            if len(items) == 2 and c == 0 and \
               sorted(k for _t, k in items) == [-1, 1]:
                return Term("eq", items[0][0], items[1][0]), True
            return Term("eq", mklin(c, m), Const(0)), True
    if isinstance(a, Const):
        a, b = b, a
    if isinstance(b, Const):
        return Term("eq", a, b), True
    x, y = sorted((a, b), key=repr)
    return Term("eq", x, y), True


def eq_const(t, c):
    if t.op == "bits" and isinstance(c, int):
        base, known, value = t.args
        if c < 0 or c > BITMASK or (c & known) != value:
            return False
        u = BITMASK & ~known
        if pow2(u):
            return Term("bit", base, u), bool(c & u)
        return Term("eq", t, Const(c)), True
    if is_unsigned(t) and c < 0:
        return False
    if c == 0 and t.op == "call" and \
       getattr(t.args[0], "name", None) == "builtins.len":
        return neg(cond_truth(t.args[1][0]))
    if t.op == "&" and isinstance(t.args[1], Const):
        m = t.args[1].v
        if c & ~m:
            return False
        if pow2(m) and c == m:
            return Term("eq", t, Const(0)), False
    if t.op == ">>" and isinstance(t.args[1], Const):
        k = t.args[1].v
        inner = t.args[0]
        if inner.op == "bits" and not (
                (BITMASK & ~inner.args[1] | inner.args[2]) &
                ((1 << k) - 1)):
            return eq_const(inner, c << k)
        if inner.op == "&" and isinstance(inner.args[1], Const) \
           and (inner.args[1].v & ((1 << k) - 1)) == 0:
            return eq_const(inner, c << k)
    return Term("eq", t, Const(c)), True


def neg(c):
    if isinstance(c, bool):
        return not c
    return c[0], not c[1]


def cond_isnone(a):
    if isinstance(a, Const):
        return a.v is None
    if not isinstance(a, Term):
        return False
    if a.op in ("bits", "cat", "sname", "chr1", "sum", "strof", "new", "list", "mod", "&", "read", "fld") \
            or a.op in NUMOPS:
        return False
    return Term("isnone", a), True


TRUEOPS = {"Struct", "new", "lambda", "module"}


def cond_truth(t):
    if isinstance(t, Const):
        return bool(t.v)
    if isinstance(t, Tup):
        return bool(t.items)
    if not isinstance(t, Term):
        return True
    if t.op == "boolof":
        return t.args[0], t.args[1]
    if t.op in TRUEOPS:
        return True
    if t.op == "not":
        return neg(cond_truth(t.args[0]))
    if t.op in ("eq", "lt0", "in", "isnone", "isinstance", "hasattr",
                "lt", "truth", "matches", "bit"):
        return t, True
    if t.op == "sname":
        return True
    if t.op == "cat":
        if any(isinstance(p, Const) and p.v or isinstance(p, Term) and
               p.op == "sname" for p in t.args):
            return True
    if t.op == "call" and getattr(t.args[0], "name", None) == "builtins.len":
        return cond_truth(t.args[1][0])
    if is_num(t):
        return neg(cond_eq(t, Const(0)))
    return Term("truth", t), True


def cond_lt(a, b):
    """a < b"""
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return bool(a.v < b.v)
        except Exception:
            return Term("lt", a, b), True
    numeric = is_num(a) or is_num(b)
    if numeric and lin(a) is not None and lin(b) is not None:
        d = ladd(a, b, -1)
        if isinstance(d, Const):
            return d.v < 0
        return lt0(d)
    return Term("lt", a, b), True


def lt0(d):
    c, m = lin(d)
    items = sorted(m.items(), key=lambda x: repr(x[0]))
    pol = True
    if items[0][1] < 0:
        # d < 0  <=>  not (-d - 1 < 0)   (integers)
        c = -c - 1
        m = {t: -k for t, k in m.items()}
        pol = False
    if len(m) == 1:
        (t, k), = m.items()
        if k == 1 and is_unsigned(t):
            if c >= 0:
                return not pol          # t + c < 0 never
            if c == -1:                 # t < 1  <=>  t == 0
                r = eq_const(t, 0)
                return r if pol else neg(r)
    return Term("lt0", mklin(c, m)), pol
