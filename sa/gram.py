"""Matching of the analysed reading grammar against a specified layout."""

from .values import Const, Term, Tup, Ref, Rep, Item, HInst, HList, HDict, show
from . import ops
from .interp import Undecided
from .reader import grammar, shape

SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "q": 8, "Q": 8,
         "f": 4, "d": 8}


class Mismatch(Exception):
    pass


class V(object):
    """reference to a value bound earlier in the layout, plus an offset"""

    def __init__(self, name, add=0):
        self.name = name
        self.add = add

    def get(self, env):
        return ops.ladd(env[self.name], Const(self.add)) if self.add \
            else env[self.name]


def match(I, g, spec, env, path=()):
    """match a grammar against a layout; binds names in env.

    spec entries: ('B','name') fields, ('bytes', V, 'name'),
    ('*', V, spec, 'name'), ('x', kind, 'name')"""
    g = list(g)
    i = 0
    for s in spec:
        kind = s[0]
        if i >= len(g):
            raise Mismatch("nothing is read for %s" % describe([s]))
        x = g[i]
        if kind in SIZES:
            if x[0] == "u" and SIZES.get(x[1]) == SIZES[kind]:
                if x[1] != kind and (x[1] in "fd" or kind in "fd" or
                                     x[1].lower() == kind.lower()):
                    if s[1] is not None:
                        raise Mismatch("field %s is read as %r, should be "
                                       "%r" % (s[1], x[1], kind))
                if s[1] is not None:
                    env[s[1]] = x[2]
                i += 1
                continue
            if x[0] == "b" and s[1] is None and isinstance(x[1], Const) and \
                    x[1].v == SIZES[kind]:
                i += 1
                continue
            raise Mismatch("%s read where %s (%s) is expected" % (
                shape([x]), s[1] or "a field", kind))
        if kind == "bytes":
            if x[0] != "b":
                raise Mismatch("%s read where %s bytes are expected" % (
                    shape([x]), s[1].name))
            want = s[1].get(env)
            if x[1] != want:
                raise Mismatch("%s bytes are read, should be %s" % (
                    show(x[1]), show(want)))
            env[s[2]] = x[2]
            i += 1
            continue
        if kind == "*":
            want = s[1].get(env)
            if x[0] == "a":
                if len(s[2]) != 1 or SIZES.get(s[2][0][0]) != SIZES[x[1]]:
                    raise Mismatch("table read as %s" % shape([x]))
                if x[2] != want:
                    raise Mismatch("table of %s entries, should be %s" % (
                        show(x[2]), show(want)))
                env[s[3]] = [("arr", x[3])]
                i += 1
                continue
            if x[0] != "*":
                raise Mismatch("%s read where the table of %s is expected" % (
                    shape([x]), s[3]))
            if x[1] is None:
                raise Undecided("number of iterations of the %s loop" % s[3])
            if x[1] != want:
                raise Mismatch("table %s has %s entries, should have %s" % (
                    s[3], show(x[1]), show(want)))
            envs = []
            for p, alt in x[2]:
                e2 = dict(env)
                match(I, alt, s[2], e2)
                envs.append((p, e2))
            env[s[3]] = envs
            i += 1
            continue
        if kind == "x":
            if x[0] != "x" or x[1] != s[1]:
                raise Mismatch("%s read where %s is expected" % (
                    shape([x]), s[1]))
            env[s[2]] = x[2]
            i += 1
            continue
        raise AssertionError(kind)
    if i < len(g):
        raise Mismatch("reads %s beyond the end of the structure" %
                       shape(g[i:]))
    return env


def describe(spec):
    out = []
    for s in spec:
        if s[0] in SIZES:
            out.append("%s:%s" % (s[1] or "_", s[0]))
        elif s[0] == "bytes":
            out.append("bytes[%s]" % s[1].name)
        elif s[0] == "*":
            out.append("%s[%s]" % (s[3], s[1].name))
        else:
            out.append(s[1])
    return ", ".join(out)


ATTRS = [("H", "nattr"),
         ("*", V("nattr"), [("H", "aname"), ("I", "asize"),
                            ("bytes", V("asize"), "adata")], "attrs")]
MEMBER = [("H", "flags"), ("H", "name"), ("H", "desc")] + ATTRS
MAGIC = [("B", "m0"), ("B", "m1"), ("B", "m2"), ("B", "m3")]
CLASSBODY = [
    ("H", "minor"), ("H", "major"), ("x", "cp", "cp"),
    ("H", "flags"), ("H", "this"), ("H", "super"),
    ("H", "nifs"), ("*", V("nifs"), [("H", "if")], "ifs"),
    ("H", "nfields"), ("*", V("nfields"), MEMBER, "fields"),
    ("H", "nmethods"), ("*", V("nmethods"), MEMBER, "methods"),
] + ATTRS
EXC = [("H", "start"), ("H", "end"), ("H", "handler"), ("H", "type")]
CODE = [("H", "stack"), ("H", "locals"), ("I", "len"),
        ("bytes", V("len"), "code"), ("H", "nexc"),
        ("*", V("nexc"), EXC, "excs")] + ATTRS
INNER = [("H", "inner"), ("H", "outer"), ("H", "name"), ("H", "flags")]


def known(I, st, c):
    """truth of a canonical condition in a state, or None"""
    if isinstance(c, bool):
        return c
    saved = I.st
    I.st = st
    try:
        r = I.lookup_cond(c[0])
    finally:
        I.st = saved
    return None if r is None else r == c[1]


def rep_of(I, st, v):
    """[(path, [values])] and the iterated term of a sequence made by exactly
    one loop"""
    saved = I.st
    I.st = st
    try:
        segs = I.segs_of(v)
    finally:
        I.st = saved
    if len(segs) == 1 and isinstance(segs[0], Rep):
        r = segs[0]
        return r.iter, [(p, [x.v for x in s]) for p, s in r.alts]
    raise Undecided("sequence %s" % segs)
