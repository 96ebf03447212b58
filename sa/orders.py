"""Which orderings of some symbolic numbers does a path stand for?"""

from itertools import product

from .values import Const, Term
from . import ops
from .interp import Undecided


def value(t, env):
    """integer value of a linear term"""
    l = ops.lin(t)
    if l is None:
        raise Undecided("not linear: %s" % (t,))
    c, m = l
    r = c
    for u, k in m.items():
        if u not in env:
            raise Undecided("unknown quantity %s" % (u,))
        r += k * env[u]
    return r


def holds(c, env):
    """truth of an atomic condition, None if it is about something else"""
    try:
        if c.op == "lt0":
            return value(c.args[0], env) < 0
        if c.op == "eq":
            return value(c.args[0], env) == value(c.args[1], env)
        if c.op == "lt":
            return value(c.args[0], env) < value(c.args[1], env)
        if c.op == "truth":
            return value(c.args[0], env) != 0
    except Undecided:
        return None
    return None


def conds(p, base=0):
    return [(x[0], x[1]) for x in p.path[base:] if isinstance(x[0], Term)]


def orderings(terms, p, base=0, top=None):
    """assignments of small numbers, up to all weak orders, which satisfy
    every condition of the path; conditions on other things are ignored"""
    cs = conds(p, base)
    n = len(terms) if top is None else top
    for vals in product(range(n + 1), repeat=len(terms)):
        env = dict(zip(terms, vals))
        if all(holds(c, env) in (None, b) for c, b in cs):
            yield env
