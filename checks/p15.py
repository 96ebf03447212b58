"""P15: the platform belonging to a class file version."""

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, show
from sa import ops, orders
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "for every major version of JVMS table 4.1-A up to 52 and a "
            "symbolic minor version, and for symbolic majors below 45, the "
            "name returned on each path agrees with the table for all minor "
            "versions which the path's conditions admit",
    "assumptions": ["later major versions may or may not be known"],
}

PLATFORM = {46: "1.2", 47: "1.3", 48: "1.4", 49: "1.5", 50: "1.6",
            51: "1.7", 52: "1.8"}
MINORS = sorted(set([0, 1, 2, 3, 4, 5, 100, 65534, 65535]) |
                set(range(6, 70)))


def want(major, minor):
    if major == 45:
        return "1.0.2" if minor <= 3 else "1.1"
    return PLATFORM.get(major) if major >= 45 else None


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    rule = "platform-table"
    m = Term("num", "MINOR")

    def judge(key, thunk, major):
        with rep.guard(key, rule):
            rep.ok(key, rule)
            base = len(I.base.path)
            seen = set()
            for p in I.run(thunk):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                v = nrm(I, p.st, p.val)
                if not isinstance(v, Const):
                    raise Undecided("result %s" % show(v))
                cs = orders.conds(p, base)
                for x in MINORS:
                    hs = [orders.holds(c, {m: x}) for c, _b in cs]
                    if None in hs:
                        raise Undecided("condition %s" % show(cs[hs.index(
                            None)][0]))
                    if all(h == b for h, (_c, b) in zip(hs, cs)):
                        seen.add(x)
                        if v.v != want(major, x):
                            rep.bad(key, rule, "version %d.%d gives %r, "
                                    "should be %r" % (major, x, v.v,
                                                      want(major, x)))
                            break
            if len(seen) != len(MINORS) and rep.ob(key, rule).status == "ok":
                raise Undecided("minor versions not covered")
    for major in list(range(0, 3)) + list(range(40, 53)):
        judge("platform:%d" % major, lambda: I.call(I.get(
            "", "platform_from_version"), [Const(major), m], {}), major)
        if major < 44:
            continue

        def go():
            o = I.syminst(I.get("", "JavaClassInfo"), "self", open_=True,
                          attrs={"version": Tup([Const(major), m])})
            return I.call(I.getattr(o, "get_platform"), [], {})
        judge("get_platform:%d" % major, go, major)
    rep.cover(I)
    rep.expect = 15
