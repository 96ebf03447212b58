"""P11: Deprecated and Synthetic are recognised by presence."""

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, show
from sa import ops, gram
from checks.p12 import owner, buf, NAMES
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "with the marker attribute present with unknown content, empty "
            "content included, the predicate is true on every path; with it "
            "missing it is false on every path, except that the ACC_SYNTHETIC "
            "bit alone also makes a member synthetic",
}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    rule = "marker-by-presence"
    for cname, method in (("JavaClassInfo", None), ("JavaMemberInfo", True),
                          ("JavaMemberInfo", False)):
        for pred, attr in (("is_deprecated", "Deprecated"),
                           ("is_synthetic", "Synthetic")):
            if cname == "JavaClassInfo" and pred == "is_synthetic":
                continue
            for present in ("present", "missing"):
                for flag in (0, 0x1000) if pred == "is_synthetic" else (
                        0, None):
                    key = "%s%s.%s:%s:%s" % (
                        cname, "" if method is None else ":method" if method
                        else ":field", pred, present,
                        "flags" if flag is None else "%04x" % flag)
                    want = present == "present" or flag == 0x1000
                    with rep.guard(key, rule):
                        rep.ok(key, rule)

                        def go():
                            o = owner(I, cname, method, None if present ==
                                      "present" else attr)
                            f = ops.bits("F") if flag is None else ops.bits(
                                "F", 0x1000, flag)
                            I.setattr(o, "access_flags", f)
                            return Const(bool(I.truth(I.call(I.getattr(
                                o, pred), [], {}))))
                        for p in I.run(go):
                            if p.kind == "raise":
                                rep.bad(key, rule, "raises %s" % show(p.val),
                                        p.loc)
                                continue
                            isnone = gram.known(I, p.st, ops.cond_isnone(
                                buf(attr)))
                            if present == "present" and isnone is True:
                                continue
                            if p.val.v != want:
                                cs = [("" if b else "not ") + show(c)
                                      for c, b, _l in p.path[
                                          len(I.base.path):]]
                                rep.bad(key, rule, "%s() is %s if the %s "
                                        "attribute is %s%s" % (
                                            pred, p.val.v, attr, present,
                                            " and " + ", ".join(cs)
                                            if cs else ""))
    rep.cover(I)
    rep.expect = 14
