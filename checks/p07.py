"""P07: context managers release their resource and let exceptions pass."""

from sa.interp import Interp, Undecided, term_mentions
from sa.values import (Const, Term, Tup, Ref, NONE, HInst, Cls, Func, Ext,
                       Mod, show)
from sa import ops, gram
from checks.p01 import nrm

META = {
    "level": "proof",
    "rule": "every class of the package with __enter__ and __exit__: the "
            "value returned by __exit__ is false on every path on which an "
            "exception is given, and the managed resource is closed exactly "
            "once on every path on which it is there and can be closed",
    "assumptions": ["the managed object's close method does not fail"],
}

M = Term("param", "M")
E = Term("param", "E")


def classes(I, prog):
    """all classes of the package which are context managers"""
    out = []
    seen = set()
    for name, fid in sorted(I.modids.items()):
        fr = I.base.frames[fid] if hasattr(I.base, "frames") else None
        for k, v in (fr.vars if fr else {}).items():
            if isinstance(v, Cls) and v.qual not in seen:
                seen.add(v.qual)
                a, _k = I.cls_lookup(v, "__enter__")
                b, _k = I.cls_lookup(v, "__exit__")
                if isinstance(b, Func) or isinstance(a, Func):
                    out.append((v, a, b))
    return out


def build(I, cls):
    """an instance managing M, as made by its constructor"""
    n = cls.name
    if n in ("ClosingContext", "StreamUnpacker"):
        return I.call(cls, [M], {}), True
    if n == "JarInfo":
        return I.call(cls, [], {"zipfile": M}), True
    if n == "BufferUnpacker":
        return I.call(cls, [M], {}), False
    return I.syminst(cls, "self_" + n, open_=True), False


def built(p):
    return any(e.kind == "mark" for e in p.events)


def closes(p, after):
    n, on = 0, False
    for e in p.events:
        if e.kind == "mark" and e.fn == Const(after):
            on = True
        elif on and e.kind == "call" and isinstance(e.fn, Term) and \
                e.fn.op == "attr" and e.fn.args[1] == "close" and \
                e.fn.args[0] == M:
            n += 1
    return n


def absent(I, p):
    """the path says that there is nothing which could be closed"""
    for c, b, _l in p.path:
        if isinstance(c, Term) and c.op in ("truth", "isnone", "hasattr") \
                and c.args[0] == M:
            if (c.op == "isnone") == b:
                return True
    return gram.known(I, p.st, ops.cond_truth(M)) is False


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    found = classes(I, prog)
    for cls, en, ex in found:
        n = cls.name
        if isinstance(en, Func):
            key, rule = n + ":enter", "enter-returns-resource"
            with rep.guard(key, rule):
                def go():
                    o, _m = build(I, cls)
                    I.emit("mark", Const("exit"), [])
                    return Tup([o, I.call(I.getattr(o, "__enter__"), [],
                                          {})])
                for p in I.run(go):
                    if p.kind == "raise" and not built(p):
                        continue
                    if p.kind == "raise":
                        rep.bad(key, rule, "__enter__ raises %s" % show(
                            p.val), p.loc)
                        continue
                    o, v = p.val.items
                    v = nrm(I, p.st, v)
                    ok = v == nrm(I, p.st, o) or v == M
                    if not ok and v != NONE:
                        raise Undecided(show(v))
                    rep.check(ok, key, rule, "with %s() as x binds None" % n)
        if not isinstance(ex, Func):
            continue
        for how in ("normal", "exception"):
            key = "%s:exit-%s" % (n, how)
            rule = "closes" if how == "normal" else "closes-and-propagates"
            with rep.guard(key, rule):
                def go():
                    o, m = build(I, cls)
                    I.emit("mark", Const("exit"), [])
                    a = [NONE] * 3 if how == "normal" else [
                        Term("new", "exctype", (E,)), E,
                        Term("new", "traceback", ())]
                    r = I.call(I.getattr(o, "__exit__"), a, {})
                    return Tup([r, Const(m)])
                rep.ok(key, rule)
                for p in I.run(go):
                    if p.kind == "raise" and not built(p):
                        continue
                    if p.kind == "raise":
                        rep.bad(key, rule, "__exit__ raises %s" % show(p.val),
                                p.loc)
                        continue
                    r, m = p.val.items
                    if how == "exception":
                        r = nrm(I, p.st, r)
                        t = None
                        if isinstance(r, Const):
                            t = bool(r.v)
                        else:
                            t = gram.known(I, p.st, ops.cond_truth(r))
                        if t is None:
                            raise Undecided("result %s" % show(r))
                        if t:
                            rep.bad(key, rule, "an exception raised in the "
                                    "block is suppressed")
                    if m.v:
                        c = closes(p, "exit")
                        if c != 1 and not (c == 0 and absent(I, p)):
                            rep.bad(key, rule, "the managed object is closed "
                                    "%d times%s" % (c, " if an exception is "
                                                    "raised" if how !=
                                                    "normal" else ""))
    # closing()
    key, rule = "closing", "closing-gives-manager"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        for p in I.run(lambda: I.call(I.get("dirutils", "closing"), [M],
                                      {})):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            v = nrm(I, p.st, p.val)
            none = any(isinstance(c, Term) and c.op == "isnone" and b
                       for c, b, _l in p.path if c.args and c.args[0] == M)
            has = any(isinstance(c, Term) and c.op == "hasattr" and b and
                      c.args[0] == M and str(getattr(c.args[1], "v", c.args[
                          1])) in ("__enter__", "__exit__") for c, b, _l in p.path)
            if v == M or (v == NONE and none):
                rep.check(none or has, key, rule, "an object without "
                          "__enter__ is returned as it is")
            elif isinstance(p.val, Ref):
                h = p.st.heap.get(p.val.addr)
                if not isinstance(h, HInst):
                    raise Undecided(show(v))
                f, _k = I.cls_lookup(h.cls, "__exit__")
                rep.check(isinstance(f, Func), key, rule, "returns an object "
                          "which is no context manager")
            else:
                raise Undecided("returns %s" % show(v))
    # opening through a manager
    for mod, fn, args in (("ziputils", "open_zip", 1),
                          ("ziputils", "open_zip_entry", 2)):
        key, rule = fn, "opener-gives-manager"
        with rep.guard(key, rule):
            seen = []

            def h_closing(I_, f, a, kw, node):
                seen.append(I_.norm(a[0]))
                return Term("managed", I_.norm(a[0]))
            I.hooks = {"dirutils.closing": h_closing,
                       "ziputils.zip_file": lambda I_, f, a, kw, n:
                       Term("zip", I_.norm(a[0]))}
            A = [Term("param", "a%d" % i) for i in range(args)]
            rep.ok(key, rule)
            for p in I.run(lambda: I.call(I.get(mod, fn), A, {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                v = nrm(I, p.st, p.val)
                if v == NONE:
                    rep.bad(key, rule, "returns None")
                elif not (isinstance(v, Term) and v.op == "managed"):
                    if fn == "open_zip" and isinstance(v, Term) and \
                            v.op == "zip":
                        rep.bad(key, rule, "an exploded archive is returned "
                                "without a context manager")
                    elif not term_mentions(v, lambda x: isinstance(x, Term)
                                           and x.op == "managed"):
                        raise Undecided("returns %s" % show(v))
            I.hooks = {}
    rep.info["context_managers"] = [c.qual for c, _a, _b in found]
    rep.cover(I)
    rep.expect = 8
