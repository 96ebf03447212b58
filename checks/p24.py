"""P24: comparing two archives classifies every entry."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, NONE, HList, show
from sa import ops, orders
from sa.strs import sname
from checks.p01 import nrm
from checks.p43 import items

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over archives "
                 "with symbolic sizes, checksums and contents; each path is "
                 "compared with the specification for all equalities its "
                 "conditions admit",
    "rule": "every entry of either archive gives exactly one event: left or "
            "right only, or for entries of both, directories excepted, same "
            "exactly if all content is equal; the collecting functions file "
            "each event under its list",
    "assumptions": ["equal content implies equal size and checksum",
                    "content of more than three read chunks is treated like "
                    "that explored", "reads of equal size are served alike "
                    "by both archives"],
}


class Model(object):
    """two archives; entries: {name: (left chunks or None, right chunks)}"""

    def __init__(self, I, entries):
        self.I = I
        self.entries = entries
        self.z = {"L": Term("new", "zip", ("L",)),
                  "R": Term("new", "zip", ("R",))}
        self.pos = {}
        self.sizes = {}

    def side(self, o):
        for k, v in self.z.items():
            if o == v:
                return k
        return None

    def chunks(self, side, name):
        n = self.entries[name]["LR".index(side)]
        return [sname("%s:%s:%d" % (side, name, i), "") for i in range(n)]

    def hook(self, I, f, a, kw, node):
        o, m = f.args[0], f.args[1]
        s = self.side(o)
        if s and m == "namelist":
            return Tup([Const(n) for n, e in sorted(self.entries.items())
                        if e["LR".index(s)] is not None])
        if s and m == "infolist":
            return Tup([self.info(s, n) for n, e in sorted(
                self.entries.items()) if e["LR".index(s)] is not None])
        if s and m in ("getinfo", "open", "read") and a:
            name = a[0]
            if isinstance(name, Const) and name.v in self.entries and \
                    self.entries[name.v]["LR".index(s)] is not None:
                if m == "getinfo":
                    return self.info(s, name.v)
                if m == "read":
                    return self.whole(self.chunks(s, name.v))
                self.pos[s, name.v] = 0
                return Term("new", "stream", (s, name.v))
            raise Undecided("entry %s" % show(name))
        if isinstance(o, Term) and o.op == "new" and o.args[0] == "stream" \
                and m == "read":
            s, name = o.args[1]
            cs = self.chunks(s, name)
            i = self.pos[s, name]
            if not a or a[0] in (Const(-1), NONE):
                self.pos[s, name] = len(cs)
                return self.whole(cs[i:])
            self.sizes.setdefault(name, set()).add(nrm(I, I.st, a[0]))
            if len(self.sizes[name]) > 1:
                raise Undecided("different read sizes")
            self.pos[s, name] = i + 1
            return cs[i] if i < len(cs) else Const(b"")
        return NotImplemented

    def whole(self, cs):
        return ops.cat(cs) if cs else Const(b"")

    def info(self, s, name):
        return Term("new", "info", (s, name))

    def attr(self, I, o, name, *r):
        if isinstance(o, Term) and o.op == "new" and o.args[0] == "info":
            if o.args[1][1] == "s":
                return Const(0)
            if name in ("file_size", "CRC"):
                return Term("num", (name,) + o.args[1])
            if name == "filename":
                return Const(o.args[1][1])
        return NotImplemented

    def install(self):
        I = self.I
        I.hooks = {"attr:" + n: self.attr for n in (
            "file_size", "CRC", "filename")}
        for m in ("namelist", "getinfo", "open", "read", "infolist"):
            I.hooks["meth:" + m] = self.hook
        I.hooks["ziputils.open_zip"] = lambda I_, f, a, kw, n: \
            self.z[a[0].args[0][0]]

    def reset(self):
        self.pos.clear()
        self.sizes.clear()


def flat(v, env):
    """value of content, a tuple of chunk values"""
    if isinstance(v, Const):
        return () if v.v in (b"", "") else None if v.v is None else (
            ("const", v.v),)
    if isinstance(v, Term) and v.op == "cat":
        r = ()
        for x in v.args:
            r += flat(x, env)
        return r
    if isinstance(v, Term) and v in env:
        return (env[v],)
    raise Undecided("quantity %s" % show(v))


def attrval(t, env):
    """number behind a size or checksum, else None"""
    if isinstance(t, Term) and t.op == "num" and isinstance(
            t.args[0], tuple):
        return env[t.args[0]]
    return None


def holds(c, env):
    if c.op == "eq":
        l, r = (attrval(x, env) for x in c.args)
        if l is not None and r is not None:
            return l == r
        if l is None and r is None:
            return flat(c.args[0], env) == flat(c.args[1], env)
    if c.op in ("hasattr", "isinstance"):
        return None
    h = orders.holds(c, {Term("num", k): v for k, v in env.items()
                         if isinstance(k, tuple)})
    if h is not None:
        return h
    raise Undecided("condition %s" % show(c))


def envs(name, nl, nr):
    ls = [sname("L:%s:%d" % (name, i), "") for i in range(nl)]
    rs = [sname("R:%s:%d" % (name, i), "") for i in range(nr)]
    for vals in product((0, 1), repeat=nl + nr):
        env = dict(zip(ls + rs, vals))
        same = vals[:nl] == vals[nl:]
        for sz, crc in product((0, 1), repeat=2):
            if same and (sz or crc):
                continue
            env = dict(env)
            env["file_size", "L", name] = env["CRC", "L", name] = 0
            env["file_size", "R", name] = sz
            env["CRC", "R", name] = crc
            yield env, same


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    EV = {k: I.get("dirutils", k) for k in ("LEFT", "RIGHT", "DIFF", "SAME")}
    LF, RF = (Term("param", (s,)) for s in "LR")

    def events(fn, m):
        f = I.get("ziputils", fn)
        if fn == "compare":
            return lambda: (m.reset(), I.call(f, [LF, RF], {}))[1]
        return lambda: (m.reset(), I.call(f, [m.z["L"], m.z["R"]], {}))[1]

    # which entries give which events
    rule = "one-event-per-entry"
    base = len(I.base.path)
    universe = ["a", "b/", "b/c", "d/"]
    for pat in product(("L", "R", "LR"), repeat=len(universe)):
        if tier != "thorough" and pat[2] != "LR" and pat[0] == pat[1]:
            continue
        ents = {n: (0 if "L" in p else None, 0 if "R" in p else None)
                for n, p in zip(universe, pat)}
        for fn in ("compare_zips", "compare"):
            key = "%s:%s" % (fn, ",".join(pat))
            with rep.guard(key, rule):
                rep.ok(key, rule)
                m = Model(I, ents)
                m.install()
                want = []
                for n, p in zip(universe, pat):
                    if p != "LR":
                        want.append((EV["LEFT" if p == "L" else "RIGHT"], n))
                    elif not n.endswith("/"):
                        want.append((None, n))
                for p in I.run(events(fn, m)):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        break
                    got = [[nrm(I, p.st, x) for x in items(I, p, e)]
                           for e in items(I, p, p.val)]
                    names = sorted(e[1].v for e in got)
                    if names != sorted(n for _e, n in want):
                        rep.bad(key, rule, "events for %s, should be for %s" %
                                (names, sorted(n for _e, n in want)))
                        break
                    for e, n in want:
                        g = [x[0] for x in got if x[1].v == n][0]
                        if e is not None and g != e or e is None and g not \
                                in (EV["DIFF"], EV["SAME"]):
                            rep.bad(key, rule, "the event for %s is %s" % (
                                n, show(g)))
    # same or different
    rule = "same-iff-equal-content"
    sizes = range(4 if tier == "thorough" else 3)
    for nl, nr in product(sizes, sizes):
        key = "content:%d-%d" % (nl, nr)
        with rep.guard(key, rule):
            rep.ok(key, rule)
            m = Model(I, {"f": (nl, nr)})
            m.install()
            hit = 0
            for p in I.run(events("compare_zips", m)):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    break
                evs = [[nrm(I, p.st, x) for x in items(I, p, e)]
                       for e in items(I, p, p.val)]
                if len(evs) != 1:
                    rep.bad(key, rule, "%d events" % len(evs))
                    break
                cs = orders.conds(p, base)
                for env, same in envs("f", nl, nr):
                    if any(holds(c, env) not in (None, b) for c, b in cs):
                        continue
                    hit += 1
                    if (evs[0][0] == EV["SAME"]) != same:
                        rep.bad(key, rule, "entries with %s content are "
                                "reported as %s%s" % (
                                    "equal" if same else "different",
                                    show(evs[0][0]), why(env)))
                        break
            if not hit and rep.ob(key, rule).status == "ok":
                raise Undecided("no path")
    # the collecting functions
    rule = "events-filed"
    ents = {"l": (0, None), "r": (None, 0), "f": (1, 0), "s": (0, 0),
            "l2": (0, None), "d/": (0, 0)}
    for fn in ("collect_compare_zips", "collect_compare",
               "collect_compare_zips_into", "collect_compare_into"):
        for skip in range(-1, 4) if fn.endswith("into") else (-1,):
            key = "%s:%s" % (fn, "all" if skip < 0 else "no-%d" % skip)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                m = Model(I, ents)
                m.install()

                def go():
                    m.reset()
                    a = [m.z["L"], m.z["R"]] if "zips" in fn else [LF, RF]
                    mine = []
                    if fn.endswith("into"):
                        mine = [I.alloc(HList("list", [])) if i != skip else
                                NONE for i in range(4)]
                    r = I.call(I.get("ziputils", fn), a + mine, {})
                    return Tup([r, Tup(mine)])
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        break
                    r, mine = p.val.items
                    res = items(I, p, r)
                    if mine.items and list(res) != list(mine.items):
                        rep.bad(key, rule, "does not return the lists given")
                        break
                    got = [None if x == NONE else sorted(
                        show(nrm(I, p.st, y)) for y in items(I, p, x))
                        for x in res]
                    want = [["'r'"], ["'l'", "'l2'"], ["'f'"], ["'s'"]]
                    if skip >= 0:
                        want[skip] = None
                    if got != want:
                        rep.bad(key, rule, "(added, removed, altered, same) "
                                "are %s" % (got,))
                        break
    rep.cover(I)
    rep.expect = 100


def why(env):
    if env["file_size", "R", "f"] or env["CRC", "R", "f"]:
        return ""
    return " if size and checksum agree"
