"""P45: text and JSON results name what changed."""

import re

from sa import ops, tmpl
from sa.interp import Interp, Undecided, PyExc
from sa.values import (Const, Term, Tup, NONE, TRUE, FALSE, Item, Ref, HInst,
                       HDict, HList, Cls, show)
from checks.obj import isobj, text, Objs
from checks.p21 import Model, BASE
from checks.p20 import coded
from checks.p31 import Bad, excname

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the comparison "
                 "and its text and JSON results over classes and parts with "
                 "opaque data; the lines and objects produced, sequences of "
                 "constant texts and data, are compared with the "
                 "specification",
    "rule": "each difference is told with the value of the original and then "
            "the one of the other class, below what it belongs to; additions "
            "and removals name what was added or removed; JSON carries the "
            "values as old and new data",
    "assumptions": ["wording and layout of values are not judged",
                    "classes with further members, interfaces and "
                    "annotations are treated alike"],
}

ORDINARY = ("this", "super", "interface", "platform", "major", "minor",
            "flag ", "another flag", "signature", "annotation", "name ",
            "type ", "argument", "thrown", "another thrown", "value",
            "stack", "locals")


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 40
    I.MAXREC = 40
    I.budget = 5000000
    OPTS = [n for n in tmpl.optnames(prog)]
    OUT = Term("new", "out", ())

    def opaque(v):
        return isinstance(v, Term) and v.op == "new"

    def same(I_, a, b):
        if opaque(a) and opaque(b):
            return a == b
        sets = []
        for x in (a, b):
            x = I.norm(x)
            if not (isinstance(x, Term) and x.op == "list" and x.args[
                    0] == "set"):
                return NotImplemented
            vs = [getattr(y, "v", None) for y in x.args[1]]
            if not all(map(opaque, vs)):
                return NotImplemented
            sets.append(set(vs))
        return sets[0] == sets[1]

    def isinst(I_, v, c):
        n = getattr(c, "name", "")
        if isobj(v, "text", "word", "num"):
            return n in ("builtins.object", "builtins.int" if isobj(
                v, "num") else "builtins.str")
        return NotImplemented

    def write(I_, f, a, kw, node):
        if f.args[0] != OUT:
            return NotImplemented
        W.append(I_.norm(a[0]))
        return NONE
    W = []
    IGN = [False]
    HOOKS = {
        "eq": same, "isinstance": isinst, "meth:write": write,
        "meth:encode": coded, "meth:decode": coded,
        "lt": lambda I_, a, b: show(a) < show(b)
        if opaque(a) and opaque(b) else NotImplemented,
        "ext:builtins.repr": lambda I_, f, a, kw, n: text(
            a[0].args[1][0]) if isobj(a[0]) else NotImplemented if isinstance(
                a[0], Const) else Term("strof", I_.norm(a[0])),
        "opcodes.get_opname_by_code": lambda I_, f, a, kw, n: text(
            "name of " + a[0].args[1][0]),
        "opcodes.has_const_arg": lambda I_, f, a, kw, n: Const(
            "0.0" in a[0].args[1][0]),
        "ext:json.JSONEncoder.default": lambda I_, f, a, kw, n: I_.throw(
            "TypeError", Const("not JSON serializable")),
        "dirutils.fnmatches": lambda I_, f, a, kw, n: Const(IGN[0]),
    }

    def mkopts(O, **given):
        d = {n: FALSE for n in OPTS if n.startswith(("ignore", "show"))}
        for n in ("show_unchanged", "show_ignored"):
            d[n] = FALSE
        for n in OPTS:
            if n.endswith(("filenames", "entry", "key", "keys")):
                d[n] = Tup([])
        d.update(given)
        return O.new("options", "options", d)

    def flat(v):
        """constant texts and data of a text"""
        if isinstance(v, Const):
            return [v.v if isinstance(v.v, str) else str(v.v)]
        if isinstance(v, Tup):
            return [y for x in v.items for y in flat(x)]
        if isinstance(v, Item):
            return flat(v.v)
        if isobj(v, "text", "word", "num"):
            return [text(v.args[1][0])]
        if isinstance(v, Term) and v.op in ("cat", "strof", "join"):
            return [y for x in v.args for y in flat(x)]
        if isinstance(v, Term) and v.op == "fmt":
            return flat(v.args[-1])
        if isinstance(v, Term) and v.op == "list":
            return [y for x in v.args[1] for y in flat(x)]
        if isinstance(v, (tuple, list)):
            return [y for x in v for y in flat(x)]
        raise Undecided("text %s" % show(v))

    def lines(ws):
        """(depth, parts) of the lines written"""
        out, cur = [], []
        for w in ws:
            for x in flat(w):
                if not isinstance(x, str):
                    cur.append(x)
                    continue
                xs = x.split("\n")
                cur.append(xs[0])
                for y in xs[1:]:
                    out.append(cur)
                    cur = [y]
        if "".join(x if isinstance(x, str) else "x" for x in cur):
            raise Bad("the last line does not end")
        res = []
        for c in out:
            t = "".join(x if isinstance(x, str) else "x" for x in c)
            if t.strip():
                res.append((len(t) - len(t.lstrip()), c))
        return res

    def outer(ls, k):
        """the lines which line k is below"""
        out, d = [], ls[k][0]
        for i in range(k - 1, -1, -1):
            if ls[i][0] < d:
                out.append(i)
                d = ls[i][0]
        return out

    def plain(o):
        """what the JSON encoder makes of an object"""
        if isinstance(o, Ref):
            x = I.obj(o)
            if isinstance(x, HDict):
                return {k.v if isinstance(k, Const) else k: plain(v)
                        for k, v in x.entries}
            if isinstance(x, HInst) and I.store(o) is not None:
                return plain(I.store(o))
            if isinstance(x, HInst):
                e = I.call(I.get("report", "JSONChangeEncoder"),
                           [OPT[0]], {})
                return plain(I.call(I.getattr(e, "default"), [o], {}))
            if isinstance(x, HList) and x.kind in ("set", "frozenset"):
                e = I.call(I.get("report", "JSONChangeEncoder"),
                           [OPT[0]], {})
                return plain(I.call(I.getattr(e, "default"), [o], {}))
            xs = I.known_items(o)
            if xs is None:
                raise Undecided("data %s" % show(o))
            return [plain(v) for v in xs]
        if isinstance(o, Tup):
            return [plain(v) for v in o.items]
        if isinstance(o, Const):
            if isinstance(o.v, (bytes, set, frozenset)):
                return list(o.v)
            return o.v
        if isobj(o, "text", "word", "num"):
            return o
        o = I.norm(o)
        if isinstance(o, Term) and o.op in ("cat", "strof", "fmt", "join"):
            return o
        if isinstance(o, Term) and o.op == "list":
            return [plain(x.v) for x in o.args[1]]
        if isinstance(o, Term) and o.op == "new":
            raise Bad("%s cannot be represented as JSON" % show(o))
        raise Undecided("data %s" % show(o))
    OPT = [None]

    def data(x):
        """the data in what the encoder made"""
        if isinstance(x, dict):
            return [y for k in sorted(x, key=str) for y in data(x[k])]
        if isinstance(x, (list, tuple)):
            return [y for v in x for y in data(v)]
        if isinstance(x, Term):
            return [y for y in flat(x) if not isinstance(y, str)]
        return []

    def dicts(x, up=()):
        if isinstance(x, dict):
            yield x, up
            for k in sorted(x, key=str):
                yield from dicts(x[k], up + (x,))
        elif isinstance(x, (list, tuple)):
            for v in x:
                yield from dicts(v, up)

    def worded(d):
        """descriptions do not contradict the outcome"""
        t = d.get("description")
        t = t if isinstance(t, str) else " ".join(
            x for x in flat(t) if isinstance(x, str)) if t else ""
        ch = d.get("is_change")
        if ch is True and re.search(r"(?i)\bun(changed|altered)\b", t) or \
                ch is False and re.search(r"(?i)\b(changed|altered)\b", t) \
                and not re.search(r"(?i)\bnot\b", t):
            raise Bad("what is %s is told as %r" % (
                "changed" if ch else "unchanged", t))

    def freeze(x):
        if isinstance(x, dict):
            return ("dict", tuple((k, freeze(x[k])) for k in sorted(
                x, key=str)))
        if isinstance(x, (list, tuple)):
            return ("list", tuple(freeze(v) for v in x))
        return x

    def thaw(x):
        if isinstance(x, tuple) and x[0] == "dict":
            return {k: thaw(v) for k, v in x[1]}
        if isinstance(x, tuple) and x[0] == "list":
            return [thaw(v) for v in x[1]]
        return x

    def result(key, rule, thunk, judge):
        """the text and the JSON of the change which thunk makes"""
        def go():
            del W[:]
            env = {}
            I.hooks = dict(HOOKS)
            try:
                c = thunk(env)
                r = I.call(I.get("report", "TextReportFormat"), [
                    NONE, OPT[0]], {})
                I.call(I.getattr(r, "run"), [c, NONE, OUT], {})
                j = plain(c)
            except PyExc as e:
                raise Bad("fails with %s at %s" % (
                    excname(I, e.val)[:120], e.loc))
            return Const((tuple(W), freeze(j), tuple(sorted(env.items()))))
        with rep.guard(key, rule):
            try:
                ps = I.run(go)
                if not ps:
                    raise Undecided("no path")
                for p in ps:
                    if p.kind != "normal":
                        raise Undecided("%s %s" % (p.kind, show(p.val)))
                    for d, _up in dicts(thaw(p.val.v[1])):
                        worded(d)
                    judge(key, rule, lines(p.val.v[0]), thaw(p.val.v[1]),
                          dict(p.val.v[2]))
                rep.ok(key, rule)
            except Bad as e:
                rep.bad(key, rule, str(e))

    # classes

    M = [None]
    kept = {}

    def compared(world, given):
        def thunk(env):
            m = M[0] = Model(I, world)
            OPT[0] = mkopts(m.O, **given)
            I.hooks.update(m.O.hooks())
            I.hooks.update(HOOKS)
            c = I.call(I.get("classdiff", "JavaClassChange"), [
                m.L.cls, m.R.cls], {})
            I.call(I.getattr(c, "check"), [], {})
            return c
        return thunk

    def nameof(o):
        return o.args[1][0]

    def about(n):
        """the member which a datum belongs to"""
        x = n.split(" ")[-1]
        return x if x in ("f0", "m0", "fL", "fR", "mL", "mR") else None

    def told(world):
        def judge(key, rule, ls, js, env):
            if not ls:
                raise Bad("nothing is told")
            if not any(isobj(x) and nameof(x).startswith("this")
                       for x in ls[0][1]):
                raise Bad("the first line does not name the class")
            seen = {}
            for n, by in sorted(M[0].said.items()):
                m = about(n)
                if not (n + " ").startswith(ORDINARY) or n.startswith(
                        "argument'") or "." in n or n.startswith("name of") or n.startswith(
                            "type ") and not m:
                    continue
                if m and m[1] in "LR" or by.get("L") == by.get("R"):
                    continue
                intext(n, by, m, ls, seen, rule)
                injson(n, by, m, js, world)
            # different facets are told apart
            for k, ns in seen.items():
                groups = {group(x) for x in ns}
                if len(groups) > 1:
                    raise Bad("%s are told in the same line" % (
                        " and ".join(sorted(groups)[:2])))
            heads = {}
            for k, ns in seen.items():
                t = "".join(x for x in ls[k][1] if isinstance(x, str))
                heads.setdefault((tuple(outer(ls, k)), t.strip()),
                                 set()).update(map(group, ns))
            for (_u, t), gs in heads.items():
                if len(gs) > 1:
                    raise Bad("%s are told alike, as %r" % (
                        " and ".join(sorted(gs)[:2]), t))
            for _d, c in ls:
                t = " ".join(x for x in c if isinstance(x, str))
                ns = [t.find(x) for x in ("251", "137")]
                if world["longer"] == "R":
                    ns.reverse()
                if -1 not in ns and ns[0] > ns[1]:
                    raise Bad("the lengths of code are told in the wrong "
                              "order")
            for m, want in (("fL", "removed"), ("fR", "added"),
                            ("mL", "removed"), ("mR", "added")):
                alone(m, want, ls, js)
            if world["differ"]:
                for n in ("constant 1", "type 1"):
                    injson(n, M[0].said[n], None, js, world)
                for n, by in sorted(M[0].said.items()):
                    if " m0" in n and "." in n and n.startswith((
                            "name of op", "offset", "argument")) and by.get(
                            "L") != by.get("R"):
                        if world.get("operands"):
                            if not n.startswith("argument 0.0"):
                                continue
                            by = {s: text("constant at " + nameof(x))
                                  for s, x in by.items()}
                        injson(n, by, "m0", js, world)
        return judge

    def group(n):
        """what a datum tells"""
        for a in ("another ",):
            if n.startswith(a):
                n = n[len(a):]
        w = n.split(" ")
        if w[0] in ("major", "minor"):
            return "the version"
        if w[0] in ("interface", "argument", "annotation"):
            w.pop(1)
        return " ".join(w)

    def find(ls, o):
        return [k for k, (_d, c) in enumerate(ls) if o in c]

    def intext(n, by, m, ls, seen, rule):
        vs = [text(nameof(by[s])) if by.get(s) else None for s in "LR"]
        ks = [k for k in find(ls, vs[0] or vs[1])
              if all(v is None or v in ls[k][1] for v in vs)]
        if not ks and n == "this" or n.startswith("name ") and m:
            ks = ks or find(ls, vs[0] or vs[1])[:1]
        if not ks:
            raise Bad("no line tells the change of %s" % " to ".join(
                nameof(v) for v in vs if v is not None))
        for k in ks:
            seen.setdefault(k, []).append(n)
            c = ls[k][1]
            if None not in vs and not c.index(vs[0]) < c.index(vs[1]):
                raise Bad("%s is told before %s" % (
                    nameof(vs[1]), nameof(vs[0])))
            if m and not any(isobj(x) and about(nameof(x).replace(
                    " of L", "").replace(" of R", "")) == m
                    for i in outer(ls, k) for x in ls[i][1]):
                raise Bad("the line with %s is not below its member" %
                          nameof(vs[0] or vs[1]))
            for i in outer(ls, k):
                for x in ls[i][1]:
                    if isobj(x):
                        a = about(nameof(x).replace(" of L", "").replace(
                            " of R", ""))
                        if a and a != m:
                            raise Bad("%s is told below another member" %
                                      nameof(vs[0] or vs[1]))

    def injson(n, by, m, js, world):
        vs = [text(nameof(by[s])) if by.get(s) else None for s in "LR"]
        ok = False
        for d, up in dicts(js):
            if "old_data" not in d and "new_data" not in d:
                continue
            old, new = data(d.get("old_data")), data(d.get("new_data"))
            l = vs[0] is None or vs[0] in old
            r = vs[1] is None or vs[1] in new
            if l and r:
                ok = True
                if d.get("is_change") is not True:
                    raise Bad("%s is not marked as a change in JSON" %
                              nameof(vs[0] or vs[1]))
                for u in up:
                    if "is_change" in u and u["is_change"] is not True:
                        raise Bad("the whole of %s is not marked as a change "
                                  "in JSON" % nameof(vs[0] or vs[1]))
            for v, w, x in ((vs[0], new, old), (vs[1], old, new)):
                if v is not None and v in w and v not in x:
                    raise Bad("%s is given as data of the %s class in JSON" %
                              (nameof(v), "new" if w is new else "old"))
        if not ok:
            raise Bad("JSON does not have the change of %s" % " to ".join(
                nameof(v) for v in vs if v is not None))

    def alone(m, want, ls, js):
        """members on one side only"""
        other = {"added": "removed", "removed": "added"}[want]
        ks = [k for k, (_d, c) in enumerate(ls) if any(
            isobj(x) and about(nameof(x).split(" of ")[0]) == m for x in c)]
        if not ks:
            raise Bad("the %s member %s is not told" % (want, m))
        t = " ".join("".join(x for x in ls[k][1] if isinstance(x, str))
                     for k in ks)
        if other in t.lower() and want not in t.lower():
            raise Bad("the %s member is told as %s" % (want, other))
        flag = {"added": "is_addition", "removed": "is_removal"}
        ok = False
        for d, up in dicts(js):
            mine = data({k: v for k, v in d.items() if k != "changes" and
                         k != "children"})
            if not any(about(nameof(x).split(" of ")[0]) == m for x in mine):
                continue
            if d.get(flag[other]):
                raise Bad("the %s member is %s in JSON" % (want, other))
            ok = ok or d.get(flag[want]) is True and d.get(
                "is_change") is True
        if not ok:
            raise Bad("the %s member is not marked so in JSON" % want)

    WORLDS = [
        ("different", {}),
        ("without attributes", {"opt": ""}),
        ("with attributes on the left", {"opt": "L"}),
        ("with attributes on the right", {"opt": "R"}),
        ("with numbers as values", {"number": True}),
        ("with longer code", {"longer": "L", "lines": {
            "L": [(10, 0, 3), (11, 1, 1)], "R": [(12, 0, 2)]}}),
        ("with a few things alike", {"alike": True}),
        ("with other operands", {"operands": True, "lines": {
            "L": [(10, 0, 2), (11, 1, 1)], "R": [(12, 0, 2), (13, 1, 1)]}}),
    ]
    rule = "differences-told"
    for name, ch in WORLDS:
        w = dict(BASE, **ch)
        for how, given in (("", {}), (", with all parts", {
                "show_unchanged": TRUE, "show_ignored": TRUE})):
            result("classes %s%s" % (name, how), rule, compared(w, given),
                   told(w))

    def one(key, rule, mod, cls, changed, isadd, isrem, told_):
        """the line of a part of an archive or distribution"""
        e = text("entry")

        def go():
            m = M[0] = Objs(I)
            OPT[0] = mkopts(m)
            I.hooks = dict(HOOKS)
            I.hooks.update(m.hooks())
            I.hooks.update(HOOKS)
            try:
                c = I.call(cls, [Term("new", "left", ()), Term(
                    "new", "right", ()), e, Const(changed)], {})
                I.setattr(c, "changes", Tup([]))
                return Tup([I.norm(I.call(I.getattr(c, "get_description"),
                                          [], {})),
                            Const(freeze({k: plain(v) for k, v in [
                                (k.v, v) for k, v in I.obj(I.call(I.getattr(
                                    c, "simplify"), [OPT[0]], {})).entries]
                                if k in ("entry", "description", "is_change", "is_addition",
                                         "is_removal")}))])
            except PyExc as x:
                raise Bad("fails with %s at %s" % (
                    excname(I, x.val)[:120], x.loc))
        try:
            for p in I.run(go):
                if p.kind != "normal":
                    raise Undecided("%s %s" % (p.kind, show(p.val)))
                parts = flat(p.val.items[0])
                if e not in parts:
                    raise Bad("the entry is not named")
                t = "".join(x for x in parts if isinstance(x, str)).strip()
                told_.setdefault(t, set()).add(
                    "added" if isadd else "removed" if isrem else
                    "changed" if changed else "unchanged")
                for a, b in (("added", "removed"), ("removed", "added")):
                    if (isadd, isrem)[a == "removed"] and b in t.lower() \
                            and a not in t.lower():
                        raise Bad("%s is told as %s" % (a, t))
                d = thaw(p.val.items[1].v)
                worded(d)
                if d.get("entry") != e:
                    raise Bad("JSON does not name the entry")
                if (d.get("is_change"), bool(d.get("is_addition")), bool(
                        d.get("is_removal"))) != (changed, isadd, isrem):
                    raise Bad("JSON has %s" % ", ".join(
                        "%s: %s" % (k, d[k]) for k in sorted(d)
                        if k != "entry"))
        except Bad as x:
            rep.bad(key, rule, str(x))

    # differences without data

    def keep(key, rule, ls, js, env):
        t = tuple((d, tuple(c)) for d, c in ls)
        kept[key] = t, freeze(js)
    for name, what, ch in (
            ("deprecated", "dep", {"differ": False}),
            ("with code", "code", {"differ": False})):
        for s in "LR":
            result("classes %s, %s" % (name, s), rule, compared(dict(
                BASE, **dict(ch, **{what: s})), {}), keep)
        key = "classes %s" % name
        with rep.guard(key, rule):
            rep.ok(key, rule)
            got = [kept.get("classes %s, %s" % (name, s)) for s in "LR"]
            if None in got:
                raise Undecided("no results")
            for i, k in ((0, "text"), (1, "JSON")):
                if got[0][i] == got[1][i]:
                    rep.bad(key, rule, "the %s does not tell which of the "
                            "classes is %s" % (k, name))
    # parts of archives and distributions

    rule = "parts-told"
    NEEDS = {"jardiff": ("JarContentChange", "JarChange", "JarContentsChange"),
             "distdiff": ("DistContentChange", "DistChange")}
    for mod in sorted(NEEDS):
        root = I.get(mod, NEEDS[mod][0])
        fid = I.module("javatools." + mod)
        kinds = [n for n, c in sorted(I.base.frames[fid].vars.items())
                 if isinstance(c, Cls) and root in c.mro and c.name == n]
        told_ = {}
        for n in kinds:
            cls = I.get(mod, n)
            key = "%s of %s" % (n, mod)
            with rep.guard(key, rule):
                init = I.getattr(cls, "__init__")
                if "reporter" in [a.arg for a in init.node.args.args]:
                    continue
                rep.ok(key, rule)
                isadd, isrem = [I.get("change", x) in cls.mro for x in (
                    "Addition", "Removal")]
                for changed in (True, False):
                    if (isadd or isrem) and not changed:
                        continue
                    one(key, rule, mod, cls, changed, isadd, isrem, told_)
        key = "parts of %s" % mod
        with rep.guard(key, rule):
            rep.ok(key, rule)
            for t, ks in sorted(told_.items()):
                if len(ks) > 1:
                    rep.bad(key, rule, "parts which are %s are told alike, "
                            "as %r" % (" and ".join(sorted(ks)), t))

    def section(name, vals):
        def go(m):
            s = I.call(I.getattr(m, "create_section"), [Const(name)], {}) \
                if name else m
            for k, v in vals:
                I.setitem(s, Const(k), Const(v))
        return go

    def manifest(*secs):
        m = I.call(I.get("manifest", "Manifest"), [], {})
        for s in secs:
            s(m)
        return m

    def manifests(env):
        m = M[0] = Objs(I)
        OPT[0] = mkopts(m)
        I.hooks.update(m.hooks())
        I.hooks.update(HOOKS)
        c = I.call(I.get("manifest", "ManifestChange"), [
            manifest(section("", [("Main-Key", "main-old")]),
                     section("S-both", [("Key", "both-old")]),
                     section("S-same", [("Key", "same")]),
                     section("S-left", [("Key", "left")])),
            manifest(section("", [("Main-Key", "main-new")]),
                     section("S-both", [("Key", "both-new")]),
                     section("S-same", [("Key", "same")]),
                     section("S-right", [("Key", "right")]))], {})
        I.call(I.getattr(c, "check"), [], {})
        return c

    def sections(key, rule, ls, js, env):
        ts = ["".join(x for x in c if isinstance(x, str)) for _d, c in ls]
        for n in ("S-both", "S-left", "S-right"):
            if len([t for t in ts if n in t]) != 1:
                raise Bad("the section %s is told %d times" % (
                    n, len([t for t in ts if n in t])))
        for n, want, other in (("S-left", "removed", "added"),
                               ("S-right", "added", "removed")):
            t = [t for t in ts if n in t][0].lower()
            if other in t and want not in t:
                raise Bad("the %s section is told as %s" % (want, other))
        if any("S-same" in t for t in ts):
            raise Bad("the unchanged section is told")
        found = set()
        for d, _up in dicts(js):
            for n in ("main", "both", "same"):
                o, w = ([v for v in (d.get(k + "_data") or {}).values()]
                        if isinstance(d.get(k + "_data"), dict) else []
                        for k in ("old", "new"))
                l, r = (n + "-old", n + "-new")
                if r in o or l in w:
                    raise Bad("values of the %s section are given as those "
                              "of the other manifest" % n)
                if l in o and r in w and d.get("is_change") is True:
                    found.add(n)
            for n, k, f, g in (("left", "old_data", "is_removal",
                                "is_addition"),
                               ("right", "new_data", "is_addition",
                                "is_removal")):
                if "S-" + n in str(d.get("description")):
                    if d.get(g) or not d.get(f):
                        raise Bad("the section S-%s is not marked with %s in "
                                  "JSON" % (n, f))
                    found.add(n)
        if len(found) != 4:
            raise Bad("JSON does not have the sections %s" % ", ".join(
                sorted({"main", "both", "left", "right"} - found)))
    result("manifests", "manifest-told", manifests, sections)
    rep.cover(I)
    rep.expect = 40
