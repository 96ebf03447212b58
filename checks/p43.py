"""P43: code offsets are mapped to source lines by the line number table."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, Item, NONE, show
from sa import ops, orders
from checks.p01 import nrm

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the lookups "
                 "over symbolic tables; every path is compared with the "
                 "specification for all orderings of the quantities which "
                 "its conditions admit",
    "rule": "for tables of up to three (thorough: four) symbolic entries in "
            "any order, the line of an offset is that of the entry with the "
            "largest start not above it; grouping by lines delivers every "
            "instruction once, in order, under its line, and so does "
            "merging the code of two methods by their relative lines",
    "assumptions": ["longer tables are treated like those explored",
                    "table entries have distinct start offsets"],
}


def entries(n):
    return [(Term("num", "PC%d" % i), Term("num", "LINE%d" % i))
            for i in range(n)]


def expected(es, env, q):
    """the entry covering offset q, None if there is none"""
    best = None
    for i, (o, _l) in enumerate(es):
        if env[o] <= q and (best is None or env[o] > env[es[best][0]]):
            best = i
    return best


def envs(es, extra, top):
    """assignments with distinct offsets"""
    ts = [o for o, _l in es]
    for vals in product(range(top + 1), repeat=len(ts)):
        if len(set(vals)) != len(vals):
            continue
        for ev in product(range(top + 1), repeat=len(extra)):
            env = dict(zip(ts, vals))
            env.update(zip(extra, ev))
            yield env


def admits(cs, env, lines):
    """whether the conditions hold, over the values of lines if needed"""
    for c, b in cs:
        h = orders.holds(c, env)
        if h is None:
            raise Undecided("condition %s" % show(c))
        if h != b:
            return False
    return True


def code_with(I, table, dis=None):
    I.hooks = {"JavaCodeInfo.get_linenumbertable":
               lambda *a: Tup([Tup(list(e)) for e in table])}
    if dis is not None:
        I.hooks["JavaCodeInfo.disassemble"] = lambda *a: dis
    return I.call(I.get("", "JavaCodeInfo"), [Term("param", "CP")], {})


def items(I, p, v):
    if isinstance(v, Tup):
        return v.items
    I.st = p.st
    if isinstance(v, Term) and v.op == "list":
        if not all(isinstance(x, Item) for x in v.args[1]):
            raise Undecided("sequence %s" % show(v))
        return [x.v for x in v.args[1]]
    xs = I.known_items(v)
    if xs is None:
        raise Undecided("sequence %s" % show(v))
    return xs


def lookup(I, rep, n):
    rule, key = "line-of-offset", "get_line_for_offset:%d" % n
    with rep.guard(key, rule):
        rep.ok(key, rule)
        es = entries(n)
        q = Term("num", "OFFSET")
        base = len(I.base.path)
        count = 0
        for p in I.run(lambda: I.call(I.getattr(code_with(
                I, es), "get_line_for_offset"), [q], {})):
            cs = orders.conds(p, base)
            lines = [l for _o, l in es]
            v = nrm(I, p.st, p.val) if p.kind != "raise" else None
            for env in envs(es, [q], n + 1):
                for lv in product(range(2), repeat=n) if any(
                        l in walk(c) for c, _b in cs for l in lines) else (
                            tuple(range(1, n + 1)),):
                    env.update(zip(lines, lv))
                    if not admits(cs, env, lines):
                        continue
                    count += 1
                    want = expected(es, env, env[q])
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s for %s" % (
                            show(p.val), text(es, env)), p.loc)
                        return
                    if want is None:
                        continue
                    if orders.value(v, env) != env[es[want][1]]:
                        rep.bad(key, rule, "offset %d is mapped to %s if the "
                                "table starts are %s" % (
                                    env[q], show(v), text(es, env)))
                        return
        if not count:
            raise Undecided("no path")


def text(es, env):
    return ", ".join("%s=%d" % (show(o), env[o]) for o, _l in es)


def walk(t):
    yield t
    if isinstance(t, Term):
        for a in t.args:
            for x in walk(a):
                yield x


def grouping(I, rep, n, offs):
    rule = "grouping-by-lines"
    key = "iter_code_by_lines:%d:%s" % (n, "-".join(map(str, offs)))
    with rep.guard(key, rule):
        rep.ok(key, rule)
        es = entries(n)
        lines = [l for _o, l in es]
        codelets = [Tup([Const(o), Term("num", "OP%d" % o),
                         Term("param", "ARGS%d" % o)]) for o in offs]
        base = len(I.base.path)

        def go():
            c = code_with(I, es, Tup(codelets))
            return I.call(I.getattr(c, "iter_code_by_lines"), [], {})
        count = 0
        for p in I.run(go):
            cs = orders.conds(p, base)
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                return
            groups = [items(I, p, g)
                      for g in items(I, p, nrm(I, p.st, p.val))]
            flat = []
            for g in groups:
                if len(g) != 3:
                    rep.bad(key, rule, "a group has %d elements" % len(g))
                    return
                flat.extend((c, g) for c in items(I, p, g[2]))
            if [nrm(I, p.st, c) for c, _g in flat] != [
                    nrm(I, p.st, c) for c in codelets]:
                rep.bad(key, rule, "the groups hold %s, the code is %s" % (
                    ", ".join(show(c) for c, _g in flat)[:200], ", ".join(
                        map(show, codelets))[:200]))
                return
            for env in envs(es, [], max(offs) + 1):
                for lv in product(range(1, 3), repeat=n):
                    env.update(zip(lines, lv))
                    if not admits(cs, env, lines):
                        continue
                    count += 1
                    prev = None
                    for c, g in flat:
                        want = expected(es, env, items(I, p, c)[0].v)
                        if want is None:
                            prev = None
                            continue
                        line = env[lines[want]]
                        a, r = (orders.value(nrm(I, p.st, x), env)
                                for x in g[:2])
                        if a != line or r != line - env[lines[0]]:
                            rep.bad(key, rule, "the instruction at %d is "
                                    "listed under line %s/%s if the table "
                                    "starts are %s" % (
                                        items(I, p, c)[0].v, show(g[0]), show(g[1]),
                                        text(es, env)))
                            return
                        if prev is not None and prev[0] == line and \
                                prev[1] is not g:
                            rep.bad(key, rule, "consecutive instructions of "
                                    "the same line are in different groups")
                            return
                        prev = line, g
        if not count:
            raise Undecided("no path")


MERGES = [
    # blocks of lines of either side: (absolute, relative, instructions)
    ([("A", "R", 2)], [("B", "R", 1)]),
    ([("A", "R", 1), ("C", "Q", 1)], [("B", "R", 1), ("D", "Q", 2)]),
    ([("A", "R", 1), ("C", "Q", 1), ("A", "R", 2)],
     [("B", "R", 1), ("D", "Q", 1), ("B", "R", 1)]),
    ([("A", "R", 1)], [("D", "Q", 1)]),
    ([("A", "R", 1), ("C", "Q", 1)], None),
    (None, [("B", "R", 1), ("D", "Q", 2), ("B", "R", 1)]),
    (None, None),
]


def merging(I, rep, k, sides):
    """instructions of both sides under the relative line they belong to"""
    rule, key = "merged-by-lines", "merge_code:%d" % k
    nums = {x: i for i, x in enumerate("RQ")}

    def blocks(s, side):
        out, c = [], 0
        for a, r, n in side:
            ins = []
            for _j in range(n):
                ins.append(Term("param", "%s%d" % (s, c)))
                c += 1
            out.append((Term("num", "LINE" + a), Const(nums[r]), ins))
        return out
    with rep.guard(key, rule):
        rep.ok(key, rule)
        data = [None if x is None else blocks("lr"[i], x)
                for i, x in enumerate(sides)]
        terms = [NONE if x is None else Term("new", "code", ("lr"[i],))
                 for i, x in enumerate(sides)]

        def lines(I_, f, a, kw, node):
            o = f.args[0]
            if o not in terms or o == NONE:
                return NotImplemented
            return Tup([Tup([a_, r, Tup(ins)])
                        for a_, r, ins in data[terms.index(o)]])
        I.hooks = {"meth:iter_code_by_lines": lines}

        def go():
            d = I.call(I.get("classdiff", "merge_code"), list(terms), {})
            out = []
            for kv in I.known_items(I.call(I.getattr(d, "items"), [], {})):
                key_, v = I.known_items(kv)
                both = []
                for x in I.known_items(v):
                    if x == NONE:
                        both.append(NONE)
                        continue
                    a, ins = I.known_items(x)
                    both.append(Tup([I.norm(a), Tup([
                        I.norm(y) for y in I.known_items(ins)])]))
                out.append(Tup([I.norm(key_), Tup(both)]))
            return Tup(out)
        want = {}
        for i, side in enumerate(data):
            for a, r, ins in side or ():
                e = want.setdefault(r.v, [None, None])
                if e[i] is None:
                    e[i] = (a, [])
                e[i][1].extend(ins)
        for p in I.run(go):
            if p.kind == "raise":
                rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                continue
            got = {}
            for kv in p.val.items:
                got[kv.items[0].v] = [
                    None if x == NONE else (x.items[0],
                                            list(x.items[1].items))
                    for x in kv.items[1].items]
            if got != want:
                def text_(d):
                    return "; ".join("line %s: %s" % (k, " | ".join(
                        "none" if x is None else ", ".join(map(show, x[1]))
                        for x in v)) for k, v in sorted(d.items()))
                rep.bad(key, rule, "gives %s instead of %s" % (
                    text_(got), text_(want)), p.loc)


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    for n in range(1, 5 if tier == "thorough" else 4):
        lookup(I, rep, n)
    for n, offs in ((1, (0,)), (1, (0, 3)), (2, (0, 3)), (2, (0, 1, 3)),
                    (3, (0, 2))) + (((3, (0, 1, 3)),) if tier == "thorough"
                                    else ()):
        grouping(I, rep, n, offs)
    key, rule = "iter_code_by_lines:no-table", "grouping-by-lines"
    with rep.guard(key, rule):
        rep.ok(key, rule)
        codelets = Tup([Tup([Const(o), Term("num", "OP%d" % o),
                             Term("param", "A%d" % o)]) for o in (0, 1)])
        for p in I.run(lambda: I.call(
                I.getattr(code_with(I, (), codelets), "iter_code_by_lines"),
                [], {})):
            gs = items(I, p, nrm(I, p.st, p.val)) if p.kind != "raise" \
                else []
            if p.kind == "raise" or len(gs) != 1 or [
                    nrm(I, p.st, c) for c in items(I, p, items(
                        I, p, gs[0])[2])] != [
                            nrm(I, p.st, c) for c in codelets.items]:
                rep.bad(key, rule, "without a line number table the code is "
                        "not one group")
    for n in range(0, 4):
        key, rule = "get_relativelinenumbertable:%d" % n, "relative-lines"
        with rep.guard(key, rule):
            rep.ok(key, rule)
            es = entries(n)
            for p in I.run(lambda: I.call(I.getattr(code_with(
                    I, es), "get_relativelinenumbertable"), [], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [[nrm(I, p.st, y) for y in items(I, p, x)]
                       for x in items(I, p, nrm(I, p.st, p.val))]
                want = [[o, ops.ladd(l, es[0][1], -1)] for o, l in es]
                if got != want:
                    rep.bad(key, rule, "gives %s" % ", ".join(
                        show(y) for x in got for y in x)[:200])
    for k, sides in enumerate(MERGES):
        merging(I, rep, k, sides)
    rep.cover(I)
    rep.expect = 9
