"""P02: constant pool entries are read with their tag's layout."""

from sa.interp import Undecided
from sa.values import (Const, Term, Tup, Ref, HList, HInst, HDict, Rep, Item,
                       Many, NONE, TRUE, FALSE, show)
from sa import ops, reader, gram, jvms
from sa.gram import Mismatch, V
from checks.p01 import att, nrm

META = {
    "level": "proof",
    "rule": "the reader's loop over the constant pool, trace partitioned on "
            "the tag byte, reads for every tag the layout of JVMS 4.4, stores "
            "(tag, value) at the entry's index, leaves an unusable slot after "
            "long and double, and raises for every other tag",
    "assumptions": ["the primitive read operations of the unpacker deliver "
                    "consecutive bytes (P06)"],
}

U = Term("param", "U")
EXTRA = {13: "HH"}      # ModuleId of pre-release Java 9, accepted


class Undef(Exception):
    pass


def analyse(prog, I, tag):
    state = {"n": 0}

    def fieldval(I_, t):
        if t.args[2] == "B" and t.args[1] != 0 and tagread(t):
            return Const(tag)
        return t

    def tagread(t):
        # the first byte of an iteration
        return isinstance(t.args[1], tuple) or True
    first = {}

    def fv(I_, t):
        k = I_.st.within
        key = ("tag", k)
        if t.args[2] == "B" and I_.st.counts.get(key, 0) == 0:
            I_.st.counts[key] = 1
            return Const(tag)
        return t
    I.hooks = reader.hooks(fieldval=fv)
    cls = I.get("", "JavaConstantPool")

    def go():
        up = reader.mkup(I, U)
        o = I.call(cls, [], {})
        I.call(I.getattr(o, "unpack"), [up], {})
        return o
    return I.run(go)


def find_loop(p):
    for e in p.events:
        if e.kind == "loop" and any(
                x.kind in ("rd", "rdbytes") for q in
                e.fn.conts() + e.fn.exits() for x in q.st.events):
            return e.fn
    return None


def appended(q, lid):
    """[(address, [items])] added to lists by one iteration"""
    out = []
    for a, o in q.st.heap.items():
        if isinstance(o, HList):
            for i, s in enumerate(o.segs):
                if isinstance(s, Many) and s.t.op == "acc" and \
                        s.t.args[0] == lid:
                    out.append((a, [x.v for x in o.segs[i + 1:]
                                    if isinstance(x, Item)]))
    return out


def unusable(I, st, v):
    v = nrm(I, st, v)
    return isinstance(v, Tup) and v.items and isinstance(
        v.items[0], Const) and not v.items[0].v or v == NONE


def bad_slot(rep, I, k2, nm, st, x, rec):
    v = nrm(I, st, x)
    if isinstance(v, Tup) and v.items and isinstance(v.items[0], Const):
        rep.bad(k2, "slot-accounting", "the slot after a %s entry holds the "
                "usable value %s" % (nm, show(v)), rec.loc)
        return
    raise Undecided("placeholder %s" % show(v))


def run(rep, prog, tier):
    from sa.interp import Interp
    I = Interp(prog).load_all()
    tags = list(range(256))
    for tag in tags:
        nm = jvms.POOL_TAGS.get(tag) or ("tag13" if tag in EXTRA else
                                         "unknown-%d" % tag)
        key = "entry:%s" % nm
        rule = "pool-entry-layout"
        with rep.guard(key, rule):
            one_tag(rep, prog, I, tag, nm, key, rule)
    rep.cover(I)


def one_tag(rep, prog, I, tag, nm, key, rule):
    paths = analyse(prog, I, tag)
    valid = tag in jvms.POOL_TAGS
    rec = None
    for p in paths:
        rec = rec or find_loop(p)
    if rec is None:
        raise Undecided("no loop over the entries")
    lid = rec.lid
    fin = rec.finite
    v0 = tuple(I.get_loc(rec.entry, l) for l in fin)
    its = rec.seen[v0]
    conts = [q for q in its if q.kind in ("normal", "continue")]
    raises = [q for q in its if q.kind == "raise"]
    if not valid and tag not in EXTRA:
        rep.check(not conts and raises, key, "unknown-tag-rejected",
                  "an entry with the unknown tag %d is accepted" % tag,
                  rec.loc)
        return
    if tag in EXTRA and not conts:
        rep.ok(key, rule, "not supported")
        return
    lay = jvms.POOL_LAYOUT.get(tag) if valid else EXTRA[tag]
    if raises and not (tag == 1):
        rep.bad(key, rule, "a %s entry raises %s" % (nm, show(
            raises[0].val)), raises[0].loc)
        return
    if not conts:
        rep.bad(key, rule, "a %s entry is never accepted" % nm, rec.loc)
        return
    for q in conts:
        g = reader.grammar(I, q.st.events, U)
        env = {}
        if tag == 1:
            spec = [("B", "tag"), ("H", "len"), ("bytes", V("len"), "data")]
        else:
            spec = [("B", "tag")] + [(c, "v%d" % i)
                                     for i, c in enumerate(lay)]
        try:
            gram.match(I, g, spec, env)
        except Mismatch as e:
            rep.bad(key, rule, "%s entry: %s" % (nm, e), rec.loc)
            return
        acc = appended(q, lid)
        acc = [x for x in acc if x[1]]
        if len(acc) != 1:
            raise Undecided("entries are collected in %d lists" % len(acc))
        items = acc[0][1]
        ent = nrm(I, q.st, items[0])
        if not isinstance(ent, Tup) or len(ent.items) != 2:
            raise Undecided("entry %s" % show(ent))
        if ent.items[0] != Const(tag):
            rep.bad(key, rule, "%s entry is stored with tag %s" % (
                nm, show(ent.items[0])), rec.loc)
            return
        val = ent.items[1]
        if tag == 1:
            d = env["data"]
            from sa.interp import term_mentions
            if not term_mentions(val, lambda x: x == d):
                rep.bad(key, rule, "text is %s" % show(val), rec.loc)
                return
            if val.op == "call" and isinstance(val.args[0], Term) and \
                    val.args[0] == Term("attr", d, "decode"):
                enc = val.args[1][0] if val.args[1] else Const("utf8")
                kw = dict(val.args[2])
                enc = kw.get("encoding", enc)
                if isinstance(enc, Const) and str(enc.v).lower().replace(
                        "-", "").replace("_", "") != "utf8":
                    rep.bad(key, rule, "text is decoded as %s" % show(enc),
                            rec.loc)
                    return
        else:
            want = Tup([env["v%d" % i] for i in range(len(lay))])
            if val != want and not (len(lay) == 1 and val == want.items[0]):
                rep.bad(key, rule, "%s entry has the value %s, should be %s"
                        % (nm, show(val), show(want)), rec.loc)
                return
            if len(lay) == 1 and val == want:
                rep.bad(key, rule, "%s entry has a tuple as its value" % nm,
                        rec.loc)
                return
        # the slot after it
        wide = tag in (5, 6)
        extra = items[1:]
        nv = tuple(I.get_loc(q.st, l) for l in fin)
        slots = len(items)
        k2 = key + ":slots"
        step = Const(1)
        if nv != v0:
            nxt = rec.seen.get(nv)
            if nxt is None or len(nxt) != 1:
                raise Undecided("state after the entry")
            g2 = reader.grammar(I, nxt[0].st.events, U)
            if g2:
                raise Undecided("reading in the state after the entry")
            a2 = [x for x in appended(nxt[0], lid) if x[1]]
            if len(a2) == 1:
                extra = extra + a2[0][1]
                for x in a2[0][1]:
                    if not unusable(I, nxt[0].st, x):
                        bad_slot(rep, I, k2, nm, nxt[0].st, x, rec)
                        return
                slots += len(a2[0][1])
            nn = tuple(I.get_loc(nxt[0].st, l) for l in fin)
            if nn != v0:
                rep.bad(k2, "slot-accounting", "after a %s entry and its "
                        "placeholder the reader does not continue with a new "
                        "entry" % nm, rec.loc)
                return
        if slots != (2 if wide else 1):
            rep.bad(k2, "slot-accounting", "a %s entry occupies %d indices, "
                    "should be %d" % (nm, slots, 2 if wide else 1), rec.loc)
            return
        for x in items[1:] if wide else ():
            if not unusable(I, q.st, x):
                bad_slot(rep, I, k2, nm, q.st, x, rec)
                return
        rep.ok(k2, "slot-accounting")
    rep.ok(key, rule)
    # whole pool: first slot unusable, count - 1 entries
    for p in paths:
        if p.kind == "raise":
            continue
        k3 = "pool:%s" % ("wide" if tag in (5, 6) else "plain")
        with rep.guard(k3, "pool-count"):
            e = [x for x in p.events if x.kind == "rd"]
            if len(e) < 1 or e[0].args[0] != Const("H"):
                rep.bad(k3, "pool-count", "the entry count is not read as an "
                        "unsigned short")
                return
            cnt = e[0].args[1]
            n = I.count_of(rec.iter)
            if tag in (5, 6) and n != ops.ladd(cnt, Const(-1)):
                raise Undecided("count of wide entries")
            if n != ops.ladd(cnt, Const(-1)):
                rep.bad(k3, "pool-count", "%s slots are filled, should be %s"
                        % (show(n), show(ops.ladd(cnt, Const(-1)))), rec.loc)
                return
            consts = att(I, p.st, p.val, "consts")
            saved = I.st
            I.st = p.st
            segs = I.segs_of(consts)
            I.st = saved
            if len(segs) != 2 or not isinstance(segs[0], Item) or \
                    not isinstance(segs[1], Rep):
                raise Undecided("pool contents %s" % (segs,))
            rep.check(unusable(I, p.st, segs[0].v), k3, "pool-count",
                      "index 0 holds %s" % show(segs[0].v))
