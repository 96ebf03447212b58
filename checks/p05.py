"""P05: the disassembler consumes exactly the bytes of each instruction and
decodes its operands with the JVMS widths and signedness."""

from sa.interp import Interp, Undecided, LoopRec
from sa.values import (Const, Term, Tup, Ref, HList, Rep, Item, NONE, show)
from sa import jvms, ops, bytestream

META = {
    "level": "proof",
    "rule": "abstract interpretation of the disassembler's loop body, trace "
            "partitioned on the opcode (0..201), on the residue of the "
            "instruction offset modulo 4 for the switch instructions and on "
            "the widened opcode; each iteration's yielded tuple and next "
            "offset are compared with the JVMS operand layout",
    "assumptions": ["well formed bytecode (JVMS 4.9.1): low <= high and "
                    "npairs >= 0 for the switch instructions"],
}

SIG = {"s": {1: "b", 2: "h", 4: "i"}, "b": {2: "h", 4: "i"},
       "u": {1: "B"}, "c": {1: "B", 2: "H"}, "z": {1: "B", 2: "H"}}

BC = Term("param", "bytecode")


def rd(off, ch):
    return Term("read", BC, off, ch)


def plus(a, n):
    return ops.ladd(a, Const(n))


def fold_bytes(v):
    """reserved zero bytes may be read in any grouping; compare tuples"""
    return v


class Run(object):
    """one analysis of disassemble() under a fixed opcode"""

    shared = None

    def __init__(self, prog, code, residue=None, wide=None):
        self.code = code
        self.residue = residue
        self.wide = wide
        self.pos = None
        hooks = bytestream.hooks(lambda t: t == BC)
        hooks["phi"] = self.phi
        hooks["readval"] = self.readval
        hooks["isinstance"] = self.isinst
        if Run.shared is None:
            Run.shared = Interp(prog).load_all()
        self.I = Run.shared
        self.I.hooks = hooks
        self.q = Term("num", "q")

    def isinst(self, I, v, cls):
        return None

    def phi(self, I, entry, lid, l, e):
        # the loop-carried offset: pc = 4 q + residue, or an opaque pc
        if l[0] == "var" and e == Const(0):
            if self.pos is None or self.pos[0] == (lid, l[2]):
                p = Term("num", "pc", lid)
                if self.residue is not None:
                    p = ops.ladd(ops.lscale(self.q, 4), Const(self.residue))
                self.pos = ((lid, l[2]), p)
                return p
        return None

    def readval(self, I, t):
        if self.pos is None:
            return t
        d = ops.ladd(t.args[1], self.pos[1], -1)
        if d == Const(0) and t.args[2] in "Bb":
            c = self.code
            if t.args[2] == "b" and c > 127:
                c -= 256
            return Const(c)
        if d == Const(1) and self.wide is not None and t.args[2] in "Bb" \
           and self.code == 0xc4:
            return Const(self.wide) if t.args[2] == "B" else \
                Const((self.wide + 128) % 256 - 128)
        return t

    def go(self):
        f = self.I.get("opcodes", "disassemble")
        if f is None:
            raise Undecided("disassemble is missing")
        self.func = f
        paths = self.I.run(lambda: self.I.call(f, [BC], {}))
        # the loop over the instructions
        rec = None
        for p in paths:
            for e in p.st.events:
                if e.kind == "loop":
                    rec = e.fn if rec is None or e.fn.loc[1] < rec.loc[1] \
                        else rec
        if rec is None or self.pos is None:
            raise Undecided("no instruction loop found")
        self.rec = rec
        offs = [(l, x) for l, x in rec.phis.items()
                if l[0] == "var" and x[0] == self.pos[1]]
        if len(offs) != 1:
            raise Undecided("no loop-carried offset")
        loc = offs[0][0]
        outs = []
        for p in rec.conts():
            ys = [e for e in p.st.events if e.kind == "yield"]
            nxt = self.I.get_loc(p.st, loc)
            outs.append((p, ys, nxt))
        raises = [p for p in rec.exits() if p.kind == "raise"]
        dones = [p for p in rec.exits() if p.kind in ("done", "break",
                                                      "return")]
        return outs, raises, dones


def offs(lay):
    """byte offset and kind of every operand byte"""
    out = []
    o = 1
    for w, k in lay:
        for i in range(w):
            out.append((o + i, k))
        o += w
    return out


def flat(v):
    return tuple(flat(x) for x in v.items) if isinstance(v, Tup) else v


def judge(rep, key, rule, run, expect_args, nxt_want, code):
    outs, raises, dones = run.go()
    loc = run.rec.loc
    nm = jvms.OPCODES[code]
    if raises:
        rep.bad(key, rule, "%s: raises %s" % (nm, show(raises[0].val)),
                raises[0].loc or loc)
        return
    if not outs:
        raise Undecided("no completing iteration")
    pc = run.pos[1]
    for p, ys, nxt in outs:
        if len(ys) != 1:
            rep.bad(key, rule, "%s: one iteration yields %d tuples" % (
                nm, len(ys)), loc)
            return
        y = ys[0].args[0]
        if not isinstance(y, Tup) or len(y.items) != 3:
            raise Undecided("shape of yielded value")
        if y.items[0] != pc:
            rep.bad(key, rule, "%s: reported offset is %s, not the offset "
                    "of the instruction" % (nm, show(y.items[0])), ys[0].loc)
            return
        if y.items[1] != Const(code):
            rep.bad(key, rule, "%s: reported opcode is %s" % (
                nm, show(y.items[1])), ys[0].loc)
            return
        why = expect_args(y.items[2])
        if why:
            rep.bad(key, rule, "%s: %s" % (nm, why), ys[0].loc)
            return
        if nxt != nxt_want:
            rep.bad(key, rule, "%s at pc: next instruction at %s, should be "
                    "%s" % (nm, show(nxt), show(nxt_want)), loc)
            return
    rep.ok(key, rule)


def run(rep, prog, tier):
    rule = "operand-layout"
    last = None
    for code in range(0xca):
        nm = jvms.OPCODES[code]
        if nm in ("tableswitch", "lookupswitch", "wide"):
            continue
        lay = jvms.OPERANDS.get(code, ())
        key = "op:%s" % nm
        with rep.guard(key, rule):
            r = last = Run(prog, code)

            def expect(v, r=r, lay=lay):
                pc = r.pos[1]
                want = []
                off = 1
                for w, k in lay:
                    want.append(rd(plus(pc, off), SIG[k][w]))
                    off += w
                got = v
                if isinstance(got, Ref):
                    items = r.I.known_items(got)
                    got = Tup(items or [])
                if got == NONE:
                    got = Tup([])
                zero = [o for o, k in offs(lay) if k == "z"]

                def iszero(t):
                    return isinstance(t, Term) and t.op == "read" and \
                        ops.ladd(t.args[1], pc, -1) in [
                            Const(z) for z in zero]
                g = [x for x in got.items if not iszero(x)] \
                    if isinstance(got, Tup) else None
                w_ = [x for x in want if not iszero(x)]
                if g is None or g != w_:
                    return "operands decoded as %s, JVMS layout is %s" % (
                        show(got), show(Tup(want)))
            size = 1 + sum(w for w, _k in lay)
            r_go = r.go
            # evaluate once; judge() re-reads the position afterwards
            outs = r_go()
            r.go = lambda outs=outs: outs
            judge(rep, key, rule, r, expect, plus(r.pos[1], size), code)
    # wide
    for sub in range(256):
        if sub in jvms.WIDE_U2:
            lay = "BH"
            size = 4
        elif sub == 0x84:
            lay = "BHh"
            size = 6
        elif sub in (0x00, 0x12, 0xa7, 0xc4) or tier == "thorough":
            lay = None
        else:
            continue
        key = "wide:%02x" % sub
        with rep.guard(key, "wide-layout"):
            r = Run(prog, 0xc4, wide=sub)
            outs = r.go()
            if lay is None:
                # not a widened instruction: must not be decoded silently
                # as one; raising or yielding without operands are both fine
                continue

            def expect(v, r=r, lay=lay, sub=sub):
                pc = r.pos[1]
                want = [Const(sub)]
                off = 2
                for ch in lay[1:]:
                    want.append(rd(plus(pc, off), ch))
                    off += 2
                if v != Tup(want):
                    return "operands decoded as %s, JVMS layout is %s" % (
                        show(v), show(Tup(want)))
            r.go = lambda outs=outs: outs
            judge(rep, key, "wide-layout", r, expect,
                  plus(r.pos[1], size), 0xc4)
    # switches
    for code, nm in ((0xaa, "tableswitch"), (0xab, "lookupswitch")):
        for res in range(4):
            key = "%s:pc%%4=%d" % (nm, res)
            with rep.guard(key, "switch-layout"):
                r = Run(prog, code, residue=res)
                outs = r.go()
                r.go = lambda outs=outs: outs
                pc = r.pos[1]
                base = plus(pc, 1 + (3 - res))
                if nm == "tableswitch":
                    lo, hi = rd(plus(base, 4), "i"), rd(plus(base, 8), "i")
                    n = plus(ops.ladd(hi, lo, -1), 1)
                    want_nxt = ops.ladd(plus(base, 12), ops.lscale(n, 4))
                    idx = Term("num", "idx", Term("range", Const(0), n,
                                                  Const(1)))
                    el = rd(ops.ladd(plus(base, 12), ops.lscale(idx, 4)),
                            "i")
                    want = [rd(base, "i"), lo, hi]
                else:
                    n = rd(plus(base, 4), "i")
                    want_nxt = ops.ladd(plus(base, 8), ops.lscale(n, 8))
                    idx = Term("num", "idx", Term("range", Const(0), n,
                                                  Const(1)))
                    o = ops.ladd(plus(base, 8), ops.lscale(idx, 8))
                    el = Tup([rd(o, "i"), rd(plus(o, 4), "i")])
                    want = [rd(base, "i")]

                def expect(v, want=want, el=el, n=n):
                    if not isinstance(v, Tup) or \
                       len(v.items) != len(want) + 1:
                        return "operands decoded as %s" % show(v)
                    if list(v.items[:-1]) != want:
                        return "operands decoded as %s, should be %s" % (
                            show(v.items[:-1]), show(tuple(want)))
                    t = v.items[-1]
                    if not (isinstance(t, Term) and t.op == "list" and
                            len(t.args[1]) == 1 and
                            isinstance(t.args[1][0], Rep)):
                        raise Undecided("jump table %s" % show(t))
                    rp = t.args[1][0]
                    if rp.iter != Term("range", Const(0), n, Const(1)):
                        if ops.is_num(rp.iter) or (isinstance(
                                rp.iter, Term) and rp.iter.op == "range"):
                            c = r.I.count_of(rp.iter)
                            if c != n:
                                return "jump table has %s entries, should " \
                                    "have %s" % (show(c), show(n))
                        else:
                            raise Undecided("jump table loop")
                    if len(rp.alts) != 1 or len(rp.alts[0][1]) != 1:
                        raise Undecided("jump table entries")
                    got = rp.alts[0][1][0].v
                    if got != el and got != Tup([el]):
                        return "jump table entry decoded as %s, should be " \
                            "%s" % (show(got), show(el))
                judge(rep, key, "switch-layout", r, expect, want_nxt, code)
                last = r
    # termination and completeness of the walk
    key = "walk"
    with rep.guard(key, "walk-to-end"):
        r = Run(prog, 0)
        outs, raises, dones = r.go()
        ok = False
        for p in dones:
            cs = [(c[0], c[1]) for c in p.st.path if isinstance(c[0], Term)]
            # stops exactly when not (pc < len(bytecode))
            want = ops.cond_lt(r.pos[1], Term(
                "call", __import__("sa.values").values.Ext("builtins.len"),
                (BC,), (), 0))
            if cs == [(want[0], not want[1])]:
                ok = True
            else:
                raise Undecided("loop exit condition %s" % cs)
        rep.check(ok and len(dones) == 1, key, "walk-to-end",
                  "the walk does not stop exactly at the end of the code")
    if last is not None:
        rep.cover(last.I)
    rep.expect = 220
