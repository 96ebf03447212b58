"""P04: the instruction table is the JVMS instruction set."""

from sa.interp import Interp, Undecided
from sa.values import Const, Ref, Term
from sa import jvms

META = {
    "level": "proof",
    "rule": "constant propagation of the instruction table through its "
            "public query functions, for every opcode 0..255, against the "
            "JVMS table",
    "assumptions": ["the JVMS table in sa/jvms.py is right"],
}


def single(I, rep, key, rule, thunk):
    """the unique outcome of thunk, as ('return', val) / ('raise', val)"""
    paths = I.run(thunk)
    outs = {(p.kind if p.kind == "raise" else "return", p.val)
            for p in paths}
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    return outs.pop()


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    name_of = I.get("opcodes", "get_opname_by_code")
    code_of = I.get("opcodes", "get_opcode_by_name")
    const_of = I.get("opcodes", "has_const_arg")
    fmt_of = I.get("opcodes", "get_arg_format")
    mnemonic = {}
    for n in (name_of, code_of, const_of, fmt_of):
        if n is None:
            print("ANALYSIS BROKEN: opcode query function missing")
            return
    loc = lambda f: (prog.files[f.mod], f.node.lineno, f.qual)
    for code in range(0xca):
        nm = jvms.OPCODES[code]
        k = "name:%02x" % code
        with rep.guard(k, "opcode-name"):
            r = single(I, rep, k, "", lambda: I.call(
                name_of, [Const(code)], {}))
            rep.check(r == ("return", Const(nm)), k, "opcode-name",
                      "opcode 0x%02x is named %r, JVMS says %r" % (
                          code, r[1], nm), loc(name_of))
        k = "code:%s" % nm
        with rep.guard(k, "opcode-number"):
            for spelled in (nm, nm.upper()):
                r = single(I, rep, k, "", lambda: I.call(
                    code_of, [Const(spelled)], {}))
                if not rep.check(
                        r == ("return", Const(code)), k, "opcode-number",
                        "%r is numbered %r, JVMS says 0x%02x" % (
                            spelled, r[1], code), loc(code_of)):
                    break
        k = "const:%s" % nm
        with rep.guard(k, "opcode-const-operand"):
            ps = I.run(lambda: Const(I.truth(I.call(
                const_of, [Const(code)], {}))))
            vals = {(p.kind, p.val) for p in ps}
            want = code in jvms.CONST_OPS
            if len(vals) != 1:
                raise Undecided("%s" % vals)
            kind, v = vals.pop()
            rep.check(kind == "normal" and v == Const(want), k,
                      "opcode-const-operand",
                      "%s (0x%02x): constant pool operand reported as %r, "
                      "JVMS says %r" % (nm, code, v, want), loc(const_of))
        k = "var:%s" % nm
        with rep.guard(k, "opcode-constant"):
            v = I.get("opcodes", "OP_" + nm)
            if v is not None:
                rep.check(v == Const(code), k, "opcode-constant",
                          "OP_%s is %r, JVMS says 0x%02x" % (nm, v, code),
                          ("javatools/opcodes.py", 0, "OP_" + nm))
    for code in range(0xca, 0x100):
        if code in (0xca, 0xfe, 0xff):
            continue        # reserved by the JVMS
        k = "undefined:%02x" % code
        with rep.guard(k, "opcode-undefined"):
            r = single(I, rep, k, "", lambda: I.call(
                name_of, [Const(code)], {}))
            rep.check(r[0] == "raise", k, "opcode-undefined",
                      "0x%02x is not an instruction but is named %r" % (
                          code, r[1]), loc(name_of))
    # no other name is an opcode
    rep.cover(I)
    rep.expect = 600
