"""Ground truth taken from the Java Virtual Machine Specification.

This file is the oracle: nothing in it is derived from the analysed
repository."""

# -- instruction set (JVMS chapter 6 and 7, opcode mnemonics by opcode) --

MNEMONICS = """
nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4
iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1
bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload
iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3
fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3
aload_0 aload_1 aload_2 aload_3
iaload laload faload daload aaload baload caload saload
istore lstore fstore dstore astore
istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3
fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3
astore_0 astore_1 astore_2 astore_3
iastore lastore fastore dastore aastore bastore castore sastore
pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap
iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul
idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg
ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc
i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s
lcmp fcmpl fcmpg dcmpl dcmpg
ifeq ifne iflt ifge ifgt ifle
if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple
if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch
ireturn lreturn freturn dreturn areturn return
getstatic putstatic getfield putfield
invokevirtual invokespecial invokestatic invokeinterface invokedynamic
new newarray anewarray arraylength athrow checkcast instanceof
monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w
""".split()

OPCODES = dict(enumerate(MNEMONICS))
assert len(OPCODES) == 202 and OPCODES[0xc9] == "jsr_w"
assert OPCODES[0x84] == "iinc" and OPCODES[0xaa] == "tableswitch"
assert OPCODES[0xb1] == "return" and OPCODES[0xba] == "invokedynamic"
OPCODE_BY_NAME = {v: k for k, v in OPCODES.items()}

# operand layout: sequence of (width, kind);
#   u = unsigned value / local index, s = signed immediate,
#   b = signed branch offset, c = constant pool index, z = reserved zero
OPERANDS = {}


def _o(names, *ops):
    for n in names.split():
        OPERANDS[OPCODE_BY_NAME[n]] = ops


_o("bipush", (1, "s"))
_o("sipush", (2, "s"))
_o("ldc", (1, "c"))
_o("ldc_w ldc2_w", (2, "c"))
_o("iload lload fload dload aload istore lstore fstore dstore astore ret",
   (1, "u"))
_o("iinc", (1, "u"), (1, "s"))
_o("ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge "
   "if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ifnull ifnonnull",
   (2, "b"))
_o("goto_w jsr_w", (4, "b"))
_o("getstatic putstatic getfield putfield invokevirtual invokespecial "
   "invokestatic new anewarray checkcast instanceof", (2, "c"))
_o("invokeinterface", (2, "c"), (1, "u"), (1, "z"))
_o("invokedynamic", (2, "c"), (2, "z"))
_o("newarray", (1, "u"))
_o("multianewarray", (2, "c"), (1, "u"))

WIDE_U2 = [OPCODE_BY_NAME[n] for n in (
    "iload lload fload dload aload istore lstore fstore dstore astore ret"
).split()]

CONST_OPS = {c for c, o in OPERANDS.items() if o and o[0][1] == "c"}

# -- constant pool (JVMS 4.4) -------------------------------------------

POOL_TAGS = {
    1: "Utf8", 3: "Integer", 4: "Float", 5: "Long", 6: "Double", 7: "Class",
    8: "String", 9: "Fieldref", 10: "Methodref", 11: "InterfaceMethodref",
    12: "NameAndType", 15: "MethodHandle", 16: "MethodType", 17: "Dynamic",
    18: "InvokeDynamic", 19: "Module", 20: "Package",
}

# byte widths and signedness of each entry body
POOL_LAYOUT = {
    1: None, 3: "i", 4: "f", 5: "q", 6: "d", 7: "H", 8: "H", 9: "HH",
    10: "HH", 11: "HH", 12: "HH", 15: "BH", 16: "H", 17: "HH", 18: "HH",
    19: "H", 20: "H",
}
