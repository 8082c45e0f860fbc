"""What each mnemonic means, written from the ISA and the README (not from the
macro's code).  A form is (mnemonic, Op expression, operand width, source width,
[operand kinds]).  Kinds: r x m i8 i16 i32 i64 q64 u8 cl rel."""

COND = {  # alias -> condition code
    "o": 0, "no": 1, "b": 2, "c": 2, "nae": 2, "ae": 3, "nc": 3, "eq": 4, "e": 4, "z": 4,
    "ne": 5, "nz": 5, "be": 6, "na": 6, "a": 7, "nbe": 7, "s": 8, "ns": 9, "p": 10, "pe": 10,
    "np": 11, "po": 11, "lt": 12, "l": 12, "nge": 12, "ge": 13, "nl": 13, "le": 14, "ng": 14,
    "gt": 15, "g": 15, "nle": 15,
}
JCC = {k: v for k, v in COND.items() if k not in ("l", "g")}  # spellings provided as jumps
CANON = ["o", "no", "b", "ae", "eq", "ne", "be", "a", "s", "ns", "p", "np", "lt", "ge", "le", "gt"]
W = {"q": 8, "l": 4, "w": 2, "b": 1}
IMM = {8: "i32", 4: "i32", 2: "i16", 1: "i8"}


def forms(aliases=True):
    F = []

    def f(mn, op, w, sw, *k):
        F.append((mn, op, w, sw, list(k)))

    f("movq", "Mov", 8, 0, "r", "i64")
    f("movq", "Mov", 8, 0, "r", "q64")
    f("movq", "Mov", 8, 0, "m", "i32")
    for s, w in W.items():
        if w != 8:
            f("mov" + s, "Mov", w, 0, "r", IMM[w])
            f("mov" + s, "Mov", w, 0, "m", IMM[w])
        f("mov" + s, "Mov", w, 0, "r", "r")
        f("mov" + s, "Mov", w, 0, "m", "r")
        f("mov" + s, "Mov", w, 0, "r", "m")
    for a, b in (("x", "r"), ("r", "x"), ("x", "x"), ("x", "m"), ("m", "x")):
        f("movq", "MovqX", 8, 0, a, b)
    for mn, op, sw in (("movsxl", "Movsx", 4), ("movzxw", "Movzx", 2), ("movsxw", "Movsx", 2),
                       ("movzxb", "Movzx", 1), ("movsxb", "Movsx", 1)):
        f(mn, op, 8, sw, "r", "r")
        f(mn, op, 8, sw, "r", "m")
    for op in ("add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"):
        for s, w in W.items():
            o = op.capitalize()
            f(op + s, o, w, 0, "r", IMM[w])
            f(op + s, o, w, 0, "m", IMM[w])
            f(op + s, o, w, 0, "r", "r")
            f(op + s, o, w, 0, "m", "r")
            f(op + s, o, w, 0, "r", "m")
    for s, w in W.items():
        f("xchg" + s, "Xchg", w, 0, "r", "r")
        f("xchg" + s, "Xchg", w, 0, "m", "r")
        f("xchg" + s, "Xchg", w, 0, "r", "m")
    for k in "rm":
        f("negq", "Neg", 8, 0, k)
        f("imul", "Imul2", 8, 0, "r", k)
        for mn, op, w in (("idiv", "Idiv", 8), ("idivq", "Idiv", 8), ("idivl", "Idiv", 4),
                          ("div", "Div", 8), ("divq", "Div", 8), ("divl", "Div", 4)):
            f(mn, op, w, 0, k)
        f("testq", "Test", 8, 0, k, "r")
        f("testq", "Test", 8, 0, k, "i32")
        f("testb", "Test", 1, 0, k, "r")
        f("testb", "Test", 1, 0, k, "i8")
        for mn, op in (("shl", "Shl"), ("shr", "Shr"), ("sal", "Shl"), ("sar", "Sar"), ("rol", "Rol"), ("ror", "Ror")):
            for s in "ql":
                f(mn + s, op, W[s], 0, k, "i8")
                f(mn + s, op, W[s], 0, k, "cl")
        names = COND if aliases else CANON
        for c in names:
            f("set" + c, "Set(%d)" % COND[c], 1, 0, k)
        for c in names:
            for s in "qlw":
                f("cmov" + c + s, "Cmov(%d)" % COND[c], W[s], 0, "r", k)
        f("pushq", "Push", 8, 0, k)
        f("popq", "Pop", 8, 0, k)
        for mn, op in (("lzcnt", "Lzcnt"), ("tzcnt", "Tzcnt"), ("popcnt", "Popcnt")):
            for s in "ql":
                f(mn + s, op, W[s], 0, "r", k)
        f("cvtsi2sdq", "Cvtsi2sd", 8, 8, "x", k)
    f("lea", "Lea", 8, 0, "r", "m")
    f("jmp", "Jmp", 8, 0, "m")
    f("call", "Call", 8, 0, "m")
    f("call", "Call", 8, 0, "rel")
    for mn, op, w in (("cqo", "Cwd", 8), ("cdq", "Cwd", 4), ("int3", "Int3", 0), ("ret", "Ret", 0),
                      ("leave", "Leave", 0), ("syscall", "Syscall", 0)):
        f(mn, op, w, 0)
    f("movsd", "MovsdRR", 8, 0, "x", "x")
    f("movsd", "MovqX", 8, 0, "x", "m")
    f("movsd", "MovqX", 8, 0, "m", "x")
    for mn, op, w in (("addsd", "Addsd", 8), ("subsd", "Subsd", 8), ("mulsd", "Mulsd", 8), ("divsd", "Divsd", 8),
                      ("minsd", "Minsd", 8), ("maxsd", "Maxsd", 8), ("sqrtsd", "Sqrtsd", 8), ("sqrtpd", "Sqrtpd", 16),
                      ("xorps", "XorP", 16), ("xorpd", "XorP", 16), ("andpd", "AndP", 16), ("ucomisd", "Ucomisd", 8)):
        f(mn, op, w, 0, "x", "x")
        f(mn, op, w, 0, "x", "m")
    for k in "xm":
        f("roundpd", "Roundpd", 16, 0, "x", k, "u8")
        f("cvttsd2siq", "Cvttsd2si", 8, 0, "r", k)
    return F


def is_sse(f):
    return "x" in f[4] or f[0].startswith("cvt")


def is_mem(f):
    return "m" in f[4]


def has_imm(f):
    return any(k in ("i8", "i16", "i32", "i64", "q64", "u8", "rel") for k in f[4])


# memory shapes: (text, base, scale or None, sign); base 'b' or 'rip'
def shapes():
    S = []
    for sign in ("", "+", "-"):
        d = {"": "", "+": " + (a.d)", "-": " - (a.d)"}[sign]
        S.append(("[R(a.b)%s]" % d, "b", None, sign))
        S.append(("[R(a.b) + R(a.i)%s]" % d, "b", 0, sign))
        for k in range(4):
            S.append(("[R(a.b) + R(a.i) * %d%s]" % (1 << k, d), "b", k, sign))
        S.append(("[rip%s]" % d, "rip", None, sign))
    return S


FEW = [("[R(a.b)]", "b", None, ""), ("[R(a.b) + (a.d)]", "b", None, "+"),
       ("[R(a.b) + R(a.i) * 4 - (a.d)]", "b", 2, "-"), ("[rip + (a.d)]", "rip", None, "+")]


def kind_rust(k, slot, shape=None):
    if k == "r":
        return "K::R(%d)" % slot
    if k == "x":
        return "K::X(%d)" % slot
    if k == "m":
        _, base, sc, sign = shape
        return "K::M{rip:%s,sc:%d,sg:%d}" % ("true" if base == "rip" else "false",
                                             255 if sc is None else sc, {"": 0, "+": 1, "-": -1}[sign])
    if k == "cl":
        return "K::Cl"
    if k == "rel":
        return "K::Rel"
    if k == "u8":
        return "K::U8"
    return "K::I(%d)" % {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "q64": 64}[k]


def op_text(k, slot, shape=None):
    if k == "r":
        return "R(a.r%d)" % slot
    if k == "x":
        return "xmm(a.r%d)" % slot
    if k == "m":
        return shape[0]
    if k == "cl":
        return "cl"
    if k == "u8":
        return "(a.imm as u8)"
    if k == "q64":
        return "qword (a.imm)"
    return "(a.imm)"


def form_line(f, shape=None):
    mn, op, w, sw, ks = f
    ops, kr = [], []
    for s, k in enumerate(ks):
        ops.append(op_text(k, s, shape))
        kr.append(kind_rust(k, s, shape))
    while len(kr) < 3:
        kr.append("K::N")
    text = (mn + " " + ", ".join(ops)).strip()
    return 'Form{n:"%s",f:|j,a|{monoasm!(&mut *j, %s;);},op:Op::%s,w:%d,sw:%d,o:[%s]},' % (text, text, op, w, sw, ",".join(kr))


def table(fs, shp):
    L = []
    for f in fs:
        if is_mem(f):
            for s in shp:
                L.append(form_line(f, s))
        else:
            L.append(form_line(f))
    return L


NAMES = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]


def jump_lines():
    """jumps and calls to labels and through named registers"""
    L = []
    for mn, op in (("jmp", "Jmp"), ("call", "Call")):
        for k, n in enumerate(NAMES):
            L.append('Form{n:"%s %s",f:|j,_a|{monoasm!(&mut *j, %s %s;);},op:Op::%s,w:8,sw:0,o:[K::G(%d),K::N,K::N]},' % (mn, n, mn, n, op, k))
    for mn, op in [("jmp", "Jmp"), ("call", "Call")] + [("j" + c, "Jcc(%d)" % v) for c, v in JCC.items()]:
        L.append('Form{n:"%s lab",f:|j,a|{let lab=a.lab;monoasm!(&mut *j, %s lab;);},op:Op::%s,w:8,sw:0,o:[K::Lab,K::N,K::N]},' % (mn, mn, op))
    return L
