"""C13: literal spellings and Rust expressions of the same value."""
from spec import *

STYLE = [str.lower, str.upper, str.capitalize, lambda s: s[0] + s[1:].upper()]
DISPS = [0, 8, 127, 128, -1, -128, -129, 0x12345, -0x12345, 0x7fffffff, -0x7fffffff, 16, 255, 256, -256, 4]


def regname(n, k):
    return STYLE[k % 4](NAMES[n])


def intlit(v, k):
    """positive literal in different notations"""
    assert v >= 0
    return ["%d" % v, "0x%x" % v, "0b%s" % bin(v)[2:], "0o%o" % v,
            "{:,}".format(v).replace(",", "_"), "%di64" % v, "0x%x_i64" % v, "0x%X" % v,
            "0%d" % v, "00_%d" % v, "0x00%x" % v, "%d_" % v, "0b0_%s" % bin(v)[2:]][k % 13]


def memlit(b, i, sc, d, k):
    t = "[" + ("rip" if b == 16 else regname(b, k))
    if i is not None:
        t += " + " + regname(i, k + 1)
        if sc or k & 1:
            t += " * %d" % (1 << sc)
    if d or k & 2:
        t += (" + " if d >= 0 else " - ") + intlit(abs(d), k % 13)
    return t + "]"


def mk(b, i, sc, d):
    return "K::Mx{b:%d,i:%d,sc:%d,d:%d}" % (b, 255 if i is None else i, sc, d)


def line(text, lets, op, w, sw, ks):
    ks = ks + ["K::N"] * (3 - len(ks))
    esc = (lets + text).replace("\\", "\\\\").replace('"', '\\"')
    return 'Form{n:"%s",f:|j,_a|{%smonoasm!(&mut *j, %s;);},op:Op::%s,w:%d,sw:%d,o:[%s]},' % (esc, lets, text, op, w, sw, ",".join(ks))


IMMS = {"i8": [0, 1, 5, 64, 127], "i16": [0, 1, 127, 128, 0x1234, 0x7fff], "i32": [0, 1, 127, 128, 255, 0x8000, 0x12345678, 0x7fffffff],
        "i64": [0, 1, 127, 128, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef0, 0x7fffffffffffffff],
        "u8": [0, 1, 2, 3, 4, 9, 255]}
IMMS["q64"] = IMMS["i64"]
IMMS["rel"] = IMMS["i32"]

# immediate / displacement expressions: (text, lets, value); every value fits in 8 signed bits
EXPR = [("x", "let x:%s=%d;" % (t, v), v) for t, v in
        [("i8", -5), ("i16", -6), ("i32", -7), ("i64", -8), ("isize", -9), ("u8", 100), ("u16", 101), ("u32", 102), ("u64", 103), ("usize", 104)]]
EXPR += [
    ("x + y", "let x=3i64;let y=4i64;", 7), ("x - y", "let x=3i64;let y=4i64;", -1), ("-x", "let x=9i32;", -9), ("!x", "let x=9i64;", -10),
    ("x * 8", "let x=12i64;", 96), ("x * 8", "let x=12usize;", 96), ("x << 3", "let x=5u32;", 40), ("x | y", "let x=5u8;let y=64u8;", 69),
    ("if x > 2 { y } else { 7 }", "let x=3i64;let y=11i64;", 11), ("{ let z = x; z + 1 }", "let x=3i64;", 4),
    ("match x { 3 => 9i64, _ => 1 }", "let x=3i64;", 9), ("x.abs()", "let x=-3i64;", 3), ("t[1]", "let t=[1i64,2,3];", 2),
    ("t.1", "let t=(1i64,22i64);", 22), ("*x", "let x=&17i64;", 17), ("x as i32 + y as i32", "let x=3u8;let y=4i64;", 7),
    ("x % y", "let x=17u64;let y=5u64;", 2), ("x - -3", "let x=3i64;", 6), ("x & 0x7f", "let x=0x1ffu64;", 0x7f),
    ("f(x)", "let x=3i64;let f=|v:i64|v*v;", 9), ("std::cmp::max(x, y)", "let x=3i64;let y=4i64;", 4), ("x as u8", "let x=0x105i64;", 5),
    ("(x)", "let x=33i64;", 33), ("((x + 1) * 2)", "let x=3i64;", 8), ("i64::from(x)", "let x=3i32;", 3), ("42", "", 42), ("-42", "", -42),
    ("0x2a", "", 42), ("if x { 1 } else { 2 }", "let x=false;", 2), ("x as i64 - 1", "let x=3u16;", 2),
    ("x ^ y", "let x=5i64;let y=1i64;", 4), ("x / 2", "let x=-9i64;", -4), ("x >> 1", "let x=-9i64;", -5),
]
WIDE = [("x", "let x:u64=u64::MAX;", -1), ("x", "let x:u32=u32::MAX;", 0xffffffff), ("x", "let x:i64=i64::MIN;", -2**63),
        ("x", "let x:usize=0x8000_0000;", 0x80000000), ("x * 8", "let x=0x4000_0000i64;", 0x200000000), ("x | y", "let x=1u64<<63;let y=1u64;", -2**63 + 1),
        ("x as *const u8 as u64", "let x:usize=0x7fff_1234_5678;", 0x7fff12345678), ("x as i64", "let x:u64=0xffff_ffff_0000_0000;", -2**32)]
MIDDISP = [("x", "let x:u32=70000;", 70000), ("x * 8", "let x=40000i64;", 320000), ("-x", "let x=0x7fff_ffffi64;", -0x7fffffff),
           ("x", "let x:i64=i32::MIN as i64;", -2**31), ("x", "let x:i32=i32::MAX;", 2**31 - 1), ("x - y", "let x=8i64;let y=0x10000i64;", 8 - 0x10000),
           ("x * 8", "let x=-5isize;", -40), ("x as i32", "let x=0x1_0000_0010i64;", 16)]
# register expressions (u64)
REX = [("x", "let x:u64=%d;", 0), ("x + 12", "let x:u64=%d-12;", 12), ("x * 2", "let x:u64=%d/2;", -2), ("x ^ 1", "let x:u64=%d^1;", 0),
       ("if x > 90 { 1 } else { x }", "let x:u64=%d;", 0), ("f(x)", "let f=|v:u64|v-3;let x=%d+3u64;", 0), ("t[1]", "let t=[0u64,%d];", 0),
       ("x as u64", "let x:u8=%d;", 0), ("x as u64", "let x:i32=%d;", 0), ("{ let y = x; y }", "let x:u64=%d;", 0), ("*x", "let x=&%du64;", 0),
       ("match x { v => v }", "let x:u64=%d;", 0), ("x.wrapping_sub(0)", "let x:u64=%d;", 0), ("%d", "", 0)]


def spelled(FS, styles=True):
    """every form with all operands written literally: every register in every
    position, and both operands the same register"""
    L = []
    for fi, (mn, op, w, sw, ks) in enumerate(FS):
        nreg = sum(k in ("r", "x") for k in ks)
        both = [("same", v) for v in (0, 1, 4, 7, 9, 13)] if nreg == 2 else []
        zero = [("zero", v) for v in (3, 8)] + [("zero1", v) for v in (3, 8)] if nreg == 2 else []
        for k, (how, v) in enumerate([("rot", v) for v in range(16)] + both + zero):
            texts, kk = [], []
            r1 = {"rot": (v * 5 + 3 + fi) % 16, "same": v, "zero": 0, "zero1": v}[how]
            r0 = 0 if how == "zero1" else v
            st = k if styles else 0
            for s, kd in enumerate(ks):
                r = (r0, r1, 0)[s]
                if kd == "r":
                    texts.append(regname(r, st + s if styles else 0)); kk.append("K::G(%d)" % r)
                elif kd == "x":
                    texts.append("xmm%d" % r); kk.append("K::Xn(%d)" % r)
                elif kd == "m":
                    a = memargs(k, v, fi)
                    texts.append(memlit(*a, st)); kk.append(mk(*a))
                elif kd == "cl":
                    texts.append(["cl", "CL", "rcx", "Cl"][st % 4]); kk.append("K::Cl")
                else:
                    im = IMMS[kd][(k + fi) % len(IMMS[kd])]
                    if kd == "rel":
                        texts.append("(%d)" % im)
                    elif kd == "u8":
                        texts.append("%d" % im)
                    else:
                        texts.append(("qword " if kd == "q64" else "") + intlit(im, st))
                    kk.append("K::Im(%d)" % im)
            L.append(line((mn + " " + ", ".join(texts)).strip(), "", op, w, sw, kk))
            if not ks:
                break
    return L


def memargs(k, v, fi):
    sh = (k + fi) % 6
    b = (v * 7 + 1) % 16
    i = (v * 3 + 2) % 16
    if i == 4:
        i = 12
    d = DISPS[(k * 3 + fi) % 16]
    return [(b, None, 0, 0), (b, None, 0, d), (b, i, (k + fi) % 4, d), (b, i, (k + fi) % 4, 0), (16, None, 0, d), (b, i, 0, d)][sh]


def addresses():
    """literal memory operands: every base x index class x scale x displacement class on a few
    instructions of different shape"""
    L = []
    T = [("lea rbx, %s", "Lea", 8, ["K::G(3)", None]), ("movb %s, 5", "Mov", 1, [None, "K::Im(5)"]), ("addl %s, 0x12345678", "Add", 4, [None, "K::Im(305419896)"]),
         ("movq xmm9, %s", "MovqX", 8, ["K::Xn(9)", None]), ("xorw r9, %s", "Xor", 2, ["K::G(9)", None]), ("pushq %s", "Push", 8, [None]), ("jmp %s", "Jmp", 8, [None])]
    n = 0
    for b in list(range(16)) + [16]:
        for i in [None] + [x for x in range(16) if x != 4]:
            if b == 16 and i is not None:
                continue
            for sc in range(4) if i is not None else [0]:
                for d in (0, 1, 127, 128, -128, -129, 0x7fffffff, -0x7fffffff) if i is None else (0, DISPS[(b + i + sc) % 16], -DISPS[(b * 3 + i) % 16]):
                    text, op, w, ks = T[n % len(T)]
                    n += 1
                    L.append(line(text % memlit(b, i, sc, d, 0), "", op, w, 0, [mk(b, i, sc, d) if z is None else z for z in ks]))
    return L


def immediates():
    """literal immediates: every notation of the width's boundary values; values outside the
    width (lines marked MAY) are refused or exact"""
    L, O = [], []
    more = {"i8": [2, 3, 7, 8, 31, 32, 63, 65, 126], "i16": [2, 255, 256, 0x7ffe, 0x100, 0x80], "i32": [2, 256, 0xffff, 0x10000, 0x7ffffffe, 0x80],
            "i64": [2, 256, 0xffff, 0x7ffffffe, 0x80000001, 0xfffffffe, 0x100000001], "u8": [8, 127, 128, 254]}
    more["q64"] = more["i64"]
    more["rel"] = more["i32"]
    out = {"i8": [128, 129, 255, 256, 0xffff, 0x100000001], "i16": [0x8000, 0xffff, 0x10000, 0x10001, 0x100000001], "i32": [0x80000000, 0xffffffff, 0x100000000, 0x100000005, 0x7fffffffffffffff]}
    for fi, (mn, op, w, sw, ks) in enumerate(forms(aliases=False)):
        ik = ks[-1] if ks else ""
        if ik not in IMMS:
            continue
        if mn[:3] in ("shl", "shr", "sal", "sar", "rol", "ror"):
            outs = []
        else:
            outs = out.get(ik, [])
        for k, im in enumerate(IMMS[ik] + more[ik] + outs):
            may = k >= len(IMMS[ik] + more[ik])
            texts, kk = [], []
            r = (0, 3, 5, 9, 12)[(k + fi) % 5]
            for s, kd in enumerate(ks):
                if kd == "r": texts.append(NAMES[r]); kk.append("K::G(%d)" % r)
                elif kd == "x": texts.append("xmm%d" % r); kk.append("K::Xn(%d)" % r)
                elif kd == "m":
                    a = memargs(k, r, fi)
                    texts.append(memlit(*a, 0)); kk.append(mk(*a))
                elif kd == "rel": texts.append("(%d)" % im); kk.append("K::Im(%d)" % im)
                else: texts.append(("qword " if kd == "q64" else "") + ("%d" % im if kd == "u8" else intlit(im, (k + fi) % 5))); kk.append("K::Im(%d)" % im)
            l = line(mn + " " + ", ".join(texts), "", op, w, sw, kk)
            if may:
                O.append(l + " // MAY")
            else:
                L.append(l)
    return L, O


def ren(t, a, b):
    import re
    return re.sub(r"\b%s\b" % a, b, t)


def lines(tier):
    L = []
    # 1. every form, all operands literal, registers rotating through all numbers
    FS = forms(aliases=False)
    L += spelled(FS)
    # 2. every register name in every case at every kind of operand position
    for k in range(16):
        for st in range(4):
            g = regname(k, st)
            G = "K::G(%d)" % k
            for text, op, w, ks in [
                ("negq %s" % g, "Neg", 8, [G]), ("addq %s, rbx" % g, "Add", 8, [G, "K::G(3)"]), ("addq rbx, %s" % g, "Add", 8, ["K::G(3)", G]),
                ("addb [rbx], %s" % g, "Add", 1, [mk(3, None, 0, 0), G]), ("movq %s, rbx" % g, "Mov", 8, [G, "K::G(3)"]), ("movq rbx, %s" % g, "Mov", 8, ["K::G(3)", G]),
                ("movq %s, [rbx]" % g, "Mov", 8, [G, mk(3, None, 0, 0)]), ("movl %s, 7" % g, "Mov", 4, [G, "K::Im(7)"]), ("testb rbx, %s" % g, "Test", 1, ["K::G(3)", G]),
                ("lzcntq %s, rbx" % g, "Lzcnt", 8, [G, "K::G(3)"]), ("imul %s, rbx" % g, "Imul2", 8, [G, "K::G(3)"]), ("jmp %s" % g, "Jmp", 8, [G]), ("call %s" % g, "Call", 8, [G]),
                ("pushq %s" % g, "Push", 8, [G]), ("movq xmm3, %s" % g, "MovqX", 8, ["K::Xn(3)", G]), ("cvtsi2sdq xmm3, %s" % g, None, 8, ["K::Xn(3)", G]),
                ("lea rbx, [%s]" % g, "Lea", 8, ["K::G(3)", mk(k, None, 0, 0)]), ("lea rbx, [%s - 200]" % g, "Lea", 8, ["K::G(3)", mk(k, None, 0, -200)]),
                ("lea rbx, [%s + rcx]" % g, "Lea", 8, ["K::G(3)", mk(k, 1, 0, 0)]),
            ]:
                L.append(line(text, "", op or "Cvtsi2sd", w, 0 if op else 8, ks))
            if k != 4:
                L.append(line("lea rbx, [rcx + %s]" % g, "", "Lea", 8, 0, ["K::G(3)", mk(1, k, 0, 0)]))
                L.append(line("lea rbx, [rcx+%s*8-5]" % g, "", "Lea", 8, 0, ["K::G(3)", mk(1, k, 3, -5)]))
        X = "K::Xn(%d)" % k
        for text, op, ks in [("addsd xmm%d, xmm3", "Addsd", [X, "K::Xn(3)"]), ("addsd xmm3, xmm%d", "Addsd", ["K::Xn(3)", X]), ("movsd xmm%d, xmm3", "MovsdRR", [X, "K::Xn(3)"]),
                             ("movsd [rbx], xmm%d", "MovqX", [mk(3, None, 0, 0), X]), ("movq xmm%d, xmm3", "MovqX", [X, "K::Xn(3)"]), ("movq xmm3, xmm%d", "MovqX", ["K::Xn(3)", X]),
                             ("movq rbx, xmm%d", "MovqX", ["K::G(3)", X]), ("movq [rbx], xmm%d", "MovqX", [mk(3, None, 0, 0), X]), ("ucomisd xmm%d, [rbx]", "Ucomisd", [X, mk(3, None, 0, 0)])]:
            L.append(line(text % k, "", op, 8, 0, ks))
    # 3. immediate expressions at every immediate position
    for mn, op, w, sw, ks in FS:
        if not has_imm((mn, op, w, sw, ks)):
            continue
        ik = ks[-1]
        if ik == "u8":
            continue
        for k, (t, lets, v) in enumerate(EXPR + (WIDE if ik in ("i64", "q64") else [])):
            texts, kk = [], []
            for s, kd in enumerate(ks):
                if kd == "r":
                    texts.append("R(9)"); kk.append("K::G(9)")
                elif kd == "m":
                    texts.append("[r13 + rcx*2]"); kk.append(mk(13, 1, 1, 0))
                else:
                    texts.append(("qword " if kd == "q64" else "") + "(%s)" % t)
                    kk.append("K::Im(%d)" % v)
            L.append(line(mn + " " + ", ".join(texts), lets, op, w, sw, kk))
    # 4. displacement expressions: all expressions on templates, a few on every memory form
    for t, lets, v in EXPR + MIDDISP:
        for pat, b, i, sc, sg in (("[rax + (%s)]", 0, None, 0, 1), ("[R(5) - (%s)]", 5, None, 0, -1), ("[r12 + rdi * 4 + (%s)]", 12, 7, 2, 1),
                                  ("[R(13) + R(12) - (%s)]", 13, 12, 0, -1), ("[rip + (%s)]", 16, None, 0, 1), ("[rip - (%s)]", 16, None, 0, -1)):
            d = sg * v
            if not -2**31 <= d < 2**31:
                continue
            for text, op, w, ks in (("lea rbx, %s", "Lea", 8, ["K::G(3)", None]), ("movw %s, 0x1234", "Mov", 2, [None, "K::Im(4660)"]), ("movq xmm1, %s", "MovqX", 8, ["K::Xn(1)", None])):
                L.append(line(text % (pat % t), lets, op, w, 0, [mk(b, i, sc, d) if z is None else z for z in ks]))
    for fi, (mn, op, w, sw, ks) in enumerate(FS):
        if "m" not in ks:
            continue
        for q in range(4 if tier == "thorough" else 2):
            t, lets, v = (EXPR + MIDDISP)[(fi * 7 + q * 11) % len(EXPR + MIDDISP)]
            texts, kk = [], []
            for kd in ks:
                if kd == "r": texts.append("r9"); kk.append("K::G(9)")
                elif kd == "x": texts.append("xmm9"); kk.append("K::Xn(9)")
                elif kd == "m":
                    if v == -2**31: v = -2**31 + 1; t = "x + 1"
                    texts.append("[rsp + rbp * 2 %s (%s)]" % ("-+"[q & 1], t)); kk.append(mk(4, 5, 1, v if q & 1 else -v))
                elif kd == "cl": texts.append("cl"); kk.append("K::Cl")
                else: texts.append(("qword " if kd == "q64" else "") + "1"); kk.append("K::Im(1)")
            L.append(line(mn + " " + ", ".join(texts), lets, op, w, sw, kk))
    # 5. register expressions at every kind of position
    for ri, (t, lets, off) in enumerate(REX):
        for k in range(16):
            if off == 12 and k < 12 or off == -2 and k & 1:
                continue
            tt = t % k if "%d" in t else t
            ll = lets % k if "%d" in lets else lets
            G, X = "K::G(%d)" % k, "K::Xn(%d)" % k
            T = [("movq R(%s), 5" , "Mov", 8, [G, "K::Im(5)"]), ("movb R(%s), 5", "Mov", 1, [G, "K::Im(5)"]), ("cmpb R(%s), 5", "Cmp", 1, [G, "K::Im(5)"]), ("addq R(%s), R(3)", "Add", 8, [G, "K::G(3)"]),
                 ("subw rbx, R(%s)", "Sub", 2, ["K::G(3)", G]), ("testq R(%s), 5", "Test", 8, [G, "K::Im(5)"]), ("testb R(%s), 5", "Test", 1, [G, "K::Im(5)"]), ("popq R(%s)", "Pop", 8, [G]),
                 ("xchgq R(%s), rbx", "Xchg", 8, [G, "K::G(3)"]), ("seteq R(%s)", "Set(4)", 1, [G]), ("movl rbx, [R(%s)]", "Mov", 4, ["K::G(3)", mk(k, None, 0, 0)]),
                 ("movl [R(%s) - 3], rbx", "Mov", 4, [mk(k, None, 0, -3), "K::G(3)"]), ("addsd xmm(%s), xmm3", "Addsd", 8, [X, "K::Xn(3)"]), ("addsd xmm3, xmm(%s)", "Addsd", 8, ["K::Xn(3)", X]),
                 ("movq xmm(%s), r9", "MovqX", 8, [X, "K::G(9)"]), ("movq r9, xmm(%s)", "MovqX", 8, ["K::G(9)", X]), ("movq xmm3, R(%s)", "MovqX", 8, ["K::Xn(3)", G]), ("shlq R(%s), 3", "Shl", 8, [G, "K::Im(3)"]),
                 ("cmovltq R(%s), rbx", "Cmov(12)", 8, [G, "K::G(3)"])]
            if k != 4:
                T.append(("lea rbx, [rcx + R(%s) * 4]", "Lea", 8, ["K::G(3)", mk(1, k, 2, 0)]))
            for q, (text, op, w, ks) in enumerate(T):
                if tier != "thorough" and (q + ri + k) % 3:
                    continue
                L.append(line(text % tt, ll, op, w, 0, ks))
    # 6. literal displacements: the least one, with a sign of their own (which may be refused), with a type
    for b in (0, 4, 5, 12, 13, 16):
        for i, sc in ((None, 0), (1, 0), (9, 2)):
            if b == 16 and i is not None:
                continue
            t = "[%s" % (NAMES + ["rip"])[b] + ("" if i is None else " + %s" % NAMES[i] + (" * %d" % (1 << sc) if sc else ""))
            for sp, d, may in [(" - 2147483648", -2**31, 0), (" - 0x8000_0000", -2**31, 0), (" - 2147483648i64", -2**31, 0), (" + 2147483647", 2**31 - 1, 0), (" - 0", 0, 0), (" + 0", 0, 0)] \
                    + [(" %s %d%s" % (sg, v, ty), v if sg == "+" else -v, 0) for sg in "+-" for v, ty in ((5, "u8"), (200, "u8"), (127, "i8"), (300, "i16"), (5, "u32"), (70000, "usize"), (5, "i32"), (128, "u64"), (129, "isize"))] \
                    + [(" %s -%d" % (sg, v), -v if sg == "+" else v, 1) for sg in "+-" for v in (0, 1, 4, 128, 129, 65536, 2**31 - 1)] + [(" + -2147483648", -2**31, 1)]:
                for text, op, w, ks in (("lea rbx, %s]", "Lea", 8, ["K::G(3)", None]), ("movw %s], 0x1234", "Mov", 2, [None, "K::Im(4660)"]), ("movq xmm1, %s]", "MovqX", 8, ["K::Xn(1)", None])):
                    L.append(line(text % (t + sp), "", op, w, 0, [mk(b, i, sc, d) if z is None else z for z in ks]) + (" // MAY" if may else ""))
    return L


def words():
    """`dq` with every notation of integer and floating-point literals; the eight bytes in K::Im"""
    import struct
    L = []

    def add(t, bits):
        L.append(line("dq " + t, "", "Int3", 8, 0, ["K::Im(%d)" % (bits - (1 << 64) if bits >> 63 else bits)]))
    for v in (0, 1, 7, 8, 9, 10, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2**53 + 1, 0x0123456789abcdef, 2**63 - 1):
        for k in range(13):
            add(intlit(v, k), v)
    for v in (0, 1, 2, 128, 255, 0x80000000, 0x100000000, 0x0123456789abcdef, 2**63 - 1, 2**63):
        for k in (0, 1, 4, 5):
            add("-" + intlit(v, k), -v & 2**64 - 1)
    for t in ("-0.0", "-1.0", "-1.5", "-1f64", "-0.1", "-1e300", "-5e-324", "-1e-7", "-2.5_f64", "0.0", "1.0", "1.", "0.1", "1.5", "0.30000000000000004", "3.141592653589793", "2.718281828459045", "1e300", "1E300", "1e-300", "5e-324", "4.9e-324", "2.2250738585072014e-308",
              "2.225073858507201e-308", "1.7976931348623157e308", "1e-7", "1e+7", "1_000.5", "1_0.0_1", "9007199254740993.0", "9007199254740992.5", "16777217.0", "4294967297.0", "1e22", "1e23",
              "123456789012345678.0", "0.1_f64", "0.1f64", "1f64", "7_f64", "1.5e3f64", "1e400"[:3] + "4", "100000000000000000000.0", "0.000001", "1.0000000000000002", "3.4028235677973366e38", "1e-45", "6.5e4"):
        n = t.replace("f64", "").rstrip("_").replace("_", "")
        add(t, struct.unpack("<Q", struct.pack("<d", float(n)))[0])
    return L
