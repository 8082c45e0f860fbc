"""C14: statements that have no encoding or are not provided."""
from spec import *

KINDS = {"r": ("rbx", "K::G(3)"), "R": ("R(9)", "K::G(9)"), "x": ("xmm3", "K::Xn(3)"), "X": ("xmm(9)", "K::Xn(9)"),
         "m": ("[rbp + 8]", "K::Mx{b:5,i:255,sc:0,d:8}"), "i": ("5", "K::Im(5)"), "I": ("(300)", "K::Im(300)"), "l": ("lab", "K::Lab"),
         "M": ("[rip + lab]", None)}


def cand(text, op="Ud2", w=8, sw=0, ks=()):
    ks = [k or "K::Lab" for k in ks]
    ks = list(ks)[:3] + ["K::N"] * (3 - len(list(ks)[:3]))
    esc = text.replace("\\", "\\\\").replace('"', '\\"')
    return 'Form{n:"%s",f:|j,a|{let lab=a.lab;monoasm!(&mut *j, %s;);},op:Op::%s,w:%d,sw:%d,o:[%s]},' % (esc, text, op, w, sw, ",".join(ks))


def simple(k):
    return {"r": "r", "R": "r", "x": "x", "X": "x", "m": "m", "M": "m", "i": "i", "I": "i", "l": "l"}[k]


def candidates(tier):
    thorough = tier == "thorough"
    L = []
    FS = forms(aliases=False)
    by = {}
    for mn, op, w, sw, ks in FS:
        n = tuple("i" if k[0] in "iqu" else "r" if k == "cl" else "i" if k == "rel" else k for k in ks)
        by.setdefault(mn, []).append((op, w, sw, n))
        if "cl" in ks:  # a register count is accepted when it is cl; others are tried at run time
            by[mn].append((op, w, sw, n))
    by["jmp"] += [("Jmp", 8, 0, ("r",)), ("Jmp", 8, 0, ("l",))]
    by["call"] += [("Call", 8, 0, ("r",)), ("Call", 8, 0, ("l",))]
    for c, v in JCC.items():
        by["j" + c] = [("Jcc(%d)" % v, 8, 0, ("l",))]
    keep = {"o", "ge", "lt"}
    # A. operand kinds outside the table
    for mn, vs in by.items():
        if not thorough and (mn.startswith("set") and mn[3:] not in keep or mn.startswith("cmov") and mn[4:-1] not in keep or mn.startswith("j") and mn != "jmp" and mn[1:] not in keep):
            continue
        op, w, sw, _ = vs[0]
        ok = {v[3] for v in vs}
        ks1 = ["r", "x", "m", "i", "l"] + (["R", "X", "I", "M"] if thorough else [])
        tuples = [()] + [(a,) for a in ks1] + [(a, b) for a in ks1 for b in ks1]
        for v in sorted(ok):
            base = tuple({"r": "r", "x": "x", "m": "m", "i": "i", "l": "l"}[z] for z in v)
            if len(base) == 2:
                tuples += [base + (a,) for a in ks1]
        if thorough:
            tuples += [(a, b, c) for a in "rxm" for b in "rxm" for c in "rxmi"]
        for t in dict.fromkeys(tuples):
            s = tuple(simple(k) for k in t)
            if s in ok:
                continue
            # a statement `call (i)` / memory forms are in `ok`; immediates in jumps etc. are not
            text = (mn + " " + ", ".join(KINDS[k][0] for k in t)).strip()
            L.append(cand(text, op, w, sw, [KINDS[k][1] for k in t]))
    # registers that are not operands of that class
    for bad in ("rip", "eax", "ax", "al", "ah", "r8d", "r16", "r99", "xmm16", "xmm99", "xmm256", "xmm", "ymm0", "st0", "cs", "R", "R[1]", "R{1}", "R()", "xmm()", "xmm[1]", "xmm-1", "r", "x", "rcxx", "spl"):
        for t in ("negq %s", "addq %s, rbx", "addq rbx, %s", "addb rbx, %s", "movq %s, rbx", "movq rbx, %s", "movq %s, 5", "movl %s, 5", "movb [rbx], %s", "testq rbx, %s", "testq %s, 5", "shlq %s, 2", "shlq rbx, %s",
                  "lzcntq %s, rbx", "imul %s, rbx", "imul rbx, %s", "pushq %s", "popq %s", "seteq %s", "cmovneq %s, rbx", "cmovneq rbx, %s", "addsd %s, xmm1", "addsd xmm1, %s", "movsd %s, xmm1", "movsd xmm1, %s",
                  "cvtsi2sdq xmm1, %s", "cvttsd2siq %s, xmm1", "lea %s, [rbx]", "lea rbx, [%s + rcx * 2]", "lea rbx, [rcx + %s * 2]", "xchgq %s, rbx", "divl %s", "jmp %s", "call %s"):
            if bad.startswith("xmm") and ("xmm" not in t and not t.startswith("movq")) and not thorough:
                continue
            L.append(cand(t % bad))
    # B. mnemonics that do not exist
    roots = ["mov", "add", "or", "adc", "sbb", "and", "sub", "xor", "cmp", "xchg", "neg", "imul", "idiv", "div", "test", "lea", "shl", "shr", "sal", "sar", "rol", "ror", "push", "pop",
             "movsx", "movzx", "lzcnt", "tzcnt", "popcnt", "movs", "cvtsi2sd", "cvttsd2si", "not", "inc", "dec", "bsf", "rcl", "mul", "nop", "ud2", "movd", "movss", "addss", "sqrtss", "xorpdq", "cqod", "cdqe", "retq", "hlt"]
    for r in roots:
        for s in ("", "q", "l", "w", "b", "d", "x", "qq"):
            m = r + s
            if m in by:
                continue
            for ops in ("", " rbx", " rbx, rcx", " xmm1, xmm2"):
                L.append(cand(m + ops))
    bogus = ["", "x", "cc", "cs", "nx", "lo", "hi", "eqz", "nne", "ez", "nlt", "ngt", "neq", "nop", "nnp", "ab", "nn", "lte", "gte", "nbb", "zz", "ssx", "no2", "O", "EQ", "Ne"]
    for c in bogus:
        L.append(cand("set%s rbx" % c))
        L.append(cand("j%s lab" % c))
        for s in ("q", "l", "w", "b", ""):
            if c + s in ("nne",):
                pass
            if "cmov" + c + s in by or (c + s)[:-1] in COND and (c + s)[-1:] in "qlw":
                continue
            L.append(cand("cmov%s%s rbx, rcx" % (c, s)))
    for c in ("l", "g"):
        L.append(cand("j%s lab" % c, "Jcc(%d)" % COND[c], 8, 0, ["K::Lab"]))
    for c in COND:
        for s in ("b", "", "x"):
            if "cmov" + c + s in by or (c + s)[:-1] in COND and (c + s)[-1:] in "qlw":
                continue
            L.append(cand("cmov%s%s rbx, rcx" % (c, s)))
    # C. memory operands
    mems = []
    for b in ("rbx", "rsp", "rbp", "r12", "r13", "rip"):
        for sc in (0, 3, 5, 6, 7, 9, 16, 256, "(2)", "R(2)", "two", ""):
            mems.append("[%s + rcx * %s]" % (b, sc))
            mems.append("[%s + rcx * %s + 8]" % (b, sc))
        for x in ("rsp", "rip", "R(4)", "R(16)", "RSP"):
            for t in ("[%s + %s]", "[%s + %s * 1]", "[%s + %s * 2]", "[%s + %s * 4]", "[%s + %s * 8]", "[%s + %s * 2 + 8]", "[%s + %s - 300]"):
                if b == "rsp" and "*" not in t:
                    pass
                mems.append(t % (b, x))
        for t in ("[%s + 4 + 4]", "[%s + rcx * 2 * 2]", "[%s + rcx + rdx]", "[%s - rcx]", "[%s - rcx * 2]", "[%s + xmm1]", "[%s + xmm1 * 2]", "[%s + 2147483648]", "[%s - 2147483649]", "[%s - -2147483648]", "[%s + -2147483649]", "[%s + rcx - -2147483648]", "[%s + rcx * 4 - 2147483649]", "[%s + rcx * 4 + 2147483648]", "[%s - 9223372036854775808]", "[%s + 18446744073709551620]", "[%s + 4294967300u32]",
                  "[%s + 4294967296]", "[%s - lab]", "[%s + rcx * 2 + lab]", "[%s + lab + 4]", "[%s + lab * 2]", "[%s + rcx + lab]", "[%s + rcx - lab]", "[%s +]", "[%s -]", "[%s rcx]", "[%s, rcx]", "[%s * 2]", "[%s + 2 * rcx]",
                  "[%s + rcx *]", "[%s + 1.5]", "[%s + ()]", "[%s (4)]", "[[%s]]", "[%s + rcx * 2 +]", "[%s + rcx * 2 - rdx]", "[%s & 4]", "[%s * rcx]", "[4 + %s]", "[(4) + %s]", "[2 * %s]", "[%s + R()]"):
            mems.append(t % b)
        if b == "rip":
            mems += ["[rip + rcx]", "[rip + rcx * 2]", "[rip + rcx + 8]", "[rip + rcx * 8 - 8]", "[rip + R(1)]"]
        else:
            mems += ["[%s + lab]" % b, "[R(3) + lab]"]
    mems += ["[]", "[5]", "[(5)]", "[lab]", "[lab + 4]", "[xmm1]", "[eax]", "[R(16) + rcx]", "[xmm(1)]", "[+ 4]", "[- 4]", "[rax]4", "(rax)", "{rax}"]
    tm = ["lea rbx, %s", "movq %s, rcx", "movq %s, 5", "addb %s, 5", "addsd xmm1, %s", "shlq %s, 3", "jmp %s"]
    if thorough:
        tm += ["movq rcx, %s", "movw %s, 300", "movl %s, 5", "movb rcx, %s", "subw %s, 300", "xorl rcx, %s", "testb %s, 1", "testq %s, rcx", "negq %s", "divl %s", "seteq %s", "cmovltl rcx, %s", "pushq %s", "popq %s", "call %s",
               "movsd %s, xmm1", "movq xmm1, %s", "movq %s, xmm1", "roundpd xmm1, %s, 1", "cvttsd2siq rcx, %s", "cvtsi2sdq xmm1, %s", "popcntq rcx, %s", "xchgq %s, rcx", "movzxb rcx, %s", "rorl %s, cl", "imul rcx, %s"]
    for m in dict.fromkeys(mems):
        for k, t in enumerate(tm):
            L.append(cand(t % m))
    # E/G. syntax and literals
    for t in ("addq rbx rcx", "addq rbx,, rcx", "addq , rbx", "addq rbx, rcx,", "addq (rbx), rcx", "addq rbx, -5", "addq rbx, 5 + 5", "addq rbx, 5 5", "addq rbx, rcx + 1", "movq 5, rbx", "movq [rbx], [rcx]", "movq rbx, [rcx], 5",
              "movq [rbx], qword 5", "movl rbx, qword 5", "movq rbx, dword 5", "movq rbx, qword", "movq rbx, qword rcx", "movq qword 5, rbx", "movq xmm1, 5", "movq xmm1, qword 5", "movsd xmm1, 5", "movsd xmm1, rbx", "movsd rbx, xmm1", "movsd [rbx], [rcx]",
              "dq rax", "dq (5)", "dq 18446744073709551616", "dq 9223372036854775808", "dq \"a\"", "dq", "dq 5, 6", "dq 'a'", "dw 5", "jmp 5", "jmp (5)", "call 5", "jne rbx + 1", "jne [rbx]", "jne (5)", "jne 5", "jmp lab lab", "jmp lab + 1", "jmp R(3)",
              "call lab + 1", "ret 5", "ret rbx", "leave 5", "cqo rbx", "int3 5", "syscall 5", "roundpd xmm1, xmm2", "roundpd xmm1, xmm2, rbx", "roundpd xmm1, xmm2, 256", "roundpd xmm1, xmm2, 300", "roundpd xmm1, [rbx]", "roundpd [rbx], xmm1, 1", "roundpd xmm1, 1",
              "movq rbx, 18446744073709551616", "movq rbx, lab", "movq rbx, 1.5", "addq rbx, 1.5", "addq rbx, 'a'", "addq rbx, \"a\"", "testq rbx, [rcx]", "testq 5, rbx", "imul [rbx], rcx", "imul 5, rbx", "imul rbx, 5", "imul rbx, rcx, 5",
              "cvtsi2sdq rbx, xmm1", "cvttsd2siq xmm1, rbx", "cvttsd2siq [rbx], xmm1", "cvtsi2sdq [rbx], rcx", "pushq 5", "pushq (5)", "popq 5", "setne 5", "setne xmm1", "lea rbx, rcx", "lea [rbx], rcx", "lea rbx, 5", "lea xmm1, [rbx]", "xchgq rbx, 5", "xchgq 5, rbx", "xchgq [rbx], [rcx]", "xchgl [rbx], [rcx]",
              "shlq rbx, [rcx]", "shlq rbx, xmm1", "shlq 5, rbx", "shlq rbx", "shlw rbx, 1", "shlb rbx, 1", "rolw rbx, cl", "lab lab", "lab", "rbx: rbx", "addq", "addq rbx", "movzxb [rbx], rcx", "movsxl [rbx], rcx", "movsxl rbx, 5", "lzcntq [rbx], rcx", "lzcntq rbx, 5", "cmovneq [rbx], rcx", "cmovneq rbx, 5", "ucomisd [rbx], xmm1", "addsd [rbx], xmm1", "addsd xmm1, rbx", "addsd xmm1, 5", "addsd xmm1, (5)", "sqrtpd [rbx], xmm1",
              "xorps xmm1, rbx", "andpd rbx, xmm1"):
        L.append(cand(t))
    return list(dict.fromkeys(L))
