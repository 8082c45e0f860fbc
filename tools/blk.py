"""C16: statements in blocks; C20: scope and single evaluation of operand expressions."""
from spec import *

TPL = [("movq", "r i64"), ("movq", "r q64"), ("movq", "m i32"), ("movq", "r r"), ("movq", "r m"), ("movl", "r i32"), ("movl", "m r"), ("movw", "r i16"), ("movw", "m i16"),
       ("movb", "r i8"), ("movb", "m r"), ("movq", "x r"), ("movq", "x m"), ("movq", "m x"), ("movsxl", "r r"), ("movzxb", "r m"), ("addq", "r i32"), ("orl", "m i32"),
       ("addw", "r i16"), ("subw", "m i16"), ("addb", "r i8"), ("andb", "m i8"), ("sbbb", "r r"), ("cmpq", "r m"), ("xorw", "m r"), ("xchgq", "r r"), ("xchgb", "m r"), ("negq", "r"),
       ("imul", "r r"), ("idivl", "m"), ("testq", "r i32"), ("testq", "m i32"), ("testb", "r i8"), ("testb", "m i8"), ("testq", "m r"), ("shlq", "r i8"), ("shrl", "m i8"), ("sarq", "r cl"),
       ("seteq", "r"), ("cmovneq", "r r"), ("cmovltw", "r m"), ("pushq", "r"), ("popq", "m"), ("lzcntl", "r r"), ("popcntq", "r m"), ("cvtsi2sdq", "x r"), ("lea", "r m"),
       ("jmp", "m"), ("call", "m"), ("call", "rel"), ("cqo", ""), ("ret", ""), ("movsd", "x x"), ("movsd", "m x"), ("addsd", "x m"), ("sqrtpd", "x x"), ("xorps", "x m"),
       ("ucomisd", "x x"), ("roundpd", "x m u8"), ("roundpd", "x x u8"), ("cvttsd2siq", "r x")]
SHAPE = ("[R(a.b) + R(a.i) * 4 + (a.d)]", "b", 2, "+")


def find(mn, ks):
    for f in forms(aliases=False):
        if f[0] == mn and " ".join(f[4]) == ks:
            return f
    raise SystemExit("no form %s %s" % (mn, ks))


def text(f, v, shape=SHAPE):
    ops = [op_text(k, s, shape) for s, k in enumerate(f[4])]
    return (f[0] + " " + ", ".join(ops)).strip().replace("a.", v + ".")


EXTRA = ["jmp %slab", "jne %slab", "call %slab", "lea R(%s.r0), [rip + %slab]", "movb [rip + %slab], (%s.imm)", "addw [rip + %slab], (%s.imm)", "dq 0x1122334455667788"]


def templates():
    """statement texts with operands taken from args `%s`"""
    T = []
    for mn, ks in TPL:
        f = find(mn, ks)
        T.append(text(f, "@"))
    for e in EXTRA:
        T.append(e.replace("%slab", "@lab").replace("%s", "@"))
    return T


def inst(t, v):
    return t.replace("@", v)


SIZES = list(range(4, 34)) + [40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700]


def c16(tier):
    T = templates()
    L = ["static TPL: &[(&str, fn(&mut JitMemory, &Args))] = &["]
    for t in T:
        L.append('("%s", |j,a|{let alab=a.lab;monoasm!(&mut *j, %s;);}),' % (inst(t, "a"), inst(t, "a")))
    L.append("];")
    P = []
    for x, s in enumerate(T):
        for y, t in enumerate(T):
            P.append('Pair{n:"%s; %s",f:|j,a,c|{let (alab,clab)=(a.lab,c.lab);monoasm!(&mut *j, %s; %s;);},s:&[%d,%d]},' % (inst(s, "a"), inst(t, "c"), inst(s, "a"), inst(t, "c"), x, y))
    # three statements, and a label bound inside the block
    step = 9 if tier == "quick" else 5
    sub = list(range(0, len(T), step))
    for x in sub:
        for y in sub:
            for z in sub:
                P.append('Pair{n:"%s; L: %s; %s",f:|j,a,c|{let (alab,clab)=(a.lab,c.lab);let inner=j.label();monoasm!(&mut *j, %s; inner: %s; %s;);},s:&[%d,%d,%d]},'
                         % (inst(T[x], "a"), inst(T[y], "c"), inst(T[z], "a"), inst(T[x], "a"), inst(T[y], "c"), inst(T[z], "a"), x, y, z))
    # blocks of many statements
    for n in SIZES:
        w = [(n * 7 + k * (1 + n % 5)) % len(T) for k in range(n)]
        P.append('Pair{n:"a block of %d statements",f:|j,a,c|{let (alab,clab)=(a.lab,c.lab);let _=(alab,clab);monoasm!(&mut *j, %s);},s:&[%s]},'
                 % (n, " ".join(inst(T[x], "ac"[k % 2]) + ";" for k, x in enumerate(w)), ",".join(map(str, w))))
    T2, P2 = c16_lit()
    L.append("static LTPL: &[(&str, fn(&mut JitMemory, &Args))] = &[")
    L += T2
    L.append("];")
    return L, P, P2


LITS = ["movq rax, rbx", "movq rbx, rax", "movq rax, rax", "movq rax, 0", "movq rax, 5", "movq r9, rax", "movq rax, [rbx]", "movq [rbx], rax", "movl rax, rax", "movl rbx, rax", "movb rax, rbx",
        "addq rax, 0", "addq rax, 8", "subq rax, 8", "addq rax, rbx", "subq rsp, 8", "addq rsp, 8", "xorq rax, rax", "xorl rax, rax", "cmpq rax, 0", "cmpq rax, rbx", "testq rax, rax",
        "pushq rax", "popq rax", "pushq rbx", "popq rbx", "pushq rbp", "movq rbp, rsp", "leave", "ret", "xchgq rax, rbx", "xchgq rax, rax", "negq rax", "shlq rax, 1", "shlq rax, 0", "shrq rax, 1",
        "lea rax, [rax]", "lea rax, [rbx + 8]", "imul rax, rbx", "movsd xmm0, xmm1", "movsd xmm1, xmm0", "movq xmm0, rax", "movq rax, xmm0", "movsd [rsp], xmm0", "movsd xmm0, [rsp]",
        "seteq rax", "movzxb rax, rax", "cqo", "cdq", "int3", "syscall", "jmp lab", "jne lab", "jeq lab", "call lab", "jmp rax", "call rax", "lea rax, [rip + lab]", "dq 0x10", "dq 1.5", "jmp end", "jne end", "call end"]


def c16_lit():
    """blocks of literal statements: all ordered pairs, alone, with a label between them, and with a label at the end"""
    T = ['("%s", |j,a|{let lab=a.lab;let end=a.lab;let _=end;monoasm!(&mut *j, %s;);}),' % (t, t) for t in LITS]
    P = []
    for x, s in enumerate(LITS):
        for y, t in enumerate(LITS):
            # the fourth variant: the jump's target follows immediately
            for v in range(3):
                if v == 1 and (x + y) % 2:
                    continue
                if v == 2 and "end" not in s + t and (x * 7 + y) % 5:
                    continue
                body = ["%s; %s;", "%s; mid: %s;", "%s; %s; end:"][v] % (s, t)
                if v < 2:
                    body += " int3; end:"
                P.append('Pair{n:"%s",f:|j,a,_c|{let lab=a.lab;let end=j.label();let mid=j.label();let _=(lab,mid);monoasm!(&mut *j, %s);},s:&[%d,%d%s]},'
                         % (body, body, x, y, "" if v == 2 else ",%d" % LITS.index("int3")))
    free = [k for k, t in enumerate(LITS) if "end" not in t]
    for n in SIZES:
        w = [free[(n * 5 + k * (1 + n % 7)) % len(free)] for k in range(n)]
        P.append('Pair{n:"a block of %d literal statements",f:|j,a,_c|{let lab=a.lab;let _=lab;monoasm!(&mut *j, %s);},s:&[%s]},' % (n, " ".join(LITS[k] + ";" for k in w), ",".join(map(str, w))))
    return T, P


# ---------------------------------------------------------------- C20
VARS = ["imm", "jit", "op1", "op2", "op3", "rm_op", "r1", "r2", "reg", "rm", "disp", "base", "scale", "label", "index", "i", "e", "x", "r", "op", "val", "value", "tmp", "v", "src", "dst", "dest",
        "size", "pos", "page", "len", "opcode", "digit", "mode", "offset", "num", "n", "rex", "cond", "b", "d", "code", "cur", "sib", "modrm", "width", "a", "j", "t", "s", "m", "l", "q", "w", "expr", "ts", "ind", "result", "res", "ok", "err", "lab"]
RESERVED = {"R"}
PRE = ["testq R(9), 0x77", "xchgq R(9), R(10)", "addw R(9), 0x77", "call (0x77)", "roundpd xmm(9), xmm(10), 7", "movq R(9), 0x77", "shlq R(9), 7", "jmp [R(9) + 0x77]", "movsd xmm(9), [R(9)]"]


def v_op(k, slot, shape, n):
    if k == "r":
        return "R(%s)" % n, "K::G(5)"
    if k == "x":
        return "xmm(%s)" % n, "K::Xn(5)"
    if k == "m":
        return {"sib": ("[R(%s) + R(%s) * 4 + (%s)]" % (n, n, n), "K::Mx{b:5,i:5,sc:2,d:5}"), "neg": ("[R(%s) - (%s)]" % (n, n), "K::Mx{b:5,i:255,sc:0,d:-5}"),
                "rip": ("[rip + (%s)]" % n, "K::Mx{b:16,i:255,sc:0,d:5}")}[shape]
    if k == "cl":
        return "cl", "K::Cl"
    if k == "u8":
        return "(%s as u8)" % n, "K::Im(5)"
    if k == "q64":
        return "qword (%s)" % n, "K::Im(5)"
    return "(%s)" % n, "K::Im(5)"


def vline(f, n, shape, pre=None):
    mn, op, w, sw, ks = f
    o = [v_op(k, s, shape, n) for s, k in enumerate(ks)]
    kr = [x[1] for x in o] + ["K::N"] * (3 - len(o))
    t = (mn + " " + ", ".join(x[0] for x in o)).strip()
    # the explorer's own parameters must not be in the way
    return 'Form{n:"%slet %s=5; %s",f:|__j,__a|{let %s:u64=5;monoasm!(&mut *__j, %s%s;);},op:Op::%s,w:%d,sw:%d,o:[%s]},' % (
        (pre + "; ") if pre else "", n, t, n, (pre + "; ") if pre else "", t, op, w, sw, ",".join(kr))


# the caller's scope beyond variables: (what, before, expression of value 5, after, may stand at several places)
BR = "{ if __a.r0 == 77 { %s } 5u64 }"
SCOPES = [
    ("break", "loop{", BR % "break", "break;}", 1), ("labelled break", "'out:{", BR % "break 'out", "}", 1), ("continue", "for _ in 0..1{", BR % "continue", "}", 1),
    ("return", "(||{", BR % "return", "})();", 1), ("question mark", "let mut g=||->Option<()>{", "Some(5u64)?", "Some(())};g().unwrap();", 1),
    ("const", "const C5:u64=5;", "C5", "", 1), ("static", "static S5:u64=5;", "S5", "", 1), ("field", "struct Q{f:u64} let s=Q{f:5};", "s.f", "", 1),
    ("method", "struct Q{f:u64} impl Q{fn m(&self)->u64{self.f}} let s=Q{f:5};", "s.m()", "", 1), ("associated const", "struct Q; impl Q{const C:u64=5;}", "Q::C", "", 1),
    ("module", "mod mm{pub const C:u64=5;}", "mm::C", "", 1), ("function", "fn five()->u64{5}", "five()", "", 1), ("generic function", "fn five<T:Default+Into<u64>>()->u64{T::default().into()+5}", "five::<u8>()", "", 1),
    ("function named from", "fn from()->u64{5}", "from()", "", 1), ("macro", "macro_rules! five{()=>{5u64}}", "five!()", "", 1), ("std macro", "", "vec![4u64,5][1]", "", 1), ("if let", "let o=Some(5u64);", "if let Some(v)=o {v} else {0}", "", 1),
    ("match", "let o=Some(5u64);", "match o { Some(imm) => imm, None => 0 }", "", 1), ("closure parameter", "", "(|jit: u64| jit)(5)", "", 1), ("block", "", "{ let imm = 4u64; let jit = 1u64; imm + jit }", "", 1),
    ("unsafe", "let p=&5u64 as *const u64;", "unsafe { *p }", "", 1), ("cast", "let x=5i8;", "x as i64 as u64", "", 1), ("index range", "let t=[1u64,5,9];", "t[1..][0]", "", 1), ("less", "let a1=4u64;", "if a1 < 5 { 5u64 } else { 6 }", "", 1),
    ("struct literal", "struct Q{f:u64}", "(Q{f:5}).f", "", 1), ("assignment", "let mut y=4u64;let z=&mut y;", "{ *z = 5; *z }", "", 1), ("mutable borrow", "let mut y=vec![5u64];", "y.iter_mut().next().copied().unwrap()", "", 1),
    ("move", "let s=vec![5u64];", "{ let v=s; v[0] }", "", 0), ("once", "let g={let s=vec![5u64];move||s.into_iter().next().unwrap()};", "g()", "", 0), ("turbofish", "", "[2u64,3].iter().sum::<u64>()", "", 1),
    ("loop value", "", "loop { break 5u64 }", "", 1), ("matches", "let x=Some(1u8);", "if matches!(x, Some(1)) { 5u64 } else { 0 }", "", 1), ("bits", "", "0b11u64 ^ 0b110", "", 1),
    ("shadowed type", "type Reg=u8; type Rm=u8; type Imm=u8; type Disp=u8; type Scale=u8;", "5 as Reg as u64 * (std::mem::size_of::<Imm>() as u64)", "", -1),
    ("expr metavariable", "macro_rules! go{($e:expr)=>{", "$e", "}} go!(2u64+3)", 2), ("expr metavariable", "macro_rules! go{($e:expr)=>{", "$e", "}} go!(6u64-1)", 2), ("ident metavariable", "let imm=5u64;macro_rules! go{($e:ident)=>{", "$e", "}} go!(imm)", 2),
    ("tt metavariable", "let jit=5u64;macro_rules! go{($e:tt)=>{", "$e", "}} go!(jit)", 2), ("block metavariable", "macro_rules! go{($e:block)=>{", "$e", "}} go!({ let jit = 5u64; jit })", 2),
    ("repetition", "macro_rules! go{($($e:expr),*)=>{", "0u64 $(+ $e)*", "}} go!(2u64,3)", 2), ("own variable of a macro", "macro_rules! go{()=>{let imm=5u64;", "imm", "}} go!()", 2), ("caller's variable through a macro", "let imm=5u64;macro_rules! go{()=>{let jit=6u64;let _=jit;", "imm", "}} go!()", 2),
]


def scoped(fs):
    L = []
    for f in fs:
        mn, op, w, sw, ks = f
        for what, pre, e, post, multi in SCOPES:
            if multi < 0:
                continue
            many = sum(3 if k == "m" else k in ("r", "x") or k != "cl" for k in ks)
            if not multi and many > 1:
                continue
            for shape in (("sib", "neg") if "m" in ks else (None,)):
                o = [v_op(k, s, shape, e) for s, k in enumerate(ks)]
                kr = [x[1] for x in o] + ["K::N"] * (3 - len(o))
                t = (mn + " " + ", ".join(x[0] for x in o)).strip()
                # xmm(e) and (e) take any tokens; "e as u8" needs its own parentheses
                t = t.replace("(%s as u8)" % e, "((%s) as u8)" % e)
                L.append('Form{n:"%s: %s",f:|__j,__a|{%smonoasm!(&mut *__j, %s;);%s},op:Op::%s,w:%d,sw:%d,o:[%s]},' % (
                    what, t.replace('"', ""), pre, t, post + (";" if multi == 2 else ""), op, w, sw, ",".join(kr)))
    # a single place in a statement of several operands
    for what, pre, e, post, multi in SCOPES:
        if multi < 0:
            continue
        for t, op, w, kk in (("movq R(%s), 1", "Mov", 8, ["K::G(5)", "K::Im(1)"]), ("addl rbx, [R(%s)]", "Add", 4, ["K::G(3)", "K::Mx{b:5,i:255,sc:0,d:0}"]), ("movb [rcx + R(%s) * 2 + 8], 7", "Mov", 1, ["K::Mx{b:1,i:5,sc:1,d:8}", "K::Im(7)"]),
                             ("lea rbx, [rcx - (%s)]", "Lea", 8, ["K::G(3)", "K::Mx{b:1,i:255,sc:0,d:-5}"]), ("lea rbx, [rcx + r9 * 8 - (%s)]", "Lea", 8, ["K::G(3)", "K::Mx{b:1,i:9,sc:3,d:-5}"]), ("subw [rcx], (%s)", "Sub", 2, ["K::Mx{b:1,i:255,sc:0,d:0}", "K::Im(5)"]),
                             ("addsd xmm(%s), xmm1", "Addsd", 8, ["K::Xn(5)", "K::Xn(1)"]), ("movsd xmm1, xmm(%s)", "MovsdRR", 8, ["K::Xn(1)", "K::Xn(5)"]), ("shlq rbx, (%s)", "Shl", 8, ["K::G(3)", "K::Im(5)"]), ("movq rbx, qword (%s)", "Mov", 8, ["K::G(3)", "K::Im(5)"])):
            tt = t % e
            L.append('Form{n:"%s: %s",f:|__j,__a|{%smonoasm!(&mut *__j, %s;);%s},op:Op::%s,w:%d,sw:0,o:[%s]},' % (what, tt, pre, tt, post + (";" if multi == 2 else ""), op, w, ",".join(kk + ["K::N"] * (3 - len(kk)))))
    return L


def c20(tier, scraped):
    thorough = tier == "thorough"
    names = list(dict.fromkeys([n for n in VARS + scraped if n not in RESERVED]))
    fs = [f for f in forms(aliases=False) if f[4] and f[4] != ["cl"]]
    if not thorough:
        keep = {"o", "ge", "lt"}
        fs = [f for f in fs if not (f[0].startswith("set") and f[0][3:] not in keep or f[0].startswith("cmov") and f[0][4:-1] not in keep)]
    cap, cap2, side, blk = [], [], [], []
    for f in fs:
        shp = (["sib", "neg", "rip"] if thorough else ["sib"]) if is_mem(f) else [None]
        for s in shp:
            for n in names:
                cap.append(vline(f, n, s))
    hot = list(dict.fromkeys(["imm", "jit", "rm_op", "r1", "r2"] + scraped)) if not thorough else names
    T2 = [find(mn, ks) for mn, ks in TPL if ks]
    for f in T2:
        for n in hot:
            for p in PRE:
                cap2.append(vline(f, n, "neg", p))
    T3 = fs if thorough else T2
    cap += scoped(T3)
    # labels
    for n in names:
        for t, op, ks in (("jmp %s", "Jmp", ["K::Lab"]), ("call %s", "Call", ["K::Lab"]), ("jne %s", "Jcc(5)", ["K::Lab"]),
                          ("lea r9, [rip + %s]", "Lea", ["K::G(9)", "K::Mx{b:16,i:255,sc:0,d:0}"])):
            kk = ks + ["K::N"] * (3 - len(ks))
            cap.append('Form{n:"let %s=label; %s",f:|__j,__a|{let %s=__a.lab;monoasm!(&mut *__j, %s;);},op:Op::%s,w:8,sw:0,o:[%s]},' % (n, t % n, n, t % n, op, ",".join(kk)))
        cap.append('Form{n:"let %s=new label; %s: negq r9",f:|__j,__a|{let %s=__j.label();monoasm!(&mut *__j, %s: negq r9;);__j.get_label_address(%s);},op:Op::Neg,w:8,sw:0,o:[K::G(9),K::N,K::N]},' % (n, n, n, n, n))
    # other ways to name the memory
    for pre, base in (("", "__j"), ("", "&mut *__j"), ("", "{ let x = 5u8; let _ = x; &mut *__j }"),
                      ("struct W<'a>{j:&'a mut JitMemory} let w=W{j:__j};", "w.j"), ("struct W<'a>{j:&'a mut JitMemory} let w=W{j:__j};", "&mut *w.j"), ("let mut v=vec![__j];", "v.pop().unwrap()"), ("let mut v=vec![__j];", "&mut **v.last_mut().unwrap()"),
                      ("let mut v=[__j];", "&mut *v[0]"), ("fn same(j:&mut JitMemory)->&mut JitMemory{j}", "same(__j)"), ("let c=std::cell::RefCell::new(__j);", "&mut **c.borrow_mut()"), ("", "if __a.r0 == 77 { panic!() } else { &mut *__j }"),
                      ("let mut jit=__j;", "&mut *jit"), ("let jit=__j;", "jit"), ("let mut b=Box::new(__j);", "&mut **b"), ("let o=Some(__j);", "match o { Some(x) => x, None => return }")):
        for t, op, kk in (("negq r9", "Neg", ["K::G(9)"]), ("movq R(5u64), (1)", "Mov", ["K::G(5)", "K::Im(1)"]), ("lea rbx, [rcx - (5)]", "Lea", ["K::G(3)", "K::Mx{b:1,i:255,sc:0,d:-5}"]), ("addsd xmm(5), xmm1", "Addsd", ["K::Xn(5)", "K::Xn(1)"])):
            cap.append('Form{n:"memory argument %s: %s",f:|__j,__a|{%smonoasm!(%s, %s;);},op:Op::%s,w:8,sw:0,o:[%s]},' % (base, t, pre, base, t, op, ",".join(kk + ["K::N"] * (3 - len(kk)))))
    # side effects: every operand counted
    S = shapes()
    sh = S if thorough else [S[0], S[7], S[14 + 0] if len(S) > 14 else S[0]] + [s for s in S if s[1] == "b" and s[2] in (0, 2) and s[3] in ("+", "-")][:4] + [s for s in S if s[1] == "rip" and s[3]]
    for f in fs:
        for s in (sh if is_mem(f) else [None]):
            l = form_line(f, s)
            head, rest = l.split("f:|j,a|{", 1)
            for x, k in (("a.r0", 0), ("a.r1", 1), ("a.r2", 2), ("a.b)", 3), ("a.i)", 4), ("a.d", 5)):
                if x.endswith(")"):
                    rest = rest.replace(x, "t(%d,%s)" % (k, x))
                else:
                    rest = rest.replace(x, "t(%d,%s)" % (k, x))
            rest = rest.replace("a.imm as u8", "t(6,a.imm) as u8").replace("(a.imm)", "(t(6,a.imm))").replace("monoasm!(&mut *j,", "monoasm!({t(7,0);&mut *j},")
            side.append(head + "f:|j,a|{" + rest)
            # between two other statements: evaluated after the first's operands and before the last's
            body = rest.replace("monoasm!({t(7,0);&mut *j},", "monoasm!({t(7,0);&mut *j}, negq R(first(9)); ").replace(";);}", "; negq R(last(10)););}", 1)
            assert "last(10)" in body and "first(9)" in body, rest
            blk.append(head.replace('n:"', 'n:"negq R(first); ') + "f:|j,a|{" + body)
    # the memory argument of blocks without counted operands
    bare = ["", "lx:", "lx: ly:", "dq 5", "dq 0x1234; dq 2.5", "jmp lx; lx:"] + [f[0] + (" rax, cl" if f[4] else "") for f in forms(aliases=False) if not f[4]]
    bare += [x + "; negq rax" for x in bare[6:]] + ["negq rax; " * n for n in (1, 2, 7, 16, 17, 33, 65, 129, 257, 400)]
    for t in dict.fromkeys(bare):
        u = ";".join(x for x in t.split(";") if x.strip())
        u += ";" if u and not u.endswith(":") else ""
        side.append('Form{n:"a block of %d statements: %s",f:|j,_a|{let lx=j.label();let ly=j.label();let _=(lx,ly);monoasm!({t(7,0);&mut *j}, %s);},op:Op::Nop,w:0,sw:0,o:[K::N,K::N,K::N]},' % (len([x for x in u.split(";") if x]), u[:60], u))
    return cap, cap2, side, blk
