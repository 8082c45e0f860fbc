//! Whole programs: all sequences of statements over an alphabet, assembled and
//! finalized by the implementation, executed natively and by the interpreter.
use crate::hist::quiet;
use crate::interp::*;
use crate::native::*;
use crate::pool::*;
use crate::single::*;
use crate::x86::*;
use monoasm::*;
use monoasm_macro::monoasm;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum S {
    MovI, Add, Sub1, Jne0, Jmp0, Bind0, Bind1, Jlt1, CallF, Call1, Push, Pop, LoadC, StoreD, AddD, CmpD, MovF, AddF, ToInt, Tog, Ret, Fin, Lea1, JmpR, JmpA, Imul, StB, Ucom, Cmov, XorE, LoadE, StoreI,
}
use S::*;
pub const FULL: [S; 32] = [MovI, Add, Sub1, Jne0, Jmp0, Bind0, Bind1, Jlt1, CallF, Call1, Push, Pop, LoadC, StoreD, AddD, CmpD, MovF, AddF, ToInt, Tog, Ret, Fin, Lea1, JmpR, JmpA, Imul, StB, Ucom, Cmov, XorE, LoadE, StoreI];
pub const CONTROL: [S; 12] = [Add, Sub1, Jne0, Jmp0, Bind0, Bind1, Jlt1, Call1, Push, Pop, Tog, Ret];
pub const CELLS: [S; 12] = [Add, Sub1, Jne0, Bind0, LoadC, StoreD, AddD, CmpD, Tog, Fin, Jmp0, StoreI];

const C: i64 = -0x1122_3344_5566;
const D: i64 = 9;
const E: i32 = -77;
const CF_: f64 = 2.75;

/// what a statement's label operand is
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    No,
    U(usize),
    C,
    D,
    E,
    F,
    A,
    Fn,
}

fn meaning(s: S) -> Option<(Insn, L)> {
    let (rax, rdi, rsi, x0, x1) = (O::G(0), O::G(7), O::G(6), O::X(0), O::X(1));
    let m = O::M { base: RIP, index: NONE, scale: 0, disp: 0 };
    Some(match s {
        MovI => (i(Op::Mov, 8, rax, O::I(5)), L::No),
        Add => (i(Op::Add, 8, rax, rdi), L::No),
        Sub1 => (i(Op::Sub, 8, rdi, O::I(1)), L::No),
        Jne0 => (i(Op::Jcc(5), 8, O::Rel(0), O::N), L::U(0)),
        Jmp0 => (i(Op::Jmp, 8, O::Rel(0), O::N), L::U(0)),
        Jlt1 => (i(Op::Jcc(12), 8, O::Rel(0), O::N), L::U(1)),
        CallF => (i(Op::Call, 8, O::Rel(0), O::N), L::Fn),
        Call1 => (i(Op::Call, 8, O::Rel(0), O::N), L::U(1)),
        Push => (i(Op::Push, 8, rax, O::N), L::No),
        Pop => (i(Op::Pop, 8, rdi, O::N), L::No),
        LoadC => (i(Op::Mov, 8, rax, m), L::C),
        StoreD => (i(Op::Mov, 8, m, rax), L::D),
        AddD => (i(Op::Add, 8, rdi, m), L::D),
        CmpD => (i(Op::Cmp, 8, m, O::I(7)), L::D),
        MovF => (i(Op::MovqX, 8, x0, m), L::F),
        AddF => (i(Op::Addsd, 8, x0, x1), L::No),
        ToInt => (i(Op::Cvttsd2si, 8, rax, x0), L::No),
        Ret => (i(Op::Ret, 0, O::N, O::N), L::No),
        Lea1 => (i(Op::Lea, 8, rsi, m), L::U(1)),
        JmpR => (i(Op::Jmp, 8, rsi, O::N), L::No),
        JmpA => (i(Op::Jmp, 8, m, O::N), L::A),
        Imul => (i(Op::Imul2, 8, rax, rdi), L::No),
        StB => (i(Op::Mov, 1, m, O::I(0x7f)), L::D),
        Ucom => (i(Op::Ucomisd, 8, x0, m), L::F),
        Cmov => (i(Op::Cmov(7), 8, rdi, rax), L::No),
        XorE => (i(Op::Xor, 4, m, O::I(0x12345678)), L::E),
        LoadE => (Insn { op: Op::Movsx, w: 8, sw: 4, o: [rdi, m, O::N] }, L::E),
        StoreI => (i(Op::Mov, 2, m, O::I(0x1234)), L::E),
        Bind0 | Bind1 | Tog | Fin => return None,
    })
}

pub struct Env {
    u: [DestLabel; 2],
    cell: [Option<DestLabel>; 5], // C D E F A
    fun: DestLabel,
}
impl Env {
    fn cell(&mut self, j: &mut JitMemory, k: usize) -> DestLabel {
        let u1 = self.u[1];
        *self.cell[k].get_or_insert_with(|| match k {
            0 => j.const_i64(C),
            1 => j.data_i64(D),
            2 => j.data_i32(E),
            3 => j.const_f64(CF_),
            _ => j.abs_address(u1),
        })
    }
}

fn emit(j: &mut JitMemory, s: S, e: &mut Env) {
    let (l0, l1, fun) = (e.u[0], e.u[1], e.fun);
    let m = match meaning(s) {
        Some((_, L::C)) => e.cell(j, 0),
        Some((_, L::D)) => e.cell(j, 1),
        Some((_, L::E)) => e.cell(j, 2),
        Some((_, L::F)) => e.cell(j, 3),
        Some((_, L::A)) => e.cell(j, 4),
        _ => l0,
    };
    match s {
        MovI => monoasm!(&mut *j, movq rax, 5;),
        Add => monoasm!(&mut *j, addq rax, rdi;),
        Sub1 => monoasm!(&mut *j, subq rdi, 1;),
        Jne0 => monoasm!(&mut *j, jne l0;),
        Jmp0 => monoasm!(&mut *j, jmp l0;),
        Jlt1 => monoasm!(&mut *j, jlt l1;),
        Bind0 => monoasm!(&mut *j, l0:),
        Bind1 => monoasm!(&mut *j, l1:),
        CallF => monoasm!(&mut *j, call fun;),
        Call1 => monoasm!(&mut *j, call l1;),
        Push => monoasm!(&mut *j, pushq rax;),
        Pop => monoasm!(&mut *j, popq rdi;),
        LoadC => monoasm!(&mut *j, movq rax, [rip + m];),
        StoreD => monoasm!(&mut *j, movq [rip + m], rax;),
        AddD => monoasm!(&mut *j, addq rdi, [rip + m];),
        CmpD => monoasm!(&mut *j, cmpq [rip + m], 7;),
        MovF => monoasm!(&mut *j, movsd xmm0, [rip + m];),
        AddF => monoasm!(&mut *j, addsd xmm0, xmm1;),
        ToInt => monoasm!(&mut *j, cvttsd2siq rax, xmm0;),
        Ret => monoasm!(&mut *j, ret;),
        Lea1 => monoasm!(&mut *j, lea rsi, [rip + l1];),
        JmpR => monoasm!(&mut *j, jmp rsi;),
        JmpA => monoasm!(&mut *j, jmp [rip + m];),
        Imul => monoasm!(&mut *j, imul rax, rdi;),
        StB => monoasm!(&mut *j, movb [rip + m], 0x7f;),
        Ucom => monoasm!(&mut *j, ucomisd xmm0, [rip + m];),
        Cmov => monoasm!(&mut *j, cmovaq rdi, rax;),
        XorE => monoasm!(&mut *j, xorl [rip + m], 0x12345678;),
        LoadE => monoasm!(&mut *j, movsxl rdi, [rip + m];),
        StoreI => monoasm!(&mut *j, movw [rip + m], 0x1234;),
        Tog => {
            let p = j.get_page();
            j.select_page(1 - p);
        }
        Fin => j.finalize(),
    }
}

pub struct Rig {
    pub b: Bench,
    fun: DestLabel,
    /// the function's statements
    code: Vec<(u64, u64, Insn, L)>,
    fun_at: u64,
    runs: u32,
}

impl Rig {
    pub fn new() -> Rig {
        let mut b = Bench::new();
        let fun = b.jit.label();
        b.jit.select_page(1);
        let mut code = vec![];
        let fun_at = b.here();
        let j = &mut b.jit;
        monoasm!(&mut *j, fun: addq rax, 3;);
        let m = b.here();
        let j = &mut b.jit;
        monoasm!(&mut *j, ret;);
        let e = b.here();
        code.push((fun_at, m, i(Op::Add, 8, O::G(0), O::I(3)), L::No));
        code.push((m, e, i(Op::Ret, 0, O::N, O::N), L::No));
        Rig { b, fun, code, fun_at, runs: 0 }
    }
    pub fn renew(&mut self) {
        self.runs += 1;
        if self.runs > 300 {
            for q in 0..2 {
                self.b.jit.select_page(q);
                let n = (self.b.jit.get_current() + 8191) & !4095;
                unsafe { libc::madvise(self.b.base[q] as *mut _, n, libc::MADV_DONTNEED) };
            }
            unsafe {
                libc::madvise((self.b.base[1] + (self.b.base[1] - self.b.base[0])) as *mut _, 65536, libc::MADV_DONTNEED);
                libc::munmap(self.b.stack as *mut _, STACK);
            }
            *self = Rig::new();
        }
    }
}

/// Ok(true): the program has a defined result and the implementation produced it
pub fn run_program(p: &Pool, prog: &[S], page: usize, r: &mut Rig) -> Result<bool, String> {
    r.renew();
    r.b.jit.select_page(page);
    let mut env = Env { u: [r.b.jit.label(), r.b.jit.label()], cell: [None; 5], fun: r.fun };
    let mut code = r.code.clone();
    let mut bound = [None; 2];
    let entry = r.b.jit.label();
    let built = quiet(|| {
        r.b.jit.bind_label(entry);
        let e0 = r.b.here();
        for s in prog {
            let start = r.b.here();
            match s {
                Bind0 => bound[0] = Some(start),
                Bind1 => bound[1] = Some(start),
                _ => {}
            }
            emit(&mut r.b.jit, *s, &mut env);
            if let Some((m, l)) = meaning(*s) {
                code.push((start, r.b.here(), m, l));
            }
        }
        r.b.jit.select_page(page);
        let x1 = r.b.here();
        r.b.jit.emit(&exit_code(false));
        r.b.jit.select_page(1 - page);
        let x2 = r.b.here();
        r.b.jit.emit(&exit_code(true));
        r.b.jit.finalize();
        (e0, x1, x2)
    });
    let (e0, x1, x2) = match built {
        Ok(x) => x,
        Err(_) => return Err("a valid program was refused with a panic".into()),
    };
    p.add(2, prog.len() as u64);
    let ent = r.b.jit.get_label_addr::<u64, u64>(entry) as usize as u64;
    if ent != e0 {
        return Err(format!("get_label_addr of the entry label is {:#x}; its code was assembled at {:#x}", ent, e0));
    }
    // where the cells are, and what they must hold
    let mut cells = [0u64; 5];
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    for k in 0..5 {
        if let Some(l) = env.cell[k] {
            let a = match quiet(|| r.b.jit.get_label_address(l).as_ptr() as u64) {
                Ok(a) => a,
                Err(_) => return Err("a constant has no address after finalize".into()),
            };
            cells[k] = a;
            let v: Vec<u8> = match k {
                0 => C.to_le_bytes().to_vec(),
                1 => D.to_le_bytes().to_vec(),
                2 => E.to_le_bytes().to_vec(),
                3 => CF_.to_le_bytes().to_vec(),
                _ => match bound[1] {
                    Some(a) => u64::to_le_bytes(a).to_vec(),
                    None => continue,
                },
            };
            segs.push((a, v));
        }
    }
    let mut any = false;
    for init in 0..3 {
        let mut c = background(&r.b);
        let stack = c.mem[1].clone();
        c.mem = vec![stack];
        let sp = c.g[4];
        let _ = c.store(sp, &r.b.pad.to_le_bytes());
        install(&c);
        (c.g[0], c.g[7], c.f) = [(1, 3, 0), (i64::MAX as u64, 1, ALL), (u64::MAX - 2, 0, SF)][init];
        c.x[0][0] = [1.5, -0.0, f64::NAN][init].to_bits();
        c.mem.extend(segs.iter().cloned());
        if init > 0 {
            for (a, v) in &segs {
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len()) };
            }
        }
        let start = c.clone();
        let mut rip = e0;
        let mut fuel = 60;
        let way = loop {
            if rip == x1 {
                break 1;
            }
            if rip == x2 || rip == r.b.pad {
                break 2;
            }
            if fuel == 0 {
                break 0;
            }
            fuel -= 1;
            let Some((_, end, m, l)) = code.iter().rev().find(|x| x.0 == rip) else { break 0 };
            c.rip = *end;
            let t = match l {
                L::No => None,
                L::U(k) => bound[*k],
                L::Fn => Some(r.fun_at),
                L::C => Some(cells[0]),
                L::D => Some(cells[1]),
                L::E => Some(cells[2]),
                L::F => Some(cells[3]),
                L::A => Some(cells[4]),
            };
            if *l != L::No && t.is_none() {
                break 0;
            }
            let mut m = *m;
            c.at = t;
            if let (O::Rel(_), Some(t)) = (m.o[0], t) {
                m.o[0] = O::Rel(t.wrapping_sub(*end) as i64);
            }
            match c.exec(&m) {
                Ok(Next::Seq) => rip = *end,
                Ok(Next::To(t)) => rip = t,
                Err(_) => break 0,
            }
        };
        if way == 0 {
            p.add(5, 1);
            continue;
        }
        any = true;
        let (s, w) = run(&start, ent);
        p.add(4, 1);
        let d = if w != way { Some("the program ended elsewhere".to_string()) } else { differ(&s, &c) };
        if let Some(d) = d {
            return Err(format!("started with rax={:#x} rdi={:#x} flags={:#x}:\n {}", start.g[0], start.g[7], start.f, d));
        }
        let mut h = Fp::default();
        c.g.iter().for_each(|x| h.u(if *x >= r.b.base[0] && *x < r.b.base[1] * 2 - r.b.base[0] { 0xaddd } else { *x }));
        h.u(c.f & !c.undef);
        h.u(c.x[0][0]);
        h.u(way);
        segs.iter().enumerate().for_each(|(k, _)| h.s(&c.mem[1 + k].1[..2]));
        p.state(h.0);
    }
    Ok(any)
}

/// all programs of exactly `depth` statements over `alpha`; a unit fixes the first two.
/// counters: 2 statements assembled, 3 programs executed, 4 executions, 5 without defined result
pub fn explore(pool: &mut Pool, alpha: &[S], depth: usize) -> bool {
    let n = alpha.len() as u64;
    let desc = |u: u64, s: u64| format!("{:?} entered on page {}", decode_prog(alpha, depth, u, s >> 1), s & 1);
    pool.recycle = 60;
    pool.run(n * n, 1, &desc, |p, u| {
        let rest = n.pow(depth as u32 - 2);
        let mut rig = Rig::new();
        for k in 0..rest {
            let prog = decode_prog(alpha, depth, u, k);
            if [Bind0, Bind1].iter().any(|x| prog.iter().filter(|s| *s == x).count() > 1) {
                continue;
            }
            // the page entered on
            for page in 0..2 {
                p.sub(k << 1 | page as u64);
                match run_program(p, &prog, page, &mut rig) {
                    Ok(true) => p.add(3, 1),
                    Ok(false) => {}
                    Err(t) => {
                        p.violate("program", &format!("program {:?} (labels l0, l1; cells C={} D={} E={} F={} A=address of l1; f: addq rax, 3; ret on page 1) entered on page {}\n {}", prog, C, D, E, CF_, page, t));
                        return;
                    }
                }
                if p.stopped() {
                    return;
                }
            }
        }
        let q = (rig.b.base[1] - rig.b.base[0]) as usize;
        for k in 0..3 {
            unsafe { libc::madvise((rig.b.base[0] as usize + k * q) as *mut _, 1 << 20, libc::MADV_DONTNEED) };
        }
    })
}

fn decode_prog(alpha: &[S], depth: usize, u: u64, mut k: u64) -> Vec<S> {
    let n = alpha.len() as u64;
    let mut v = vec![alpha[(u / n) as usize], alpha[(u % n) as usize]];
    let mut tail = vec![];
    for _ in 0..depth - 2 {
        tail.push(alpha[(k % n) as usize]);
        k /= n;
    }
    tail.reverse();
    v.extend(tail);
    v
}

// ---- functions called through the typed pointers ----

extern "C" fn host(a: u64, b: u64) -> u64 {
    a.wrapping_mul(3).wrapping_add(b)
}

const BODY: usize = 17;
fn body(k: usize) -> (&'static str, Option<Insn>) {
    let (rax, rdi, rsi, x0, x1) = (O::G(0), O::G(7), O::G(6), O::X(0), O::X(1));
    match k {
        0 => ("movq rax, rdi", Some(i(Op::Mov, 8, rax, rdi))),
        1 => ("addq rax, rsi", Some(i(Op::Add, 8, rax, rsi))),
        2 => ("subq rax, rdi", Some(i(Op::Sub, 8, rax, rdi))),
        3 => ("imul rax, rdi", Some(i(Op::Imul2, 8, rax, rdi))),
        4 => ("negq rax", Some(i(Op::Neg, 8, rax, O::N))),
        5 => ("movq rax, -7", Some(i(Op::Mov, 8, rax, O::I(-7)))),
        6 => ("addsd xmm0, xmm1", Some(i(Op::Addsd, 8, x0, x1))),
        7 => ("mulsd xmm0, xmm0", Some(i(Op::Mulsd, 8, x0, x0))),
        8 => ("subsd xmm1, xmm0", Some(i(Op::Subsd, 8, x1, x0))),
        9 => ("cvttsd2siq rax, xmm0", Some(i(Op::Cvttsd2si, 8, rax, x0))),
        10 => ("cvtsi2sdq xmm0, rdi", Some(Insn { op: Op::Cvtsi2sd, w: 8, sw: 8, o: [x0, rdi, O::N] })),
        11 => ("lea rax, [rdi + rsi * 4 + 3]", Some(i(Op::Lea, 8, rax, O::M { base: 7, index: 6, scale: 2, disp: 3 }))),
        12 => ("cmpq rdi, rsi", Some(i(Op::Cmp, 8, rdi, rsi))),
        13 => ("cmovltq rax, rsi", Some(i(Op::Cmov(12), 8, rax, rsi))),
        14 => ("movq rax, xmm1", Some(i(Op::MovqX, 8, rax, x1))),
        15 => ("xchgq rdi, rsi", Some(i(Op::Xchg, 8, rdi, rsi))),
        _ => ("subq rsp, 8; movq rax, (host); call rax; addq rsp, 8", None),
    }
}
fn emit_body(j: &mut JitMemory, k: usize) {
    match k {
        0 => monoasm!(&mut *j, movq rax, rdi;),
        1 => monoasm!(&mut *j, addq rax, rsi;),
        2 => monoasm!(&mut *j, subq rax, rdi;),
        3 => monoasm!(&mut *j, imul rax, rdi;),
        4 => monoasm!(&mut *j, negq rax;),
        5 => monoasm!(&mut *j, movq rax, (-7);),
        6 => monoasm!(&mut *j, addsd xmm0, xmm1;),
        7 => monoasm!(&mut *j, mulsd xmm0, xmm0;),
        8 => monoasm!(&mut *j, subsd xmm1, xmm0;),
        9 => monoasm!(&mut *j, cvttsd2siq rax, xmm0;),
        10 => monoasm!(&mut *j, cvtsi2sdq xmm0, rdi;),
        11 => monoasm!(&mut *j, lea rax, [rdi + rsi * 4 + 3];),
        12 => monoasm!(&mut *j, cmpq rdi, rsi;),
        13 => monoasm!(&mut *j, cmovltq rax, rsi;),
        14 => monoasm!(&mut *j, movq rax, xmm1;),
        15 => monoasm!(&mut *j, xchgq rdi, rsi;),
        _ => monoasm!(&mut *j, subq rsp, 8; movq rax, (host as usize as u64); call rax; addq rsp, 8;),
    }
}

pub fn bodies(depth: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..depth {
        v = v.iter().flat_map(|x| (0..BODY).map(move |k| [x.clone(), vec![k]].concat())).collect();
        out.extend(v.iter().cloned());
    }
    out
}

pub fn body_text(b: &[usize]) -> String {
    b.iter().map(|k| body(*k).0).collect::<Vec<_>>().join("; ") + "; ret"
}

fn model(bd: &[usize], g: [u64; 2], x: [u64; 2]) -> Option<(u64, u64)> {
    let mut c = Cpu::default();
    (c.g[7], c.g[6], c.x[0][0], c.x[1][0]) = (g[0], g[1], x[0], x[1]);
    for k in bd {
        match body(*k).1 {
            Some(m) => {
                c.exec(&m).ok()?;
            }
            None => c.g[0] = host(c.g[7], c.g[6]),
        }
    }
    Some((c.g[0], c.x[0][0]))
}

/// is the value returned (in rax; in xmm0) determined by the arguments given?
fn determined(bd: &[usize], g: usize, x: usize, float: bool) -> bool {
    let (mut kg, mut kx, mut kf) = ([false; 16], [false; 16], false);
    for k in 0..g {
        kg[[7, 6][k]] = true;
    }
    for k in 0..x {
        kx[k] = true;
    }
    for k in bd {
        let Some(m) = body(*k).1 else {
            let r = kg[7] && kg[6];
            (kg, kx, kf) = ([false; 16], [false; 16], false);
            kg[0] = r;
            continue;
        };
        let get = |o: &O| match o {
            O::G(n) => kg[*n as usize],
            O::X(n) => kx[*n as usize],
            O::M { base, index, .. } => kg[*base as usize] && kg[*index as usize],
            _ => true,
        };
        let (d, s) = (get(&m.o[0]), get(&m.o[1]));
        let v = match m.op {
            Op::Mov | Op::Lea | Op::MovqX | Op::Cvttsd2si | Op::Cvtsi2sd => s,
            Op::Cmov(_) => d && s && kf,
            _ => d && s,
        };
        match m.op {
            Op::Cmp | Op::Add | Op::Sub | Op::Neg => kf = v,
            Op::Imul2 => kf = false,
            _ => {}
        }
        match m.o[0] {
            _ if m.op == Op::Cmp => {}
            O::G(n) => kg[n as usize] = v,
            O::X(n) => kx[n as usize] = v,
            _ => {}
        }
        if m.op == Op::Xchg {
            (kg[7], kg[6]) = (s, d);
        }
    }
    if float {
        kx[0]
    } else {
        kg[0]
    }
}

pub fn call_bodies(pool: &mut Pool, list: &[Vec<usize>]) -> bool {
    let ints = [0u64, 1, 3, u64::MAX, 1 << 63, 0x1_0000_0001];
    let fl = [0.0f64, 1.5, -2.5, 1e300, f64::INFINITY, -0.0].map(|x| x.to_bits());
    pool.recycle = 100;
    pool.run(list.len() as u64 / 64 + 1, 1, &|u, s| body_text(&list[(u * 64 + s) as usize]), |p, u| {
        let mut b = Bench::new();
        for s in 0..64u64 {
            let Some(bd) = list.get((u * 64 + s) as usize) else { break };
            p.sub(s);
            for page in 0..2 {
                b.jit.select_page(page);
                let l = b.jit.label();
                let r = quiet(|| {
                    b.jit.bind_label(l);
                    for k in bd {
                        emit_body(&mut b.jit, *k);
                    }
                    monoasm!(&mut b.jit, ret;);
                    b.jit.finalize();
                });
                p.add(2, bd.len() as u64 + 1);
                let bad = |t: String| p.violate("function", &format!("function on page {}: {}\n {}", page, body_text(bd), t));
                if r.is_err() {
                    bad("a valid program was refused with a panic".into());
                    return;
                }
                let uu = b.jit.get_label_addr2::<u64, u64, u64>(l);
                let uf = b.jit.get_label_addr2::<u64, u64, f64>(l);
                let ff = b.jit.get_label_addr2::<f64, f64, f64>(l);
                let fu = b.jit.get_label_addr2::<f64, f64, u64>(l);
                let u1 = b.jit.get_label_addr::<u64, u64>(l);
                let f1 = b.jit.get_label_addr::<f64, f64>(l);
                let fu1 = b.jit.get_label_addr::<f64, u64>(l);
                let known = [(2, 0, false), (2, 0, true), (0, 2, true), (0, 2, false), (1, 0, false), (0, 1, true), (0, 1, false)].map(|(g, x, f)| determined(bd, g, x, f));
                for (n0, a) in ints.iter().enumerate() {
                    for (n1, c) in ints.iter().enumerate() {
                        let (x, y) = (fl[n0], fl[n1]);
                        let (fx, fy) = (f64::from_bits(x), f64::from_bits(y));
                        for (form, name) in ["(u64, u64) -> u64", "(u64, u64) -> f64", "(f64, f64) -> f64", "(f64, f64) -> u64", "(u64) -> u64", "(f64) -> f64", "(f64) -> u64"].iter().enumerate() {
                            if !known[form] {
                                continue; // depends on something that is not an argument
                            }
                            let (g, f) = match form {
                                0 | 1 | 4 => ([*a, *c], [0; 2]),
                                _ => ([0; 2], [x, y]),
                            };
                            let Some(r) = model(bd, g, f) else { continue };
                            let w0 = if matches!(form, 0 | 3 | 4 | 6) { r.0 } else { r.1 };
                            let got = match form {
                                0 => uu(*a, *c),
                                1 => uf(*a, *c).to_bits(),
                                2 => ff(fx, fy).to_bits(),
                                3 => fu(fx, fy),
                                4 => u1(*a),
                                5 => f1(fx).to_bits(),
                                _ => fu1(fx),
                            };
                            p.add(4, 1);
                            if got != w0 {
                                bad(format!("called as {} with {:#x}, {:#x} / {}, {}: returned {:#x} instead of {:#x}", name, a, c, fx, fy, got, w0));
                                return;
                            }
                            let mut h = Fp::default();
                            h.u(form as u64);
                            h.u(got);
                            p.state(h.0);
                        }
                    }
                }
                p.add(3, 1);
            }
        }
        let q = (b.base[1] - b.base[0]) as usize;
        for k in 0..3 {
            unsafe { libc::madvise((b.base[0] as usize + k * q) as *mut _, 1 << 20, libc::MADV_DONTNEED) };
        }
    })
}
