//! One statement at a time, executed by the processor: every form x register
//! choices x operand values x flag states against the reference interpreter.
use crate::form::*;
use crate::hist::quiet;
use crate::interp::*;
use crate::native::*;
use crate::pool::*;
use crate::x86::*;
use monoasm::JitMemory;

pub struct Bench {
    pub jit: JitMemory,
    pub base: [u64; 2],
    /// 64 bytes of memory within reach of rip-relative operands
    pub block: u64,
    /// leaves by the second way out
    pub pad: u64,
    pub stack: u64,
}

pub const STACK: usize = 4096;

impl Bench {
    pub fn new() -> Bench {
        let s = Scratch::new();
        let base = [s.base[0] as u64, s.base[1] as u64];
        let mut jit = s.jit;
        for _ in 0..8192 {
            jit.emitb(0);
        }
        let pad = base[0] + jit.get_current() as u64;
        jit.emit(&exit_code(true));
        let stack = unsafe { libc::mmap(std::ptr::null_mut(), STACK, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as u64;
        Bench { jit, base, block: base[0] + 2048, pad, stack }
    }
    pub fn here(&self) -> u64 {
        self.base[self.jit.get_page()] + self.jit.get_current() as u64
    }
    pub fn renew(&mut self, limit: usize) {
        for q in 0..2 {
            self.jit.select_page(q);
            if self.jit.get_current() > limit {
                for q in 0..2 {
                    self.jit.select_page(q);
                    let n = (self.jit.get_current() + 8191) & !4095;
                    unsafe { libc::madvise(self.base[q] as *mut _, n, libc::MADV_DONTNEED) };
                }
                unsafe { libc::munmap(self.stack as *mut _, STACK) };
                *self = Bench::new();
                return;
            }
        }
    }
}

pub fn background(b: &Bench) -> Cpu {
    let mut c = Cpu::default();
    for k in 0..16u64 {
        c.g[k as usize] = 0x0123_4567_89ab_cdefu64.rotate_left(4 * k as u32) ^ k << 60;
        c.x[k as usize] = [(1.5 + k as f64).to_bits(), (-0.25 * k as f64 - 7.0).to_bits()];
    }
    c.g[4] = b.stack + 2048;
    let m: Vec<u8> = (0..64u8).map(|x| 0x40 ^ x.wrapping_mul(37)).collect();
    let s: Vec<u8> = (0..128u8).map(|x| 0x90 ^ x.wrapping_mul(29)).collect();
    c.mem = vec![(b.block, m), (b.stack + 2048 - 64, s)];
    c
}

/// put the interpreter's memory into the real one
pub fn install(c: &Cpu) {
    for (a, v) in &c.mem {
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len()) };
    }
}

pub fn ints_small() -> Vec<u64> {
    vec![0, 1, u64::MAX, 0x7f, 0x80, 0xff, 0x8000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210]
}
pub fn floats() -> Vec<u64> {
    let mut v: Vec<u64> = [0.0, -0.0, 1.0, -1.0, 1.5, 2.5, -2.5, 0.1, -0.5, 3.0, 1e300, -1e300, 1e-300, 4503599627370497.5, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, 18446744073709551616.0, f64::INFINITY, f64::NEG_INFINITY]
        .iter()
        .map(|x: &f64| x.to_bits())
        .collect();
    v.extend([1, 0x8000_0000_0000_0001, 0x000f_ffff_ffff_ffff, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_dead_beef_0001, 0x7fef_ffff_ffff_ffff]);
    v
}
const COUNTS: [u64; 14] = [0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 255, 0xffff_ffff_ffff_ff03];

fn is_float(op: Op) -> bool {
    use Op::*;
    matches!(op, Addsd | Subsd | Mulsd | Divsd | Minsd | Maxsd | Sqrtsd | Sqrtpd | XorP | AndP | Ucomisd | Roundpd | Cvttsd2si)
}
fn is_stack(op: Op) -> bool {
    matches!(op, Op::Push | Op::Pop | Op::Call | Op::Ret | Op::Leave)
}

pub struct Knobs {
    /// registers when there is no memory operand, and when there is one
    pub regs: Vec<u64>,
    pub mregs: Vec<u64>,
    pub bases: Vec<u64>,
    pub indices: Vec<u64>,
    pub disps: Vec<i64>,
    pub imms: [Vec<i64>; 5],
    pub ints: Vec<u64>,
    pub floats: Vec<u64>,
    pub flags: Vec<u64>,
}

pub fn supported(f: &Form) -> bool {
    match f.op {
        Op::Lzcnt => std::arch::is_x86_feature_detected!("lzcnt"),
        Op::Tzcnt => std::arch::is_x86_feature_detected!("bmi1"),
        Op::Popcnt => std::arch::is_x86_feature_detected!("popcnt"),
        Op::Roundpd => std::arch::is_x86_feature_detected!("sse4.1"),
        Op::Int3 | Op::Syscall => false,
        _ => !matches!(f.o[0], K::Lab),
    }
}

pub fn dims(f: &Form, kn: &Knobs) -> [Vec<i64>; 7] {
    let dom = Domain {
        regs: if f.mem().is_some() { kn.mregs.clone() } else { kn.regs.clone() },
        bases: kn.bases.clone(),
        indices: kn.indices.clone(),
        disps: kn.disps.clone(),
        imms: kn.imms.clone(),
    };
    let mut d = dom.dims(f);
    if let Some((true, _, _)) = f.mem() {
        d[5] = vec![0];
    }
    if f.o.contains(&K::Rel) {
        d[6] = vec![0];
    }
    d
}

fn inv(x: u64) -> u64 {
    let mut y = x;
    for _ in 0..6 {
        y = y.wrapping_mul(2u64.wrapping_sub(x.wrapping_mul(y)));
    }
    y
}

/// all values and flag states of one (form, registers, immediate) case.
/// Ok: number of executions
pub fn run_case(p: &Pool, f: &Form, a: &Args, b: &mut Bench, page: usize, kn: &Knobs) -> Result<u64, String> {
    b.jit.select_page(page);
    let mut a = *a;
    let mut c0 = background(b);
    let stack_op = is_stack(f.op);
    // what lies where
    let mut fixed = 0u32; // registers that hold an address
    if stack_op {
        fixed |= 1 << 4;
    }
    let mut target = None;
    if let Some((rip, sc, sg)) = f.mem() {
        let mut t = b.block + 16;
        if rip {
            let s = b.here();
            let r = quiet(|| (f.f)(&mut b.jit, &a));
            if r.is_err() {
                return Err(format!("{}\n is a valid statement but was refused with a panic", f.case(&a)));
            }
            let len = b.here() - s;
            a.d = sg as i64 * (t.wrapping_sub(b.here() + len) as i64);
        } else {
            let disp = (sg as i64 * a.d) as u64;
            if sc == 255 {
                if stack_op && a.b == 4 {
                    t = c0.g[4].wrapping_add(disp);
                    if disp > 32 {
                        return Ok(0);
                    }
                } else {
                    c0.g[a.b as usize] = t.wrapping_sub(disp);
                }
            } else if a.i == a.b {
                if sc == 0 {
                    return Ok(0);
                }
                let m = 1 + (1u64 << sc);
                c0.g[a.b as usize] = t.wrapping_sub(disp).wrapping_mul(inv(m));
            } else if stack_op && a.b == 4 {
                let x = t.wrapping_sub(disp).wrapping_sub(c0.g[4]);
                if x & ((1 << sc) - 1) != 0 {
                    return Ok(0);
                }
                c0.g[a.i as usize] = ((x as i64) >> sc) as u64;
            } else {
                let x = c0.g[a.i as usize] % 1000 + 3;
                c0.g[a.i as usize] = x;
                c0.g[a.b as usize] = t.wrapping_sub(disp).wrapping_sub(x << sc);
            }
            fixed |= 1 << a.b;
            if sc != 255 {
                fixed |= 1 << a.i;
            }
        }
        target = Some(t);
    }
    let start = b.here();
    if f.o[0] == K::Rel {
        if quiet(|| (f.f)(&mut b.jit, &a)).is_err() {
            return Err(format!("{}\n is a valid statement but was refused with a panic", f.case(&a)));
        }
        let len = b.here() - start;
        a.imm = b.pad.wrapping_sub(b.here() + len) as i64;
    }
    let start = b.here();
    if quiet(|| (f.f)(&mut b.jit, &a)).is_err() {
        return Err(format!("{}\n is a valid statement but was refused with a panic", f.case(&a)));
    }
    let end = b.here();
    b.jit.emit(&exit_code(false));
    let want = f.expect(&a);
    // operand value domains
    let jumps = matches!(f.op, Op::Jmp | Op::Call);
    let one = [b.pad];
    let zero = [0u64];
    let vals = |k: usize| -> &[u64] {
        match f.o[k] {
            K::X(_) if f.op != Op::MovqX => &kn.floats,
            K::M { .. } if is_float(f.op) => &kn.floats,
            K::M { .. } | K::R(_) | K::G(_) if jumps => &one,
            K::R(s) if fixed >> a.r(s) & 1 == 1 => &zero,
            K::M { .. } | K::R(_) | K::X(_) => &kn.ints,
            K::Cl => &COUNTS,
            _ => &zero,
        }
    };
    let div = matches!(f.op, Op::Div | Op::Idiv);
    let accs: Vec<(u64, u64)> = if div {
        kn.ints.iter().flat_map(|v| [(*v, 0), (*v, ((*v as i64) >> 63) as u64), (*v, if *v as i32 >= 0 { 0 } else { u64::MAX }), (*v, 1)]).collect()
    } else if f.op == Op::Cwd {
        kn.ints.iter().map(|v| (*v, 0x5555_5555_5555_5555)).collect()
    } else {
        vec![(0, 0)]
    };
    let (v0, v1) = (vals(0).to_vec(), vals(1).to_vec());
    let same = matches!((f.o[0], f.o[1]), (K::R(x), K::R(y)) | (K::X(x), K::X(y)) if a.r(x) == a.r(y));
    let mut n = 0;
    for (n0, x0) in v0.iter().enumerate() {
        for (n1, x1) in v1.iter().enumerate() {
            if same && n1 != 0 {
                continue;
            }
            for (ra, rd) in &accs {
                let mut c = c0.clone();
                if div || f.op == Op::Cwd {
                    c.g[2] = *rd;
                    c.g[0] = *ra;
                }
                for (k, v, nv) in [(1, x1, n1), (0, x0, n0)] {
                    match f.o[k] {
                        K::R(s) if div && a.r(s) & !2 == 0 => {}
                        K::R(s) if fixed >> a.r(s) & 1 == 0 => c.g[a.r(s) as usize] = *v,
                        K::G(s) => c.g[s as usize] = *v,
                        K::X(s) => c.x[a.r(s) as usize] = [*v, kn.floats[(nv * 7 + 3) % kn.floats.len()]],
                        K::Cl if !(matches!(f.o[0], K::R(s) if a.r(s) == 1)) && fixed & 2 == 0 => c.g[1] = *v,
                        K::M { .. } => {
                            let t = target.unwrap();
                            let _ = c.store(t, &v.to_le_bytes());
                            let _ = c.store(t + 8, &kn.floats[(nv * 5 + 2) % kn.floats.len()].to_le_bytes());
                        }
                        _ => {}
                    }
                }
                if div {
                    // an accumulator that is also an address keeps the address
                    for r in [0usize, 2] {
                        if fixed >> r & 1 == 1 {
                            c.g[r] = c0.g[r];
                        }
                    }
                }
                match f.op {
                    Op::Ret => {
                        let sp = c.g[4];
                        let _ = c.store(sp, &b.pad.to_le_bytes());
                    }
                    Op::Leave => c.g[5] = b.stack + 2048 + 24,
                    Op::Call if matches!(f.o[0], K::G(4)) => return Ok(0),
                    _ => {}
                }
                for fl in &kn.flags {
                    c.f = *fl;
                    c.rip = end;
                    let mut e = c.clone();
                    let way = match e.exec(&want) {
                        Err(_) => {
                            p.add(5, 1);
                            continue;
                        }
                        Ok(Next::Seq) => 1,
                        Ok(Next::To(t)) if t == b.pad => 2,
                        Ok(_) => continue,
                    };
                    install(&c);
                    let (s, w) = run(&c, start);
                    n += 1;
                    let d = if w != way { Some(format!("control went {} instead of {}", W[w as usize], W[way as usize])) } else { differ(&s, &e) };
                    if let Some(d) = d {
                        let bytes = unsafe { std::slice::from_raw_parts(start as *const u8, (end - start) as usize) };
                        return Err(format!("{} on page {}\n emitted {:02x?}; executed with general registers {:x?} flags {:#x} operand values {:#x}, {:#x}:\n {}", f.case(&a), page, bytes, c.g, c.f, x0, x1, d));
                    }
                    let mut h = Fp::default();
                    h.s(f.n.as_bytes());
                    h.u(s.f & ALL & !e.undef);
                    h.u(*x0);
                    h.u(*x1);
                    p.state(h.0);
                }
            }
        }
    }
    Ok(n)
}
const W: [&str; 3] = ["nowhere", "to the next statement", "to the target"];

pub struct Singles<'a> {
    pub forms: Vec<&'a Form>,
    pub dims: Vec<[Vec<i64>; 7]>,
    pub start: Vec<u64>,
    pub units: u64,
}
const UNIT: u64 = 16;
impl<'a> Singles<'a> {
    pub fn new(forms: Vec<&'a Form>, kn: &Knobs) -> Singles<'a> {
        let dims: Vec<_> = forms.iter().map(|f| dims(f, kn)).collect();
        let mut start = vec![];
        let mut u = 0;
        for d in &dims {
            start.push(u);
            u += (d.iter().map(|x| x.len() as u64).product::<u64>() + UNIT - 1) / UNIT;
        }
        Singles { forms, dims, start, units: u }
    }
    fn locate(&self, u: u64) -> (usize, u64, u64) {
        let k = self.start.partition_point(|s| *s <= u) - 1;
        let n: u64 = self.dims[k].iter().map(|x| x.len() as u64).product();
        let lo = (u - self.start[k]) * UNIT;
        (k, lo, (lo + UNIT).min(n))
    }
    pub fn describe(&self, u: u64, sub: u64) -> String {
        let (k, lo, _) = self.locate(u);
        self.forms[k].case(&at(&self.dims[k], lo + sub))
    }
    /// counters: 2 executions, 5 combinations without a defined result
    pub fn explore(&self, pool: &mut Pool, kn: &Knobs) -> bool {
        pool.recycle = 400;
        pool.run(self.units, 2, &|u, s| self.describe(u, s), |p, u| {
            let (k, lo, hi) = self.locate(u);
            thread_local!(static S: std::cell::RefCell<Option<Bench>> = const { std::cell::RefCell::new(None) });
            S.with(|s| {
                let mut s = s.borrow_mut();
                let s = s.get_or_insert_with(Bench::new);
                s.renew(4 << 20);
                for c in lo..hi {
                    p.sub(c - lo);
                    let a = at(&self.dims[k], c);
                    match run_case(p, self.forms[k], &a, s, (c & 1) as usize, kn) {
                        Ok(n) => {
                            p.add(2, n);
                            p.add(3, (n > 0) as u64);
                        }
                        Err(t) => {
                            p.violate("execution", &t);
                            return;
                        }
                    }
                }
            });
        })
    }
}

/// conditional jumps to labels: spelling x flag state x direction x distance x pages
pub fn jumps(p: &Pool, f: &Form, b: &mut Bench) -> Result<(), String> {
    let c = match f.op {
        Op::Jcc(c) => Some(c),
        _ => None,
    };
    for gap in [0u64, 1, 100, 127, 128, 129, 4096] {
        for (src, dst) in [(0usize, 0usize), (1, 1), (0, 1), (1, 0)] {
            for back in [false, true] {
                let mut a = Args { lab: b.jit.label(), ..Args::default() };
                let fill = |b: &mut Bench| (0..gap).for_each(|_| b.jit.emitb(0xcc));
                if back {
                    b.jit.select_page(dst);
                    b.jit.bind_label(a.lab);
                    b.jit.emit(&exit_code(true));
                    fill(b);
                }
                b.jit.select_page(src);
                let start = b.here();
                if quiet(|| (f.f)(&mut b.jit, &a)).is_err() {
                    return Err(format!("{} was refused with a panic", f.n));
                }
                let ret = b.here();
                b.jit.emit(&exit_code(false));
                if !back {
                    b.jit.select_page(dst);
                    fill(b);
                    b.jit.bind_label(a.lab);
                    b.jit.emit(&exit_code(true));
                }
                if quiet(|| b.jit.finalize()).is_err() {
                    return Err(format!("{}: finalize panicked", f.n));
                }
                a.imm = 0;
                for k in 0..64u64 {
                    let mut st = background(b);
                    st.f = [CF, PF, AF, ZF, SF, OF].iter().enumerate().map(|(n, m)| if k >> n & 1 == 1 { *m } else { 0 }).sum();
                    let way = match c {
                        Some(c) if !st.cond(c) => 1,
                        _ => 2,
                    };
                    let mut e = st.clone();
                    if f.op == Op::Call {
                        e.g[4] -= 8;
                        let sp = e.g[4];
                        let _ = e.store(sp, &ret.to_le_bytes());
                    }
                    install(&st);
                    let (s, w) = run(&st, start);
                    p.add(2, 1);
                    let d = if w != way { Some(format!("control went {} instead of {}", W[w as usize], W[way as usize])) } else { differ(&s, &e) };
                    if let Some(d) = d {
                        return Err(format!("{} on page {} to a label bound {} on page {}, {} bytes between, flags {:#x}:\n {}", f.n, src, if back { "before" } else { "after" }, dst, gap, st.f, d));
                    }
                    let mut h = Fp::default();
                    h.s(f.n.as_bytes());
                    h.u(k);
                    h.u(gap << 8 | (src << 4 | dst << 1 | back as usize) as u64);
                    p.state(h.0);
                }
                p.add(3, 1);
            }
        }
    }
    Ok(())
}
