//! Operand-space explorer: every form is a real `monoasm!` invocation with
//! run-time operands; the explorer walks the product of the operand domains,
//! emits each case with the implementation and compares the decoded instruction
//! with the one written.
use crate::pool::*;
use crate::report::*;
use crate::x86::*;
use monoasm::JitMemory;

#[derive(Clone, Copy, Debug, Default)]
pub struct Args {
    pub r0: u64,
    pub r1: u64,
    pub r2: u64,
    pub b: u64,
    pub i: u64,
    pub d: i64,
    pub imm: i64,
    pub lab: monoasm::DestLabel,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// register written by name
    G(u8),
    Xn(u8),
    /// memory operand with fixed parts (255 none, 16 rip)
    Mx { b: u8, i: u8, sc: u8, d: i32 },
    Im(i64),
    /// label
    Lab,
    N,
    R(u8),
    X(u8),
    /// sc 255: no index; sg: sign written before the displacement, 0 none
    M { rip: bool, sc: u8, sg: i8 },
    I(u8),
    U8,
    Cl,
    Rel,
}

pub struct Form {
    pub n: &'static str,
    pub f: fn(&mut JitMemory, &Args),
    pub op: Op,
    pub w: u8,
    pub sw: u8,
    pub o: [K; 3],
}

/// several statements in one block; operands of the statements alternate between two argument sets
pub struct Pair {
    pub n: &'static str,
    pub f: fn(&mut JitMemory, &Args, &Args),
    pub s: &'static [usize],
}

impl Args {
    pub fn r(&self, k: u8) -> u8 {
        [self.r0, self.r1, self.r2][k as usize] as u8
    }
}

impl Form {
    pub fn mem(&self) -> Option<(bool, u8, i8)> {
        self.o.iter().find_map(|k| if let K::M { rip, sc, sg } = k { Some((*rip, *sc, *sg)) } else { None })
    }
    pub fn imm_bits(&self) -> Option<(u8, bool)> {
        self.o.iter().find_map(|k| match k {
            K::I(n) => Some((*n, true)),
            K::U8 => Some((8, false)),
            K::Rel => Some((32, true)),
            _ => None,
        })
    }
    /// the instruction written
    pub fn expect(&self, a: &Args) -> Insn {
        let mut o = [O::N; 3];
        for k in 0..3 {
            o[k] = match self.o[k] {
                K::N => O::N,
                K::R(s) => O::G(a.r(s)),
                K::X(s) => O::X(a.r(s)),
                K::M { rip, sc, sg } => O::M {
                    base: if rip { RIP } else { a.b as u8 },
                    index: if sc == 255 { NONE } else { a.i as u8 },
                    scale: if sc == 255 { 0 } else { sc },
                    disp: (sg as i64 * a.d) as i32,
                },
                K::I(_) => O::I(a.imm),
                K::U8 => O::I(a.imm),
                K::Cl => O::G(1),
                K::Rel => O::Rel(a.imm),
                K::G(n) => O::G(n),
                K::Xn(n) => O::X(n),
                K::Mx { b, i, sc, d } => O::M { base: b, index: i, scale: if i == NONE { 0 } else { sc }, disp: d },
                K::Im(v) => if self.op == Op::Call { O::Rel(v) } else { O::I(v) },
                K::Lab => O::Rel(0),
            };
        }
        if let (Op::Rol | Op::Ror | Op::Shl | Op::Shr | Op::Sar, O::I(v)) = (self.op, o[1]) {
            o[1] = O::I(v as i8 as i64);
        }
        Insn { op: self.op, w: self.w, sw: self.sw, o }.canon()
    }
    pub fn case(&self, a: &Args) -> String {
        // the statement with the values filled in
        let mut s = self.n.to_string();
        for (k, v) in [("a.r0", a.r0 as i64), ("a.r1", a.r1 as i64), ("a.r2", a.r2 as i64), ("a.b", a.b as i64), ("a.i)", a.i as i64)] {
            s = s.replace(k, &if k == "a.i)" { format!("{})", v) } else { format!("{}", v) });
        }
        s.replace("a.imm", &format!("{}", a.imm)).replace("a.d", &format!("{}", a.d))
    }
}

pub struct Domain {
    pub regs: Vec<u64>,
    pub bases: Vec<u64>,
    pub indices: Vec<u64>,
    /// effective displacements
    pub disps: Vec<i64>,
    /// immediates by width in bits (8/16/32/64), and the unsigned byte
    pub imms: [Vec<i64>; 5],
}

pub fn disp_small() -> Vec<i64> {
    vec![
        0, 1, -1, 2, 4, 7, 8, -8, 16, 64, 120, 126, 127, 128, 129, 130, -126, -127, -128, -129, -130, 254, 255, 256, 257, -255, -256, -257, 4095,
        4096, 0x7fff, 0x8000, -0x8000, -0x8001, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x12345678, -0x12345678, 0x7f, 0x80, 0x7fff_fffe, 0x7fff_ffff,
        -0x8000_0000, -0x7fff_ffff, 0x0100_0000, 0x00ff_0000, 0x0000_ff00, 0x8080_80,
    ]
}

/// everything around powers of two and a dense window
pub fn ints(bits: u32, window: i64) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    let lo = if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) };
    let hi = if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
    let mut put = |x: i128| {
        if x >= lo as i128 && x <= hi as i128 {
            v.push(x as i64);
        }
    };
    for x in -window..=window {
        put(x as i128);
    }
    for k in 0..bits {
        for s in [1i128, -1] {
            for e in [-2i128, -1, 0, 1, 2] {
                put(s * (1i128 << k) + e);
            }
        }
    }
    for p in [0x5555_5555_5555_5555i128, 0x3333_3333_3333_3333, 0x0f0f_0f0f_0f0f_0f0f, 0x1234_5678_9abc_def0, 0x7f7f_7f7f_7f7f_7f7f, 0x0080_8080_8080_8080, 0x00ff_00ff_00ff_00ff] {
        for k in 0..8 {
            put(p >> (8 * k));
            put(-(p >> (8 * k)));
            put(!(p >> (8 * k)));
        }
    }
    v.sort();
    v.dedup();
    // simplest first
    v.sort_by_key(|x| (x.unsigned_abs(), *x < 0));
    v
}

impl Domain {
    pub fn dims(&self, f: &Form) -> [Vec<i64>; 7] {
        let cv = |v: &Vec<u64>| v.iter().map(|x| *x as i64).collect::<Vec<_>>();
        let mut d: [Vec<i64>; 7] = std::array::from_fn(|_| vec![0]);
        for k in 0..3 {
            match f.o[k] {
                K::R(s) | K::X(s) => d[s as usize] = cv(&self.regs),
                K::M { rip, sc, sg } => {
                    if !rip {
                        d[3] = cv(&self.bases);
                    }
                    if sc != 255 {
                        d[4] = cv(&self.indices);
                    }
                    if sg != 0 {
                        d[5] = self.disps.iter().map(|x| sg as i64 * *x).collect();
                    }
                }
                K::I(n) => d[6] = self.imms[match n { 8 => 0, 16 => 1, 32 => 2, _ => 3 }].clone(),
                K::U8 => d[6] = self.imms[4].clone(),
                K::Rel => d[6] = self.imms[2].clone(),
                _ => {}
            }
        }
        d
    }
}

/// scratch JIT memory whose used part is handed back to the kernel from time to time
pub struct Scratch {
    pub jit: JitMemory,
    pub base: [usize; 2],
}
impl Scratch {
    pub fn new() -> Scratch {
        let mut jit = JitMemory::new();
        jit.label(); // Args::default().lab
        let b0 = jit.get_current_address().as_ptr() as usize - jit.get_current();
        jit.select_page(1);
        let b1 = jit.get_current_address().as_ptr() as usize - jit.get_current();
        jit.select_page(0);
        Scratch { jit, base: [b0, b1] }
    }
    pub fn renew(&mut self, limit: usize) {
        for p in 0..2 {
            self.jit.select_page(p);
            if self.jit.get_current() > limit {
                for q in 0..2 {
                    self.jit.select_page(q);
                    let n = (self.jit.get_current() + 8191) & !4095;
                    unsafe { libc::madvise(self.base[q] as *mut _, n, libc::MADV_DONTNEED) };
                }
                *self = Scratch::new();
                return;
            }
        }
        self.jit.select_page(0);
    }
}

const UNIT: u64 = 1 << 16;

pub fn at(dims: &[Vec<i64>; 7], mut k: u64) -> Args {
    let mut v = [0i64; 7];
    for d in (0..7).rev() {
        let n = dims[d].len() as u64;
        v[d] = dims[d][(k % n) as usize];
        k /= n;
    }
    Args { r0: v[0] as u64, r1: v[1] as u64, r2: v[2] as u64, b: v[3] as u64, i: v[4] as u64, d: v[5], imm: v[6], ..Args::default() }
}

/// Emit one case; Err text describes the deviation.
pub fn check_case(f: &Form, a: &Args, s: &mut Scratch, page: usize) -> Result<u64, String> {
    let start = s.jit.get_current();
    (f.f)(&mut s.jit, a);
    let end = s.jit.get_current();
    if end <= start || end > start + 32 {
        return Err(format!("{}: cursor went from {} to {}", f.case(a), start, end));
    }
    let b = unsafe { std::slice::from_raw_parts((s.base[page] + start) as *const u8, end - start) };
    compare(f, a, b)
}

pub fn compare(f: &Form, a: &Args, b: &[u8]) -> Result<u64, String> {
    let want = f.expect(a);
    match decode(b) {
        Ok((ins, len)) => {
            if len != b.len() {
                return Err(format!("{}\n emitted {:02x?}: {} bytes, but the instruction '{}' ends after {}", f.case(a), b, b.len(), ins.text(), len));
            }
            let mut got = ins.canon();
            if f.o[0] == K::Lab {
                got.o[0] = O::Rel(0); // filled at finalize
            }
            if got != want {
                return Err(format!("{}\n emitted {:02x?} which is\n '{}' {:?}\n instead of\n '{}' {:?}", f.case(a), b, ins.text(), got, want.text(), want));
            }
        }
        Err(e) => return Err(format!("{}\n emitted {:02x?} which is not an instruction: {}", f.case(a), b, e)),
    }
    let mut h = Fp::default();
    h.s(b);
    Ok(h.0)
}

/// counters: 2 emissions, 3 refusals observed
pub struct Space<'a> {
    pub forms: Vec<&'a Form>,
    pub dims: Vec<[Vec<i64>; 7]>,
    pub start: Vec<u64>, // first unit of each form
    pub units: u64,
}

impl<'a> Space<'a> {
    pub fn new(tables: &[&'a [Form]], dom: &Domain) -> Space<'a> {
        let forms: Vec<&Form> = tables.iter().flat_map(|t| t.iter()).collect();
        Space::of(forms, dom)
    }
    pub fn of(forms: Vec<&'a Form>, dom: &Domain) -> Space<'a> {
        let dims: Vec<_> = forms.iter().map(|f| dom.dims(f)).collect();
        let mut start = vec![];
        let mut u = 0;
        for d in &dims {
            start.push(u);
            let n: u64 = d.iter().map(|x| x.len() as u64).product();
            u += (n + UNIT - 1) / UNIT;
        }
        Space { forms, dims, start, units: u }
    }
    fn locate(&self, u: u64) -> (usize, u64, u64) {
        let k = self.start.partition_point(|s| *s <= u) - 1;
        let n: u64 = self.dims[k].iter().map(|x| x.len() as u64).product();
        let lo = (u - self.start[k]) * UNIT;
        (k, lo, (lo + UNIT).min(n))
    }
    pub fn describe(&self, u: u64, sub: u64) -> String {
        let (k, lo, _) = self.locate(u);
        self.forms[k].case(&at(&self.dims[k], lo + sub))
    }
    pub fn cases(&self) -> u64 {
        self.dims.iter().map(|d| d.iter().map(|x| x.len() as u64).product::<u64>()).sum()
    }
    /// all operands valid: everything must be accepted and decode to what was written
    pub fn explore(&self, pool: &mut Pool) -> bool {
        pool.recycle = 64;
        let d = |u: u64, s: u64| self.describe(u, s);
        pool.run(self.units, 1, &d, |p, u| {
            let (k, lo, hi) = self.locate(u);
            let f = self.forms[k];
            let dims = &self.dims[k];
            let page = (u & 1) as usize;
            thread_local!(static S: std::cell::RefCell<Option<Scratch>> = const { std::cell::RefCell::new(None) });
            S.with(|s| {
                let mut s = s.borrow_mut();
                if s.is_none() {
                    *s = Some(Scratch::new());
                }
                let s = s.as_mut().unwrap();
                s.renew(12 << 20);
                s.jit.select_page(page);
                let cur = std::cell::Cell::new(lo);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for c in lo..hi {
                        cur.set(c);
                        if c & 1023 == 0 {
                            p.sub(c - lo);
                        }
                        let a = at(dims, c);
                        match check_case(f, &a, s, page) {
                            Ok(h) => {
                                p.state(h);
                            }
                            Err(t) => {
                                p.violate("encoding", &t);
                                break;
                            }
                        }
                    }
                }));
                if r.is_err() {
                    p.violate("refused", &format!("{}\n is a valid statement but was refused with a panic", f.case(&at(dims, cur.get()))));
                }
                p.add(2, hi - lo);
            });
        })
    }
    /// replay a selection of emitted instructions (every form, `per` cases each) through objdump
    pub fn conform(&self, per: u64, scratch: &std::path::Path) -> Result<usize, String> {
        let mut items = vec![];
        let mut s = Scratch::new();
        for (k, f) in self.forms.iter().enumerate() {
            let n: u64 = self.dims[k].iter().map(|x| x.len() as u64).product();
            let step = (n / per).max(1) | 1;
            let mut c = 0;
            while c < n {
                let a = at(&self.dims[k], c);
                let start = s.jit.get_current();
                (f.f)(&mut s.jit, &a);
                let end = s.jit.get_current();
                let b = unsafe { std::slice::from_raw_parts((s.base[0] + start) as *const u8, end - start) }.to_vec();
                if let Ok((ins, len)) = decode(&b) {
                    if len == b.len() {
                        items.push((b, ins));
                    }
                }
                c += step;
            }
        }
        let mut n = 0;
        for ch in items.chunks(20000) {
            n += crate::objdump::conform(ch, scratch)?;
        }
        Ok(n)
    }
    pub fn samples(&self, n: usize) -> String {
        let mut out = vec![];
        let step = (self.forms.len() / n).max(1);
        for k in (0..self.forms.len()).step_by(step) {
            let c: u64 = self.dims[k].iter().map(|x| x.len() as u64).product();
            let a = at(&self.dims[k], c / 2);
            let mut s = Scratch::new();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.forms[k].f)(&mut s.jit, &a)));
            let b = unsafe { std::slice::from_raw_parts(s.base[0] as *const u8, s.jit.get_current()) };
            let t = decode(b).map(|x| x.0.text()).unwrap_or_default();
            out.push(js(&format!("{} => {:02x?} => {}", self.forms[k].case(&a), b, t)));
            if out.len() >= n {
                break;
            }
        }
        out.join(", ")
    }
}
