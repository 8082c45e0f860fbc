//! C10: no emission leaves its region (every operation at every distance from the
//! end of every region, and all short histories there).
//! C12: page protections after every operation of every short history.
use mccore::form::{Args, Form};
use mccore::hist::{quiet, C, H, R, Sys};
use mccore::*;
use monoasm::*;
use monoasm_macro::monoasm;
mod form {
    pub use mccore::form::*;
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

fn rd(a: usize, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(a as *const u8, n) }
}

/// the three regions of a memory, from the public API
fn bases(j: &mut JitMemory) -> ([usize; 3], usize) {
    let mut b = [0; 3];
    for p in 0..3 {
        let l = j.label();
        j.bind_label_with_page(Page(p), l);
        b[p] = j.get_label_address(l).as_ptr() as usize;
    }
    (b, b[1].wrapping_sub(b[0]))
}
fn cursor(j: &mut JitMemory, b: &[usize; 3], p: usize) -> usize {
    let l = j.label();
    j.bind_label_with_page(Page(p), l);
    (j.get_label_address(l).as_ptr() as usize).wrapping_sub(b[p])
}

/// run `f` in a process of its own; its verdict, or its death, is reported
fn forked(p: &Pool, what: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("harness: fork failed");
        unsafe { libc::_exit(3) };
    }
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(100);
        }
        match quiet(f) {
            Ok(Ok(())) => {}
            Ok(Err(t)) => p.violate("region", &format!("{}\n{}", what(), t)),
            Err(()) => p.violate("panic", &format!("{}\nthe harness's own query panicked", what())),
        }
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFSIGNALED(st) {
        p.violate("crash", &format!("{}\nthe process was killed by signal {} (a write outside its memory?)", what(), libc::WTERMSIG(st)));
    }
}

// ------------------------------------------------------------------ C10
const GUARD: usize = 8192;

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    EB,
    EW,
    EL,
    EQ,
    S(usize),
    Dq,
    Ins,
    Jmp,
    Lea,
    StB,
    Bind,
    Con(C),
    Abs,
    Dat(C),
    Fin,
    Al(usize),
    Tog,
}

struct Edge {
    jit: JitMemory,
    b: [usize; 3],
    ps: usize,
    /// region under test and initial distance of its cursor from the end
    reg: usize,
    start: usize,
    cur: [usize; 3],
    sel: usize,
    pend: Vec<(usize, usize, usize, DestLabel, Vec<u8>)>, // region, align, size, label, value
    lab: DestLabel,
    bound: bool,
    refs: usize,
    seq: u8,
    /// guard zones
    zones: Vec<(usize, Vec<u8>)>,
}

fn size_of(f: impl Fn(&mut JitMemory)) -> Option<Vec<u8>> {
    let mut j = JitMemory::new();
    let b = j.get_current_address().as_ptr() as usize;
    quiet(|| f(&mut j)).ok()?;
    Some(rd(b, j.get_current()).to_vec())
}

impl Edge {
    /// the cursor of the region is 4096 bytes before its end
    fn new(reg: usize) -> Edge {
        let mut j = JitMemory::new();
        let (b, ps) = bases(&mut j);
        for q in 0..3 {
            // the other regions start above a guard zone
            let end = if q == reg { ps - 4096 } else { GUARD };
            for _ in 0..end / 4096 {
                j[Page(q)].emitb(0x90);
                j[Page(q)].align_page();
            }
        }
        let lab = j.label();
        let mut e = Edge { jit: j, b, ps, reg, start: 0, cur: [GUARD; 3], sel: 0, pend: vec![], lab, bound: false, refs: 0, seq: 3, zones: vec![] };
        if reg == 1 {
            e.jit.select_page(1);
            e.sel = 1;
        }
        for q in 0..3 {
            unsafe { libc::madvise((b[q] + GUARD) as *mut _, ps - 3 * GUARD, libc::MADV_DONTNEED) };
        }
        e
    }
    fn near(&mut self, dist: usize) {
        let e = self;
        let (b, ps, reg) = (e.b, e.ps, e.reg);
        for _ in 0..4096 - dist {
            e.jit[Page(reg)].emitb(0x90);
        }
        e.start = ps - dist;
        e.cur[reg] = ps - dist;
        // fill the guards
        let mut z = vec![];
        for q in 0..3 {
            z.push((b[q], GUARD));
            z.push((b[q] + ps - GUARD, if q == reg { GUARD - dist } else { GUARD }));
        }
        let after = b[2] + ps;
        let mut v = 0u8;
        if unsafe { libc::mincore(after as *mut _, 4096, &mut v) } != 0 {
            unsafe { libc::mmap(after as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | 0x100000, -1, 0) };
        } else {
            e.zones.push((after, rd(after, 64).to_vec()));
        }
        for (k, (a, n)) in z.into_iter().enumerate() {
            let v: Vec<u8> = (0..n).map(|x| (x as u8).wrapping_mul(29) ^ (x >> 8) as u8 ^ (0xa5 + k as u8)).collect();
            unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), a as *mut u8, n) };
            e.zones.push((a, v));
        }
        if e.zones.iter().all(|z| z.0 != after) && unsafe { libc::mincore(after as *mut _, 4096, &mut v) } == 0 {
            e.zones.push((after, rd(after, 4096).to_vec()));
        }
    }
    fn guards(&self) -> Result<(), String> {
        for (a, v) in &self.zones {
            let g = rd(*a, v.len());
            if g != &v[..] {
                let k = (0..v.len()).find(|k| g[*k] != v[*k]).unwrap();
                return Err(format!("the byte at {:#x} of the memory ({}) changed from {:02x} to {:02x}", a + k - self.b[0], self.place(a + k), v[k], g[k]));
            }
        }
        Ok(())
    }
    fn place(&self, a: usize) -> String {
        for q in 0..3 {
            if a >= self.b[q] && a < self.b[q] + self.ps {
                return format!("region {} position {:#x} of {:#x}", q, a - self.b[q], self.ps);
            }
        }
        "outside its regions".into()
    }
    fn byte(&mut self) -> u8 {
        self.seq = self.seq.wrapping_mul(13).wrapping_add(0x47) | 1;
        self.seq
    }
    /// emission of known bytes
    fn put(&mut self, what: &str, want: &[u8], f: impl FnOnce(&mut JitMemory)) -> Result<bool, String> {
        let q = self.sel;
        let fits = self.cur[q] + want.len() <= self.ps;
        let r = quiet(|| f(&mut self.jit)).is_ok();
        self.guards()?;
        if r != fits {
            return Err(format!("{} of {} bytes with {} left was {}", what, want.len(), self.ps as i64 - self.cur[q] as i64, if r { "accepted" } else { "refused" }));
        }
        if !r {
            return Ok(false);
        }
        let got = rd(self.b[q] + self.cur[q], want.len());
        if got != want {
            return Err(format!("{}: {:02x?} was written instead of {:02x?}", what, got, want));
        }
        self.cur[q] += want.len();
        self.cursors(what)?;
        Ok(true)
    }
    fn cursors(&mut self, what: &str) -> Result<(), String> {
        let c = cursor(&mut self.jit, &self.b, self.sel);
        if c != self.cur[self.sel] {
            return Err(format!("{}: the cursor is {:#x} instead of {:#x}", what, c, self.cur[self.sel]));
        }
        Ok(())
    }
    /// a reference to the label: its length is measured elsewhere
    fn refer(&mut self, k: R) -> Result<bool, String> {
        let q = self.sel;
        let n = size_of(|j| {
            let l = j.label();
            mccore::hist::emit_ref(j, k, l)
        })
        .map_or(0, |b| b.len());
        let l = self.lab;
        let fits = self.cur[q] + n <= self.ps;
        let r = quiet(|| mccore::hist::emit_ref(&mut self.jit, k, l)).is_ok();
        self.guards()?;
        if r != fits {
            return Err(format!("{:?} to a label ({} bytes) with {} left was {}", k, n, self.ps as i64 - self.cur[q] as i64, if r { "accepted" } else { "refused" }));
        }
        if r {
            self.cur[q] += n;
            self.refs += 1;
            self.cursors("a reference")?;
        }
        Ok(r)
    }
    fn step(&mut self, a: A) -> Result<bool, String> {
        match a {
            A::EB => {
                let b = self.byte();
                self.put("emitb", &[b], |j| j.emitb(b))
            }
            A::EW => self.put("emitw", &[0xb1, 0xb2], |j| j.emitw(0xb2b1)),
            A::EL => self.put("emitl", &[0xc1, 0xc2, 0xc3, 0xc4], |j| j.emitl(0xc4c3c2c1)),
            A::EQ => self.put("emitq", &0x1827364554637281u64.to_le_bytes(), |j| j.emitq(0x1827364554637281)),
            A::S(n) => {
                let v: Vec<u8> = (0..n).map(|k| k as u8 | 0x40).collect();
                self.put("emit(slice)", &v.clone(), |j| j.emit(&v))
            }
            A::Dq => self.put("dq", &0x1122334455667788u64.to_le_bytes(), |j| {
                monoasm!(&mut *j, dq 0x1122334455667788;);
            }),
            A::Ins => {
                let f = |j: &mut JitMemory| {
                    monoasm!(&mut *j, addq r9, 0x12345;);
                };
                let v = size_of(f).unwrap_or_default();
                self.put("an instruction", &v, f)
            }
            A::Jmp => self.refer(R::Jmp),
            A::Lea => self.refer(R::Lea),
            A::StB => self.refer(R::StB),
            A::Bind => {
                if !self.bound {
                    self.bound = true;
                    let l = self.lab;
                    self.jit.bind_label(l);
                }
                Ok(true)
            }
            A::Con(c) | A::Dat(c) => {
                let data = matches!(a, A::Dat(_));
                let j = &mut self.jit;
                let (al, v) = match c {
                    C::I64 | C::F64 => (16, 0x7172737475767778i64.to_le_bytes().to_vec()),
                    C::I32 => (4, 0x61626364i32.to_le_bytes().to_vec()),
                    C::Bytes(n) => (16, vec![0; n as usize]),
                    C::Align8 => (8, vec![]),
                    C::V64(_) | C::V32(_) | C::VF(_) => return Ok(true),
                };
                let l = match (data, c) {
                    (false, C::I64 | C::F64) => j.const_i64(0x7172737475767778),
                    (false, C::I32) => j.const_i32(0x61626364),
                    (false, C::Bytes(n)) => j.constant(n as usize),
                    (false, C::Align8) => j.const_align8(),
                    (true, C::I64 | C::F64) => j.data_i64(0x7172737475767778),
                    (true, C::I32) => j.data_i32(0x61626364),
                    (true, C::Bytes(n)) => j.data(n as usize),
                    _ => return Ok(true),
                };
                self.pend.push((if data { 2 } else { self.sel }, al, v.len(), l, v));
                Ok(true)
            }
            A::Abs => {
                let l = self.lab;
                let n = self.jit.abs_address(l);
                self.pend.push((self.sel, 8, 8, n, vec![]));
                Ok(true)
            }
            A::Al(n) => {
                match n {
                    4 => self.jit.align4(),
                    8 => self.jit.align8(),
                    16 => self.jit.align16(),
                    _ => self.jit.align_page(),
                }
                let q = self.sel;
                self.cur[q] = (self.cur[q] + n - 1) / n * n;
                self.guards()?;
                self.cursors("an alignment")?;
                Ok(true)
            }
            A::Tog => {
                self.sel = 1 - self.sel;
                let s = self.sel;
                self.jit.select_page(s);
                Ok(true)
            }
            A::Fin => {
                // pending items in order of declaration; whether a refusal is due must
                // not depend on the order, so only clear cases are judged
                let mut c = self.cur;
                let mut sum = self.cur;
                for (q, al, n, _, _) in &self.pend {
                    c[*q] = (c[*q] + al - 1) / al * al + n;
                    sum[*q] += n;
                }
                let must = (0..3).all(|q| c[q] <= self.ps);
                let cannot = (0..3).any(|q| sum[q] > self.ps) || (self.pend.len() == 1 && !must);
                let r = quiet(|| self.jit.finalize()).is_ok();
                self.guards()?;
                if (must && !r) || (cannot && r) {
                    return Err(format!("finalize with {} pending constants/data items was {} (room {:?})", self.pend.len(), if r { "accepted" } else { "refused" },
                        (0..3).map(|q| self.ps as i64 - self.cur[q] as i64).collect::<Vec<_>>()));
                }
                if !r {
                    return Ok(false);
                }
                for (q, _, n, l, v) in std::mem::take(&mut self.pend) {
                    let a = self.jit.get_label_address(l).as_ptr() as usize;
                    if a < self.b[q] + self.cur[q] || a + n > self.b[q] + self.ps {
                        return Err(format!("an item of {} bytes was placed at {}", n, self.place(a)));
                    }
                    if !v.is_empty() && rd(a, n) != &v[..] {
                        return Err(format!("an item holds {:02x?} instead of {:02x?}", rd(a, n), v));
                    }
                }
                for q in 0..3 {
                    self.cur[q] = cursor(&mut self.jit, &self.b, q);
                    if self.cur[q] > self.ps {
                        return Err(format!("the cursor of region {} is {:#x}, beyond its end {:#x}", q, self.cur[q], self.ps));
                    }
                }
                Ok(true)
            }
        }
    }
    /// whatever happens after a refusal, nothing outside may change
    fn aftermath(&mut self) -> Result<(), String> {
        let l = self.lab;
        if !self.bound {
            let _ = quiet(|| self.jit.bind_label(l));
        }
        for k in 0..9 {
            let _ = quiet(|| match k {
                0 => self.jit.emitb(0xee),
                1 => self.jit.emitl(0xeeeeeeee),
                2 => self.jit.finalize(),
                3 => self.jit.emitq(0xeeeeeeeeeeeeeeee),
                4 => self.jit.emit(&[0xee; 40]),
                5 => {
                    self.jit.const_i64(-1);
                    self.jit.data_i64(-1);
                    self.jit.finalize()
                }
                6 => self.jit.finalize(),
                7 => {
                    let p = 1 - self.jit.get_page();
                    self.jit.select_page(p);
                    self.jit.emitb(0xee)
                }
                _ => self.jit.finalize(),
            });
            self.guards()?;
        }
        Ok(())
    }
}

const ALPHA: [A; 24] = [
    A::EB, A::EW, A::EL, A::EQ, A::S(3), A::S(0), A::Dq, A::Ins, A::Jmp, A::Lea, A::StB, A::Bind, A::Con(C::I32), A::Con(C::I64), A::Con(C::Bytes(5)), A::Con(C::Align8), A::Abs,
    A::Dat(C::I32), A::Dat(C::I64), A::Dat(C::Bytes(5)), A::Fin, A::Al(4), A::Al(16), A::Tog,
];

fn c10(ctx: &Ctx) -> ! {
    let mut pool = Pool::new(24);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.hang_secs = 300;
    let fs: Vec<&Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    let dmax = if ctx.thorough { 40 } else { 24 };
    let depth = if ctx.thorough { 3 } else { 2 };
    pool.recycle = 4;
    // 1. every history of the alphabet at every distance, followed by finalize and more
    let mut edges = vec![];
    for reg in 0..3 {
        match quiet(|| Edge::new(reg)) {
            Ok(e) => edges.push(e),
            Err(()) => {
                pool.violate("panic", &format!("region {} cannot be filled up to 4096 bytes before its end", reg));
                break;
            }
        }
    }
    // each case below works on a private (forked) copy
    let edges = std::cell::RefCell::new(edges);
    let nd = dmax + 1;
    let parts = 3u64;
    let desc = |u: u64, s: u64| format!("region {} with {} bytes left, history {}", u / parts % 3, u / parts / 3, s);
    let mut done = pool.run(3 * nd as u64 * parts, 1, &desc, |p, u| {
        let (part, reg, dist) = ((u % parts) as usize, (u / parts % 3) as usize, (u / parts / 3) as usize);
        let top = || format!("region {} (0, 1: code pages, 2: data) filled up to {} bytes before its end", reg, dist);
        forked(p, &top, || {
            let e = &mut edges.borrow_mut()[reg];
            e.near(dist);
            let n = ALPHA.len().pow(depth as u32);
            for k in 0..n {
                if k % parts as usize != part {
                    continue;
                }
                p.sub(k as u64);
                let mut w = vec![];
                let mut x = k;
                for _ in 0..depth {
                    w.push(ALPHA[x % ALPHA.len()]);
                    x /= ALPHA.len();
                }
                let txt = || format!("region {} (0, 1: code pages, 2: data) with {} bytes left: {:?}", reg, dist, w);
                let h = w.clone();
                let e = &mut *e;
                forked(p, &txt, || {
                    let mut fine = true;
                    for a in &h {
                        p.add(2, 1);
                        fine = e.step(*a)?;
                        let mut f = Fp::default();
                        for q in 0..3 {
                            f.u(e.cur[q] as u64 ^ (q as u64) << 60);
                        }
                        f.u((e.sel as u64) << 8 ^ (e.pend.len() as u64) << 4 ^ e.refs as u64 ^ (e.bound as u64) << 12 ^ (fine as u64) << 13 ^ (e.reg as u64) << 14 ^ (e.start as u64) << 20);
                        for i in &e.pend {
                            f.u((i.0 + i.1 * 4 + i.2 * 256) as u64);
                        }
                        p.state(f.0);
                        if !fine {
                            break;
                        }
                    }
                    if fine {
                        fine = e.step(A::Fin)?;
                        p.add(2, 1);
                    }
                    p.add(if fine { 3 } else { 4 }, 1);
                    e.aftermath()
                });
                if p.stopped() {
                    break;
                }
            }
            Ok(())
        });
    });
    // 2. every instruction form at every distance up to its length
    let nd = 19u64;
    let scratch = std::cell::RefCell::new(JitMemory::new());
    let sizes: Vec<[Option<Vec<u8>>; 2]> = fs.iter().map(|f| std::array::from_fn(|v| {
        let a = [Args { r0: 9, r1: 10, r2: 10, b: 9, i: 10, d: 0x1234, imm: 0x35, ..Default::default() }, Args { r0: 1, r1: 1, r2: 1, b: 1, i: 1, d: 1, imm: 1, ..Default::default() }][v];
        let mut s = scratch.borrow_mut();
        let lab = s.label();
        let (c, at) = (s.get_current(), s.get_current_address().as_ptr() as usize);
        quiet(|| (f.f)(&mut s, &Args { lab, ..a })).ok()?;
        Some(rd(at, s.get_current() - c).to_vec())
    })).collect();
    let desc = |u: u64, s: u64| format!("instructions on page {} with {} bytes left, form {}", u / nd, u % nd, s);
    pool.recycle = 4;
    if done {
        done = pool.run(2 * nd, 1, &desc, |p, u| {
            let (reg, dist) = ((u / nd) as usize, (u % nd) as usize);
            let top = || format!("region {} (0, 1: code pages, 2: data) filled up to {} bytes before its end", reg, dist);
            forked(p, &top, || {
                let e = &mut edges.borrow_mut()[reg];
                e.near(dist);
                let lab = e.jit.label();
                for (k, f) in fs.iter().enumerate() {
                    for a in [Args { r0: 9, r1: 10, r2: 10, b: 9, i: 10, d: 0x1234, imm: 0x35, ..Default::default() }, Args { r0: 1, r1: 1, r2: 1, b: 1, i: 1, d: 1, imm: 1, ..Default::default() }] {
                        p.sub(k as u64);
                        let v = match &sizes[k][(a.r0 == 1) as usize] {
                            Some(v) => v,
                            None => continue,
                        };
                        // well inside the page: nothing to learn
                        if v.len() + 1 < dist {
                            continue;
                        }
                        let txt = || format!("code page {} with {} bytes left: {} {:02x?}", reg, dist, f.case(&a), v);
                        let e = &mut *e;
                        forked(p, &txt, || {
                            p.add(2, 1);
                            let a = Args { lab, ..a };
                            let r = e.put("the instruction", v, |j| (f.f)(j, &a))?;
                            p.add(if r { 3 } else { 4 }, 1);
                            let mut h = Fp::default();
                            h.s(f.n.as_bytes());
                            h.s(v);
                            h.u(u);
                            p.state(h.0);
                            if !r {
                                e.aftermath()?;
                            }
                            Ok(())
                        });
                        if p.stopped() {
                            return Ok(());
                        }
                    }
                }
                Ok(())
            });
        });
    }
    // 3. items of extreme size
    let mut big: Vec<(usize, usize, usize, i128)> = vec![]; // kind, region, start, size - PS
    let ps = {
        let mut j = JitMemory::new();
        bases(&mut j).1 as i128
    };
    let big_sizes: Vec<i128> = vec![ps - 17, ps - 16, ps - 15, ps - 1, ps, ps + 1, ps + 4096, 2 * ps, 2 * ps + 5, 1 << 32, (1 << 32) + 5, (1 << 32) + ps, (1 << 63) + 3, usize::MAX as i128 - 15, usize::MAX as i128];
    for reg in 0..3 {
        for start in [0usize, 1] {
            for s in &big_sizes {
                big.push((0, reg, start, *s));
            }
        }
    }
    for reg in 0..2 {
        for s in [ps - 1, ps, ps + 1] {
            big.push((1, reg, 1, s));
        }
    }
    let desc = |u: u64, _: u64| format!("{:?} (0: constant/data block, 1: byte slice; region; cursor; size)", big[u as usize]);
    pool.recycle = 1;
    if done {
        done = pool.run(big.len() as u64, 1, &desc, |p, u| {
            let (kind, reg, start, size) = big[u as usize];
            let txt = || desc(u, 0);
            forked(p, &txt, || {
                let mut j = JitMemory::new();
                let (b, ps) = bases(&mut j);
                for q in 0..3 {
                    let n = if q == reg { start } else { GUARD };
                    for _ in 0..n {
                        j[Page(q)].emitb(0x90);
                    }
                }
                let mut zones: Vec<(usize, Vec<u8>)> = vec![];
                for q in 0..3 {
                    if q != reg {
                        zones.push((b[q], vec![0x90; GUARD]));
                        zones.push((b[q] + ps - GUARD, vec![0; GUARD]));
                    } else if start > 0 {
                        zones.push((b[q], vec![0x90; start]));
                    }
                }
                let after = b[2] + ps;
                let mut m = 0u8;
                if unsafe { libc::mincore(after as *mut _, 4096, &mut m) } == 0 {
                    zones.push((after, rd(after, 64).to_vec()));
                }
                if reg < 2 {
                    j.select_page(reg);
                }
                p.add(2, 1);
                let (at, ok) = if kind == 0 {
                    let l = if reg == 2 { j.data(size as usize) } else { j.constant(size as usize) };
                    ((start + 15) / 16 * 16, quiet(|| j.finalize()).is_ok().then_some(l))
                } else {
                    let v = vec![0u8; size as usize];
                    let l = j.label();
                    j.bind_label(l);
                    (start, quiet(|| j.emit(&v)).is_ok().then_some(l))
                };
                for (a, v) in &zones {
                    if rd(*a, v.len()) != &v[..] {
                        return Err(format!("memory around {:#x} changed", a - b[0]));
                    }
                }
                let fits = at as i128 + size <= ps as i128;
                if ok.is_some() != fits {
                    return Err(format!("was {} (room {:#x})", if fits { "refused" } else { "accepted" }, ps - at));
                }
                p.add(if fits { 3 } else { 4 }, 1);
                if let Some(l) = ok {
                    let a = j.get_label_address(l).as_ptr() as usize;
                    let c = cursor(&mut j, &b, reg);
                    if a < b[reg] || a + size as usize > b[reg] + ps || c > ps || c < a - b[reg] + size as usize {
                        return Err(format!("was placed at {:#x} with the cursor at {:#x}", a.wrapping_sub(b[reg]), c));
                    }
                }
                let mut h = Fp::default();
                h.u(u ^ 1 << 50);
                p.state(h.0);
                Ok(())
            });
        });
    }
    // 4. positions: the last byte of a page is reachable, nothing beyond is
    if done {
        let ps = ps as usize;
        let mut pos: Vec<(usize, bool)> = (0..64).map(|k| (ps + k, false)).collect();
        pos.extend((1..64).map(|k| (ps - k, true)));
        pos.extend((0..64).map(|b| (1usize << b, (1usize << b) < ps)));
        pos.extend((29..64).map(|b| ((1usize << b) + 5, false)));
        pos.extend([(0, true), (2 * ps, false), (2 * ps - 1, false), (3 * ps - 1, false), (3 * ps, false), (usize::MAX, false), (usize::MAX - ps, false)]);
        let desc = |u: u64, _: u64| format!("position {:#x}", pos[u as usize].0);
        pool.recycle = 64;
        done = pool.run(pos.len() as u64, 8, &desc, |p, u| {
            let (k, inside) = pos[u as usize];
            forked(p, &|| desc(u, 0), || {
                let mut j = JitMemory::new();
                let (b, _) = bases(&mut j);
                for sel in 0..2 {
                    j.select_page(sel);
                    for q in 0..4 {
                        let base = b[if q == 3 { sel } else { q }];
                        p.add(2, 1);
                        let a = if q == 3 { quiet(|| &j[Pos::from(k)] as *const u8 as usize) } else { quiet(|| &j[Page(q)][Pos::from(k)] as *const u8 as usize) };
                        let m = if q == 3 { quiet(|| &mut j[Pos::from(k)] as *mut u8 as usize) } else { quiet(|| &mut j[Page(q)][Pos::from(k)] as *mut u8 as usize) };
                        for (a, how) in [(a, "reading"), (m, "writing")] {
                            let want = if inside { Ok(base + k) } else { Err(()) };
                            if a != want {
                                return Err(format!("{} it through {} (page {} selected) {}", how, if q == 3 { "the memory".to_string() } else { format!("page {}", q) }, sel,
                                    match a { Ok(a) => format!("reaches the byte {:#x} of the region", a.wrapping_sub(base)), Err(()) => "panics".into() }));
                            }
                        }
                    }
                }
                p.add(3, 1);
                Ok(())
            });
        });
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"histories_accepted\": {},\n  \"histories_refused\": {},\n  \"instruction_forms\": {},\n  \"bounds\": \"all histories of depth {} over {} operations (then finalize, then emissions after the end) at each distance 0..{} from the end of each of the 3 regions; every instruction form at every distance up to its length + 1; blocks of extreme size\",\n  \"profile\": {},\n  \"state_meaning\": \"distinct (cursors, selection, pending items) of the model and distinct (instruction, distance)\",\n  \"transition_meaning\": \"operations executed on the real memory\",\n  \"validation\": \"every history runs on the real memory in a process of its own, guard zones compared after each operation\",\n  \"samples\": [\"region 1 with 5 bytes left: Jmp; Bind; Fin\", {}, {}]",
        pool.states(), pool.get(2), pool.get(3) + pool.get(4), pool.get(3), pool.get(4), fs.len(), depth, ALPHA.len(), dmax, js(&std::env::var("MC_PROFILE").unwrap_or_default()),
        js(&format!("region 2 with 7 bytes left: {:?}; {:?}", ALPHA[18], ALPHA[20])), js(&format!("constant({:#x}) on page 0", big_sizes[3]))
    );
    ctx.finish("model_checking", &cov, &["guard zones: 8 KB at both ends of every region and the first bytes beyond the last"], &pool, done)
}

// ------------------------------------------------------------------ C12
/// first part of [lo, hi) whose protection is not `want`
fn bad_prot(maps: &str, lo: usize, hi: usize, want: &str) -> Option<String> {
    let mut at = lo;
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (r, pr) = (w.next()?, w.next()?);
        let (s, e) = r.split_once('-')?;
        let (s, e) = (usize::from_str_radix(s, 16).ok()?, usize::from_str_radix(e, 16).ok()?);
        if e <= at {
            continue;
        }
        if s > at {
            return Some(format!("{:#x} bytes from its start are not mapped", at - lo));
        }
        if &pr[..3] != want {
            return Some(format!("the page {:#x} bytes from its start is {} instead of {}", at - lo, &pr[..3], want));
        }
        at = e;
        if at >= hi {
            return None;
        }
    }
    Some(format!("{:#x} bytes from its start are not mapped", at - lo))
}
fn judge(b: &[usize; 3], ps: usize) -> Result<(), String> {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    for q in 0..3 {
        if let Some(t) = bad_prot(&maps, b[q], b[q] + ps, if q == 2 { "rw-" } else { "rwx" }) {
            return Err(format!("{}: {}", ["code page 0", "code page 1", "the data region"][q], t));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum M {
    O(H),
    New,
    /// a memory made by default()
    Dflt,
    Swap,
    Drop,
    /// refused selections
    Bad(usize),
}

fn c12(ctx: &Ctx) -> ! {
    let mut pool = Pool::new(22);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    let al: Vec<M> = vec![
        M::O(H::Tog), M::O(H::EB), M::O(H::Raw(70000)), M::O(H::Al(4096)), M::O(H::Con(C::I64)), M::O(H::Dat(C::I64)), M::O(H::Dat(C::Bytes(70000))), M::O(H::Jm(0)), M::O(H::Bind(0)), M::O(H::PatSelf(0)),
        M::O(H::Fin), M::New, M::Dflt, M::Swap, M::Drop, M::Bad(2),
    ];
    use H::*;
    let big: Vec<M> = [Tog, Raw(20_000_000), Con(C::Bytes(9_000_000)), Dat(C::Bytes(20_000_000)), FinN(3000), Life(0, 300), Life(1, 300), Life(3, 300), LabN(70000), RefN(70000, 0), ConN(2000), DatN(2000), Bind(0), Fin].into_iter().map(M::O).chain([M::New, M::Swap]).collect();
    let mut done = true;
    let mut sample = String::new();
    for (al, depth) in [(&al, if ctx.thorough { 6 } else { 5 }), (&big, if ctx.thorough { 4 } else { 3 })] {
    let n = al.len() as u64;
    let block = if depth > 4 { n * n } else { n };
    let word = |k: u64| -> Vec<M> {
        let mut k = k;
        let mut w = vec![al[0]; depth];
        for d in (0..depth).rev() {
            w[d] = al[(k % n) as usize];
            k /= n;
        }
        w
    };
    let desc = |u: u64, s: u64| format!("history {:?}", word(u * block + s));
    pool.recycle = 2;
    if sample.is_empty() {
        sample = format!("{:?}", word(12345));
    }
    done = done && pool.run(n.pow(depth as u32) / block, 1, &desc, |p, u| {
        let mut memo: std::collections::HashSet<Vec<u64>> = Default::default();
        for k in 0..block {
            p.sub(k);
            let w = word(u * block + k);
            // (model and memory, regions, page size); the last one is the current one
            let mut ms: Vec<(Sys, [usize; 3], usize)> = vec![];
            let mut old: Vec<Sys> = vec![];
            let r = quiet(|| -> Result<(), String> {
                let new = |dflt: bool| {
                    let mut s = Sys::made("C12", dflt);
                    let (b, ps) = bases(&mut s.jit);
                    (s, b, ps)
                };
                ms.push(new(false));
                let mut key = vec![];
                for (d, m) in w.iter().enumerate() {
                    match *m {
                        M::O(h) => {
                            if !ms.last_mut().unwrap().0.step(h) {
                                return Ok(());
                            }
                        }
                        M::New => ms.push(new(false)),
                        M::Dflt => ms.push(new(true)),
                        M::Swap => {
                            let x = ms.len();
                            if x < 2 {
                                return Ok(());
                            }
                            ms.swap(x - 1, x - 2);
                        }
                        M::Drop => {
                            if ms.len() < 2 {
                                return Ok(());
                            }
                            let x = ms.remove(0);
                            drop(x);
                        }
                        M::Bad(n) => refuse(&mut ms.last_mut().unwrap().0.jit, n)?,
                    }
                    p.add(2, 1);
                    key.push(u * block + k);
                    // states shared with the previous history of the block were judged then
                    let mut id: Vec<u64> = vec![d as u64];
                    let mut rest = u * block + k;
                    for _ in d + 1..depth {
                        rest /= n;
                    }
                    id.push(rest);
                    if memo.insert(id) {
                        for (s, b, ps) in &ms {
                            p.add(3, 1);
                            let mut f = Fp::default();
                            f.u(s.print());
                            f.u(ms.len() as u64);
                            p.state(f.0);
                            judge(b, *ps).map_err(|t| format!("after {:?}: {}", &w[..d + 1], t))?;
                        }
                    }
                }
                p.add(4, 1);
                Ok(())
            });
            for (s, _, _) in ms.iter_mut() {
                s.release();
            }
            old.extend(ms.into_iter().map(|x| x.0));
            if let Ok(Err(t)) = r {
                p.violate("protection", &t);
                return;
            }
            if p.stopped() {
                return;
            }
        }
    });
    }
    // many memories alive at once, made and used one after another
    if done {
        done = pool.run(2, 1, &|u, k| format!("{} memories alive (made by {})", k, ["new()", "default()"][u as usize]), |p, u| {
            let mut v: Vec<(JitMemory, [usize; 3], usize)> = vec![];
            for k in 0..if ctx.thorough { 300u64 } else { 140 } {
                p.sub(k + 1);
                let mut j = if u == 0 { JitMemory::new() } else { JitMemory::default() };
                let (b, ps) = bases(&mut j);
                j.select_page(k as usize % 2);
                j.emitb(0xc3);
                j.data_i64(5);
                j.finalize();
                v.push((j, b, ps));
                for (m, (_, b, ps)) in v.iter().enumerate() {
                    p.add(3, 1);
                    if let Err(t) = judge(b, *ps) {
                        return p.violate("protection", &format!("memory {} of {}: {}", m, v.len(), t));
                    }
                }
                p.add(2, 5);
            }
        });
    }
    // page numbers that must be refused, from every selection and after every first operation
    let mut bad: Vec<usize> = (2..=1024).collect();
    for b in 10..64 {
        for d in [0usize, 1, 2] {
            bad.push((1usize << b) + d);
        }
    }
    bad.extend([usize::MAX, usize::MAX - 1, usize::MAX - 2]);
    if done {
        done = pool.run(bad.len() as u64, 16, &|u, _| format!("select_page({})", bad[u as usize]), |p, u| {
            let x = bad[u as usize];
            for page in 0..2 {
                let mut j = JitMemory::new();
                let (b, ps) = bases(&mut j);
                j.select_page(page);
                p.add(2, 1);
                let r = refuse(&mut j, x).and_then(|_| judge(&b, ps));
                p.add(5, 1);
                if let Err(t) = r {
                    p.violate("selection", &t);
                    return;
                }
            }
        });
    }
    if done {
        done = creation_faults(&mut pool, ctx.thorough);
    }
    // fetch and store probes on memories created one after another, fresh and filled
    let probes = 6u64;
    pool.recycle = 1;
    if done {
        done = pool.run(probes, 1, &|u, _| format!("probe {}", u), |p, u| {
            let many = (u as usize % 3) * 2 + 1; // 1, 3, 5 memories
            let fill = u >= 3;
            let mut v: Vec<JitMemory> = (0..many).map(|_| JitMemory::new()).collect();
            for (k, j) in v.iter_mut().enumerate() {
                let (b, ps) = bases(j);
                if fill && k == many - 1 {
                    for q in 0..3 {
                        for _ in 0..ps / 4096 {
                            j[Page(q)].emitb(0xc3);
                            j[Page(q)].align_page();
                        }
                        if let Err(t) = judge(&b, ps) {
                            return p.violate("protection", &format!("memory {} of {} with region {} filled: {}", k, many, q, t));
                        }
                    }
                    j.finalize();
                }
                if let Err(t) = judge(&b, ps) {
                    return p.violate("protection", &format!("memory {} of {}{}: {}", k, many, if fill { " (filled)" } else { "" }, t));
                }
                let step = if k == many - 1 { 4096 } else { 1 << 20 };
                for q in 0..3 {
                    let txt = || format!("memory {} of {}: store{} probes in region {}", k, many, if q < 2 { " and fetch" } else { "" }, q);
                    forked(p, &txt, || {
                        let mut a = 0;
                        while a < ps {
                            for o in [0, 4095] {
                                let x = (b[q] + a + o) as *mut u8;
                                unsafe {
                                    x.write_volatile(0xc3);
                                    if x.read_volatile() != 0xc3 {
                                        return Err("a store is not read back".into());
                                    }
                                    if q < 2 {
                                        let f: extern "C" fn() = std::mem::transmute(x);
                                        f();
                                    }
                                }
                                p.add(2, 1);
                                p.add(6, 1);
                            }
                            a += step;
                        }
                        Ok(())
                    });
                    if q == 2 {
                        for a in [0, 1, 4095, 4096, ps / 2, ps - 4096, ps - 1] {
                            let pid = unsafe { libc::fork() };
                            if pid == 0 {
                                unsafe {
                                    let x = (b[2] + a) as *mut u8;
                                    x.write_volatile(0xc3);
                                    for s in [libc::SIGSEGV, libc::SIGBUS] {
                                        libc::signal(s, libc::SIG_DFL);
                                    }
                                    let f: extern "C" fn() = std::mem::transmute(x);
                                    f();
                                    libc::_exit(0);
                                }
                            }
                            let mut st = 0;
                            unsafe { libc::waitpid(pid, &mut st, 0) };
                            p.add(6, 1);
                            if !libc::WIFSIGNALED(st) {
                                return p.violate("execution", &format!("memory {} of {}: the byte {:#x} of the data region was executed", k, many, a));
                            }
                        }
                    }
                }
            }
        });
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"protection_maps_judged\": {},\n  \"refused_page_numbers_tried\": {},\n  \"fetch_store_probes\": {},\n  \"creations_under_faults\": {{\"created\": {}, \"refused\": {}}},\n  \"bounds\": \"all histories of depth {} over {} operations on up to {} memories, and of depth {} over {} large operations; up to 140 memories at once; all page numbers 2..1024 and around every power of two; creation under every pattern of failing mprotect calls and 45 address-space limits; probes in every 4 KB page\",\n  \"profile\": {},\n  \"state_meaning\": \"distinct model states whose protections were judged\",\n  \"transition_meaning\": \"operations executed and probes made\",\n  \"validation\": \"protections are the kernel's, for the real memory after the real operations\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), pool.get(4), pool.get(3), pool.get(5), pool.get(6), pool.get(7), pool.get(8), if ctx.thorough { 6 } else { 5 }, al.len(), if ctx.thorough { 7 } else { 6 }, if ctx.thorough { 4 } else { 3 }, big.len(), js(&std::env::var("MC_PROFILE").unwrap_or_default()), js(&sample)
    );
    ctx.finish("model_checking", &cov, &["/proc/self/maps reports the protection in force", "a panic in a valid operation is another property's matter"], &pool, done)
}

/// stand-in for the system's mprotect: the calls whose bit is set in FAULTS fail
static FAULTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static ERRNO: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut libc::c_void, n: usize, p: i32) -> i32 {
    use std::sync::atomic::Ordering::SeqCst;
    let k = CALLS.fetch_add(1, SeqCst);
    if FAULTS.load(SeqCst) >> k.min(63) & 1 == 1 {
        *libc::__errno_location() = ERRNO.load(SeqCst);
        return -1;
    }
    libc::syscall(libc::SYS_mprotect, a, n, p) as i32
}

/// creation under every pattern of failing mprotect calls and under address-space limits:
/// either no memory is created or its protections are right
fn creation_faults(pool: &mut Pool, thorough: bool) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    let bits = if thorough { 8 } else { 6 };
    let lim: Vec<u64> = (0..=44).map(|k| k * 48).collect();
    let cases: Vec<(u64, i32, u64, usize, bool)> = (0..1u64 << bits)
        .flat_map(|m| [libc::EACCES, libc::ENOMEM].into_iter().flat_map(move |e| (0..2).map(move |n| (m, e, u64::MAX, n, false))))
        .chain(lim.iter().flat_map(|l| (0..2).map(move |n| (0, 0, *l, n, false))))
        .flat_map(|c| [c, (c.0, c.1, c.2, c.3, true)])
        .collect();
    let desc = |u: u64, _: u64| {
        let c = cases[u as usize];
        if c.2 == u64::MAX {
            format!("creation of a memory with {} others alive, mprotect calls failing: {:#b}", c.3, c.0)
        } else {
            format!("creation of a memory with {} others alive and {} MB of address space left", c.3, c.2)
        }
    };
    pool.recycle = 50;
    pool.run(cases.len() as u64, 4, &desc, |p, u| {
        let (mask, errno, mb, others, dflt) = cases[u as usize];
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("harness: fork failed");
            unsafe { libc::_exit(3) };
        }
        if pid == 0 {
            unsafe {
                libc::alarm(60);
                let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &no);
            }
            let _keep: Vec<JitMemory> = (0..others).map(|_| JitMemory::new()).collect();
            if mb != u64::MAX {
                let t = std::fs::read_to_string("/proc/self/statm").unwrap();
                let now: u64 = t.split_whitespace().next().unwrap().parse::<u64>().unwrap() * 4096;
                let l = libc::rlimit { rlim_cur: now + (mb << 20), rlim_max: libc::RLIM_INFINITY };
                unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
            }
            CALLS.store(0, SeqCst);
            ERRNO.store(errno, SeqCst);
            FAULTS.store(mask, SeqCst);
            let r = quiet(|| if dflt { JitMemory::default() } else { JitMemory::new() });
            FAULTS.store(0, SeqCst);
            unsafe { libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY }) };
            p.add(2, 1);
            match r {
                Ok(mut j) => {
                    let (b, ps) = bases(&mut j);
                    p.add(7, 1);
                    if let Err(t) = judge(&b, ps) {
                        p.violate("creation", &format!("{}: a memory was created, but {}", desc(u, 0), t));
                    }
                }
                Err(()) => p.add(8, 1),
            }
            unsafe { libc::_exit(0) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGABRT {
            p.violate("crash", &format!("{}\nthe process was killed by signal {}", desc(u, 0), libc::WTERMSIG(st)));
        }
    })
}

fn refuse(j: &mut JitMemory, n: usize) -> Result<(), String> {
    let (p, c, a) = (j.get_page(), j.get_current(), j.get_current_address().as_ptr() as usize);
    if quiet(|| j.select_page(n)).is_ok() {
        return Err(format!("select_page({}) was accepted", n));
    }
    if (j.get_page(), j.get_current(), j.get_current_address().as_ptr() as usize) != (p, c, a) {
        return Err(format!("the refused select_page({}) changed the selection", n));
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::from_env();
    match &ctx.prop[..] {
        "C10" => c10(&ctx),
        _ => c12(&ctx),
    }
}
