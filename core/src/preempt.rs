//! Preemption inside an operation: thread A executes one operation on its memory under
//! the processor's single-step trap; before instruction k of it (for every k) thread B
//! executes a whole operation on its own memory.  Both must behave as when alone.
use crate::hist::quiet;
use crate::pool::*;
use monoasm::*;
use monoasm_macro::monoasm;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

static STEP: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(0);
/// 0 B prepares, 1 B ready, 2 B may run its operation, 3 it has, 4 B may finish
static PHASE: AtomicU32 = AtomicU32::new(0);
static mut TEXT: (usize, usize) = (0, 0);
const MAXN: usize = 1 << 16;
static mut OURS: [bool; MAXN] = [false; MAXN];

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
/// wait for a phase; a limit of 0 waits for ever
fn until(p: u32, limit_ms: u64) -> bool {
    let t0 = now();
    for _ in 0..100 {
        if PHASE.load(Acquire) >= p {
            return true;
        }
        std::hint::spin_loop();
    }
    loop {
        let v = PHASE.load(Acquire);
        if v >= p {
            return true;
        }
        if limit_ms > 0 && now() - t0 > limit_ms * 1_000_000 {
            return false;
        }
        let t = libc::timespec { tv_sec: 0, tv_nsec: 2_000_000 };
        unsafe { libc::syscall(libc::SYS_futex, PHASE.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, &t) };
    }
}
fn phase(p: u32) {
    PHASE.fetch_max(p, AcqRel);
    unsafe { libc::syscall(libc::SYS_futex, PHASE.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 8) };
}

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, cx: *mut libc::c_void) {
    let uc = unsafe { &mut *(cx as *mut libc::ucontext_t) };
    let n = STEP.fetch_add(1, Relaxed) + 1;
    let t = TARGET.load(Relaxed);
    if t == 0 {
        let pc = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        unsafe {
            if (n as usize) < MAXN {
                OURS[n as usize] = pc >= TEXT.0 && pc < TEXT.1;
            }
        }
    } else if n >= t {
        if n == t {
            phase(2);
            // B may need a lock A holds: then A goes on
            until(3, 10);
        }
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        // the executable's own text
        let m = std::fs::read_to_string("/proc/self/maps").unwrap();
        let here = trap as *const () as usize;
        for l in m.lines() {
            let r = l.split(' ').next().unwrap();
            let (a, b) = r.split_once('-').unwrap();
            let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
            if a <= here && here < b {
                TEXT = (a, b);
            }
        }
    }
}

#[inline(never)]
fn stepped(f: &mut dyn FnMut()) {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
}

pub struct St {
    j: Option<JitMemory>,
    labs: Vec<DestLabel>,
    bound: Vec<bool>,
    jmp: Option<DestLabel>,
    base: usize,
    out: Vec<u64>,
}
unsafe impl Send for St {}

pub const OPS: [&str; 21] = [
    "label", "bind_label", "jmp label", "an instruction", "const_i64", "data_i64", "select_page", "finalize", "apply_jmp_patch", "get_label_address", "align16",
    "constant(40)", "data(40)", "abs_address", "emit(slice)", "as_slice and include", "const_f64 and const_i32", "new", "drop", "a memory's whole life", "one of each operation",
];
pub const STATES: [&str; 3] = ["new", "before finalize, page 1", "after finalize"];

impl St {
    fn base(j: &JitMemory) -> usize {
        j.get_current_address().as_ptr() as usize - j.get_current()
    }
    fn lab(&mut self) -> DestLabel {
        let l = self.j.as_mut().unwrap().label();
        self.labs.push(l);
        self.bound.push(false);
        l
    }
    pub fn make(v: usize) -> St {
        let j = JitMemory::new();
        let base = St::base(&j);
        let mut s = St { j: Some(j), labs: Vec::with_capacity(64), bound: Vec::with_capacity(64), jmp: None, base, out: Vec::with_capacity(256) };
        for _ in 0..3 + 2 * v {
            s.lab();
        }
        if v == 0 {
            return s;
        }
        let (l0, l1, l2) = (s.labs[0], s.labs[1], s.labs[2]);
        let p = s.lab();
        s.jmp = Some(p);
        *s.bound.last_mut().unwrap() = true;
        let j = s.j.as_mut().unwrap();
        j.emit(&[0x90; 3]);
        j.bind_label(p);
        monoasm!(&mut *j, jmp l0; movq rax, [rip + l1];);
        j.const_i64(0x1111 * v as i64);
        j.select_page(1);
        monoasm!(&mut *j, l0: lea rcx, [rip + l2]; jmp l1; addq [r13 + 8], 5;);
        s.bound[0] = true;
        let d = j.data_i32(0x2222 * v as i32);
        j.abs_address(d);
        if v == 2 {
            j.bind_label(l1);
            s.bound[1] = true;
            j.finalize();
            j.select_page(0);
            monoasm!(&mut *j, call l2; movl [rip + l2], 7;);
            j.const_i32(9);
        }
        s
    }
    pub fn op(&mut self, k: usize) {
        if k == 20 {
            for k in [0, 2, 4, 13, 1, 3, 5, 10, 16, 6, 7, 8, 9, 14, 15, 11, 6, 12, 2] {
                self.op(k);
            }
            return;
        }
        let mut out = std::mem::take(&mut self.out);
        let base = self.base;
        match k {
            17 => {
                let mut m = JitMemory::new();
                let l = m.label();
                out.push(l.to_usize() as u64);
                out.push(m.get_current() as u64);
                m.emitb(7);
                out.push(m.as_slice().len() as u64);
                drop(m);
            }
            19 => {
                let mut m = JitMemory::new();
                let b = St::base(&m);
                let l = m.label();
                let e = m.label();
                monoasm!(&mut m, e: movq rax, [rip + l]; ret; l:);
                let c = m.const_i64(5);
                m.finalize();
                out.push(m.get_label_u64(c) - b as u64);
                out.push(m.get_label_u64(e) - b as u64);
                out.push(m.get_current() as u64);
                out.extend(m.as_slice().iter().map(|x| *x as u64));
                drop(m);
            }
            18 => drop(self.j.take()),
            _ => {
                let l = *self.labs.last().unwrap();
                let jmp = self.jmp;
                let free = self.bound.iter().position(|b| !b);
                let j = match self.j.as_mut() {
                    Some(j) => j,
                    None => {
                        self.out = out;
                        return;
                    }
                };
                match k {
                    0 => {
                        let l = j.label();
                        out.push(l.to_usize() as u64);
                        self.labs.push(l);
                        self.bound.push(false);
                    }
                    1 => {
                        if let Some(f) = free {
                            j.bind_label(self.labs[f]);
                            self.bound[f] = true;
                        }
                    }
                    2 => monoasm!(&mut *j, jmp l;),
                    3 => monoasm!(&mut *j, movq [r13 + R(9) * 4 - 300], 0x12345;),
                    4 => out.push(j.const_i64(0x7172737475767778).to_usize() as u64),
                    5 => out.push(j.data_i64(0x6162636465666768).to_usize() as u64),
                    6 => {
                        let p = 1 - j.get_page();
                        j.select_page(p);
                        out.push(j.get_page() as u64);
                    }
                    7 => j.finalize(),
                    8 => {
                        if let (Some(p), Some(d)) = (jmp, self.bound.get(1)) {
                            if *d {
                                j.apply_jmp_patch(p, self.labs[1]);
                            }
                        }
                    }
                    9 => {
                        if let Some(p) = jmp {
                            out.push(j.get_label_address(p).as_ptr() as u64 - base as u64);
                        }
                    }
                    10 => {
                        j.align16();
                        out.push(j.get_current() as u64);
                    }
                    11 => out.push(j.constant(40).to_usize() as u64),
                    12 => out.push(j.data(40).to_usize() as u64),
                    13 => out.push(j.abs_address(l).to_usize() as u64),
                    14 => j.emit(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
                    15 => {
                        out.push(j.as_slice().len() as u64);
                        out.push(j.include(base as *mut u8) as u64);
                        out.push(j.get_current() as u64);
                    }
                    _ => {
                        out.push(j.const_f64(1.25).to_usize() as u64);
                        out.push(j.const_i32(77).to_usize() as u64);
                    }
                }
            }
        }
        self.out = out;
    }
    /// bind what is free, finalize, and note everything observable relative to the memory's base
    pub fn finish(&mut self) -> Vec<u64> {
        let mut o = std::mem::take(&mut self.out);
        let base = self.base;
        if let Some(j) = self.j.as_mut() {
            o.push(j.get_page() as u64);
            for k in 0..self.labs.len() {
                if !self.bound[k] {
                    j.bind_label(self.labs[k]);
                    j.emitb(0xc3);
                }
            }
            j.finalize();
            j.finalize();
            let d = j.label();
            j.bind_label_with_page(Page(2), d);
            o.push(d.to_usize() as u64);
            let mut at = vec![];
            for p in 0..2 {
                j.select_page(p);
                o.push(j.get_current() as u64);
                o.push(j.as_slice().len() as u64);
                at.push((St::base(j), j.get_current().min(400)));
            }
            let d = j.get_label_address(d).as_ptr() as usize & !15;
            let size = at[1].0.wrapping_sub(at[0].0);
            let dp = d.wrapping_sub(base) % size.max(1);
            at.push((d - dp.min(d), dp.min(400)));
            for l in &self.labs {
                o.push((j.get_label_address(*l).as_ptr() as usize).wrapping_sub(base) as u64);
            }
            for (a, n) in at {
                o.push(a.wrapping_sub(base) as u64);
                for k in (0..n).step_by(8) {
                    let v = unsafe { std::ptr::read_unaligned((a + k) as *const u64) };
                    let r = v.wrapping_sub(base as u64);
                    o.push(if r < 3 * size as u64 { r ^ 1 << 63 } else { v });
                }
                unsafe { libc::madvise(a as *mut _, 4096, libc::MADV_DONTNEED) };
            }
        }
        self.j = None;
        o
    }
}

/// what one memory shows when nothing else happens
pub fn solo(v: usize, op: usize) -> Option<Vec<u64>> {
    quiet(|| {
        let mut s = St::make(v);
        s.op(op);
        s.finish()
    })
    .ok()
}

/// A and B's observations when B's operation is put before instruction `k` of A's
/// (k = 0: count A's instructions instead); None for a refused operation
pub fn run(a: (usize, usize), b: (usize, usize), k: u64) -> (Option<Vec<u64>>, Option<Vec<u64>>, u64, bool) {
    PHASE.store(0, Release);
    let h = std::thread::spawn(move || {
        let s = quiet(|| St::make(b.0));
        phase(1);
        until(2, 0);
        let s = s.and_then(|mut s| {
            quiet(|| {
                s.op(b.1);
                s
            })
        });
        phase(3);
        until(4, 0);
        s.and_then(|mut s| quiet(|| s.finish())).ok()
    });
    let sa = quiet(|| St::make(a.0));
    until(1, 0);
    STEP.store(0, Release);
    TARGET.store(k, Release);
    let sa = sa.and_then(|mut s| {
        quiet(|| {
            stepped(&mut || s.op(a.1));
            s
        })
    });
    // a panic leaves the trap on
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    let n = STEP.load(Acquire);
    let inside = PHASE.load(Acquire) == 3;
    phase(2);
    until(3, 0);
    // B's observations first when the preemption point is odd
    let (ra, rb);
    if k & 1 == 1 {
        phase(4);
        rb = h.join().unwrap_or(None);
        ra = sa.and_then(|mut s| quiet(|| s.finish())).ok();
    } else {
        ra = sa.and_then(|mut s| quiet(|| s.finish())).ok();
        phase(4);
        rb = h.join().unwrap_or(None);
    }
    (ra, rb, n, inside)
}

/// the preemption points of A's operation: its instructions outside the system libraries
pub fn points(a: (usize, usize), b: (usize, usize)) -> Vec<u64> {
    let (_, _, n, _) = run(a, b, 0);
    (1..=n.min(MAXN as u64 - 1)).filter(|k| unsafe { OURS[*k as usize] }).collect()
}

pub fn explore(pool: &mut Pool, t: bool) -> (bool, String) {
    let n = OPS.len();
    let mut units = vec![];
    for (va, vb) in [(1, 2), (2, 1), (0, 1)] {
        for a in 0..n {
            for b in 0..n {
                // quick: the interrupting operation is the same one, a memory's life, or one of each
                if t || (a < 19 && (b == a || b >= 19)) {
                    units.push(((va, a), (vb, b)));
                }
            }
        }
    }
    let (r0, s0) = (pool.get(3), pool.get(6));
    let desc = |u: u64, s: u64| {
        let ((va, a), (vb, b)) = units[u as usize];
        format!("memory 0 ({}): {}, interrupted before instruction {} by memory 1 ({}) on another thread: {}", STATES[va], OPS[a], s, STATES[vb], OPS[b])
    };
    pool.recycle = 4;
    let done = pool.run(units.len() as u64, 1, &desc, |p, u| {
        let (a, b) = units[u as usize];
        install();
        let (sa, sb) = (solo(a.0, a.1), solo(b.0, b.1));
        if sa != solo(a.0, a.1) || sb != solo(b.0, b.1) {
            p.violate("repetition", &format!("{}\n a memory behaves differently when the same happens again", desc(u, 0)));
            return;
        }
        for k in points(a, b) {
            p.sub(k);
            let (ra, rb, _, inside) = run(a, b, k);
            p.add(3, 1);
            p.add(2, 2);
            p.add(6, inside as u64);
            for (who, r, s) in [(0, &ra, &sa), (1, &rb, &sb)] {
                if r != s {
                    let what = match (r, s) {
                        (None, Some(_)) => "panics".into(),
                        (Some(_), None) => "is accepted where it panics alone".into(),
                        (Some(r), Some(s)) => {
                            let d = (0..r.len().max(s.len())).find(|x| r.get(*x) != s.get(*x)).unwrap();
                            format!("shows {:x?} instead of {:x?} (observation {} of {})", r.get(d), s.get(d), d, s.len())
                        }
                        _ => String::new(),
                    };
                    p.violate("preemption", &format!("{}\n memory {} {}", desc(u, k), who, what));
                    return;
                }
            }
        }
    });
    (done, format!("an operation interrupted before each of its instructions by one on another thread ({} pairs of operations and states): {} schedules, {} with the second operation entirely inside the first", units.len(), pool.get(3) - r0, pool.get(6) - s0))
}
