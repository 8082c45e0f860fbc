//! Work pool of forked children.  Exploration units are numbered; children draw
//! numbers from shared memory, so a child that dies (the generated code may do
//! anything) or hangs is attributed to the unit it was executing.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const NCNT: usize = 48;
const TXT: usize = 1 << 16;
const NW: usize = 64;

#[repr(C)]
pub struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    pub cnt: [AtomicU64; NCNT],
    cur: [AtomicU64; NW],
    cur_sub: [AtomicU64; NW],
    vio: AtomicU32,
    vio_unit: AtomicU64,
    vio_len: AtomicU32,
    vio_txt: [u8; TXT],
    vio_key: [u8; 256],
    known_hits: [AtomicU64; 64],
    set_len: usize,
    set: *mut AtomicU64,
}

pub fn mmap_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("harness: mmap failed");
            std::process::exit(2);
        }
        p as *mut u8
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: u64,
    pub key: String,
    pub text: String,
}

pub struct Pool {
    pub sh: &'static Shared,
    pub known: Vec<String>,
    pub workers: usize,
    /// units a child may execute before it is replaced (bounds leaked mappings)
    pub recycle: u64,
    pub hang_secs: u64,
    pub seccomp: bool,
    pub keep_going: bool,
    wid: usize,
}

impl Pool {
    pub fn new(states_log2: u32) -> Pool {
        let sh = unsafe { &mut *(mmap_shared(std::mem::size_of::<Shared>()) as *mut Shared) };
        let n = 1usize << states_log2;
        sh.set_len = n;
        sh.set = mmap_shared(n * 8) as *mut AtomicU64;
        Pool { sh, known: vec![], workers: 8, recycle: 2000, hang_secs: 120, seccomp: false, keep_going: false, wid: 0 }
    }
    pub fn add(&self, k: usize, n: u64) {
        self.sh.cnt[k].fetch_add(n, Relaxed);
    }
    pub fn get(&self, k: usize) -> u64 {
        self.sh.cnt[k].load(Relaxed)
    }
    /// record a state fingerprint; true if new
    pub fn state(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let n = self.sh.set_len;
        if self.get(0) as usize > n / 8 * 7 {
            return false; // table full: the number reported is a lower bound
        }
        let mut p = (h as usize).wrapping_mul(0x9E37_79B9_7F4A_7C15usize) >> 20 & (n - 1);
        let set = unsafe { std::slice::from_raw_parts(self.sh.set, n) };
        for _ in 0..256 {
            let v = set[p].load(Relaxed);
            if v == h {
                return false;
            }
            if v == 0 {
                match set[p].compare_exchange(0, h, Relaxed, Relaxed) {
                    Ok(_) => {
                        self.add(0, 1);
                        return true;
                    }
                    Err(x) if x == h => return false,
                    _ => {}
                }
            }
            p = (p + 1) & (n - 1);
        }
        // table saturated: count nothing (the number reported is a lower bound)
        false
    }
    pub fn states(&self) -> u64 {
        self.get(0)
    }
    /// sub-position inside a unit, reported if the child dies
    pub fn sub(&self, s: u64) {
        self.sh.cur_sub[self.wid].store(s, Relaxed);
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
    fn record(&self, unit: u64, key: &str, text: &str) {
        if let Some(k) = self.known.iter().position(|x| x == key) {
            self.sh.known_hits[k.min(63)].fetch_add(1, Relaxed);
            return;
        }
        if self.sh.vio.compare_exchange(0, 1, AcqRel, Acquire).is_ok() {
            let b = text.as_bytes();
            let n = b.len().min(TXT);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.sh.vio_txt.as_ptr() as *mut u8, n);
                let kb = key.as_bytes();
                let kn = kb.len().min(255);
                std::ptr::copy_nonoverlapping(kb.as_ptr(), self.sh.vio_key.as_ptr() as *mut u8, kn);
                *(self.sh.vio_key.as_ptr() as *mut u8).add(kn) = 0;
            }
            self.sh.vio_unit.store(unit, Release);
            self.sh.vio_len.store(n as u32, Release);
            self.sh.vio.store(2, Release);
            if !self.keep_going {
                self.sh.stop.store(true, Release);
            }
        }
    }
    /// report a violation found while executing the current unit
    pub fn violate(&self, key: &str, text: &str) {
        let u = self.sh.cur[self.wid].load(Relaxed);
        self.record(u.wrapping_sub(1), key, text);
    }
    pub fn known_hit(&self, k: usize) -> u64 {
        self.sh.known_hits[k.min(63)].load(Relaxed)
    }
    pub fn violation(&self) -> Option<Violation> {
        if self.sh.vio.load(Acquire) != 2 {
            return None;
        }
        let n = self.sh.vio_len.load(Acquire) as usize;
        let kl = self.sh.vio_key.iter().position(|&b| b == 0).unwrap_or(0);
        Some(Violation {
            unit: self.sh.vio_unit.load(Acquire),
            key: String::from_utf8_lossy(&self.sh.vio_key[..kl]).into_owned(),
            text: String::from_utf8_lossy(&self.sh.vio_txt[..n]).into_owned(),
        })
    }
    /// size of this process' address space in pages
    fn pages(&self, statm: i32) -> u64 {
        let mut b = [0u8; 64];
        let n = unsafe { libc::pread(statm, b.as_mut_ptr() as *mut _, 64, 0) };
        let pages = b[..n.max(0) as usize].iter().take_while(|c| c.is_ascii_digit()).fold(0u64, |a, c| a * 10 + (c - b'0') as u64);
        self.sh.cnt[NCNT - 1].fetch_max(pages >> 18, Relaxed);
        pages
    }
    /// true while the address space of this child has grown by less than 3 TB (some 4000 memories)
    fn room(&self, statm: i32, base: u64) -> bool {
        self.pages(statm) < base + (3 << 28)
    }
    /// Explore units 0..total.  `f` runs in a child.  Returns true when every
    /// unit was executed (no violation, no early stop).
    pub fn run<F: Fn(&Pool, u64)>(&mut self, total: u64, chunk: u64, describe: &dyn Fn(u64, u64) -> String, f: F) -> bool {
        if self.stopped() {
            return false;
        }
        self.sh.next.store(0, Release);
        let nw = self.workers.min(NW);
        let mut pids = vec![0i32; nw];
        let mut last: Vec<(u64, u64, std::time::Instant)> = vec![(0, 0, std::time::Instant::now()); nw];
        loop {
            let mut live = 0;
            for k in 0..nw {
                if pids[k] == 0 && !self.stopped() && self.sh.next.load(Acquire) < total {
                    self.sh.cur[k].store(0, Release);
                    self.sh.cur_sub[k].store(0, Release);
                    let pid = unsafe { libc::fork() };
                    if pid < 0 {
                        eprintln!("harness: fork failed");
                        std::process::exit(2);
                    }
                    if pid == 0 {
                        self.wid = k;
                        unsafe {
                            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                            libc::setrlimit(libc::RLIMIT_CORE, &lim);
                        }
                        std::panic::set_hook(Box::new(|_| {}));
                        let statm = unsafe { libc::open(c"/proc/self/statm".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC) };
                        if self.seccomp {
                            seccomp();
                        }
                        let base = self.pages(statm);
                        let mut done = 0;
                        // memories are never unmapped: a child gives way to a fresh one long
                        // before the kernel's limit on mappings is near
                        'o: while done < self.recycle && !self.stopped() && (done == 0 || self.room(statm, base)) {
                            let s = self.sh.next.fetch_add(chunk, AcqRel);
                            if s >= total {
                                break;
                            }
                            for u in s..(s + chunk).min(total) {
                                self.sh.cur[k].store(u + 1, Release);
                                self.sh.cur_sub[k].store(0, Relaxed);
                                f(self, u);
                                done += 1;
                                self.sh.cnt[1].fetch_add(1, Relaxed);
                                if self.stopped() {
                                    break 'o;
                                }
                            }
                        }
                        self.sh.cur[k].store(0, Release);
                        unsafe { libc::_exit(0) };
                    }
                    pids[k] = pid;
                    last[k] = (0, 0, std::time::Instant::now());
                }
                if pids[k] != 0 {
                    let mut st = 0;
                    let r = unsafe { libc::waitpid(pids[k], &mut st, libc::WNOHANG) };
                    let cu = self.sh.cur[k].load(Acquire);
                    let cs = self.sh.cur_sub[k].load(Acquire);
                    if r == pids[k] {
                        pids[k] = 0;
                        let bad = if libc::WIFSIGNALED(st) {
                            Some(format!("killed by signal {}", libc::WTERMSIG(st)))
                        } else if libc::WEXITSTATUS(st) != 0 {
                            Some(format!("exited with status {}", libc::WEXITSTATUS(st)))
                        } else if cu != 0 && !self.stopped() {
                            Some("exited in the middle of a case".to_string())
                        } else {
                            None
                        };
                        if let Some(b) = bad {
                            if cu == 0 {
                                eprintln!("harness: worker {} outside any case", b);
                                std::process::exit(2);
                            }
                            self.record(cu - 1, "crash", &format!("process {} while executing\n{}", b, describe(cu - 1, cs)));
                        }
                    } else {
                        live += 1;
                        if (cu, cs) != (last[k].0, last[k].1) {
                            last[k] = (cu, cs, std::time::Instant::now());
                        } else if cu != 0 && last[k].2.elapsed().as_secs() > self.hang_secs {
                            unsafe { libc::kill(pids[k], libc::SIGKILL) };
                            let mut st = 0;
                            unsafe { libc::waitpid(pids[k], &mut st, 0) };
                            pids[k] = 0;
                            self.record(cu - 1, "hang", &format!("no progress while executing\n{}", describe(cu - 1, cs)));
                        }
                    }
                }
            }
            if live == 0 && (self.stopped() || self.sh.next.load(Acquire) >= total) && pids.iter().all(|p| *p == 0) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
        !self.stopped()
    }
}

/// Allow only what the harness itself needs; everything else fails with EPERM,
/// so mis-generated code cannot touch the system.
pub fn seccomp() {
    let allow: &[i64] = &[
        libc::SYS_read, libc::SYS_pread64, libc::SYS_write, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mprotect, libc::SYS_brk,
        libc::SYS_madvise, libc::SYS_mremap, libc::SYS_futex, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigaction,
        libc::SYS_rt_sigreturn, libc::SYS_sigaltstack, libc::SYS_exit, libc::SYS_exit_group, libc::SYS_sched_yield,
        libc::SYS_clock_gettime, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_tgkill, libc::SYS_getppid,
    ];
    #[repr(C)]
    struct F {
        code: u16,
        jt: u8,
        jf: u8,
        k: u32,
    }
    #[repr(C)]
    struct P {
        len: u16,
        f: *const F,
    }
    let mut v = vec![F { code: 0x20, jt: 0, jf: 0, k: 0 }];
    let n = allow.len();
    for (i, s) in allow.iter().enumerate() {
        v.push(F { code: 0x15, jt: (n - i) as u8, jf: 0, k: *s as u32 });
    }
    v.push(F { code: 0x06, jt: 0, jf: 0, k: 0x0005_0000 | 1 });
    v.push(F { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
    let p = P { len: v.len() as u16, f: v.as_ptr() };
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const P);
    }
}

/// FNV-1a
#[derive(Clone, Copy)]
pub struct Fp(pub u64);
impl Default for Fp {
    fn default() -> Self {
        Fp(0xcbf29ce484222325)
    }
}
impl Fp {
    pub fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
    }
    pub fn u(&mut self, x: u64) {
        for k in 0..8 {
            self.b((x >> (8 * k)) as u8);
        }
    }
    pub fn s(&mut self, x: &[u8]) {
        for b in x {
            self.b(*b);
        }
    }
}
