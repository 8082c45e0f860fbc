//! Dumps taken at the same time, and dumps that meet a fault.  The objdump that
//! dump_code starts is a stand-in found first in PATH: it stops before and after the
//! real objdump, so that two dumps (write the file, disassemble, read and clean up)
//! can be put in each of the 20 orders of their three phases.
use crate::hist::quiet;
use crate::pool::*;
use monoasm::*;
use monoasm_macro::monoasm;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn real() -> Option<PathBuf> {
    std::env::var("PATH").unwrap_or_default().split(':').map(|d| Path::new(d).join("objdump")).find(|p| p.exists())
}

/// a scratch directory with the stand-in; returns it
fn stage(dir: &Path, real: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    for d in ["bin", "gate", "tmp"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    let g = dir.join("gate");
    let txt = format!(
        "#!/bin/bash\nG={}\nn=1\nwhile ! mkdir \"$G/inv$n\" 2>/dev/null; do n=$((n+1)); [ $n -gt 9 ] && exit 9; done\n: > \"$G/r$n.1\"\nt=0; while [ ! -e \"$G/g$n.1\" ] && [ $t -lt 4000 ]; do sleep 0.002; t=$((t+1)); done\n{} \"$@\" > \"$G/o$n\" 2>/dev/null; rc=$?\n: > \"$G/r$n.2\"\nt=0; while [ ! -e \"$G/g$n.2\" ] && [ $t -lt 4000 ]; do sleep 0.002; t=$((t+1)); done\ncat \"$G/o$n\"\nexit $rc\n",
        g.display(),
        real.display()
    );
    let p = dir.join("bin/objdump");
    std::fs::write(&p, txt).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
}
fn wait(p: &Path, ms: u64) -> bool {
    let t = Instant::now();
    while !p.exists() {
        if t.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    true
}
fn touch(p: &Path) {
    let _ = std::fs::write(p, b"");
}

struct Hold(JitMemory);
unsafe impl Send for Hold {}
unsafe impl Sync for Hold {}

/// may one memory be used by two threads at once?
mod shareable {
    pub struct W<T>(pub std::marker::PhantomData<T>);
    pub trait No {
        fn yes(&self) -> bool {
            false
        }
    }
    impl<T> No for &W<T> {}
    pub trait Yes {
        fn yes(&self) -> bool {
            true
        }
    }
    impl<T: Sync> Yes for W<T> {}
}
#[allow(unused_imports)]
fn sync() -> bool {
    use shareable::*;
    (&W::<JitMemory>(std::marker::PhantomData)).yes()
}

fn memory(k: usize) -> JitMemory {
    let mut j = JitMemory::new();
    if k == 0 {
        monoasm!(&mut j, movq rax, 0x1234; addq rax, rdi; ret;);
        j.const_i64(5);
    } else {
        monoasm!(&mut j, subq r9, 0x77; movl [rbx + 8], 3; negq rcx; jmp rax;);
    }
    j.finalize();
    j
}

/// orders of the phases 0,0,0,1,1,1
fn orders() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for m in 0u32..64 {
        if m.count_ones() == 3 {
            v.push((0..6).map(|k| (m >> k & 1) as u8).collect());
        }
    }
    v
}

/// two dumps in one order; None if the order cannot be enforced (a lock, no stand-in)
fn two(dir: &Path, order: &[u8], same: bool) -> Option<[Option<String>; 2]> {
    let g = dir.join("gate");
    let ms = [std::sync::Arc::new(Hold(memory(0))), std::sync::Arc::new(Hold(memory(1)))];
    let mut hs: [Option<std::thread::JoinHandle<Option<String>>>; 2] = [None, None];
    let mut out: [Option<String>; 2] = [None, None];
    let mut inv = [0usize; 2];
    let mut ph = [0; 2];
    let mut started = 0;
    let mut ok = true;
    for w in order {
        let w = *w as usize;
        match ph[w] {
            0 => {
                started += 1;
                inv[w] = started;
                let m = ms[if same { 0 } else { w }].clone();
                hs[w] = Some(std::thread::spawn(move || quiet(|| m.0.dump_code().ok()).ok().flatten()));
                ok = wait(&g.join(format!("r{}.1", inv[w])), 3000);
            }
            1 => {
                touch(&g.join(format!("g{}.1", inv[w])));
                ok = wait(&g.join(format!("r{}.2", inv[w])), 3000);
            }
            _ => {
                touch(&g.join(format!("g{}.2", inv[w])));
                out[w] = hs[w].take().unwrap().join().unwrap_or(None);
            }
        }
        ph[w] += 1;
        if !ok {
            break;
        }
    }
    if !ok {
        for n in 1..10 {
            touch(&g.join(format!("g{}.1", n)));
            touch(&g.join(format!("g{}.2", n)));
        }
        for h in hs.iter_mut() {
            h.take().map(|h| h.join());
        }
        return None;
    }
    Some(out)
}

/// text files below `d` (not its subdirectories) that contain the marker
fn carries(d: &Path, mark: &[u8]) -> Option<PathBuf> {
    for e in std::fs::read_dir(d).ok()?.flatten() {
        let p = e.path();
        let m = match e.metadata() {
            Ok(m) => m,
            _ => continue,
        };
        if !m.is_file() || m.len() > 1 << 20 || m.modified().ok().and_then(|t| t.elapsed().ok()).map_or(true, |t| t > Duration::from_secs(120)) {
            continue;
        }
        if std::fs::read(&p).map_or(false, |b| b.windows(mark.len()).any(|w| w == mark)) {
            return Some(p);
        }
    }
    None
}

/// `faults`: also dumps without objdump, with a failing one and without a temporary directory
pub fn explore(pool: &mut Pool, faults: bool) -> (bool, String) {
    let real = match real() {
        Some(r) => r,
        None => return (!pool.stopped(), "no objdump".into()),
    };
    let os = orders();
    let no = os.len() as u64;
    let top = std::env::temp_dir().join(format!("mc-two-{}", std::process::id()));
    let (c0, f0) = (pool.get(3), pool.get(8));
    let path = std::env::var("PATH").unwrap_or_default();
    let desc = |u: u64, _: u64| {
        if u < 2 * no {
            format!("two dumps{}, order of their phases {:?}", if u >= no { " of one memory" } else { "" }, os[(u % no) as usize])
        } else {
            format!("a dump under fault number {}", u - 2 * no)
        }
    };
    pool.recycle = 1;
    let total = 2 * no + if faults { 4 } else { 0 };
    let done = pool.run(total, 1, &desc, |p, u| {
        let dir = top.join(format!("{}", u));
        stage(&dir, &real);
        let tmp = dir.join("tmp");
        let solo = [memory(0).dump_code().ok(), memory(1).dump_code().ok()];
        std::env::set_var("TMPDIR", &tmp);
        let _ = std::env::set_current_dir(&tmp);
        std::env::set_var("PATH", format!("{}:{}", dir.join("bin").display(), path));
        if u < 2 * no {
            let same = u >= no;
            if same && !sync() {
                return;
            }
            let solo = [solo[0].clone(), solo[if same { 0 } else { 1 }].clone()];
            p.add(3, 1);
            match two(&dir, &os[(u % no) as usize], same) {
                None => p.add(8, 1),
                Some(r) => {
                    p.add(2, 6);
                    if r != solo {
                        p.violate("dumps", &format!("{}\nthey show {:?}\ninstead of {:?}", desc(u, 0), r, solo));
                    }
                }
            }
            if std::fs::read_dir(&tmp).map_or(0, |d| d.count()) != 0 {
                p.violate("file", &format!("{}: a temporary file is left behind", desc(u, 0)));
            }
            return;
        }
        // faults
        let mut j = memory(0);
        let mark: Vec<u8> = (0..24u8).map(|k| (std::process::id() as u8).wrapping_mul(31).wrapping_add(k.wrapping_mul(37)) ^ (std::time::UNIX_EPOCH.elapsed().unwrap().subsec_nanos() as u8)).collect();
        j.emit(&mark);
        j.finalize();
        let before = j.as_slice().to_vec();
        match u - 2 * no {
            0 => std::env::set_var("PATH", dir.join("gate")),
            1 => std::fs::write(dir.join("bin/objdump"), "#!/bin/bash\nexit 3\n").unwrap(),
            2 => std::env::set_var("TMPDIR", dir.join("nowhere")),
            _ => std::env::set_var("PATH", &path),
        }
        let r = quiet(|| j.dump_code().ok());
        p.add(2, 1);
        p.add(3, 1);
        if u - 2 * no == 3 && !matches!(&r, Ok(Some(t)) if !t.is_empty()) {
            p.violate("dump", "a dump under normal conditions fails");
        }
        if j.as_slice() != &before[..] {
            p.violate("memory", &format!("{}: the memory changed", desc(u, 0)));
        }
        if std::fs::read_dir(&tmp).map_or(0, |d| d.count()) != 0 {
            p.violate("file", &format!("{}: a temporary file is left behind", desc(u, 0)));
        }
        for d in ["/tmp", "/var/tmp", "/dev/shm", "/run", "/"] {
            if let Some(f) = carries(Path::new(d), &mark) {
                p.violate("file", &format!("{}: the file {} with the code is left behind", desc(u, 0), f.display()));
                let _ = std::fs::remove_file(f);
            }
        }
    });
    let _ = std::fs::remove_dir_all(&top);
    (done, format!("two dumps in all {} orders of their phases, of two memories and of one{}: {} cases, {} orders could not be enforced", no, if faults { ", and dumps under 4 fault conditions" } else { "" }, pool.get(3) - c0, pool.get(8) - f0))
}
