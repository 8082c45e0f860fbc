//! C14: what has no encoding is refused.
use mccore::form::*;
use mccore::hist::quiet;
use mccore::x86::{decode, Op};
use mccore::*;
mod form {
    pub use mccore::form::*;
}
mod forms {
    // FORMS: statements with run-time operands; CAND: candidates that survived compilation
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

/// emit with the given operands; None: refused
fn emit(f: &Form, a: &Args, s: &mut Scratch) -> Option<Vec<u8>> {
    let start = s.jit.get_current();
    if quiet(|| (f.f)(&mut s.jit, a)).is_err() {
        // whatever was left of a refused statement lies before the next start
        return None;
    }
    let end = s.jit.get_current();
    Some(unsafe { std::slice::from_raw_parts((s.base[0] + start) as *const u8, end - start) }.to_vec())
}
fn text(b: &[u8]) -> String {
    decode(b).map(|x| x.0.text()).unwrap_or("no instruction".into())
}

fn main() {
    let ctx = Ctx::from_env();
    let mut pool = Pool::new(24);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    let (ntried, nrefused): (u64, u64) = (std::env::var("C14_TRIED").unwrap().parse().unwrap(), std::env::var("C14_REFUSED").unwrap().parse().unwrap());
    if std::env::var("C14_LIST").is_ok() {
        for f in forms::CAND.iter().flat_map(|t| t.iter()) {
            let mut s = Scratch::new();
            let lab = s.jit.label();
            let a = Args { lab, ..Args::default() };
            if let Some(b) = emit(f, &a, &mut s) {
                println!("{} => {} {}", f.n, text(&b), if f.op == Op::Ud2 { "UNEXPECTED" } else if compare(f, &a, &b).is_err() { "DIFFERENT" } else { "natural" });
            }
        }
        return;
    }
    // 1. the candidates the compiler accepted
    let cs: Vec<&Form> = forms::CAND.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, _: u64| cs[u as usize].n.to_string();
    pool.recycle = 200;
    let mut done = pool.run(cs.len() as u64, 1, &desc, |p, u| {
        let f = cs[u as usize];
        let mut s = Scratch::new();
        let lab = s.jit.label();
        let a = Args { lab, ..Args::default() };
        p.add(2, 1);
        match emit(f, &a, &mut s) {
            None => p.add(3, 1),
            Some(b) => {
                let mut h = Fp::default();
                h.s(&b);
                p.state(h.0);
                let bad = if f.op == Op::Ud2 { Some(format!("emitted {:02x?} '{}'", b, text(&b))) } else { compare(f, &a, &b).err() };
                if let Some(t) = bad {
                    p.violate("accepted", &format!("{}\n has no encoding but was accepted: {}", f.n, t));
                } else {
                    p.add(4, 1);
                }
            }
        }
    });
    // 2. operands known only at run time
    let fs: Vec<&Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, s: u64| format!("{} run-time case {}", fs[u as usize].n, s);
    let bad_regs: Vec<u64> = vec![16, 17, 18, 20, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 260, 271, 272, 0x1_0000, 0x8000_0000, 1 << 32, (1 << 32) + 3, 1 << 63, u64::MAX - 15, u64::MAX];
    let good = [0u64, 1, 3, 4, 5, 9, 12, 13, 15];
    let mut bad_disp: Vec<i64> = vec![];
    for k in 31..64 {
        for e in [-1i128, 0, 1, 5, 127] {
            for s in [1i128, -1] {
                let v = s * ((1i128 << k) + e);
                if let Ok(v) = i64::try_from(v) {
                    bad_disp.push(v);
                }
            }
        }
    }
    pool.recycle = 2;
    if done {
        done = pool.run(fs.len() as u64, 1, &desc, |p, u| {
            let f = fs[u as usize];
            let mut s = Scratch::new();
            let mut sub = 0;
            let mut n_since = 0;
            let m = f.mem();
            let mut slots: Vec<usize> = vec![];
            for k in f.o {
                match k {
                    K::R(n) | K::X(n) => slots.push(n as usize),
                    _ => {}
                }
            }
            if let Some((rip, sc, _)) = m {
                if !rip {
                    slots.push(3);
                }
                if sc != 255 {
                    slots.push(4);
                }
            }
            let mut try_ = |a: Args, must: bool, what: &str| -> bool {
                sub += 1;
                p.sub(sub);
                p.add(2, 1);
                n_since += 1;
                if n_since > 1000 {
                    s = Scratch::new();
                    n_since = 0;
                }
                match emit(f, &a, &mut s) {
                    None => {
                        p.add(3, 1);
                        true
                    }
                    Some(b) => {
                        // accepted: only with its natural meaning, if it has one
                        if must || compare(f, &a, &b).is_err() {
                            p.violate("accepted", &format!("{}\n {} but was accepted and emitted {:02x?} '{}'", f.case(&a), what, b, text(&b)));
                            return false;
                        }
                        p.add(4, 1);
                        true
                    }
                }
            };
            for g in good {
                let idx = if g == 4 { 9 } else { g };
                let base = Args { r0: g, r1: g, r2: g, b: g, i: idx, d: 8, imm: 5, ..Args::default() };
                for sl in &slots {
                    for r in &bad_regs {
                        let mut a = base;
                        let is_base = *sl == 3;
                        match *sl {
                            0 => a.r0 = *r,
                            1 => a.r1 = *r,
                            2 => a.r2 = *r,
                            3 => a.b = *r,
                            _ => a.i = *r,
                        }
                        // number 16 names rip, which is a base register without index
                        let rip_ok = is_base && *r == 16 && m.unwrap().1 == 255;
                        if !try_(a, !rip_ok, "names a register that does not exist there") {
                            return;
                        }
                    }
                }
                if slots.contains(&4) {
                    for d in [0, 8, 300, -5] {
                        let mut a = base;
                        a.i = 4;
                        a.d = d;
                        if !try_(a, true, "uses rsp as an index") {
                            return;
                        }
                    }
                }
                if let Some((_, _, sg)) = m {
                    if sg != 0 {
                        for d in &bad_disp {
                            let eff = sg as i128 * *d as i128;
                            if i32::try_from(eff).is_ok() {
                                continue;
                            }
                            let mut a = base;
                            a.d = *d;
                            if !try_(a, true, "has a displacement beyond 32 bits") {
                                return;
                            }
                        }
                    }
                }
            }
            // shift counts in a register: the table's forms are written with R(a.r1) here
            if f.o[1] == K::Cl && f.n.contains("R(a.r1)") {
                for r in 0..16u64 {
                    for g in good {
                        let a = Args { r0: g, r1: r, b: g, i: 1, d: 8, ..Args::default() };
                        if !try_(a, r != 1, "shifts by a register other than cl") {
                            return;
                        }
                    }
                }
            }
        });
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"candidate_statements\": {},\n  \"refused_at_compile_time\": {},\n  \"refused_at_run_time\": {},\n  \"accepted_with_their_natural_meaning\": {},\n  \"state_meaning\": \"candidate statements and operand choices decided (plus distinct encodings of those accepted)\",\n  \"transition_meaning\": \"statements given to the compiler or executed\",\n  \"validation\": \"every candidate goes through the real macro and, if it compiles, the real encoder\",\n  \"samples\": [\"movq [rbx], [rcx] => refused at compile time\", \"lea rbx, [rcx + R(4) * 2] => run-time panic\", \"addq R(16), R(0) => run-time panic\"]",
        pool.states() + ntried, ntried + pool.get(2), pool.get(2), ntried, nrefused, pool.get(3), pool.get(4)
    );
    ctx.finish("model_checking", &cov, &["rustc reports an error for every refused statement of a file (statements are removed until the file compiles)"], &pool, done)
}
