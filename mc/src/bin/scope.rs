//! C20: operand expressions see the caller's variables and are evaluated once.
use mccore::form::*;
use mccore::hist::quiet;
use mccore::x86::decode;
use mccore::*;
mod form {
    pub use mccore::form::*;
}
thread_local!(static COUNT: [std::cell::Cell<u32>; 8] = std::array::from_fn(|_| std::cell::Cell::new(0)));
pub fn t<T>(k: usize, v: T) -> T {
    COUNT.with(|c| c[k].set(c[k].get() + 1));
    v
}
thread_local!(static SEEN: [std::cell::Cell<u32>; 2] = std::array::from_fn(|_| std::cell::Cell::new(u32::MAX)));
/// number of evaluations of the operands of the statement in between, seen by the operands around it
fn seen(k: usize) {
    SEEN.with(|s| s[k].set(if s[k].get() == u32::MAX { COUNT.with(|c| c[..7].iter().map(|x| x.get()).sum()) } else { u32::MAX - 1 }));
}
pub fn first<T>(v: T) -> T {
    seen(0);
    v
}
pub fn last<T>(v: T) -> T {
    seen(1);
    v
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

fn emit(f: &Form, a: &Args, s: &mut Scratch) -> Option<Vec<u8>> {
    let start = s.jit.get_current();
    if quiet(|| (f.f)(&mut s.jit, a)).is_err() {
        *s = Scratch::new();
        return None;
    }
    let end = s.jit.get_current();
    Some(unsafe { std::slice::from_raw_parts((s.base[0] + start) as *const u8, end - start) }.to_vec())
}

fn main() {
    let ctx = Ctx::from_env();
    let mut pool = Pool::new(24);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    let cap: Vec<&Form> = forms::CAP.iter().flat_map(|t| t.iter()).collect();
    let cap2: Vec<&Form> = forms::PRED.iter().flat_map(|t| t.iter()).collect();
    let side: Vec<&Form> = forms::SIDE.iter().flat_map(|t| t.iter()).collect();
    let n_side = side.len();
    let side: Vec<&Form> = side.into_iter().chain(forms::MID.iter().flat_map(|t| t.iter())).collect();
    let all: Vec<(&Form, bool)> = cap.iter().map(|f| (*f, false)).chain(cap2.iter().map(|f| (*f, true))).collect();
    let desc = |u: u64, _: u64| all[u as usize].0.n.to_string();
    pool.recycle = 2000;
    let mut done = pool.run(all.len() as u64, 64, &desc, |p, u| {
        let (f, second) = all[u as usize];
        thread_local!(static S: std::cell::RefCell<Scratch> = std::cell::RefCell::new(Scratch::new()));
        S.with(|s| {
            let a = Args::default();
            let r = emit(f, &a, &mut s.borrow_mut());
            p.add(2, 1);
            let b = match r {
                Some(b) => b,
                None => {
                    p.violate("scope", &format!("{}\n was refused with a panic", f.n));
                    return;
                }
            };
            let mut h = Fp::default();
            h.s(f.n.as_bytes());
            p.state(h.0);
            let skip = if second { decode(&b).map(|x| x.1).unwrap_or(0) } else { 0 };
            let mut e = compare(f, &a, &b[skip..]);
            if e.is_err() && f.o.iter().any(|k| matches!(k, K::Mx { b: 16, d: 0, .. })) {
                // reference to a label: the displacement is not filled yet
                e = Ok(0);
            }
            if let Err(t) = e {
                p.violate("scope", &format!("the expression does not have the value of the caller's variable: {}", t));
            }
        })
    });
    // every operand expression exactly once
    let desc = |u: u64, s: u64| format!("{} case {}", side[u as usize].n, s);
    pool.recycle = 40;
    let regs = [0u64, 1, 4, 5, 8, 12, 13, 15];
    let disps = [0i64, 1, 127, -128, 128, -129, 0x123456];
    let imms = [0i64, 1, 2, 127, -128, 128, -129, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000, 0x1234_5678_9abc];
    if done {
        done = pool.run(side.len() as u64, 2, &desc, |p, u| {
            let f = side[u as usize];
            let mut used = [false; 8];
            used[7] = true;
            for k in f.o {
                match k {
                    K::R(n) | K::X(n) => used[n as usize] = true,
                    K::M { rip, sc, sg } => {
                        used[3] |= !rip;
                        used[4] |= sc != 255;
                        used[5] |= sg != 0;
                    }
                    K::I(_) | K::U8 | K::Rel => used[6] = true,
                    _ => {}
                }
            }
            let pick = |on: bool, n: usize| if on { n } else { 1 };
            let mut s = Scratch::new();
            let mut nsub = 0;
            for r0 in 0..pick(used[0] || used[3], regs.len()) {
                for r1 in 0..pick(used[1] || used[4], regs.len()) {
                    for d in 0..pick(used[5], disps.len()) {
                        for m in 0..pick(used[6], imms.len()) {
                            nsub += 1;
                            p.sub(nsub);
                            let i = if regs[r1] == 4 { 9 } else { regs[r1] };
                            let a = Args { r0: regs[r0], r1: regs[r1], r2: regs[r1], b: regs[r0], i, d: disps[d], imm: imms[m], ..Args::default() };
                            COUNT.with(|c| c.iter().for_each(|x| x.set(0)));
                            SEEN.with(|c| c.iter().for_each(|x| x.set(u32::MAX)));
                            let r = quiet(|| (f.f)(&mut s.jit, &a));
                            p.add(2, 1);
                            if r.is_err() {
                                // a value that does not fit: not assembled
                                p.add(3, 1);
                                continue;
                            }
                            let c: Vec<u32> = COUNT.with(|c| c.iter().map(|x| x.get()).collect());
                            let want: Vec<u32> = used.iter().map(|x| *x as u32).collect();
                            if u as usize >= n_side && c == want {
                                let g = SEEN.with(|c| (c[0].get(), c[1].get()));
                                let w = want[..7].iter().sum::<u32>();
                                if g != (0, w) {
                                    p.violate("order", &format!("{}; negq R(last)\n the operands of the first, this and the last statement were not evaluated once each in this order (evaluations of this statement's operands seen by the first: {}, by the last: {}, expected 0 and {})", f.case(&a), g.0, g.1, w));
                                    return;
                                }
                            }
                            if c != want {
                                p.violate("evaluation", &format!("{}\n evaluated its operand expressions [reg0, reg1, reg2, base, index, displacement, immediate, memory argument] {:?} times instead of {:?}", f.case(&a), c, want));
                                return;
                            }
                            let mut h = Fp::default();
                            h.s(f.n.as_bytes());
                            h.u(nsub);
                            p.state(h.0);
                        }
                    }
                }
            }
        });
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"statements_with_caller_variables\": {},\n  \"after_another_statement\": {},\n  \"statements_with_counted_operands\": {},\n  \"names_found_in_the_expansion\": {},\n  \"state_meaning\": \"distinct (statement, variable name, preceding statement) and (statement, operand values) cases\",\n  \"transition_meaning\": \"statements assembled by the implementation\",\n  \"validation\": \"every case is a real monoasm! invocation\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), pool.get(1), cap.len(), cap2.len(), side.len(), js(&std::env::var("C20_SCRAPED").unwrap_or_default()),
        [js(cap[7].n), js(cap2[7].n), js(side[7].n)].join(", ")
    );
    ctx.finish("model_checking", &cov, &["variable names: a fixed list plus every name bound in the macro's current expansion"], &pool, done)
}
