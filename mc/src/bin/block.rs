//! C16: a statement's code does not depend on its context.
use mccore::form::*;
use mccore::hist::quiet;
use mccore::x86::decode;
use mccore::*;
mod form {
    pub use mccore::form::*;
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}
use monoasm::*;

type Stmt = (String, Box<dyn Fn(&mut JitMemory)>);

fn bytes(at: usize, n: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(at as *const u8, n) }.to_vec()
}
/// emit and return the bytes between the cursors
fn emit(j: &mut JitMemory, f: &dyn Fn(&mut JitMemory)) -> Result<Vec<u8>, String> {
    let a = j.get_current_address().as_ptr() as usize;
    let c = j.get_current();
    f(j);
    let n = j.get_current().wrapping_sub(c);
    if n > 65536 || j.get_current_address().as_ptr() as usize != a + n {
        return Err(format!("moved the cursor from {} to {} and the address by {}", c, j.get_current(), (j.get_current_address().as_ptr() as usize).wrapping_sub(a)));
    }
    Ok(bytes(a, n))
}

/// the code with the displacement of a jump, call or rip-relative operand blanked
fn masked(mut b: Vec<u8>) -> Vec<u8> {
    if let Some((_, n, v)) = mccore::hist::ref_disp(&b) {
        if n == b.len() {
            for p in (1..=n.saturating_sub(4)).rev() {
                if i32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as i64 == v {
                    let mut c = b.clone();
                    c[p..p + 4].copy_from_slice(&(v as i32 ^ 0x0102_0304).to_le_bytes());
                    if mccore::hist::ref_disp(&c).map(|x| x.2) == Some((v as i32 ^ 0x0102_0304) as i64) {
                        b[p..p + 4].copy_from_slice(&[0; 4]);
                        break;
                    }
                }
            }
        }
    }
    b
}

fn args(k: u64, lab: monoasm::DestLabel) -> Args {
    // a few operand choices that take different encoding paths
    let r = [[3u64, 9, 2, 5, 1], [0, 0, 1, 4, 9], [12, 1, 8, 13, 12], [1, 6, 15, 0, 15], [8, 8, 0, 12, 2]][k as usize % 5];
    let d = [0i64, 8, 300, -1, -129, 127][k as usize % 6];
    let imm = [5i64, 1, 0x7f, -1, -128, 64, 0][k as usize % 7];
    Args { r0: r[0], r1: r[1], r2: r[2], b: r[3], i: r[4], d, imm, lab }
}

fn contexts() -> Vec<(String, Box<dyn Fn(&mut JitMemory)>)> {
    let mut v: Vec<(String, Box<dyn Fn(&mut JitMemory)>)> = vec![];
    for o in 0..18usize {
        v.push((format!("{} bytes in", o), Box::new(move |j| j.emit(&vec![0x90; o]))));
        v.push((format!("{} bytes into page 1", o), Box::new(move |j| {
            j.emit(&[0x66, 0x48, 0xf2]);
            j.select_page(1);
            j.emit(&vec![0x90; o]);
        })));
    }
    for b in [0x66u8, 0xf2, 0xf3, 0x48, 0x4f, 0x40, 0x0f] {
        v.push((format!("after the byte {:02x}", b), Box::new(move |j| j.emitb(b))));
    }
    for n in [127usize, 128, 255, 256, 4090, 4096, 65530, 65536, 70000] {
        v.push((format!("{} bytes in", n), Box::new(move |j| j.emit(&vec![0x90; n]))));
    }
    v.push(("after align_page".into(), Box::new(|j| {
        j.emitb(1);
        j.align_page();
    })));
    v.push(("after align16".into(), Box::new(|j| {
        j.emitb(1);
        j.align16();
    })));
    v.push(("after finalize".into(), Box::new(|j| {
        j.emitb(1);
        j.finalize();
    })));
    v.push(("after finalize with constants".into(), Box::new(|j| {
        j.emitb(1);
        j.const_i32(5);
        j.const_i64(5);
        j.data_i64(5);
        j.finalize();
    })));
    v.push(("with pending constants".into(), Box::new(|j| {
        j.const_i32(5);
        j.data_i64(5);
        j.constant(100);
    })));
    v.push(("with pending and bound labels".into(), Box::new(|j| {
        let l = j.label();
        let k = j.label();
        j.bind_label(l);
        monoasm_macro::monoasm!(&mut *j, jmp k;);
        monoasm_macro::monoasm!(&mut *j, jmp l;);
    })));
    v.push(("after three finalize calls and a page switch".into(), Box::new(|j| {
        j.finalize();
        j.select_page(1);
        j.finalize();
        j.emitb(9);
        j.select_page(0);
        j.finalize();
    })));
    v.push(("after a patch".into(), Box::new(|j| {
        let l = j.label();
        j.bind_label(l);
        monoasm_macro::monoasm!(&mut *j, jmp l;);
        j.finalize();
        j.apply_jmp_patch(l, l);
    })));
    for b in [0xffu8, 0xee, 0x48] {
        v.push((format!("over memory that holds {:02x}", b), Box::new(move |j| {
            for k in 0..64 {
                j[Pos::from(k)] = b;
            }
        })));
    }
    v.push(("after a refused statement".into(), Box::new(|j| {
        let v = 1i64 << 40;
        let _ = quiet(|| monoasm_macro::monoasm!(&mut *j, addq [rax + 5], (v);));
        let _ = quiet(|| monoasm_macro::monoasm!(&mut *j, movw rax, (v);));
    })));
    v.push(("at a label bound here".into(), Box::new(|j| {
        j.emit(&[0x90; 5]);
        let l = j.label();
        j.bind_label(l);
    })));
    v.push(("at a position where the other page has a label".into(), Box::new(|j| {
        j.emit(&[0x90; 5]);
        j.select_page(1);
        j.emit(&[0x90; 5]);
        let l = j.label();
        j.bind_label(l);
        j.select_page(0);
    })));
    v.push(("after a jump to the next statement".into(), Box::new(|j| {
        let l = j.label();
        monoasm_macro::monoasm!(&mut *j, jmp l; l:);
    })));
    v.push(("after 70000 labels".into(), Box::new(|j| {
        for _ in 0..70000 {
            j.label();
        }
    })));
    v.push(("after 1000 labels".into(), Box::new(|j| {
        for _ in 0..1000 {
            j.label();
        }
    })));
    v
}

fn main() {
    let ctx = Ctx::from_env();
    let t = ctx.thorough;
    let mut pool = Pool::new(26);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    let fs: Vec<&Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    // statements: every form with a few operand choices
    let na = if t { 35 } else { 3 };
    let lab = JitMemory::new().label(); // label 0 of any memory
    let stmts: Vec<(usize, Args)> = (0..fs.len()).flat_map(|k| (0..na).map(move |n| (k, args(n + k as u64 % 5, lab)))).collect();
    let show = |k: usize| fs[stmts[k].0].case(&stmts[k].1);
    let fresh = || {
        let mut j = JitMemory::new();
        j.label();
        j
    };
    // code of each statement on its own
    let mut solo: Vec<Option<Vec<u8>>> = vec![];
    std::panic::set_hook(Box::new(|_| {}));
    {
        let mut j = fresh();
        for (k, a) in &stmts {
            // a fresh memory for many of the statements, a fresh page position for the others
            if solo.len() < 40000 && solo.len() % 7 == 0 {
                j = fresh();
            }
            let r = quiet(|| emit(&mut j, &|j| (fs[*k].f)(j, a))).ok().and_then(|x| x.ok());
            if !matches!(&r, Some(b) if !b.is_empty()) {
                j = fresh();
            }
            solo.push(r);
        }
    }
    // (statements refused on their own are another property's business)
    let n = stmts.len() as u64;
    // 1. every statement in every context
    let cx = contexts();
    let desc = |u: u64, s: u64| format!("context '{}', statement {}", cx[u as usize % cx.len()].0, show(s as usize));
    // a memory for each statement: few enough for one process
    let slice = 2000;
    pool.recycle = 4;
    let mut done = pool.run(cx.len() as u64 * n.div_ceil(slice), 1, &desc, |p, u| {
        let (name, set) = &cx[u as usize % cx.len()];
        let lo = u / cx.len() as u64 * slice;
        for k in lo as usize..(lo + slice).min(n) as usize {
            let want = match &solo[k] {
                Some(w) => w,
                None => continue,
            };
            p.sub(k as u64);
            let mut j = fresh();
            set(&mut j);
            let b0 = j.get_current_address().as_ptr() as usize;
            let r = quiet(|| emit(&mut j, &|j| (fs[stmts[k].0].f)(j, &stmts[k].1)));
            p.add(2, 1);
            let ok = matches!(&r, Ok(Ok(b)) if b == want);
            unsafe { libc::madvise((b0 & !0xfffff) as *mut _, 1 << 20, libc::MADV_DONTNEED) };
            if !ok {
                p.violate("context", &format!("{}\n emits {:02x?} on its own but {:02x?} in the context '{}'", show(k), want, r, name));
                return;
            }
            let mut h = Fp::default();
            h.s(want);
            h.u(u % cx.len() as u64);
            p.state(h.0);
        }
    });
    // every statement far into a page
    let desc = |u: u64, s: u64| format!("far position {}, statement {}", u, show(s as usize));
    if done {
        done = pool.run(4, 1, &desc, |p, u| {
            let mut j = fresh();
            j.select_page(u as usize % 2);
            j.emit(&vec![0x90; [17_000_000, 140_000_000][u as usize / 2]]);
            for k in 0..n as usize {
                if let Some(want) = &solo[k] {
                    p.sub(k as u64);
                    let at = j.get_current();
                    let r = quiet(|| emit(&mut j, &|j| (fs[stmts[k].0].f)(j, &stmts[k].1)));
                    p.add(2, 1);
                    if !matches!(&r, Ok(Ok(b)) if b == want) {
                        p.violate("context", &format!("{}\n emits {:02x?} on its own but {:02x?} at position {} of page {}", show(k), want, r, at, u % 2));
                        return;
                    }
                }
            }
        });
    }
    // 2. every ordered pair of statements
    let first: Vec<usize> = if t { (0..n as usize).step_by(7).collect() } else { (0..n as usize).step_by(3).collect() };
    let desc = |u: u64, s: u64| format!("{}; {}", show(first[u as usize]), show(s as usize));
    pool.recycle = 60;
    if done {
        done = pool.run(first.len() as u64, 1, &desc, |p, u| {
            let x = first[u as usize];
            if solo[x].is_none() {
                return;
            }
            let mut s = Scratch::new();
            s.jit.select_page((u & 1) as usize);
            for y in 0..n as usize {
                if solo[y].is_none() {
                    continue;
                }
                p.sub(y as u64);
                let c = s.jit.get_current();
                let r = quiet(|| -> Result<(), String> {
                    for k in [x, y] {
                        let b = emit(&mut s.jit, &|j| (fs[stmts[k].0].f)(j, &stmts[k].1))?;
                        if Some(&b) != solo[k].as_ref() {
                            return Err(format!("{} emits {:02x?} on its own but {:02x?} there", show(k), solo[k].as_ref().unwrap(), b));
                        }
                    }
                    Ok(())
                });
                p.add(2, 2);
                if !matches!(r, Ok(Ok(()))) {
                    p.violate("sequence", &format!("{}; {} at position {}\n {:?}", show(x), show(y), c, r));
                    return;
                }
                let mut h = Fp::default();
                h.s(solo[x].as_ref().unwrap());
                h.b(0);
                h.s(solo[y].as_ref().unwrap());
                p.state(h.0);
            }
        });
    }
    // 3. statements in one block against separate blocks
    let tp = forms::tpl();
    let ps: Vec<&Pair> = forms::PAIRS.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, s: u64| format!("one block: {} (operand choice {})", ps[u as usize].n, s);
    pool.recycle = 400;
    let nv = if t { 35 } else { 6 };
    if done {
        done = pool.run(ps.len() as u64, 8, &desc, |p, u| {
            let pr = ps[u as usize];
            let mut s = Scratch::new();
            let l1 = s.jit.label();
            for v in 0..nv {
                p.sub(v);
                let a = args(v, l1);
                let c = args(v * 3 + 1, l1);
                let r = quiet(|| -> Result<(Vec<u8>, Vec<u8>), String> {
                    let mut want = vec![];
                    for (k, i) in pr.s.iter().enumerate() {
                        let x = if k % 2 == 0 { &a } else { &c };
                        want.extend(emit(&mut s.jit, &|j| (tp[*i].1)(j, x))?);
                    }
                    let got = emit(&mut s.jit, &|j| (pr.f)(j, &a, &c))?;
                    Ok((want, got))
                });
                p.add(2, pr.s.len() as u64 + 1);
                match r {
                    Ok(Ok((w, g))) if w == g => {
                        let mut h = Fp::default();
                        h.s(&w);
                        p.state(h.0);
                    }
                    Ok(Ok((w, g))) => {
                        p.violate("block", &format!("{}\n with {:?} and {:?}\n separate blocks emit {:02x?}\n one block emits     {:02x?} (first instruction {})", pr.n, a, c, w, g, decode(&g).map(|x| x.0.text()).unwrap_or_default()));
                        return;
                    }
                    e => {
                        p.violate("block", &format!("{}\n with {:?} and {:?}: {}", pr.n, a, c, if e.is_err() { "refused".into() } else { format!("{:?}", e) }));
                        return;
                    }
                }
            }
        });
    }
    // 4. the same with literal operands, and labels bound between and after the statements
    let lt = forms::ltpl();
    let lp: Vec<&Pair> = forms::LPAIRS.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, _: u64| format!("one block: {}", lp[u as usize].n);
    pool.recycle = 400;
    if done {
        done = pool.run(lp.len() as u64, 8, &desc, |p, u| {
            let pr = lp[u as usize];
            let mut s = Scratch::new();
            let l1 = s.jit.label();
            let a = args(0, l1);
            let r = quiet(|| -> Result<(Vec<u8>, Vec<u8>), String> {
                let mut want = vec![];
                for i in pr.s {
                    want.extend(masked(emit(&mut s.jit, &|j| (lt[*i].1)(j, &a))?));
                }
                let got = emit(&mut s.jit, &|j| (pr.f)(j, &a, &a))?;
                Ok((want, got))
            });
            p.add(2, pr.s.len() as u64 + 1);
            match r {
                Ok(Ok((w, g))) => {
                    // statement by statement, displacements of references to labels bound meanwhile left out
                    let mut at = 0;
                    let mut same = w.len() == g.len();
                    for i in pr.s {
                        let n = quiet(|| emit(&mut s.jit, &|j| (lt[*i].1)(j, &a))).ok().and_then(|x| x.ok()).map_or(0, |x| x.len());
                        same = same && at + n <= g.len() && masked(g[at..at + n].to_vec())[..] == w[at..at + n];
                        at += n;
                    }
                    if !same {
                        p.violate("block", &format!("{}\n separate blocks emit {:02x?}\n one block emits     {:02x?}", pr.n, w, g));
                        return;
                    }
                    let mut h = Fp::default();
                    h.s(&w);
                    p.state(h.0);
                }
                e => {
                    p.violate("block", &format!("{}: {}", pr.n, if e.is_err() { "refused".into() } else { format!("{:?}", e) }));
                }
            }
        });
    }
    // 5. long runs of statements in one memory, forwards and backwards, on either page, the referenced label bound or not
    let desc = |u: u64, s: u64| format!("long run number {}, statement {}", u, show(s as usize % n as usize));
    pool.recycle = 1;
    if done {
        done = pool.run(8, 1, &desc, |p, u| {
            let mut j = fresh();
            j.select_page((u & 1) as usize);
            if u & 4 != 0 {
                j.emitb(0x90);
                j.bind_label(lab);
            }
            for rep in 0..2 {
                for x in 0..n as usize {
                    let k = if u & 2 != 0 { n as usize - 1 - x } else { x };
                    let want = match &solo[k] {
                        Some(w) => w,
                        None => continue,
                    };
                    p.sub(k as u64);
                    let r = quiet(|| emit(&mut j, &|j| (fs[stmts[k].0].f)(j, &stmts[k].1)));
                    p.add(2, 1);
                    if !matches!(&r, Ok(Ok(b)) if masked(b.clone()) == masked(want.clone())) {
                        p.violate("sequence", &format!("{}\n emits {:02x?} on its own but {:02x?} as statement {} of a long run (label {})", show(k), want, r, rep * n as usize + x, if u & 4 != 0 { "bound" } else { "not bound" }));
                        return;
                    }
                }
                if u & 1 != 0 {
                    j.finalize();
                }
            }
        });
    }
    // 6. the referenced label bound at various distances, on the same or the other page
    let dist = [0usize, 1, 5, 90, 110, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 140, 200, 1000, 32760, 33000];
    let desc = |u: u64, s: u64| format!("label bound {} bytes before ({}), statement {}", dist[u as usize % dist.len()], if u as usize / dist.len() % 2 == 0 { "same page" } else { "other page" }, show(s as usize % n as usize));
    pool.recycle = 2;
    if done {
        // all statements whose code refers to the label (bound to another place, the finalized code differs)
        let refer: Vec<bool> = (0..fs.len())
            .map(|f| {
                let k = &(f * na as usize);
                let code = |d: usize| {
                    let mut j = fresh();
                    quiet(|| {
                        let b = j.get_current_address().as_ptr() as usize;
                        (fs[stmts[*k].0].f)(&mut j, &stmts[*k].1);
                        let c = j.get_current();
                        j.emit(&vec![0x90; d]);
                        j.bind_label(lab);
                        j.finalize();
                        bytes(b, c)
                    })
                    .ok()
                };
                code(3) != code(40)
            })
            .collect();
        let refs: Vec<usize> = (0..n as usize).filter(|k| solo[*k].is_some() && refer[stmts[*k].0]).collect();
        pool.add(7, refs.len() as u64);
        done = pool.run(4 * dist.len() as u64, 1, &desc, |p, u| {
            let d = dist[u as usize % dist.len()];
            let (other, fin) = (u as usize / dist.len() & 1, u as usize / dist.len() & 2 != 0);
            for k in refs.iter().copied() {
                let want = solo[k].as_ref().unwrap();
                p.sub(k as u64);
                let mut j = fresh();
                let b0 = j.get_current_address().as_ptr() as usize;
                j.emit(&[0x90; 3]);
                j.bind_label(lab);
                if fin {
                    j.finalize();
                }
                j.select_page(other);
                j.emit(&vec![0x90; d]);
                let r = quiet(|| emit(&mut j, &|j| (fs[stmts[k].0].f)(j, &stmts[k].1)));
                p.add(2, 1);
                unsafe { libc::madvise((b0 & !0xfffff) as *mut _, 1 << 20, libc::MADV_DONTNEED) };
                if !matches!(&r, Ok(Ok(b)) if masked(b.clone()) == masked(want.clone())) {
                    p.violate("label", &format!("{}\n emits {:02x?} while its label is not bound but {:02x?} when it is bound {} bytes before ({}{})", show(k), want, r, d, if other == 0 { "same page" } else { "other page" }, if fin { ", finalized" } else { "" }));
                    return;
                }
            }
        });
        // 7. the referenced label of every number and kind, newest or not, referred to before or not
        let nums = [0usize, 1, 2, 30, 127, 128, 254, 255, 256, 300, 1000, 32768, 65535, 65536, 70000];
        let kinds = ["a label", "a constant's", "a data cell's", "a byte block's", "an address constant's", "a finalized constant's", "a finalized data cell's"];
        let desc = |u: u64, s: u64| format!("{} label after {} others, statement {}", kinds[u as usize / nums.len() % kinds.len()], nums[u as usize % nums.len()], show(s as usize % n as usize));
        pool.recycle = 1;
        if done {
            done = pool.run((nums.len() * kinds.len()) as u64, 1, &desc, |p, u| {
                let (num, kind) = (nums[u as usize % nums.len()], u as usize / nums.len());
                for more in [0usize, 1, 300] {
                    for before in [0usize, 1, 2, 300] {
                        let mut j = JitMemory::new();
                        for _ in 0..num {
                            j.label();
                        }
                        let l = match kind {
                            0 => j.label(),
                            1 | 5 => j.const_i64(7),
                            2 | 6 => j.data_i64(7),
                            3 => j.constant(16),
                            _ => {
                                let x = j.label();
                                j.bind_label(x);
                                j.abs_address(x)
                            }
                        };
                        if kind > 4 {
                            j.finalize();
                        }
                        for _ in 0..more {
                            j.label();
                        }
                        // references made before
                        for _ in 0..before {
                            j.save_reloc(l, 4);
                            j.emitl(0);
                        }
                        for k in refs.iter().copied() {
                            let want = solo[k].as_ref().unwrap();
                            p.sub(k as u64);
                            let a = Args { lab: l, ..stmts[k].1.clone() };
                            let r = quiet(|| emit(&mut j, &|j| (fs[stmts[k].0].f)(j, &a)));
                            p.add(2, 1);
                            if !matches!(&r, Ok(Ok(b)) if masked(b.clone()) == masked(want.clone())) {
                                p.violate("label", &format!("{}\n emits {:02x?} with the first label but {:02x?} with {} label after {} others ({} created after it, {} references before)", show(k), want, r, kinds[kind], num, more, before));
                                return;
                            }
                        }
                    }
                }
            });
        }
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"statements\": {},\n  \"contexts\": {},\n  \"ordered_pairs\": {},\n  \"multi_statement_blocks\": {},\n  \"statements_referring_to_a_label\": {},\n  \"state_meaning\": \"distinct (code, context) combinations\",\n  \"transition_meaning\": \"statements emitted by the implementation\",\n  \"validation\": \"every sequence is assembled by the implementation; the reference is the code each statement has on its own\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), pool.get(1), n, cx.len(), first.len() as u64 * n, ps.len() + lp.len(), pool.get(7),
        (0..4).map(|k| js(&format!("{} | {}", show(k * 97 % n as usize), ps[k * 911 % ps.len()].n))).collect::<Vec<_>>().join(", ")
    );
    ctx.finish("model_checking", &cov, &["the placeholder of an unresolved displacement counts as part of a statement's code"], &pool, done)
}
#[allow(dead_code)]
fn _unused(_: Stmt) {}
