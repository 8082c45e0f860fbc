//! C06-C09, C11, C19: all histories of API operations up to a depth.
use mccore::hist::{C::*, H::*, R::*, *};
use mccore::*;
mod form {
    pub use mccore::form::*;
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

fn suite(name: &'static str, depth: usize, alpha: &[H]) -> Suite {
    Suite { name, alpha: alpha.to_vec(), depth, pre: vec![] }
}
fn with(mut s: Suite, name: &'static str, pre: &[H]) -> Suite {
    s.name = name;
    s.pre = pre.to_vec();
    s
}

fn suites(prop: &str, t: bool) -> Vec<Suite> {
    let mut v = suites_(prop, t);
    v.push(with(suite("", if t { 5 } else { 4 }, &[Tog, Bind(0), Ref(Jmp, 0), Jm(1), Bind(1), Pat(0, 1), Con(I64), Dat(I32), AbsL(0), EB, Al(16), Fin]), "a memory made by default()", &[Dflt]));
    v
}
fn suites_(prop: &str, t: bool) -> Vec<Suite> {
    let q = |a: usize, b: usize| if t { b } else { a };
    match prop {
        "C06" => vec![
            suite("one label, all reference kinds", q(5, 6), &[Tog, Bind(0), Ref(Jmp, 0), Ref(Jne, 0), Ref(Call, 0), Ref(Lea, 0), Ref(StB, 0), Ref(StW, 0), Ref(StL, 0), Ref(AddQ, 0), Ref(Round, 0), Ref(Sse, 0), AbsL(0), Fin]),
            suite("one label, long", q(8, 9), &[Tog, Bind(0), Ref(Jmp, 0), Ref(StB, 0), AbsL(0), Fin, EB]),
            suite("two labels", q(7, 8), &[Tog, Bind(0), Bind(1), Ref(Jmp, 0), Ref(Jne, 1), Ref(Lea, 0), AbsL(1), Con(I64), Fin]),
            suite("constants and data", q(5, 6), &[Tog, Con(I64), Con(I32), Con(Bytes(3)), Dat(I64), Dat(I32), Con(Align8), RefI(Load, true), RefI(StB, false), AbsI, Fin, Ref(Jmp, 0), Bind(0)]),
            suite("binding on another page", q(6, 7), &[Tog, BindP(0, 0), BindP(1, 0), BindP(2, 0), BindP(1, 1), Ref(Jmp, 0), Ref(Lea, 1), AbsL(0), Dat(I64), Fin]),
            suite("labels bound again", q(6, 7), &[Tog, Bind(0), Rebind(0), Ref(Jmp, 0), Ref(StB, 0), AbsL(0), EB, Fin]),
            with(suite("", q(6, 7), &[Tog, Bind(0), Ref(Jmp, 0), Ref(StB, 0), Ref(Lea, 1), Bind(1), AbsL(0), Soil, Fin]), "over used memory", &[Soil]),
            suite("magnitudes", q(5, 6), &[Tog, Bind(0), Ref(Jmp, 0), Ref(StW, 0), RefN(300, 0), LabN(300), LoopN(300), Raw(300), Raw(70000), ConN(40), Fin]),
            suite("many", q(3, 4), &[Tog, Bind(0), RefN(70000, 0), LabN(70000), LoopN(9000), Raw(9_000_000), ConN(1000), DatN(1000), Fin]),
            suite("long lives", 3, &[Tog, Bind(0), Ref(Jmp, 0), Con(I64), AbsL(0), Life(0, 300), Life(1, 300), Life(2, 300), Life(3, 70), Life(2, 3000), FinN(3000), Fin]),
        ],
        "C07" => vec![
            suite("code, labels and constants", q(7, 8), &[Tog, Bind(0), Ref(Jmp, 0), Ref(StB, 0), Con(I64), Con(I32), AbsL(0), EB, Fin]),
            suite("two labels and data", q(7, 8), &[Tog, Bind(0), Bind(1), Ref(Lea, 0), Ref(Jne, 1), Dat(I64), Wr, Fin, Ins]),
            suite("run-time writes", q(7, 8), &[Tog, Dat(I64), Dat(I32), Dat(Bytes(5)), Wr, Fin, EB]),
            suite("run-time writes to constants", q(7, 8), &[Tog, Con(I64), Con(I32), Con(Bytes(5)), WrC, Fin, EB]),
            suite("bytes in the data region", q(6, 7), &[Tog, PgD, Dat(I64), Dat(I32), Dat(Bytes(3)), Soil, Wr, EB, Fin]),
            suite("named pages", q(6, 7), &[Tog, Pg(0, false), Pg(1, true), PgAl(1), Bind(0), Ref(Jmp, 0), Con(I32), EB, Fin]),
            suite("alignment", q(6, 8), &[Tog, EB, Al(16), Al(4096), Con(Bytes(17)), Con(Align8), Ref(Jmp, 0), Bind(0), Fin]),
            suite("labels bound again", q(7, 8), &[Tog, Bind(0), Rebind(0), Ref(Jmp, 0), Ref(StB, 0), AbsL(0), EB, Fin]),
            suite("patched jumps", q(8, 9), &[Tog, Jm(0), Bind(0), Bind(1), Pat(0, 1), Fin, Ref(Jmp, 1), Con(I64)]),
            suite("magnitudes", q(5, 6), &[Tog, Bind(0), RefN(300, 0), LoopN(300), Raw(300), Raw(70000), ConN(40), DatN(40), Wr, FinN(40), Fin]),
            suite("long lives", 3, &[Tog, Bind(0), Ref(Jmp, 0), Con(I64), Dat(I64), Wr, Life(0, 300), Life(1, 300), Life(2, 300), Life(4, 300), Life(3, 300), Life(2, 3000), FinN(3000), Fin]),
        ],
        "C08" => vec![
            suite("constants", q(5, 6), &[Tog, Con(F64), Con(I64), Con(I32), Con(Bytes(0)), Con(Bytes(1)), Con(Bytes(17)), Con(Align8), AbsL(0), Bind(0), EB, Fin]),
            suite("data", q(6, 7), &[Tog, Dat(I64), Dat(I32), Dat(Bytes(1)), Dat(Bytes(17)), Con(I32), Con(I64), EB, Fin]),
            suite("long", q(8, 9), &[Tog, Con(I32), Con(I64), Dat(I32), Fin, EB]),
            suite("equal and special values", q(5, 6), &[Tog, Con(V64(0)), Con(VF(0)), Con(VF(1 << 63)), Con(VF(0x7ff4_0000_0000_0001)), Con(VF(0xfff8_1234_5678_9abc)), Con(VF(1)), Con(V32(-1)), Con(V32(0)), Dat(V64(0)), Dat(V64(-1)), Dat(V64(i64::MIN)), Dat(V32(0)), Dat(V32(i32::MIN)), Fin]),
            with(suite("", q(5, 6), &[Tog, Con(Bytes(1)), Con(Bytes(17)), Con(V64(0)), Con(V32(0)), Con(VF(0)), Dat(Bytes(17)), Dat(V64(0)), Dat(V32(0)), AbsL(0), PgD, Soil, Fin]), "over used memory", &[Soil]),
            suite("absolute addresses", q(6, 7), &[Tog, AbsI, AbsL(0), Bind(0), Con(I32), Con(Bytes(5)), Dat(I64), EB, Fin]),
            suite("magnitudes", q(5, 6), &[Tog, ConN(100), DatN(100), Con(Bytes(300)), Con(Bytes(70000)), Dat(Bytes(70000)), Raw(70000), Al(4096), EB, Con(I64), Fin]),
            suite("many", 3, &[Tog, ConN(20000), DatN(20000), Dat(Bytes(9_000_000)), Con(Bytes(9_000_000)), EB, Fin]),
            suite("long lives", 3, &[Tog, Con(I64), Con(Bytes(17)), Dat(I64), AbsL(0), Life(0, 300), Life(1, 300), Life(4, 300), Life(1, 3000), Life(4, 3000), FinN(3000), Fin]),
        ],
        "C09" => vec![
            suite("one jump", q(8, 9), &[Tog, Jm(0), Bind(0), Bind(1), Pat(0, 0), Pat(0, 1), PatA(0, 1), Fin, EB]),
            with(suite("", q(7, 8), &[Tog, Bind(1), Bind(2), Pat(0, 0), Pat(0, 1), Pat(0, 2), PatA(0, 1), PatSelf(0), Fin, EB]), "one finalized jump", &[Jm(0), Bind(0), Fin]),
            with(suite("", q(6, 7), &[Tog, Bind(1), Jm(1), Pat(0, 0), Pat(1, 0), PatA(-1, 1), PatA(0, 1), PatJ(0, 1), PatJ(1, 0), PatSelf(1), Fin]), "two finalized jumps", &[Jm(0), Tog, Bind(0), Jm(0), Fin]),
            with(suite("", q(5, 6), &[Tog, Bind(1), Pat(0, 0), Pat(0, 1), PatA(0, 1), Raw(256), Raw(65536), Fin, Jm(1)]), "distances", &[Jm(0), Bind(0), Fin]),
            with(suite("", q(3, 4), &[Tog, Bind(1), Pat(0, 1), PatA(-1, 1), Raw(1 << 24), Fin, Jm(1)]), "long distances", &[Jm(0), Bind(0), Fin]),
            with(suite("", q(5, 6), &[Tog, Bind(1), Bind(2), Pat(0, 1), PatA(0, 2), Con(I64), AbsL(1), Dat(I64), Ref(Jmp, 1), LoopN(50), Fin]), "assembly around a patch", &[Jm(0), Bind(0), Fin]),
            with(suite("", 3, &[Tog, Bind(1), Bind(2), Pat(0, 1), PatA(0, 2), Life(0, 300), Life(2, 300), Life(5, 300), Life(5, 65535), Life(6, 300), Life(6, 3000), FinN(3000), Fin]), "long lives", &[Jm(0), Bind(0), Fin]),
        ],
        "C11" => vec![
            suite("positions", q(6, 7), &[Tog, EB, EL, Ins, Al(16), Bind(0), Bind(1), Ref(Jmp, 0), Con(I64), Dat(I64), Fin]),
            suite("labels", q(7, 8), &[Tog, Bind(0), BindP(0, 0), BindP(1, 1), BindP(2, 1), EB, Fin, Dat(I32)]),
            suite("labels bound again", q(6, 7), &[Tog, Bind(0), Rebind(0), Ref(Jmp, 0), EB, Con(I32), Fin]),
            suite("named pages", q(6, 7), &[Tog, Pg(0, false), Pg(1, true), PgAl(0), PgAl(1), Bind(0), BindP(1, 1), Con(I32), EB, Fin]),
            suite("blocks", q(8, 9), &[Tog, EB, Con(I32), Dat(I64), Fin]),
            suite("magnitudes", q(5, 6), &[Tog, Raw(300), Raw(70000), Al(4096), ConN(300), LabN(300), LoopN(40), FinN(40), Bind(0), Bind(1), Fin]),
            suite("long lives", 3, &[Tog, Bind(0), EB, Con(I64), Life(0, 300), Life(1, 300), Life(3, 300), Life(4, 300), Life(0, 5000), FinN(3000), FinN(40000), Fin]),
        ],
        "C19" => vec![
            suite("emission", q(6, 7), &[Tog, EB, EW, EL, EQ, Dq, Raw(0), Raw(3), Al(4), Al(8), Al(16), Al(4096), Fin]),
            suite("declarations", q(6, 7), &[Tog, EB, Con(I64), Con(Bytes(5)), Dat(I64), AbsL(0), Con(Align8), Al(8), Fin]),
            suite("long", q(8, 9), &[Tog, EB, EQ, Al(16), Con(I32), Fin]),
            suite("named pages", q(7, 8), &[Tog, EB, Pg(0, false), Pg(1, false), Pg(0, true), PgAl(1), Al(16), Con(I32), Fin]),
            with(suite("", q(6, 7), &[Tog, Soil, EZ(1), EZ(2), EZ(4), EZ(8), EZ(9), Zero(3), PgD, Al(8), Fin]), "zeros over used memory", &[Soil]),
            suite("labels", q(7, 8), &[Tog, EW, Bind(0), Ref(Jmp, 0), Ref(StB, 0), Dat(I32), Al(4), Fin]),
            suite("magnitudes", q(5, 6), &[Tog, EB, Raw(300), Raw(70000), Al(4), Al(16), Al(4096), FinN(40), ConN(40), Fin]),
            suite("many", 3, &[Tog, EB, Raw(20_000_000), Al(4), Al(16), Al(4096), ConN(2000), DatN(2000), Fin]),
            suite("long lives", 3, &[Tog, EB, Al(16), Con(I64), Life(0, 300), Life(1, 300), Life(3, 300), Life(3, 30000), Life(4, 300), FinN(3000), Fin]),
        ],
        _ => panic!(),
    }
}

fn main() {
    let ctx = Ctx::from_env();
    let prop: &'static str = Box::leak(ctx.prop.clone().into_boxed_str());
    let mut pool = Pool::new(if ctx.thorough { 29 } else { 26 });
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    let ss = suites(prop, ctx.thorough);
    let mut done = true;
    let mut lines = vec![];
    for s in &ss {
        let (h0, d0) = (pool.get(3), pool.get(4));
        let t0 = std::time::Instant::now();
        if done {
            done = explore(prop, s, &mut pool);
        }
        lines.push(format!("{} (alphabet {}, depth {}): {} histories, {} disabled prefixes cut, {:.1} s", s.name, s.alpha.len(), s.depth, pool.get(3) - h0, pool.get(4) - d0, t0.elapsed().as_secs_f64()));
        eprintln!("{}", lines.last().unwrap());
    }
    let mut extra = String::new();
    if done && prop == "C06" {
        done = every_instruction(&mut pool);
        extra = format!("  \"rip_label_cases\": {},\n", pool.get(5));
    }
    if done && prop == "C19" {
        done = every_word(&mut pool) && every_emission(&mut pool, ctx.thorough) && far_emission(&mut pool);
        extra = format!("  \"emission_cases\": {},\n", pool.get(5));
    }
    if done && prop == "C08" {
        done = every_value(&mut pool, ctx.thorough);
        extra = format!("  \"value_cases\": {},\n", pool.get(5));
    }
    if done && prop != "C19" {
        let (d, l) = far::explore(prop, ctx.thorough, &mut pool);
        done = d;
        eprintln!("{}", l);
        lines.push(l);
    }
    let samples: Vec<String> = ss.iter().map(|s| js(&format!("{}: {} ...", s.name, show(&s.alpha, &(0..s.depth).map(|d| (d * 7 + 3) % s.alpha.len()).collect::<Vec<_>>())))).collect();
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n{}  \"suites\": [{}],\n  \"state_meaning\": \"distinct states of the reference model (hash table, lower bound if it fills)\",\n  \"transition_meaning\": \"operations executed on the real JitMemory in lockstep with the model, everything compared after each\",\n  \"validation\": \"every explored history is executed on the implementation itself\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), pool.get(3), extra,
        lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "), samples.join(", ")
    );
    ctx.finish("model_checking", &cov, &["a label is bound again only when none of its references is unresolved", "the reference decoder reads the displacement of a reference as the processor does"], &pool, done)
}

/// Every instruction form with a memory operand written [rip + label], with the
/// label before, after, on the other page, in a constant and in data.
fn every_instruction(pool: &mut Pool) -> bool {
    let fs: Vec<&form::Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    let imms = [5i64, 0x66, -1];
    let desc = |u: u64, s: u64| format!("{} case {}", fs[u as usize].n, s);
    pool.recycle = 20;
    pool.run(fs.len() as u64, 1, &desc, |p, u| {
        let f = fs[u as usize];
        let mut case = 0;
        for place in 0..6 {
            for page in 0..2 {
                for (r, imm) in [(0u64, imms[0]), (3, imms[1]), (9, imms[2]), (15, imms[0])] {
                    case += 1;
                    p.sub(case);
                    let r_ = quiet(|| -> Result<(), String> {
                        let mut j = monoasm::JitMemory::new();
                        j.select_page(page);
                        let lab = match place {
                            3 => j.const_i64(7),
                            4 => j.data_i64(7),
                            _ => j.label(),
                        };
                        j.emit(&[0x90; 3]);
                        if place == 0 {
                            j.bind_label(lab);
                        }
                        let a = form::Args { r0: r, r1: r, r2: r, imm, lab, ..Default::default() };
                        let at = j.get_current_address().as_ptr() as usize;
                        let s = j.get_current();
                        (f.f)(&mut j, &a);
                        let n = j.get_current() - s;
                        j.emit(&[0x90; 7]);
                        match place {
                            1 => j.bind_label(lab),
                            2 => {
                                j.select_page(1 - page);
                                j.emit(&[0x90; 5]);
                                j.bind_label(lab);
                            }
                            5 => {
                                j.finalize();
                                j.emit(&[0x90; 300]);
                                j.bind_label(lab);
                            }
                            _ => {}
                        }
                        j.finalize();
                        let b = unsafe { std::slice::from_raw_parts(at as *const u8, n) };
                        let tgt = j.get_label_address(lab).as_ptr() as usize;
                        unsafe { libc::madvise((at & !4095) as *mut _, 8192, libc::MADV_DONTNEED) };
                        match ref_disp(b) {
                            Some((_, len, d)) if len == n => {
                                let got = (at as i64 + n as i64 + d) as usize;
                                if got != tgt {
                                    return Err(format!("{} {:02x?} addresses a place {:+} bytes from its label", f.case(&a), b, got as i64 - tgt as i64));
                                }
                            }
                            // a malformed instruction: judged by the encoding properties
                            _ => {}
                        }
                        Ok(())
                    });
                    p.add(5, 1);
                    p.add(2, 1);
                    match r_ {
                        Ok(Ok(())) => {}
                        Ok(Err(t)) => {
                            p.violate("rip-label", &format!("{} (place {}, page {})", t, place, page));
                            return;
                        }
                        Err(()) => {
                            p.violate("panic", &format!("{} (place {}, page {}) is valid but was refused with a panic", f.n, place, page));
                            return;
                        }
                    }
                }
            }
        }
    })
}

/// `dq` of every literal notation: eight little-endian bytes, at several places of every page.
fn every_word(pool: &mut Pool) -> bool {
    let fs: Vec<&form::Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, s: u64| format!("{} case {}", fs[u as usize].n, s);
    pool.recycle = 20;
    pool.run(fs.len() as u64, 1, &desc, |p, u| {
        let f = fs[u as usize];
        let form::K::Im(want) = f.o[0] else { panic!() };
        let mut case = 0;
        for page in 0..2 {
            for before in [0usize, 1, 3, 8, 4090] {
                case += 1;
                p.sub(case);
                let r = quiet(|| {
                    let mut j = monoasm::JitMemory::new();
                    j.select_page(page);
                    j.emit(&vec![0x90; before]);
                    let at = j.get_current_address().as_ptr() as usize;
                    let s = j.get_current();
                    let beyond = unsafe { *(at as *const u8).add(16) };
                    (f.f)(&mut j, &form::Args::default());
                    (f.f)(&mut j, &form::Args::default());
                    let n = j.get_current() - s;
                    let got: Vec<u8> = unsafe { std::slice::from_raw_parts(at as *const u8, 17) }.to_vec();
                    (n, got, beyond)
                });
                p.add(5, 1);
                p.add(2, 1);
                let mut exp = want.to_le_bytes().to_vec();
                exp.extend(want.to_le_bytes());
                if let Ok((_, _, b)) = &r {
                    exp.push(*b);
                }
                match r {
                    Ok((16, g, _)) if g == exp => {}
                    Ok((n, g, _)) => {
                        p.violate("dq", &format!("{} written twice at position {} of page {} appends {} bytes {:02x?}, expected {:02x?}", f.n, before, page, n, g, exp));
                        return;
                    }
                    Err(()) => {
                        p.violate("panic", &format!("{} is valid but was refused with a panic", f.n));
                        return;
                    }
                }
            }
        }
    })
}

/// Emissions and alignments a few bytes around every megabyte of a page.
fn far_emission(pool: &mut Pool) -> bool {
    const OFFS: [i64; 7] = [-17, -3, -1, 0, 1, 3, 17];
    let desc = |u: u64, s: u64| format!("far emission group {} case {}", u, s);
    pool.recycle = 4;
    pool.run(9 * 7 * 3, 1, &desc, |p, u| {
        let (op, off, place) = (u as usize % 9, OFFS[u as usize / 9 % 7], u as usize / 63);
        let r = quiet(|| -> Result<(), String> {
            let mut j = monoasm::JitMemory::new();
            let page = if place == 0 { 0 } else { 1 };
            j.select_page(page);
            let base = j.get_current_address().as_ptr() as usize;
            // place 2: page 1 by its name while page 0 is selected
            if place == 2 {
                j.select_page(0);
            }
            let mut at = 0usize;
            let mut bad = None;
            for meg in 1..=255usize {
                let goal = ((meg << 20) as i64 + off) as usize;
                let m = &mut j[monoasm::Page(page)];
                while at + 4096 <= goal {
                    m.emitb(0x90);
                    m.align_page();
                    at = (at / 4096 + 1) * 4096;
                }
                while at < goal {
                    m.emitb(0x90);
                    at += 1;
                }
                p.sub(meg as u64);
                p.add(5, 1);
                p.add(2, 1);
                let mut want: Vec<u8> = vec![];
                let v = 0x8877_6655_4433_2211u64 ^ (meg as u64) << 56;
                if place != 2 {
                    match op {
                        0 => j.emitb(v as u8),
                        1 => j.emitw(v as u16),
                        2 => j.emitl(v as u32),
                        3 => j.emitq(v),
                        4 => j.emit(&[1, 2, 3, 4, 5, 6, 7, 8, 9]),
                        5 => j.align4(),
                        6 => j.align8(),
                        7 => j.align16(),
                        _ => j.align_page(),
                    }
                } else {
                    let m = &mut j[monoasm::Page(page)];
                    match op {
                        0 => m.emitb(v as u8),
                        1 => m.emitw(v as u16),
                        2 => m.emitl(v as u32),
                        3 => m.emitq(v),
                        4 => (1..=9).for_each(|b| m.emitb(b)),
                        5 => m.align4(),
                        6 => m.align8(),
                        7 => m.align16(),
                        _ => m.align_page(),
                    }
                }
                match op {
                    0..=3 => want.extend(&v.to_le_bytes()[..1 << op]),
                    4 => want.extend([1, 2, 3, 4, 5, 6, 7, 8, 9]),
                    _ => {}
                }
                let got = unsafe { std::slice::from_raw_parts((base + at) as *const u8, want.len()) };
                let from = at;
                at = match op {
                    5 => (at + 3) / 4 * 4,
                    6 => (at + 7) / 8 * 8,
                    7 => (at + 15) / 16 * 16,
                    8 => (at + 4095) / 4096 * 4096,
                    _ => at + want.len(),
                };
                j.select_page(page);
                let cur = j.get_current();
                if place == 2 {
                    j.select_page(0);
                    if j.get_current() != 0 {
                        bad = Some("moved the cursor of the selected page".to_string());
                    }
                }
                if cur != at || got != want {
                    bad = Some(format!("left {:02x?} and the cursor at {} instead of {:02x?} and {}", got, cur, want, at));
                }
                if let Some(t) = &bad {
                    let name = ["emitb", "emitw", "emitl", "emitq", "emit of 9 bytes", "align4", "align8", "align16", "align_page"][op];
                    bad = Some(format!("{} at position {:#x} of page {}{} {}", name, from, page, if place == 2 { " (named)" } else { "" }, t));
                    break;
                }
            }
            unsafe { libc::madvise(base as *mut _, 256 << 20, libc::MADV_DONTNEED) };
            match bad {
                Some(t) => Err(t),
                None => Ok(()),
            }
        });
        let mut h = Fp::default();
        h.u(u);
        h.u(99);
        p.state(h.0);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(t)) => p.violate("far-emission", &t),
            Err(()) => p.violate("panic", &format!("an emission inside the page was refused with a panic (group {})", u)),
        }
    })
}

/// Every byte and word, dense and boundary double and quad words, slices of every length,
/// and every alignment from every position of the first 4 KB pages.
fn every_emission(pool: &mut Pool, t: bool) -> bool {
    let v32 = form::ints(32, if t { 70000 } else { 3000 });
    let v64 = form::ints(64, if t { 70000 } else { 3000 });
    let desc = |u: u64, s: u64| format!("emission group {} case {}", u, s);
    pool.recycle = 4;
    pool.run(14, 1, &desc, |p, u| {
        let page = u as usize % 2;
        let r = quiet(|| -> Result<(), String> {
            let mut j = monoasm::JitMemory::new();
            j.select_page(page);
            let base = j.get_current_address().as_ptr() as usize - j.get_current();
            let mut at = 0usize;
            let mut n = 0;
            let mut one = |j: &mut monoasm::JitMemory, name: &str, want: &[u8], f: &dyn Fn(&mut monoasm::JitMemory)| -> Result<(), String> {
                f(j);
                p.add(5, 1);
                p.add(2, 1);
                n += 1;
                p.sub(n);
                let got = unsafe { std::slice::from_raw_parts((base + at) as *const u8, want.len()) };
                at += want.len();
                if j.get_current() != at || got != want {
                    return Err(format!("{} on page {} left {:02x?} and the cursor at {} instead of {:02x?} and {}", name, page, &got[..got.len().min(40)], j.get_current(), &want[..want.len().min(40)], at));
                }
                Ok(())
            };
            match u / 2 {
                0 => {
                    for v in 0..=255u8 {
                        one(&mut j, &format!("emitb({:#x})", v), &[v], &|j| j.emitb(v))?;
                    }
                    for v in 0..=65535u16 {
                        one(&mut j, &format!("emitw({:#x})", v), &v.to_le_bytes(), &|j| j.emitw(v))?;
                    }
                }
                1 => {
                    for v in &v32 {
                        let v = *v as u32;
                        one(&mut j, &format!("emitl({:#x})", v), &v.to_le_bytes(), &|j| j.emitl(v))?;
                    }
                }
                2 => {
                    for v in &v64 {
                        let v = *v as u64;
                        one(&mut j, &format!("emitq({:#x})", v), &v.to_le_bytes(), &|j| j.emitq(v))?;
                    }
                }
                3 => {
                    // slices of every length, of several contents, at every alignment
                    for n in (0..=600).chain([1000, 4095, 4096, 4097, 65535, 65536, 65537]) {
                        for c in 0..3u8 {
                            let v: Vec<u8> = (0..n).map(|k: usize| match c { 0 => 0, 1 => 0xff, _ => (k as u8).wrapping_mul(31) ^ (k >> 8) as u8 }).collect();
                            one(&mut j, &format!("emit of {} bytes", n), &v, &|j| j.emit(&v))?;
                        }
                        one(&mut j, "emitb", &[0x90], &|j| j.emitb(0x90))?;
                    }
                }
                k => {
                    // alignments from every position, of the selected page and of a named one
                    let named = k == 5;
                    let other = k == 6;
                    if other {
                        j.select_page(1 - page);
                    }
                    let mut n = 0;
                    for al in [4usize, 8, 16, 4096] {
                        let mut pos = if other { 0 } else { j.get_current() };
                        if other {
                            j = monoasm::JitMemory::new();
                            j.select_page(1 - page);
                        }
                        for step in 0..if al == 4096 { 4200 } else { 70 } {
                            let m = &mut j[monoasm::Page(page)];
                            // advance to each residue in turn
                            for _ in 0..if al == 4096 && step == 4100 { 3 } else { (step % al.max(2)).min(4097) } {
                                m.emitb(0x90);
                                pos += 1;
                                if al == 4096 && step > 40 && step < 4050 {
                                    break;
                                }
                            }
                            let _ = m;
                            for _ in 0..2 {
                                if named || other {
                                    let m = &mut j[monoasm::Page(page)];
                                    match al { 4 => m.align4(), 8 => m.align8(), 16 => m.align16(), _ => m.align_page() }
                                } else {
                                    match al { 4 => j.align4(), 8 => j.align8(), 16 => j.align16(), _ => j.align_page() }
                                }
                                let want = (pos + al - 1) / al * al;
                                n += 1;
                                p.sub(n);
                                p.add(5, 1);
                                p.add(2, 1);
                                if other {
                                    if j.get_current() != 0 {
                                        return Err(format!("aligning page {} to {} moved the cursor of the selected page", page, al));
                                    }
                                    j.select_page(page);
                                }
                                let got = j.get_current();
                                if other {
                                    j.select_page(1 - page);
                                }
                                if got != want {
                                    return Err(format!("aligning page {} to {} at position {} gave {} instead of {}", page, al, pos, got, want));
                                }
                                pos = want;
                            }
                        }
                    }
                }
            }
            unsafe { libc::madvise((base & !4095) as *mut _, 32 << 20, libc::MADV_DONTNEED) };
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(t)) => p.violate("emission", &t),
            Err(()) => p.violate("panic", &format!("emission group {} was refused with a panic", u)),
        }
    })
}

/// Constants and data of every boundary value and a dense window, and blocks of every length.
fn every_value(pool: &mut Pool, t: bool) -> bool {
    let w = if t { 70000 } else { 2000 };
    let v32 = form::ints(32, w);
    let v64 = form::ints(64, w);
    let mut fl: Vec<u64> = v64.iter().map(|v| *v as u64).collect();
    for e in 0..2048u64 {
        for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 0x5_5555_5555_5555] {
            fl.push(e << 52 | m);
            fl.push(1 << 63 | e << 52 | m);
        }
    }
    let desc = |u: u64, s: u64| format!("value group {} case {}", u, s);
    pool.recycle = 4;
    pool.run(14, 1, &desc, |p, u| {
        let page = u as usize % 2;
        let kind = u / 2;
        let r = quiet(|| -> Result<(), String> {
            let mut j = monoasm::JitMemory::new();
            j.select_page(page);
            j.emitb(0xc3);
            let mut items: Vec<(monoasm::DestLabel, Vec<u8>, usize, String)> = vec![];
            let push = |x, v: &[u8], al: usize, n: String, i: &mut Vec<(monoasm::DestLabel, Vec<u8>, usize, String)>| i.push((x, v.to_vec(), al, n));
            match kind {
                0 => for v in &v64 { push(j.const_i64(*v), &v.to_le_bytes(), 16, format!("const_i64({:#x})", v), &mut items) },
                1 => for v in &fl { push(j.const_f64(f64::from_bits(*v)), &v.to_le_bytes(), 16, format!("const_f64 of bits {:#x}", v), &mut items) },
                2 => for v in &v32 { push(j.const_i32(*v as i32), &(*v as i32).to_le_bytes(), 4, format!("const_i32({:#x})", v), &mut items) },
                3 => for v in &v64 { push(j.data_i64(*v), &v.to_le_bytes(), 16, format!("data_i64({:#x})", v), &mut items) },
                4 => for v in &v32 { push(j.data_i32(*v as i32), &(*v as i32).to_le_bytes(), 4, format!("data_i32({:#x})", v), &mut items) },
                k => for n in (0..=600).chain([1000, 4095, 4096, 4097, 65535, 65536, 65537]) {
                    let x = if k == 5 { j.constant(n) } else { j.data(n) };
                    push(x, &vec![0; n], 16, format!("a block of {} bytes", n), &mut items);
                    let y = if k == 5 { j.const_i32(-1) } else { j.data_i32(-1) };
                    push(y, &[0xff; 4], 4, format!("the word after a block of {} bytes", n), &mut items);
                },
            }
            // junk where they will come to lie
            let here = j.get_current();
            for k in 0..400_000 {
                let d = monoasm::Pos::from(k);
                if kind == 3 || kind == 4 || kind == 6 {
                    j[monoasm::Page(2)][d] = 0xee;
                } else if k >= here {
                    j[d] = 0xee;
                }
            }
            j.finalize();
            let mut ranges = vec![];
            for (n, (l, v, al, name)) in items.iter().enumerate() {
                p.sub(n as u64);
                p.add(5, 1);
                p.add(2, 1);
                let a = j.get_label_address(*l).as_ptr() as usize;
                let got = unsafe { std::slice::from_raw_parts(a as *const u8, v.len()) };
                if got != &v[..] {
                    return Err(format!("{} declared with page {} selected holds {:02x?} instead of {:02x?}", name, page, &got[..got.len().min(32)], &v[..v.len().min(32)]));
                }
                if a % al != 0 {
                    return Err(format!("{} lies at an address that is {} modulo {}", name, a % al, al));
                }
                ranges.push((a, v.len(), n));
            }
            ranges.sort();
            for w in ranges.windows(2) {
                if w[0].1 > 0 && w[1].1 > 0 && w[0].0 + w[0].1 > w[1].0 {
                    return Err(format!("{} overlaps {}", items[w[0].2].3, items[w[1].2].3));
                }
            }
            if let Some((a, _, _)) = ranges.first() {
                unsafe { libc::madvise((a & !4095) as *mut _, 16 << 20, libc::MADV_DONTNEED) };
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(t)) => p.violate("value", &t),
            Err(()) => p.violate("panic", &format!("value group {} was refused with a panic", u)),
        }
    })
}
