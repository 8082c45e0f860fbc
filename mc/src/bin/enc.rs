//! C01-C04: the operand space of every instruction form.
use mccore::form::*;
use mccore::*;
mod form {
    pub use mccore::form::*;
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

fn main() {
    let ctx = Ctx::from_env();
    let t = ctx.thorough;
    let all: Vec<u64> = (0..16).collect();
    let idx: Vec<u64> = (0..16).filter(|x| *x != 4).collect();
    let i8s = vec![0i64, 1, -1, 2, 5, 127, -128];
    let i16s = vec![0i64, 1, -1, 127, -128, 128, -129, 0x7fff, -0x8000];
    let i32s = vec![0i64, 1, -1, 127, -128, 128, -129, 0x12345678, 0x7fff_ffff, -0x8000_0000];
    let i64s = vec![0i64, 1, -1, 127, 128, 0x7fff_ffff, 0x8000_0000, -0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1234_5678_9abc_def0, i64::MAX, i64::MIN];
    let mut dom = Domain {
        regs: all.clone(),
        bases: all.clone(),
        indices: idx.clone(),
        disps: vec![0, 1, 127, 128, -128, -129, 0x12345678],
        imms: [i8s, i16s, i32s, i64s, vec![0, 1, 2, 3, 4, 8, 11, 127, 128, 255]],
    };
    match ctx.prop.as_str() {
        "C01" | "C02" if t => {
            dom.disps = disp_small();
            dom.imms[0] = (-128..128).collect();
            dom.imms[4] = (0..256).collect();
        }
        "C03" => {
            dom.disps = if t { ints(32, 300) } else { disp_small() };
            // the other operands: all registers, one immediate of each size class
            dom.imms = [vec![5], vec![5, 0x1234], vec![5, 0x12345678], vec![5], vec![5]];
            if t {
                dom.regs = vec![0, 1, 4, 5, 7, 8, 12, 13, 15];
            }
        }
        "C04" => {
            dom.disps = vec![0, 1, 0x1234567];
            if !t {
                dom.regs = vec![0, 3, 4, 7, 8, 15];
                dom.bases = vec![0, 4, 5, 13];
                dom.indices = vec![1, 12];
            }
            dom.imms = [(-128..128).collect(), (-32768..32768).collect(), ints(32, if t { 70000 } else { 1000 }), ints(64, if t { 70000 } else { 1000 }), (0..256).collect()];
        }
        _ => {}
    }
    let sp = Space::new(forms::FORMS, &dom);
    let mut pool = Pool::new(if t { 29 } else { 27 });
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    let mut done = sp.explore(&mut pool);
    let mut extra = String::new();
    if done && ctx.prop == "C04" {
        done = refusals(&sp, &mut pool);
        extra = format!("  \"out_of_range_immediates_tried\": {},\n  \"of_those_refused\": {},\n", pool.get(4), pool.get(3));
    }
    if done && ctx.prop == "C04" {
        done = literals(&mut pool);
    }
    if done && (ctx.prop == "C03" || ctx.prop == "C04") {
        done = full32(&ctx, &sp, &mut pool);
        extra += &format!("  \"cases_with_dense_values\": {},\n", pool.get(5));
    }
    let scratch = ctx.root.join("build/scratch");
    let (conf, note) = match pool.violation() {
        None => match sp.conform(if t { 60 } else { 12 }, &scratch) {
            Ok(n) => (n, "agrees".to_string()),
            Err(e) => (0, e),
        },
        _ => (0, "not run".into()),
    };
    let samples = if pool.violation().is_none() { sp.samples(6) } else { String::new() };
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"forms\": {},\n{}  \"state_meaning\": \"distinct machine-code strings produced (hash table, lower bound if it fills)\",\n  \"transition_meaning\": \"monoasm! statements emitted by the implementation and compared with the reference model\",\n  \"validation\": \"instructions of the run replayed through objdump and compared with the model's reading: {}\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), conf, sp.forms.len(), extra, note.replace('"', "'").replace('\n', " "), samples
    );
    ctx.finish("model_checking", &cov, &["the reference decoder reads machine code as the processor does (validated against objdump on every form)"], &pool, done)
}

/// Values outside the immediate's width: refused, or (where the operand itself
/// has that width) encoded with exactly the written bits.
fn refusals(sp: &Space, pool: &mut Pool) -> bool {
    let fs: Vec<&&Form> = sp.forms.iter().filter(|f| f.imm_bits().map_or(false, |(b, s)| s && b < 64)).collect();
    let desc = |u: u64, s: u64| format!("{} with out-of-range value no. {}", fs[u as usize].n, s);
    pool.recycle = 8;
    pool.run(fs.len() as u64, 1, &desc, |p, u| {
        let f = fs[u as usize];
        let (bits, _) = f.imm_bits().unwrap();
        let lim = 1i128 << (bits - 1);
        let mut s = Scratch::new();
        for (n, v) in ints(64, 1100).into_iter().filter(|v| (*v as i128) < -lim || (*v as i128) >= lim).enumerate() {
            p.sub(n as u64);
            for (b, r) in [(0u64, 0u64), (1, 3), (5, 4), (13, 12)] {
                let a = Args { r0: r, r1: r, r2: r, b, i: 1, d: 1, imm: v, ..Args::default() };
                p.add(4, 1);
                let start = s.jit.get_current();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.f)(&mut s.jit, &a)));
                if res.is_err() {
                    p.add(3, 1);
                    continue;
                }
                let end = s.jit.get_current();
                let code = unsafe { std::slice::from_raw_parts((s.base[0] + start) as *const u8, end - start) };
                let unsigned_ok = f.w < 8 && matches!(f.o[1], K::I(_)) && v > 0 && (v as i128) < (1i128 << (8 * f.w as u32));
                let shift = matches!(f.op, mccore::x86::Op::Rol | mccore::x86::Op::Ror | mccore::x86::Op::Shl | mccore::x86::Op::Shr | mccore::x86::Op::Sar);
                let ok = if shift { v > 0 && v < 256 } else { unsigned_ok };
                if !ok {
                    p.violate("imm-range", &format!("{}\n does not fit the instruction but was accepted: {:02x?} {}", f.case(&a), code, mccore::x86::decode(code).map(|x| x.0.text()).unwrap_or_default()));
                    return;
                }
                if let Err(t) = compare(f, &a, code) {
                    p.violate("imm-range", &t);
                    return;
                }
            }
        }
    })
}

/// Literal values outside the immediate's width (those the macro accepts): refused or exact.
fn literals(pool: &mut Pool) -> bool {
    let fs: Vec<&Form> = forms::OUT.iter().flat_map(|t| t.iter()).collect();
    let desc = |u: u64, _: u64| fs[u as usize].n.to_string();
    pool.recycle = 64;
    pool.run(fs.len() as u64, 1, &desc, |p, u| {
        let f = fs[u as usize];
        let v = f.o.iter().find_map(|k| if let K::Im(v) = k { Some(*v) } else { None }).unwrap();
        let mut s = Scratch::new();
        p.add(4, 1);
        let a = Args::default();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.f)(&mut s.jit, &a))).is_err() {
            p.add(3, 1);
            return;
        }
        let code = unsafe { std::slice::from_raw_parts(s.base[0] as *const u8, s.jit.get_current()) };
        let ok = f.w < 8 && v > 0 && (v as i128) < (1i128 << (8 * f.w as u32));
        if !ok {
            p.violate("imm-range", &format!("{}\n does not fit the instruction but was accepted: {:02x?} {}", f.n, code, mccore::x86::decode(code).map(|x| x.0.text()).unwrap_or_default()));
        } else if let Err(t) = compare(f, &a, code) {
            p.violate("imm-range", &t);
        }
    })
}

/// All 2^32 values of a displacement / immediate, for one form per encoding path.
fn full32(ctx: &Ctx, sp: &Space, pool: &mut Pool) -> bool {
    let c3 = ctx.prop == "C03";
    let mut picks: Vec<(&Form, Args)> = vec![];
    for f in &sp.forms {
        if c3 {
            let m = match f.mem() {
                Some(m) => m,
                None => continue,
            };
            if m.2 == 0 || !(f.n.starts_with("movq R(a.r0), [") || f.n.starts_with("movb [") && f.n.contains("imm") || f.n.starts_with("addw [") && f.n.contains("imm")) {
                continue;
            }
            if m.2 == -1 && !f.n.starts_with("movq R") {
                continue;
            }
            let bs: &[u64] = if m.0 { &[0] } else if f.n.starts_with("movq R") && m.2 == 1 { &[0, 4, 5, 12, 13] } else { &[5] };
            if m.1 != 255 && m.1 != 1 {
                continue;
            }
            for b in bs {
                picks.push((f, Args { r0: 3, r1: 3, r2: 3, b: *b, i: 9, d: 0, imm: 5, ..Args::default() }));
            }
        } else {
            if f.imm_bits() != Some((32, true)) {
                continue;
            }
            let plain = f.mem().is_none();
            let pick = ["addq", "cmpl", "movl", "testq", "call", "subq"].iter().any(|p| f.n.starts_with(p)) && plain || (f.n.starts_with("movq [R(a.b)],") || f.n.starts_with("movl [R(a.b)],") || f.n.starts_with("andq [rip"));
            if pick {
                picks.push((f, Args { r0: 9, r1: 0, r2: 0, b: 13, i: 1, d: 1, imm: 0, ..Args::default() }));
            }
        }
    }
    let per = if ctx.thorough { 1u64 << 22 } else { 1 << 16 };
    // quick: -2^18..2^18 and both ends
    let starts: Vec<i64> = if ctx.thorough { (0..1024).map(|k| k << 22).collect() } else { (-4..4).map(|k| k << 16).chain([0x7fff_0000, -0x8000_0000]).collect() };
    let ns = starts.len() as u64;
    let units = picks.len() as u64 * ns;
    let desc = |u: u64, s: u64| format!("{} values from {} + {}", picks[(u / ns) as usize].0.n, starts[(u % ns) as usize], s);
    pool.recycle = 64;
    pool.run(units, 1, &desc, |p, u| {
        let (f, mut a) = (picks[(u / ns) as usize].0, picks[(u / ns) as usize].1);
        let mut s = Scratch::new();
        let sg = f.mem().map_or(1, |m| m.2 as i64);
        let cur = std::cell::Cell::new(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for k in 0..per {
                let v = (starts[(u % ns) as usize] as u64).wrapping_add(k) as u32 as i32 as i64;
                if c3 {
                    a.d = sg * v;
                } else {
                    a.imm = v;
                }
                cur.set(v);
                if k & 0xffff == 0 {
                    p.sub(k);
                    s.renew(4 << 20);
                }
                if let Err(t) = check_case(f, &a, &mut s, 0) {
                    p.violate("encoding", &t);
                    return;
                }
            }
            s.renew(0);
        }));
        if r.is_err() {
            p.violate("refused", &format!("{} with value {} was refused with a panic", f.n, cur.get()));
        }
        p.add(2, per);
        p.add(5, per);
    })
}
