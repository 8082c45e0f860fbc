//! C05, C15: the generated code is executed by the processor and by the
//! reference interpreter; every register, flag and memory byte must agree.
use mccore::form::*;
use mccore::interp::*;
use mccore::single::*;
use mccore::x86::Op;
use mccore::*;
mod form {
    pub use mccore::form::*;
}
mod forms {
    include!(concat!(env!("MC_GEN"), "/forms.rs"));
}

fn main() {
    let ctx = Ctx::from_env();
    let t = ctx.thorough;
    let c05 = ctx.prop == "C05";
    let all: Vec<&Form> = forms::FORMS.iter().flat_map(|t| t.iter()).collect();
    let flags: Vec<u64> = (0..64u64).map(|k| [CF, PF, AF, ZF, SF, OF].iter().enumerate().map(|(n, m)| if k >> n & 1 == 1 { *m } else { 0 }).sum()).collect();
    let full: Vec<u64> = (0..16).collect();
    let kn = if c05 {
        Knobs {
            regs: full.clone(),
            mregs: if t { full.clone() } else { vec![0, 4, 7, 13, 15] },
            bases: if t { full.clone() } else { vec![0, 4, 5, 12, 13] },
            indices: vec![1, 5, 12],
            disps: vec![0, -0x80, 0x12345],
            imms: std::array::from_fn(|_| vec![0]),
            ints: if t { ints_small() } else { vec![0, u64::MAX, 0x8765_4321_0fed_cba9] },
            floats: vec![0],
            flags: flags.clone(),
        }
    } else {
        Knobs {
            regs: if t { full.clone() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 12, 13, 15] },
            mregs: if t { vec![0, 2, 6, 12] } else { vec![0, 6, 12] },
            bases: if t { full.clone() } else { vec![0, 4, 5, 12, 13] },
            indices: if t { vec![0, 1, 5, 9, 12, 13] } else { vec![0, 5, 9, 12] },
            disps: if t { vec![0, 16, -128, 128, 0x12345] } else { vec![0, 16, -128, 0x12345] },
            imms: [
                vec![0, 1, -1, 2, 7, 31, 32, 63, 64, 127, -128],
                vec![0, 1, -1, 127, -128, 128, 0x7fff, -0x8000],
                vec![0, 1, -1, 127, -128, 128, -129, 0x12345678, 0x7fff_ffff, -0x8000_0000],
                vec![0, 1, -1, 0x7fff_ffff, 0x8000_0000, -0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1234_5678_9abc_def0, i64::MAX, i64::MIN],
                (0..16).collect(),
            ],
            ints: if t { ints_small().into_iter().chain([2, 3, 7, 0x55, 0x7fff, 0xffff, 0x10000, 0x7fff_ffff_ffff, 0x5555_5555_5555_5555, !1, !0x7f, !0x7fff_ffff]).collect() } else { ints_small() },
            floats: floats(),
            flags: if t { vec![0, ALL, CF, ALL & !CF] } else { vec![0, ALL] },
        }
    };
    let mut pool = Pool::new(if t { 26 } else { 24 });
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    pool.seccomp = true;
    pool.hang_secs = 30;
    let mut lines = vec![];
    let mut part = |name: &str, p: &Pool, c: &mut [u64; 3]| {
        let n = [p.get(2) + p.get(4), p.get(3), p.get(5)];
        lines.push(format!("{}: {} steps, {} cases, {} without a defined result", name, n[0] - c[0], n[1] - c[1], n[2] - c[2]));
        *c = n;
    };
    let mut c = [0; 3];
    // single statements
    let sp = Singles::new(all.iter().filter(|f| supported(f)).cloned().collect(), &kn);
    let mut done = sp.explore(&mut pool, &kn);
    part("single statements x registers x operand values x flags", &pool, &mut c);
    // jumps and calls to labels
    let js_: Vec<&Form> = all.iter().filter(|f| f.o[0] == K::Lab && (!c05 || matches!(f.op, Op::Jcc(_)))).cloned().collect();
    if done {
        done = pool.run(js_.len() as u64, 1, &|u, _| js_[u as usize].n.to_string(), |p, u| {
            let mut b = Bench::new();
            if let Err(e) = jumps(p, js_[u as usize], &mut b) {
                p.violate("jump", &e);
            }
        });
    }
    part("jumps to labels x 64 flag states x direction x distance x pages", &pool, &mut c);
    if !c05 {
        use mccore::prog::*;
        for (name, alpha, depth) in [
            ("all statements", &FULL[..], 2),
            ("all statements", &FULL[..], 3),
            ("all statements", &FULL[..], 4),
            ("control flow", &CONTROL[..], 5),
            ("control flow", &CONTROL[..], 6),
            ("cells", &CELLS[..], 5),
            ("cells", &CELLS[..], 6),
            ("all statements", &FULL[..], 5),
            ("cells", &CELLS[..], 7),
            ("control flow", &CONTROL[..], 7),
        ]
        .into_iter()
        .take(if t { 10 } else { 7 })
        {
            if done {
                done = explore(&mut pool, alpha, depth);
            }
            part(&format!("programs of {} statements over {} ({})", depth, name, alpha.len()), &pool, &mut c);
        }
        let bl = bodies(if t { 4 } else { 3 });
        if done {
            done = call_bodies(&mut pool, &bl);
        }
        part("functions called through typed pointers", &pool, &mut c);
    }
    for l in &lines {
        eprintln!("{}", l);
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"parts\": [{}],\n  \"state_meaning\": \"distinct (statement, operand values, resulting flags) and final program states\",\n  \"transition_meaning\": \"executions of single statements, statements assembled into programs and program runs\",\n  \"validation\": \"every interpreter run is compared with the processor running the code the implementation emitted\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2) + pool.get(4), pool.get(3), lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "),
        (0..6u64).map(|k| js(&sp.describe(k * (sp.units - 1) / 5, 0))).collect::<Vec<_>>().join(", ")
    );
    ctx.finish("model_checking", &cov, &["the reference interpreter (written from the ISA) and the processor", "flags an instruction leaves undefined are not compared"], &pool, done)
}
