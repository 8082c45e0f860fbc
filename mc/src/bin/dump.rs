//! C18: after every history ending in finalize, the dump lists exactly the code of
//! the selected page's last block.
use mccore::hist::{quiet, show, C, H, R, Suite, Sys};
use mccore::objdump::agree;
use mccore::x86::decode;
use mccore::*;

/// the dump's lines as (offset, bytes, text); None for elided zeros
fn parse(d: &str) -> Result<Vec<Option<(usize, Vec<u8>, String)>>, String> {
    let mut v = vec![];
    for l in d.lines() {
        if l.trim() == "..." {
            v.push(None);
            continue;
        }
        let mut f = l.splitn(3, '\t');
        let a = f.next().unwrap_or("").trim();
        let a = a.strip_suffix(':').and_then(|x| usize::from_str_radix(x, 16).ok()).ok_or_else(|| format!("the line {:?} is not a line of disassembly", l))?;
        let mut b = vec![];
        for h in f.next().unwrap_or("").split_whitespace() {
            b.push(u8::from_str_radix(h, 16).map_err(|_| format!("the line {:?} has no bytes column", l))?);
        }
        v.push(Some((a, b, f.next().unwrap_or("").trim().to_string())));
    }
    Ok(v)
}

/// `code`: the bytes that must be listed; `plain`: they are instructions only
fn compare(d: &str, code: &[u8], plain: bool) -> Result<(), String> {
    let v = parse(d)?;
    let mut at = 0usize;
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            None => {
                let to = match v.get(k + 1) {
                    Some(Some((a, _, _))) => *a,
                    _ => code.len(),
                };
                if to < at || to > code.len() || code[at..to].iter().any(|b| *b != 0) {
                    return Err(format!("the dump elides the bytes {}..{} of a block of {} bytes as zeros", at, to, code.len()));
                }
                at = to;
            }
            Some((a, b, _)) => {
                if *a != at {
                    return Err(format!("the dump continues at offset {:#x} after {:#x} bytes", a, at));
                }
                if at + b.len() > code.len() {
                    return Err(format!("the dump lists {} bytes at offset {:#x} but the block has only {} bytes", b.len(), at, code.len()));
                }
                if b[..] != code[at..at + b.len()] {
                    return Err(format!("the dump lists {:02x?} at offset {:#x} where the code is {:02x?}", b, at, &code[at..at + b.len()]));
                }
                at += b.len();
            }
        }
        k += 1;
    }
    if at != code.len() {
        return Err(format!("the dump lists {} bytes of a block of {} bytes", at, code.len()));
    }
    if plain {
        // every instruction on a line of its own (continued on lines without text)
        let mut at = 0;
        let mut k = 0;
        while at < code.len() {
            let (ins, n) = match decode(&code[at..]) {
                Ok(x) => x,
                Err(_) => return Ok(()), // judged by the encoding properties
            };
            let mut len = 0;
            let mut txt = String::new();
            while k < v.len() {
                match &v[k] {
                    Some((_, b, t)) if len == 0 || t.is_empty() => {
                        if len == 0 {
                            txt = t.clone();
                        }
                        len += b.len();
                        k += 1;
                    }
                    _ => break,
                }
            }
            if let Err((g, w)) = agree(&code[at..at + n], &ins, at, len, &txt) {
                // addresses before the block are shown modulo 2^32, AT&T syntax is a disassembly too
                if !(g == w.replace("0xffffffff", "0x") || g.contains('%')) || len != n {
                    return Err(format!("the dump shows '{}' ({} bytes) where the code {:02x?} means '{}'", g, len, &code[at..at + n], w));
                }
            }
            at += n;
        }
    }
    Ok(())
}

fn left(dir: &std::path::Path) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}

fn look(y: &mut Sys, data: usize, dir: &std::path::Path, plain: bool) -> Result<(), String> {
    let (_, code) = y.last_code();
    let before = y.observe(data);
    let d = match quiet(|| y.jit.dump_code()) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return Err(format!("the dump failed: {}", e)),
        Err(()) => return Err("the dump panicked".into()),
    };
    compare(&d, &code, plain).map_err(|t| format!("{}\ndump:\n{}", t, d.lines().take(30).collect::<Vec<_>>().join("\n")))?;
    y.check();
    if y.observe(data) != before || y.last_code().1 != code {
        return Err("the dump changed the memory".into());
    }
    if left(dir) != 0 {
        return Err("the dump left a temporary file behind".into());
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::from_env();
    let t = ctx.thorough;
    let mut pool = Pool::new(24);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    use H::*;
    let q = |a: usize, b: usize| if t { b } else { a };
    let ss: Vec<(Suite, bool)> = vec![
        (Suite { name: "code and constants", alpha: vec![Tog, Ins, Ref(R::Jmp, 0), Bind(0), Con(C::I64), Dat(C::I64), Ref(R::StB, 0), Fin], depth: q(5, 6), pre: vec![] }, true),
        (Suite { name: "rounds", alpha: vec![Tog, Ins, Con(C::I32), Fin], depth: q(7, 8), pre: vec![] }, true),
        (Suite { name: "raw bytes", alpha: vec![Tog, EB, EQ, Zero(24), Zero(3), Al(16), Fin], depth: q(4, 5), pre: vec![] }, false),
        (Suite { name: "magnitudes", alpha: vec![Tog, LoopN(300), Raw(20000), Zero(9000), ConN(40), Al(4096), Fin, Ins], depth: q(3, 4), pre: vec![] }, false),
        (Suite { name: "references", alpha: vec![Ref(R::Jmp, 0), Ref(R::Jne, 1), Ref(R::Call, 0), Ref(R::Lea, 1), Ref(R::Load, 0), Ref(R::Sse, 1), Ref(R::Round, 0), Bind(0), Bind(1)], depth: q(4, 5), pre: vec![] }, true),
    ];
    let alpha = || vec![Tog, Ins, Con(C::I64), Ref(R::Jmp, 0), Bind(0), Life(0, 300), Life(2, 300), FinN(3000), FinN(65535), Fin];
    let ss: Vec<(Suite, bool)> = ss.into_iter().chain([
        (Suite { name: "long lives", alpha: alpha(), depth: 3, pre: vec![] }, false),
        (Suite { name: "far into the pages", alpha: vec![Tog, Ins, Con(C::I64), EB, Ref(R::Jmp, 0), Bind(0), Fin], depth: q(3, 4), pre: vec![Raw(20_000_000), Fin, Tog, Raw(9_000_000), Con(C::I64), Fin] }, false),
    ]).collect();
    let scratch = std::env::temp_dir().join(format!("mc-dump-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut done = true;
    let mut lines = vec![];
    for (s, plain) in &ss {
        let n = s.alpha.len() as u64;
        let total = n.pow(s.depth as u32);
        let block = n * n;
        let word = |mut k: u64| {
            let mut w = vec![0; s.depth];
            for d in (0..s.depth).rev() {
                w[d] = (k % n) as usize;
                k /= n;
            }
            w
        };
        let h0 = pool.get(3);
        pool.recycle = 20;
        if done {
            done = pool.run(total / block, 1, &|u, k| format!("history {}", show(&s.alpha, &word(u * block + k))), |p, u| {
                let dir = scratch.join(format!("{}", std::process::id()));
                let _ = std::fs::create_dir_all(&dir);
                std::env::set_var("TMPDIR", &dir);
                for k in 0..block {
                    p.sub(k);
                    let w = word(u * block + k);
                    let r = quiet(|| -> Result<bool, String> {
                        let mut y = Sys::new("C18");
                        y.second_base();
                        let data = y.data_base();
                        for x in &s.pre {
                            y.step(*x);
                        }
                        for x in &w {
                            if !y.step(s.alpha[*x]) {
                                return Ok(false);
                            }
                            p.add(2, 1);
                        }
                        y.step(Fin);
                        p.state(y.print());
                        look(&mut y, data, &dir, *plain)?;
                        y.step(Tog);
                        look(&mut y, data, &dir, *plain).map_err(|t| format!("(then the other page was selected) {}", t))?;
                        p.add(2, 2);
                        p.add(4, 2);
                        y.release();
                        Ok(true)
                    });
                    match r {
                        Ok(Ok(true)) => p.add(3, 1),
                        Ok(Ok(false)) => {}
                        Ok(Err(t)) => p.violate("dump", &format!("history: {}; Fin\n{}", show(&s.alpha, &w), t)),
                        // an operation panicked: another property's matter
                        Err(()) => p.add(5, 1),
                    }
                    if p.stopped() {
                        return;
                    }
                }
            });
        }
        lines.push(format!("{} (alphabet {}, depth {}): {} histories", s.name, n, s.depth, pool.get(3) - h0));
        eprintln!("{}", lines.last().unwrap());
    }
    if done {
        // blocks of every pair of leading bytes, and of every size class
        let mut blocks: Vec<(String, Vec<u8>)> = vec![];
        for b in 0..=255u8 {
            let mut v = vec![];
            for x in 0..=255u8 {
                v.extend([b, x]);
                v.extend([0x90; 9]);
            }
            blocks.push((format!("all byte pairs starting with {:02x}", b), v));
        }
        for b in [0x0fu8, 0x48, 0x66, 0xf2, 0xf3] {
            let mut v = vec![];
            for x in 0..=255u8 {
                v.extend([b, 0x0f, x]);
                v.extend([0x90; 9]);
            }
            blocks.push((format!("all opcodes {:02x} 0f", b), v));
        }
        for n in (0..=70).chain([127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 200_000]) {
            blocks.push((format!("{} int3 instructions", n), vec![0xcc; n]));
            blocks.push((format!("{} zeros and a ret", n), vec![0; n].into_iter().chain([0xc3]).collect()));
            blocks.push((format!("a ret and {} zeros", n), [0xc3].into_iter().chain(vec![0; n]).collect()));
        }
        for n in [300_000usize, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3_000_000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 40_000_000] {
            blocks.push((format!("a ret, {} zeros and a ret", n), [0xc3].into_iter().chain(vec![0; n]).chain([0xc3]).collect()));
        }
        for n in [5000usize, 66_000, 200_000] {
            blocks.push((format!("{} moves of a wide immediate", n), (0..n).flat_map(|k| [0x48, 0xb8, k as u8, (k >> 8) as u8, (k >> 16) as u8, 1, 2, 3, 4, 5]).collect()));
        }
        pool.recycle = 20;
        let n0 = pool.get(4);
        done = pool.run(blocks.len() as u64, 1, &|u, k| format!("a block of {} on page {}", blocks[u as usize].0, k), |p, u| {
            let dir = scratch.join(format!("{}", std::process::id()));
            let _ = std::fs::create_dir_all(&dir);
            std::env::set_var("TMPDIR", &dir);
            let code = &blocks[u as usize].1;
            for page in 0..2 {
                p.sub(page as u64);
                let r = quiet(|| -> Result<(), String> {
                    let mut j = monoasm::JitMemory::new();
                    j.select_page(page);
                    if page == 1 {
                        j.emit(&[0xcc; 5]);
                        j.const_i64(-1);
                        j.finalize();
                    }
                    j.emit(code);
                    j.const_i32(-1);
                    j.finalize();
                    let d = j.dump_code().map_err(|e| format!("the dump failed: {}", e))?;
                    compare(&d, code, false).map_err(|t| format!("{}\ndump:\n{}", t, d.lines().take(30).collect::<Vec<_>>().join("\n")))?;
                    let b = j.get_current_address().as_ptr() as usize - j.get_current();
                    unsafe { libc::madvise((b & !4095) as *mut _, 64 << 20, libc::MADV_DONTNEED) };
                    Ok(())
                });
                p.add(2, 1);
                p.add(4, 1);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(t)) => p.violate("dump", &format!("{} on page {}\n{}", blocks[u as usize].0, page, t)),
                    Err(()) => p.violate("dump", &format!("{} on page {}\nthe dump panicked", blocks[u as usize].0, page)),
                }
                if left(&dir) != 0 {
                    p.violate("dump", "the dump left a temporary file behind");
                }
            }
        });
        lines.push(format!("every leading byte pair and block size: {} dumps", pool.get(4) - n0));
        eprintln!("{}", lines.last().unwrap());
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if done {
        let (d, l) = mccore::dumps::explore(&mut pool, true);
        done = d;
        eprintln!("{}", l);
        lines.push(l);
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"dumps_compared\": {},\n  \"suites\": [{}],\n  \"state_meaning\": \"distinct model states in which the dump was compared\",\n  \"transition_meaning\": \"operations and dumps executed on the real memory\",\n  \"validation\": \"every history is executed by the real code and the real objdump\",\n  \"samples\": [{}]",
        pool.states(), pool.get(2), pool.get(3), pool.get(4), lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "), js("Ins; Fin; Tog; Ref(Jmp, 0); Con(I64); Fin; dump; Tog; dump")
    );
    ctx.finish("model_checking", &cov, &["objdump disassembles correctly (its texts are compared with the reference decoder)"], &pool, done)
}
