//! References, constants, patches and positions in nearly full pages: every
//! combination of fill levels of the three regions.
use crate::hist::*;
use crate::pool::*;
use monoasm::*;
use monoasm_macro::monoasm;

const KINDS: [R; 12] = [R::Jmp, R::Jne, R::Call, R::Lea, R::Load, R::StB, R::StW, R::StL, R::AddQ, R::Round, R::Sse, R::Shl];

struct RefAt {
    at: usize,
    n: usize,
    to: usize,
}

fn rd(a: usize, n: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(a as *const u8, n) }.to_vec()
}

fn fill(j: &mut JitMemory, to: usize, buf: &[u8]) {
    let mut left = to.saturating_sub(j.get_current());
    while left > 0 {
        let n = left.min(buf.len());
        j.emit(&buf[..n]);
        left -= n;
    }
}

fn refs(j: &mut JitMemory, labs: &[DestLabel], out: &mut Vec<RefAt>) {
    for (k, l) in labs.iter().enumerate() {
        for kind in KINDS {
            let at = j.get_current_address().as_ptr() as usize;
            let c = j.get_current();
            emit_ref(j, kind, *l);
            out.push(RefAt { at, n: j.get_current() - c, to: k });
        }
    }
}

fn check(prop: &str, j: &JitMemory, labs: &[DestLabel], want: &[Option<usize>], rs: &[RefAt]) -> Result<u64, String> {
    let mut n = 0;
    for r in rs {
        let t = match want[r.to] {
            Some(t) => t,
            None => j.get_label_address(labs[r.to]).as_ptr() as usize,
        };
        let b = rd(r.at, r.n);
        match ref_disp(&b) {
            Some((_, len, d)) if len == r.n => {
                n += 1;
                let got = (r.at as i64 + len as i64 + d) as usize;
                if got != t && (prop == "C06" || prop == "C07") {
                    return Err(format!("a reference to label {} leads {:+} bytes past the label ({} bytes from the reference)", r.to, got as i64 - t as i64, t as i64 - r.at as i64));
                }
            }
            _ => {}
        }
    }
    Ok(n)
}

/// one combination; returns the number of facts compared
fn one(prop: &str, fills: [usize; 3]) -> Result<u64, String> {
    let buf = vec![0x90u8; 1 << 20];
    let mut j = JitMemory::new();
    let mut n = 0u64;
    let b0 = j.get_current_address().as_ptr() as usize;
    j.select_page(1);
    let b1 = j.get_current_address().as_ptr() as usize;
    let base = [b0, b1];
    // labels: start of both pages, end of both pages, data, constants
    let labs: Vec<DestLabel> = (0..4).map(|_| j.label()).collect();
    let mut want: Vec<Option<usize>> = vec![None; 4];
    let d0 = j.data_i64(0x1122334455667788);
    let dbig = j.data(fills[2]);
    let d1 = j.data_i32(0x5a5b5c5d);
    j.select_page(0);
    let c0 = j.const_i64(-3);
    j.select_page(1);
    let c1 = j.const_i32(0x01020304);
    let mut all = labs.clone();
    all.extend([d0, d1, c0, c1]);
    want.extend([None; 4]);
    let mut rs = vec![];
    let mut jumps = vec![];
    let mut abs = vec![];
    let pos = |j: &JitMemory, p: usize, want: usize, what: &str| -> Result<u64, String> {
        let (c, a) = (j.get_current(), j.get_current_address().as_ptr() as usize);
        if prop == "C11" && (c != want || a != base[p] + want || j.get_page() != p) {
            return Err(format!("{}: cursor {} and address base+{} on page {} instead of {} on page {}", what, c, a.wrapping_sub(base[p]), j.get_page(), want, p));
        }
        Ok(3)
    };
    for p in 0..2usize {
        j.select_page(p);
        n += pos(&j, p, 0, "start")?;
        j.bind_label(labs[p]);
        want[p] = Some(base[p]);
        let (l, d) = (j.label(), labs[3 - p]);
        let jit = &mut j;
        monoasm!(&mut *jit, l: jmp d;);
        jumps.push((l, base[p]));
        refs(&mut j, &all, &mut rs);
        for l in &all {
            abs.push((j.abs_address(*l), *l));
        }
    }
    for p in 0..2usize {
        j.select_page(p);
        let before = j.get_current();
        fill(&mut j, fills[p], &buf);
        n += pos(&j, p, fills[p].max(before), "after filling")?;
        let c = j.get_current();
        j.bind_label(labs[2 + p]);
        want[2 + p] = Some(base[p] + c);
        let (l, d) = (j.label(), labs[p]);
        let jit = &mut j;
        monoasm!(&mut *jit, l: jmp d;);
        jumps.push((l, base[p] + c));
        refs(&mut j, &all, &mut rs);
    }
    let cs: Vec<usize> = (0..2).map(|p| { j.select_page(p); j.get_current() }).collect();
    j.finalize();
    for p in 0..2usize {
        j.select_page(p);
        if prop == "C11" {
            let (s, e) = (j.as_slice().as_ptr() as usize, j.as_slice().len());
            let cb = j[Page(p)].code_block.last().map(|(a, b, c)| (*a - Pos::from(0), *b - Pos::from(0), *c - Pos::from(0)));
            if s != base[p] || e != cs[p] || cb != Some((0, cs[p], j.get_current())) {
                return Err(format!("page {}: the code slice has {} bytes, the block is {:?} after {} bytes of code, cursor {}", p, e, cb, cs[p], j.get_current()));
            }
            for (k, w) in want.iter().enumerate().take(4) {
                if Some(j.get_label_address(labs[k]).as_ptr() as usize) != *w || Some(j.get_label_u64(labs[k]) as usize) != *w {
                    return Err(format!("label {} is reported {:+} bytes from where it was bound", k, j.get_label_u64(labs[k]) as i64 - w.unwrap() as i64));
                }
            }
        }
    }
    n += check(prop, &j, &all, &want, &rs)?;
    let items: [(DestLabel, Vec<u8>, usize, &str); 4] = [
        (d0, 0x1122334455667788i64.to_le_bytes().to_vec(), 16, "data_i64"),
        (d1, 0x5a5b5c5di32.to_le_bytes().to_vec(), 4, "data_i32"),
        (c0, (-3i64).to_le_bytes().to_vec(), 16, "const_i64"),
        (c1, 0x01020304i32.to_le_bytes().to_vec(), 4, "const_i32"),
    ];
    let check_items = |j: &JitMemory, when: &str| -> Result<u64, String> {
        for (l, v, al, name) in &items {
            let a = j.get_label_address(*l).as_ptr() as usize;
            if prop == "C08" && (rd(a, v.len()) != *v || a % al != 0) {
                return Err(format!("{} holds {:02x?} at an address {} modulo 16 ({})", name, rd(a, v.len()), a % 16, when));
            }
        }
        if prop == "C08" {
            let (x, y, z) = (j.get_label_address(d0).as_ptr() as usize, j.get_label_address(dbig).as_ptr() as usize, j.get_label_address(d1).as_ptr() as usize);
            if !(x + 8 <= y && y + fills[2] <= z) && !(y % 16 == 0 && (y + fills[2] <= x || y >= x + 8) && (y + fills[2] <= z || y >= z + 4)) {
                return Err("the data items overlap".into());
            }
            let step = (fills[2] / 4096).max(1);
            for k in (0..fills[2]).step_by(step) {
                if unsafe { *((y + k) as *const u8) } != 0 {
                    return Err(format!("byte {} of a data block of {} bytes is not zero", k, fills[2]));
                }
            }
        }
        Ok(8)
    };
    n += check_items(&j, "after finalize")?;
    for (c, l) in &abs {
        let a = j.get_label_address(*c).as_ptr() as usize;
        let v = u64::from_le_bytes(rd(a, 8).try_into().unwrap());
        n += 1;
        if v as usize != j.get_label_address(*l).as_ptr() as usize && (prop == "C06" || prop == "C08") {
            return Err("an absolute-address constant does not hold its label's address".into());
        }
        if a % 8 != 0 && prop == "C08" {
            return Err(format!("an absolute-address constant lies at an address {} modulo 8", a % 8));
        }
    }
    // a second round behind everything
    let mut rs2 = vec![];
    for p in 0..2usize {
        j.select_page(p);
        if j.get_current() + 8192 < 1 << 28 {
            refs(&mut j, &all, &mut rs2);
        }
    }
    j.finalize();
    n += check(prop, &j, &all, &want, &rs2)?;
    n += check(prop, &j, &all, &want, &rs)?;
    n += check_items(&j, "after a second finalize")?;
    // patches
    if prop == "C09" {
        for (k, (l, at)) in jumps.iter().enumerate() {
            let around = (rd(at.saturating_sub(if k < 2 { 0 } else { 16 }), if k < 2 { 1 } else { 17 }), rd(at + 5, 64));
            for (d, w) in labs.iter().zip(&want) {
                for by_addr in [false, true] {
                    if by_addr {
                        j.apply_jmp_patch_address(CodePtr::from(*at as *mut u8), *d);
                    } else {
                        j.apply_jmp_patch(*l, *d);
                    }
                    let got = ref_disp(&rd(*at, 5)).map(|x| (*at as i64 + 5 + x.2) as usize);
                    n += 1;
                    if got != *w {
                        return Err(format!("a patched jump leads {:?} bytes past its new target, {} bytes away", got.map(|g| g as i64 - w.unwrap() as i64), w.unwrap() as i64 - *at as i64));
                    }
                    if around != (rd(at.saturating_sub(if k < 2 { 0 } else { 16 }), if k < 2 { 1 } else { 17 }), rd(at + 5, 64)) {
                        return Err("a patch changed a byte that is not the jump's displacement".into());
                    }
                }
            }
        }
        j.finalize();
        for (_, at) in &jumps {
            let got = ref_disp(&rd(*at, 5)).map(|x| (*at as i64 + 5 + x.2) as usize);
            if got != want[3] {
                return Err("a patch did not survive finalize".into());
            }
        }
    }
    for p in 0..2 {
        unsafe { libc::madvise(base[p] as *mut _, 1 << 28, libc::MADV_DONTNEED) };
    }
    let dp = j.get_label_address(d0).as_ptr() as usize & !4095;
    unsafe { libc::madvise(dp as *mut _, (fills[2] + 8192) & !4095, libc::MADV_DONTNEED) };
    Ok(n)
}

pub fn explore(prop: &'static str, thorough: bool, pool: &mut Pool) -> (bool, String) {
    let t0 = std::time::Instant::now();
    let mut lv = vec![5000usize, (1 << 24) + 3, (1 << 27) + 1, (1 << 28) - (1 << 14)];
    if thorough {
        lv.extend([(1 << 16) - 20, (1 << 25) + 7, (1 << 27) - 30, 200_000_001]);
    }
    let mut combos = vec![];
    for a in &lv {
        for b in &lv {
            if thorough {
                for c in &lv {
                    combos.push([*a, *b, *c]);
                }
            } else {
                let c = lv[combos.len() % lv.len()];
                combos.push([*a, *b, c]);
            }
        }
    }
    let desc = |u: u64, _: u64| format!("pages filled to {:?}", combos[u as usize]);
    pool.recycle = 1;
    let done = pool.run(combos.len() as u64, 1, &desc, |p, u| {
        match quiet(|| one(prop, combos[u as usize])) {
            Ok(Ok(n)) => {
                p.add(2, n);
                p.add(3, 1);
            }
            Ok(Err(t)) => p.violate("far", &format!("with the two code pages and the data region filled to {:?}: {}", combos[u as usize], t)),
            Err(()) => p.violate("panic", &format!("with the two code pages and the data region filled to {:?}: a valid operation panicked", combos[u as usize])),
        }
    });
    (done, format!("nearly full pages: {} combinations of fill levels {:?} of the three regions, {:.1} s", combos.len(), lv, t0.elapsed().as_secs_f64()))
}
