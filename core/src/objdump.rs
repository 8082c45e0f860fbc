//! Conformance of the reference decoder with binutils: replay a blob of
//! instructions through objdump and compare the texts.
use crate::x86::*;

fn norm(s: &str) -> String {
    // strip comments and symbol annotations, normalise blanks
    let s = s.split('#').next().unwrap().split('<').next().unwrap();
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn equiv(mut t: String) -> String {
    // spellings of objdump that mean the same as the model's
    t = t.replace("movabs ", "mov ").replace("movsxd ", "movsxd ");
    t = t.replace("+0x0]", "]");
    for (a, b) in [("xorps ", "xorp "), ("xorpd ", "xorp "), ("andps ", "andp "), ("andpd ", "andp "), ("xchg ax,ax", "nop"), ("sal ", "shl ")] {
        t = t.replace(a, b);
    }
    t
}

/// `items`: (bytes, decoded).  Returns (agreed, first disagreement).
pub fn conform(items: &[(Vec<u8>, Insn)], scratch: &std::path::Path) -> Result<usize, String> {
    let _ = std::fs::create_dir_all(scratch);
    let f = scratch.join(format!("conf-{}.bin", std::process::id()));
    let mut blob = vec![];
    let mut offs = vec![];
    for (b, _) in items {
        offs.push(blob.len());
        blob.extend_from_slice(b);
        blob.extend_from_slice(&[0x90; 16]); // resynchronise
    }
    std::fs::write(&f, &blob).map_err(|e| e.to_string())?;
    let out = std::process::Command::new("objdump")
        .args(["-D", "-z", "-w", "-Mintel", "-b", "binary", "-m", "i386:x86-64"])
        .arg(&f)
        .output()
        .map_err(|e| format!("objdump: {}", e))?;
    let _ = std::fs::remove_file(&f);
    let txt = String::from_utf8_lossy(&out.stdout);
    let mut at = std::collections::HashMap::new();
    for l in txt.lines() {
        let mut p = l.split('\t');
        if let (Some(a), Some(h), Some(t)) = (p.next(), p.next(), p.next()) {
            if let Ok(a) = usize::from_str_radix(a.trim().trim_end_matches(':'), 16) {
                at.insert(a, (h.split_whitespace().count(), t.to_string()));
            }
        }
    }
    let mut n = 0;
    for ((b, ins), o) in items.iter().zip(&offs) {
        let (len, t) = at.get(o).ok_or_else(|| format!("objdump lost sync at {:02x?}", b))?;
        if let Err((got, want)) = agree(b, ins, *o, *len, t) {
            return Err(format!("{:02x?}: objdump says '{}' ({} bytes), model says '{}' ({} bytes)", b, got, len, want, b.len()));
        }
        n += 1;
    }
    Ok(n)
}

/// does the disassembler's text `t` (of `len` bytes at offset `o`) say what the model decoded?
pub fn agree(b: &[u8], ins: &Insn, o: usize, len: usize, t: &str) -> Result<(), (String, String)> {
    let got = equiv(norm(t));
    let mut want = ins.text();
    // relative targets are printed as absolute addresses
    if let O::Rel(v) = ins.o[0] {
        let tgt = (o as i64 + b.len() as i64).wrapping_add(v);
        want = want.replace(&format!("rel{}", v), &format!("{:#x}", tgt));
    }
    let want = equiv(want);
    let alt = got.replace("movsd ", "movq ");
    let norm_shift = |s: &str| s.replace(",1", ",0x1");
    // commutative: binutils prints either order
    let swapped = match (ins.op, want.split_once(' ')) {
        (Op::Xchg | Op::Test, Some((m, ops))) => ops.split_once(',').map(|(x, y)| format!("{} {},{}", m, y, x)).unwrap_or_default(),
        _ => String::new(),
    };
    if len == b.len() && (got == swapped || got == want || alt == want || norm_shift(&got) == norm_shift(&want)) {
        return Ok(());
    }
    Err((got, want))
}
