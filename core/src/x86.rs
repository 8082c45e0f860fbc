//! Reference model of the x86-64 instruction encoding (the subset monoasm can
//! speak, plus neighbours a faulty encoder could drift into).  Written from the
//! ISA, not from monoasm: it accepts every legal encoding of an instruction, so
//! an encoder is free to choose another one.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Mov, Add, Or, Adc, Sbb, And, Sub, Xor, Cmp, Xchg, Nop, Test, Not, Neg,
    Rol, Ror, Rcl, Rcr, Shl, Shr, Sar,
    Set(u8), Cmov(u8), Jcc(u8),
    /// cwd/cdq/cqo, by width
    Cwd, Int3, Inc, Dec,
    Mul1, Imul1, Imul2, Imul3, Div, Idiv,
    Lea, Movsx, Movzx, Push, Pop, Call, Jmp, Ret, Leave, Syscall, Ud2,
    Tzcnt, Lzcnt, Popcnt, Bsf, Bsr,
    /// 64-bit move between xmm / gpr / mem (zeroes the upper half of an xmm dest)
    MovqX,
    /// same, 32 bits
    MovdX,
    /// xmm,xmm form only: merges the low half
    MovsdRR,
    Addsd, Subsd, Mulsd, Divsd, Minsd, Maxsd, Sqrtsd, Sqrtpd,
    XorP, AndP, Ucomisd, Comisd, Roundpd, Cvtsi2sd, Cvttsd2si, Cvtsd2si,
}

/// Operand.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum O {
    N,
    /// general register (width from the instruction)
    G(u8),
    /// ah, ch, dh, bh
    H(u8),
    X(u8),
    M { base: u8, index: u8, scale: u8, disp: i32 },
    I(i64),
    /// relative to the end of the instruction
    Rel(i64),
}
pub const RIP: u8 = 16;
pub const NONE: u8 = 255;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Insn {
    pub op: Op,
    /// operand width (bytes)
    pub w: u8,
    /// source width where it differs (movsx/movzx/cvt)
    pub sw: u8,
    pub o: [O; 3],
}

pub fn i(op: Op, w: u8, o1: O, o2: O) -> Insn {
    Insn { op, w, sw: 0, o: [o1, o2, O::N] }
}

fn sext(v: i64, w: u8) -> i64 {
    match w {
        1 => v as i8 as i64,
        2 => v as i16 as i64,
        4 => v as i32 as i64,
        _ => v,
    }
}

impl Insn {
    /// Canonical form: two encodings get the same canonical form iff they have
    /// the same effect.
    pub fn canon(mut self) -> Insn {
        for k in 0..3 {
            if let O::M { base, index, scale, disp } = self.o[k] {
                let (mut b, mut x) = (base, index);
                if x != NONE && scale == 0 {
                    if b == NONE {
                        b = x;
                        x = NONE;
                    } else if x < b {
                        std::mem::swap(&mut b, &mut x);
                    }
                }
                let scale = if x == NONE { 0 } else { scale };
                self.o[k] = O::M { base: b, index: x, scale, disp };
            }
        }
        match self.op {
            Op::Mov | Op::Add | Op::Or | Op::Adc | Op::Sbb | Op::And | Op::Sub | Op::Xor
            | Op::Cmp | Op::Test => {
                if let O::I(v) = self.o[1] {
                    self.o[1] = O::I(sext(v, self.w));
                }
            }
            _ => {}
        }
        match self.op {
            Op::Test | Op::Xchg => {
                // commutative in the operands
                let key = |o: &O| match o {
                    O::M { .. } => 0,
                    O::G(n) => 1 + *n as u32,
                    O::H(n) => 100 + *n as u32,
                    O::I(_) => 1000,
                    _ => 2000,
                };
                if key(&self.o[1]) < key(&self.o[0]) {
                    self.o.swap(0, 1);
                }
                if self.op == Op::Xchg && self.o[0] == self.o[1] && self.w != 4 {
                    self = Insn { op: Op::Nop, w: 0, sw: 0, o: [O::N; 3] };
                }
            }
            Op::Mov if self.w == 4 => {
                if let (O::G(_), O::I(v)) = (self.o[0], self.o[1]) {
                    // a 32-bit register write zero-extends
                    self.w = 8;
                    self.o[1] = O::I(v as u32 as i64);
                }
            }
            _ => {}
        }
        self
    }
}

pub type R<T> = Result<T, &'static str>;

struct D<'a> {
    b: &'a [u8],
    p: usize,
    rex: u8,
    p66: bool,
    pf2: bool,
    pf3: bool,
}

impl<'a> D<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.p).ok_or("instruction truncated")?;
        self.p += 1;
        Ok(v)
    }
    fn i8(&mut self) -> R<i64> {
        Ok(self.u8()? as i8 as i64)
    }
    fn i16(&mut self) -> R<i64> {
        let a = self.u8()? as u16;
        let b = self.u8()? as u16;
        Ok((a | b << 8) as i16 as i64)
    }
    fn i32(&mut self) -> R<i64> {
        let mut v = 0u32;
        for k in 0..4 {
            v |= (self.u8()? as u32) << (8 * k);
        }
        Ok(v as i32 as i64)
    }
    fn i64(&mut self) -> R<i64> {
        let a = self.i32()? as u32 as u64;
        let b = self.i32()? as u32 as u64;
        Ok((a | b << 32) as i64)
    }
    fn rex_w(&self) -> bool {
        self.rex & 8 != 0
    }
    /// operand width for non-byte instructions
    fn opw(&self) -> u8 {
        if self.rex_w() {
            8
        } else if self.p66 {
            2
        } else {
            4
        }
    }
    /// imm of the operand width (imm32 sign-extended for 64 bit)
    fn immw(&mut self, w: u8) -> R<i64> {
        match w {
            1 => self.i8(),
            2 => self.i16(),
            _ => self.i32(),
        }
    }
    fn greg(&self, n: u8, w: u8) -> O {
        if w == 1 && self.rex == 0 && (4..8).contains(&n) {
            O::H(n - 4)
        } else {
            O::G(n)
        }
    }
    /// returns (reg field with REX.R, rm operand as (is_reg, regno) or mem)
    fn modrm(&mut self) -> R<(u8, Rm)> {
        let m = self.u8()?;
        let md = m >> 6;
        let reg = (m >> 3 & 7) | (self.rex & 4) << 1;
        let rm = m & 7;
        if md == 3 {
            return Ok((reg, Rm::Reg(rm | (self.rex & 1) << 3)));
        }
        let (mut base, mut index, mut scale) = (NONE, NONE, 0);
        let mut disp = 0i64;
        if rm == 4 {
            let s = self.u8()?;
            scale = s >> 6;
            let x = (s >> 3 & 7) | (self.rex & 2) << 2;
            if x != 4 {
                index = x;
            }
            if s & 7 == 5 && md == 0 {
                disp = self.i32()?;
            } else {
                base = (s & 7) | (self.rex & 1) << 3;
            }
        } else if rm == 5 && md == 0 {
            base = RIP;
            disp = self.i32()?;
        } else {
            base = rm | (self.rex & 1) << 3;
        }
        match md {
            1 => disp = self.i8()?,
            2 => disp = self.i32()?,
            _ => {}
        }
        Ok((reg, Rm::Mem(O::M { base, index, scale, disp: disp as i32 })))
    }
    fn g(&self, rm: Rm, w: u8) -> O {
        match rm {
            Rm::Reg(n) => self.greg(n, w),
            Rm::Mem(m) => m,
        }
    }
    fn x(&self, rm: Rm) -> O {
        match rm {
            Rm::Reg(n) => O::X(n),
            Rm::Mem(m) => m,
        }
    }
}

#[derive(Clone, Copy)]
enum Rm {
    Reg(u8),
    Mem(O),
}

const ALU: [Op; 8] = [Op::Add, Op::Or, Op::Adc, Op::Sbb, Op::And, Op::Sub, Op::Xor, Op::Cmp];
const SHIFT: [Option<Op>; 8] = [
    Some(Op::Rol), Some(Op::Ror), Some(Op::Rcl), Some(Op::Rcr),
    Some(Op::Shl), Some(Op::Shr), Some(Op::Shl), Some(Op::Sar),
];

/// Decode one instruction from the start of `b`; returns it and its length.
pub fn decode(b: &[u8]) -> R<(Insn, usize)> {
    let mut d = D { b, p: 0, rex: 0, p66: false, pf2: false, pf3: false };
    let op;
    loop {
        let c = d.u8()?;
        match c {
            0x66 => d.p66 = true,
            0xf2 => {
                if d.pf3 {
                    return Err("conflicting f2/f3 prefixes");
                }
                d.pf2 = true
            }
            0xf3 => {
                if d.pf2 {
                    return Err("conflicting f2/f3 prefixes");
                }
                d.pf3 = true
            }
            0x67 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 => return Err("unexpected prefix"),
            0x40..=0x4f => {
                // REX counts only directly before the opcode
                d.rex = c;
                op = d.u8()?;
                if matches!(op, 0x40..=0x4f | 0x66 | 0xf2 | 0xf3 | 0x67 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65) {
                    return Err("REX prefix not directly before the opcode");
                }
                break;
            }
            _ => {
                op = c;
                break;
            }
        }
        if d.p > 6 {
            return Err("too many prefixes");
        }
    }
    let w = d.opw();
    let rep = d.pf2 || d.pf3;
    let ins = match op {
        0x0f => return decode_0f(d),
        _ if rep => return Err("f2/f3 prefix on an integer instruction"),
        0x00..=0x3f if op & 7 < 6 => {
            let o = ALU[(op >> 3) as usize];
            let w = if op & 1 == 0 { 1 } else { w };
            match op & 7 {
                0 | 1 => {
                    let (r, m) = d.modrm()?;
                    i(o, w, d.g(m, w), d.greg(r, w))
                }
                2 | 3 => {
                    let (r, m) = d.modrm()?;
                    i(o, w, d.greg(r, w), d.g(m, w))
                }
                _ => i(o, w, O::G(0), O::I(d.immw(w)?)),
            }
        }
        0x50..=0x57 => i(Op::Push, if d.p66 { 2 } else { 8 }, O::G(op & 7 | (d.rex & 1) << 3), O::N),
        0x58..=0x5f => i(Op::Pop, if d.p66 { 2 } else { 8 }, O::G(op & 7 | (d.rex & 1) << 3), O::N),
        0x63 => {
            let (r, m) = d.modrm()?;
            if w == 8 {
                Insn { op: Op::Movsx, w: 8, sw: 4, o: [O::G(r), d.g(m, 4), O::N] }
            } else {
                i(Op::Mov, w, O::G(r), d.g(m, w))
            }
        }
        0x68 => i(Op::Push, 8, O::I(if d.p66 { return Err("push imm16") } else { d.i32()? }), O::N),
        0x6a => i(Op::Push, 8, O::I(d.i8()?), O::N),
        0x69 | 0x6b => {
            let (r, m) = d.modrm()?;
            let v = if op == 0x6b { d.i8()? } else { d.immw(w)? };
            Insn { op: Op::Imul3, w, sw: 0, o: [O::G(r), d.g(m, w), O::I(v)] }
        }
        0x70..=0x7f if !d.p66 => i(Op::Jcc(op & 15), 8, O::Rel(d.i8()?), O::N),
        0x80 | 0x81 | 0x83 => {
            let w = if op == 0x80 { 1 } else { w };
            let (r, m) = d.modrm()?;
            let v = if op == 0x81 { d.immw(w)? } else { d.i8()? };
            i(ALU[(r & 7) as usize], w, d.g(m, w), O::I(v))
        }
        0x84..=0x8b => {
            let w = if op & 1 == 0 { 1 } else { w };
            let (r, m) = d.modrm()?;
            match op {
                0x84 | 0x85 => i(Op::Test, w, d.g(m, w), d.greg(r, w)),
                0x86 | 0x87 => i(Op::Xchg, w, d.g(m, w), d.greg(r, w)),
                0x88 | 0x89 => i(Op::Mov, w, d.g(m, w), d.greg(r, w)),
                _ => i(Op::Mov, w, d.greg(r, w), d.g(m, w)),
            }
        }
        0x8d => {
            let (r, m) = d.modrm()?;
            match m {
                Rm::Mem(m) => i(Op::Lea, w, O::G(r), m),
                Rm::Reg(_) => return Err("lea with a register source"),
            }
        }
        0x8f => {
            let (r, m) = d.modrm()?;
            if r & 7 != 0 {
                return Err("undefined opcode 8f");
            }
            i(Op::Pop, if d.p66 { 2 } else { 8 }, d.g(m, 8), O::N)
        }
        0x90..=0x97 => {
            let r = op & 7 | (d.rex & 1) << 3;
            if r == 0 {
                i(Op::Nop, 0, O::N, O::N)
            } else {
                i(Op::Xchg, w, O::G(0), O::G(r))
            }
        }
        0x99 => i(Op::Cwd, w, O::N, O::N),
        0xa8 => i(Op::Test, 1, O::G(0), O::I(d.i8()?)),
        0xa9 => i(Op::Test, w, O::G(0), O::I(d.immw(w)?)),
        0xb0..=0xb7 => i(Op::Mov, 1, d.greg(op & 7 | (d.rex & 1) << 3, 1), O::I(d.i8()?)),
        0xb8..=0xbf => {
            let v = match w {
                8 => d.i64()?,
                _ => d.immw(w)?,
            };
            i(Op::Mov, w, O::G(op & 7 | (d.rex & 1) << 3), O::I(v))
        }
        0xc0 | 0xc1 | 0xd0..=0xd3 => {
            let w = if op & 1 == 0 { 1 } else { w };
            let (r, m) = d.modrm()?;
            let o = SHIFT[(r & 7) as usize].ok_or("undefined shift")?;
            let c = match op {
                0xc0 | 0xc1 => O::I(d.i8()?),
                0xd0 | 0xd1 => O::I(1),
                _ => O::G(1),
            };
            i(o, w, d.g(m, w), c)
        }
        0xc3 => i(Op::Ret, 0, O::N, O::N),
        0xc6 | 0xc7 => {
            let w = if op == 0xc6 { 1 } else { w };
            let (r, m) = d.modrm()?;
            if r & 7 != 0 {
                return Err("undefined opcode c6/c7");
            }
            let v = d.immw(w)?;
            i(Op::Mov, w, d.g(m, w), O::I(v))
        }
        0xc9 if !d.p66 => i(Op::Leave, 0, O::N, O::N),
        0xcc => i(Op::Int3, 0, O::N, O::N),
        0xe8 | 0xe9 if !d.p66 => {
            let v = d.i32()?;
            i(if op == 0xe8 { Op::Call } else { Op::Jmp }, 8, O::Rel(v), O::N)
        }
        0xeb if !d.p66 => i(Op::Jmp, 8, O::Rel(d.i8()?), O::N),
        0xf6 | 0xf7 => {
            let w = if op == 0xf6 { 1 } else { w };
            let (r, m) = d.modrm()?;
            match r & 7 {
                0 | 1 => {
                    let v = d.immw(w)?;
                    i(Op::Test, w, d.g(m, w), O::I(v))
                }
                2 => i(Op::Not, w, d.g(m, w), O::N),
                3 => i(Op::Neg, w, d.g(m, w), O::N),
                4 => i(Op::Mul1, w, d.g(m, w), O::N),
                5 => i(Op::Imul1, w, d.g(m, w), O::N),
                6 => i(Op::Div, w, d.g(m, w), O::N),
                _ => i(Op::Idiv, w, d.g(m, w), O::N),
            }
        }
        0xfe | 0xff => {
            let (r, m) = d.modrm()?;
            let w1 = if op == 0xfe { 1 } else { w };
            match (op, r & 7) {
                (_, 0) => i(Op::Inc, w1, d.g(m, w1), O::N),
                (_, 1) => i(Op::Dec, w1, d.g(m, w1), O::N),
                (0xff, 2) if !d.p66 => i(Op::Call, 8, d.g(m, 8), O::N),
                (0xff, 4) if !d.p66 => i(Op::Jmp, 8, d.g(m, 8), O::N),
                (0xff, 6) => i(Op::Push, if d.p66 { 2 } else { 8 }, d.g(m, 8), O::N),
                _ => return Err("undefined opcode fe/ff"),
            }
        }
        _ => return Err("unknown opcode"),
    };
    Ok((ins, d.p))
}

fn decode_0f(mut d: D) -> R<(Insn, usize)> {
    let op = d.u8()?;
    let w = d.opw();
    let (p66, pf2, pf3) = (d.p66, d.pf2, d.pf3);
    let none = !p66 && !pf2 && !pf3;
    let norep = !pf2 && !pf3;
    let ins = match op {
        0x05 if none => i(Op::Syscall, 0, O::N, O::N),
        0x0b if none => i(Op::Ud2, 0, O::N, O::N),
        0x10 | 0x11 if pf2 => {
            let (r, m) = d.modrm()?;
            let (a, b) = (O::X(r), d.x(m));
            let o = if matches!(b, O::M { .. }) { Op::MovqX } else { Op::MovsdRR };
            if op == 0x10 {
                i(o, 8, a, b)
            } else {
                i(o, 8, b, a)
            }
        }
        0x2a if pf2 => {
            let (r, m) = d.modrm()?;
            let sw = if d.rex_w() { 8 } else { 4 };
            Insn { op: Op::Cvtsi2sd, w: 8, sw, o: [O::X(r), d.g(m, sw), O::N] }
        }
        0x2c | 0x2d if pf2 => {
            let (r, m) = d.modrm()?;
            let w = if d.rex_w() { 8 } else { 4 };
            i(if op == 0x2c { Op::Cvttsd2si } else { Op::Cvtsd2si }, w, O::G(r), d.x(m))
        }
        0x2e | 0x2f if p66 && norep => {
            let (r, m) = d.modrm()?;
            i(if op == 0x2e { Op::Ucomisd } else { Op::Comisd }, 8, O::X(r), d.x(m))
        }
        0x3a => {
            let o2 = d.u8()?;
            if o2 != 0x09 || !p66 || !norep {
                return Err("unknown 0f 3a opcode");
            }
            let (r, m) = d.modrm()?;
            let v = d.i8()?;
            Insn { op: Op::Roundpd, w: 16, sw: 0, o: [O::X(r), d.x(m), O::I(v as u8 as i64)] }
        }
        0x40..=0x4f if norep => {
            let (r, m) = d.modrm()?;
            i(Op::Cmov(op & 15), w, O::G(r), d.g(m, w))
        }
        0x51 | 0x58 | 0x59 | 0x5c..=0x5f if pf2 => {
            let (r, m) = d.modrm()?;
            let o = match op {
                0x51 => Op::Sqrtsd,
                0x58 => Op::Addsd,
                0x59 => Op::Mulsd,
                0x5c => Op::Subsd,
                0x5d => Op::Minsd,
                0x5e => Op::Divsd,
                _ => Op::Maxsd,
            };
            i(o, 8, O::X(r), d.x(m))
        }
        0x51 if p66 && norep => {
            let (r, m) = d.modrm()?;
            i(Op::Sqrtpd, 16, O::X(r), d.x(m))
        }
        0x54 | 0x57 if norep => {
            let (r, m) = d.modrm()?;
            i(if op == 0x54 { Op::AndP } else { Op::XorP }, 16, O::X(r), d.x(m))
        }
        0x6e | 0x7e if p66 && norep => {
            let (r, m) = d.modrm()?;
            let (o, gw) = if d.rex_w() { (Op::MovqX, 8) } else { (Op::MovdX, 4) };
            if op == 0x6e {
                i(o, gw, O::X(r), d.g(m, gw))
            } else {
                i(o, gw, d.g(m, gw), O::X(r))
            }
        }
        0x7e if pf3 => {
            let (r, m) = d.modrm()?;
            i(Op::MovqX, 8, O::X(r), d.x(m))
        }
        0xd6 if p66 && norep => {
            let (r, m) = d.modrm()?;
            i(Op::MovqX, 8, d.x(m), O::X(r))
        }
        0x80..=0x8f if none => i(Op::Jcc(op & 15), 8, O::Rel(d.i32()?), O::N),
        0x90..=0x9f if norep => {
            let (_, m) = d.modrm()?;
            i(Op::Set(op & 15), 1, d.g(m, 1), O::N)
        }
        0xaf if norep => {
            let (r, m) = d.modrm()?;
            i(Op::Imul2, w, O::G(r), d.g(m, w))
        }
        0xb6 | 0xb7 | 0xbe | 0xbf if norep => {
            let (r, m) = d.modrm()?;
            let sw = if op & 1 == 0 { 1 } else { 2 };
            let o = if op < 0xb8 { Op::Movzx } else { Op::Movsx };
            Insn { op: o, w, sw, o: [O::G(r), d.g(m, sw), O::N] }
        }
        0xb8 if pf3 => {
            let (r, m) = d.modrm()?;
            i(Op::Popcnt, w, O::G(r), d.g(m, w))
        }
        0xbc | 0xbd if !pf2 => {
            let (r, m) = d.modrm()?;
            let o = match (op, pf3) {
                (0xbc, true) => Op::Tzcnt,
                (0xbd, true) => Op::Lzcnt,
                (0xbc, false) => Op::Bsf,
                _ => Op::Bsr,
            };
            i(o, w, O::G(r), d.g(m, w))
        }
        _ => return Err("unknown 0f opcode"),
    };
    Ok((ins, d.p))
}

/// Number of trailing immediate bytes of the instruction (used to locate the
/// displacement field of a rip-relative operand).  Found by decoding with the
/// last bytes changed, so it needs no knowledge of the encoding chosen.
pub fn reg_name(n: u8, w: u8) -> String {
    let b = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"];
    if n < 8 {
        match w {
            8 => format!("r{}", b[n as usize]),
            4 => format!("e{}", b[n as usize]),
            2 => b[n as usize].to_string(),
            _ => ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"][n as usize].to_string(),
        }
    } else {
        let s = match w {
            8 => "",
            4 => "d",
            2 => "w",
            _ => "b",
        };
        format!("r{}{}", n, s)
    }
}

pub const CC: [&str; 16] = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"];

fn hex(v: i64, w: u8) -> String {
    let v = match w {
        1 => v as u8 as u64,
        2 => v as u16 as u64,
        4 => v as u32 as u64,
        _ => v as u64,
    };
    format!("{:#x}", v)
}

impl Insn {
    /// Text in the style of `objdump -M intel` (for the conformance replay).
    pub fn text(&self) -> String {
        let mn: String = match self.op {
            Op::Set(c) => format!("set{}", CC[c as usize]),
            Op::Cmov(c) => format!("cmov{}", CC[c as usize]),
            Op::Jcc(c) => format!("j{}", CC[c as usize]),
            Op::Cwd => match self.w {
                8 => "cqo",
                4 => "cdq",
                _ => "cwd",
            }
            .into(),
            Op::Movsx if self.sw == 4 => "movsxd".into(),
            Op::Imul1 | Op::Imul2 | Op::Imul3 => "imul".into(),
            Op::Mul1 => "mul".into(),
            Op::MovqX => "movq".into(),
            Op::MovdX => "movd".into(),
            Op::MovsdRR => "movsd".into(),
            Op::XorP => "xorp".into(),
            Op::AndP => "andp".into(),
            o => format!("{:?}", o).to_lowercase(),
        };
        let mut ops = vec![];
        for (k, o) in self.o.iter().enumerate() {
            let w = match self.op {
                Op::Movsx | Op::Movzx if k == 1 => self.sw,
                Op::Cvtsi2sd if k == 1 => self.sw,
                Op::Rol | Op::Ror | Op::Rcl | Op::Rcr | Op::Shl | Op::Shr | Op::Sar if k == 1 => 1,
                Op::Roundpd if k == 2 => 1,
                Op::Cvttsd2si | Op::Cvtsd2si if k == 1 => 8,
                _ => self.w,
            };
            match *o {
                O::N => {}
                O::G(n) => ops.push(reg_name(n, w)),
                O::H(n) => ops.push(["ah", "ch", "dh", "bh"][n as usize].into()),
                O::X(n) => ops.push(format!("xmm{}", n)),
                O::I(v) => ops.push(hex(v, w)),
                O::Rel(v) => ops.push(format!("rel{}", v)),
                O::M { base, index, scale, disp } => {
                    let pre = if self.op == Op::Lea {
                        ""
                    } else {
                        match w {
                            1 => "BYTE PTR ",
                            2 => "WORD PTR ",
                            4 => "DWORD PTR ",
                            8 => "QWORD PTR ",
                            _ => "XMMWORD PTR ",
                        }
                    };
                    let mut s = String::new();
                    if base == RIP {
                        s += "rip";
                    } else if base != NONE {
                        s += &reg_name(base, 8);
                    }
                    if index != NONE {
                        if !s.is_empty() {
                            s += "+";
                        }
                        s += &format!("{}*{}", reg_name(index, 8), 1 << scale);
                    }
                    if base == RIP || disp != 0 {
                        if disp < 0 && base == RIP {
                            s += &format!("+{:#x}", disp as i64);
                        } else if disp < 0 {
                            s += &format!("-{:#x}", -(disp as i64));
                        } else {
                            s += &format!("+{:#x}", disp);
                        }
                    }
                    ops.push(format!("{}[{}]", pre, s));
                }
            }
        }
        if ops.is_empty() {
            mn
        } else {
            format!("{} {}", mn, ops.join(","))
        }
    }
}
