//! Reference interpreter for the abstract instructions (what the statement
//! means, not its bytes): registers, flags, xmm registers, memory segments.
use crate::x86::*;

pub const CF: u64 = 1;
pub const PF: u64 = 4;
pub const AF: u64 = 0x10;
pub const ZF: u64 = 0x40;
pub const SF: u64 = 0x80;
pub const OF: u64 = 0x800;
pub const ALL: u64 = CF | PF | AF | ZF | SF | OF;

#[derive(Clone, Debug, Default)]
pub struct Cpu {
    pub g: [u64; 16],
    pub f: u64,
    pub x: [[u64; 2]; 16],
    /// address of the instruction after the current one
    pub rip: u64,
    /// what rip-relative operands are relative to, if not `rip` (a label's address)
    pub at: Option<u64>,
    /// memory segments (address, bytes)
    pub mem: Vec<(u64, Vec<u8>)>,
    /// flags whose value is not defined by the instructions executed
    pub undef: u64,
}

pub enum Next {
    Seq,
    To(u64),
}

type E<T> = Result<T, &'static str>;

fn mask(w: u8) -> u64 {
    if w == 8 {
        u64::MAX
    } else {
        (1u64 << (8 * w)) - 1
    }
}
fn msb(v: u64, w: u8) -> bool {
    v >> (8 * w as u32 - 1) & 1 == 1
}
fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - 8 * w as u32;
    ((v << s) as i64) >> s
}
const QNAN: u64 = 0xfff8_0000_0000_0000;
fn nan(v: u64) -> bool {
    f64::from_bits(v).is_nan()
}
fn quieted(v: u64) -> u64 {
    v | 0x0008_0000_0000_0000
}
fn arith(a: u64, b: u64, f: impl Fn(f64, f64) -> f64) -> u64 {
    if nan(a) {
        return quieted(a);
    }
    if nan(b) {
        return quieted(b);
    }
    let r = f(f64::from_bits(a), f64::from_bits(b));
    if r.is_nan() {
        QNAN
    } else {
        r.to_bits()
    }
}
fn unary(a: u64, f: impl Fn(f64) -> f64) -> u64 {
    if nan(a) {
        return quieted(a);
    }
    let r = f(f64::from_bits(a));
    if r.is_nan() {
        QNAN
    } else {
        r.to_bits()
    }
}

impl Cpu {
    pub fn cond(&self, c: u8) -> bool {
        let (cf, pf, zf, sf, of) = (self.f & CF != 0, self.f & PF != 0, self.f & ZF != 0, self.f & SF != 0, self.f & OF != 0);
        let v = match c >> 1 {
            0 => of,
            1 => cf,
            2 => zf,
            3 => cf || zf,
            4 => sf,
            5 => pf,
            6 => sf != of,
            _ => zf || sf != of,
        };
        v ^ (c & 1 == 1)
    }
    fn cond_known(&self, c: u8) -> E<bool> {
        let need = match c >> 1 {
            0 => OF,
            1 => CF,
            2 => ZF,
            3 => CF | ZF,
            4 => SF,
            5 => PF,
            6 => SF | OF,
            _ => ZF | SF | OF,
        };
        if self.undef & need != 0 {
            return Err("depends on an undefined flag");
        }
        Ok(self.cond(c))
    }
    pub fn load(&self, a: u64, n: usize) -> E<Vec<u8>> {
        for (b, v) in &self.mem {
            if a >= *b && a.wrapping_sub(*b) as usize + n <= v.len() {
                let o = (a - b) as usize;
                return Ok(v[o..o + n].to_vec());
            }
        }
        Err("memory access outside the known segments")
    }
    pub fn store(&mut self, a: u64, x: &[u8]) -> E<()> {
        for (b, v) in self.mem.iter_mut() {
            if a >= *b && a.wrapping_sub(*b) as usize + x.len() <= v.len() {
                let o = (a - *b) as usize;
                v[o..o + x.len()].copy_from_slice(x);
                return Ok(());
            }
        }
        Err("memory access outside the known segments")
    }
    fn ldw(&self, a: u64, w: u8) -> E<u64> {
        let v = self.load(a, w as usize)?;
        let mut b = [0; 8];
        b[..v.len()].copy_from_slice(&v);
        Ok(u64::from_le_bytes(b))
    }
    fn stw(&mut self, a: u64, w: u8, v: u64) -> E<()> {
        self.store(a, &v.to_le_bytes()[..w as usize])
    }
    fn ea(&self, o: &O) -> u64 {
        match *o {
            O::M { base, index, scale, disp } => {
                let b = match base {
                    RIP => self.at.unwrap_or(self.rip),
                    NONE => 0,
                    n => self.g[n as usize],
                };
                let i = if index == NONE { 0 } else { self.g[index as usize] << scale };
                b.wrapping_add(i).wrapping_add(disp as i64 as u64)
            }
            _ => unreachable!(),
        }
    }
    fn get(&self, o: &O, w: u8) -> E<u64> {
        Ok(match o {
            O::G(n) => self.g[*n as usize] & mask(w),
            O::H(n) => self.g[*n as usize] >> 8 & 0xff,
            O::I(v) => *v as u64 & mask(w),
            O::M { .. } => self.ldw(self.ea(o), w)?,
            O::X(n) => self.x[*n as usize][0] & mask(w),
            _ => return Err("operand"),
        })
    }
    fn set(&mut self, o: &O, w: u8, v: u64) -> E<()> {
        match o {
            O::G(n) => {
                let r = &mut self.g[*n as usize];
                *r = match w {
                    8 => v,
                    4 => v & 0xffff_ffff,
                    _ => *r & !mask(w) | v & mask(w),
                };
            }
            O::H(n) => self.g[*n as usize] = self.g[*n as usize] & !0xff00 | (v & 0xff) << 8,
            O::M { .. } => self.stw(self.ea(o), w, v)?,
            O::X(n) => self.x[*n as usize] = [v, 0],
            _ => return Err("operand"),
        }
        Ok(())
    }
    fn flag(&mut self, m: u64, v: bool) {
        self.undef &= !m;
        self.f = if v { self.f | m } else { self.f & !m };
    }
    fn szp(&mut self, r: u64, w: u8) {
        self.flag(ZF, r & mask(w) == 0);
        self.flag(SF, msb(r, w));
        self.flag(PF, (r as u8).count_ones() % 2 == 0);
    }
    fn undefined(&mut self, m: u64) {
        self.undef |= m;
    }
    fn add(&mut self, a: u64, b: u64, c: u64, w: u8) -> u64 {
        let t = a as u128 + b as u128 + c as u128;
        let r = t as u64 & mask(w);
        self.flag(CF, t >> (8 * w as u32) != 0);
        self.flag(OF, msb(!(a ^ b) & (a ^ r), w));
        self.flag(AF, (a ^ b ^ r) & 0x10 != 0);
        self.szp(r, w);
        r
    }
    fn sub(&mut self, a: u64, b: u64, c: u64, w: u8) -> u64 {
        let r = a.wrapping_sub(b).wrapping_sub(c) & mask(w);
        self.flag(CF, (a as u128) < b as u128 + c as u128);
        self.flag(OF, msb((a ^ b) & (a ^ r), w));
        self.flag(AF, (a ^ b ^ r) & 0x10 != 0);
        self.szp(r, w);
        r
    }
    fn carry(&self) -> E<u64> {
        if self.undef & CF != 0 {
            return Err("depends on an undefined flag");
        }
        Ok((self.f & CF != 0) as u64)
    }
    fn logic(&mut self, r: u64, w: u8) -> u64 {
        self.flag(CF | OF, false);
        self.szp(r, w);
        self.undefined(AF);
        r & mask(w)
    }
    fn push(&mut self, v: u64) -> E<()> {
        let a = self.g[4].wrapping_sub(8);
        self.stw(a, 8, v)?;
        self.g[4] = a;
        Ok(())
    }
    fn x2(&self, o: &O, n: usize) -> E<[u64; 2]> {
        Ok(match o {
            O::X(k) => self.x[*k as usize],
            O::G(k) => [self.g[*k as usize], 0],
            O::M { .. } => {
                let a = self.ea(o);
                if n == 16 && a % 16 != 0 {
                    return Err("unaligned 16-byte operand");
                }
                let v = self.load(a, n)?;
                let mut b = [0; 16];
                b[..n].copy_from_slice(&v);
                [u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())]
            }
            _ => return Err("operand"),
        })
    }

    /// execute one instruction; Err: it has no defined result here (fault, unknown memory)
    pub fn exec(&mut self, i: &Insn) -> E<Next> {
        let (d, s) = (&i.o[0], &i.o[1]);
        let w = i.w;
        match i.op {
            Op::Nop => {}
            Op::Mov => {
                let v = self.get(s, w)?;
                self.set(d, w, v)?;
            }
            Op::Add | Op::Adc => {
                let c = if i.op == Op::Adc { self.carry()? } else { 0 };
                let (a, b) = (self.get(d, w)?, self.get(s, w)?);
                let r = self.add(a, b, c, w);
                self.set(d, w, r)?;
            }
            Op::Sub | Op::Sbb => {
                let c = if i.op == Op::Sbb { self.carry()? } else { 0 };
                let (a, b) = (self.get(d, w)?, self.get(s, w)?);
                let r = self.sub(a, b, c, w);
                self.set(d, w, r)?;
            }
            Op::Cmp => {
                let (a, b) = (self.get(d, w)?, self.get(s, w)?);
                self.sub(a, b, 0, w);
            }
            Op::And | Op::Or | Op::Xor | Op::Test => {
                let (a, b) = (self.get(d, w)?, self.get(s, w)?);
                let r = match i.op {
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    _ => a & b,
                };
                let r = self.logic(r, w);
                if i.op != Op::Test {
                    self.set(d, w, r)?;
                }
            }
            Op::Xchg => {
                let (a, b) = (self.get(d, w)?, self.get(s, w)?);
                // the memory operand's address uses the old registers
                if let O::M { .. } = s {
                    self.set(s, w, a)?;
                    self.set(d, w, b)?;
                } else {
                    self.set(d, w, b)?;
                    self.set(s, w, a)?;
                }
            }
            Op::Neg => {
                let a = self.get(d, w)?;
                let r = self.sub(0, a, 0, w);
                self.set(d, w, r)?;
            }
            Op::Not => {
                let a = self.get(d, w)?;
                self.set(d, w, !a & mask(w))?;
            }
            Op::Imul2 => {
                let (a, b) = (sx(self.get(d, w)?, w), sx(self.get(s, w)?, w));
                let t = a as i128 * b as i128;
                let r = t as u64 & mask(w);
                let o = sx(r, w) as i128 != t;
                self.flag(CF | OF, o);
                self.undefined(SF | ZF | AF | PF);
                self.set(d, w, r)?;
            }
            Op::Div | Op::Idiv => {
                let b = self.get(d, w)?;
                if b == 0 {
                    return Err("division error");
                }
                let bits = 8 * w as u32;
                let n = ((self.g[2] & mask(w)) as u128) << bits | (self.g[0] & mask(w)) as u128;
                let (q, r) = if i.op == Op::Div {
                    let (q, r) = (n / b as u128, n % b as u128);
                    if q > mask(w) as u128 {
                        return Err("division error");
                    }
                    (q as u64, r as u64)
                } else {
                    let n = if bits == 64 { n as i128 } else { n as u64 as i64 as i128 };
                    let b = sx(b, w) as i128;
                    let q = n.checked_div(b).ok_or("division error")?;
                    let r = n - q * b;
                    let lim = 1i128 << (bits - 1);
                    if q < -lim || q >= lim {
                        return Err("division error");
                    }
                    (q as u64 & mask(w), r as u64 & mask(w))
                };
                self.set(&O::G(0), w, q)?;
                self.set(&O::G(2), w, r)?;
                self.undefined(ALL);
            }
            Op::Shl | Op::Shr | Op::Sar | Op::Rol | Op::Ror => {
                let bits = 8 * w as u32;
                let c = (self.get(s, 1)? as u32) & if w == 8 { 63 } else { 31 };
                let a = self.get(d, w)?;
                let r = match i.op {
                    Op::Shl => (a as u128) << c,
                    Op::Shr => (a >> c) as u128,
                    Op::Sar => (sx(a, w) >> c) as u64 as u128,
                    Op::Rol => {
                        let c = c % bits;
                        if c == 0 { a as u128 } else { (a << c | a >> (bits - c)) as u128 }
                    }
                    _ => {
                        let c = c % bits;
                        if c == 0 { a as u128 } else { (a >> c | a << (bits - c)) as u128 }
                    }
                };
                let full = r;
                let r = r as u64 & mask(w);
                if c != 0 {
                    match i.op {
                        Op::Shl => {
                            self.flag(CF, full >> bits & 1 == 1);
                            let o = msb(r, w) != (full >> bits & 1 == 1);
                            self.flag(OF, o);
                        }
                        Op::Shr => {
                            self.flag(CF, a >> (c - 1) & 1 == 1);
                            self.flag(OF, msb(a, w));
                        }
                        Op::Sar => {
                            self.flag(CF, sx(a, w) >> (c - 1) & 1 == 1);
                            self.flag(OF, false);
                        }
                        Op::Rol => {
                            self.flag(CF, r & 1 == 1);
                            self.flag(OF, msb(r, w) != (r & 1 == 1));
                        }
                        _ => {
                            self.flag(CF, msb(r, w));
                            self.flag(OF, msb(r ^ r << 1, w));
                        }
                    }
                    if !matches!(i.op, Op::Rol | Op::Ror) {
                        self.szp(r, w);
                        self.undefined(AF);
                    }
                    if c != 1 {
                        self.undefined(OF);
                    }
                }
                self.set(d, w, r)?;
            }
            Op::Set(c) => {
                let v = self.cond_known(c)? as u64;
                self.set(d, 1, v)?;
            }
            Op::Cmov(c) => {
                let v = self.get(s, w)?;
                let v = if self.cond_known(c)? { v } else { self.get(d, w)? };
                self.set(d, w, v)?;
            }
            Op::Jcc(c) => {
                let t = self.target(d)?;
                if self.cond_known(c)? {
                    return Ok(Next::To(t));
                }
            }
            Op::Cwd => {
                let v = if msb(self.g[0], w) { mask(w) } else { 0 };
                self.set(&O::G(2), w, v)?;
            }
            Op::Lea => {
                let a = self.ea(s);
                self.set(d, w, a & mask(w))?;
            }
            Op::Movsx => {
                let v = sx(self.get(s, i.sw)?, i.sw) as u64 & mask(w);
                self.set(d, w, v)?;
            }
            Op::Movzx => {
                let v = self.get(s, i.sw)?;
                self.set(d, w, v)?;
            }
            Op::Push => {
                let v = self.get(d, 8)?;
                self.push(v)?;
            }
            Op::Pop => {
                let v = self.ldw(self.g[4], 8)?;
                self.g[4] = self.g[4].wrapping_add(8);
                self.set(d, 8, v)?;
            }
            Op::Call => {
                let t = self.target(d)?;
                self.push(self.rip)?;
                return Ok(Next::To(t));
            }
            Op::Jmp => return Ok(Next::To(self.target(d)?)),
            Op::Ret => {
                let v = self.ldw(self.g[4], 8)?;
                self.g[4] = self.g[4].wrapping_add(8);
                return Ok(Next::To(v));
            }
            Op::Leave => {
                let v = self.ldw(self.g[5], 8)?;
                self.g[4] = self.g[5].wrapping_add(8);
                self.g[5] = v;
            }
            Op::Lzcnt | Op::Tzcnt => {
                let v = self.get(s, w)?;
                let bits = 8 * w as u32;
                let n = if v == 0 {
                    bits
                } else if i.op == Op::Lzcnt {
                    v.leading_zeros() - (64 - bits)
                } else {
                    v.trailing_zeros()
                };
                self.flag(CF, v == 0);
                self.flag(ZF, n == 0);
                self.undefined(OF | SF | PF | AF);
                self.set(d, w, n as u64)?;
            }
            Op::Popcnt => {
                let v = self.get(s, w)?;
                self.flag(ALL, false);
                self.flag(ZF, v == 0);
                self.set(d, w, v.count_ones() as u64)?;
            }
            Op::MovqX => {
                let v = self.get(s, 8)?;
                self.set(d, 8, v)?;
            }
            Op::MovsdRR => {
                let v = self.get(s, 8)?;
                if let O::X(n) = d {
                    self.x[*n as usize][0] = v;
                }
            }
            Op::Addsd | Op::Subsd | Op::Mulsd | Op::Divsd | Op::Minsd | Op::Maxsd | Op::Sqrtsd | Op::Cvtsi2sd => {
                let n = match d {
                    O::X(n) => *n as usize,
                    _ => return Err("operand"),
                };
                let a = self.x[n][0];
                let b = self.x2(s, 8)?[0];
                let (fa, fb) = (f64::from_bits(a), f64::from_bits(b));
                self.x[n][0] = match i.op {
                    Op::Addsd => arith(a, b, |x, y| x + y),
                    Op::Subsd => arith(a, b, |x, y| x - y),
                    Op::Mulsd => arith(a, b, |x, y| x * y),
                    Op::Divsd => arith(a, b, |x, y| x / y),
                    Op::Minsd => if fa < fb { a } else { b },
                    Op::Maxsd => if fa > fb { a } else { b },
                    Op::Sqrtsd => unary(b, |x| x.sqrt()),
                    _ => (b as i64 as f64).to_bits(),
                };
            }
            Op::Sqrtpd | Op::XorP | Op::AndP | Op::Roundpd => {
                let n = match d {
                    O::X(n) => *n as usize,
                    _ => return Err("operand"),
                };
                let a = self.x[n];
                let b = self.x2(s, 16)?;
                for k in 0..2 {
                    self.x[n][k] = match i.op {
                        Op::Sqrtpd => unary(b[k], |x| x.sqrt()),
                        Op::XorP => a[k] ^ b[k],
                        Op::AndP => a[k] & b[k],
                        _ => {
                            let m = match i.o[2] {
                                O::I(v) => v,
                                _ => return Err("operand"),
                            };
                            unary(b[k], |x| match if m & 4 != 0 { 0 } else { m & 3 } {
                                0 => x.round_ties_even(),
                                1 => x.floor(),
                                2 => x.ceil(),
                                _ => x.trunc(),
                            })
                        }
                    };
                }
            }
            Op::Ucomisd => {
                let (a, b) = (self.x2(d, 8)?[0], self.x2(s, 8)?[0]);
                let (a, b) = (f64::from_bits(a), f64::from_bits(b));
                let un = a.is_nan() || b.is_nan();
                self.flag(OF | SF | AF, false);
                self.flag(ZF, un || a == b);
                self.flag(PF, un);
                self.flag(CF, un || a < b);
            }
            Op::Cvttsd2si => {
                let v = f64::from_bits(self.x2(s, 8)?[0]);
                let r = if v.is_nan() || v >= 9223372036854775808.0 || v < -9223372036854775808.0 { i64::MIN } else { v.trunc() as i64 };
                self.set(d, 8, r as u64)?;
            }
            _ => return Err("not modelled"),
        }
        Ok(Next::Seq)
    }
    fn target(&self, o: &O) -> E<u64> {
        Ok(match o {
            O::Rel(v) => self.rip.wrapping_add(*v as u64),
            O::G(_) | O::M { .. } => self.get(o, 8)?,
            _ => return Err("operand"),
        })
    }
}
