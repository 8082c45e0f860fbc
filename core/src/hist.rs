//! History explorer: every sequence of API operations up to a depth is executed
//! on a fresh `JitMemory`, and a reference model (pages as append-only byte
//! streams, labels, pending references, pending constants) is compared with the
//! implementation after every operation.
//!
//! Deviations carry the set of properties they contradict.  A check reports only
//! deviations of its own property; on any other one the model follows the
//! implementation, so that each check judges its own property alone.
use crate::pool::*;
use crate::x86::{decode, Op, O, RIP};
use monoasm::*;
use monoasm_macro::monoasm;

/// reference kinds
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    Jmp,
    Jne,
    Call,
    Lea,
    Load,
    StB,
    StW,
    StL,
    AddQ,
    Round,
    Sse,
    Shl,
}

/// constants and data
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    F64,
    I64,
    I32,
    Bytes(u32),
    Align8,
    /// fixed values (so that several items may hold the same one)
    V64(i64),
    V32(i32),
    VF(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    /// select the other code page
    Tog,
    Sel(u8),
    Bind(u8),
    /// bind a label again that is bound already (and has no unresolved reference)
    Rebind(u8),
    BindP(u8, u8),
    Ref(R, u8),
    /// reference to the latest (true) or first (false) declared item
    RefI(R, bool),
    Con(C),
    Dat(C),
    AbsL(u8),
    AbsI,
    Raw(u32),
    Zero(u32),
    EB,
    EW,
    EL,
    EQ,
    Dq,
    /// a plain instruction
    Ins,
    Al(u16),
    Fin,
    FinN(u16),
    /// bind a fresh label and emit `jmp` to the slot
    Jm(u8),
    /// patch jump number j (counted from the first, or from the latest when negative) to label slot
    Pat(i8, u8),
    PatA(i8, u8),
    /// patch jump j to itself
    PatSelf(i8),
    /// patch jump j to jump k
    PatJ(i8, i8),
    /// run-time write into the latest finalized data cell
    Wr,
    /// run-time write into the latest finalized constant
    WrC,
    /// emit a byte (false) or a quad word (true) through the named page, selected or not
    Pg(u8, bool),
    /// align the named page to 16
    PgAl(u8),
    /// emit three bytes through the data page, named explicitly
    PgD,
    /// write junk, by position, behind the end of every page's contents
    Soil,
    /// emit a zero of that many bytes (9: `dq 0`)
    EZ(u8),
    ConN(u32),
    DatN(u32),
    RefN(u32, u8),
    LabN(u32),
    /// fresh label bound here and jumped to, n times
    LoopN(u32),
    /// dump_code() on the selected page
    Dump,
    /// (first of a suite's prefix only) the memory is made by default()
    Dflt,
    /// n short rounds of the kind: 0 a byte, finalized; 1 a constant and an absolute address, finalized;
    /// 2 a forward jump left open by one finalize, bound, finalized; 3 a byte on each page;
    /// 4 a data cell, finalized; 5 the first jump patched, to and fro; 6 a new jump, finalized and patched
    Life(u8, u16),
}

pub type Alpha = Vec<H>;

#[derive(Clone, Debug)]
struct RefM {
    page: usize,
    pos: usize, // instruction start, or cell of an absolute address
    len: usize, // instruction length; 0 for an absolute address (then `cell` is valid)
    cell: usize,
    label: usize,
    resolved: Option<usize>, // target address once resolved
    op: Option<Op>,
    patched: bool,
}

#[derive(Clone, Debug)]
struct LabM {
    l: DestLabel,
    at: Option<usize>, // address at which it was bound
    item: bool,
}

#[derive(Clone, Debug)]
pub struct ItemM {
    kind: C,
    val: Vec<u8>,
    pub label: usize,
    page: usize,
    data: bool,
    abs_of: Option<usize>,
    pub addr: Option<usize>,
}

#[derive(Clone, Debug)]
struct JmpM {
    lab: usize,
    rf: usize,
    fin: bool,
}

const UNK: u16 = 0x100;

/// A memory under test together with its model.
pub struct Sys {
    pub jit: JitMemory,
    prop: &'static str,
    sel: usize,
    cur: [usize; 2],
    pub base: [Option<usize>; 2],
    mem: [Vec<u16>; 2],
    labs: Vec<LabM>,
    slots: [Option<usize>; 8],
    refs: Vec<RefM>,
    pub items: Vec<ItemM>,
    pend: Vec<usize>,
    jmps: Vec<JmpM>,
    /// expected code blocks per page
    blocks: [Vec<(usize, usize, usize)>; 2],
    /// the cursor of an unselected page that received constants is only known to be at least `cur`
    unk: [bool; 2],
    nfin: usize,
    seq: u8,
    pub dev: Option<(String, String)>,
    pub ndev: u64,
}

fn rd(a: usize, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(a as *const u8, n) }
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn emit_ref(j: &mut JitMemory, k: R, l: DestLabel) {
    match k {
        R::Jmp => monoasm!(&mut *j, jmp l;),
        R::Jne => monoasm!(&mut *j, jne l;),
        R::Call => monoasm!(&mut *j, call l;),
        R::Lea => monoasm!(&mut *j, lea rcx, [rip + l];),
        R::Load => monoasm!(&mut *j, movq r9, [rip + l];),
        R::StB => monoasm!(&mut *j, movb [rip + l], 0x5c;),
        R::StW => monoasm!(&mut *j, movw [rip + l], 0x5c5c;),
        R::StL => monoasm!(&mut *j, movl [rip + l], 0x5c5c5c5c;),
        R::AddQ => monoasm!(&mut *j, addq [rip + l], 0x5c5c5c5c;),
        R::Round => monoasm!(&mut *j, roundpd xmm9, [rip + l], 3;),
        R::Sse => monoasm!(&mut *j, movsd xmm9, [rip + l];),
        R::Shl => monoasm!(&mut *j, shlq [rip + l], 7;),
    }
}
fn ref_op(k: R) -> Op {
    match k {
        R::Jmp => Op::Jmp,
        R::Jne => Op::Jcc(5),
        R::Call => Op::Call,
        R::Lea => Op::Lea,
        R::Load | R::StB | R::StW | R::StL => Op::Mov,
        R::AddQ => Op::Add,
        R::Round => Op::Roundpd,
        R::Sse => Op::MovqX,
        R::Shl => Op::Shl,
    }
}

/// displacement of the (single) reference of an instruction, relative to its end
pub fn ref_disp(b: &[u8]) -> Option<(Op, usize, i64)> {
    let (i, n) = decode(b).ok()?;
    for o in i.o {
        match o {
            O::Rel(v) => return Some((i.op, n, v)),
            O::M { base: RIP, disp, .. } => return Some((i.op, n, disp as i64)),
            _ => {}
        }
    }
    None
}

/// offset of the 4 displacement bytes inside the instruction: the only four bytes
/// whose change moves the target and nothing else
fn disp_at(b: &[u8]) -> Option<usize> {
    let (op, n, v) = ref_disp(b)?;
    for p in (1..=n.saturating_sub(4)).rev() {
        let mut c = b[..n].to_vec();
        let old = i32::from_le_bytes(c[p..p + 4].try_into().unwrap());
        if old as i64 != v {
            continue;
        }
        let new = old ^ 0x0102_0304;
        c[p..p + 4].copy_from_slice(&new.to_le_bytes());
        if ref_disp(&c) == Some((op, n, new as i64)) {
            return Some(p);
        }
    }
    None
}

impl Sys {
    pub fn new(prop: &'static str) -> Sys {
        Sys::made(prop, false)
    }
    pub fn made(prop: &'static str, dflt: bool) -> Sys {
        let jit = if dflt { JitMemory::default() } else { JitMemory::new() };
        let b0 = jit.get_current_address().as_ptr() as usize;
        let mut s = Sys {
            jit,
            prop,
            sel: 0,
            cur: [0; 2],
            base: [Some(b0), None],
            mem: [vec![], vec![]],
            labs: vec![],
            slots: [None; 8],
            refs: vec![],
            items: vec![],
            pend: vec![],
            jmps: vec![],
            blocks: [vec![], vec![]],
            unk: [false; 2],
            nfin: 0,
            seq: 0,
            dev: None,
            ndev: 0,
        };
        if s.jit.get_current() != 0 || s.jit.get_page() != 0 {
            s.deviate(&["C11", "C19"], "a new memory does not start at position 0 of page 0".into());
        }
        s
    }

    fn deviate(&mut self, props: &[&str], text: String) {
        self.ndev += 1;
        if self.dev.is_none() && props.contains(&self.prop) {
            self.dev = Some((props[0].to_string(), text));
        }
    }

    fn byte(&mut self) -> u8 {
        self.seq = self.seq.wrapping_mul(13).wrapping_add(0x47) | 1;
        self.seq
    }

    fn slot(&mut self, k: u8) -> usize {
        if let Some(x) = self.slots[k as usize] {
            return x;
        }
        let x = self.newlab();
        self.slots[k as usize] = Some(x);
        x
    }
    fn newlab(&mut self) -> usize {
        let l = self.jit.label();
        self.addlab(l, false)
    }
    fn addlab(&mut self, l: DestLabel, item: bool) -> usize {
        if self.labs.iter().rev().take(64).any(|x| x.l == l) {
            self.deviate(&["C11", "C06", "C08"], format!("label {:?} was handed out twice", l));
        }
        self.labs.push(LabM { l, at: None, item });
        self.labs.len() - 1
    }

    /// absolute address of the cursor of the selected page according to the model
    fn here(&self) -> usize {
        self.base[self.sel].unwrap() + self.cur[self.sel]
    }

    /// compare the cursor of the selected page with the model; adopt it
    fn sync(&mut self, what: &str) {
        let c = self.jit.get_current();
        let p = self.sel;
        if self.unk[p] {
            self.unk[p] = false;
            if c < self.cur[p] {
                self.deviate(&["C08", "C19", "C11"], format!("{}: the cursor of page {} is {}, before the end {} of a constant placed there", what, p, c, self.cur[p]));
            }
            if let Some(b) = self.blocks[p].last_mut() {
                let rep = b.2;
                b.2 = c;
                if rep != c {
                    self.deviate(&["C11"], format!("{}: the last code block of page {} ends at {} but the cursor is {}", what, p, rep, c));
                }
            }
            self.cur[p] = c;
            self.mem[p].resize(c, UNK);
        }
        if c != self.cur[self.sel] {
            self.deviate(&["C19", "C11"], format!("{}: cursor of page {} is {} instead of {}", what, self.sel, c, self.cur[self.sel]));
            self.cur[self.sel] = c;
            self.mem[self.sel].resize(c, UNK);
        }
        if self.jit.get_page() != self.sel {
            self.deviate(&["C19", "C11"], format!("{}: page {} is selected instead of {}", what, self.jit.get_page(), self.sel));
        }
        let a = self.jit.get_current_address().as_ptr() as usize;
        if a != self.base[self.sel].unwrap() + c {
            self.deviate(&["C11"], format!("{}: current address is base{:+} but the cursor is {}", what, a as i64 - self.base[self.sel].unwrap() as i64, c));
        }
    }

    fn select(&mut self, p: usize) {
        self.jit.select_page(p);
        self.sel = p;
        if self.base[p].is_none() {
            let b = (self.jit.get_current_address().as_ptr() as usize).wrapping_sub(self.jit.get_current());
            self.base[p] = Some(b);
        }
        self.sync("after selecting a page");
    }

    /// raw bytes are expected at the cursor
    fn raw(&mut self, what: &str, want: &[u8]) {
        let p = self.sel;
        let old = self.cur[p];
        self.cur[p] = old + want.len();
        self.mem[p].extend(want.iter().map(|b| *b as u16));
        self.sync(what);
        let got = rd(self.base[p].unwrap() + old, want.len());
        if got != want {
            let k = (0..want.len()).find(|k| got[*k] != want[*k]).unwrap();
            self.deviate(&["C19"], format!("{}: byte {} of {} emitted at page {} position {} is {:02x} instead of {:02x}", what, k, want.len(), p, old, got[k], want[k]));
            for k in 0..want.len() {
                if old + k < self.mem[p].len() {
                    self.mem[p][old + k] = got[k] as u16;
                }
            }
        }
    }

    /// an instruction was emitted: capture its bytes (its encoding is not judged here)
    fn captured(&mut self) -> (usize, usize) {
        let p = self.sel;
        let old = self.cur[p];
        let new = self.jit.get_current();
        let new = if new < old || new > old + 32 {
            self.deviate(&["C19", "C11"], format!("an instruction moved the cursor of page {} from {} to {}", p, old, new));
            new.max(old).min(old + 32)
        } else {
            new
        };
        self.cur[p] = new;
        let b = rd(self.base[p].unwrap() + old, new - old);
        self.mem[p].extend(b.iter().map(|b| *b as u16));
        self.sync("after an instruction");
        (old, new - old)
    }

    fn reference(&mut self, k: R, lab: usize) -> usize {
        let l = self.labs[lab].l;
        emit_ref(&mut self.jit, k, l);
        let p = self.sel;
        let (pos, len) = self.captured();
        let b = rd(self.base[p].unwrap() + pos, len);
        let mut op = Some(ref_op(k));
        match (ref_disp(b), disp_at(b)) {
            (Some((o, n, _)), Some(d)) if n == len && Some(o) == op => {
                for x in 0..4 {
                    self.mem[p][pos + d + x] = UNK;
                }
            }
            _ => {
                // not an instruction with a reference: the encoding properties judge that
                op = None;
            }
        }
        self.refs.push(RefM { page: p, pos, len, cell: 0, label: lab, resolved: None, op, patched: false });
        self.refs.len() - 1
    }

    fn bind(&mut self, lab: usize) {
        self.jit.bind_label(self.labs[lab].l);
        self.labs[lab].at = Some(self.here());
        self.sync("after binding a label");
    }

    fn declare(&mut self, data: bool, k: C) -> bool {
        let mut val: Vec<u8> = match k {
            C::F64 | C::I64 => (0..8).map(|_| self.byte()).collect(),
            C::I32 => (0..4).map(|_| self.byte()).collect(),
            C::Bytes(n) => vec![0; n as usize],
            C::Align8 => vec![],
            C::V64(v) => v.to_le_bytes().to_vec(),
            C::V32(v) => v.to_le_bytes().to_vec(),
            C::VF(v) => v.to_le_bytes().to_vec(),
        };
        let j = &mut self.jit;
        let l = match (data, k) {
            (false, C::F64) => {
                val[7] &= 0x3f; // a finite number
                j.const_f64(f64::from_le_bytes(val[..8].try_into().unwrap()))
            }
            (false, C::I64) => j.const_i64(i64::from_le_bytes(val[..8].try_into().unwrap())),
            (false, C::I32) => j.const_i32(i32::from_le_bytes(val[..4].try_into().unwrap())),
            (false, C::Bytes(n)) => j.constant(n as usize),
            (false, C::Align8) => j.const_align8(),
            (true, C::I64 | C::F64) => j.data_i64(i64::from_le_bytes(val[..8].try_into().unwrap())),
            (true, C::I32) => j.data_i32(i32::from_le_bytes(val[..4].try_into().unwrap())),
            (true, C::Bytes(n)) => j.data(n as usize),
            (false, C::V64(v)) => j.const_i64(v),
            (false, C::V32(v)) => j.const_i32(v),
            (false, C::VF(v)) => j.const_f64(f64::from_bits(v)),
            (true, C::V64(v)) => j.data_i64(v),
            (true, C::V32(v)) => j.data_i32(v),
            (true, C::Align8 | C::VF(_)) => return false,
        };
        self.item(ItemM { kind: k, val, label: 0, page: self.sel, data, abs_of: None, addr: None }, l);
        true
    }
    fn item(&mut self, mut it: ItemM, l: DestLabel) {
        it.label = self.addlab(l, true);
        self.pend.push(self.items.len());
        self.items.push(it);
        self.sync("after declaring a constant");
    }

    fn finalize(&mut self) {
        let before = [self.cur[0], self.cur[1]];
        let pend_on = |s: &Sys, p: usize| s.pend.iter().any(|k| !s.items[*k].data && s.items[*k].page == p);
        let had = [pend_on(self, 0), pend_on(self, 1)];
        self.jit.finalize();
        self.nfin += 1;
        // cursor of the selected page; the other one is read when it is selected next
        let mut after = [None, None];
        after[self.sel] = Some(self.jit.get_current());
        // the recorded code blocks give the cursors of both pages
        for p in 0..2 {
            let v = &self.jit[Page(p)].code_block;
            let want_n = self.blocks[p].len() + 1;
            let n = v.len();
            let last = v.last().map(|(a, b, c)| (*a - Pos::from(0), *b - Pos::from(0), *c - Pos::from(0)));
            let top = self.blocks[p].last().map_or(0, |b| b.2);
            let (mut st, mut ce, mut en) = (top, before[p], before[p]);
            if n != want_n {
                self.deviate(&["C11"], format!("after finalize number {}: page {} has {} code blocks", self.nfin, p, n));
            }
            if let Some((a, b, c)) = last {
                if a != top || b != before[p] || c < b || (!had[p] && c != b) || after[p].map_or(false, |x| x != c) {
                    self.deviate(&["C11"], format!(
                        "after finalize number {}: page {} records block ({}, {}, {}) but the round's code is {}..{} {} and the cursor is {:?}",
                        self.nfin, p, a, b, c, top, before[p], if had[p] { "followed by constants" } else { "without constants" }, after[p]));
                }
                st = a;
                ce = b;
                en = c;
            }
            let _ = (st, ce);
            match after[p] {
                Some(c) => {
                    if !had[p] && c != before[p] {
                        self.deviate(&["C19", "C11"], format!("finalize moved the cursor of page {} from {} to {} though no constant was pending", p, before[p], c));
                    }
                    let c = c.max(before[p]);
                    self.blocks[p].push((top, before[p], c));
                    self.cur[p] = c;
                    self.mem[p].resize(c, UNK);
                }
                None => {
                    self.unk[p] = had[p];
                    self.blocks[p].push((top, before[p], if had[p] { en } else { before[p] }));
                }
            }
        }
        // place the pending items where the implementation put them, and judge the place
        let pend = std::mem::take(&mut self.pend);
        let first_new = pend.iter().copied().filter(|k| self.items[*k].data).collect::<Vec<_>>();
        for k in pend {
            let it = self.items[k].clone();
            let l = self.labs[it.label].l;
            let addr = match quiet(|| self.jit.get_label_address(l)) {
                Ok(a) => a.as_ptr() as usize,
                Err(()) => {
                    self.deviate(&["C08"], format!("{} has no address after finalize", self.item_name(k)));
                    continue;
                }
            };
            self.labs[it.label].at = Some(addr);
            self.items[k].addr = Some(addr);
            let al = match it.kind {
                _ if it.abs_of.is_some() => 8,
                C::I32 | C::V32(_) => 4,
                C::Align8 => 8,
                _ => 16,
            };
            if addr % al != 0 {
                self.deviate(&["C08"], format!("{} is at an address that is {} modulo 16", self.item_name(k), addr % 16));
            }
            let n = it.val.len();
            if let (Some(b0), Some(b1)) = (self.base[0], self.base1()) {
                let ps = b1.wrapping_sub(b0);
                let inp = |a: usize, p: usize| {
                    let b = [b0, b1][p];
                    a >= b && a + n <= b + ps && (a < b + ps || n == 0)
                };
                if it.data {
                    if inp(addr, 0) || inp(addr, 1) {
                        self.deviate(&["C08"], format!("{} lies in a code page", self.item_name(k)));
                    }
                } else {
                    let b = [b0, b1][it.page];
                    if !inp(addr, it.page) {
                        self.deviate(&["C08"], format!("{} does not lie in the page selected when it was declared", self.item_name(k)));
                    } else if n > 0 && (addr < b + before[it.page] || (!self.unk[it.page] && addr + n > b + self.cur[it.page])) {
                        self.deviate(&["C08"], format!(
                            "{} is at {}..{} of page {}, outside the room between the code ({}) and the cursor after finalize ({})",
                            self.item_name(k), addr - b, addr - b + n, it.page, before[it.page], self.cur[it.page]));
                    } else if self.unk[it.page] {
                        let c = self.cur[it.page].max(addr - b + n);
                        self.cur[it.page] = c;
                        self.mem[it.page].resize(c, UNK);
                    }
                }
            }
            // disjoint from every other item
            for (m, o) in self.items.iter().enumerate().rev().take(300) {
                if let (true, Some(oa)) = (m != k && n > 0 && !o.val.is_empty(), o.addr) {
                    if addr < oa + o.val.len() && oa < addr + n {
                        let t = format!("{} overlaps {}", self.item_name(k), self.item_name(m));
                        self.deviate(&["C08"], t);
                        break;
                    }
                }
            }
            if let Some(t) = it.abs_of {
                self.refs.push(RefM { page: 0, pos: 0, len: 0, cell: addr, label: t, resolved: None, op: None, patched: false });
            }
        }
        if self.prop == "C11" {
            self.data_block(first_new);
        }
        // references whose label is bound by now are resolved by this finalize
        for r in self.refs.iter_mut() {
            if r.resolved.is_none() {
                r.resolved = self.labs[r.label].at;
            }
        }
        for j in self.jmps.iter_mut() {
            j.fin = true;
        }
        self.sync("after finalize");
    }

    /// the block the data region recorded for this finalize delimits the round's data items
    fn data_block(&mut self, new: Vec<usize>) {
        let base = &self.jit[Page(2)][Pos::from(0)] as *const u8 as usize;
        let v: Vec<_> = self.jit[Page(2)].code_block.iter().rev().take(2).map(|(a, b, c)| (*a - Pos::from(0), *b - Pos::from(0), *c - Pos::from(0))).collect();
        let n = self.jit[Page(2)].code_block.len();
        let mut bad = None;
        if n != self.nfin {
            bad = Some(format!("after finalize number {} the data region has {} blocks", self.nfin, n));
        } else if let Some((a, b, c)) = v.first().copied() {
            let top = v.get(1).map_or(0, |x| x.2);
            if a != top || b < a || c < b || (new.is_empty() && c != b) {
                bad = Some(format!("after finalize number {} the data region records block ({}, {}, {}) after one that ends at {} ({} data items in this round)", self.nfin, a, b, c, top, new.len()));
            }
            for k in new {
                if let (Some(x), m) = (self.items[k].addr, self.items[k].val.len()) {
                    if x < base + b || x + m > base + c {
                        bad = Some(format!("{} is at position {} of the data region, outside the block {}..{} recorded for its round", self.item_name(k), x as i64 - base as i64, b, c));
                    } else if m > 0 && self.jit[Page(2)][Pos::from(x - base)] != rd(x, 1)[0] {
                        bad = Some(format!("the byte at position {} of the data region is reported wrongly", x - base));
                    }
                }
            }
        }
        if let Some(t) = bad {
            self.deviate(&["C11"], t);
        }
    }

    fn base1(&mut self) -> Option<usize> {
        if self.base[1].is_none() {
            // without selecting the page: the address of a label bound there
            let l = self.jit.label();
            self.labs.push(LabM { l, at: None, item: false });
            self.jit.bind_label_with_page(Page(1), l);
            let a = self.jit.get_label_address(l).as_ptr() as usize;
            let c = if self.unk[1] { self.blocks[1].last().map_or(0, |b| b.2) } else { self.cur[1] };
            self.base[1] = Some(a.wrapping_sub(c));
            let k = self.labs.len() - 1;
            self.labs[k].at = Some(a);
        }
        self.base[1]
    }

    fn item_name(&self, k: usize) -> String {
        let it = &self.items[k];
        format!("{} number {} ({}, declared on page {})", if it.data { "data item" } else { "constant" }, k,
            if it.abs_of.is_some() { "absolute address".to_string() } else { format!("{:?}", it.kind) }, it.page)
    }

    /// verify everything the model knows against the implementation
    pub fn check(&mut self) {
        for p in 0..2 {
            if let Some(b) = self.base[p] {
                let n = self.mem[p].len();
                let got = rd(b, n);
                for k in 0..n {
                    let w = self.mem[p][k];
                    if w != UNK && w as u8 != got[k] {
                        let t = format!("the byte at position {} of page {} changed from {:02x} to {:02x} (cursor {})", k, p, w, got[k], self.cur[p]);
                        self.deviate(&["C07"], t);
                        if self.jmps.iter().any(|j| self.refs[j.rf].patched) {
                            let t = format!("the byte at position {} of page {} changed from {:02x} to {:02x} though it is not a patched displacement", k, p, w, got[k]);
                            self.deviate(&["C09"], t);
                        }
                        self.mem[p][k] = got[k] as u16;
                    }
                }
            }
        }
        for k in 0..self.items.len() {
            let it = &self.items[k];
            if let (Some(a), None) = (it.addr, it.abs_of) {
                let got = rd(a, it.val.len());
                if got != &it.val[..] {
                    let g = got.to_vec();
                    let t = format!("{} holds {:02x?} instead of {:02x?}", self.item_name(k), &g[..g.len().min(16)], &it.val[..g.len().min(16)]);
                    self.deviate(&["C08", "C07"], t);
                    self.items[k].val = g;
                }
            }
        }
        for k in 0..self.refs.len() {
            let r = &self.refs[k];
            let tgt = match r.resolved {
                Some(t) => t,
                None => continue,
            };
            if r.len == 0 {
                let v = u64::from_le_bytes(rd(r.cell, 8).try_into().unwrap()) as usize;
                if v != tgt {
                    let t = format!("an absolute-address constant holds {:x} but its label is bound at {:x}", v, tgt);
                    self.deviate(&["C06", "C07", "C08"], t);
                    self.refs[k].resolved = Some(v);
                }
                continue;
            }
            let op = match r.op {
                Some(o) => o,
                None => continue,
            };
            let at = self.base[r.page].unwrap() + r.pos;
            let b = rd(at, r.len);
            let got = match ref_disp(b) {
                Some((o, n, v)) if o == op && n == r.len => Some((at as i64 + n as i64 + v) as usize),
                _ => None,
            };
            if got != Some(tgt) {
                let t = format!(
                    "{} at position {} of page {} {:02x?} leads {} instead of its label's address (label at {:+} from the page start)",
                    if r.patched { "the patched jump" } else { "the reference" }, r.pos, r.page, b,
                    got.map_or("nowhere".into(), |g| format!("{:+} from the page start", g as i64 - self.base[r.page].unwrap() as i64)),
                    tgt as i64 - self.base[r.page].unwrap() as i64);
                let ps: &[&str] = if r.patched { &["C09"] } else { &["C06", "C07"] };
                self.deviate(ps, t);
                self.refs[k].resolved = got;
            }
        }
    }

    /// the queries of C11 (and unbound labels)
    fn queries(&mut self) {
        for k in 0..self.labs.len() {
            if k > 12 && k + 4 < self.labs.len() {
                continue;
            }
            let (l, at, item) = (self.labs[k].l, self.labs[k].at, self.labs[k].item);
            match at {
                Some(a) => {
                    let j = &mut self.jit;
                    let q: [Result<usize, ()>; 4] = [
                        quiet(|| j.get_label_address(l).as_ptr() as usize),
                        quiet(|| j.get_label_u64(l) as usize),
                        quiet(|| j.get_label_addr::<(), ()>(l) as usize),
                        quiet(|| j.get_label_addr2::<(), (), ()>(l) as usize),
                    ];
                    if q.iter().any(|x| *x != Ok(a)) {
                        let b = self.base[0].unwrap();
                        let t = format!("label {} was bound at base0{:+} but the queries (get_label_address, _u64, _addr, _addr2) report {:?}", k, a as i64 - b as i64,
                            q.iter().map(|x| x.map(|x| x as i64 - b as i64)).collect::<Vec<_>>());
                        let ps: &[&str] = if item { &["C11", "C08"] } else { &["C11"] };
                        self.deviate(ps, t);
                    }
                }
                None => {
                    let j = &mut self.jit;
                    let any = [
                        quiet(|| j.get_label_address(l).as_ptr() as usize).is_ok(),
                        quiet(|| j.get_label_u64(l) as usize).is_ok(),
                        quiet(|| j.get_label_addr::<(), ()>(l) as usize).is_ok(),
                        quiet(|| j.get_label_addr2::<(), (), ()>(l) as usize).is_ok(),
                    ];
                    if any.contains(&true) {
                        self.deviate(&["C11"], format!("label {} is not bound but its address was reported ({:?})", k, any));
                    }
                }
            }
        }
        let s = self.jit.as_slice();
        let want = self.blocks[self.sel].last().map_or(0, |b| b.1);
        if s.as_ptr() as usize != self.base[self.sel].unwrap() || s.len() != want {
            let t = format!("the code slice of page {} has {} bytes starting at base{:+}, but the code up to the last finalize is {} bytes", self.sel, s.len(),
                s.as_ptr() as i64 - self.base[self.sel].unwrap() as i64, want);
            self.deviate(&["C11"], t);
        }
        for p in 0..2 {
            let v = &self.jit[Page(p)].code_block;
            let got: Vec<_> = v.iter().map(|(a, b, c)| (*a - Pos::from(0), *b - Pos::from(0), *c - Pos::from(0))).collect();
            if got != self.blocks[p] {
                let t = format!("page {} records the code blocks {:?} instead of {:?}", p, &got, &self.blocks[p]);
                self.deviate(&["C11"], t);
            }
        }
        if let (Some(b0), Some(b1)) = (self.base[0], self.base[1]) {
            let ps = b1.wrapping_sub(b0);
            let mut probes = vec![
                (b0.wrapping_sub(1), false), (b0, true), (b0 + 1, true), (b0 + self.cur[0], true), (b0 + ps / 2, true), (b0 + ps - 1, true), (b1, true), (b1 + self.cur[1], true),
                (b1 + ps - 1, true), (b1 + ps, false), (b1 + ps + 8, false), (b1 + ps + ps / 2, false), (b0.wrapping_sub(4096), false), (8, false), (usize::MAX, false), (&probe_here as *const _ as usize, false),
                (b0.wrapping_sub(ps), false), (b1 + 2 * ps - 1, false), (b1 + 2 * ps, false),
            ];
            for it in &self.items {
                if let (Some(a), false) = (it.addr, it.val.is_empty()) {
                    probes.push((a, !it.data));
                }
            }
            for (a, w) in probes {
                let g = self.jit.include(a as *mut u8);
                if g != w {
                    let t = format!("include() says {} for the address base0{:+} (page size {:#x}, page {} selected)", g, a as i64 - b0 as i64, ps, self.sel);
                    self.deviate(&["C11"], t);
                }
            }
        }
    }

    /// address arithmetic and comparison, bytes read by position
    fn arithmetic(&mut self) {
        let here = self.jit.get_current_address();
        let mut v = vec![here];
        for k in 0..self.labs.len().min(6) {
            if let (Some(_), Ok(a)) = (self.labs[k].at, quiet(|| self.jit.get_label_address(self.labs[k].l))) {
                v.push(a);
            }
        }
        let mut bad = None;
        for a in &v {
            let x = a.as_ptr() as usize;
            if CodePtr::from(a.as_ptr()) != *a {
                bad = Some(format!("an address made from the pointer {:#x} of an address differs from it", x));
            }
            for n in [0usize, 1, 5, 127, 128, 4096, 1 << 20, 3 << 28, 1 << 32] {
                if (*a + n).as_ptr() as usize != x + n || (*a + n) - *a != n as i64 || *a - (*a + n) != -(n as i64) {
                    bad = Some(format!("address + {} is {:#x} further, the difference is reported as {} and {}", n, ((*a + n).as_ptr() as usize).wrapping_sub(x), (*a + n) - *a, *a - (*a + n)));
                }
                if (*a < *a + n) != (n > 0) || (*a + n > *a) != (n > 0) || (*a == *a + n) != (n == 0) || !(*a <= *a + n) || !(*a + n >= *a) {
                    bad = Some(format!("address and address + {} compare wrongly", n));
                }
            }
            for b in &v {
                let y = b.as_ptr() as usize;
                if *a - *b != x as i64 - y as i64 {
                    bad = Some(format!("the difference of two addresses is reported as {} instead of {}", *a - *b, x as i64 - y as i64));
                }
                if a.partial_cmp(b) != Some(x.cmp(&y)) || (a == b) != (x == y) {
                    bad = Some(format!("two addresses {} bytes apart compare as {:?}", x as i64 - y as i64, a.partial_cmp(b)));
                }
            }
        }
        for a in [0usize, 1, 5, 255, 256, 65535, 1 << 24, (1 << 28) - 1, 1 << 28, 1 << 31, 1 << 33] {
            for n in [0i32, 1, -1, 5, 127, -128, 4096, -4096, 1 << 24, i32::MAX, i32::MIN] {
                let b = a as i64 + n as i64;
                if b >= 0 && (Pos::from(a) + n != Pos::from(b as usize) || Pos::from(a.max(b as usize)) - Pos::from(a.min(b as usize)) != n.unsigned_abs() as usize) {
                    bad = Some(format!("the position {} and the one {:+} further do not differ by as much", a, n));
                }
            }
        }
        for p in 0..2 {
            if let Some(base) = self.base[p] {
                let n = self.cur[p];
                let mut ks: Vec<usize> = (0..n.min(24)).chain(n.saturating_sub(8)..n + 2).collect();
                ks.push(n / 2);
                for k in ks {
                    let want = rd(base + k, 1)[0];
                    let a = &self.jit[Page(p)][Pos::from(k)];
                    if *a != want || a as *const u8 as usize != base + k {
                        bad = Some(format!("position {} of page {} reads as {:02x}, the byte there is {:02x}", k, p, *a, want));
                    }
                    if p == self.sel {
                        let a = &self.jit[Pos::from(k)];
                        if *a != want || a as *const u8 as usize != base + k {
                            bad = Some(format!("position {} of the selected page {} reads as {:02x}, the byte there is {:02x}", k, p, *a, want));
                        }
                    }
                }
            }
        }
        if let Some(t) = bad {
            self.deviate(&["C11"], t);
        }
    }

    /// Execute one operation; false if it is not enabled here.
    pub fn step(&mut self, h: H) -> bool {
        match h {
            H::Tog => self.select(1 - self.sel),
            H::Sel(p) => self.select(p as usize),
            H::Bind(l) => {
                let x = self.slot(l);
                if self.labs[x].at.is_some() {
                    return false;
                }
                self.bind(x);
            }
            H::Rebind(l) => {
                let x = match self.slots[l as usize] {
                    Some(x) => x,
                    None => return false,
                };
                let pending = self.refs.iter().any(|r| r.label == x && r.resolved.is_none())
                    || self.pend.iter().any(|k| self.items[*k].abs_of == Some(x));
                if self.labs[x].at.is_none() || pending {
                    return false;
                }
                self.bind(x);
            }
            H::BindP(p, l) => {
                let x = self.slot(l);
                if self.labs[x].at.is_some() {
                    return false;
                }
                self.jit.bind_label_with_page(Page(p as usize), self.labs[x].l);
                let a = if p < 2 {
                    if self.base[p as usize].is_none() {
                        self.base1();
                    }
                    if self.unk[p as usize] {
                        self.jit.get_label_address(self.labs[x].l).as_ptr() as usize
                    } else {
                        self.base[p as usize].unwrap() + self.cur[p as usize]
                    }
                } else {
                    // the data region's cursor: as reported
                    self.jit.get_label_address(self.labs[x].l).as_ptr() as usize
                };
                self.labs[x].at = Some(a);
                self.sync("after binding a label on a page");
            }
            H::Ref(k, l) => {
                let x = self.slot(l);
                self.reference(k, x);
            }
            H::RefI(k, last) => {
                let x = match if last { self.items.last() } else { self.items.first() } {
                    Some(i) => i.label,
                    None => return false,
                };
                self.reference(k, x);
            }
            H::Con(k) => return self.declare(false, k),
            H::Dat(k) => return self.declare(true, k),
            H::AbsL(l) => {
                let x = self.slot(l);
                let n = self.jit.abs_address(self.labs[x].l);
                self.item(ItemM { kind: C::I64, val: vec![0; 8], label: 0, page: self.sel, data: false, abs_of: Some(x), addr: None }, n);
            }
            H::AbsI => {
                let x = match self.items.last() {
                    Some(i) => i.label,
                    None => return false,
                };
                let n = self.jit.abs_address(self.labs[x].l);
                self.item(ItemM { kind: C::I64, val: vec![0; 8], label: 0, page: self.sel, data: false, abs_of: Some(x), addr: None }, n);
            }
            H::Raw(n) => {
                let v: Vec<u8> = (0..n).map(|k| (k as u8).wrapping_mul(37) ^ (k >> 8) as u8 ^ 0x93).collect();
                self.jit.emit(&v);
                self.raw("emit(slice)", &v);
            }
            H::Zero(n) => {
                let v = vec![0u8; n as usize];
                self.jit.emit(&v);
                self.raw("emit(slice)", &v);
            }
            H::EB => {
                let b = self.byte();
                self.jit.emitb(b);
                self.raw("emitb", &[b]);
            }
            H::EW => {
                let v = u16::from_le_bytes([self.byte(), self.byte()]);
                self.jit.emitw(v);
                self.raw("emitw", &v.to_le_bytes());
            }
            H::EL => {
                let v = u32::from_le_bytes([self.byte(), self.byte(), self.byte(), self.byte()]);
                self.jit.emitl(v);
                self.raw("emitl", &v.to_le_bytes());
            }
            H::EQ => {
                let v = u64::from_le_bytes(std::array::from_fn(|_| self.byte()));
                self.jit.emitq(v);
                self.raw("emitq", &v.to_le_bytes());
            }
            H::Dq => {
                let j = &mut self.jit;
                monoasm!(&mut *j, dq 0x1122334455667788;);
                self.raw("dq", &0x1122334455667788u64.to_le_bytes());
            }
            H::Ins => {
                let j = &mut self.jit;
                monoasm!(&mut *j, addq r9, 0x1234;);
                self.captured();
            }
            H::Al(n) => {
                match n {
                    4 => self.jit.align4(),
                    8 => self.jit.align8(),
                    16 => self.jit.align16(),
                    _ => self.jit.align_page(),
                }
                let p = self.sel;
                let m = n as usize;
                self.cur[p] = (self.cur[p] + m - 1) / m * m;
                let c = self.cur[p];
                self.mem[p].resize(c, UNK);
                self.sync(&format!("align to {}", n));
            }
            H::Fin => self.finalize(),
            H::FinN(n) => {
                for _ in 0..n {
                    self.finalize();
                }
            }
            H::Jm(l) => {
                let p = self.newlab();
                self.bind(p);
                let x = self.slot(l);
                let rf = self.reference(R::Jmp, x);
                self.jmps.push(JmpM { lab: p, rf, fin: false });
            }
            H::Pat(j, l) | H::PatA(j, l) => {
                let (j, x) = match (self.jump(j), self.slots[l as usize]) {
                    (Some(j), Some(x)) if self.labs[x].at.is_some() => (j, x),
                    _ => return false,
                };
                self.patch(j, x, matches!(h, H::PatA(..)));
            }
            H::PatSelf(j) => {
                let j = match self.jump(j) {
                    Some(j) => j,
                    None => return false,
                };
                let x = self.jmps[j].lab;
                self.patch(j, x, false);
            }
            H::PatJ(j, k) => {
                let (j, k) = match (self.jump(j), self.jump(k)) {
                    (Some(j), Some(k)) if j != k => (j, k),
                    _ => return false,
                };
                let x = self.jmps[k].lab;
                self.patch(j, x, true);
            }
            H::Pg(p, wide) => {
                let p = p as usize;
                if self.unk[p] {
                    return false;
                }
                self.base1();
                let v: Vec<u8> = (0..if wide { 8 } else { 1 }).map(|_| self.byte()).collect();
                if wide {
                    self.jit[Page(p)].emitq(u64::from_le_bytes(v[..].try_into().unwrap()));
                } else {
                    self.jit[Page(p)].emitb(v[0]);
                }
                let old = self.cur[p];
                let got = rd(self.base[p].unwrap() + old, v.len()).to_vec();
                if got != v {
                    self.deviate(&["C19"], format!("an emission to page {} (page {} selected) left {:02x?} at its position {} instead of {:02x?}", p, self.sel, got, old, v));
                }
                self.cur[p] += v.len();
                self.mem[p].extend(got.iter().map(|b| *b as u16));
                self.sync("after an emission to a named page");
            }
            H::PgAl(p) => {
                let p = p as usize;
                if self.unk[p] {
                    return false;
                }
                self.jit[Page(p)].align16();
                let c = (self.cur[p] + 15) / 16 * 16;
                self.cur[p] = c;
                self.mem[p].resize(c, UNK);
                self.sync("after aligning a named page");
            }
            H::PgD => {
                let x = self.newlab();
                let l = self.labs[x].l;
                self.jit.bind_label_with_page(Page(2), l);
                let addr = self.jit.get_label_address(l).as_ptr() as usize;
                self.labs[x].at = Some(addr);
                let val: Vec<u8> = (0..3).map(|_| self.byte()).collect();
                for b in &val {
                    self.jit[Page(2)].emitb(*b);
                }
                if rd(addr, 3) != &val[..] {
                    self.deviate(&["C19"], format!("an emission to the data page left {:02x?} at its cursor instead of {:02x?}", rd(addr, 3), val));
                }
                let val = rd(addr, 3).to_vec();
                self.items.push(ItemM { kind: C::Bytes(3), val, label: x, page: 2, data: true, abs_of: None, addr: Some(addr) });
                self.sync("after an emission to the data page");
            }
            H::Soil => {
                for p in 0..2 {
                    if self.unk[p] {
                        continue;
                    }
                    for k in self.cur[p]..self.cur[p] + 80 {
                        if p == self.sel && k % 2 == 0 {
                            self.jit[Pos::from(k)] = 0xee;
                        } else {
                            self.jit[Page(p)][Pos::from(k)] = 0xee;
                        }
                    }
                }
                let d = &self.jit[Page(2)][Pos::from(0)] as *const u8 as usize;
                let end = self.items.iter().filter(|i| i.data).filter_map(|i| Some(i.addr?.wrapping_sub(d) + i.val.len())).max().unwrap_or(0);
                for k in end..end + 80 {
                    self.jit[Page(2)][Pos::from(k)] = 0xee;
                }
                self.sync("after writing bytes by position");
            }
            H::EZ(n) => {
                let j = &mut self.jit;
                match n {
                    1 => j.emitb(0),
                    2 => j.emitw(0),
                    4 => j.emitl(0),
                    8 => j.emitq(0),
                    _ => monoasm!(&mut *j, dq 0;),
                }
                self.raw("an emitted zero", &vec![0; if n == 9 { 8 } else { n as usize }]);
            }
            H::Wr | H::WrC => {
                let dat = h == H::Wr;
                let k = match self.items.iter().rposition(|i| i.data == dat && i.abs_of.is_none() && i.addr.is_some() && !i.val.is_empty()) {
                    Some(k) => k,
                    None => return false,
                };
                for n in 0..self.items[k].val.len() {
                    let b = self.byte();
                    self.items[k].val[n] = b;
                    let a = self.items[k].addr.unwrap() + n;
                    unsafe { *(a as *mut u8) = b };
                    if !dat {
                        if let Some(o) = self.base[self.items[k].page].map(|x| a.wrapping_sub(x)) {
                            if let Some(w) = self.mem[self.items[k].page].get_mut(o) {
                                if *w != UNK {
                                    *w = b as u16;
                                }
                            }
                        }
                    }
                }
            }
            H::ConN(n) => {
                for k in 0..n {
                    self.declare(false, if k % 3 == 0 { C::I32 } else { C::I64 });
                }
            }
            H::DatN(n) => {
                for k in 0..n {
                    self.declare(true, if k % 3 == 0 { C::I32 } else { C::I64 });
                }
            }
            H::RefN(n, l) => {
                let x = self.slot(l);
                for k in 0..n {
                    self.reference([R::Jmp, R::Lea, R::Call][k as usize % 3], x);
                }
            }
            H::LabN(n) => {
                for _ in 0..n {
                    self.newlab();
                }
            }
            H::LoopN(n) => {
                for k in 0..n {
                    let x = self.newlab();
                    if k % 2 == 0 {
                        self.bind(x);
                        self.reference(R::Jmp, x);
                    } else {
                        self.reference(R::Jne, x);
                        self.bind(x);
                    }
                }
            }
            H::Dump => {
                let _ = self.jit.dump_code();
            }
            H::Dflt => {}
            H::Life(kind, n) => {
                if kind == 5 && (self.jump(0).is_none() || [0, 1].iter().any(|l| self.slots[*l].map_or(true, |x| self.labs[x].at.is_none()))) {
                    return false;
                }
                for k in 0..n {
                    match kind {
                        0 => {
                            self.step(H::EB);
                            self.finalize();
                        }
                        1 => {
                            self.step(H::Con(C::I64));
                            self.step(H::AbsI);
                            self.finalize();
                        }
                        2 => {
                            let x = self.newlab();
                            self.reference(R::Jmp, x);
                            self.finalize();
                            self.bind(x);
                            self.finalize();
                        }
                        3 => {
                            self.step(H::Tog);
                            self.step(H::EB);
                        }
                        4 => {
                            self.step(H::Dat(C::I64));
                            self.finalize();
                        }
                        5 => {
                            self.step(H::Pat(0, (k % 2) as u8));
                        }
                        _ => {
                            let (p, x) = (self.newlab(), self.newlab());
                            self.bind(p);
                            self.bind(x);
                            let rf = self.reference(R::Jmp, x);
                            self.jmps.push(JmpM { lab: p, rf, fin: false });
                            self.finalize();
                            self.step(H::PatSelf(-1));
                        }
                    }
                }
            }
        }
        true
    }

    fn jump(&self, j: i8) -> Option<usize> {
        let n = self.jmps.len() as i64;
        let k = if j < 0 { n + j as i64 } else { j as i64 };
        if k < 0 || k >= n {
            return None;
        }
        let m = &self.jmps[k as usize];
        let r = &self.refs[m.rf];
        if m.fin && r.resolved.is_some() && r.op.is_some() {
            Some(k as usize)
        } else {
            None
        }
    }

    fn patch(&mut self, j: usize, dest: usize, by_addr: bool) {
        let p = self.labs[self.jmps[j].lab].l;
        let d = self.labs[dest].l;
        if by_addr {
            let a = CodePtr::from(self.labs[self.jmps[j].lab].at.unwrap() as *mut u8);
            self.jit.apply_jmp_patch_address(a, d);
        } else {
            self.jit.apply_jmp_patch(p, d);
        }
        let rf = self.jmps[j].rf;
        self.refs[rf].resolved = self.labs[dest].at;
        self.refs[rf].patched = true;
        self.sync("after a patch");
    }

    /// bring the history to an end: everything referenced gets bound and finalized
    fn epilogue(&mut self) {
        self.check();
        if self.prop == "C11" {
            self.arithmetic();
        }
        self.select(1 - self.sel);
        if self.prop == "C11" {
            self.arithmetic();
            self.queries();
        }
        self.finalize();
        self.check();
        if self.prop == "C11" {
            self.queries();
        }
        let un: Vec<usize> = (0..self.labs.len()).filter(|k| self.labs[*k].at.is_none() && !self.labs[*k].item).take(4).collect();
        for x in un {
            self.step(H::EB);
            self.bind(x);
        }
        self.step(H::EL);
        self.finalize();
        self.select(1 - self.sel);
        self.step(H::EB);
        self.finalize();
        self.check();
        if self.prop == "C11" {
            self.queries();
        }
    }

    /// model state (relative to the bases)
    pub fn print(&self) -> u64 {
        let mut f = Fp::default();
        f.u(self.sel as u64);
        for p in 0..2 {
            f.u(self.cur[p] as u64);
            for b in &self.blocks[p] {
                f.u(b.0 as u64 ^ (b.1 as u64) << 20 ^ (b.2 as u64) << 40);
            }
        }
        let rel = |a: usize| (a as u64).wrapping_sub(self.base[0].unwrap() as u64);
        for l in &self.labs {
            f.u(l.at.map_or(u64::MAX, rel));
        }
        for r in &self.refs {
            f.u((r.page as u64) << 60 ^ r.pos as u64 ^ (r.label as u64) << 32);
            f.u(r.resolved.map_or(u64::MAX, rel));
        }
        for i in &self.items {
            f.u(i.addr.map_or(u64::MAX, rel) ^ (i.page as u64) << 33 ^ (i.data as u64) << 34);
            if i.val.len() <= 8 {
                f.s(&i.val);
            }
        }
        f.0
    }

    /// the code the selected page received between the two most recent finalize calls
    pub fn last_code(&self) -> (usize, Vec<u8>) {
        let (a, b, _) = *self.blocks[self.sel].last().unwrap();
        (self.base[self.sel].unwrap() + a, rd(self.base[self.sel].unwrap() + a, b - a).to_vec())
    }

    /// start of the data region (asks the implementation; costs a label)
    pub fn data_base(&mut self) -> usize {
        let l = self.jit.label();
        self.jit.bind_label_with_page(Page(2), l);
        let a = self.jit.get_label_address(l).as_ptr() as usize;
        self.labs.push(LabM { l, at: Some(a), item: false });
        a
    }
    /// start of the second page, found without selecting it
    pub fn second_base(&mut self) -> usize {
        self.base1().unwrap()
    }

    /// everything observable, independent of where the regions lie
    pub fn observe(&self, data: usize) -> u64 {
        let mut f = Fp::default();
        f.u(self.sel as u64 ^ self.ndev << 8);
        f.u(self.jit.get_page() as u64);
        f.u(self.jit.get_current() as u64);
        let b = [self.base[0].unwrap(), self.base[1].unwrap_or(0)];
        let ps = b[1].wrapping_sub(b[0]);
        let rel = |a: usize| {
            for (k, x) in [b[0], b[1], data].iter().enumerate() {
                if a.wrapping_sub(*x) <= ps {
                    return ((k as u64) << 56) + (a - x) as u64;
                }
            }
            u64::MAX - 1
        };
        for p in 0..2 {
            f.u(self.cur[p] as u64);
            for (k, w) in self.mem[p].iter().enumerate() {
                if *w != UNK {
                    f.b(rd(b[p] + k, 1)[0]);
                }
            }
            for (x, y, z) in &self.jit[Page(p)].code_block {
                f.u((*x - Pos::from(0)) as u64);
                f.u((*y - Pos::from(0)) as u64);
                f.u((*z - Pos::from(0)) as u64);
            }
        }
        for l in &self.labs {
            f.u(l.at.map_or(u64::MAX, rel));
            f.u(quiet(|| rel(self.jit.get_label_address(l.l).as_ptr() as usize)).unwrap_or(u64::MAX));
        }
        for r in &self.refs {
            f.u((r.page as u64) << 60 ^ r.pos as u64 ^ (r.label as u64) << 32);
            f.u(r.resolved.map_or(u64::MAX, rel));
            if r.len == 0 {
                f.u(rel(u64::from_le_bytes(rd(r.cell, 8).try_into().unwrap()) as usize));
            } else if let (Some(_), Some((_, n, v))) = (r.resolved, ref_disp(rd(b[r.page] + r.pos, r.len))) {
                f.u(rel((b[r.page] as i64 + r.pos as i64 + n as i64 + v) as usize));
            }
        }
        for i in &self.items {
            f.u(i.addr.map_or(u64::MAX, rel));
            if let (Some(a), None) = (i.addr, i.abs_of) {
                f.s(rd(a, i.val.len().min(64)));
            }
        }
        f.0
    }

    /// hand the memory back to the kernel (the implementation never unmaps it)
    pub fn release(&mut self) {
        for p in 0..2 {
            if let Some(b) = self.base[p] {
                unsafe { libc::madvise(b as *mut _, (self.cur[p] + 8191) & !4095, libc::MADV_DONTNEED) };
            }
        }
    }
}

#[allow(non_upper_case_globals)]
static probe_here: u8 = 0;

pub fn show(a: &[H], w: &[usize]) -> String {
    w.iter().map(|k| format!("{:?}", a[*k])).collect::<Vec<_>>().join("; ")
}

pub struct Suite {
    pub name: &'static str,
    pub alpha: Alpha,
    pub depth: usize,
    /// operations executed before every history
    pub pre: Vec<H>,
}

impl Suite {
    pub fn total(&self) -> u64 {
        (self.alpha.len() as u64).pow(self.depth as u32)
    }
    fn word(&self, mut k: u64) -> Vec<usize> {
        let n = self.alpha.len() as u64;
        let mut w = vec![0; self.depth];
        for d in (0..self.depth).rev() {
            w[d] = (k % n) as usize;
            k /= n;
        }
        w
    }
}

/// run one history; Err((key, text)) on a deviation of the property.
/// Ok(None): executed; Ok(Some(d)): operation d is not enabled
pub fn run_one(prop: &'static str, s: &Suite, w: &[usize], p: Option<&Pool>) -> Result<Option<usize>, (String, String)> {
    let at = std::cell::Cell::new(0usize);
    let res = quiet(|| {
        let mut y = Sys::made(prop, s.pre.first() == Some(&H::Dflt));
        for h in &s.pre {
            y.step(*h);
        }
        for (d, k) in w.iter().enumerate() {
            at.set(d);
            if !y.step(s.alpha[*k]) {
                y.release();
                return Ok(Some(d));
            }
            y.check();
            if prop == "C11" {
                y.queries();
            }
            if let Some(p) = p {
                p.add(2, 1);
                p.state(y.print());
            }
            if y.dev.is_some() {
                break;
            }
        }
        if y.dev.is_none() {
            at.set(w.len());
            y.epilogue();
        }
        y.release();
        match y.dev {
            Some((k, t)) => Err((k, t)),
            None => Ok(None),
        }
    });
    let hist = |n: usize| {
        let mut t = String::new();
        if !s.pre.is_empty() {
            t += &format!("{:?}; ", s.pre);
        }
        t += &show(&s.alpha, &w[..n.min(w.len())]);
        t
    };
    match res {
        Ok(Ok(x)) => Ok(x),
        Ok(Err((_, t))) => Err(("history".into(), format!("history: {}{}\n{}", hist(at.get() + 1), if at.get() == w.len() { "; <end: bind the rest, finalize>" } else { "" }, t))),
        Err(()) => Err(("panic".into(), format!("history: {}\nthe last operation (or the final finalize) is valid but panicked", hist(at.get() + 1)))),
    }
}

/// Explore all histories of the suite.
pub fn explore(prop: &'static str, s: &Suite, pool: &mut Pool) -> bool {
    let total = s.total();
    let n = s.alpha.len() as u64;
    // one unit: all histories with a common prefix
    let mut block = 1u64;
    while block * n <= 1500 && block < total {
        block *= n;
    }
    let units = total / block;
    pool.recycle = (3000 / block).max(1);
    let desc = |u: u64, sub: u64| format!("history: {:?} {}", s.pre, show(&s.alpha, &s.word(u * block + sub)));
    pool.run(units, 1, &desc, |p, u| {
        let mut k = u * block;
        let end = k + block;
        while k < end {
            p.sub(k - u * block);
            let w = s.word(k);
            match run_one(prop, s, &w, Some(p)) {
                Ok(None) => {
                    p.add(3, 1);
                    k += 1;
                }
                Ok(Some(d)) => {
                    // skip every history with this disabled operation at this place
                    let step = n.pow((s.depth - 1 - d) as u32);
                    k = (k / step + 1) * step;
                    p.add(4, 1);
                }
                Err((key, t)) => {
                    p.violate(&key, &t);
                    return;
                }
            }
        }
    })
}
