//! Running generated code on the processor with a complete, controlled register state.
use crate::interp::*;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct State {
    pub g: [u64; 16],
    pub f: u64,
    host: u64,
    which: u64,
    pad: u64,
    pub x: [[u64; 2]; 16],
}

std::arch::global_asm!(
    ".intel_syntax noprefix",
    ".data",
    ".balign 16",
    "mc_cur: .quad 0",
    "mc_code: .quad 0",
    "mc_rax: .quad 0",
    "mc_which: .quad 0",
    ".text",
    ".globl mc_run",
    "mc_run:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15", "pushfq",
    "mov [rip + mc_cur], rdi",
    "mov [rip + mc_code], rsi",
    "mov [rdi + 136], rsp",
    "mov qword ptr [rip + mc_which], 1",
    "movups xmm0, [rdi + 160]", "movups xmm1, [rdi + 176]", "movups xmm2, [rdi + 192]", "movups xmm3, [rdi + 208]",
    "movups xmm4, [rdi + 224]", "movups xmm5, [rdi + 240]", "movups xmm6, [rdi + 256]", "movups xmm7, [rdi + 272]",
    "movups xmm8, [rdi + 288]", "movups xmm9, [rdi + 304]", "movups xmm10, [rdi + 320]", "movups xmm11, [rdi + 336]",
    "movups xmm12, [rdi + 352]", "movups xmm13, [rdi + 368]", "movups xmm14, [rdi + 384]", "movups xmm15, [rdi + 400]",
    "push qword ptr [rdi + 128]", "popfq",
    "mov rax, [rdi]", "mov rcx, [rdi + 8]", "mov rdx, [rdi + 16]", "mov rbx, [rdi + 24]",
    "mov rsp, [rdi + 32]", "mov rbp, [rdi + 40]", "mov rsi, [rdi + 48]",
    "mov r8, [rdi + 64]", "mov r9, [rdi + 72]", "mov r10, [rdi + 80]", "mov r11, [rdi + 88]",
    "mov r12, [rdi + 96]", "mov r13, [rdi + 104]", "mov r14, [rdi + 112]", "mov r15, [rdi + 120]",
    "mov rdi, [rdi + 56]",
    "jmp qword ptr [rip + mc_code]",
    ".globl mc_exit2",
    "mc_exit2:",
    "mov qword ptr [rip + mc_which], 2",
    ".globl mc_exit",
    "mc_exit:",
    "mov [rip + mc_rax], rax",
    "mov rax, [rip + mc_cur]",
    "mov [rax + 8], rcx", "mov [rax + 16], rdx", "mov [rax + 24], rbx", "mov [rax + 32], rsp", "mov [rax + 40], rbp",
    "mov [rax + 48], rsi", "mov [rax + 56], rdi", "mov [rax + 64], r8", "mov [rax + 72], r9", "mov [rax + 80], r10",
    "mov [rax + 88], r11", "mov [rax + 96], r12", "mov [rax + 104], r13", "mov [rax + 112], r14", "mov [rax + 120], r15",
    "mov rsp, [rax + 136]",
    "pushfq", "pop qword ptr [rax + 128]",
    "mov rcx, [rip + mc_rax]", "mov [rax], rcx",
    "mov rcx, [rip + mc_which]", "mov [rax + 144], rcx",
    "movups [rax + 160], xmm0", "movups [rax + 176], xmm1", "movups [rax + 192], xmm2", "movups [rax + 208], xmm3",
    "movups [rax + 224], xmm4", "movups [rax + 240], xmm5", "movups [rax + 256], xmm6", "movups [rax + 272], xmm7",
    "movups [rax + 288], xmm8", "movups [rax + 304], xmm9", "movups [rax + 320], xmm10", "movups [rax + 336], xmm11",
    "movups [rax + 352], xmm12", "movups [rax + 368], xmm13", "movups [rax + 384], xmm14", "movups [rax + 400], xmm15",
    "popfq", "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
    ".att_syntax",
);
extern "C" {
    fn mc_run(s: *mut State, code: *const u8);
    fn mc_exit();
    fn mc_exit2();
}

/// code that leaves the generated program (touching no register and no flag):
/// `second` tells the two ways out apart
pub fn exit_code(second: bool) -> [u8; 14] {
    let a = if second { mc_exit2 as usize } else { mc_exit as usize };
    let mut b = [0; 14];
    b[..6].copy_from_slice(&[0xff, 0x25, 0, 0, 0, 0]);
    b[6..].copy_from_slice(&(a as u64).to_le_bytes());
    b
}

/// run the code at `code` in the state of `c`; (registers, flags, xmm, way out)
pub fn run(c: &Cpu, code: u64) -> (State, u64) {
    let mut s = State { g: c.g, f: c.f & ALL | 2, host: 0, which: 0, pad: 0, x: c.x };
    unsafe { mc_run(&mut s, code as *const u8) };
    (s, s.which)
}

const NAMES: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];

/// compare the processor's state with the interpreter's
pub fn differ(s: &State, c: &Cpu) -> Option<String> {
    for k in 0..16 {
        if s.g[k] != c.g[k] {
            return Some(format!("{} is {:#x} instead of {:#x}", NAMES[k], s.g[k], c.g[k]));
        }
    }
    for k in 0..16 {
        if s.x[k] != c.x[k] {
            return Some(format!("xmm{} is {:x?} instead of {:x?}", k, s.x[k], c.x[k]));
        }
    }
    let m = ALL & !c.undef;
    if (s.f ^ c.f) & m != 0 {
        return Some(format!("the flags are {:#x} instead of {:#x} (defined: {:#x})", s.f & m, c.f & m, m));
    }
    for (a, v) in &c.mem {
        let g = unsafe { std::slice::from_raw_parts(*a as *const u8, v.len()) };
        if g != &v[..] {
            let k = (0..v.len()).find(|k| g[*k] != v[*k]).unwrap();
            return Some(format!("the memory byte {:#x} is {:#x} instead of {:#x}", *a + k as u64, g[k], v[k]));
        }
    }
    None
}
