//! A call that loads known values into every callee-saved register, and
//! checks them when control comes back. Its frame doubles as a marker with
//! exactly known position and register contents for stack walks.
use crate::chooser::mix;
use std::arch::global_asm;

#[repr(C)]
pub struct Block {
    pub pat: [usize; 6],
    pub sp: usize,
    pub got: [usize; 6],
}

// x86_64: rbx rbp r12 r13 r14 r15. With frame pointers (feature "fp") rbp
// holds the frame record instead of a pattern.
#[cfg(all(target_arch = "x86_64", not(feature = "fp")))]
global_asm!(
    ".globl corosim_regs_call",
    ".globl corosim_regs_ret",
    "corosim_regs_call:",
    ".cfi_startproc",
    "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_offset rbp, -16",
    "push rbx", ".cfi_adjust_cfa_offset 8", ".cfi_offset rbx, -24",
    "push r12", ".cfi_adjust_cfa_offset 8", ".cfi_offset r12, -32",
    "push r13", ".cfi_adjust_cfa_offset 8", ".cfi_offset r13, -40",
    "push r14", ".cfi_adjust_cfa_offset 8", ".cfi_offset r14, -48",
    "push r15", ".cfi_adjust_cfa_offset 8", ".cfi_offset r15, -56",
    "push rdx", ".cfi_adjust_cfa_offset 8",
    "mov [rdx+48], rsp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rbx, [rdx]", "mov rbp, [rdx+8]", "mov r12, [rdx+16]",
    "mov r13, [rdx+24]", "mov r14, [rdx+32]", "mov r15, [rdx+40]",
    "call rax",
    "corosim_regs_ret:",
    "mov rdx, [rsp]",
    "mov [rdx+56], rbx", "mov [rdx+64], rbp", "mov [rdx+72], r12",
    "mov [rdx+80], r13", "mov [rdx+88], r14", "mov [rdx+96], r15",
    "add rsp, 8", ".cfi_adjust_cfa_offset -8",
    "pop r15", ".cfi_adjust_cfa_offset -8",
    "pop r14", ".cfi_adjust_cfa_offset -8",
    "pop r13", ".cfi_adjust_cfa_offset -8",
    "pop r12", ".cfi_adjust_cfa_offset -8",
    "pop rbx", ".cfi_adjust_cfa_offset -8",
    "pop rbp", ".cfi_adjust_cfa_offset -8",
    "ret",
    ".cfi_endproc",
);
#[cfg(all(target_arch = "x86_64", feature = "fp"))]
global_asm!(
    ".globl corosim_regs_call",
    ".globl corosim_regs_ret",
    "corosim_regs_call:",
    ".cfi_startproc",
    "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_offset rbp, -16",
    "mov rbp, rsp", ".cfi_def_cfa_register rbp",
    "push rbx", ".cfi_offset rbx, -24",
    "push r12", ".cfi_offset r12, -32",
    "push r13", ".cfi_offset r13, -40",
    "push r14", ".cfi_offset r14, -48",
    "push r15", ".cfi_offset r15, -56",
    "push rdx",
    "mov [rdx+48], rsp",
    "mov [rdx+8], rbp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rbx, [rdx]", "mov r12, [rdx+16]",
    "mov r13, [rdx+24]", "mov r14, [rdx+32]", "mov r15, [rdx+40]",
    "call rax",
    "corosim_regs_ret:",
    "mov rdx, [rsp]",
    "mov [rdx+56], rbx", "mov [rdx+64], rbp", "mov [rdx+72], r12",
    "mov [rdx+80], r13", "mov [rdx+88], r14", "mov [rdx+96], r15",
    "add rsp, 8",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    ".cfi_def_cfa rsp, 8",
    "ret",
    ".cfi_endproc",
);
// x86: ebx ebp esi edi.
#[cfg(all(target_arch = "x86", not(feature = "fp")))]
global_asm!(
    ".globl corosim_regs_call",
    ".globl corosim_regs_ret",
    "corosim_regs_call:",
    ".cfi_startproc",
    "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_offset ebp, -8",
    "push ebx", ".cfi_adjust_cfa_offset 4", ".cfi_offset ebx, -12",
    "push esi", ".cfi_adjust_cfa_offset 4", ".cfi_offset esi, -16",
    "push edi", ".cfi_adjust_cfa_offset 4", ".cfi_offset edi, -20",
    "mov eax, [esp+20]",
    "mov ecx, [esp+24]",
    "mov edx, [esp+28]",
    "sub esp, 8", ".cfi_adjust_cfa_offset 8",
    "push ecx", ".cfi_adjust_cfa_offset 4",
    "mov [edx+24], esp",
    "mov ebx, [edx]", "mov ebp, [edx+4]", "mov esi, [edx+8]", "mov edi, [edx+12]",
    "call eax",
    "corosim_regs_ret:",
    "mov edx, [esp+40]",
    "mov [edx+28], ebx", "mov [edx+32], ebp", "mov [edx+36], esi", "mov [edx+40], edi",
    "add esp, 12", ".cfi_adjust_cfa_offset -12",
    "pop edi", ".cfi_adjust_cfa_offset -4",
    "pop esi", ".cfi_adjust_cfa_offset -4",
    "pop ebx", ".cfi_adjust_cfa_offset -4",
    "pop ebp", ".cfi_adjust_cfa_offset -4",
    "ret",
    ".cfi_endproc",
);
#[cfg(all(target_arch = "x86", feature = "fp"))]
global_asm!(
    ".globl corosim_regs_call",
    ".globl corosim_regs_ret",
    "corosim_regs_call:",
    ".cfi_startproc",
    "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_offset ebp, -8",
    "mov ebp, esp", ".cfi_def_cfa_register ebp",
    "push ebx", ".cfi_offset ebx, -12",
    "push esi", ".cfi_offset esi, -16",
    "push edi", ".cfi_offset edi, -20",
    "mov eax, [ebp+8]",
    "mov ecx, [ebp+12]",
    "mov edx, [ebp+16]",
    "sub esp, 8",
    "push ecx",
    "mov [edx+24], esp",
    "mov [edx+4], ebp",
    "mov ebx, [edx]", "mov esi, [edx+8]", "mov edi, [edx+12]",
    "call eax",
    "corosim_regs_ret:",
    "mov edx, [esp+40]",
    "mov [edx+28], ebx", "mov [edx+32], ebp", "mov [edx+36], esi", "mov [edx+40], edi",
    "add esp, 12",
    "pop edi", "pop esi", "pop ebx", "pop ebp",
    ".cfi_def_cfa esp, 4",
    "ret",
    ".cfi_endproc",
);

extern "C-unwind" {
    fn corosim_regs_call(f: unsafe extern "C-unwind" fn(*mut u8), arg: *mut u8, b: *mut Block);
}
extern "C" {
    static corosim_regs_ret: [u8; 0];
}

pub fn ret_addr() -> usize {
    std::ptr::addr_of!(corosim_regs_ret) as usize
}

#[cfg(target_arch = "x86_64")]
pub const NREGS: usize = 6;
#[cfg(target_arch = "x86")]
pub const NREGS: usize = 4;
/// DWARF numbers of the registers, in the order of `Block::pat`.
#[cfg(target_arch = "x86_64")]
pub const DWARF: [i32; 6] = [3, 6, 12, 13, 14, 15];
#[cfg(target_arch = "x86")]
pub const DWARF: [i32; 4] = [3, 5, 6, 7];
pub const NAMES: [&str; 6] = if NREGS == 6 {
    ["rbx", "rbp", "r12", "r13", "r14", "r15"]
} else {
    ["ebx", "ebp", "esi", "edi", "", ""]
};

impl Block {
    pub fn new(id: u64) -> Block {
        let mut b = Block { pat: [0; 6], sp: 0, got: [0; 6] };
        for i in 0..6 {
            b.pat[i] = mix(id * 8 + i as u64) as usize;
        }
        b
    }
}

/// Calls `f` with the block's patterns in the callee-saved registers. Returns
/// the name of the first register that came back changed.
#[inline(never)]
pub fn regs_call<F: FnOnce()>(b: *mut Block, f: F) -> Option<&'static str> {
    unsafe extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = (*(p as *mut Option<F>)).take().unwrap();
        f()
    }
    unsafe {
        let mut f = Some(f);
        corosim_regs_call(tramp::<F>, &mut f as *mut _ as *mut u8, b);
        (0..NREGS).find(|&i| (*b).got[i] != (*b).pat[i]).map(|i| NAMES[i])
    }
}
