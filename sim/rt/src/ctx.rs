//! Fibers: hand-rolled context switch on x86_64 and mmap'd stacks.
use core::arch::global_asm;

global_asm!(
    ".globl vsim_switch",
    ".type vsim_switch,@function",
    "vsim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl vsim_tramp",
    ".type vsim_tramp,@function",
    "vsim_tramp:",
    "xor ebp, ebp",
    "call {entry}",
    "ud2",
    entry = sym crate::sched::fiber_entry,
);

extern "C" {
    pub fn vsim_switch(from: *mut usize, to: usize);
    pub fn vsim_tramp();
    pub fn mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn mprotect(a: usize, len: usize, prot: i32) -> i32;
}

pub const STACK_SIZE: usize = 512 * 1024;
pub const STACK_BASE: usize = 0x2000_0000_0000;

pub unsafe fn map_fixed(base: usize, len: usize) {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = mmap(base, len, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
    if p as usize != base {
        eprintln!("vsim: cannot map {base:#x}+{len:#x}");
        std::process::exit(70);
    }
}

/// prepares a fresh stack for fiber `i`, returns its initial rsp
pub unsafe fn prepare_stack(i: usize) -> usize {
    let base = STACK_BASE + i * STACK_SIZE;
    let mut sp = base + STACK_SIZE - 64;
    sp &= !15;
    // vsim_switch pops 6 registers and returns to vsim_tramp with rsp % 16 == 0 at tramp
    let push = |sp: &mut usize, v: usize| {
        *sp -= 8;
        *(*sp as *mut usize) = v;
    };
    push(&mut sp, 0);
    push(&mut sp, 0); // alignment pad
    push(&mut sp, vsim_tramp as *const () as usize);
    for _ in 0..6 {
        push(&mut sp, 0);
    }
    sp
}
