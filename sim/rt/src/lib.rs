//! vsim_rt: the deterministic simulator. It owns scheduling, memory order, allocation and faults of
//! the code under test, which is compiled with LLVM's thread instrumentation and linked against the
//! `__tsan_*` functions defined here instead of the ThreadSanitizer runtime.
#![allow(static_mut_refs)]
pub mod ctx;
pub mod hooks;
pub mod mem;
pub mod rng;
pub mod sched;

use std::alloc::{GlobalAlloc, Layout, System};

pub struct VAlloc;

unsafe impl GlobalAlloc for VAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sched::ACTIVE {
            sched::ACTIVE = false;
            let p = sched::rt().mem.alloc(l.size(), l.align(), false);
            sched::rt().user_alloc(l.size());
            sched::ACTIVE = true;
            p
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if sched::ACTIVE {
            sched::ACTIVE = false;
            let p = sched::rt().mem.alloc(l.size(), l.align(), true);
            sched::rt().user_alloc(l.size());
            sched::ACTIVE = true;
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mem::in_arena(p as usize) {
            let a = sched::set_active(false);
            sched::rt().mem.dealloc(p as usize, l.size());
            sched::set_active(a);
        } else if !in_poison(p as usize) {
            System.dealloc(p, l)
        } else {
            sched::fail("mem", "free of a garbage pointer".into())
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let inar = mem::in_arena(p as usize);
        if inar || sched::ACTIVE {
            let a = sched::set_active(true);
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            sched::set_active(false);
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                if mem::in_arena(q as usize) {
                    sched::rt().mem.mark_init(q as usize, l.size().min(n));
                }
            }
            sched::set_active(a);
            if !q.is_null() {
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// pointers made of the poison patterns of the arena
pub fn in_poison(p: usize) -> bool {
    let h = p >> 16;
    h == 0xA5A5_A5A5_A5A5 || h == 0xDDDD_DDDD_DDDD || p < 4096
}

#[global_allocator]
static GLOBAL: VAlloc = VAlloc;
