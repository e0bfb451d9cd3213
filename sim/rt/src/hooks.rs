//! The seam: every `__tsan_*` entry point that instrumented code calls.
use crate::mem::{in_arena, StoreEnt};
use crate::sched::{fail, join, rt, Pk, Rt, ACTIVE};

const HIST: usize = 8;

#[inline]
fn acq(mo: i32) -> bool {
    mo == 1 || mo == 2 || mo == 4 || mo == 5
}
#[inline]
fn rel(mo: i32) -> bool {
    mo == 3 || mo == 4 || mo == 5
}

#[inline]
fn plain(addr: usize, size: usize, write: bool) {
    unsafe {
        if !ACTIVE {
            return;
        }
        if !in_arena(addr) {
            if addr < 65536 || crate::in_poison(addr) {
                ACTIVE = false;
                wild(addr, size, write);
            }
            return;
        }
        ACTIVE = false;
        plain_slow(addr, size, write);
        ACTIVE = true;
    }
}

/// an atomic update of simulated memory that bypasses the simulator: the harness is wrong
#[inline]
fn outside(addr: usize) {
    if in_arena(addr) {
        fail("harness", format!("an atomic update at {addr:#x} outside of code under test"));
    }
}

#[cold]
fn wild(addr: usize, size: usize, write: bool) -> ! {
    fail(
        "mem",
        format!(
            "{} of {} bytes through a garbage pointer {:#x}",
            if write { "write" } else { "read" },
            size,
            addr
        ),
    )
}

fn plain_slow(addr: usize, size: usize, write: bool) {
    let r = rt();
    if r.cfg.plain_mean > 0 && r.n > 1 {
        let c = r.cur;
        if r.fibers[c].plain_left == 0 {
            let m = r.cfg.plain_mean;
            // own counter, not the scheduler's generator: identical in replay
            r.fibers[c].plain_left = m;
            r.point(Pk::Plain);
        } else {
            r.fibers[c].plain_left -= 1;
        }
    }
    rt().mem.access(addr, size, write, false);
    if rt().mem.n_access > 60_000_000 {
        fail("livelock", "endless loop of plain accesses".into());
    }
}

macro_rules! plain_hooks {
    ($($rn:ident $wn:ident $s:expr),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $rn(a: usize) { plain(a, $s, false) }
        #[no_mangle] pub unsafe extern "C" fn $wn(a: usize) { plain(a, $s, true) }
    )*}
}
plain_hooks!(
    __tsan_read1 __tsan_write1 1,
    __tsan_read2 __tsan_write2 2,
    __tsan_read4 __tsan_write4 4,
    __tsan_read8 __tsan_write8 8,
    __tsan_read16 __tsan_write16 16,
    __tsan_unaligned_read2 __tsan_unaligned_write2 2,
    __tsan_unaligned_read4 __tsan_unaligned_write4 4,
    __tsan_unaligned_read8 __tsan_unaligned_write8 8,
    __tsan_unaligned_read16 __tsan_unaligned_write16 16
);
macro_rules! rw_hooks {
    ($($n:ident $s:expr),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n(a: usize) { plain(a, $s, false); plain(a, $s, true) }
    )*}
}
rw_hooks!(
    __tsan_read_write1 1, __tsan_read_write2 2, __tsan_read_write4 4, __tsan_read_write8 8, __tsan_read_write16 16,
    __tsan_unaligned_read_write2 2, __tsan_unaligned_read_write4 4, __tsan_unaligned_read_write8 8,
    __tsan_unaligned_read_write16 16
);

#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) {
    if n > 0 {
        plain(a, n, false)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) {
    if n > 0 {
        plain(a, n, true)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        plain(s as usize, n, false);
        plain(d as usize, n, true);
        core::ptr::copy(s, d, n);
        if ACTIVE && in_arena(s as usize) && in_arena(d as usize) {
            rt().mem.copy_init(d as usize, s as usize, n);
        }
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n > 0 {
        plain(d as usize, n, true);
        core::ptr::write_bytes(d, c as u8, n);
    }
    d
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_a: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    plain(a, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    plain(a, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    unsafe {
        if !ACTIVE {
            return;
        }
        ACTIVE = false;
        let r = rt();
        r.point(Pk::Load);
        let c = r.cur;
        if acq(mo) {
            let p = r.fibers[c].acq_pending;
            join(&mut r.fibers[c].vc, &p);
        }
        if mo == 5 {
            let s = r.sc_clock;
            join(&mut r.fibers[c].vc, &s);
            let v = r.fibers[c].vc;
            join(&mut r.sc_clock, &v);
        }
        if rel(mo) {
            let v = r.fibers[c].vc;
            r.fibers[c].rel_fence = Some(Box::new(v));
            r.fibers[c].vc[c] += 1;
        }
        ACTIVE = true;
    }
}

/// newest value the current thread may not read older than, and how many older ones it may read
fn older_allowed(r: &mut Rt, li: usize) -> usize {
    let c = r.cur;
    let vc = r.fibers[c].vc;
    let l = &r.mem.locs[li];
    let n = l.hist.len();
    let mut min = 0usize;
    for j in (0..n).rev() {
        let e = &l.hist[j];
        if e.clk <= vc[e.tid as usize] {
            min = j;
            break;
        }
    }
    for (u, lst) in l.reads.iter().enumerate() {
        for (mo, clk) in lst.iter().rev() {
            if *clk <= vc[u] {
                let i = (*mo).saturating_sub(l.base) as usize;
                if i > min {
                    min = i.min(n - 1);
                }
                break;
            }
        }
    }
    if l.stale_run[c] >= 3 {
        return 0;
    }
    n - 1 - min
}

fn note_read(r: &mut Rt, li: usize, idx: usize) {
    let c = r.cur;
    let clk = r.fibers[c].vc[c];
    let l = &mut r.mem.locs[li];
    if l.reads.is_empty() {
        l.reads = vec![Vec::new(); crate::sched::MAXT];
    }
    let mo = l.base + idx as u64;
    let b = l.base;
    let v = &mut l.reads[c];
    if v.last().map_or(true, |x| x.0 < mo) {
        v.push((mo, clk));
        if v.len() > 24 {
            v.retain(|x| x.0 >= b);
        }
    }
}

fn do_acquire(r: &mut Rt, li: usize, idx: usize, mo: i32) {
    let c = r.cur;
    if let Some(v) = &r.mem.locs[li].hist[idx].rel {
        let v = **v;
        if acq(mo) {
            join(&mut r.fibers[c].vc, &v);
        } else {
            join(&mut r.fibers[c].acq_pending, &v);
        }
    }
}

fn push_store(r: &mut Rt, li: usize, val: u64, mo: i32, rmw: bool) {
    let c = r.cur;
    let vc = r.fibers[c].vc;
    let mut relvc = if rel(mo) {
        Some(Box::new(vc))
    } else {
        r.fibers[c].rel_fence.clone()
    };
    if rmw {
        if let Some(p) = &r.mem.locs[li].hist.last().unwrap().rel {
            match &mut relvc {
                Some(x) => join(x, p),
                None => relvc = Some(p.clone()),
            }
        }
    }
    if mo == 5 {
        // a single order of sequentially consistent operations, made stronger than required
        let s = r.sc_clock;
        join(&mut r.fibers[c].vc, &s);
        let v = r.fibers[c].vc;
        join(&mut r.sc_clock, &v);
    }
    let weak = r.cfg.weak;
    let l = &mut r.mem.locs[li];
    let e = StoreEnt {
        val,
        tid: c as u8,
        clk: vc[c],
        rel: relvc,
    };
    if weak {
        l.hist.push(e);
        if l.hist.len() > HIST {
            l.hist.remove(0);
            l.base += 1;
        }
    } else {
        l.hist[0] = e;
    }
    l.stale_run[c] = 0;
    if rel(mo) {
        r.fibers[c].vc[c] += 1;
    }
}

fn pre(addr: usize, size: usize, write: bool) {
    if crate::in_poison(addr) || addr < 65536 {
        wild(addr, size, write);
    }
    if addr % size != 0 {
        fail("mem", format!("misaligned atomic access of {size} bytes"));
    }
}

fn a_load(addr: usize, size: u8, mo: i32, cur: impl Fn() -> u64) -> u64 {
    unsafe {
        if !ACTIVE {
            return cur();
        }
        ACTIVE = false;
        pre(addr, size as usize, false);
        if !in_arena(addr) {
            let v = cur();
            ACTIVE = true;
            return v;
        }
        rt().point(Pk::Load);
        let r = rt();
        r.opno += 1;
        r.mem.access(addr, size as usize, false, true);
        r.mem.check_init(addr, size as usize);
        let newest = cur();
        let li = r.mem.loc(addr, size, newest);
        let n = r.mem.locs[li].hist.len();
        let mut age = 0;
        if r.cfg.weak && mo != 5 && r.n > 1 && n > 1 {
            let k = older_allowed(r, li);
            if k > 0 {
                age = r.stale_choice(k as u32) as usize;
            }
        }
        let idx = n - 1 - age;
        let c = r.cur;
        if age > 0 {
            r.mem.locs[li].stale_run[c] += 1;
        } else {
            r.mem.locs[li].stale_run[c] = 0;
        }
        let v = if age == 0 {
            newest
        } else {
            r.mem.locs[li].hist[idx].val
        };
        do_acquire(r, li, idx, mo);
        if r.cfg.weak {
            note_read(r, li, idx);
        }
        r.unproductive(addr);
        if r.cfg.trace {
            let d = r.mem.desc(addr);
            crate::sched::trace(format!("load  {d} -> {v}{}", if age > 0 { " (stale)" } else { "" }));
        }
        ACTIVE = true;
        v
    }
}

fn a_store(addr: usize, size: u8, mo: i32, val: u64, write: impl Fn(u64), cur: impl Fn() -> u64) {
    unsafe {
        if !ACTIVE {
            outside(addr);
            write(val);
            return;
        }
        ACTIVE = false;
        pre(addr, size as usize, true);
        if !in_arena(addr) {
            write(val);
            ACTIVE = true;
            return;
        }
        rt().point(Pk::Write);
        let r = rt();
        r.opno += 1;
        r.mem.access(addr, size as usize, true, true);
        let li = r.mem.loc(addr, size, cur());
        push_store(r, li, val, mo, false);
        write(val);
        r.productive();
        if r.cfg.trace {
            let d = r.mem.desc(addr);
            crate::sched::trace(format!("store {d} <- {val}"));
        }
        ACTIVE = true;
    }
}

fn a_rmw(
    addr: usize,
    size: u8,
    mo: i32,
    f: impl Fn(u64) -> u64,
    write: impl Fn(u64),
    cur: impl Fn() -> u64,
) -> u64 {
    unsafe {
        if !ACTIVE {
            outside(addr);
            let o = cur();
            write(f(o));
            return o;
        }
        ACTIVE = false;
        pre(addr, size as usize, true);
        if !in_arena(addr) {
            let o = cur();
            write(f(o));
            ACTIVE = true;
            return o;
        }
        rt().point(Pk::Write);
        let r = rt();
        r.opno += 1;
        r.mem.check_init(addr, size as usize);
        r.mem.access(addr, size as usize, true, true);
        let o = cur();
        let li = r.mem.loc(addr, size, o);
        let last = r.mem.locs[li].hist.len() - 1;
        do_acquire(r, li, last, mo);
        let nv = f(o);
        push_store(r, li, nv, mo, true);
        write(nv);
        if nv != o {
            r.productive();
        } else {
            r.unproductive(addr);
        }
        if r.cfg.trace {
            let d = r.mem.desc(addr);
            crate::sched::trace(format!("rmw   {d} {o} -> {nv}"));
        }
        ACTIVE = true;
        o
    }
}

fn a_cas(
    addr: usize,
    size: u8,
    exp: u64,
    new: u64,
    mo: i32,
    fmo: i32,
    write: impl Fn(u64),
    cur: impl Fn() -> u64,
) -> u64 {
    unsafe {
        if !ACTIVE {
            outside(addr);
            let o = cur();
            if o == exp {
                write(new);
            }
            return o;
        }
        ACTIVE = false;
        pre(addr, size as usize, true);
        if !in_arena(addr) {
            let o = cur();
            if o == exp {
                write(new);
            }
            ACTIVE = true;
            return o;
        }
        rt().point(Pk::Write);
        let r = rt();
        r.opno += 1;
        if in_arena(addr) {
            r.mem.check_init(addr, size as usize);
        }
        let newest = cur();
        let li = r.mem.loc(addr, size, newest);
        let n = r.mem.locs[li].hist.len();
        // a failing compare-exchange is only a load, and may read an older value
        if r.cfg.weak && fmo != 5 && mo != 5 && r.n > 1 && n > 1 {
            let k = older_allowed(r, li);
            if k > 0 {
                let age = r.stale_choice(k as u32) as usize;
                let idx = n - 1 - age;
                let sv = r.mem.locs[li].hist[idx].val;
                if age > 0 && sv != exp {
                    let c = r.cur;
                    r.mem.locs[li].stale_run[c] += 1;
                    r.mem.access(addr, size as usize, false, true);
                    do_acquire(r, li, idx, fmo);
                    note_read(r, li, idx);
                    r.unproductive(addr);
                    ACTIVE = true;
                    return sv;
                }
            }
        }
        let last = n - 1;
        if newest == exp {
            r.mem.access(addr, size as usize, true, true);
            do_acquire(r, li, last, mo);
            push_store(r, li, new, mo, true);
            write(new);
            if new != exp {
                r.productive();
            } else {
                r.unproductive(addr);
            }
        } else {
            r.mem.access(addr, size as usize, false, true);
            do_acquire(r, li, last, fmo);
            if r.cfg.weak {
                note_read(r, li, last);
            }
            let c = r.cur;
            r.mem.locs[li].stale_run[c] = 0;
            r.unproductive(addr);
        }
        if r.cfg.trace {
            let d = r.mem.desc(addr);
            crate::sched::trace(format!(
                "cas   {d} {exp} -> {new}: {}",
                if newest == exp { "ok".to_string() } else { format!("found {newest}") }
            ));
        }
        ACTIVE = true;
        newest
    }
}

// narrow operands come in whole registers whose upper bits are undefined: they are cut here
macro_rules! atomics {
    ($t:ty, $st:ty, $s:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident,
     $xor:ident, $nand:ident, $cs:ident, $cw:ident, $cv:ident, $mm:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, mo: i32) -> $t {
            a_load(a as usize, $s, mo, || core::ptr::read_volatile(a) as u64) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: u64, mo: i32) {
            let v = v as $t;
            a_store(
                a as usize, $s, mo, v as u64,
                |x| core::ptr::write_volatile(a, x as $t),
                || core::ptr::read_volatile(a) as u64,
            )
        }
        atomics!(@rmw $t, $s, $xchg, |_o, v| v);
        atomics!(@rmw $t, $s, $add, |o: $t, v: $t| o.wrapping_add(v));
        atomics!(@rmw $t, $s, $sub, |o: $t, v: $t| o.wrapping_sub(v));
        atomics!(@rmw $t, $s, $and, |o: $t, v: $t| o & v);
        atomics!(@rmw $t, $s, $or, |o: $t, v: $t| o | v);
        atomics!(@rmw $t, $s, $xor, |o: $t, v: $t| o ^ v);
        atomics!(@rmw $t, $s, $nand, |o: $t, v: $t| !(o & v));
        /// min/max/…, which LLVM's pass leaves alone: rewritten to this call by sim/wrap.py
        #[no_mangle]
        pub unsafe extern "C" fn $mm(a: *mut $t, v: u64, op: i32, mo: i32) -> $t {
            let v = v as $t;
            a_rmw(
                a as usize, $s, mo,
                |o| {
                    let o = o as $t;
                    (match op {
                        0 => if o > v { o } else { v },
                        1 => if o < v { o } else { v },
                        2 => if (o as $st) > (v as $st) { o } else { v },
                        3 => if (o as $st) < (v as $st) { o } else { v },
                        4 => if o >= v { 0 } else { o + 1 },
                        5 => if o == 0 || o > v { v } else { o - 1 },
                        6 => if o >= v { o - v } else { o },
                        7 => o.saturating_sub(v),
                        _ => std::process::abort(),
                    }) as u64
                },
                |x| core::ptr::write_volatile(a, x as $t),
                || core::ptr::read_volatile(a) as u64,
            ) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cv(a: *mut $t, e: u64, n: u64, mo: i32, fmo: i32) -> $t {
            let (e, n) = (e as $t, n as $t);
            a_cas(
                a as usize, $s, e as u64, n as u64, mo, fmo,
                |x| core::ptr::write_volatile(a, x as $t),
                || core::ptr::read_volatile(a) as u64,
            ) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cs(a: *mut $t, e: *mut $t, n: u64, mo: i32, fmo: i32) -> i32 {
            let x = *e;
            let o = $cv(a, x as u64, n, mo, fmo);
            *e = o;
            (o == x) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cw(a: *mut $t, e: *mut $t, n: u64, mo: i32, fmo: i32) -> i32 {
            $cs(a, e, n, mo, fmo)
        }
    };
    (@rmw $t:ty, $s:expr, $n:ident, $f:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *mut $t, v: u64, mo: i32) -> $t {
            let v = v as $t;
            let f: fn($t, $t) -> $t = $f;
            a_rmw(
                a as usize, $s, mo,
                |o| f(o as $t, v) as u64,
                |x| core::ptr::write_volatile(a, x as $t),
                || core::ptr::read_volatile(a) as u64,
            ) as $t
        }
    };
}
atomics!(u8, i8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor,
    __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak,
    __tsan_atomic8_compare_exchange_val, __vsim_rmw8);
atomics!(u16, i16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor,
    __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak,
    __tsan_atomic16_compare_exchange_val, __vsim_rmw16);
atomics!(u32, i32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor,
    __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak,
    __tsan_atomic32_compare_exchange_val, __vsim_rmw32);
atomics!(u64, i64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor,
    __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak,
    __tsan_atomic64_compare_exchange_val, __vsim_rmw64);
