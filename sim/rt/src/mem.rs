//! Simulated memory: a bump arena for everything the code under test allocates, with redzones,
//! poisoning, no reuse within a run, use-after-free / out-of-bounds detection on every
//! instrumented access, a happens-before race detector and store histories for weak memory.
use crate::ctx::map_fixed;
use crate::sched::{fail, rt, MAXT};

pub const ARENA_BASE: usize = 0x1000_0000_0000;
pub const ARENA_SIZE: usize = 64 << 20;
const GRAN_BASE: usize = 0x1100_0000_0000; // u32 per 16 bytes
const CELL_BASE: usize = 0x1200_0000_0000; // Cell (64 bytes) per 8 bytes
const LOC_BASE: usize = 0x1300_0000_0000; // u32 per byte

pub type Vc = [u32; MAXT];

#[repr(C)]
struct Cell {
    gen: u32,
    n: u16,
    /// bytes written since the allocation
    init: u8,
    _pad: u8,
    recs: [u64; 7],
}

#[derive(Clone, Copy)]
pub struct Alloc {
    pub start: usize,
    pub size: usize,
    pub freed: bool,
    pub tid: u8,
    pub freed_by: u8,
    pub tag: u32,
}

#[derive(Clone)]
pub struct StoreEnt {
    pub val: u64,
    pub tid: u8,
    pub clk: u32,
    pub rel: Option<Box<Vc>>,
}

pub struct Loc {
    pub addr: usize,
    pub size: u8,
    pub base: u64, // modification-order number of hist[0]
    pub hist: Vec<StoreEnt>,
    /// per thread: (mo index, clk when read), ascending
    pub reads: Vec<Vec<(u64, u32)>>,
    pub stale_run: [u8; MAXT],
}

pub struct Mem {
    pub top: usize,
    /// lowest address given out from the upper end
    low: usize,
    /// where the next block goes: 0 upwards, 1 downwards, else either, pseudo-randomly
    layout: u32,
    pub allocs: Vec<Alloc>,
    pub gen: u32,
    pub locs: Vec<Loc>,
    pub loc_first: u32,
    pub live: usize,
    pub n_access: u64,
    pub alloc_calls: u64,
    inited: bool,
}

impl Mem {
    pub const fn new() -> Self {
        Mem {
            top: 0,
            low: ARENA_SIZE,
            layout: 0,
            allocs: Vec::new(),
            gen: 1,
            locs: Vec::new(),
            loc_first: 1,
            live: 0,
            n_access: 0,
            alloc_calls: 0,
            inited: false,
        }
    }
    pub fn init(&mut self) {
        if self.inited {
            return;
        }
        self.inited = true;
        unsafe {
            map_fixed(ARENA_BASE, ARENA_SIZE);
            map_fixed(GRAN_BASE, ARENA_SIZE / 16 * 4);
            map_fixed(CELL_BASE, ARENA_SIZE / 8 * 64);
            map_fixed(LOC_BASE, ARENA_SIZE * 4);
        }
    }
    pub fn reset(&mut self, layout: u32) {
        unsafe {
            core::ptr::write_bytes(GRAN_BASE as *mut u8, 0, (self.top / 16 + 2) * 4);
            core::ptr::write_bytes((GRAN_BASE + self.low / 16 * 4) as *mut u8, 0, (ARENA_SIZE - self.low) / 16 * 4);
        }
        self.layout = layout;
        self.top = 64;
        self.low = ARENA_SIZE - 64;
        self.allocs.clear();
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            unsafe { core::ptr::write_bytes(CELL_BASE as *mut u8, 0, ARENA_SIZE / 8 * 64) };
            self.gen = 1;
        }
        self.loc_first += self.locs.len() as u32;
        if self.loc_first > 0x7000_0000 {
            unsafe { core::ptr::write_bytes(LOC_BASE as *mut u8, 0, ARENA_SIZE * 4) };
            self.loc_first = 1;
        }
        self.locs.clear();
        self.live = 0;
        self.n_access = 0;
        self.alloc_calls = 0;
    }
    #[inline]
    fn gran(&self, addr: usize) -> &'static mut u32 {
        unsafe { &mut *((GRAN_BASE + (addr - ARENA_BASE) / 16 * 4) as *mut u32) }
    }
    #[inline]
    fn cell(&self, addr: usize) -> &'static mut Cell {
        unsafe { &mut *((CELL_BASE + (addr - ARENA_BASE) / 8 * 64) as *mut Cell) }
    }
    #[inline]
    fn loc_slot(&self, addr: usize) -> &'static mut u32 {
        unsafe { &mut *((LOC_BASE + (addr - ARENA_BASE) * 4) as *mut u32) }
    }

    pub fn alloc(&mut self, size: usize, align: usize, zero: bool) -> *mut u8 {
        let al = align.max(16);
        if size > ARENA_SIZE / 2 {
            return core::ptr::null_mut();
        }
        let down = match self.layout {
            0 => false,
            1 => true,
            k => {
                let x = (k as u64).wrapping_add(self.alloc_calls).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 63 == 1
            }
        };
        let room = ((size + 15) & !15) + 48 + al;
        if self.top + room > self.low {
            // no block is handed out twice: this run ends here, undecided
            fail("room", format!("{} allocations fill the arena", self.alloc_calls));
        }
        let start = if down {
            let s = (ARENA_BASE + self.low - 16 - ((size + 15) & !15)) & !(al - 1);
            self.low = s - ARENA_BASE - 16;
            s
        } else {
            let s = (ARENA_BASE + self.top + 16 + al - 1) & !(al - 1);
            self.top = s + ((size + 15) & !15) + 16 - ARENA_BASE;
            s
        };
        let id = self.allocs.len() as u32 + 1;
        let r = rt();
        self.allocs.push(Alloc {
            start,
            size,
            freed: false,
            tid: r.cur as u8,
            freed_by: 0,
            tag: r.cur_tag(),
        });
        let mut a = start;
        while a < start + size.max(1) {
            *self.gran(a) = id;
            a += 16;
        }
        unsafe { core::ptr::write_bytes(start as *mut u8, if zero { 0 } else { 0xA5 }, size) };
        if zero {
            self.mark_init(start, size);
        }
        self.live += 1;
        self.alloc_calls += 1;
        start as *mut u8
    }

    pub fn dealloc(&mut self, p: usize, size: usize) {
        let id = *self.gran(p);
        if id == 0 {
            fail("mem", format!("free of a pointer never allocated {}", self.desc(p)));
        }
        let a = self.allocs[id as usize - 1];
        if a.start != p {
            fail("mem", format!("free of an interior pointer {}", self.desc(p)));
        }
        if a.freed {
            fail(
                "mem",
                format!(
                    "double free of {} (first by T{}, now by T{})",
                    self.desc(p),
                    a.freed_by,
                    rt().cur
                ),
            );
        }
        if a.size != size {
            fail(
                "mem",
                format!("free of {} with a different size {}", self.desc(p), size),
            );
        }
        if size > 0 {
            self.range_record(p, size, true, false, "free");
            self.kill_locs(p, size);
        }
        let c = rt().cur as u8;
        let al = &mut self.allocs[id as usize - 1];
        al.freed = true;
        al.freed_by = c;
        self.live -= 1;
        unsafe { core::ptr::write_bytes(p as *mut u8, 0xDD, size) };
    }

    pub fn size_of(&self, p: usize) -> Option<usize> {
        let id = *self.gran(p);
        if id == 0 {
            return None;
        }
        Some(self.allocs[id as usize - 1].size)
    }

    pub fn desc(&self, addr: usize) -> String {
        // printed relative to the arena, so messages are stable
        let id = *self.gran(addr);
        if id == 0 {
            return format!("arena+{:#x} (no block)", addr - ARENA_BASE);
        }
        let a = self.allocs[id as usize - 1];
        format!(
            "byte {} of block #{} ({} bytes, by T{} in op {})",
            addr - a.start,
            id,
            a.size,
            a.tid,
            a.tag as i32
        )
    }

    /// an access of `size` bytes at `addr` (inside the arena) by the code under test
    #[inline]
    pub fn access(&mut self, addr: usize, size: usize, write: bool, atomic: bool) {
        self.n_access += 1;
        let id = *self.gran(addr);
        if id == 0 {
            fail(
                "mem",
                format!(
                    "{} of {} bytes outside of any block at arena+{:#x}",
                    if write { "write" } else { "read" },
                    size,
                    addr - ARENA_BASE
                ),
            );
        }
        let a = &self.allocs[id as usize - 1];
        if a.freed {
            fail(
                "mem",
                format!(
                    "use after free: {} of {} bytes at {}, freed by T{}, accessed by T{}",
                    if write { "write" } else { "read" },
                    size,
                    self.desc(addr),
                    a.freed_by,
                    rt().cur
                ),
            );
        }
        if addr + size > a.start + a.size {
            fail(
                "mem",
                format!(
                    "out of bounds {} of {} bytes at {}",
                    if write { "write" } else { "read" },
                    size,
                    self.desc(addr)
                ),
            );
        }
        self.range_record(addr, size, write, atomic, "");
        if write && !atomic {
            self.kill_locs(addr, size);
        }
    }

    /// an atomic operation that reads memory nobody has written since its allocation
    #[inline]
    pub fn check_init(&mut self, addr: usize, size: usize) {
        let c = self.cell(addr & !7);
        let mask = (((1u32 << size) - 1) << (addr & 7)) as u8;
        if c.gen != self.gen || c.init & mask != mask {
            fail("mem", format!("atomic read of {} bytes never written at {}", size, self.desc(addr)));
        }
    }

    pub fn mark_init(&mut self, p: usize, n: usize) {
        let mut g = p & !7;
        while g < p + n {
            let lo = p.max(g) - g;
            let hi = (p + n).min(g + 8) - g;
            let c = self.cell(g);
            if c.gen != self.gen {
                c.gen = self.gen;
                c.n = 0;
                c.init = 0;
            }
            c.init |= ((1u32 << hi) - (1u32 << lo)) as u8;
            g += 8;
        }
    }

    /// a copy within the arena leaves what was not written as it was
    pub fn copy_init(&mut self, d: usize, s: usize, n: usize) {
        if d & 7 != s & 7 {
            return;
        }
        let mut k = 0;
        while k < n {
            let step = (8 - ((s + k) & 7)).min(n - k);
            let sc = self.cell((s + k) & !7);
            let lo = (s + k) & 7;
            let mask = ((1u32 << (lo + step)) - (1u32 << lo)) as u8;
            let have = if sc.gen == self.gen { sc.init & mask } else { 0 };
            let dc = self.cell((d + k) & !7);
            dc.init = (dc.init & !mask) | have;
            k += step;
        }
    }

    /// plain writes end the store history of atomics they cover
    fn kill_locs(&mut self, addr: usize, size: usize) {
        if self.locs.is_empty() {
            return;
        }
        for b in addr..addr + size {
            let s = self.loc_slot(b);
            if *s >= self.loc_first {
                *s = 0;
            }
        }
    }

    #[inline]
    fn range_record(&mut self, addr: usize, size: usize, write: bool, atomic: bool, why: &str) {
        let end = addr + size;
        let mut g = addr & !7;
        while g < end {
            let lo = addr.max(g) - g;
            let hi = end.min(g + 8) - g;
            let mask = ((1u32 << hi) - (1u32 << lo)) as u8;
            self.record(g, mask, write, atomic, why);
            g += 8;
        }
    }

    #[inline]
    fn record(&mut self, g: usize, mask: u8, write: bool, atomic: bool, why: &str) {
        let r = rt();
        let t = r.cur;
        let vc = &r.fibers[t].vc;
        let c = self.cell(g);
        if c.gen != self.gen {
            c.gen = self.gen;
            c.n = 0;
            c.init = 0;
        }
        if write {
            c.init |= mask;
        }
        let me = rec(vc[t], mask, t as u8, write, atomic);
        let mut n = c.n as usize;
        let mut i = 0;
        while i < n {
            let x = c.recs[i];
            let xm = (x >> 24) as u8;
            let xt = ((x >> 8) & 0xff) as usize;
            let xw = x & 1 != 0;
            let xa = x & 2 != 0;
            let clk = (x >> 32) as u32;
            let drop;
            if xt == t {
                drop = xm & !mask == 0 && (write || !xw) && (!atomic || xa);
            } else {
                let hb = clk <= vc[xt];
                if !hb && xm & mask != 0 && (xw || write) && !(xa && atomic) {
                    let m = format!(
                        "data race: {}{} by T{} and unordered {}{} by T{} on {}{}{}",
                        if atomic { "atomic " } else { "" },
                        if write { "write" } else { "read" },
                        t,
                        if xa { "atomic " } else { "" },
                        if xw { "write" } else { "read" },
                        xt,
                        self.desc(g + (xm & mask).trailing_zeros() as usize),
                        if why.is_empty() { "" } else { ", on " },
                        why,
                    );
                    r.race_hits += 1;
                    if r.cfg.race_fatal {
                        fail("race", m);
                    } else if r.first_race.is_none() {
                        r.first_race = Some(m);
                    }
                }
                drop = hb && xm & !mask == 0 && write && (!atomic || xa);
            }
            if drop {
                n -= 1;
                c.recs[i] = c.recs[n];
            } else {
                i += 1;
            }
        }
        if n == 7 {
            // full: forget the oldest plain read, else the first
            c.recs.copy_within(1..7, 0);
            n = 6;
        }
        c.recs[n] = me;
        c.n = n as u16 + 1;
    }

    /// the store history of the atomic at `addr` (created from memory if unknown)
    #[inline]
    pub fn loc(&mut self, addr: usize, size: u8, cur: u64) -> usize {
        let s = self.loc_slot(addr);
        if *s >= self.loc_first {
            let i = (*s - self.loc_first) as usize;
            if self.locs[i].size == size {
                return i;
            }
        }
        let i = self.locs.len();
        *s = self.loc_first + i as u32;
        self.locs.push(Loc {
            addr,
            size,
            base: 0,
            hist: vec![StoreEnt {
                val: cur,
                tid: 0,
                clk: 0,
                rel: None,
            }],
            reads: Vec::new(),
            stale_run: [0; MAXT],
        });
        i
    }
}

#[inline]
fn rec(clk: u32, mask: u8, tid: u8, w: bool, a: bool) -> u64 {
    ((clk as u64) << 32) | ((mask as u64) << 24) | ((tid as u64) << 8) | (w as u64) | ((a as u64) << 1)
}

#[inline]
pub fn in_arena(addr: usize) -> bool {
    addr.wrapping_sub(ARENA_BASE) < ARENA_SIZE
}
