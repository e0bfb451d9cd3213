//! The seeded scheduler. Every simulated thread is a fiber on the one OS thread; which fiber runs is
//! decided only here, at every atomic operation, user callback and operation boundary.
use crate::ctx::{prepare_stack, vsim_switch};
use crate::mem::{Mem, Vc};
use crate::rng::Rng;

pub const MAXT: usize = 8;
pub const IDLE_GRACE: u64 = 300_000;
pub const STEP_FAIR: u64 = 1_500_000;
pub const STEP_CAP: u64 = 4_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Ready,
    Blocked,
    Finished,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pk {
    Load,
    Write,
    Plain,
    Callback,
    Boundary,
}

#[derive(Clone, Copy, Debug)]
pub enum Strat {
    /// run to completion / default order
    Calm,
    /// preempt after geometric gaps
    Random { mean: u64 },
    /// preempt with probability 1/den after writes and callbacks, rarely elsewhere
    AfterWrite { den: u64 },
    /// priorities with d change points over an expected length
    Pct { d: u32, len: u64 },
    /// switch round robin at every point
    RoundRobin,
}

/// thread `tid` stops after its `at`-th step of phase `phase` for `len` global steps (0: until the
/// others are finished or cannot go on); with ON_VALUE set in `at`: when a user callback of that
/// thread is given the value with the id in the other bits; with ON_ALLOC: when that thread has been
/// given that many blocks of memory in the phase
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stall {
    pub phase: u32,
    pub tid: u8,
    pub at: u32,
    pub len: u32,
}

pub const ON_VALUE: u32 = 1 << 31;
pub const ON_ALLOC: u32 = 1 << 30;

/// a recorded decision: kind 0 = switch to `val` at the `at`-th choice of the scheduler; 1 = stale read of age `val` at atomic
/// operation `at`; 2 = spurious or stale failure of a compare-exchange at atomic operation `at`
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    pub kind: u8,
    pub at: u64,
    pub val: u32,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub weak: bool,
    pub stale_den: u64,
    pub race_fatal: bool,
    pub strict_freeze: bool,
    pub strat: Strat,
    pub plain_mean: u64,
    pub layout: u32,
    pub boundary_den: u64,
    pub replay: Option<Vec<Dec>>,
    pub stalls: Vec<Stall>,
    /// for how many steps the others may go on waiting for a thread that is stalled until they cannot go on
    pub patience: u64,
    pub trace: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 0,
            weak: false,
            stale_den: 3,
            race_fatal: true,
            strict_freeze: false,
            strat: Strat::Calm,
            plain_mean: 0,
            layout: 0,
            boundary_den: 0,
            replay: None,
            stalls: Vec::new(),
            patience: 2000,
            trace: false,
        }
    }
}

pub struct Fiber {
    pub st: St,
    rsp: usize,
    f: Option<Box<dyn FnOnce()>>,
    pub vc: Vc,
    pub acq_pending: Vc,
    pub rel_fence: Option<Box<Vc>>,
    pub steps: u32,
    pub allocs: u32,
    pub prev: Pk,
    pub spin_epoch: u64, // == epoch: spinning
    pub last_addr: usize,
    pub same: u32,
    pub unprod: u32,
    pub stall_until: u64,
    pub prio: u32,
    pub tag: u32,
    pub noyield: u32,
    pub panic_msg: Option<String>,
    pub plain_left: u64,
}

impl Fiber {
    fn new() -> Self {
        Fiber {
            st: St::Unused,
            rsp: 0,
            f: None,
            vc: [0; MAXT],
            acq_pending: [0; MAXT],
            rel_fence: None,
            steps: 0,
            allocs: 0,
            prev: Pk::Boundary,
            spin_epoch: u64::MAX,
            last_addr: 0,
            same: 0,
            unprod: 0,
            stall_until: 0,
            prio: 0,
            tag: 0,
            noyield: 0,
            panic_msg: None,
            plain_left: 0,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stale_reads: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub freezes: u64,
    pub heals: u64,
    pub spins: u64,
    pub accesses: u64,
    pub atomics: u64,
    pub allocs: u64,
    pub races: u64,
    pub sched_hash: u64,
}

pub struct Rt {
    pub fibers: Vec<Fiber>,
    pub cur: usize,
    pub n: usize,
    host_rsp: usize,
    pub mem: Mem,
    pub cfg: Cfg,
    pub rng: Rng,
    pub step: u64,
    /// number of scheduling choices so far
    pub dno: u64,
    pub opno: u64,
    pub seq: u64,
    pub epoch: u64,
    pub idle: u64,
    next_pre: u64,
    pct_left: Vec<u64>,
    next_prio: u32,
    pub phase: u32,
    pub decs: Vec<Dec>,
    rp_sched: usize,
    rp_stale: usize,
    rp_list_s: Vec<Dec>,
    rp_list_w: Vec<Dec>,
    pub failed: Option<(&'static str, String)>,
    /// stalls whose value or allocation has come (bits): the thread stops at its next step
    pending: u32,
    value_hits: u32,
    pub stats: Stats,
    pub race_hits: u64,
    pub first_race: Option<String>,
    pub slots: Vec<Vc>,
    pub sc_clock: Vc,
    pub running: bool,
    pub shared_decs: *mut u64,
    pub trace: Vec<String>,
}

impl Rt {
    pub fn cur_tag(&self) -> u32 {
        self.fibers[self.cur].tag
    }
}

static mut RT: Option<Box<Rt>> = None;
static mut RT_PTR: *mut Rt = core::ptr::null_mut();
/// set while code under test runs: its accesses are simulated, its allocations come from the arena
pub static mut ACTIVE: bool = false;

#[inline]
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT_PTR.is_null() {
            let a = ACTIVE;
            ACTIVE = false;
            RT = Some(Box::new(Rt {
                fibers: (0..MAXT).map(|_| Fiber::new()).collect(),
                cur: 0,
                n: 0,
                host_rsp: 0,
                mem: Mem::new(),
                cfg: Cfg::default(),
                rng: Rng::new(0),
                step: 0,
                dno: 0,
                opno: 0,
                seq: 0,
                epoch: 0,
                idle: 0,
                next_pre: 0,
                pct_left: Vec::new(),
                next_prio: 0,
                phase: 0,
                decs: Vec::new(),
                rp_sched: 0,
                rp_stale: 0,
                rp_list_s: Vec::new(),
                rp_list_w: Vec::new(),
                failed: None,
                pending: 0,
                value_hits: 0,
                stats: Stats::default(),
                race_hits: 0,
                first_race: None,
                slots: vec![[0; MAXT]; 8],
                sc_clock: [0; MAXT],
                running: false,
                shared_decs: core::ptr::null_mut(),
                trace: Vec::new(),
            }));
            RT_PTR = &mut **RT.as_mut().unwrap();
            ACTIVE = a;
        }
        &mut *RT_PTR
    }
}

#[inline]
pub fn set_active(x: bool) -> bool {
    unsafe {
        let a = ACTIVE;
        ACTIVE = x;
        a
    }
}

#[inline]
pub fn is_active() -> bool {
    unsafe { ACTIVE }
}

pub struct Outcome {
    pub fail: Option<(&'static str, String)>,
    pub decs: Vec<Dec>,
    pub stats: Stats,
    pub first_race: Option<String>,
    pub trace: Vec<String>,
}

pub fn run(cfg: Cfg, main: Box<dyn FnOnce()>) -> Outcome {
    set_active(false);
    let r = rt();
    if !r.running {
        r.mem.init();
        unsafe {
            crate::ctx::map_fixed(
                crate::ctx::STACK_BASE - 4096,
                crate::ctx::STACK_SIZE * MAXT + 4096,
            );
            // lowest page of every stack is a guard
            for i in 0..MAXT {
                crate::ctx::mprotect(
                    crate::ctx::STACK_BASE + i * crate::ctx::STACK_SIZE,
                    4096,
                    0,
                );
            }
        }
        r.running = true;
    }
    r.mem.reset(cfg.layout);
    for f in r.fibers.iter_mut() {
        // an abandoned closure of a failed run is leaked, never dropped
        if let Some(b) = f.f.take() {
            core::mem::forget(b);
        }
        *f = Fiber::new();
    }
    r.rng = Rng::new(cfg.seed);
    r.cur = 0;
    r.n = 1;
    r.step = 0;
    r.dno = 0;
    r.opno = 0;
    r.seq = 0;
    r.epoch = 1;
    r.idle = 0;
    r.next_prio = 0;
    r.phase = 0;
    r.pending = 0;
    r.value_hits = 0;
    r.decs.clear();
    r.rp_sched = 0;
    r.rp_stale = 0;
    r.rp_list_s.clear();
    r.rp_list_w.clear();
    if let Some(d) = &cfg.replay {
        r.rp_list_s = d.iter().copied().filter(|d| d.kind == 0).collect();
        r.rp_list_w = d.iter().copied().filter(|d| d.kind != 0).collect();
        r.rp_list_s.sort_by_key(|d| d.at);
        r.rp_list_w.sort_by_key(|d| d.at);
    }
    r.failed = None;
    r.stats = Stats::default();
    r.stats.sched_hash = 0xcbf29ce484222325;
    r.race_hits = 0;
    r.first_race = None;
    for s in r.slots.iter_mut() {
        *s = [0; MAXT];
    }
    r.sc_clock = [0; MAXT];
    r.trace.clear();
    r.cfg = cfg;
    r.pct_left.clear();
    match r.cfg.strat {
        Strat::Random { mean } => r.next_pre = r.rng.gap(mean),
        Strat::Pct { d, len } => {
            for _ in 0..d {
                let x = 1 + r.rng.below(len.max(1));
                r.pct_left.push(x);
            }
            r.pct_left.sort();
            r.pct_left.reverse();
        }
        _ => {}
    }
    if !r.shared_decs.is_null() {
        unsafe { *r.shared_decs = 0 };
    }
    unsafe {
        r.fibers[0].st = St::Ready;
        r.fibers[0].vc[0] = 1;
        r.fibers[0].rsp = prepare_stack(0);
        r.fibers[0].f = Some(main);
        r.fibers[0].prio = 1000;
        let to = r.fibers[0].rsp;
        vsim_switch(&mut r.host_rsp, to);
    }
    set_active(false);
    let r = rt();
    r.stats.steps = r.step;
    r.stats.accesses = r.mem.n_access;
    r.stats.atomics = r.opno;
    r.stats.allocs = r.mem.alloc_calls;
    r.stats.races = r.race_hits;
    Outcome {
        fail: r.failed.take(),
        decs: r.decs.clone(),
        stats: r.stats.clone(),
        first_race: r.first_race.take(),
        trace: core::mem::take(&mut r.trace),
    }
}

pub extern "C" fn fiber_entry() -> ! {
    set_active(false);
    let r = rt();
    let f = r.fibers[r.cur].f.take().expect("fiber without body");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_active(false);
    let r = rt();
    if let Err(e) = res {
        core::mem::forget(e);
        let m = r.fibers[r.cur].panic_msg.take().unwrap_or_default();
        fail("harness", format!("panic in the harness: {m}"));
    }
    let c = r.cur;
    r.fibers[c].st = St::Finished;
    r.idle = 0;
    r.epoch += 1;
    if c == 0 {
        unsafe {
            let mut dummy = 0usize;
            vsim_switch(&mut dummy, r.host_rsp);
        }
        unreachable!()
    }
    // last one wakes main
    let all = (1..r.n).all(|i| r.fibers[i].st == St::Finished);
    if all {
        for i in 1..r.n {
            let v = r.fibers[i].vc;
            join(&mut r.fibers[0].vc, &v);
        }
        r.fibers[0].st = St::Ready;
    }
    let to = r.pick_forced();
    r.switch_to(to);
    unreachable!()
}

pub fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// ends the run with a violation; the fiber is abandoned
#[cold]
pub fn fail(kind: &'static str, msg: String) -> ! {
    set_active(false);
    let r = rt();
    if r.failed.is_none() {
        r.failed = Some((kind, msg));
    }
    unsafe {
        let mut dummy = 0usize;
        let h = r.host_rsp;
        vsim_switch(&mut dummy, h);
    }
    std::process::abort()
}

impl Rt {
    #[inline]
    fn runnable(&self, i: usize) -> bool {
        self.fibers[i].st == St::Ready && self.fibers[i].stall_until <= self.step
    }
    #[inline]
    fn candidate(&self, i: usize) -> bool {
        self.runnable(i) && self.fibers[i].spin_epoch != self.epoch
    }

    fn switch_to(&mut self, to: usize) {
        let from = self.cur;
        if from == to {
            return;
        }
        self.stats.switches += 1;
        self.stats.sched_hash = (self.stats.sched_hash
            ^ (((self.fibers[from].steps as u64) << 8) | to as u64))
            .wrapping_mul(0x100000001b3);
        self.cur = to;
        unsafe {
            let fp: *mut usize = &mut self.fibers[from].rsp;
            let to_rsp = self.fibers[to].rsp;
            vsim_switch(fp, to_rsp);
        }
    }

    /// deterministic default: next candidate after cur in cyclic order, else next spinning one
    fn default_other(&mut self) -> Option<usize> {
        let n = self.n;
        for k in 1..=n {
            let i = (self.cur + k) % n;
            if self.candidate(i) {
                return Some(i);
            }
        }
        for k in 1..=n {
            let i = (self.cur + k) % n;
            if self.runnable(i) {
                return Some(i);
            }
        }
        None
    }

    /// cur cannot (or should not) go on: choose who does
    fn pick_forced(&mut self) -> usize {
        loop {
            if let Some(d) = self.default_other() {
                if !self.candidate(d) {
                    return d; // all spinning: fair round robin
                }
                self.dno += 1;
                let t = if self.cfg.replay.is_some() {
                    self.replay_target().unwrap_or(d)
                } else {
                    self.strat_pick(d)
                };
                if t != d && self.cfg.replay.is_none() {
                    self.rec(0, self.dno, t as u32);
                }
                return t;
            }
            // nobody runnable: end a stall
            if !self.heal() {
                fail("deadlock", "no thread can run".into());
            }
        }
    }

    fn heal(&mut self) -> bool {
        // timed stalls first, the one ending first; then freezes
        let mut best: Option<usize> = None;
        for i in 0..self.n {
            if self.fibers[i].st == St::Ready && self.fibers[i].stall_until > self.step {
                if best.map_or(true, |b| {
                    self.fibers[i].stall_until < self.fibers[b].stall_until
                }) {
                    best = Some(i);
                }
            }
        }
        match best {
            Some(b) => {
                self.fibers[b].stall_until = 0;
                self.stats.heals += 1;
                self.idle = 0;
                self.epoch += 1;
                true
            }
            None => false,
        }
    }

    fn strat_pick(&mut self, d: usize) -> usize {
        match self.cfg.strat {
            Strat::Calm | Strat::RoundRobin => d,
            Strat::Pct { .. } => {
                let mut b = d;
                for i in 0..self.n {
                    if self.candidate(i) && self.fibers[i].prio > self.fibers[b].prio {
                        b = i;
                    }
                }
                b
            }
            _ => {
                let mut c = [0usize; MAXT];
                let mut n = 0;
                for i in 0..self.n {
                    if self.candidate(i) && i != self.cur {
                        c[n] = i;
                        n += 1;
                    }
                }
                if n == 0 {
                    d
                } else {
                    c[self.rng.us(n)]
                }
            }
        }
    }

    fn replay_target(&mut self) -> Option<usize> {
        while self.rp_sched < self.rp_list_s.len() && self.rp_list_s[self.rp_sched].at < self.dno {
            self.rp_sched += 1;
        }
        if self.rp_sched < self.rp_list_s.len() && self.rp_list_s[self.rp_sched].at == self.dno {
            let t = self.rp_list_s[self.rp_sched].val as usize;
            self.rp_sched += 1;
            if t < self.n && self.runnable(t) {
                return Some(t);
            }
        }
        None
    }

    fn rec(&mut self, kind: u8, at: u64, val: u32) {
        self.decs.push(Dec { kind, at, val });
        if !self.shared_decs.is_null() {
            unsafe {
                let n = *self.shared_decs as usize;
                if n < 60_000 {
                    *self.shared_decs.add(1 + n) =
                        ((kind as u64) << 60) | (at << 16) | (val as u64 & 0xffff);
                    *self.shared_decs = n as u64 + 1;
                }
            }
        }
    }

    /// a thread was given a block of memory: a stall may be waiting for it
    pub fn user_alloc(&mut self, size: usize) {
        let c = self.cur;
        if size < 32 || self.cfg.stalls.is_empty() || c == 0 {
            return;
        }
        self.fibers[c].allocs += 1;
        self.stall_at(ON_ALLOC | self.fibers[c].allocs);
    }

    /// a user callback is given the value `id`: a stall may be waiting for it
    pub fn user_value(&mut self, id: u32) {
        self.stall_at(ON_VALUE | id);
    }

    fn stall_at(&mut self, at: u32) {
        let c = self.cur;
        for k in 0..self.cfg.stalls.len() {
            let s = self.cfg.stalls[k];
            if s.at == at && s.phase == self.phase && s.tid as usize == c && self.value_hits & (1 << k) == 0 {
                self.value_hits |= 1 << k;
                self.pending |= 1 << k;
            }
        }
    }

    /// a scheduling point of the current fiber
    pub fn point(&mut self, kind: Pk) {
        let c = self.cur;
        if self.fibers[c].noyield > 0 {
            return;
        }
        self.step += 1;
        let prev = self.fibers[c].prev;
        self.fibers[c].prev = kind;
        self.fibers[c].steps += 1;
        if kind == Pk::Boundary || kind == Pk::Callback {
            self.idle = 0;
            let f = &mut self.fibers[c];
            f.same = 0;
            f.unprod = 0;
            f.spin_epoch = u64::MAX;
        }
        if self.step > STEP_CAP {
            fail("livelock", format!("not finished after {} steps", self.step));
        }
        // injected stalls
        if !self.cfg.stalls.is_empty() && c != 0 {
            for k in 0..self.cfg.stalls.len() {
                let s = self.cfg.stalls[k];
                let now = match s.at & (ON_VALUE | ON_ALLOC) != 0 {
                    true => self.pending & (1 << k) != 0,
                    false => s.at == self.fibers[c].steps,
                };
                if s.phase == self.phase && s.tid as usize == c && now {
                    self.pending &= !(1 << k);
                    if s.len == 0 {
                        self.stats.freezes += 1;
                        self.fibers[c].stall_until = u64::MAX;
                    } else {
                        self.stats.stalls += 1;
                        self.fibers[c].stall_until = self.step + s.len as u64;
                    }
                    let t = self.pick_forced();
                    self.switch_to(t);
                    return;
                }
            }
        }
        if self.n == 1 {
            // quiescent main: only a self deadlock can happen
            if self.fibers[c].spin_epoch == self.epoch {
                self.idle += 1;
                if self.idle > IDLE_GRACE {
                    fail("deadlock", "main thread waits forever".into());
                }
            }
            return;
        }
        if self.fibers[c].spin_epoch == self.epoch {
            self.idle += 1;
            if self.idle > 400 && self.idle % 400 == 0 {
                self.idle_check();
            }
            let t = self.pick_forced();
            self.switch_to(t);
            return;
        }
        self.dno += 1;
        let t = if self.cfg.replay.is_some() {
            match self.replay_target() {
                Some(t) => t,
                None => c,
            }
        } else if self.step > STEP_FAIR {
            if self.rng.chance(1, 3) {
                self.default_other().unwrap_or(c)
            } else {
                c
            }
        } else {
            match self.cfg.strat {
                Strat::Calm => c,
                Strat::RoundRobin => self.default_other().unwrap_or(c),
                Strat::Random { mean } => {
                    let b = kind == Pk::Boundary
                        && self.cfg.boundary_den > 0
                        && self.rng.chance(1, self.cfg.boundary_den);
                    if self.step >= self.next_pre || b {
                        self.next_pre = self.step + self.rng.gap(mean);
                        self.strat_pick(c)
                    } else {
                        c
                    }
                }
                Strat::AfterWrite { den } => {
                    let hot = prev == Pk::Write || prev == Pk::Callback || kind == Pk::Callback;
                    let go = if hot {
                        self.rng.chance(1, den)
                    } else {
                        self.rng.chance(1, den * 12)
                    };
                    if go {
                        self.strat_pick(c)
                    } else {
                        c
                    }
                }
                Strat::Pct { .. } => {
                    let mut hit = false;
                    while let Some(&x) = self.pct_left.last() {
                        if x <= self.step {
                            self.pct_left.pop();
                            hit = true;
                        } else {
                            break;
                        }
                    }
                    if hit {
                        self.next_prio += 1;
                        // lower than every other so far
                        let lo = 500u32.saturating_sub(self.next_prio);
                        self.fibers[c].prio = lo;
                    }
                    if hit || prev == Pk::Write {
                        self.strat_pick(c)
                    } else {
                        c
                    }
                }
            }
        };
        if t != c && self.candidate(t) {
            if self.cfg.replay.is_none() {
                self.rec(0, self.dno, t as u32);
            }
            self.stats.preempts += 1;
            self.switch_to(t);
        } else if t != c && self.cfg.replay.is_some() && self.runnable(t) {
            self.switch_to(t);
        }
    }

    fn idle_check(&mut self) {
        let mut timed = false;
        let mut frozen = false;
        for i in 0..self.n {
            let f = &self.fibers[i];
            if f.st == St::Ready && f.stall_until > self.step {
                if f.stall_until == u64::MAX {
                    frozen = true;
                } else {
                    timed = true;
                }
            }
        }
        if timed {
            self.heal();
            return;
        }
        if self.idle > IDLE_GRACE {
            if frozen {
                if self.cfg.strict_freeze {
                    fail(
                        "stall-block",
                        format!("{} wait for a stalled thread", self.waiters()),
                    );
                }
                self.heal();
            } else {
                fail("deadlock", format!("{} wait forever", self.waiters()));
            }
        } else if frozen && !self.cfg.strict_freeze && self.idle > self.cfg.patience {
            self.heal();
        }
    }

    fn waiters(&self) -> String {
        let mut s = String::new();
        for i in 1..self.n {
            let f = &self.fibers[i];
            if f.st == St::Ready && f.stall_until <= self.step {
                if !s.is_empty() {
                    s.push_str(", ");
                }
                s.push_str(&format!("T{} (op {})", i, f.tag as i32));
            }
        }
        if s.is_empty() {
            s.push_str("T0");
        }
        s
    }

    /// the main thread, alone, begins another call: whatever the calls before only looked at is over
    #[inline]
    pub fn fresh_call(&mut self) {
        if self.n == 1 {
            self.idle = 0;
            let f = &mut self.fibers[self.cur];
            f.unprod = 0;
            f.same = 0;
            f.spin_epoch = u64::MAX;
        }
    }

    /// bookkeeping after an atomic that changed nothing
    #[inline]
    pub fn unproductive(&mut self, addr: usize) {
        let f = &mut self.fibers[self.cur];
        f.unprod += 1;
        if f.last_addr == addr {
            f.same += 1;
        } else {
            f.last_addr = addr;
            f.same = 0;
        }
        if (f.same >= 3 || f.unprod >= 300) && f.spin_epoch != self.epoch {
            f.spin_epoch = self.epoch;
            self.stats.spins += 1;
        }
    }
    #[inline]
    pub fn productive(&mut self) {
        self.epoch += 1;
        self.idle = 0;
        let f = &mut self.fibers[self.cur];
        f.unprod = 0;
        f.same = 0;
        f.spin_epoch = u64::MAX;
    }

    /// decides how stale the current read is (0 = newest), given `n` older candidates
    pub fn stale_choice(&mut self, n: u32) -> u32 {
        if self.cfg.replay.is_some() {
            return self.replay_weak(1).min(n);
        }
        if !self.rng.chance(1, self.cfg.stale_den) {
            return 0;
        }
        let a = 1 + self.rng.below(n as u64) as u32;
        self.stats.stale_reads += 1;
        self.rec(1, self.opno, a);
        a
    }
    pub fn spurious_choice(&mut self) -> bool {
        if self.cfg.replay.is_some() {
            return self.replay_weak(2) > 0;
        }
        if self.rng.chance(1, 6) {
            self.stats.spurious += 1;
            self.rec(2, self.opno, 1);
            true
        } else {
            false
        }
    }
    fn replay_weak(&mut self, kind: u8) -> u32 {
        while self.rp_stale < self.rp_list_w.len() && self.rp_list_w[self.rp_stale].at < self.opno {
            self.rp_stale += 1;
        }
        let mut k = self.rp_stale;
        while k < self.rp_list_w.len() && self.rp_list_w[k].at == self.opno {
            if self.rp_list_w[k].kind == kind {
                if kind == 1 {
                    self.stats.stale_reads += 1;
                } else {
                    self.stats.spurious += 1;
                }
                return self.rp_list_w[k].val;
            }
            k += 1;
        }
        0
    }
}

// ---- API for the harness (all non-generic) ----

/// starts a simulated thread (only from main); it runs when main joins
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    let a = set_active(false);
    let r = rt();
    assert!(r.cur == 0);
    let i = r.n;
    assert!(i < MAXT, "too many simulated threads");
    r.n += 1;
    let mut fb = Fiber::new();
    let old = &r.fibers[i];
    fb.vc = old.vc; // clocks of a reused thread slot go on
    let v = r.fibers[0].vc;
    join(&mut fb.vc, &v);
    fb.vc[i] += 1;
    fb.st = St::Ready;
    fb.prio = 500 + r.rng.below(400) as u32;
    fb.rsp = unsafe { prepare_stack(i) };
    fb.f = Some(f);
    r.fibers[i] = fb;
    set_active(a);
    i
}

/// runs all spawned threads to the end
pub fn join_all() {
    let a = set_active(false);
    let r = rt();
    r.fibers[0].vc[0] += 1;
    if r.n > 1 {
        r.fibers[0].st = St::Blocked;
        let to = r.pick_forced();
        r.switch_to(to);
        let r = rt();
        r.n = 1;
        r.idle = 0;
    }
    set_active(a);
}

pub fn point(kind: Pk) {
    let a = set_active(false);
    rt().point(kind);
    set_active(a);
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Stamp {
    pub seq: u64,
    pub tid: u8,
    pub vc: Vc,
}

pub fn stamp() -> Stamp {
    let r = rt();
    r.seq += 1;
    Stamp {
        seq: r.seq,
        tid: r.cur as u8,
        vc: r.fibers[r.cur].vc,
    }
}

/// a harness-level synchronisation point: ordered after every earlier one on the same slot
pub fn sync_slot(k: usize) {
    let r = rt();
    let c = r.cur;
    let s = r.slots[k];
    join(&mut r.fibers[c].vc, &s);
    let v = r.fibers[c].vc;
    join(&mut r.slots[k], &v);
    r.fibers[c].vc[c] += 1;
}

pub fn set_tag(t: u32) {
    let r = rt();
    let c = r.cur;
    r.fibers[c].tag = t;
}

pub fn noyield(d: i32) {
    let r = rt();
    let c = r.cur;
    let f = &mut r.fibers[c];
    f.noyield = (f.noyield as i32 + d) as u32;
}

/// message of the last real panic of the current fiber
pub fn take_panic() -> Option<String> {
    let r = rt();
    let c = r.cur;
    r.fibers[c].panic_msg.take()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let a = set_active(false);
        let r = rt();
        let c = r.cur;
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{}", f)
            })
            .unwrap_or_default();
        r.fibers[c].panic_msg = Some(format!("{msg} ({loc})"));
        if r.cfg.trace {
            r.trace.push(format!("T{c} panic: {msg} at {:?}", info.location()));
        }
        set_active(a);
    }));
}

pub fn live_blocks() -> Vec<(u32, usize, u8, u32)> {
    let m = &rt().mem;
    m.allocs
        .iter()
        .enumerate()
        .filter(|(_, a)| !a.freed)
        .map(|(i, a)| (i as u32 + 1, a.size, a.tid, a.tag))
        .collect()
}

pub fn trace(s: String) {
    let r = rt();
    if r.cfg.trace {
        let c = r.cur;
        let st = r.step;
        r.trace.push(format!("{:>6} T{} {}", st, c, s));
    }
}
