//! The recorded history of one run.
use crate::scn::Op;
use vsim_rt::sched::{self, fail, rt, set_active, Pk, Stamp, MAXT};

pub const PROBE: u32 = 1 << 31;
pub const ABS: u32 = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ek2 {
    Callback, // closure given to the vector, id = value seen (0 none), id2 = auxiliary
    Next,     // iterator step, id = value produced (0: end)
    Clone,    // id cloned
    Eq,       // id == id2
    Debug,    // id formatted
    Fmt,
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub kind: Ek2,
    pub id: u32,
    pub id2: u32,
    pub st: Stamp,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AccK {
    Init,
    Read,
    Set,
    Rmw,
    Swap,
}

#[derive(Clone, Copy, Debug)]
pub struct Acc {
    pub v: u8,
    pub pos: u32,
    pub pos2: u32,
    pub kind: AccK,
    pub old: u32,
    pub new: u32,
    pub inv: Stamp,
    pub res: Stamp,
    pub opt: bool,
    pub rec: u32,
    /// 0: element handle, 1: get_cloned of the vector, 2: get_ref/get_raw, 3: iter_ref
    pub class: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct LenObs {
    pub v: u8,
    pub lo: u64,
    pub hi: u64,
    pub inv: Stamp,
    pub res: Stamp,
    pub rec: u32,
}
#[derive(Clone, Copy, Debug)]
pub struct CapObs {
    pub v: u8,
    pub cap: u64,
    pub max: bool,
    pub inv: Stamp,
    pub res: Stamp,
    pub rec: u32,
}
#[derive(Clone, Copy, Debug)]
pub struct RefObs {
    pub v: u8,
    pub pos: u32,
    pub val_addr: usize,
    pub elem_addr: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Agg {
    pub v: u8,
    pub v2: u8,
    pub a: u64,
    pub b: u64,
    pub slice: bool,
    pub a2: u64,
    pub b2: u64,
    pub slice2: bool,
    pub probe: Vec<u32>,
    /// -1 none/false, else index / 1 true
    pub result: i64,
    pub inv: Stamp,
    pub res: Stamp,
    pub ev0: usize,
    pub ev1: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pan {
    No,
    Injected,
    Real(String),
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub tid: u8,
    pub op: Op,
    pub nested: bool,
    pub inv: Stamp,
    pub res: Stamp,
    pub done: bool,
    pub pan: Pan,
    pub ret: i64,
    pub evs: Vec<Ev>,
    pub cb_idx: Vec<u64>,
    pub prod: Vec<(u32, Stamp)>,
    pub accs: Vec<Acc>,
    pub lens: Vec<LenObs>,
    pub caps: Vec<CapObs>,
    pub refs: Vec<RefObs>,
    pub agg: Option<Agg>,
    /// what a reference iterator yielded: value and its address
    pub items: Vec<(u32, usize)>,
    pub created: Stamp,
    pub countdown: i64,
    pub fired: bool,
}

#[derive(Clone, Copy)]
pub struct Inst {
    pub id: u32,
    pub alive: bool,
    pub dropped_by: u8,
    pub tag: u32,
}

#[derive(Default)]
pub struct H {
    pub recs: Vec<OpRec>,
    pub stacks: [Vec<u32>; MAXT],
    pub insts: Vec<Inst>,
    pub alive: i64,
    pub next_dyn: u32,
    pub weak: bool,
    pub cover: Cover,
}

#[derive(Default, Clone, Debug)]
pub struct Cover {
    pub ops: u64,
    pub nested: u64,
    pub inj_panics: u64,
    pub real_panics: u64,
    pub refused: u64,
    pub short_iters: u64,
    pub long_iters: u64,
    pub lying_len: u64,
    pub lin_comps: u64,
    pub lin_ops: u64,
    pub lin_inconclusive: u64,
    pub len_obs: u64,
    pub order_pairs: u64,
    pub accs: u64,
    pub refs: u64,
    pub aggs: u64,
    pub aggs_precise: u64,
    pub grow_at_boundary: u64,
    pub len_while_locked: u64,
    pub audits: u64,
    pub concurrent_pairs: u64,
    pub partial_consume: u64,
    pub oversize: u64,
    pub values: u64,
}

impl Cover {
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("ops", self.ops),
            ("nested_ops", self.nested),
            ("injected_panics_fired", self.inj_panics),
            ("expected_panics", self.real_panics),
            ("refused_growth_calls", self.refused),
            ("short_iterators", self.short_iters),
            ("long_iterators", self.long_iters),
            ("lying_lengths", self.lying_len),
            ("linearizability_components", self.lin_comps),
            ("linearizability_operations", self.lin_ops),
            ("linearizability_inconclusive", self.lin_inconclusive),
            ("length_observations", self.len_obs),
            ("ordered_growth_pairs", self.order_pairs),
            ("element_accesses", self.accs),
            ("reference_observations", self.refs),
            ("aggregate_reads", self.aggs),
            ("aggregate_reads_precise", self.aggs_precise),
            ("quiescent_audits", self.audits),
            ("overlapping_operation_pairs", self.concurrent_pairs),
            ("partial_consumptions", self.partial_consume),
            ("oversized_growth_calls", self.oversize),
            ("values_created", self.values),
        ]
    }
    pub fn add(&mut self, o: &Cover) {
        let a = self;
        a.ops += o.ops;
        a.nested += o.nested;
        a.inj_panics += o.inj_panics;
        a.real_panics += o.real_panics;
        a.refused += o.refused;
        a.short_iters += o.short_iters;
        a.long_iters += o.long_iters;
        a.lying_len += o.lying_len;
        a.lin_comps += o.lin_comps;
        a.lin_ops += o.lin_ops;
        a.lin_inconclusive += o.lin_inconclusive;
        a.len_obs += o.len_obs;
        a.order_pairs += o.order_pairs;
        a.accs += o.accs;
        a.refs += o.refs;
        a.aggs += o.aggs;
        a.aggs_precise += o.aggs_precise;
        a.audits += o.audits;
        a.concurrent_pairs += o.concurrent_pairs;
        a.partial_consume += o.partial_consume;
        a.oversize += o.oversize;
        a.values += o.values;
    }
}

static mut HP: *mut H = core::ptr::null_mut();

#[inline]
pub fn h() -> &'static mut H {
    unsafe {
        if HP.is_null() {
            let a = set_active(false);
            HP = Box::into_raw(Box::new(H::default()));
            set_active(a);
        }
        &mut *HP
    }
}

static mut IRREFLEXIVE: u32 = 0;
/// from now on no value with that id is equal to anything (0: none)
#[inline(never)]
pub fn set_irreflexive(id: u32) {
    unsafe { IRREFLEXIVE = id }
}
#[inline(never)]
pub fn irreflexive(id: u32) -> bool {
    unsafe { IRREFLEXIVE != 0 && IRREFLEXIVE == id }
}

pub fn reset(weak: bool) {
    let x = h();
    x.recs.clear();
    for s in x.stacks.iter_mut() {
        s.clear();
    }
    x.insts.clear();
    x.alive = 0;
    set_irreflexive(0);
    x.next_dyn = 1 << 24;
    x.weak = weak;
    x.cover = Cover::default();
}

/// `a` is over before `b` starts
#[inline]
pub fn prec(a: &Stamp, b: &Stamp) -> bool {
    if h().weak && a.tid != b.tid {
        a.vc[a.tid as usize] <= b.vc[a.tid as usize]
    } else {
        a.seq < b.seq
    }
}

// ---- operations ----

pub fn begin(op: &Op) -> u32 {
    let a = set_active(false);
    let x = h();
    let t = rt().cur;
    let nested = !x.stacks[t].is_empty();
    let i = x.recs.len() as u32;
    if !nested {
        sched::set_tag(i);
    }
    x.recs.push(OpRec {
        tid: t as u8,
        op: *op,
        nested,
        inv: sched::stamp(),
        res: Stamp::default(),
        done: false,
        pan: Pan::No,
        ret: -1,
        evs: Vec::new(),
        cb_idx: Vec::new(),
        prod: Vec::new(),
        accs: Vec::new(),
        lens: Vec::new(),
        caps: Vec::new(),
        refs: Vec::new(),
        agg: None,
        items: Vec::new(),
        created: Stamp::default(),
        countdown: if op.fk == 1 { op.fa as i64 } else { -1 },
        fired: false,
    });
    x.stacks[t].push(i);
    if rt().cfg.trace {
        sched::trace(format!("begin {}", op.text()));
    }
    set_active(a);
    i
}

pub fn end(i: u32) {
    let a = set_active(false);
    let x = h();
    let t = rt().cur;
    let p = x.stacks[t].pop();
    assert!(p == Some(i));
    let r = &mut x.recs[i as usize];
    r.res = sched::stamp();
    r.done = true;
    if rt().cfg.trace {
        sched::trace(format!("end   {} -> {} {:?}", r.op.text(), r.ret, r.pan));
    }
    set_active(a);
}

pub fn top() -> Option<&'static mut OpRec> {
    let x = h();
    let t = rt().cur;
    match x.stacks[t].last() {
        Some(i) => Some(&mut x.recs[*i as usize]),
        None => None,
    }
}
pub fn top_idx() -> u32 {
    let x = h();
    let t = rt().cur;
    *x.stacks[t].last().unwrap()
}

/// called from user code (closures, iterators, clone, eq, debug) that the code under test runs;
/// returns true if this call has to panic
pub fn uev(kind: Ek2, id: u32, id2: u32) -> bool {
    let a = set_active(false);
    if !a {
        return false; // harness code, not called by the code under test
    }
    if !rt().cfg.stalls.is_empty() {
        if id & PROBE == 0 && kind != Ek2::Next {
            rt().user_value(id);
        }
        if kind == Ek2::Eq && id2 & PROBE == 0 {
            rt().user_value(id2);
        }
    }
    rt().point(Pk::Callback);
    let st = sched::stamp();
    let mut boom = false;
    if let Some(r) = top() {
        r.evs.push(Ev { kind, id, id2, st });
        if r.countdown >= 0 {
            if r.countdown == 0 {
                boom = true;
                r.fired = true;
                if rt().cfg.trace {
                    sched::trace("injected panic".into());
                }
            }
            r.countdown -= 1;
        }
        if rt().cfg.trace {
            sched::trace(format!("user {kind:?} {id} {id2}"));
        }
    }
    set_active(a);
    boom
}

/// a value leaves the iterator or callback of a growth call
pub fn produced(id: u32) {
    let a = set_active(false);
    let st = sched::stamp();
    if let Some(r) = top() {
        r.prod.push((id, st));
    }
    set_active(a);
}
pub fn cb_index(i: usize) {
    let a = set_active(false);
    if let Some(r) = top() {
        r.cb_idx.push(i as u64);
    }
    set_active(a);
}

pub fn dyn_id() -> u32 {
    dyn_ids(1)
}

/// so many ids in a row
pub fn dyn_ids(n: u32) -> u32 {
    let x = h();
    let first = x.next_dyn + 1;
    x.next_dyn += n;
    first
}

// ---- instances of the heap-owning value type ----

pub fn inst_new(id: u32) -> u32 {
    let a = set_active(false);
    let x = h();
    x.insts.push(Inst {
        id,
        alive: true,
        dropped_by: 0,
        tag: rt().cur_tag(),
    });
    x.alive += 1;
    x.cover.values += 1;
    let r = x.insts.len() as u32;
    set_active(a);
    r
}

pub fn inst_drop(inst: u32, id: u32) {
    let a = set_active(false);
    let x = h();
    let k = inst as usize;
    if k == 0 || k > x.insts.len() {
        fail("mem", format!("drop of a value that never existed (instance {inst}, id {id})"));
    }
    let e = &mut x.insts[k - 1];
    if e.id != id {
        fail("torn", format!("drop of a damaged value (instance {inst}, id {id}, expected {})", e.id));
    }
    if !e.alive {
        let d = e.dropped_by;
        fail(
            "mem",
            format!("value {id} dropped twice (first by T{d}, now by T{})", rt().cur),
        );
    }
    e.alive = false;
    e.dropped_by = rt().cur as u8;
    x.alive -= 1;
    set_active(a);
}

pub fn violate(kind: &'static str, msg: String) -> ! {
    fail(kind, msg)
}

// ---- helpers for the interpreter ----

pub fn acc(
    v: u8,
    pos: usize,
    kind: AccK,
    old: u32,
    new: u32,
    inv: Stamp,
    res: Stamp,
    class: u8,
) {
    let i = top_idx();
    if let Some(r) = top() {
        r.accs.push(Acc {
            v,
            pos: pos as u32,
            pos2: 0,
            kind,
            old,
            new,
            inv,
            res,
            opt: false,
            rec: i,
            class,
        });
    }
}
pub fn acc_swap(v: u8, p: usize, q: usize, inv: Stamp, res: Stamp) {
    let i = top_idx();
    if let Some(r) = top() {
        r.accs.push(Acc {
            v,
            pos: p as u32,
            pos2: q as u32,
            kind: AccK::Swap,
            old: 0,
            new: 0,
            inv,
            res,
            opt: false,
            rec: i,
            class: 0,
        });
    }
}
pub fn len_obs(v: u8, lo: usize, hi: usize, inv: Stamp, res: Stamp) {
    let i = top_idx();
    if let Some(r) = top() {
        r.lens.push(LenObs {
            v,
            lo: lo as u64,
            hi: hi as u64,
            inv,
            res,
            rec: i,
        });
    }
}
pub fn cap_obs(v: u8, cap: usize, max: bool, inv: Stamp, res: Stamp) {
    let i = top_idx();
    if let Some(r) = top() {
        r.caps.push(CapObs {
            v,
            cap: cap as u64,
            max,
            inv,
            res,
            rec: i,
        });
    }
}
pub fn ref_obs(v: u8, pos: usize, val_addr: usize, elem_addr: usize) {
    if let Some(r) = top() {
        r.refs.push(RefObs {
            v,
            pos: pos as u32,
            val_addr,
            elem_addr,
        });
    }
}
