//! Scenario generation: one profile per property, everything drawn from the run's seed.
use crate::scn::*;
use vsim_rt::rng::{splitmix, Rng};
use vsim_rt::sched::{Cfg, Stall, Strat, ON_ALLOC, ON_VALUE};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
];

const GENERIC: &[&str] = &["mem", "panic", "deadlock", "livelock", "crash", "hang"];

/// which kinds of violation a check reports as a violation of its property
pub fn owns(prop: &str, kind: &str) -> bool {
    if kind == "room" {
        return false;
    }
    if GENERIC.contains(&kind) {
        return true;
    }
    let l: &[&str] = match prop {
        "C01" => &["dup", "gap", "content", "cbidx", "lenfinal", "foreign", "missing", "phantom", "torn"],
        "C02" => &["order", "content", "foreign", "missing", "ref", "dup", "gap"],
        "C03" => &["len-low", "len-high", "len-mono", "lenfinal", "missing", "phantom"],
        "C04" => &["torn", "foreign", "missing", "phantom", "race", "content", "ref", "slice", "trav", "len-low", "len-high"],
        "C05" => &["lin", "race", "torn", "content", "foreign", "missing", "agg"],
        "C06" => &["race", "torn", "foreign", "phantom", "ref"],
        "C07" => &["ref", "race", "torn", "foreign", "phantom", "missing", "content", "trav", "slice"],
        "C08" => &["leak", "conv", "clear"],
        "C09" => &[],
        "C12" => &[
            "slice", "trav", "len-low", "len-high", "len-mono", "lenfinal", "foreign", "missing", "phantom", "ref", "content",
            "lin",
        ],
        "C14" => &["agg", "lin", "race", "torn", "foreign", "trav", "conv", "missing", "phantom", "len-low", "len-high", "len-mono"],
        _ => return true, // C10, C11, C13, C15, C16: whatever goes wrong in their scenarios
    };
    l.contains(&kind)
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut x = base ^ 0x51_7c_c1_b7_27_22_0a_95;
    for b in prop.bytes() {
        x = x.wrapping_mul(0x100000001b3) ^ b as u64;
    }
    x = x.wrapping_add(index.wrapping_mul(0x9E3779B97F4A7C15));
    splitmix(&mut x)
}

#[derive(Clone)]
struct Prof {
    w: Vec<(K, u32)>,
    after: Vec<(K, u32)>,
    fin: Vec<(K, u32)>,
    stores: [u32; 3],
    elems: [u32; 3],
    threads: (u64, u64),
    ops: (u64, u64),
    phases: (u64, u64),
    two: u64,
    weak: u64,
    faults: u64,
    stalls: u64,
    freeze: u64,
    audit: u32,
    hot: u64,
    refuse: u64,
    nest: u64,
    after_n: (u64, u64),
    big: u64,
    /// runs per thousand in which the others wait very long for a stalled thread
    patient: u64,
    /// runs per thousand with long batches and large fragments
    wide: u64,
}

const GROW: &[(K, u32)] = &[(K::Push, 8), (K::PushIdx, 5), (K::Ext, 4), (K::ExtIdx, 4), (K::ExtN, 4)];
const TRAV: &[(K, u32)] = &[
    (K::TIter, 3),
    (K::TIterCloned, 2),
    (K::TMap, 2),
    (K::TFilter, 2),
    (K::TFold, 2),
    (K::TReduce, 2),
    (K::TCloneToVec, 2),
    (K::TDebug, 1),
    (K::TClone, 1),
];
const ELEM_R: &[(K, u32)] = &[(K::EClone, 3), (K::ECopy, 2), (K::EMap, 4), (K::EEqVal, 2), (K::EDebug, 1)];
const ELEM_W: &[(K, u32)] = &[(K::EReplace, 3), (K::ESet, 3), (K::EUpdate, 5)];
const QUERY: &[(K, u32)] = &[(K::Len, 5), (K::Empty, 2), (K::Cap, 2), (K::MaxCap, 1)];
const SLICE: &[(K, u32)] = &[
    (K::HoldSlice, 4),
    (K::HoldIter, 3),
    (K::SplitAt, 2),
    (K::SplitFirst, 2),
    (K::SplitLast, 2),
    (K::Chunks, 2),
    (K::SubSlice, 2),
];
const AGG: &[(K, u32)] = &[(K::IndexOf, 3), (K::Contains, 2), (K::EqArr, 3), (K::EqVec, 3), (K::EEq, 3)];
const REF: &[(K, u32)] = &[(K::GetRef, 4), (K::GetRaw, 3), (K::GetRawMut, 2), (K::IterRef, 3)];

fn mix(parts: &[(&[(K, u32)], u32)]) -> Vec<(K, u32)> {
    let mut v = Vec::new();
    for (p, m) in parts {
        for (k, w) in p.iter() {
            v.push((*k, w * m));
        }
    }
    v
}

fn prof(prop: &str) -> Prof {
    let base = Prof {
        w: vec![],
        after: vec![],
        fin: vec![(K::FDrop, 3), (K::FToVec, 3), (K::FIntoIter, 2), (K::FIntoInner, 2)],
        stores: [5, 3, 3],
        elems: [6, 3, 1],
        threads: (2, 4),
        ops: (1, 5),
        phases: (1, 2),
        two: 0,
        weak: 30,
        faults: 0,
        stalls: 10,
        freeze: 4,
        audit: 1,
        hot: 50,
        refuse: 0,
        nest: 3,
        after_n: (0, 0),
        big: 6,
        patient: 5,
        wide: 4,
    };
    let s = |k: K, w: u32| -> Vec<(K, u32)> { vec![(k, w)] };
    match prop {
        "C01" => Prof {
            w: mix(&[(GROW, 10), (QUERY, 2), (ELEM_W, 3), (ELEM_R, 1), (&s(K::GetCloned, 8), 1), (&s(K::Swap, 6), 1), (TRAV, 1), (&s(K::Look, 4), 1)]),
            after: mix(&[(GROW, 4), (&[(K::Reserve, 3), (K::Rebuild, 3), (K::Clear, 2)], 1)]),
            refuse: 6,
            faults: 6,
            after_n: (0, 2),
            audit: 1 | 4,
            phases: (1, 3),
            nest: 8,
            big: 12,
            ..base
        },
        "C02" => Prof {
            w: mix(&[(GROW, 10), (&s(K::Sync, 60), 1), (QUERY, 1), (ELEM_R, 1), (&s(K::Look, 6), 1)]),
            after: mix(&[(GROW, 4), (&[(K::Reserve, 3), (K::Rebuild, 3)], 1)]),
            refuse: 5,
            faults: 8,
            after_n: (0, 2),
            weak: 60,
            audit: 1,
            nest: 6,
            ..base
        },
        "C03" => Prof {
            w: mix(&[
                (GROW, 5),
                (&s(K::Len, 80), 1),
                (&s(K::Empty, 10), 1),
                (ELEM_R, 4),
                (ELEM_W, 4),
                (&s(K::Swap, 15), 1),
                (TRAV, 1),
                (SLICE, 1),
                (AGG, 1),
                (&s(K::Look, 25), 1),
                (&s(K::Fill, 4), 1),
                (&s(K::FillWith, 4), 1),
                (&s(K::Sync, 12), 1),
            ]),
            after: mix(&[(QUERY, 3), (GROW, 2), (&[(K::Look, 5), (K::Reserve, 3), (K::Rebuild, 3), (K::Clear, 3)], 1)]),
            refuse: 6,
            audit: 3,
            after_n: (0, 2),
            weak: 45,
            nest: 12,
            phases: (1, 3),
            ..base
        },
        "C04" => Prof {
            w: mix(&[
                (GROW, 5),
                (&s(K::GetCloned, 70), 1),
                (ELEM_R, 4),
                (ELEM_W, 3),
                (TRAV, 2),
                (SLICE, 1),
                (AGG, 1),
                (&s(K::Look, 8), 1),
                (&s(K::Swap, 8), 1),
                (&s(K::Fill, 4), 1),
                (&s(K::FillWith, 4), 1),
                (&s(K::Sync, 15), 1),
            ]),
            weak: 60,
            audit: 1 | 2 | 4,
            after: mix(&[(GROW, 2), (&[(K::Reserve, 3), (K::Rebuild, 4)], 1)]),
            after_n: (0, 1),
            refuse: 4,
            phases: (1, 3),
            ..base
        },
        "C05" => Prof {
            w: mix(&[
                (ELEM_R, 8),
                (ELEM_W, 12),
                (&s(K::Swap, 110), 1),
                (GROW, 1),
                (&s(K::Fill, 8), 1),
                (&s(K::FillWith, 8), 1),
                (&s(K::GetCloned, 12), 1),
                (&s(K::EEq, 14), 1),
                (TRAV, 1),
                (&s(K::Sync, 8), 1),
            ]),
            weak: 40,
            hot: 80,
            audit: 1,
            phases: (1, 2),
            ops: (1, 4),
            ..base
        },
        "C06" => Prof {
            w: mix(&[
                (GROW, 3),
                (ELEM_R, 4),
                (ELEM_W, 5),
                (&s(K::Swap, 25), 1),
                (TRAV, 2),
                (AGG, 4),
                (SLICE, 1),
                (QUERY, 1),
                (&s(K::Look, 4), 1),
                (&s(K::GetCloned, 20), 1),
                (&s(K::Fill, 8), 1),
                (&s(K::FillWith, 8), 1),
            ]),
            after: mix(&[(&[(K::GetMut, 3), (K::IterMut, 3), (K::Clear, 2), (K::Rebuild, 2), (K::Reserve, 2)], 1), (ELEM_W, 1)]),
            refuse: 5,
            faults: 8,
            after_n: (0, 1),
            two: 60,
            weak: 60,
            hot: 75,
            audit: 0,
            nest: 6,
            ..base
        },
        "C07" => Prof {
            w: mix(&[(GROW, 4), (REF, 10), (ELEM_R, 5), (TRAV, 1), (SLICE, 1), (&s(K::Look, 12), 1), (&s(K::HoldIter, 10), 1), (QUERY, 1), (&s(K::Sync, 10), 1)]),
            weak: 40,
            audit: 8,
            phases: (1, 3),
            hot: 65,
            ..base
        },
        "C08" => Prof {
            w: mix(&[
                (GROW, 7),
                (ELEM_R, 3),
                (ELEM_W, 6),
                (&s(K::Swap, 15), 1),
                (TRAV, 2),
                (AGG, 1),
                (SLICE, 1),
                (&s(K::Fill, 10), 1),
                (&s(K::FillWith, 10), 1),
                (&s(K::GetCloned, 8), 1),
            ]),
            after: vec![(K::Clear, 4), (K::Rebuild, 4), (K::Push, 2), (K::Reserve, 1), (K::IterMut, 1), (K::TClone, 1), (K::Ext, 1)],
            after_n: (0, 2),
            fin: vec![(K::FDrop, 4), (K::FToVec, 2), (K::FIntoIter, 5), (K::FIntoInner, 2)],
            elems: [12, 1, 0],
            faults: 55,
            refuse: 25,
            audit: 32,
            phases: (1, 3),
            ..base
        },
        "C09" => Prof {
            w: mix(&[
                (GROW, 5),
                (ELEM_R, 3),
                (ELEM_W, 4),
                (&s(K::Swap, 110), 1),
                (AGG, 4),
                (TRAV, 1),
                (&s(K::Fill, 8), 1),
                (&s(K::FillWith, 10), 1),
                (QUERY, 2),
                (&s(K::GetCloned, 8), 1),
                (SLICE, 1),
                (&s(K::Look, 8), 1),
            ]),
            threads: (2, 5),
            two: 60,
            stalls: 35,
            freeze: 20,
            nest: 25,
            audit: 0,
            after: mix(&[(GROW, 1), (&[(K::Reserve, 4), (K::Rebuild, 4), (K::Clear, 4), (K::Swap, 4)], 1)]),
            after_n: (0, 1),
            hot: 75,
            faults: 8,
            refuse: 10,
            ..base
        },
        "C10" => Prof {
            w: mix(&[
                (GROW, 7),
                (ELEM_R, 5),
                (ELEM_W, 5),
                (&s(K::Swap, 12), 1),
                (TRAV, 2),
                (AGG, 2),
                (&s(K::Fill, 10), 1),
                (&s(K::FillWith, 10), 1),
                (&s(K::GetCloned, 10), 1),
                (QUERY, 1),
                (SLICE, 1),
                (&s(K::Look, 4), 1),
            ]),
            after: mix(&[(GROW, 2), (ELEM_R, 2), (ELEM_W, 2), (QUERY, 2), (&[(K::Clear, 6), (K::Rebuild, 4), (K::Reserve, 4), (K::TIter, 4), (K::Swap, 4)], 1)]),
            after_n: (0, 3),
            two: 25,
            faults: 100,
            audit: 1 | 4 | 16,
            phases: (1, 3),
            ..base
        },
        "C11" => Prof {
            w: mix(&[(GROW, 10), (&s(K::Cap, 30), 1), (&s(K::MaxCap, 10), 1), (&s(K::Len, 25), 1), (ELEM_W, 2), (ELEM_R, 2), (&s(K::GetCloned, 10), 1), (&s(K::TIter, 6), 1), (&s(K::Look, 6), 1), (&s(K::Swap, 4), 1)]),
            after: vec![(K::Reserve, 6), (K::Push, 4), (K::Ext, 3), (K::Rebuild, 3), (K::Clear, 1), (K::Cap, 2)],
            after_n: (0, 3),
            stores: [2, 5, 6],
            refuse: 65,
            patient: 25,
            audit: 1 | 2 | 4 | 8,
            phases: (1, 3),
            weak: 20,
            faults: 6,
            ..base
        },
        "C12" => Prof {
            w: mix(&[
                (GROW, 4),
                (SLICE, 8),
                (TRAV, 7),
                (AGG, 1),
                (&s(K::Look, 20), 1),
                (&s(K::Fill, 20), 1),
                (&s(K::FillWith, 20), 1),
                (ELEM_W, 2),
                (&s(K::Swap, 6), 1),
                (&s(K::Sync, 8), 1),
            ]),
            audit: 2 | 4 | 8,
            two: 15,
            after: mix(&[(GROW, 2), (SLICE, 1), (TRAV, 1), (&[(K::Rebuild, 2), (K::Fill, 3), (K::FillWith, 3)], 1)]),
            after_n: (0, 1),
            nest: 20,
            weak: 35,
            phases: (1, 3),
            ..base
        },
        "C13" => Prof {
            w: mix(&[(GROW, 8), (ELEM_W, 4), (&s(K::Swap, 12), 1), (&s(K::TClone, 20), 1), (&s(K::TCloneToVec, 10), 1), (&s(K::GetCloned, 6), 1), (&s(K::Len, 6), 1), (TRAV, 1), (&s(K::Look, 4), 1)]),
            after: vec![(K::Rebuild, 8), (K::Push, 2), (K::Ext, 2), (K::EUpdate, 2), (K::TClone, 1), (K::Len, 1)],
            after_n: (1, 3),
            fin: vec![(K::FToVec, 3), (K::FIntoIter, 3), (K::FIntoInner, 3), (K::FDrop, 1)],
            audit: 32 | 1 | 4,
            phases: (1, 3),
            weak: 20,
            ..base
        },
        "C14" => Prof {
            w: mix(&[
                (AGG, 10),
                (&s(K::TDebug, 30), 1),
                (&s(K::TClone, 30), 1),
                (&s(K::TCloneToVec, 20), 1),
                (&s(K::TFold, 10), 1),
                (&s(K::TMap, 10), 1),
                (ELEM_W, 7),
                (&s(K::Swap, 25), 1),
                (GROW, 3),
                (&s(K::Fill, 6), 1),
                (&s(K::FillWith, 4), 1),
                (TRAV, 1),
            ]),
            stores: [12, 1, 1],
            two: 65,
            weak: 40,
            audit: 16 | 4 | 32,
            after: mix(&[(AGG, 3), (GROW, 1), (&[(K::Rebuild, 2), (K::TDebug, 3), (K::TClone, 3)], 1)]),
            after_n: (0, 2),
            hot: 60,
            ..base
        },
        "C15" => Prof {
            w: mix(&[
                (ELEM_R, 5),
                (ELEM_W, 5),
                (&s(K::Swap, 25), 1),
                (GROW, 4),
                (QUERY, 6),
                (&s(K::GetCloned, 15), 1),
                (&s(K::SubSlice, 6), 1),
                (&s(K::Look, 30), 1),
            ]),
            weak: 15,
            stalls: 100,
            freeze: 100,
            audit: 1,
            nest: 0,
            hot: 0,
            phases: (1, 1),
            big: 0,
            ..base
        },
        "C16" => Prof {
            w: mix(&[(GROW, 8), (ELEM_R, 4), (ELEM_W, 4), (&s(K::GetCloned, 15), 1), (&s(K::Len, 15), 1), (&s(K::Swap, 8), 1), (TRAV, 1), (AGG, 1), (SLICE, 1), (&s(K::Look, 6), 1), (&s(K::Fill, 3), 1), (&s(K::FillWith, 3), 1)]),
            after: vec![(K::Clear, 10), (K::Reserve, 2), (K::Rebuild, 2), (K::Push, 3), (K::Ext, 2)],
            after_n: (1, 3),
            phases: (2, 4),
            ops: (1, 4),
            audit: 1 | 2 | 4 | 8 | 32,
            faults: 15,
            refuse: 15,
            ..base
        },
        _ => base,
    }
}

struct G {
    r: Rng,
    next_id: u32,
    /// certain length at the start of the phase, possible length at its end
    lo: [u64; 2],
    hi: [u64; 2],
    hot: Vec<u32>,
    hot_pc: u64,
    two: bool,
}

impl G {
    fn ids(&mut self, n: u64) -> u32 {
        let i = self.next_id;
        self.next_id += n.min(1 << 14) as u32 + 2;
        i
    }
    /// what happens inside a callback
    fn nested(&mut self, m: u64, p: &Prof) -> u32 {
        // (references are only handed out where nobody updates)
        let access = if p.w.iter().any(|x| x.0 == K::GetRef) { !(7 << 18) } else { !0 };
        ((1 + self.r.below(m) as u32) << 8) | ((self.r.below(1 << 12) as u32) << 12) & access
    }
    fn pos(&mut self, v: usize) -> u32 {
        let (lo, hi) = (self.lo[v], self.hi[v]);
        if !self.hot.is_empty() && self.r.chance(self.hot_pc, 100) {
            return *self.hot.clone().get(self.r.us(self.hot.len())).unwrap();
        }
        if lo > 0 && self.r.chance(80, 100) {
            self.r.below(lo) as u32
        } else {
            self.r.below(hi + 2) as u32
        }
    }
    fn range(&mut self, v: usize) -> (u32, u32) {
        let top = if self.r.chance(82, 100) { self.lo[v] } else { self.hi[v] + 1 };
        let a = self.r.below(top + 1);
        let b = a + self.r.below(top - a + 1);
        if self.r.chance(30, 100) {
            return (0, top as u32);
        }
        (a as u32, b as u32)
    }
    fn small_n(&mut self) -> u64 {
        match self.r.below(20) {
            0 => 0,
            1..=8 => 1 + self.r.below(3),
            9..=16 => 2 + self.r.below(5),
            _ => 4 + self.r.below(12),
        }
    }
    fn op(&mut self, code: K, p: &Prof, nest_ok: bool, long: bool) -> Op {
        let mut o = Op::new(code);
        let v = if self.two && self.r.chance(30, 100) { 1 } else { 0 };
        o.v = v as u8;
        let nest = nest_ok && self.r.chance(p.nest, 100);
        match code {
            K::Push | K::PushIdx => {
                o.id = self.ids(1);
                if nest && code == K::PushIdx {
                    o.k |= self.nested(15, p);
                    o.b = self.pos(v);
                }
            }
            K::Ext | K::ExtIdx | K::ExtN => {
                o.n = self.small_n();
                if long && self.r.chance(1, 3) {
                    o.n = 20 + self.r.below(100);
                }
                o.id = self.ids(o.n + 8);
                if nest {
                    o.k |= self.nested(15, p);
                    o.b = self.pos(v);
                }
            }
            K::Len => o.k = self.r.below(5).saturating_sub(1) as u32,
            K::Empty => o.k = self.r.below(2) as u32,
            K::Cap | K::MaxCap => {}
            K::Look => {
                o.k = self.r.below(10) as u32;
                o.a = if o.k == 2 { self.r.below(8) as u32 } else { self.r.below(self.lo[v] + 1 + self.r.clone().below(8) / 7) as u32 };
            }
            K::EClone | K::ECopy | K::EEqVal | K::EDebug | K::EReplace | K::ESet | K::EUpdate | K::EMap => {
                o.a = self.pos(v);
                o.k = if self.r.chance(60, 100) { 0 } else { self.r.below(6) as u32 };
                o.id = self.ids(1);
                if code == K::EUpdate {
                    o.n = self.r.below(3).min(1);
                }
                if code == K::EEqVal && self.r.chance(60, 100) {
                    // a value that may be there
                    o.id = 1 + o.a;
                }
                if matches!(code, K::EMap | K::EUpdate) && nest {
                    o.k |= self.nested(3, p);
                }
            }
            K::GetCloned => {
                o.a = self.pos(v);
                o.k = self.r.below(8).saturating_sub(4) as u32;
            }
            K::Swap => {
                o.a = self.pos(v);
                o.b = self.pos(v);
                if o.a == o.b && !self.r.chance(15, 100) {
                    o.b = self.pos(v);
                }
                if o.a == o.b && self.r.chance(60, 100) && self.lo[v] > 1 {
                    o.b = (o.a + 1 + self.r.below(self.lo[v] - 1) as u32) % self.lo[v] as u32;
                }
                o.k = self.r.below(4).saturating_sub(2) as u32;
            }
            K::Fill | K::FillWith => {
                o.k = self.how();
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
                if code == K::FillWith && nest {
                    o.k |= self.nested(15, p);
                    o.n = self.r.below(4);
                }
                o.id = self.ids(self.hi[v] + 8);
            }
            K::TIter | K::TIterCloned | K::TMap | K::TFilter | K::TFold | K::TReduce | K::TCloneToVec | K::TDebug
            | K::TClone => {
                o.k = if code == K::TClone { 0 } else { self.how() };
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
                o.n = self.r.below(2);
                o.id = self.ids(self.hi[v] + 8);
                if nest && matches!(code, K::TMap | K::TFilter | K::TFold | K::TReduce) {
                    o.k |= self.nested(3, p);
                    o.n |= self.r.below(4) << 4;
                }
            }
            K::IndexOf | K::Contains => {
                o.k = self.how();
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
                o.id = match self.r.below(4) {
                    0 => 999_999,
                    1 if self.next_id > 1001 => 1000 + self.r.below(self.next_id as u64 - 1000) as u32,
                    _ => 1 + self.pos(v),
                };
            }
            K::EqArr => {
                o.k = self.r.below(2) as u32 | ((self.r.below(2) as u32) << 1);
                if o.k & 1 == 1 {
                    let lo = self.lo[v];
                    o.a = self.r.below(lo + 1) as u32;
                    o.b = o.a + self.r.below(lo - o.a as u64 + 1) as u32;
                    o.n = (o.b - o.a) as u64;
                } else {
                    o.n = self.lo[v];
                }
                match self.r.below(6) {
                    0 => o.n = o.n.saturating_sub(1),
                    1 => o.n += 1,
                    2 if o.n > 0 => o.fa = 1 + self.r.below(o.n) as u32,
                    _ => {}
                }
            }
            K::EqVec => {
                o.n = if self.two { self.r.below(2) } else { 0 };
                let w = o.n as usize;
                o.k = self.r.below(4) as u32;
                let lo = self.lo[v].min(self.lo[w]);
                if o.k != 0 {
                    o.a = self.r.below(lo + 1) as u32;
                    o.b = o.a + self.r.below(lo - o.a as u64 + 1) as u32;
                    if self.r.chance(40, 100) {
                        o.a = 0;
                        o.b = lo as u32;
                    }
                    if o.k & 2 != 0 && self.lo[w] > o.b as u64 && self.r.chance(20, 100) {
                        o.fa = self.r.below(self.lo[w] - o.b as u64 + 1) as u32;
                    }
                }
            }
            K::EEq => {
                o.n = if self.two { self.r.below(2) } else { v as u64 };
                o.a = self.pos(v);
                o.b = self.pos(o.n as usize);
                o.k = if self.r.chance(70, 100) { 0 } else { self.r.below(36) as u32 };
            }
            K::GetRef | K::GetRaw | K::GetRawMut => {
                o.a = self.pos(v);
                o.k = self.r.below(3).saturating_sub(1) as u32;
                o.n = self.r.below(4);
            }
            K::IterRef => {
                o.k = self.how();
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
            }
            K::GetMut => {
                o.a = self.pos(v);
                o.k = self.r.below(2) as u32;
                o.id = self.ids(1);
            }
            K::IterMut => {
                o.k = self.how();
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
                o.id = self.ids(self.hi[v] + 200);
            }
            K::HoldSlice | K::HoldIter => {
                o.k = self.how();
                let (a, b) = self.range(v);
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                }
                o.n = self.r.below(3);
                o.fa = self.r.below(3) as u32;
                if nest {
                    o.k |= self.nested(3, p);
                }
            }
            K::SplitAt | K::SplitFirst | K::SplitLast | K::Chunks | K::SubSlice => {
                o.k = self.how();
                let (a, b) = self.range(v);
                let mut top = self.lo[v];
                if o.k & 1 == 1 {
                    o.a = a;
                    o.b = b;
                    top = (b - a) as u64;
                }
                o.n = match code {
                    K::Chunks => {
                        if self.r.chance(1, 20) {
                            0
                        } else if self.r.chance(1, 12) {
                            u64::MAX - self.r.below(top + 1)
                        } else {
                            1 + self.r.below(top + 2)
                        }
                    }
                    K::SplitAt if self.r.chance(1, 25) => u64::MAX - self.r.below(top + 1),
                    _ => self.r.below(top + 1 + self.r.clone().below(8) / 7),
                };
                o.fa = if code == K::SubSlice {
                    let rest = top.saturating_sub(o.n);
                    self.r.below(rest + 1 + self.r.clone().below(8) / 7) as u32
                } else {
                    self.r.below(3) as u32
                };
            }
            K::Sync => o.a = self.r.below(2) as u32,
            K::Reserve => o.n = self.hi[v] + 1 + self.r.below(12),
            K::Rebuild => {
                o.k = self.r.below(5) as u32;
                o.n = self.r.below(2);
            }
            K::FIntoIter => {
                o.n = self.r.below(self.hi[0] + 3);
                o.k = self.r.below(64) as u32;
            }
            _ => {}
        }
        o
    }
    fn how(&mut self) -> u32 {
        if self.r.chance(45, 100) {
            1 | ((self.r.below(5) as u32) << 1)
        } else {
            0
        }
    }
}

fn fault(r: &mut Rng, o: &mut Op, lying: bool) {
    match o.code {
        K::PushIdx => {
            o.fk = 1;
            o.fa = 0;
        }
        K::Ext | K::ExtIdx | K::ExtN => {
            let x = r.below(10);
            if x < 5 {
                o.fk = 1;
                o.fa = r.below(o.n + 2) as u32;
            } else if x < 7 {
                o.fk = 5;
                o.fa = 1 + r.below(o.n.max(1)) as u32;
            } else if x < 9 || !lying {
                o.fk = 6;
                o.fa = 1 + r.below(3) as u32;
            } else {
                o.fk = if o.code == K::ExtIdx { 7 } else { 6 };
                o.fa = 1;
            }
        }
        K::EClone | K::ECopy | K::EMap | K::EEqVal | K::EDebug | K::EUpdate | K::GetCloned => {
            o.fk = 1;
            o.fa = 0;
        }
        K::Fill | K::FillWith | K::TIter | K::TIterCloned | K::TMap | K::TFilter | K::TFold | K::TReduce
        | K::TCloneToVec | K::TDebug | K::TClone | K::IndexOf | K::Contains | K::EqArr | K::EqVec | K::EEq => {
            if o.code == K::EqArr || o.code == K::EqVec {
                // their fa has another meaning
                if o.fa != 0 {
                    return;
                }
            }
            o.fk = 1;
            if o.code != K::EqArr && o.code != K::EqVec {
                o.fa = r.below(6) as u32;
            }
        }
        _ => {}
    }
}

fn doubling_cap(n: u64) -> u64 {
    let mut c = 4;
    let mut f = 4;
    while c < n {
        f *= 2;
        c += f;
    }
    c
}

/// how many positions an operation may take, nested ones included
fn demand(o: &Op) -> u64 {
    if o.code.is_growth() {
        o.grow_n().saturating_add(o.nested_demand())
    } else {
        o.nested_demand()
    }
}

pub fn gen(prop: &str, seed: u64) -> (Scn, Cfg) {
    if prop == "C15" {
        return gen_stall(seed);
    }
    let p = prof(prop);
    let mut r = Rng::new(seed);
    let big = r.chance(p.big, 100);
    let huge = big && r.chance(1, 5);
    let wide = !big && r.chance(p.wide, 1000);
    let store_k = r.weighted(&p.stores);
    let elem = match r.weighted(&p.elems) {
        0 => Ek::Tok,
        1 => Ek::Wide,
        _ => Ek::Small,
    };
    let store_k = if elem == Ek::Small { 0 } else { store_k };
    let two = r.chance(p.two, 100);
    let init0 = match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 1 + r.below(2),
        4 => 4,
        5 => [11, 12, 13, 27, 28][r.us(5)],
        _ => 1 + r.below(8),
    };
    // one of them far beyond what any fixed bound would be chosen as
    let giant = wide && r.chance(1, 12);
    let init0 = match (giant, wide) {
        (true, _) if r.chance(2, 3) => 4090 + r.below(1000),
        (false, true) if r.chance(1, 2) => 30 + r.below(600),
        _ => init0,
    };
    let init0 = if p.hot >= 75 && init0 == 0 && r.chance(2, 3) { 2 } else { init0 };
    let init1 = if r.chance(70, 100) { init0 } else { r.below(8) };
    // two vectors of nearly the same content, compared while one catches up with the other
    let chase = prop == "C14" && two && !big && !wide && r.chance(15, 100);
    let init1 = if chase { (init0 + r.below(5)).saturating_sub(2) } else { init1 };
    let hot_n = 1 + r.us(2);
    let mut g = G {
        next_id: if giant { 8000 } else { 1000 },
        lo: [init0, init1],
        hi: [init0, init1],
        hot: vec![],
        hot_pc: 0,
        two,
        r,
    };
    if g.r.chance(p.hot, 100) && init0 > 0 {
        let m = init0.min(if two { init1.max(1) } else { init0 });
        for _ in 0..hot_n {
            let x = g.r.below(m) as u32;
            g.hot.push(x);
        }
        g.hot_pc = 60 + g.r.below(35);
    }
    let n_ph = if huge || wide { 1 } else { g.r.range(p.phases.0, p.phases.1) };
    let faults = g.r.chance(p.faults, 100);
    let refuse = g.r.chance(p.refuse, 100);
    let weights: Vec<u32> = p.w.iter().map(|x| x.1).collect();
    let aw: Vec<u32> = p.after.iter().map(|x| x.1).collect();
    // a run may concentrate on a few kinds of operations
    let focus: Option<Vec<u32>> = if chase {
        let f = |k: K| match k {
            K::EqVec => 30,
            K::EqArr | K::TDebug | K::IndexOf | K::TCloneToVec | K::TClone => 6,
            K::Push | K::PushIdx => 14,
            K::Ext | K::ExtN | K::ExtIdx => 3,
            K::EUpdate | K::ESet | K::Swap => 2,
            _ => 0,
        };
        Some(p.w.iter().map(|x| f(x.0)).collect())
    } else if g.r.chance(35, 100) {
        let mut m = vec![0u32; weights.len()];
        for _ in 0..2 + g.r.us(3) {
            let i = g.r.weighted(&weights);
            m[i] += 1 + weights[i] / 4;
        }
        Some(m)
    } else {
        None
    };
    let mut phases = Vec::new();
    for _ in 0..n_ph {
        let nt = if wide { 2 } else { g.r.range(p.threads.0, p.threads.1) };
        let mut ph = Phase::default();
        // plan the kinds first, so that positions can refer to the end of the phase
        let mut kinds: Vec<Vec<K>> = Vec::new();
        for _ in 0..nt {
            let mut n = g.r.range(p.ops.0, p.ops.1);
            if big {
                n = n * 3 + g.r.below(6);
            }
            if huge {
                n *= 3;
            }
            if wide {
                n = n.min(3);
            }
            let w = focus.as_ref().unwrap_or(&weights);
            kinds.push((0..n).map(|_| p.w[g.r.weighted(w)].0).collect());
        }
        let growth: u64 = kinds.iter().flatten().filter(|k| k.is_growth()).count() as u64;
        for v in 0..2 {
            g.hi[v] = g.lo[v] + growth * 2;
        }
        let mut grown = [0u64; 2];
        for t in &kinds {
            let mut ops = Vec::new();
            for k in t {
                let mut o = g.op(*k, &p, true, big);
                if wide && matches!(k, K::Ext | K::ExtIdx | K::ExtN) && g.r.chance(3, 4) {
                    o.n = match g.r.below(6) {
                        0..=2 if giant && init0 < 1000 && !grown.iter().any(|x| *x > 4000) => 4090 + g.r.below(1000),
                        4..=5 if giant => 300 + g.r.below(300),
                        0 => [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025][g.r.us(15)],
                        1..=3 => 60 + g.r.below(500),
                        _ => 300 + g.r.below(1500),
                    };
                    o.id = g.ids(o.n + 8);
                }
                if faults && g.r.chance(22, 100) {
                    fault(&mut g.r, &mut o, true);
                }
                grown[o.v as usize] += demand(&o);
                ops.push(o);
            }
            ph.threads.push(ops);
        }
        for v in 0..2 {
            // what is certain afterwards, if nothing fails
            let sure = if faults || refuse { 0 } else { grown[v] };
            g.lo[v] += sure;
            g.hi[v] = g.lo[v].max(g.hi[v]);
        }
        if !p.after.is_empty() {
            for _ in 0..g.r.range(p.after_n.0, p.after_n.1).min(if giant { 1 } else { 9 }) {
                let k = p.after[g.r.weighted(&aw)].0;
                let mut o = g.op(k, &p, false, false);
                if k == K::Clear {
                    g.lo[o.v as usize] = 0;
                }
                if faults && o.code.is_growth() && g.r.chance(10, 100) {
                    fault(&mut g.r, &mut o, true);
                } else if !refuse && !faults {
                    g.lo[o.v as usize] += demand(&o);
                }
                g.hi[o.v as usize] = g.hi[o.v as usize].max(g.lo[o.v as usize]);
                ph.after.push(o);
            }
        }
        phases.push(ph);
    }
    // size of the storage
    let mut total = init0;
    let mut peak = init0;
    for ph in &phases {
        for o in ph.threads.iter().flatten().filter(|o| o.v == 0) {
            total += demand(o);
        }
        for o in ph.after.iter().filter(|o| o.v == 0) {
            total += demand(o);
            peak = peak.max(total);
            if o.code == K::Clear && !faults {
                total = 0;
            }
        }
        peak = peak.max(total);
    }
    let total = peak.max(1);
    let room = if refuse {
        init0.max(1) + g.r.below(total - init0.min(total) + 1)
    } else {
        total + [0, 0, 0, 1, 5][g.r.us(5)]
    };
    let store = match store_k {
        0 if elem != Ek::Small && g.r.chance(1, 5) => {
            // as many fragments as it takes, at most
            let mut n = 1;
            while (4 << n) - 4 < room {
                n += 1;
            }
            if refuse && n > 1 && (4u64 << (n - 1)) - 4 >= init0 && g.r.chance(1, 2) {
                n -= 1;
            }
            Sk::Few(n)
        }
        0 => Sk::Doubling,
        1 => {
            let e = if wide { 3 + g.r.below(8) } else { 1 + g.r.below(3) } as u32;
            let f = room.div_ceil(1 << e).max(1);
            Sk::Linear(e, f as u32)
        }
        _ => Sk::Fixed(room as u32),
    };
    // an absurdly large request
    if refuse && g.r.chance(30, 100) {
        let ph = g.r.us(phases.len());
        let t = g.r.us(phases[ph].threads.len());
        let huge_n: [u64; 6] = [
            u64::MAX,
            u64::MAX - 3,
            1 << 63,
            (1 << 63) - 1,
            1 << 40,
            1 << 36,
        ];
        let mut o = Op::new(*g.r.pick(&[K::ExtN, K::ExtIdx, K::Ext]));
        o.n = *g.r.pick(&huge_n);
        o.id = g.ids(64);
        let at = g.r.us(phases[ph].threads[t].len() + 1);
        if !(o.n == 1 << 36 && store == Sk::Doubling) {
            phases[ph].threads[t].insert(at, o);
        }
    }
    let fw: Vec<u32> = p.fin.iter().map(|x| x.1).collect();
    let fk = p.fin[g.r.weighted(&fw)].0;
    g.hi[0] = total;
    let fin = g.op(fk, &p, false, false);
    let fin = Op { v: 0, ..fin };
    let mut stalls = Vec::new();
    if g.r.chance(p.stalls, 100) {
        for _ in 0..1 + g.r.below(3) {
            let ph = g.r.us(phases.len());
            let nt = phases[ph].threads.len() as u64;
            let freeze = g.r.chance(p.freeze, 100);
            stalls.push(Stall {
                phase: ph as u32 + 1,
                tid: 1 + g.r.below(nt) as u8,
                at: match g.r.below(7) {
                    0 => ON_ALLOC | (1 + g.r.below(6) as u32),
                    1..=3 => 1 + g.r.below(12) as u32,
                    _ => 1 + g.r.below(60) as u32,
                },
                len: if freeze { 0 } else { 1 + [20, 200, 2000][g.r.us(3)] + g.r.below(50) as u32 },
            });
        }
    }
    // one thread stops in the middle of something, and the others wait for it for very long
    let mut patience = 0;
    if !wide && !giant && g.r.chance(p.patient, 1000) {
        patience = 60_000;
        stalls.clear();
        for _ in 0..1 + g.r.below(2) {
            let ph = g.r.us(phases.len());
            let t = g.r.us(phases[ph].threads.len());
            let grows: Vec<u32> = phases[ph].threads[t].iter().filter(|o| o.code.is_growth()).map(|o| o.id).collect();
            let at = match g.r.below(8) {
                1 | 2 if !grows.is_empty() => ON_ALLOC | (1 + g.r.below(5) as u32),
                0 if !grows.is_empty() => ON_VALUE | grows[g.r.us(grows.len())],
                0..=2 => 1 + g.r.below(60) as u32,
                _ if !g.hot.is_empty() && g.r.chance(70, 100) => ON_VALUE | (1 + g.hot[g.r.us(g.hot.len())]),
                _ => ON_VALUE | (1 + g.r.below(init0 + 1) as u32),
            };
            stalls.push(Stall { phase: ph as u32 + 1, tid: 1 + t as u8, at, len: 0 });
        }
    }
    let weak = g.r.chance(p.weak, 100);
    // each run looks at part of what it could look at
    let mut audit = 0;
    for b in 0..6 {
        if p.audit >> b & 1 == 1 && g.r.chance(if big { 40 } else { 55 }, 100) {
            audit |= 1 << b;
        }
    }
    let plain_mean = if g.r.chance(8, 100) { 2 + g.r.below(12) } else { 0 };
    let plain_mean = if giant { 0 } else { plain_mean };
    let audit = if giant { audit & (1 << g.r.below(6)) } else { audit };
    let layout = layout(&mut g.r);
    let birth = birth(&mut g.r);
    let scn = Scn {
        prop: prop.into(),
        elem,
        store,
        init: if two { vec![init0 as u32, init1 as u32] } else { vec![init0 as u32] },
        weak,
        strict_freeze: false,
        audit,
        phases,
        fin,
        stalls,
        plain_mean,
        patience,
        layout,
        birth,
    };
    let cfg = cfg_for(&scn, &mut g.r, seed);
    (scn, cfg)
}

fn birth(r: &mut Rng) -> u32 {
    match r.below(20) {
        0 => 1,
        1 => 4,
        2 => 2,
        3 => 3,
        _ => 0,
    }
}

fn layout(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 | 1 => 0,
        2 => 1,
        _ => 2 + r.below(1 << 16) as u32,
    }
}

pub fn cfg_for(scn: &Scn, r: &mut Rng, seed: u64) -> Cfg {
    let est = 30 * scn.n_ops() as u64 + 10;
    let strat = match r.below(100) {
        0..=3 => Strat::Calm,
        4..=8 => Strat::RoundRobin,
        9..=30 => Strat::AfterWrite { den: 2 + r.below(5) },
        31..=58 => Strat::Pct { d: 1 + r.below(4) as u32, len: est },
        59..=70 => Strat::Random { mean: 2 + r.below(3) },
        _ => Strat::Random { mean: 3 + r.below(30) },
    };
    Cfg {
        seed: seed ^ 0x5DEECE66D,
        weak: scn.weak,
        stale_den: 2 + r.below(5),
        race_fatal: owns(&scn.prop, "race"),
        strict_freeze: scn.strict_freeze,
        strat,
        plain_mean: scn.plain_mean,
        layout: scn.layout,
        boundary_den: if r.chance(1, 2) { 1 + r.below(4) } else { 0 },
        replay: None,
        stalls: scn.stalls.clone(),
        patience: scn.patience(),
        trace: false,
    }
}

/// one thread stops for good inside an operation on positions of its own; the others do not need
/// what it holds
fn gen_stall(seed: u64) -> (Scn, Cfg) {
    let p = prof("C15");
    let mut r = Rng::new(seed);
    let elem = if r.chance(70, 100) { Ek::Tok } else { Ek::Wide };
    let init = 2 + r.below(11);
    // either inside an operation on one or two elements, at any step; or inside a traversal of the
    // whole vector or an operation on one element, in the callback that is given one value
    // or anywhere in an operation on the whole vector, while the others do not touch values; or
    // anywhere in a growth call that needs more memory, while the others do not grow
    let mode = r.below(100);
    let in_callback = mode < 40;
    let whole = (40..52).contains(&mode);
    let grower = (52..64).contains(&mode);
    let n_held = if in_callback { 1 } else if grower { 0 } else { 1 + r.below(2.min(init - 1)) };
    let mut pos: Vec<u32> = (0..init as u32).collect();
    for i in (1..pos.len()).rev() {
        let j = r.us(i + 1);
        pos.swap(i, j);
    }
    let held: Vec<u32> = pos[..n_held as usize].to_vec();
    let free: Vec<u32> = pos[n_held as usize..].to_vec();
    let store_k = r.weighted(&[4, 3, 3]);
    let (store, room) = match store_k {
        0 => (Sk::Doubling, doubling_cap(init) - init),
        1 => {
            let e = 2 + r.below(2) as u32;
            let f = init.div_ceil(1 << e);
            (Sk::Linear(e, f as u32 + 2), (f << e) - init)
        }
        _ => {
            let x = r.below(10);
            (Sk::Fixed((init + x) as u32), x)
        }
    };
    let mut left = room;
    let mut g = G { r, next_id: 1000, lo: [init; 2], hi: [init; 2], hot: vec![], hot_pc: 0, two: false };
    let mut ph = Phase::default();
    let nt = g.r.range(2, 4);
    let weights: Vec<u32> = p.w.iter().map(|x| x.1).collect();
    for t in 0..nt {
        let set = if t == 0 { &held } else { &free };
        let n = g.r.range(1, if t == 0 { 3 } else { 5 });
        let mut ops = Vec::new();
        if t == 0 && in_callback {
            let w = mix(&[(TRAV, 4), (AGG, 3), (ELEM_R, 2), (&[(K::EUpdate, 6), (K::GetCloned, 3)], 1), (&[(K::FillWith, 4)], 1)]);
            let code = g.r.pick(&w).0;
            let mut o = g.op(code, &p, false, false);
            match code {
                K::EqVec => o = Op::new(K::TDebug),
                K::EEq => {
                    o.a = held[0];
                    o.b = held[0];
                }
                K::IndexOf | K::Contains => o.id = if g.r.chance(1, 3) { 1 + held[0] } else { 999_999 },
                K::EqArr => {
                    o.k &= 2;
                    o.n = init;
                }
                _ => {}
            }
            o.v = 0;
            if matches!(code, K::GetCloned) || code.name().starts_with('E') && code != K::EqArr {
                o.a = held[0];
            } else if o.k & 1 == 1 && code != K::EqArr {
                // a slice with the held element
                o.a = g.r.below(held[0] as u64 + 1) as u32;
                o.b = held[0] + 1 + g.r.below(init - held[0] as u64) as u32;
            }
            ph.threads.push(vec![o]);
            continue;
        }
        if t == 0 && grower {
            let code = g.r.pick(GROW).0;
            let mut o = g.op(code, &p, false, false);
            o.v = 0;
            if matches!(code, K::Push | K::PushIdx) {
                for _ in 0..left {
                    ops.push(Op { code: K::Push, id: g.ids(1), ..Op::new(K::Push) });
                }
            } else {
                o.n = left + 1 + g.r.below(4);
                o.id = g.ids(o.n + 8);
            }
            ops.push(o);
            left = 0;
            ph.threads.push(ops);
            continue;
        }
        if t == 0 && whole {
            let w = mix(&[(TRAV, 2), (AGG, 1), (SLICE, 1), (&[(K::Fill, 8), (K::FillWith, 8), (K::Swap, 4), (K::Look, 2)], 1)]);
            let code = g.r.pick(&w).0;
            let mut o = match code {
                K::EqVec => Op::new(K::EqVec),
                _ => g.op(code, &p, false, false),
            };
            o.v = 0;
            if code == K::EEq {
                o.n = 0;
            }
            ph.threads.push(vec![o]);
            continue;
        }
        for _ in 0..n {
            if t > 0 && whole {
                let w = mix(&[(QUERY, 4), (GROW, 2), (&[(K::Look, 40)], 1)]);
                let code = g.r.pick(&w).0;
                let mut o = g.op(code, &p, false, false);
                o.v = 0;
                if code.is_growth() {
                    if left == 0 {
                        continue;
                    }
                    if matches!(code, K::Ext | K::ExtIdx | K::ExtN) {
                        o.n = 1 + g.r.below(left.min(3));
                    }
                    left -= o.grow_n();
                }
                ops.push(o);
                continue;
            }
            if t > 0 && g.r.chance(6, 100) {
                let mut o = g.op(K::EEq, &p, false, false);
                o.v = 0;
                o.n = 0;
                o.k = 0;
                o.a = *g.r.pick(set);
                o.b = *g.r.pick(set);
                ops.push(o);
                continue;
            }
            if t > 0 && g.r.chance(15, 100) {
                // a traversal of a slice without the held elements
                let a = *g.r.pick(set);
                let mut b = a + 1;
                while b < init as u32 && !held.contains(&b) && g.r.chance(70, 100) {
                    b += 1;
                }
                let code = g.r.pick(&mix(&[(TRAV, 2), (SLICE, 1), (&[(K::IndexOf, 2), (K::Contains, 1), (K::EqArr, 2), (K::Fill, 2), (K::FillWith, 2)], 1)])).0;
                if code == K::TClone {
                    continue;
                }
                let mut o = g.op(code, &p, false, false);
                o.v = 0;
                o.k = 1 | ((g.r.below(5) as u32) << 1);
                o.a = a;
                o.b = b;
                if code == K::EqArr {
                    o.k &= 3;
                    o.n = (b - a) as u64;
                    o.fa = 0;
                }
                ops.push(o);
                continue;
            }
            let code = p.w[g.r.weighted(&weights)].0;
            let mut o = g.op(code, &p, false, false);
            o.v = 0;
            o.k &= 0xff;
            if code.is_growth() {
                // only into memory that is there
                if left == 0 {
                    continue;
                }
                if matches!(code, K::Ext | K::ExtIdx | K::ExtN) {
                    o.n = 1 + g.r.below(left.min(3));
                }
                left -= o.grow_n();
            } else if code == K::Swap {
                o.a = *g.r.pick(set);
                o.b = *g.r.pick(set);
            } else if code == K::GetCloned || o.a != 0 || code.name().starts_with('E') && code != K::Empty {
                o.a = *g.r.pick(set);
                // ways that go through other elements without touching their values are fine
            }
            if code == K::SubSlice {
                // slices are made, their elements are not read
                o = Op::new(K::Len);
                o.k = 1 + g.r.below(2) as u32;
            }
            if o.code == K::Len && o.k == 3 {
                o.k = 0;
            }
            ops.push(o);
        }
        ph.threads.push(ops);
    }
    let at = 1 + if g.r.chance(2, 3) { g.r.below(14) } else { g.r.below(50) };
    let at = if whole { 1 + g.r.below(120) } else { at };
    let at = if g.r.chance(1, 8) { (ON_ALLOC as u64) | (1 + g.r.below(4)) } else { at };
    let at = if in_callback { ON_VALUE | (1 + held[0]) } else { at as u32 };
    let stalls = vec![Stall { phase: 1, tid: 1, at, len: 0 }];
    let scn = Scn {
        prop: "C15".into(),
        elem,
        store,
        init: vec![init as u32],
        weak: g.r.chance(p.weak, 100),
        strict_freeze: true,
        audit: 1,
        phases: vec![ph],
        fin: Op::new(if g.r.chance(1, 2) { K::FDrop } else { K::FToVec }),
        stalls,
        plain_mean: 0,
        patience: 0,
        layout: layout(&mut g.r),
        birth: birth(&mut g.r),
    };
    let cfg = cfg_for(&scn, &mut g.r, seed);
    (scn, cfg)
}

/// how many runs the quick check of a property makes
pub fn quick_runs(prop: &str) -> u64 {
    // about 40 seconds each on 8 cores
    match prop {
        "C01" => 100_000,
        "C02" | "C03" | "C08" => 300_000,
        "C04" | "C14" => 250_000,
        "C05" => 600_000,
        "C06" => 420_000,
        "C07" | "C09" => 300_000,
        "C10" => 90_000,
        "C11" => 60_000,
        "C12" => 120_000,
        "C13" => 60_000,
        "C15" => 900_000,
        "C16" => 70_000,
        _ => 100_000,
    }
}
