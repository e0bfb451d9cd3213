//! Linearizability of the operations on one connected set of positions (Wing & Gong search with
//! memoisation). Every written value is unique, so reads name their writers.
use crate::hist::{Acc, AccK};
use std::collections::HashSet;

pub enum Verdict {
    Ok,
    No,
    Inconclusive,
}

pub struct LinOp {
    pub kind: AccK,
    pub p: usize,
    pub q: usize,
    pub old: u32,
    pub new: u32,
    pub opt: bool,
    pub pred: u128,
}

impl LinOp {
    pub fn from(a: &Acc, idx: &dyn Fn(u32) -> usize) -> LinOp {
        LinOp {
            kind: a.kind,
            p: idx(a.pos),
            q: if a.kind == AccK::Swap { idx(a.pos2) } else { 0 },
            old: a.old,
            new: a.new,
            opt: a.opt,
            pred: 0,
        }
    }
}

/// `state[p]`: current value at position p (0: absent). Final state must equal `fin`.
pub fn check(ops: &[LinOp], init: &[u32], fin: &[u32]) -> Verdict {
    let n = ops.len();
    if n > 127 {
        return Verdict::Inconclusive;
    }
    let all: u128 = if n == 0 { 0 } else { (!0u128) >> (128 - n) };
    let mut seen: HashSet<(u128, Vec<u32>)> = HashSet::new();
    let mut budget = 200_000u32;
    let mut st = init.to_vec();
    match dfs(ops, all, 0, &mut st, fin, &mut seen, &mut budget) {
        Some(true) => Verdict::Ok,
        Some(false) => Verdict::No,
        None => Verdict::Inconclusive,
    }
}

fn apply(o: &LinOp, st: &mut [u32]) -> Option<(u32, u32)> {
    let (a, b) = (st[o.p], st[o.q]);
    match o.kind {
        AccK::Init => {
            if a != 0 {
                return None;
            }
            st[o.p] = o.new;
        }
        AccK::Read => {
            if a != o.old {
                return None;
            }
        }
        AccK::Set => {
            if a == 0 {
                return None;
            }
            st[o.p] = o.new;
        }
        AccK::Rmw => {
            if a == 0 || a != o.old {
                return None;
            }
            st[o.p] = o.new;
        }
        AccK::Swap => {
            if a == 0 || b == 0 {
                return None;
            }
            st.swap(o.p, o.q);
        }
    }
    Some((a, b))
}

fn dfs(
    ops: &[LinOp],
    all: u128,
    done: u128,
    st: &mut Vec<u32>,
    fin: &[u32],
    seen: &mut HashSet<(u128, Vec<u32>)>,
    budget: &mut u32,
) -> Option<bool> {
    if done == all {
        return Some(st.as_slice() == fin);
    }
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    if !seen.insert((done, st.clone())) {
        return Some(false);
    }
    let mut unknown = false;
    // reads that are enabled and consistent can be taken at once without branching
    for (i, o) in ops.iter().enumerate() {
        let bit = 1u128 << i;
        if done & bit == 0 && o.pred & !done == 0 && o.kind == AccK::Read && st[o.p] == o.old {
            return dfs(ops, all, done | bit, st, fin, seen, budget);
        }
    }
    for (i, o) in ops.iter().enumerate() {
        let bit = 1u128 << i;
        if done & bit != 0 || o.pred & !done != 0 {
            continue;
        }
        if let Some((a, b)) = apply(o, st) {
            let r = dfs(ops, all, done | bit, st, fin, seen, budget);
            st[o.p] = a;
            if o.kind == AccK::Swap {
                st[o.q] = b;
            }
            match r {
                Some(true) => return Some(true),
                None => unknown = true,
                _ => {}
            }
        }
        if o.opt {
            match dfs(ops, all, done | bit, st, fin, seen, budget) {
                Some(true) => return Some(true),
                None => unknown = true,
                _ => {}
            }
        }
    }
    if unknown {
        None
    } else {
        Some(false)
    }
}
