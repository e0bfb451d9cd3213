//! The main thread of a scenario: builds the vectors, runs the phases, looks at everything when all
//! is quiet, and takes the vectors apart at the end.
use crate::elem::{make, probe, Elem};
use crate::interp::{effective, elem, exec_on, run_op, set_ret, slice, sut};
use crate::store::{hint, HINTS, pinned_ids, Store};
use orx_concurrent_option::ConcurrentOption;
use orx_concurrent_vec::{ConcurrentElement, ConcurrentVec, Doubling, PinnedVec, SplitVec};
use std::collections::HashMap;
use vsim_oracle::check::{check_phase, VState};
use vsim_oracle::hist::*;
use vsim_oracle::scn::{Op, Scn, Sk, K};
use vsim_rt::sched::{self, rt, set_active, stamp};

type D<T> = SplitVec<ConcurrentElement<T>, Doubling>;

pub struct World<T: Elem, P: Store<T>> {
    pub a: Option<Box<ConcurrentVec<T, P>>>,
    pub b: Option<Box<ConcurrentVec<T, D<T>>>>,
    pub vs: Vec<VState>,
    pub audit: u32,
}

pub unsafe fn nested_inner<T: Elem, P: Store<T>>(w: *mut World<T, P>, vi: u8, op: &Op) {
    let bits = op.k >> 8;
    if bits & 1 != 0 {
        dispatch(w, &crate::interp::nested_growth(vi, op));
    }
    if bits & 2 != 0 {
        dispatch(w, &crate::interp::nested_query(vi, op));
    }
}

/// one operation, on whichever vector it names
pub unsafe fn dispatch<T: Elem, P: Store<T>>(w: *mut World<T, P>, op: &Op) {
    run_op(op, || {
        let wr = &*w;
        match op.code {
            K::EEq => eeq(wr, op),
            K::EqVec => eqvec(wr, op),
            _ => {
                if op.v == 0 {
                    exec_on::<T, P, P>(w, wr.a.as_ref().unwrap(), 0, op)
                } else {
                    exec_on::<T, P, D<T>>(w, wr.b.as_ref().unwrap(), 1, op)
                }
            }
        }
    })
}

fn handle_of<T: Elem, P: Store<T>>(w: &World<T, P>, v: u8, a: usize, path: u32) -> Option<&ConcurrentElement<T>> {
    let r = sut(|| if v == 0 { elem(w.a.as_ref().unwrap(), a, path) } else { elem(w.b.as_ref().unwrap(), a, path) });
    let i0 = top().unwrap().inv;
    match r {
        Ok(Some(e)) => {
            len_obs(v, a + 1, usize::MAX, i0, stamp());
            Some(e)
        }
        Ok(None) => {
            len_obs(v, 0, a, i0, stamp());
            None
        }
        Err(p) => {
            if matches!(p, Pan::Real(_)) {
                len_obs(v, 0, a, i0, stamp());
            }
            top().unwrap().pan = p;
            None
        }
    }
}

fn only_injected(op: &Op, p: Pan) {
    match p {
        Pan::Real(m) => violate("panic", format!("{} panicked: {}", op.text(), m)),
        p => top().unwrap().pan = p,
    }
}

fn eeq<T: Elem, P: Store<T>>(w: &World<T, P>, op: &Op) {
    let (v1, v2) = (op.v, op.n as u8);
    let Some(e1) = handle_of(w, v1, op.a as usize, op.k % 6) else { return };
    let Some(e2) = handle_of(w, v2, op.b as usize, op.k / 6 % 6) else { return };
    sched::point(sched::Pk::Boundary);
    let e0 = top().unwrap().evs.len();
    let i0 = stamp();
    let r = sut(|| *e1 == *e2);
    let res = stamp();
    match r {
        Ok(x) => {
            set_ret(x as i64);
            let s: Vec<(u32, u32)> =
                top().unwrap().evs[e0..].iter().filter(|e| e.kind == Ek2::Eq).map(|e| (e.id, e.id2)).collect();
            if s.len() == 1 {
                let (p, q) = s[0];
                if x != (p == q) {
                    violate("agg", format!("{}: compared {p} with {q}, got {x}", op.text()));
                }
                acc(v1, op.a as usize, AccK::Read, p, 0, i0, res, 0);
                acc(v2, op.b as usize, AccK::Read, q, 0, i0, res, 0);
            } else if s.is_empty() && (v1, op.a) != (v2, op.b) {
                violate("agg", format!("{}: {x} without looking at the values", op.text()));
            }
        }
        Err(p) => only_injected(op, p),
    }
}

fn eqvec<T: Elem, P: Store<T>>(w: &World<T, P>, op: &Op) {
    let (v1, v2) = (op.v, op.n as u8);
    let (a, b) = (op.a as usize, op.b as usize);
    let f = op.fa as usize;
    let r1 = if op.k & 1 != 0 { Some((a, b)) } else { None };
    let r2 = if op.k & 2 != 0 { Some((a + f, b + f)) } else { None };
    let eff = |v: u8, r: Option<(usize, usize)>| match r {
        None => Some(None),
        Some((a, b)) => if v == 0 {
            effective(w.a.as_ref().unwrap(), v, a, b)
        } else {
            effective(w.b.as_ref().unwrap(), v, a, b)
        }
        .map(Some),
    };
    let Some(r1) = eff(v1, r1) else { return };
    let Some(r2) = eff(v2, r2) else { return };
    let e0 = top().unwrap().evs.len();
    let i0 = stamp();
    let r = sut(|| match (v1, v2) {
        (0, 0) => P::eq_same(w.a.as_ref().unwrap(), r1, r2),
        (0, _) => P::eq_vec(w.a.as_ref().unwrap(), r1, w.b.as_ref().unwrap(), r2),
        (_, 0) => P::eq_rev(w.b.as_ref().unwrap(), r1, w.a.as_ref().unwrap(), r2),
        _ => <D<T> as Store<T>>::eq_same(w.b.as_ref().unwrap(), r1, r2),
    });
    let res = stamp();
    match r {
        Ok(None) => {}
        Ok(Some(x)) => {
            set_ret(x as i64);
            let t = top().unwrap();
            let ev1 = t.evs.len();
            let (a1, b1) = r1.unwrap_or((0, 0));
            let (a2, b2) = r2.unwrap_or((0, 0));
            t.agg = Some(Agg {
                v: v1,
                v2,
                a: a1 as u64,
                b: b1 as u64,
                slice: r1.is_some(),
                a2: a2 as u64,
                b2: b2 as u64,
                slice2: r2.is_some(),
                probe: vec![],
                result: x as i64,
                inv: i0,
                res,
                ev0: e0,
                ev1,
            });
        }
        Err(p) => only_injected(op, p),
    }
}

// ---- quiescence ----

fn quiet<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(p) => violate("panic", format!("{what} panicked on a quiescent vector: {p:?}")),
    }
}

pub fn baseline<T: Elem, Q: Store<T>>(v: &ConcurrentVec<T, Q>, upto: u64) -> Vec<u32> {
    let cap = quiet("capacity", || v.capacity()) as u64;
    let n = cap.min(upto) as usize + 2;
    let mut out = Vec::new();
    let mut hole = false;
    for p in 0..n {
        let x = quiet("get_cloned", || v.get_cloned(p));
        let mut id = x.map_or(0, |t| t.id());
        // whether get_cloned reaches beyond a position that a failed call left empty is not specified
        if id == 0 && hole {
            id = quiet("get_raw", || v.get_raw(p)).map_or(0, |t| unsafe { &*t }.id());
        }
        hole |= id == 0;
        out.push(id);
    }
    while out.last() == Some(&0) {
        out.pop();
    }
    out
}

fn demanded(vs: &VState, v: usize, r0: usize) -> u64 {
    let mut d = vs.demanded;
    for r in &h().recs[r0..] {
        if r.op.code.is_growth() && r.op.v as usize == v {
            d = d.saturating_add(r.op.grow_n());
        }
    }
    d
}

unsafe fn settle<T: Elem, P: Store<T>>(w: *mut World<T, P>, r0: usize) {
    let wr = &mut *w;
    let r1 = h().recs.len();
    let mut base = Vec::new();
    base.push(baseline(wr.a.as_ref().unwrap(), demanded(&wr.vs[0], 0, r0)));
    if let Some(b) = &wr.b {
        base.push(baseline(b, demanded(&wr.vs[1], 1, r0)));
    }
    check_phase(&mut wr.vs, r0, r1, &base);
    h().cover.audits += 1;
    audit(wr.a.as_ref().unwrap(), &wr.vs[0], wr.audit);
    if let Some(b) = &wr.b {
        audit(b, &wr.vs[1], wr.audit);
    }
}

fn same(kind: &'static str, what: &str, got: &[u32], want: &[u32]) {
    if got != want {
        violate(kind, format!("{what} shows {got:?} on a quiescent vector holding {want:?}"));
    }
}

fn ids<T: Elem>(x: &[T]) -> Vec<u32> {
    x.iter().map(|t| t.id()).collect()
}

/// looks at the quiescent vector in many ways; all must agree with its content
fn audit<T: Elem, Q: Store<T>>(v: &ConcurrentVec<T, Q>, s: &VState, bits: u32) {
    let all = &s.content;
    let n = all.iter().position(|x| *x == 0).unwrap_or(all.len());
    let want = &all[..n];
    let full = n == all.len();
    let len = quiet("len", || v.len());
    if len != n {
        violate("lenfinal", format!("length {len} on a quiescent vector whose first {n} positions are filled"));
    }
    if quiet("is_empty", || v.is_empty()) != (n == 0) {
        violate("lenfinal", format!("is_empty is wrong at length {n}"));
    }
    let (cap, max) = quiet("capacity", || (v.capacity(), v.maximum_capacity()));
    if cap < len || max < cap || max as u64 != s.max_cap {
        violate("cap", format!("length {len}, capacity {cap}, maximum capacity {max} (was {})", s.max_cap));
    }
    if (cap as u64) < s.cap_seen {
        violate("cap", format!("capacity went from {} down to {}", s.cap_seen, cap));
    }
    let big = n > 300;
    if bits & 1 != 0 {
        for p in 0..n + 2 {
            if big && p % 17 != 0 && p + 3 < n {
                continue;
            }
            let w = if p < n { Some(all[p]) } else { None };
            let g = quiet("get", || v.get(p).map(|e| e.map(|x| x.id())));
            if g != w {
                violate("missing", format!("get({p}) shows {g:?}, expected {w:?}"));
            }
            let g = quiet("get_copied", || T::get_copied(v, p)).map(|t| t.id());
            if g != w && (p < n || full) {
                violate("missing", format!("get_copied({p}) shows {g:?}, expected {w:?}"));
            }
            let g = sut(|| v[p].map(|x| x.id())).ok();
            if g != w {
                violate("missing", format!("index [{p}] shows {g:?}, expected {w:?}"));
            }
            if let Some(id) = w {
                let g = quiet("cloned", || v[p].cloned()).id();
                let pr: T = probe(id);
                let y = quiet("element == value", || v[p] == pr);
                drop(pr);
                if g != id || !y {
                    violate("missing", format!("element {p} clones to {g} and equals {id}: {y}"));
                }
            }
        }
    }
    if bits & 2 != 0 {
        let read = |q: &[usize; 2], how: u32| -> Vec<u32> {
            let s = quiet("slice", || slice(v, q[0], q[1], how));
            if s.len() != q[1] - q[0] {
                violate("slice", format!("slice {q:?} has length {}", s.len()));
            }
            let k = s.len();
            let x = quiet("outside of a slice", || s.get(k).is_some() || s.get_cloned(k).is_some() || s.swap(k, k) || s.swap(0, k) || s.swap(k, 0));
            if x || sut(|| s[k].map(|x| x.id())).is_ok() || quiet("is_empty", || s.is_empty()) != (k == 0) {
                violate("slice", format!("slice {q:?} made in way {how} reaches its position {k}"));
            }
            let x = quiet("slice iter", || s.iter().map(|e| e.map(|x| x.id())).collect::<Vec<_>>());
            let y = x.clone();
            quiet("drop", || drop(x));
            y
        };
        for (i, q) in [[0, n], [n / 2, n], [0, n / 2], [n / 3, n - n / 4], [n, n]].iter().enumerate() {
            if q[0] <= q[1] {
                for how in 0..5 {
                    if (how + i as u32) % 2 == 0 || n < 6 {
                        same("slice", &format!("slice {q:?} made in way {how}"), &read(q, how), &all[q[0]..q[1]]);
                    }
                }
            }
        }
        // ranges are cut at the length
        let x = quiet("slice", || {
            let s = v.slice(n / 2..);
            [
                v.slice(0..n + 1).len(),
                v.slice(n + 1..).len(),
                v.slice(n / 2..n + 9).len(),
                s.slice(0..n + 1).len(),
                s.slice(n..n + 2).len(),
                s.slice(..).len(),
                v.slice(n + 1..n + 3).len(),
            ]
        });
        let m = n - n / 2;
        let y = [n, 0, m, m, 0, m, 0];
        if x != y {
            violate("slice", format!("slices reaching beyond the length {n} have lengths {x:?}, expected {y:?}"));
        }
        let m = n / 2;
        let (l, r) = quiet("split_at", || v.split_at(m));
        if l.len() != m || r.len() != n - m {
            violate("slice", format!("split_at({m}) gives lengths {} and {}", l.len(), r.len()));
        }
        if sut(|| v.split_at(n + 1).0.len()).is_ok() {
            violate("slice", "split_at beyond the length was not refused".into());
        }
        match quiet("split_first", || v.split_first().map(|(e, s)| (e.map(|x| x.id()), s.len()))) {
            Some((i, k)) if n > 0 && i == all[0] && k == n - 1 => {}
            None if n == 0 => {}
            x => violate("slice", format!("split_first gives {x:?} at length {n}")),
        }
        match quiet("split_last", || v.split_last().map(|(e, s)| (e.map(|x| x.id()), s.len()))) {
            Some((i, k)) if n > 0 && i == all[n - 1] && k == n - 1 => {}
            None if n == 0 => {}
            x => violate("slice", format!("split_last gives {x:?} at length {n}")),
        }
        // positions, sizes and bounds from the other end of the number range
        let x = quiet("extreme bounds", || {
            let s = v.slice(n / 2..);
            let mut a = [0; 9];
            for (k, top) in [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1].into_iter().enumerate() {
                a[k * 3] = v.slice(n / 2..top).len() + v.slice(top..).len() + v.slice(top - 1..top).len();
                a[k * 3 + 1] = s.slice(m / 2..top).len() + s.slice(top..).len() + s.slice(top - 1..top).len();
                a[k * 3 + 2] = (s.get(top).is_some() || s.get_cloned(top).is_some() || v.get(top).is_some() || v.get_cloned(top).is_some())
                    as usize;
            }
            a
        });
        let k = n - n / 2;
        let y = [k, k - (m / 2).min(k), 0];
        if x.chunks(3).any(|x| x != y) {
            violate("slice", format!("slices and positions reaching far beyond the length {n}: {x:?}, expected {y:?}"));
        }
        let x = quiet("reversed bounds", || {
            let s = v.slice(n / 2..);
            [v.slice(n..n / 2).len(), s.slice(k..k / 2).len(), v.slice(n + 2..n / 2).len()]
        });
        if x != [0; 3] {
            violate("slice", format!("slices with reversed bounds have lengths {x:?} at length {n}"));
        }
        for top in [usize::MAX, usize::MAX - n / 2] {
            if sut(|| v.split_at(top).0.len()).is_ok() || sut(|| v.slice(n / 2..).split_at(top).0.len()).is_ok() {
                violate("slice", "split_at far beyond the length was not refused".into());
            }
            let x = quiet("chunks", || {
                let s = v.slice(n / 2..);
                let x = [
                    v.chunks(top).len(),
                    v.chunks(top).map(|s| s.len()).sum(),
                    s.chunks(top).len(),
                    s.chunks(top).map(|s| s.len()).sum(),
                ];
                x
            });
            if x != [(n > 0) as usize, n, (k > 0) as usize, k] {
                violate("slice", format!("chunks({top}) of {n} and {k} positions have number and sum {x:?}"));
            }
        }
        for c in [1, 2, 3, n.max(1), n + 1] {
            if c == 1 && big {
                continue;
            }
            let got = quiet("chunks", || {
                let mut o = Vec::new();
                for s in v.chunks(c) {
                    o.push(s.len() as u32);
                    for e in s.iter() {
                        o.push(e.map(|x| x.id()));
                    }
                }
                o
            });
            let mut exp = Vec::new();
            for x in want.chunks(c) {
                exp.push(x.len() as u32);
                exp.extend_from_slice(x);
            }
            same("slice", &format!("chunks({c})"), &got, &exp);
            drop(got);
        }
    }
    if bits & 4 != 0 {
        let col = |what: &str, f: &mut dyn FnMut(&mut Vec<u32>)| {
            let g = quiet(what, || {
                let mut o = Vec::new();
                f(&mut o);
                o
            });
            same("trav", what, &g, want);
        };
        col("iter", &mut |o| v.iter().for_each(|e| o.push(e.map(|x| x.id()))));
        col("iter_cloned", &mut |o| v.iter_cloned().for_each(|t| o.push(t.id())));
        col("map", &mut |o| v.map(|x| x.id()).for_each(|i| o.push(i)));
        col("filter", &mut |o| v.filter(|_| true).for_each(|e| o.push(e.map(|x| x.id()))));
        col("fold", &mut |o| v.fold((), |_, x| o.push(x.id())));
        col("clone_to_vec", &mut |o| v.clone_to_vec().iter().for_each(|t| o.push(t.id())));
        // each audit tries one or two of them
        let mut turn = all.iter().fold(n as u32, |a, x| a.wrapping_mul(31) ^ x);
        let which = turn >> 5;
        let mut iterator = |what: &str, pull: &dyn Fn(usize, usize) -> (usize, bool, Option<u32>)| {
            turn = turn.wrapping_add(1);
            if turn % 6 == 0 {
                let (skip, to) = [(0, 0), (n / 2, n / 3), (0, n), (n.saturating_sub(1), n.min(1))][which as usize % 4];
                // jumps over `skip` values, then over `to` more, and takes the next one
                let (left, hint, got) = quiet(what, || pull(skip, to));
                let at = skip + to;
                if left != n - at || !hint || got != want.get(at).copied() {
                    violate(
                        "trav",
                        format!("{what} of {n} positions, advanced to {at}: {left} left, size hints right: {hint}, next {got:?}"),
                    );
                }
            }
        };
        fn pull<I: Iterator>(n: usize, skip: usize, to: usize, exact: bool, mk: impl Fn() -> I, id: impl Fn(I::Item) -> u32) -> (usize, bool, Option<u32>) {
            let fits = |h: (usize, Option<usize>), n: usize| (h.0 == n || !exact && h.0 < n) && h.1.map_or(!exact, |x| x == n || !exact && x > n);
            let mut it = mk();
            let mut hint = fits(it.size_hint(), n);
            if skip > 0 {
                it.nth(skip - 1);
                hint &= fits(it.size_hint(), n - skip);
            }
            if to > 0 {
                it.nth(to - 1);
            }
            hint &= fits(it.size_hint(), n - skip - to);
            let got = it.next().map(&id);
            let mut it = mk();
            if skip + to > 0 {
                it.nth(skip + to - 1);
            }
            (it.count(), hint, got)
        }
        if !big {
            iterator("iter", &|a, b| pull(n, a, b, false, || v.iter(), |e| e.map(|x| x.id())));
            iterator("iter_cloned", &|a, b| pull(n, a, b, false, || v.iter_cloned(), |e| e.id()));
            iterator("map", &|a, b| pull(n, a, b, false, || v.map(|x| x.id()), |e| e));
            iterator("filter", &|a, b| pull(n, a, b, false, || v.filter(|_| true), |e| e.map(|x| x.id())));
            iterator("slice iter", &|a, b| {
                let s = v.as_slice();
                let x = pull(n, a, b, false, || s.iter(), |e| e.map(|x| x.id()));
                x
            });
            iterator("slice iter_cloned", &|a, b| {
                let s = v.as_slice();
                let x = pull(n, a, b, false, || s.iter_cloned(), |e| e.id());
                x
            });
            iterator("chunks", &|a, b| pull(n, a, b, true, || v.chunks(1), |s| s[0].map(|x| x.id())));
            iterator("slice chunks", &|a, b| {
                let s = v.as_slice();
                let x = pull(n, a, b, true, || s.chunks(1), |s| s[0].map(|x| x.id()));
                x
            });
        }
        let st = quiet("debug", || Q::debug(v));
        let exp = format!("{:?}", want);
        if st != exp {
            violate("trav", format!("formats as {st}, expected {exp}"));
        }
        drop(st);
        let r = quiet("reduce", || v.reduce(|a, b| if a.id() > b.id() { T::mk(a.id()) } else { T::mk(b.id()) }));
        let g = r.as_ref().map(|t| t.id());
        if g != want.iter().copied().max() {
            violate("trav", format!("reduce gives {g:?} on {want:?}"));
        }
    }
    if bits & 8 != 0 {
        for p in 0..n + 2 {
            if big && p % 13 != 0 && p + 3 < n {
                continue;
            }
            let w = if p < n { Some(all[p]) } else { None };
            let e = quiet("get", || v.get(p).map(|e| e as *const _ as usize));
            let x = quiet("get_ref", || unsafe { v.get_ref(p).map(|x| (x.id(), x as *const T as usize)) });
            let y = quiet("get_raw", || v.get_raw(p).map(|x| unsafe { ((*x).id(), x as usize) }));
            let z = quiet("get_raw_mut", || v.get_raw_mut(p).map(|x| unsafe { ((*x).id(), x as usize) }));
            let q = quiet("get_mut", || unsafe { v.get_mut(p).map(|x| (x.id(), x as *const T as usize)) });
            if (p < n || full) && (x.map(|x| x.0) != w || x != y || x != z || x != q) {
                violate("ref", format!("references to position {p}: {x:?} {y:?} {z:?} {q:?}, expected {w:?}"));
            }
            if let Some(e) = e {
                let sz = std::mem::size_of::<ConcurrentElement<T>>();
                if let Some((_, a)) = x {
                    if a < e || a >= e + sz {
                        violate("ref", format!("the value at position {p} is outside of its element"));
                    }
                    if let Some(f) = s.addrs.get(&(p as u32)) {
                        if (f.0 != 0 && f.0 != a) || (f.1 != 0 && f.1 != e) {
                            violate("ref", format!("the element at position {p} has moved"));
                        }
                    }
                }
            }
        }
        for top in [usize::MAX, usize::MAX - n / 2] {
            let x = quiet("references beyond the end", || unsafe {
                let s = v.slice(n / 2..);
                [
                    v.get_ref(top).is_some(),
                    v.get_mut(top).is_some(),
                    v.get_raw(top).is_some(),
                    v.get_raw_mut(top).is_some(),
                    s.get_ref(top).is_some(),
                    s.get_mut(top).is_some(),
                    s.get_raw(top).is_some(),
                    s.get_raw_mut(top).is_some(),
                ]
            });
            if x != [false; 8] {
                violate("ref", format!("references to position {top}: {x:?} at length {n}"));
            }
        }
        let g = quiet("iter_ref", || unsafe { v.iter_ref().map(|x| x.id()).collect::<Vec<_>>() });
        let some: Vec<u32> = all.iter().copied().filter(|x| *x != 0).collect();
        same("ref", "iter_ref", &g, &some);
        drop(g);
        let g = quiet("iter_mut", || unsafe { v.iter_mut().map(|x| x.id()).collect::<Vec<_>>() });
        same("ref", "iter_mut", &g, &some);
        let g = quiet("slice iter_ref", || unsafe { v.as_slice().iter_ref().map(|x| x.id()).collect::<Vec<_>>() });
        same("ref", "slice iter_ref", &g, want);
        if n > 0 {
            let g = quiet("slice get_ref", || unsafe { v.slice(n - 1..).get_ref(0).map(|x| x.id()) });
            if g != Some(all[n - 1]) {
                violate("ref", format!("get_ref(0) of the slice {}.. shows {g:?}, expected {}", n - 1, all[n - 1]));
            }
        }
    }
    if bits & 16 != 0 {
        let mut ps: Vec<u32> = vec![999_999];
        if n > 0 {
            ps.extend([all[0], all[n / 2], all[n - 1]]);
        }
        for id in ps {
            let pr: T = probe(id);
            let x = quiet("index_of", || (v.index_of(&pr), v.contains(&pr)));
            let y = quiet("slice index_of", || {
                let s = v.slice(n / 3..);
                (s.index_of(&pr), s.contains(&pr))
            });
            drop(pr);
            let w = want.iter().position(|q| *q == id);
            let w2 = want[n / 3..].iter().position(|q| *q == id);
            if x != (w, w.is_some()) || y != (w2, w2.is_some()) {
                violate("agg", format!("search for {id}: {x:?} {y:?}, expected {w:?} {w2:?}"));
            }
        }
        if Q::FULL {
            let arr: Vec<T> = want.iter().map(|i| probe(*i)).collect();
            let mut other: Vec<T> = want.iter().map(|i| probe(*i)).collect();
            other.push(probe(999_999));
            let x = quiet("== array", || {
                (Q::eq_arr(v, None, &arr, 0), Q::eq_arr(v, None, &arr, 1), Q::eq_arr(v, Some((0, n)), &arr, 0))
            });
            let y = quiet("== array", || (Q::eq_arr(v, None, &other, 0), Q::eq_arr(v, Some((0, n)), &other, 1)));
            let z = if n > 0 { quiet("== array", || Q::eq_arr(v, None, &arr[..n - 1], 0)) } else { Some(false) };
            let same = quiet("== itself", || {
                (Q::eq_same(v, None, None), Q::eq_same(v, Some((0, n)), None), Q::eq_same(v, Some((0, n / 2)), None))
            });
            if x != (Some(true), Some(true), Some(true)) || y != (Some(false), Some(false)) || z != Some(false) {
                violate("agg", format!("comparisons with arrays: {x:?} {y:?} {z:?} on {want:?}"));
            }
            if n > 0 {
                // a value that is not equal to itself, as a floating point NaN
                set_irreflexive(all[n / 2]);
                let e = quiet("== without reflexivity", || {
                    [
                        Q::eq_same(v, None, None),
                        Q::eq_same(v, Some((0, n)), None),
                        Q::eq_same(v, None, Some((0, n))),
                        Q::eq_same(v, Some((0, n)), Some((0, n))),
                        Q::eq_arr(v, None, &arr, 0),
                        Q::eq_arr(v, Some((0, n)), &arr, 0),
                        Some(v[n / 2] == v[n / 2]),
                        Some(v[n / 2] == arr[n / 2]),
                        Some(v.contains(&arr[n / 2])),
                        Some(v.index_of(&arr[n / 2]).is_some()),
                    ]
                });
                set_irreflexive(0);
                if e.contains(&Some(true)) {
                    violate("agg", format!("a value that is not equal to itself is found to be equal: {e:?}"));
                }
            }
            if same.0 != Some(true) || same.1 != Some(true) || same.2 != Some(n / 2 == n) {
                violate("agg", format!("comparisons with itself: {same:?} at length {n}"));
            }
        }
    }
    if bits & 32 != 0 && Q::FULL && full {
        let c = quiet("clone", || Q::clone_vec(v)).unwrap();
        let c = {
            set_active(true);
            let c = Box::new(c);
            set_active(false);
            c
        };
        let got = quiet("clone_to_vec", || c.clone_to_vec());
        same("conv", "a clone", &ids(&got), want);
        drop(got);
        // what happens to the clone does not touch the source
        let t: T = make(dyn_id());
        quiet("push", || c.push(t));
        if n > 0 {
            let t: T = make(dyn_id());
            quiet("set", || c[0].set(t));
        }
        let l = quiet("len", || v.len());
        if l != n || (n > 0 && quiet("get", || v[0].map(|x| x.id())) != all[0]) {
            violate("conv", "a change of a clone changed its source".into());
        }
        let out = quiet("to_vec", || (*c).to_vec());
        if out.len() != n + 1 || ids(&out)[1.min(n)..n] != want[1.min(n)..] {
            violate("conv", format!("a clone with one more value converts to {:?}, from {want:?}", ids(&out)));
        }
        drop(out);
        let vals: Vec<T> = want.iter().map(|i| make(*i)).collect();
        for k in 0..HINTS {
            if k > 1 && (n as u32 + k) % 4 != 0 {
                continue;
            }
            let mut it = vals.iter().map(|t| T::mk(t.id()));
            let c = quiet("collect", || Q::collect(&mut it, hint(n, k)).map(Box::new)).unwrap();
            let got = quiet("into_iter", || (*c).into_iter().collect::<Vec<T>>());
            same("conv", "a collected vector", &ids(&got), want);
        }
    }
}

// ---- main-thread operations on the whole vector ----

fn fresh_state(cap: u64) -> VState {
    VState { max_cap: cap, ..VState::default() }
}

unsafe fn special<T: Elem, P: Store<T>, Q: Store<T>>(
    w: *mut World<T, P>,
    slot: &mut Option<Box<ConcurrentVec<T, Q>>>,
    vi: usize,
    scn: &Scn,
    op: &Op,
) {
    let wr = &mut *w;
    let i = begin(op);
    let s = &mut wr.vs[vi];
    let held: Vec<u32> = s.content.iter().copied().filter(|x| *x != 0).collect();
    let full = held.len() == s.content.len();
    let alive = h().alive;
    match op.code {
        K::Clear => {
            let v = slot.as_mut().unwrap();
            quiet("clear", || v.clear());
            if T::COUNTED && h().alive != alive - held.len() as i64 {
                violate(
                    "clear",
                    format!("clear of {} values dropped {}", held.len(), alive - h().alive),
                );
            }
            let max = quiet("maximum_capacity", || v.maximum_capacity()) as u64;
            if max < s.max_cap {
                violate("clear", format!("maximum capacity {} became {} by clearing", s.max_cap, max));
            }
            *s = fresh_state(max);
            let v = slot.as_ref().unwrap();
            let l = quiet("len", || v.len());
            if l != 0 || !quiet("is_empty", || v.is_empty()) {
                violate("clear", format!("length {l} after clear"));
            }
            for p in 0..held.len() + 2 {
                let x = quiet("get after clear", || v.get_cloned(p));
                let y = quiet("get_ref after clear", || unsafe { v.get_ref(p).map(|x| x.id()) });
                if x.is_some() || y.is_some() || quiet("get", || v.get(p).is_some()) {
                    violate("clear", format!("position {p} still shows a value after clear"));
                }
            }
        }
        K::Reserve => {
            let v = slot.as_mut().unwrap();
            let n = op.n as usize;
            match sut(|| v.reserve_maximum_capacity(n)) {
                Ok(r) => {
                    set_ret(r as i64);
                    let max = quiet("maximum_capacity", || v.maximum_capacity());
                    if max != r || max < n || (max as u64) < s.max_cap {
                        violate(
                            "cap",
                            format!("reserve_maximum_capacity({n}) returned {r}; the maximum capacity was {} and is {max}", s.max_cap),
                        );
                    }
                    after_rebuild(s, max as u64);
                }
                Err(p) => violate("panic", format!("reserve_maximum_capacity({n}) panicked: {p:?}")),
            }
        }
        // what becomes of a hole left by a panicking growth call is not specified
        K::Rebuild if !full => {}
        K::Rebuild => {
            let v = *slot.take().unwrap();
            let k = op.k % 5;
            let r: Result<ConcurrentVec<T, Q>, Pan> = sut(|| match k {
                1 if full && Q::FULL => {
                    let x = v.to_vec();
                    let mut it = x.into_iter();
                    Q::collect(&mut it, hint(held.len(), op.n as u32)).unwrap()
                }
                2 if full && Q::FULL => Q::clone_vec(&v).unwrap(),
                3 if full && Q::FULL => {
                    let mut it = v.into_iter();
                    Q::collect(&mut it, hint(held.len(), op.n as u32)).unwrap()
                }
                4 if full => {
                    let x = v.to_vec();
                    let y = Q::make(scn.store);
                    if y.maximum_capacity() >= x.len() {
                        y.extend(x);
                        y
                    } else {
                        let z = Q::make(scn.store);
                        drop(x);
                        z
                    }
                }
                _ => ConcurrentVec::from(v.into_inner()),
            });
            match r {
                Ok(v) => {
                    set_active(true);
                    let v = Box::new(v);
                    set_active(false);
                    let max = quiet("maximum_capacity", || v.maximum_capacity()) as u64;
                    if k == 4 && full && max < held.len() as u64 {
                        *s = fresh_state(max);
                    } else {
                        if !(k == 4 || (Q::FULL && (1..4).contains(&k))) && max < s.max_cap {
                            violate("cap", format!("maximum capacity {} became {} by rebuilding", s.max_cap, max));
                        }
                        after_rebuild(s, max);
                    }
                    *slot = Some(v);
                }
                Err(p) => violate("panic", format!("{} panicked: {p:?}", op.text())),
            }
        }
        _ => {}
    }
    end(i);
}

/// the vector was rebuilt or moved: positions, holes and room are what the content says
fn after_rebuild(s: &mut VState, max: u64) {
    let n = s.content.len() as u64;
    let lost = (s.base as u64 + s.slack).saturating_sub(n);
    s.slack = if s.slack > 0 { lost } else { 0 };
    s.base = n as usize;
    s.demanded = n + s.slack;
    s.max_cap = max;
    s.cap_seen = 0;
    s.addrs = HashMap::new();
}

unsafe fn finish<T: Elem, Q: Store<T>>(v: Box<ConcurrentVec<T, Q>>, s: &VState, op: &Op) {
    let i = begin(op);
    let want = &s.content;
    let full = !want.contains(&0);
    match op.code {
        K::FToVec => match sut(|| (*v).to_vec()) {
            Ok(x) => {
                same("conv", "to_vec", &ids(&x), want);
                drop(x);
            }
            Err(p) => {
                if full {
                    violate("panic", format!("to_vec panicked: {p:?}"));
                }
            }
        },
        K::FIntoIter => {
            let take = (op.n as usize).min(want.len());
            if take < want.len() {
                h().cover.partial_consume += 1;
            }
            // in part of the runs, some are jumped over before
            let jump = if op.k & 3 == 1 && full { (op.k as usize >> 2) % (want.len() + 1 - take) } else { 0 };
            match sut(|| {
                let mut it = (*v).into_iter();
                let mut out = Vec::new();
                let mut hint = true;
                if jump > 0 {
                    drop(it.nth(jump - 1));
                }
                for i in 0..take {
                    let h = it.size_hint();
                    let left = want.len() - jump - i;
                    hint &= h.0 <= left && h.1.map_or(true, |x| x >= left);
                    match it.next() {
                        Some(t) => out.push(t),
                        None => break,
                    }
                }
                let more = if op.n as usize > want.len() { it.next().is_some() } else { false };
                drop(it);
                (out, more, hint)
            }) {
                Ok((x, more, hint)) => {
                    same("conv", "into_iter", &ids(&x), &want[jump..jump + take]);
                    if full && !hint {
                        violate("conv", "into_iter announces a wrong number of values".into());
                    }
                    if more {
                        violate("conv", "into_iter yields more values than were stored".into());
                    }
                }
                Err(p) => {
                    if full {
                        violate("panic", format!("into_iter panicked: {p:?}"));
                    }
                }
            }
        }
        K::FIntoInner => match sut(|| (*v).into_inner()) {
            Ok(p) => {
                if full {
                    if p.len() != want.len() {
                        violate("conv", format!("into_inner has length {}, expected {}", p.len(), want.len()));
                    }
                    let g = quiet("iterating the inner vector", || pinned_ids::<T, Q>(&p));
                    same("conv", "into_inner", &g, want);
                }
                quiet("drop of the inner vector", || drop(p));
            }
            Err(p) => violate("panic", format!("into_inner panicked: {p:?}")),
        },
        _ => quiet("drop", || drop(v)),
    }
    end(i);
}

fn room_for_more(s: Sk, n: u32) -> u32 {
    match s {
        Sk::Fixed(x) => (x - n).min(9),
        _ => 9,
    }
}

fn build<T: Elem, Q: Store<T>>(scn: &Scn, store: Sk, n: u32) -> (Box<ConcurrentVec<T, Q>>, VState) {
    let birth = match scn.birth {
        2 | 3 if !Q::FULL || matches!(store, Sk::Few(_)) => 1,
        x => x,
    };
    let v = quiet("construction", || {
        Box::new(match birth {
            0 => Q::make(store),
            1 | 4 => {
                let mut p = Q::pinned(store);
                let extra = if birth == 4 { room_for_more(store, n) } else { 0 };
                for i in 1..=n {
                    p.push(ConcurrentElement::from(ConcurrentOption::some(T::mk(i))));
                }
                for _ in 0..extra {
                    p.push(ConcurrentElement::from(ConcurrentOption::some(T::mk(999_999))));
                }
                if n % 2 == 0 {
                    p.truncate(n as usize);
                } else {
                    for _ in 0..extra {
                        p.pop();
                    }
                }
                ConcurrentVec::from(p)
            }
            _ => {
                let mut i = 0;
                let mut it = std::iter::from_fn(|| {
                    i += 1;
                    (i <= n).then(|| T::mk(i))
                });
                Q::collect(&mut it, hint(n as usize, if birth == 2 { 0 } else { n })).unwrap()
            }
        })
    });
    let mut s = fresh_state(quiet("maximum_capacity", || v.maximum_capacity()) as u64);
    if birth != 0 {
        let len = quiet("len", || v.len());
        if len != n as usize {
            violate("conv", format!("a vector made from {n} values has length {len}"));
        }
    } else if n > 8 {
        let vals: Vec<T> = (1..=n).map(|i| make(i)).collect();
        let x = quiet("extend", || v.extend(vals));
        if x != 0 {
            violate("gap", format!("the first extend got position {x}"));
        }
    } else {
        for i in 1..=n {
            let t: T = make(i);
            let x = quiet("push", || v.push(t));
            if x + 1 != i as usize {
                violate("gap", format!("push number {i} got position {x}"));
            }
        }
    }
    s.content = (1..=n).collect();
    s.base = n as usize;
    s.demanded = n as u64;
    (v, s)
}

pub fn run<T: Elem, P: Store<T>>(scn: &Scn) {
    reset(scn.weak);
    let (a, sa) = build::<T, P>(scn, scn.store, scn.init[0]);
    let mut vs = vec![sa];
    let mut b = None;
    if scn.init.len() > 1 {
        let (x, sb) = build::<T, D<T>>(scn, Sk::Doubling, scn.init[1]);
        vs.push(sb);
        b = Some(x);
    }
    let world: *mut World<T, P> = Box::into_raw(Box::new(World { a: Some(a), b, vs, audit: scn.audit }));
    unsafe {
        // the history starts here
        h().recs.clear();
        for (pi, ph) in scn.phases.iter().enumerate() {
            rt().phase = pi as u32 + 1;
            let r0 = h().recs.len();
            for t in &ph.threads {
                let ops = t.clone();
                let wp = world as usize;
                sched::spawn(Box::new(move || {
                    for op in &ops {
                        dispatch(wp as *mut World<T, P>, op);
                    }
                }));
            }
            sched::join_all();
            settle(world, r0);
            let mut r0 = h().recs.len();
            for op in &ph.after {
                if matches!(op.code, K::Clear | K::Reserve | K::Rebuild | K::Shrink) {
                    if h().recs.len() > r0 {
                        settle(world, r0);
                    }
                    let wr = &mut *world;
                    if op.v == 0 {
                        special(world, &mut wr.a, 0, scn, op);
                    } else if wr.b.is_some() {
                        special(world, &mut wr.b, 1, scn, op);
                    }
                    r0 = h().recs.len();
                    settle(world, r0);
                } else {
                    dispatch(world, op);
                }
            }
            if h().recs.len() > r0 {
                settle(world, r0);
            }
        }
        rt().phase = 99;
        let mut wb = Box::from_raw(world);
        finish(wb.a.take().unwrap(), &wb.vs[0], &scn.fin);
        if let Some(b) = wb.b.take() {
            let mut o = scn.fin;
            o.n = 1;
            finish(b, &wb.vs[1], &o);
        }
        drop(wb);
    }
    if h().alive != 0 {
        let x: Vec<u32> = h().insts.iter().filter(|i| i.alive).map(|i| i.id).take(8).collect();
        violate("leak", format!("{} values are never dropped, for example {:?}", h().alive, x));
    }
    let l = sched::live_blocks();
    if !l.is_empty() {
        let (id, sz, t, tag) = l[0];
        violate(
            "leak",
            format!(
                "{} blocks of memory are never freed, for example #{id} of {sz} bytes, by T{t} in op {}",
                l.len(),
                tag as i32
            ),
        );
    }
}
