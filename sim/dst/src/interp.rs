//! One operation of a scenario against the real vector, with everything it shows recorded.
use crate::elem::{boom, hook, make, pause, probe, Elem, Guard, Injected};
use crate::store::Store;
use crate::world::World;
use orx_concurrent_vec::{ConcurrentElement, ConcurrentSlice, ConcurrentVec, IntoConcurrentPinnedVec};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vsim_oracle::hist::*;
use vsim_oracle::scn::{Op, K};
use vsim_rt::sched::{self, set_active, stamp, Pk, Stamp};

/// runs code under test
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    sched::rt().fresh_call();
    set_active(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_active(false);
    match r {
        Ok(r) => Ok(r),
        Err(e) => Err(panicked(e)),
    }
}

#[inline(never)]
fn panicked(e: Box<dyn std::any::Any + Send>) -> Pan {
    if e.is::<Injected>() {
        Pan::Injected
    } else {
        Pan::Real(sched::take_panic().unwrap_or_default())
    }
}

pub fn set_ret(x: i64) {
    top().unwrap().ret = x;
}
fn set_pan(p: Pan) {
    top().unwrap().pan = p;
}
fn inv() -> Stamp {
    top().unwrap().inv
}
fn real_panic(op: &Op, m: &str) -> ! {
    violate("panic", format!("{} panicked: {}", op.text(), m))
}
/// a panic that is not a refusal: only an injected one may arrive here
fn only_injected(op: &Op, p: Pan) {
    match p {
        Pan::Real(m) => real_panic(op, &m),
        p => set_pan(p),
    }
}
fn read(v: u8, pos: usize, id: u32, i: Stamp, r: Stamp) {
    acc(v, pos, AccK::Read, id, 0, i, r, 0);
}
fn absent(v: u8, pos: usize, class: u8) {
    acc(v, pos, AccK::Read, ABS, 0, inv(), stamp(), class);
}

// ---- values produced for growth ----

struct Feed<T> {
    id: u32,
    i: u32,
    left: u64,
    said: usize,
    nest: Option<*mut dyn FnMut()>,
    own: Guard,
    p: std::marker::PhantomData<T>,
}
impl<T: Elem> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 {
            hook(Ek2::Next, 0, 0);
            return None;
        }
        if let Some(n) = self.nest.take() {
            nested(n);
        }
        self.own.touch();
        let id = self.id + self.i;
        hook(Ek2::Next, id, 0);
        self.left -= 1;
        self.i += 1;
        self.said = self.said.saturating_sub(1);
        let t = T::mk(id);
        produced(id);
        Some(t)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.said, Some(self.said))
    }
}
impl<T: Elem> ExactSizeIterator for Feed<T> {}

fn nested(n: *mut dyn FnMut()) {
    let a = set_active(false);
    unsafe { (*n)() };
    set_active(a);
}

fn feed<T: Elem>(op: &Op, nest: Option<*mut dyn FnMut()>) -> Feed<T> {
    let (left, said) = match op.fk {
        5 => (op.n.saturating_sub(op.fa as u64), op.n),
        6 if op.code == K::ExtIdx => (op.n + op.fa as u64, op.n + op.fa as u64),
        6 => (op.n + op.fa as u64, op.n),
        7 => (op.n, op.n + op.fa as u64),
        _ => (op.n, op.n),
    };
    Feed { id: op.id, i: 0, left, said: said as usize, nest, own: Guard::new(op.id), p: std::marker::PhantomData }
}

// ---- access paths ----

/// an element handle, by one of several ways; runs inside `sut`
pub fn elem<'a, T, P>(v: &'a ConcurrentVec<T, P>, a: usize, path: u32) -> Option<&'a ConcurrentElement<T>>
where
    T: Elem,
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    let x: Option<*const ConcurrentElement<T>> = match path % 6 {
        0 => v.get(a).map(|e| e as *const _),
        1 => Some(&v[a] as *const _),
        2 => v.iter().nth(a).map(|e| e as *const _),
        3 => v.as_slice().get(a).map(|e| e as *const _),
        4 => Some(&v.as_slice()[a] as *const _),
        _ => v.slice(..).iter().nth(a).map(|e| e as *const _),
    };
    x.map(|e| unsafe { &*e })
}

/// a slice over a..b, by one of several ways; runs inside `sut`
pub fn slice<'a, T, P>(v: &'a ConcurrentVec<T, P>, a: usize, b: usize, how: u32) -> ConcurrentSlice<'a, T, P>
where
    T: Elem,
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    fn ext<'a, 'b, T: Elem, P>(s: ConcurrentSlice<'b, T, P>) -> ConcurrentSlice<'a, T, P>
    where
        P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
    {
        unsafe { std::mem::transmute_copy(&std::mem::ManuallyDrop::new(s)) }
    }
    match how % 5 {
        0 => v.slice(a..b),
        1 => ext(v.as_slice().slice(a..b)),
        2 if b > a => v.slice(a..=b - 1),
        3 => ext(v.slice(a..).slice(..b - a)),
        4 => {
            let (_, r) = v.split_at(a);
            ext(r.slice(0..b - a))
        }
        _ => v.slice(a..b),
    }
}

/// handles for an operation on one element; records what the access shows about the length
fn handle<'a, T, P>(v: &'a ConcurrentVec<T, P>, vi: u8, a: usize, path: u32) -> Option<&'a ConcurrentElement<T>>
where
    T: Elem,
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    match sut(|| elem(v, a, path)) {
        Ok(Some(e)) => {
            len_obs(vi, a + 1, usize::MAX, inv(), stamp());
            ref_obs(vi, a, 0, e as *const _ as usize);
            Some(e)
        }
        Ok(None) => {
            len_obs(vi, 0, a, inv(), stamp());
            absent(vi, a, 0);
            None
        }
        Err(Pan::Real(m)) => {
            if path % 6 != 1 && path % 6 != 4 {
                violate("panic", format!("access to position {a} panicked: {m}"));
            }
            set_pan(Pan::Real(m));
            len_obs(vi, 0, a, inv(), stamp());
            absent(vi, a, 0);
            None
        }
        Err(p) => {
            set_pan(p);
            None
        }
    }
}

fn parse_ids(s: &str) -> Option<Vec<u32>> {
    let s = s.strip_prefix('[')?.strip_suffix(']')?;
    if s.is_empty() {
        return Some(vec![]);
    }
    s.split(", ").map(|x| x.parse().ok()).collect()
}

fn range(op: &Op) -> Option<(usize, usize)> {
    if op.k & 1 == 1 {
        Some((op.a as usize, op.b as usize))
    } else {
        None
    }
}

enum Obj<'a, T: Elem, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> {
    V(&'a ConcurrentVec<T, P>),
    S(ConcurrentSlice<'a, T, P>),
}

impl<'a, T: Elem, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Obj<'a, T, P> {
    fn iter<'b>(&'b self) -> Box<dyn Iterator<Item = &'b ConcurrentElement<T>> + 'b> {
        match self {
            Obj::V(v) => Box::new(v.iter()),
            Obj::S(v) => Box::new(v.iter()),
        }
    }
    fn iter_cloned<'b>(&'b self) -> Box<dyn Iterator<Item = T> + 'b> {
        match self {
            Obj::V(v) => Box::new(v.iter_cloned()),
            Obj::S(v) => Box::new(v.iter_cloned()),
        }
    }
}

/// a slice cut at the length: what its length `n` shows about the vector, and where it ends
fn cut(vi: u8, a: usize, b: usize, n: usize, how: u32) -> usize {
    if n > b - a {
        violate("slice", format!("a slice over {a}..{b} has length {n}"));
    }
    if n == b - a {
        // an empty range shows nothing, except when it is taken from a split, which refuses too large positions
        if n > 0 || how % 5 == 4 {
            len_obs(vi, b, usize::MAX, inv(), stamp());
        }
    } else if n > 0 {
        len_obs(vi, a + n, a + n, inv(), stamp());
    } else {
        len_obs(vi, 0, a, inv(), stamp());
    }
    a + n
}

/// the range a slice over `a..b` really covers: it is cut at the length of the vector.
/// None: refused (recorded), or an injected panic
pub fn effective<T, P>(v: &ConcurrentVec<T, P>, vi: u8, a: usize, b: usize) -> Option<(usize, usize)>
where
    T: Elem,
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    match sut(|| v.slice(a..b).len()) {
        Ok(n) => Some((a, cut(vi, a, b, n, 0))),
        Err(Pan::Real(m)) => violate("panic", format!("slice({a}..{b}) panicked: {m}")),
        Err(p) => {
            set_pan(p);
            None
        }
    }
}

/// the object a traversal works on, the vector or a slice, and the operation with the range the
/// slice really covers (None: the slice was refused)
fn object<'a, T, P>(v: &'a ConcurrentVec<T, P>, vi: u8, op: &Op) -> Option<(Obj<'a, T, P>, Op)>
where
    T: Elem,
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    match range(op) {
        None => Some((Obj::V(v), op.clone())),
        Some((a, b)) => match sut(|| slice(v, a, b, op.k >> 1)) {
            Ok(s) => {
                let e = cut(vi, a, b, s.len(), op.k >> 1);
                let mut op = op.clone();
                op.b = e as _;
                top().unwrap().op.b = e as _;
                Some((Obj::S(s), op))
            }
            Err(Pan::Real(m)) => {
                // only split_at refuses
                if (op.k >> 1) % 5 != 4 || a == 0 {
                    violate("panic", format!("{}: the slice was refused: {m}", op.text()));
                }
                set_pan(Pan::Real(m));
                len_obs(vi, 0, a - 1, inv(), stamp());
                None
            }
            Err(p) => {
                set_pan(p);
                None
            }
        },
    }
}

/// ids seen by callbacks of kind `k` since event `e0`
fn seen(e0: usize, k: Ek2) -> Vec<(u32, u32, Stamp)> {
    top().unwrap().evs[e0..].iter().filter(|e| e.kind == k).map(|e| (e.id, e.id2, e.st)).collect()
}

fn ev_len() -> usize {
    top().unwrap().evs.len()
}

/// what is covered is settled before the first value is looked at
fn first(e0: usize, k: Ek2, res: Stamp) -> Stamp {
    top().unwrap().evs[e0..].iter().find(|e| e.kind == k).map_or(res, |e| e.st)
}

/// what a traversal covered: `n` positions from `a` on
fn covered(vi: u8, op: &Op, n: usize, created: Stamp) {
    match range(op) {
        None => len_obs(vi, n, n, inv(), created),
        Some((a, b)) => {
            if n != b - a {
                violate("trav", format!("{} on a slice of length {} visited {} positions", op.text(), b - a, n));
            }
        }
    }
}

fn in_range(op: &Op, n: usize) {
    if let Some((a, b)) = range(op) {
        if n > b - a {
            violate("trav", format!("{} on a slice of length {} visited {} positions", op.text(), b - a, n));
        }
    }
}

pub struct Ctx<'a, T: Elem, P: Store<T>> {
    pub w: &'a World<T, P>,
}

/// `v` and `vi` name the vector the operation is on
pub fn exec_on<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let a = op.a as usize;
    match op.code {
        K::Push | K::PushIdx | K::Ext | K::ExtIdx | K::ExtN => grow(w, v, vi, op),
        K::Len => {
            let r = sut(|| match op.k % 4 {
                0 => v.len(),
                1 => v.as_slice().len(),
                2 => v.slice(..).len(),
                _ => v.iter().count(),
            });
            match r {
                Ok(n) => {
                    set_ret(n as i64);
                    len_obs(vi, n, n, inv(), stamp());
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::Look => look(v, vi, op),
        K::Empty => match sut(|| if op.k % 2 == 0 { v.is_empty() } else { v.as_slice().is_empty() }) {
            Ok(true) => len_obs(vi, 0, 0, inv(), stamp()),
            Ok(false) => len_obs(vi, 1, usize::MAX, inv(), stamp()),
            Err(p) => only_injected(op, p),
        },
        K::Cap => match sut(|| v.capacity()) {
            Ok(c) => cap_obs(vi, c, false, inv(), stamp()),
            Err(p) => only_injected(op, p),
        },
        K::MaxCap => match sut(|| v.maximum_capacity()) {
            Ok(c) => cap_obs(vi, c, true, inv(), stamp()),
            Err(p) => only_injected(op, p),
        },
        K::EClone | K::ECopy | K::EMap | K::EEqVal | K::EDebug | K::EReplace | K::ESet | K::EUpdate => {
            if let Some(e) = handle(v, vi, a, op.k) {
                sched::point(Pk::Boundary);
                on_element(w, e, vi, a, op);
            }
        }
        K::GetCloned => {
            let sl = op.k & 2 != 0;
            let r = sut(|| match op.k & 3 {
                0 => v.get_cloned(a),
                1 => T::get_copied(v, a),
                2 => v.as_slice().get_cloned(a),
                _ => T::slice_get_copied(&v.as_slice(), a),
            });
            let res = stamp();
            match r {
                Ok(Some(t)) => {
                    let id = t.id();
                    set_ret(id as i64);
                    acc(vi, a, AccK::Read, id, 0, inv(), res, if sl { 0 } else { 1 });
                    if sl {
                        len_obs(vi, a + 1, usize::MAX, inv(), res);
                    }
                }
                Ok(None) => {
                    absent(vi, a, if sl { 0 } else { 1 });
                    if sl {
                        len_obs(vi, 0, a, inv(), res);
                    }
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::Swap => {
            let b = op.b as usize;
            let r = sut(|| if op.k & 1 == 0 { v.swap(a, b) } else { v.as_slice().swap(a, b) });
            let res = stamp();
            match r {
                Ok(true) => {
                    set_ret(1);
                    len_obs(vi, a.max(b) + 1, usize::MAX, inv(), res);
                    if a != b {
                        acc_swap(vi, a, b, inv(), res);
                    }
                }
                Ok(false) => {
                    set_ret(0);
                    len_obs(vi, 0, a.max(b), inv(), res);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::Fill | K::FillWith => fill(w, v, vi, op),
        K::TIter | K::TIterCloned | K::TMap | K::TFilter | K::TFold | K::TReduce | K::TCloneToVec | K::TDebug
        | K::TClone => traverse(w, v, vi, op),
        K::IndexOf | K::Contains => {
            let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
            let p: T = probe(op.id);
            let e0 = ev_len();
            let i0 = stamp();
            let r = sut(|| match (op.code, &o) {
                (K::IndexOf, Obj::V(v)) => v.index_of(&p),
                (K::IndexOf, Obj::S(v)) => v.index_of(&p),
                (_, Obj::V(v)) => v.contains(&p).then_some(0),
                (_, Obj::S(v)) => v.contains(&p).then_some(0),
            });
            drop(p);
            match r {
                Ok(x) => {
                    let (x0, x1) = range(op).unwrap_or((0, 0));
                    set_ret(x.map_or(-1, |x| x as i64));
                    let res = stamp();
                    let ev1 = ev_len();
                    top().unwrap().agg = Some(Agg {
                        v: vi,
                        a: x0 as u64,
                        b: x1 as u64,
                        slice: range(op).is_some(),
                        probe: vec![op.id],
                        result: x.map_or(-1, |x| x as i64),
                        inv: i0,
                        res,
                        ev0: e0,
                        ev1,
                        ..Agg::default()
                    });
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::EqArr => {
            // the array: the content at the last quiescent point, cut to n items, item b changed
            let rg = match range(op) {
                None => None,
                Some((a, b)) => match effective(v, vi, a, b) {
                    None => return,
                    r => r,
                },
            };
            let (x0, x1) = rg.unwrap_or((0, 0));
            let base = unsafe { &(&(*w).vs)[vi as usize].content };
            let mut ids: Vec<u32> = base.iter().skip(x0).take(op.n as usize).copied().filter(|x| *x != 0).collect();
            if op.fa > 0 && (op.fa as usize) <= ids.len() {
                ids[op.fa as usize - 1] = 999_999;
            }
            let arr: Vec<T> = ids.iter().map(|i| probe(*i)).collect();
            let e0 = ev_len();
            let i0 = stamp();
            let r = sut(|| Q::eq_arr(v, rg, &arr, (op.k >> 1) & 1));
            drop(arr);
            match r {
                Ok(None) => {}
                Ok(Some(x)) => {
                    set_ret(x as i64);
                    let res = stamp();
                    let ev1 = ev_len();
                    top().unwrap().agg = Some(Agg {
                        v: vi,
                        a: x0 as u64,
                        b: x1 as u64,
                        slice: range(op).is_some(),
                        probe: ids,
                        result: x as i64,
                        inv: i0,
                        res,
                        ev0: e0,
                        ev1,
                        ..Agg::default()
                    });
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::GetRef | K::GetRaw | K::GetRawMut => {
            let r = sut(|| unsafe {
                let p: Option<*const T> = match (op.code, op.k & 1) {
                    (K::GetRef, 0) => v.get_ref(a).map(|x| x as *const T),
                    (K::GetRef, _) => v.as_slice().get_ref(a).map(|x| x as *const T),
                    (K::GetRaw, 0) => v.get_raw(a),
                    (K::GetRaw, _) => v.as_slice().get_raw(a),
                    (_, 0) => v.get_raw_mut(a).map(|x| x as *const T),
                    _ => v.as_slice().get_raw_mut(a).map(|x| x as *const T),
                };
                p.map(|p| ((*p).id(), p))
            });
            let res = stamp();
            match r {
                Ok(Some((id, p))) => {
                    acc(vi, a, AccK::Read, id, 0, inv(), res, if op.k & 1 == 0 { 2 } else { 0 });
                    ref_obs(vi, a, p as usize, 0);
                    // it stays what it is
                    for _ in 0..op.n {
                        sched::point(Pk::Boundary);
                        match sut(|| unsafe { (*p).id() }) {
                            Ok(i2) => {
                                if i2 != id {
                                    violate(
                                        "ref",
                                        format!("a reference to position {a} first showed {id} and later {i2}, without any update"),
                                    );
                                }
                            }
                            Err(p) => only_injected(op, p),
                        }
                    }
                }
                Ok(None) => {
                    if op.k & 1 == 0 {
                        absent(vi, a, 2);
                    } else {
                        absent(vi, a, 3);
                    }
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::IterRef => {
            let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
            let mut items: Vec<(u32, usize)> = Vec::new();
            let mut it: Box<dyn Iterator<Item = &T>> = match sut(|| unsafe {
                let b: Box<dyn Iterator<Item = &T>> = match &o {
                    Obj::V(v) => Box::new(v.iter_ref()),
                    Obj::S(v) => Box::new(v.iter_ref()),
                };
                b
            }) {
                Ok(x) => x,
                Err(p) => return only_injected(op, p),
            };
            let created = stamp();
            loop {
                sched::point(Pk::Boundary);
                match sut(|| it.next().map(|x| (x.id(), x as *const T as usize))) {
                    Ok(None) => break,
                    Ok(Some(x)) => items.push(x),
                    Err(p) => return only_injected(op, p),
                }
            }
            let r = top().unwrap();
            r.items = items;
            r.created = created;
            r.ret = r.items.len() as i64;
        }
        K::GetMut => {
            let id = op.id;
            let r = sut(|| unsafe {
                match if op.k & 1 == 0 { v.get_mut(a) } else { (*(&v.as_slice() as *const ConcurrentSlice<T, Q>)).get_mut(a) } {
                    Some(x) => {
                        let o = x.id();
                        x.mutate(id);
                        o
                    }
                    None => 0,
                }
            });
            let res = stamp();
            match r {
                Ok(0) => absent(vi, a, 1),
                Ok(o) => acc(vi, a, AccK::Rmw, o, id, inv(), res, 0),
                Err(p) => only_injected(op, p),
            }
        }
        K::IterMut => {
            // runs alone: with holes, the position of an item is not known
            if crate::world::baseline(v, u64::MAX).contains(&0) {
                return;
            }
            let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
            let (x0, _) = range(op).unwrap_or((0, 0));
            let mut out: Vec<(u32, u32)> = Vec::new();
            let outp = &mut out as *mut Vec<(u32, u32)>;
            let id = op.id;
            let r = sut(|| unsafe {
                let mut it: Box<dyn Iterator<Item = &mut T>> = match &o {
                    Obj::V(v) => Box::new(v.iter_mut()),
                    Obj::S(v) => Box::new(v.iter_mut()),
                };
                let mut i = 0;
                while let Some(x) = it.next() {
                    let o = x.id();
                    x.mutate(id + i);
                    set_active(false);
                    (*outp).push((o, id + i));
                    set_active(true);
                    i += 1;
                }
            });
            let res = stamp();
            match r {
                Ok(()) => {
                    for (i, (o, n)) in out.iter().enumerate() {
                        acc(vi, x0 + i, AccK::Rmw, *o, *n, inv(), res, 0);
                    }
                    covered(vi, op, out.len(), res);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::HoldSlice => hold_slice(w, v, vi, op),
        K::HoldIter => hold_iter(w, v, vi, op),
        K::SplitAt | K::SplitFirst | K::SplitLast | K::Chunks | K::SubSlice => parts(v, vi, op),
        K::Sync => sched::sync_slot(op.a as usize % 8),
        _ => violate("harness", format!("operation {} in the wrong place", op.text())),
    }
}

/// what a view of the whole vector shows, without looking at a value
fn look<T, Q>(v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    Q: Store<T>,
{
    let a = op.a as usize;
    // (total length seen, positions and addresses of elements handed out)
    let mut out: Vec<(usize, usize)> = Vec::new();
    let o = &mut out as *mut Vec<(usize, usize)>;
    let put = |p: usize, e: &ConcurrentElement<T>| unsafe {
        let b = set_active(false);
        (*o).push((p, e as *const _ as usize));
        set_active(b);
    };
    let r: Result<Option<usize>, Pan> = sut(|| match op.k % 10 {
        0 => v.split_first().map(|(e, s)| {
            put(0, e);
            s.len() + 1
        }),
        1 => v.split_last().map(|(e, s)| {
            put(s.len(), e);
            s.len() + 1
        }),
        2 => Some(v.chunks(if a % 7 == 6 { usize::MAX - a / 7 } else { 1 + a }).map(|s| s.len()).sum()),
        3 => {
            let (l, r) = v.split_at(a);
            Some(l.len() + r.len())
        }
        4 => {
            let s = v.as_slice();
            s.split_last().map(|(e, r)| {
                put(r.len(), e);
                r.len() + 1
            })
        }
        5 => {
            let mut n = 0;
            for e in v.iter() {
                put(n, e);
                n += 1;
            }
            Some(n)
        }
        6 => {
            let s = v.slice(..);
            let mut n = 0;
            for e in s.iter() {
                put(n, e);
                n += 1;
            }
            Some(n)
        }
        7 => {
            let s = v.slice(0..);
            let n = s.len();
            for p in 0..n {
                put(p, &s[p]);
            }
            Some(n)
        }
        8 => {
            let s = v.as_slice();
            let n = s.slice(..).len();
            for p in 0..n {
                if let Some(e) = s.get(p) {
                    put(p, e);
                }
            }
            Some(n)
        }
        _ => {
            let n = v.as_slice().chunks(2).len();
            if n == 0 {
                None
            } else {
                v.get(2 * n - 2).map(|e| put(2 * n - 2, e));
                Some(usize::MAX - n)
            }
        }
    });
    match r {
        Ok(None) => {
            set_ret(0);
            len_obs(vi, 0, 0, inv(), stamp());
        }
        Ok(Some(n)) if n > usize::MAX / 2 => {
            let c = usize::MAX - n;
            if out.is_empty() {
                violate("missing", format!("{}: {} pairs, but no position {}", op.text(), c, 2 * c - 2));
            }
            len_obs(vi, 2 * c - 1, usize::MAX, inv(), stamp());
        }
        Ok(Some(n)) => {
            set_ret(n as i64);
            len_obs(vi, n, n, inv(), stamp());
        }
        Err(Pan::Real(m)) => {
            if op.k % 10 != 3 || a == 0 {
                violate("panic", format!("{} panicked: {m}", op.text()));
            }
            set_pan(Pan::Real(m));
            len_obs(vi, 0, a - 1, inv(), stamp());
        }
        Err(p) => set_pan(p),
    }
    for (p, ad) in out {
        ref_obs(vi, p, 0, ad);
    }
}

/// the growth call inside another operation's callback
pub fn nested_growth(vi: u8, op: &Op) -> Op {
    let mut o = Op::new(op.nested_growth());
    o.v = vi;
    o.n = op.nested_n();
    o.id = dyn_ids(o.n.max(1) as u32);
    o
}

/// the question inside another operation's callback
pub fn nested_query(vi: u8, op: &Op) -> Op {
    let mut o = Op::new([K::Len, K::Empty, K::Cap, K::Len][(op.k >> 16 & 3) as usize]);
    o.v = vi;
    o
}

/// the element operation inside a growth call's callback
fn nested_access(vi: u8, op: &Op) -> Op {
    let c = [K::EMap, K::EUpdate, K::EReplace, K::Swap, K::ESet, K::EMap, K::TFold, K::TIterCloned];
    let mut o = Op::new(c[(op.k >> 18 & 7) as usize]);
    o.v = vi;
    if !matches!(o.code, K::TFold | K::TIterCloned) {
        o.a = op.b;
    }
    o.b = (op.k >> 21 & 7) * (o.code == K::Swap) as u32;
    o.id = dyn_id();
    o
}

fn do_nested<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    // what runs inside: bits of k from 8 on: 1 growth, 2 len, 4 get_cloned(a), 8 an operation on a
    let bits = op.k >> 8;
    let go = |o: Op| run_op(&o, || exec_on::<T, P, Q>(w, v, vi, &o));
    if bits & 1 != 0 {
        go(nested_growth(vi, op));
    }
    if bits & 2 != 0 {
        go(nested_query(vi, op));
    }
    if bits & 4 != 0 {
        let mut o = Op::new(K::GetCloned);
        o.v = vi;
        o.a = op.b;
        go(o);
    }
    if bits & 8 != 0 {
        go(nested_access(vi, op));
    }
}

pub fn run_op(op: &Op, f: impl FnOnce()) {
    sched::point(Pk::Boundary);
    let i = begin(op);
    f();
    end(i);
}

fn grow<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let mut nf = || do_nested(w, v, vi, op);
    let np: *mut dyn FnMut() = unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut nf) };
    let nest = if op.k >> 8 != 0 { Some(np) } else { None };
    let id = op.id;
    let n = op.n as usize;
    let r = match op.code {
        K::Push => {
            let val: T = make(id);
            sut(|| v.push(val))
        }
        K::PushIdx => sut(|| {
            let own = Guard::new(id);
            v.push_for_idx(move |i| {
                own.touch();
                cb_index(i);
                if let Some(n) = nest {
                    nested(n);
                }
                hook(Ek2::Callback, id, i as u32);
                let t = T::mk(id);
                produced(id);
                t
            })
        }),
        K::Ext => sut(|| v.extend(feed::<T>(op, nest))),
        K::ExtN => sut(|| v.extend_n_items(feed::<T>(op, nest), n)),
        _ => sut(|| {
            let own = Guard::new(id);
            v.extend_for_idx(
                move |i| {
                    own.touch();
                    cb_index(i);
                    hook(Ek2::Callback, 0, i as u32);
                    let mut nest = nest;
                    if op.k >> 15 & 1 != 0 {
                        if let Some(n) = nest.take() {
                            nested(n);
                        }
                    }
                    feed::<T>(op, nest)
                },
                n,
            )
        }),
    };
    match r {
        Ok(i) => set_ret(i as i64),
        Err(p) => set_pan(p),
    }
}

fn on_element<T, P>(w: *mut World<T, P>, e: &ConcurrentElement<T>, vi: u8, a: usize, op: &Op)
where
    T: Elem,
    P: Store<T>,
{
    let i0 = stamp();
    let id = op.id;
    match op.code {
        K::EClone | K::ECopy => {
            let r = sut(|| if op.code == K::EClone { e.cloned() } else { T::copied(e) });
            let res = stamp();
            match r {
                Ok(t) => {
                    let x = t.id();
                    set_ret(x as i64);
                    read(vi, a, x, i0, res);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::EMap => {
            let mut nf = || unsafe { crate::world::nested_inner(w, vi, op) };
            let np: *mut dyn FnMut() =
                unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut nf) };
            let nest = if op.k >> 8 != 0 { Some(np) } else { None };
            let r = sut(|| {
                e.map(|x| {
                    let i = x.id();
                    if let Some(n) = nest {
                        nested(n);
                    }
                    hook(Ek2::Callback, i, 0);
                    if x.id() != i {
                        set_active(false);
                        violate("torn", format!("a value changed from {i} while it was being read at position {a}"));
                    }
                    i
                })
            });
            let res = stamp();
            match r {
                Ok(x) => {
                    set_ret(x as i64);
                    read(vi, a, x, i0, res);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::EEqVal => {
            let p: T = probe(id);
            let e0 = ev_len();
            let r = sut(|| *e == p);
            drop(p);
            let res = stamp();
            match r {
                Ok(x) => {
                    set_ret(x as i64);
                    let s = seen(e0, Ek2::Eq);
                    if s.len() == 1 {
                        let other = if s[0].0 & PROBE == 0 { s[0].0 } else { s[0].1 };
                        if other & PROBE == 0 {
                            read(vi, a, other, i0, res);
                            if x != (other == id) {
                                violate("lin", format!("{}: compared {} with {}, got {}", op.text(), other, id, x));
                            }
                        }
                    } else if x {
                        read(vi, a, id, i0, res);
                    }
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::EDebug => {
            let r = sut(|| format!("{:?}", e));
            let res = stamp();
            match r {
                Ok(s) => match s.parse::<u32>() {
                    Ok(x) => read(vi, a, x, i0, res),
                    Err(_) => violate("agg", format!("position {a} formats as {s:?}")),
                },
                Err(p) => only_injected(op, p),
            }
        }
        K::EReplace => {
            let t: T = make(id);
            match sut(|| e.replace(t)) {
                Ok(o) => {
                    let res = stamp();
                    let x = o.id();
                    set_ret(x as i64);
                    acc(vi, a, AccK::Rmw, x, id, i0, res, 0);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::ESet => {
            let t: T = make(id);
            match sut(|| e.set(t)) {
                Ok(()) => acc(vi, a, AccK::Set, 0, id, i0, stamp(), 0),
                Err(p) => only_injected(op, p),
            }
        }
        K::EUpdate => {
            let mut old = 0;
            let mut calls = 0;
            let mut nf = || unsafe { crate::world::nested_inner(w, vi, op) };
            let np: *mut dyn FnMut() =
                unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut nf) };
            let r = sut(|| {
                e.update(|x| {
                    calls += 1;
                    let o = x.id();
                    hook(Ek2::Callback, o, id);
                    if op.k >> 8 != 0 {
                        nested(np);
                    }
                    if op.n == 0 {
                        x.mutate(id);
                    } else {
                        *x = T::mk(id);
                        pause();
                    }
                    if x.id() != id {
                        set_active(false);
                        violate("torn", format!("a value at position {a} changed while it was being updated"));
                    }
                    old = o;
                })
            });
            let res = stamp();
            match r {
                Ok(()) => {
                    if calls != 1 {
                        violate("lin", format!("{} called its closure {} times", op.text(), calls));
                    }
                    set_ret(old as i64);
                    acc(vi, a, AccK::Rmw, old, id, i0, res, 0);
                }
                Err(p) => only_injected(op, p),
            }
        }
        _ => {}
    }
}

fn fill<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
    let (x0, x1) = range(op).unwrap_or((0, 0));
    let i0 = stamp();
    match op.code {
        K::Fill => {
            let t: T = make(op.id);
            let r = sut(|| match &o {
                Obj::V(v) => v.fill(t),
                Obj::S(v) => v.fill(t),
            });
            let res = stamp();
            match r {
                Ok(()) => {
                    if range(op).is_some() {
                        for p in x0..x1 {
                            acc(vi, p, AccK::Set, 0, op.id, i0, res, 0);
                        }
                    } else {
                        top().unwrap().ret = 1; // the oracle works out what was covered
                    }
                }
                Err(p) => {
                    only_injected(op, p);
                    // some were filled
                    top().unwrap().ret = 2;
                }
            }
        }
        _ => {
            let id = op.id;
            let e0 = ev_len();
            let r = sut(|| {
                let f = |i: usize| {
                    if op.k >> 8 != 0 && i as u64 == op.n {
                        // the callback may use the vector, also the element it is about to replace
                        let mut o = op.clone();
                        o.b = (x0 + i) as u32;
                        let mut nf = || do_nested(w, v, vi, &o);
                        let np: *mut dyn FnMut() = unsafe {
                            std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut nf)
                        };
                        nested(np);
                    }
                    hook(Ek2::Callback, i as u32 + 1, 0);
                    T::mk(id + i as u32)
                };
                match &o {
                    Obj::V(v) => v.fill_with(f),
                    Obj::S(v) => v.fill_with(f),
                }
            });
            let res = stamp();
            let s = seen(e0, Ek2::Callback);
            for (k, x) in s.iter().enumerate() {
                if x.0 as usize != k + 1 {
                    violate("trav", format!("{}: callback number {} got index {}", op.text(), k, x.0 - 1));
                }
            }
            let done = match r {
                Ok(()) => {
                    covered(vi, op, s.len(), first(e0, Ek2::Callback, res));
                    s.len()
                }
                Err(p) => {
                    only_injected(op, p);
                    in_range(op, s.len());
                    s.len().saturating_sub(1)
                }
            };
            for (k, x) in s.iter().enumerate().take(done) {
                acc(vi, x0 + k, AccK::Set, 0, id + k as u32, x.2, res, 0);
            }
        }
    }
}

fn traverse<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
    let (x0, _) = range(op).unwrap_or((0, 0));
    let e0 = ev_len();
    let i0 = stamp();
    // callbacks may use the vector, also make it grow
    let mut nf = || do_nested(w, v, vi, op);
    let np: *mut dyn FnMut() =
        unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut nf) };
    let step = std::cell::Cell::new(0u64);
    let tick = || {
        let n = step.get();
        step.set(n + 1);
        if op.k >> 8 != 0 && n == op.n >> 4 {
            nested(np);
        }
    };
    let tick = &tick;
    match op.code {
        K::TIter | K::TIterCloned | K::TMap | K::TFilter => {
            let par = op.n as u32 % 2;
            // items: Some(Ok(id)) value read, address of the element
            let mut it: Box<dyn Iterator<Item = (u32, usize)>> = match sut(|| {
                let b: Box<dyn Iterator<Item = (u32, usize)>> = match op.code {
                    K::TIter => Box::new(o.iter().map(|e| {
                        (
                            e.map(|x| {
                                let i = x.id();
                                hook(Ek2::Callback, i, 0);
                                i
                            }),
                            e as *const _ as usize,
                        )
                    })),
                    K::TIterCloned => Box::new(o.iter_cloned().map(|t| (t.id(), 0))),
                    K::TMap => {
                        let f = move |x: &T| {
                            let i = x.id();
                            hook(Ek2::Callback, i, 0);
                            tick();
                            i
                        };
                        match &o {
                            Obj::V(v) => Box::new(v.map(f).map(|i| (i, 0))),
                            Obj::S(v) => Box::new(v.map(f).map(|i| (i, 0))),
                        }
                    }
                    _ => {
                        let f = move |x: &T| {
                            let i = x.id();
                            hook(Ek2::Callback, i, 0);
                            tick();
                            i % 2 == par
                        };
                        match &o {
                            Obj::V(v) => Box::new(v.filter(f).map(|e| (0, e as *const _ as usize))),
                            Obj::S(v) => Box::new(v.filter(f).map(|e| (0, e as *const _ as usize))),
                        }
                    }
                };
                b
            }) {
                Ok(x) => x,
                Err(p) => return only_injected(op, p),
            };
            let created = stamp();
            let said = match sut(|| it.size_hint()) {
                Ok(x) => x,
                Err(p) => return only_injected(op, p),
            };
            let mut yielded = 0;
            let mut n = 0usize;
            loop {
                sched::point(Pk::Boundary);
                let e1 = ev_len();
                let i1 = stamp();
                let r = sut(|| it.next());
                let res = stamp();
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return only_injected(op, p),
                };
                yielded += r.is_some() as usize;
                if op.code == K::TFilter {
                    let s = seen(e1, Ek2::Callback);
                    for x in &s {
                        read(vi, x0 + n, x.0, i1, res);
                        n += 1;
                    }
                    in_range(op, n);
                    match r {
                        Some((_, ad)) => {
                            if s.is_empty() || s.last().unwrap().0 % 2 != par {
                                violate("trav", format!("{} returned an element its predicate did not choose", op.text()));
                            }
                            ref_obs(vi, x0 + n - 1, 0, ad);
                        }
                        None => {
                            if s.iter().any(|x| x.0 % 2 == par) {
                                violate("trav", format!("{} left out an element its predicate chose", op.text()));
                            }
                            break;
                        }
                    }
                    if s[..s.len() - 1].iter().any(|x| x.0 % 2 == par) {
                        violate("trav", format!("{} left out an element its predicate chose", op.text()));
                    }
                } else {
                    match r {
                        Some((id, ad)) => {
                            read(vi, x0 + n, id, i1, res);
                            if ad != 0 {
                                ref_obs(vi, x0 + n, 0, ad);
                            }
                            n += 1;
                            in_range(op, n);
                        }
                        None => break,
                    }
                }
                if n > 100_000 {
                    violate("trav", format!("{} does not end", op.text()));
                }
            }
            if said.0 > yielded || said.1.is_some_and(|h| h < yielded) {
                violate("trav", format!("{}: an iterator announced {said:?} items and yielded {yielded}", op.text()));
            }
            covered(vi, op, n, created);
        }
        K::TFold => {
            let r = sut(|| {
                let f = |agg: u32, x: &T| {
                    let i = x.id();
                    hook(Ek2::Callback, i, agg);
                    tick();
                    agg + 1
                };
                match &o {
                    Obj::V(v) => v.fold(0u32, f),
                    Obj::S(v) => v.fold(0u32, f),
                }
            });
            let res = stamp();
            let s = seen(e0, Ek2::Callback);
            for (k, x) in s.iter().enumerate() {
                if x.1 as usize != k {
                    violate("trav", format!("{}: step {} got the accumulator of step {}", op.text(), k, x.1));
                }
                read(vi, x0 + k, x.0, i0, x.2);
            }
            in_range(op, s.len());
            match r {
                Ok(c) => {
                    if c as usize != s.len() {
                        violate("trav", format!("{} returned {} after {} steps", op.text(), c, s.len()));
                    }
                    covered(vi, op, s.len(), first(e0, Ek2::Callback, res));
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::TReduce => {
            let id = op.id;
            let mut c = 0u32;
            let r = sut(|| {
                let f = |agg: &T, x: &T| {
                    let (g, i) = (agg.id(), x.id());
                    hook(Ek2::Callback, i, g);
                    tick();
                    c += 1;
                    T::mk(id + c)
                };
                match &o {
                    Obj::V(v) => v.reduce(f),
                    Obj::S(v) => v.reduce(f),
                }
            });
            let res = stamp();
            let s = seen(e0, Ek2::Callback);
            for (k, x) in s.iter().enumerate() {
                if k == 0 {
                    read(vi, x0, x.1, i0, x.2);
                } else if x.1 != id + k as u32 {
                    violate("trav", format!("{}: step {} got {} instead of the last result", op.text(), k, x.1));
                }
                read(vi, x0 + k + 1, x.0, i0, x.2);
            }
            if !s.is_empty() {
                in_range(op, s.len() + 1);
            }
            match r {
                Ok(None) => {
                    if !s.is_empty() {
                        violate("trav", format!("{} returned nothing after {} steps", op.text(), s.len()));
                    }
                    covered(vi, op, 0, res);
                }
                Ok(Some(t)) => {
                    let x = t.id();
                    if s.is_empty() {
                        read(vi, x0, x, i0, res);
                    } else if x != id + s.len() as u32 {
                        violate("trav", format!("{} returned {} after {} steps", op.text(), x, s.len()));
                    }
                    covered(vi, op, s.len() + 1, first(e0, Ek2::Callback, res));
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::TCloneToVec | K::TDebug | K::TClone => {
            let mut ids: Vec<u32> = Vec::new();
            match op.code {
                K::TCloneToVec => match sut(|| match &o {
                    Obj::V(v) => v.clone_to_vec(),
                    Obj::S(v) => v.clone_to_vec(),
                }) {
                    Ok(x) => ids.extend(x.iter().map(|t| t.id())),
                    Err(p) => return only_injected(op, p),
                },
                K::TDebug => match sut(|| match &o {
                    Obj::V(v) => Q::debug(v),
                    Obj::S(v) => format!("{:?}", v),
                }) {
                    Ok(s) => match parse_ids(&s) {
                        Some(x) => ids = x,
                        None => violate("agg", format!("{} gives {:?}", op.text(), s)),
                    },
                    Err(p) => return only_injected(op, p),
                },
                _ => match sut(|| Q::clone_vec(v).map(Box::new)) {
                    Ok(None) => return,
                    Ok(Some(c)) => {
                        let n = match sut(|| c.len()) {
                            Ok(n) => n,
                            Err(p) => return only_injected(op, p),
                        };
                        for i in 0..n {
                            // the copy belongs to this thread alone
                            match sut(|| c.get(i).map(|e| e.map(|x| x.id()))) {
                                Ok(Some(x)) => ids.push(x),
                                Ok(None) => violate("agg", format!("a clone of length {n} has nothing at position {i}")),
                                Err(p) => return only_injected(op, p),
                            }
                        }
                        if let Err(p) = sut(|| drop(c)) {
                            only_injected(op, p);
                        }
                    }
                    Err(p) => return only_injected(op, p),
                },
            }
            let res = stamp();
            for (k, x) in ids.iter().enumerate() {
                read(vi, x0 + k, *x, i0, res);
            }
            let mut o2 = *op;
            if op.code == K::TClone {
                o2.k = 0;
            }
            let k = if op.code == K::TDebug { Ek2::Debug } else { Ek2::Clone };
            covered(vi, &o2, ids.len(), first(e0, k, res));
        }
        _ => {}
    }
}

/// what an iterator that has `n` items left says about it
fn hints<I: Iterator + ?Sized>(it: &I, n: usize, op: &Op) {
    match sut(|| it.size_hint()) {
        Ok((lo, hi)) => {
            if lo > n || hi.is_some_and(|h| h < n) {
                violate("trav", format!("{}: {n} items are left, the iterator announces {lo} to {hi:?}", op.text()));
            }
        }
        Err(p) => only_injected(op, p),
    }
}

/// reads all of a slice by iteration and by position, notes values and addresses
fn slice_read<T, Q>(s: &ConcurrentSlice<T, Q>, vi: u8, x0: usize, n: usize, mode: u32, op: &Op) -> bool
where
    T: Elem,
    Q: Store<T>,
{
    if s.len() != n || s.is_empty() != (n == 0) {
        violate("slice", format!("{}: a slice of length {} now has length {}", op.text(), n, s.len()));
    }
    match mode % 5 {
        0 => {
            let mut it = match sut(|| Box::new(s.iter())) {
                Ok(x) => x,
                Err(p) => {
                    only_injected(op, p);
                    return false;
                }
            };
            let mut k = 0;
            loop {
                sched::point(Pk::Boundary);
                let i1 = stamp();
                hints(&*it, n.saturating_sub(k), op);
                let r = sut(|| {
                    it.next().map(|e| {
                        (
                            e.map(|x| {
                                let i = x.id();
                                hook(Ek2::Callback, i, 0);
                                i
                            }),
                            e as *const _ as usize,
                        )
                    })
                });
                match r {
                    Ok(None) => break,
                    Ok(Some((id, ad))) => {
                        read(vi, x0 + k, id, i1, stamp());
                        ref_obs(vi, x0 + k, 0, ad);
                        k += 1;
                        if k > n {
                            violate("slice", format!("{}: a slice of length {} yields more", op.text(), n));
                        }
                    }
                    Err(p) => {
                        only_injected(op, p);
                        return false;
                    }
                }
            }
            if k != n {
                violate("slice", format!("{}: a slice of length {} yields {}", op.text(), n, k));
            }
        }
        1 => {
            for k in 0..n + 1 {
                sched::point(Pk::Boundary);
                let i1 = stamp();
                let by_index = mode & 1 != 0 && k < n;
                match sut(|| {
                    let e = if by_index { Some(&s[k]) } else { s.get(k) };
                    e.map(|e| (e.map(|x| x.id()), e as *const _ as usize))
                }) {
                    Ok(Some((id, ad))) => {
                        if k >= n {
                            violate("slice", format!("{}: position {} of a slice of length {} is accessible", op.text(), k, n));
                        }
                        read(vi, x0 + k, id, i1, stamp());
                        ref_obs(vi, x0 + k, 0, ad);
                    }
                    Ok(None) => {
                        if k < n {
                            violate("slice", format!("{}: position {} of a slice of length {} is not accessible", op.text(), k, n));
                        }
                    }
                    Err(p) => {
                        only_injected(op, p);
                        return false;
                    }
                }
            }
        }
        3 => {
            let mut it = match sut(|| Box::new(s.iter_cloned())) {
                Ok(x) => x,
                Err(p) => {
                    only_injected(op, p);
                    return false;
                }
            };
            let mut k = 0;
            loop {
                sched::point(Pk::Boundary);
                let i1 = stamp();
                hints(&*it, n - k, op);
                match sut(|| it.next()) {
                    Ok(None) => break,
                    Ok(Some(t)) => {
                        if k >= n {
                            violate("slice", format!("{}: a slice of length {} yields more", op.text(), n));
                        }
                        read(vi, x0 + k, t.id(), i1, stamp());
                        k += 1;
                    }
                    Err(p) => {
                        only_injected(op, p);
                        return false;
                    }
                }
            }
            if k != n {
                violate("slice", format!("{}: a slice of length {} yields {}", op.text(), n, k));
            }
        }
        _ => {
            for k in 0..n + 1 {
                let i1 = stamp();
                match sut(|| if mode & 1 == 0 { s.get_cloned(k) } else { T::slice_get_copied(s, k) }) {
                    Ok(Some(t)) => {
                        if k >= n {
                            violate("slice", format!("{}: position {} of a slice of length {} is readable", op.text(), k, n));
                        }
                        read(vi, x0 + k, t.id(), i1, stamp());
                    }
                    Ok(None) => {
                        if k < n {
                            violate("slice", format!("{}: position {} of a slice of length {} is not readable", op.text(), k, n));
                        }
                    }
                    Err(p) => {
                        only_injected(op, p);
                        return false;
                    }
                }
            }
        }
    }
    true
}

fn hold_slice<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let s;
    let (x0, n);
    if op.k & 1 == 1 {
        match object(v, vi, op) {
            Some((Obj::S(x), o)) => {
                x0 = o.a as usize;
                n = (o.b - o.a) as usize;
                s = x;
            }
            _ => return,
        }
    } else {
        s = match sut(|| v.as_slice()) {
            Ok(s) => s,
            Err(p) => return only_injected(op, p),
        };
        x0 = 0;
        n = s.len();
        len_obs(vi, n, n, inv(), stamp());
    }
    for r in 0..1 + op.n as u32 {
        if !slice_read(&s, vi, x0, n, r + op.fa, op) {
            return;
        }
        if op.k >> 8 != 0 && r == 0 {
            do_nested(w, v, vi, op);
        }
    }
}

fn hold_iter<T, P, Q>(w: *mut World<T, P>, v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    P: Store<T>,
    Q: Store<T>,
{
    let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
    let (x0, _) = range(op).unwrap_or((0, 0));
    let mut it = match sut(|| o.iter()) {
        Ok(x) => x,
        Err(p) => return only_injected(op, p),
    };
    let created = stamp();
    let said = match sut(|| it.size_hint()) {
        Ok(x) => x,
        Err(p) => return only_injected(op, p),
    };
    let mut n = 0;
    loop {
        if n as u64 == op.n && op.k >> 8 != 0 {
            do_nested(w, v, vi, op);
        }
        sched::point(Pk::Boundary);
        let i1 = stamp();
        match sut(|| it.next().map(|e| (e.map(|x| x.id()), e as *const _ as usize))) {
            Ok(None) => break,
            Ok(Some((id, ad))) => {
                read(vi, x0 + n, id, i1, stamp());
                ref_obs(vi, x0 + n, 0, ad);
                n += 1;
                in_range(op, n);
            }
            Err(p) => return only_injected(op, p),
        }
    }
    drop(it);
    if said.0 > n || said.1.is_some_and(|h| h < n) {
        violate("trav", format!("{}: an iterator announced {said:?} items and yielded {n}", op.text()));
    }
    covered(vi, op, n, created);
}

fn parts<T, Q>(v: &ConcurrentVec<T, Q>, vi: u8, op: &Op)
where
    T: Elem,
    Q: Store<T>,
{
    let Some((o, eff)) = object(v, vi, op) else { return };
    let op = &eff;
    let (x0, x1) = range(op).unwrap_or((0, 0));
    let known = range(op).map(|_| x1 - x0);
    let m = op.n as usize;
    let check_len = |total: usize, st: Stamp| match known {
        Some(n) => {
            if total != n {
                violate("slice", format!("{}: the parts of a slice of length {} cover {}", op.text(), n, total));
            }
        }
        None => len_obs(vi, total, total, inv(), st),
    };
    match op.code {
        K::SplitAt => {
            let r = sut(|| match &o {
                Obj::V(v) => v.split_at(m),
                Obj::S(s) => s.split_at(m),
            });
            match r {
                Ok((l, r)) => {
                    if l.len() != m {
                        violate("slice", format!("{}: the left part has length {}", op.text(), l.len()));
                    }
                    check_len(m + r.len(), stamp());
                    let (n1, n2) = (l.len(), r.len());
                    if slice_read(&l, vi, x0, n1, op.fa, op) {
                        slice_read(&r, vi, x0 + m, n2, op.fa + 1, op);
                    }
                }
                Err(Pan::Real(p)) => {
                    match known {
                        Some(n) if m <= n => real_panic(op, &p),
                        Some(_) => {}
                        None => {
                            if m == 0 {
                                real_panic(op, &p);
                            }
                            len_obs(vi, 0, m - 1, inv(), stamp())
                        }
                    }
                    set_pan(Pan::Real(p));
                }
                Err(p) => set_pan(p),
            }
        }
        K::SplitFirst | K::SplitLast => {
            let first = op.code == K::SplitFirst;
            let r = sut(|| match (&o, first) {
                (Obj::V(v), true) => v.split_first(),
                (Obj::V(v), false) => v.split_last(),
                (Obj::S(s), true) => s.split_first(),
                (Obj::S(s), false) => s.split_last(),
            });
            match r {
                Ok(None) => check_len(0, stamp()),
                Ok(Some((e, rest))) => {
                    let n = rest.len();
                    check_len(n + 1, stamp());
                    let pe = if first { x0 } else { x0 + n };
                    ref_obs(vi, pe, 0, e as *const _ as usize);
                    let i1 = stamp();
                    match sut(|| e.map(|x| x.id())) {
                        Ok(id) => read(vi, pe, id, i1, stamp()),
                        Err(p) => return only_injected(op, p),
                    }
                    slice_read(&rest, vi, if first { x0 + 1 } else { x0 }, n, op.fa, op);
                }
                Err(p) => only_injected(op, p),
            }
        }
        K::Chunks => {
            let r = sut(|| {
                let b: Box<dyn ExactSizeIterator<Item = ConcurrentSlice<T, Q>>> = match &o {
                    Obj::V(v) => Box::new(v.chunks(m)),
                    Obj::S(s) => Box::new(s.chunks(m)),
                };
                b
            });
            match r {
                Ok(mut it) => {
                    let st = stamp();
                    let cnt = it.len();
                    let mut total = 0;
                    let mut k = 0;
                    let mut last_full = true;
                    loop {
                        sched::point(Pk::Boundary);
                        match sut(|| it.next()) {
                            Ok(None) => break,
                            Ok(Some(s)) => {
                                let n = s.len();
                                if !last_full || n == 0 || n > m {
                                    violate("slice", format!("{}: chunk {} has length {}", op.text(), k, n));
                                }
                                last_full = n == m;
                                if !slice_read(&s, vi, x0 + total, n, op.fa + k as u32, op) {
                                    return;
                                }
                                total += n;
                                k += 1;
                            }
                            Err(p) => return only_injected(op, p),
                        }
                    }
                    if k != cnt {
                        violate("slice", format!("{}: {} chunks announced, {} came", op.text(), cnt, k));
                    }
                    check_len(total, st);
                }
                Err(Pan::Real(p)) => {
                    if m > 0 {
                        real_panic(op, &p);
                    }
                    set_pan(Pan::Real(p));
                }
                Err(p) => set_pan(p),
            }
        }
        _ => {
            // a slice of a slice: m..m+fa within it
            let s = match o {
                Obj::S(s) => s,
                Obj::V(v) => match sut(|| v.as_slice()) {
                    Ok(s) => {
                        let n = s.len();
                        len_obs(vi, n, n, inv(), stamp());
                        s
                    }
                    Err(p) => return only_injected(op, p),
                },
            };
            let (c, d) = (m, m + op.fa as usize);
            match sut(|| s.slice(c..d)) {
                Ok(t) => {
                    let n = d.min(s.len()) - c.min(s.len());
                    if t.len() != n {
                        violate(
                            "slice",
                            format!("{}: part {}..{} of a slice of length {} has length {}", op.text(), c, d, s.len(), t.len()),
                        );
                    }
                    slice_read(&t, vi, x0 + c, n, 0, op);
                    slice_read(&t, vi, x0 + c, n, 1, op);
                }
                Err(p) => only_injected(op, p),
            }
        }
    }
}

#[allow(dead_code)]
fn unused() {
    boom()
}
