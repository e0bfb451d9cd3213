//! What only some of the storages offer.
use crate::elem::Elem;
use orx_concurrent_vec::{
    ConcurrentElement, ConcurrentVec, Doubling, FixedVec, IntoConcurrentPinnedVec, Linear, PinnedVec, SplitVec,
};
use vsim_oracle::scn::Sk;

pub trait Store<T: Elem>: IntoConcurrentPinnedVec<ConcurrentElement<T>> + Sized + 'static {
    const FULL: bool = false;
    fn make(s: Sk) -> ConcurrentVec<T, Self>;
    /// an empty storage of that kind
    fn pinned(s: Sk) -> Self;
    fn clone_vec(_v: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>> {
        None
    }
    fn collect(_i: &mut dyn Iterator<Item = T>, _hint: Hint) -> Option<ConcurrentVec<T, Self>> {
        None
    }
    /// k: 0 `[T]`, 1 `[T; N]`
    fn eq_arr(_v: &ConcurrentVec<T, Self>, _r: Option<(usize, usize)>, _x: &[T], _k: u32) -> Option<bool> {
        None
    }
    fn eq_vec(
        _v: &ConcurrentVec<T, Self>,
        _r: Option<(usize, usize)>,
        _w: &ConcurrentVec<T>,
        _q: Option<(usize, usize)>,
    ) -> Option<bool> {
        None
    }
    fn eq_rev(
        _w: &ConcurrentVec<T>,
        _q: Option<(usize, usize)>,
        _v: &ConcurrentVec<T, Self>,
        _r: Option<(usize, usize)>,
    ) -> Option<bool> {
        None
    }
    fn eq_same(_v: &ConcurrentVec<T, Self>, _r: Option<(usize, usize)>, _q: Option<(usize, usize)>) -> Option<bool> {
        None
    }
    fn debug(v: &ConcurrentVec<T, Self>) -> String {
        format!("{:?}", v)
    }
}

/// what an iterator to be collected says about its length: at least this, and at most so many more (if it knows)
pub type Hint = (usize, Option<usize>);

struct Hinted<'a, T> {
    i: &'a mut dyn Iterator<Item = T>,
    hint: Hint,
}
impl<T> Iterator for Hinted<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.hint.0 = self.hint.0.saturating_sub(1);
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint.0, self.hint.1.map(|m| self.hint.0.saturating_add(m)))
    }
}

pub const HINTS: u32 = 12;

/// true hints about `n` items
pub fn hint(n: usize, k: u32) -> Hint {
    match k % HINTS {
        0 => (n, Some(0)),
        1 => (0, None),
        2 => (n / 2, Some(n - n / 2)),
        3 => (n.min(1), Some(n + 3)),
        4 => (n, None),
        5 => (n, Some(usize::MAX - n)),
        6 => (0, Some(n)),
        // nearly exact ones
        7 => (n, Some(1)),
        8 => (n.saturating_sub(1), Some(n.min(1))),
        9 => (n, Some(2)),
        10 => (n.saturating_sub(1), Some(n.min(1) + 1)),
        _ => (n.saturating_sub(2), Some(n.min(2))),
    }
}

impl<T: Elem> Store<T> for SplitVec<ConcurrentElement<T>, Doubling> {
    const FULL: bool = true;
    fn make(s: Sk) -> ConcurrentVec<T, Self> {
        match s {
            Sk::Few(_) => ConcurrentVec::from(Self::pinned(s)),
            _ => ConcurrentVec::new(),
        }
    }
    fn pinned(s: Sk) -> Self {
        SplitVec::with_doubling_growth_and_fragments_capacity(match s {
            Sk::Few(n) => n as usize,
            _ => 32,
        })
    }
    fn clone_vec(v: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>> {
        Some(v.clone())
    }
    fn collect(i: &mut dyn Iterator<Item = T>, hint: Hint) -> Option<ConcurrentVec<T, Self>> {
        Some(Hinted { i, hint }.collect())
    }
    fn eq_arr(v: &ConcurrentVec<T, Self>, r: Option<(usize, usize)>, x: &[T], k: u32) -> Option<bool> {
        fn arr<T: Elem, const N: usize>(x: &[T]) -> &[T; N] {
            x.try_into().unwrap()
        }
        Some(match r {
            None => match (k, x.len()) {
                (1, 0) => *v == *arr::<T, 0>(x),
                (1, 1) => *v == *arr::<T, 1>(x),
                (1, 2) => *v == *arr::<T, 2>(x),
                (1, 4) => *v == *arr::<T, 4>(x),
                (1, 5) => *v == *arr::<T, 5>(x),
                _ => *v == *x,
            },
            Some((a, b)) => {
                let s = v.slice(a..b);
                match (k, x.len()) {
                    (1, 0) => s == *arr::<T, 0>(x),
                    (1, 1) => s == *arr::<T, 1>(x),
                    (1, 2) => s == *arr::<T, 2>(x),
                    (1, 4) => s == *arr::<T, 4>(x),
                    _ => s == *x,
                }
            }
        })
    }
    fn eq_vec(
        v: &ConcurrentVec<T, Self>,
        r: Option<(usize, usize)>,
        w: &ConcurrentVec<T>,
        q: Option<(usize, usize)>,
    ) -> Option<bool> {
        Some(match (r, q) {
            (None, None) => *v == *w,
            (None, Some((c, d))) => *v == w.slice(c..d),
            (Some((a, b)), None) => v.slice(a..b) == *w,
            (Some((a, b)), Some((c, d))) => v.slice(a..b) == w.slice(c..d),
        })
    }
    fn eq_rev(
        w: &ConcurrentVec<T>,
        q: Option<(usize, usize)>,
        v: &ConcurrentVec<T, Self>,
        r: Option<(usize, usize)>,
    ) -> Option<bool> {
        Self::eq_vec(w, q, v, r)
    }
    fn eq_same(v: &ConcurrentVec<T, Self>, r: Option<(usize, usize)>, q: Option<(usize, usize)>) -> Option<bool> {
        Self::eq_vec(v, r, v, q)
    }
}

impl<T: Elem> Store<T> for SplitVec<ConcurrentElement<T>, Linear> {
    fn make(s: Sk) -> ConcurrentVec<T, Self> {
        match s {
            Sk::Linear(e, f) => ConcurrentVec::with_linear_growth(e as usize, f as usize),
            _ => unreachable!(),
        }
    }
    fn pinned(s: Sk) -> Self {
        match s {
            Sk::Linear(e, f) => SplitVec::with_linear_growth_and_fragments_capacity(e as usize, f as usize),
            _ => unreachable!(),
        }
    }
}

impl<T: Elem> Store<T> for FixedVec<ConcurrentElement<T>> {
    fn make(s: Sk) -> ConcurrentVec<T, Self> {
        match s {
            Sk::Fixed(n) => ConcurrentVec::with_fixed_capacity(n as usize),
            _ => unreachable!(),
        }
    }
    fn pinned(s: Sk) -> Self {
        match s {
            Sk::Fixed(n) => FixedVec::new(n as usize),
            _ => unreachable!(),
        }
    }
}

pub fn pinned_ids<T: Elem, P: PinnedVec<ConcurrentElement<T>>>(p: &P) -> Vec<u32> {
    let mut out = Vec::new();
    for e in p.iter() {
        out.push(e.map(|x| x.id()));
    }
    out
}
