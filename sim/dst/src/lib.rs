//! vsim_dst: the interpreter that runs scenarios against the real vector. This crate is compiled
//! with the same instrumentation as the code under test.
#![allow(static_mut_refs)]
mod elem;
mod interp;
mod store;
mod world;

use elem::{Small, Tok, Wide};
use orx_concurrent_vec::{ConcurrentElement, Doubling, FixedVec, Linear, SplitVec};
use vsim_oracle::scn::{Ek, Scn, Sk};

type D<T> = SplitVec<ConcurrentElement<T>, Doubling>;
type L<T> = SplitVec<ConcurrentElement<T>, Linear>;
type F<T> = FixedVec<ConcurrentElement<T>>;

/// runs one scenario; called on the main fiber
pub fn exec(s: &Scn) {
    match (s.elem, s.store) {
        (Ek::Tok, Sk::Doubling | Sk::Few(_)) => world::run::<Tok, D<Tok>>(s),
        (Ek::Tok, Sk::Linear(..)) => world::run::<Tok, L<Tok>>(s),
        (Ek::Tok, Sk::Fixed(_)) => world::run::<Tok, F<Tok>>(s),
        (Ek::Wide, Sk::Doubling | Sk::Few(_)) => world::run::<Wide, D<Wide>>(s),
        (Ek::Wide, Sk::Linear(..)) => world::run::<Wide, L<Wide>>(s),
        (Ek::Wide, Sk::Fixed(_)) => world::run::<Wide, F<Wide>>(s),
        (Ek::Small, _) => world::run::<Small, D<Small>>(s),
    }
}
