//! The value types stored in the vectors under test. They log every clone, comparison and format the
//! vector runs, can panic there, notice torn or damaged values, and are counted from birth to drop.
use std::fmt;
use std::panic::resume_unwind;
use vsim_oracle::hist::{irreflexive, inst_drop, inst_new, uev, violate, Ek2, PROBE};
use vsim_rt::sched::{self, set_active, Pk};

pub struct Injected;

pub fn boom() -> ! {
    resume_unwind(Box::new(Injected))
}

/// a user hook: a scheduling point which may panic
#[inline(never)]
pub fn hook(k: Ek2, a: u32, b: u32) {
    if uev(k, a, b) {
        boom()
    }
}

/// a scheduling point inside user code which never panics
pub fn pause() {
    if sched::is_active() {
        sched::point(Pk::Callback);
    }
}

pub trait Elem: Clone + PartialEq + fmt::Debug + Send + Sync + 'static {
    const COUNTED: bool;
    fn mk(id: u32) -> Self;
    /// the id, checked for damage
    fn id(&self) -> u32;
    /// changes the value in place, piece by piece
    fn mutate(&mut self, id: u32);
    /// a bitwise copy of types that allow it
    fn copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> Self {
        e.cloned()
    }
    fn get_copied<P>(v: &orx_concurrent_vec::ConcurrentVec<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_cloned(i)
    }
    fn slice_get_copied<P>(v: &orx_concurrent_vec::ConcurrentSlice<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_cloned(i)
    }
}

pub fn probe<T: Elem>(id: u32) -> T {
    let a = set_active(true);
    sched::noyield(1);
    let t = T::mk(id | PROBE);
    sched::noyield(-1);
    set_active(a);
    t
}
pub fn make<T: Elem>(id: u32) -> T {
    let a = set_active(true);
    sched::noyield(1);
    let t = T::mk(id);
    sched::noyield(-1);
    set_active(a);
    t
}

/// something an iterator or a callback owns: it has to be dropped exactly once like any value
pub struct Guard(u32, u32);
impl Guard {
    pub fn new(id: u32) -> Self {
        Guard(inst_new(id | PROBE), id | PROBE)
    }
    pub fn touch(&self) {}
}
impl Drop for Guard {
    fn drop(&mut self) {
        inst_drop(self.0, self.1);
    }
}

#[cold]
fn torn(what: &str, a: u64, b: u64) -> ! {
    set_active(false);
    violate("torn", format!("a {what} value with parts of different writes is seen ({a:#x} and {b:#x})"))
}

// ---- a value that owns memory ----

pub struct Tok {
    id: u32,
    inst: u32,
    heap: Box<u64>,
}

impl Elem for Tok {
    const COUNTED: bool = true;
    fn mk(id: u32) -> Self {
        let inst = inst_new(id);
        Tok { id, inst, heap: Box::new(((id as u64) << 32) | inst as u64) }
    }
    fn id(&self) -> u32 {
        let h = *self.heap;
        let i = self.id;
        let n = self.inst;
        if (h >> 32) as u32 != i || h as u32 != n {
            torn("heap-owning", ((i as u64) << 32) | n as u64, h);
        }
        i
    }
    fn mutate(&mut self, id: u32) {
        // a new owned part, then the rest: a reader in between sees a mix
        let inst = inst_new(id);
        let (oid, oinst) = (self.id, self.inst);
        let old = std::mem::replace(&mut self.heap, Box::new(((id as u64) << 32) | inst as u64));
        pause();
        self.id = id;
        self.inst = inst;
        drop(old);
        inst_drop(oinst, oid);
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        pause();
        let (i, n) = (self.id, self.inst);
        let h = *self.heap;
        if (h >> 32) as u32 != i || h as u32 != n {
            torn("dropped", ((i as u64) << 32) | n as u64, h);
        }
        inst_drop(n, i);
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        let i = self.id();
        hook(Ek2::Clone, i, 0);
        let t = Tok::mk(i);
        if self.id() != i {
            torn("cloned", i as u64, self.id() as u64);
        }
        t
    }
}

fn eq_ids<T: Elem>(a: &T, b: &T) -> bool {
    let (x, y) = (a.id(), b.id());
    hook(Ek2::Eq, x, y);
    let (x2, y2) = (a.id(), b.id());
    if x2 != x {
        torn("compared", x as u64, x2 as u64);
    }
    if y2 != y {
        torn("compared", y as u64, y2 as u64);
    }
    x & !PROBE == y & !PROBE && !irreflexive(x & !PROBE)
}

impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        eq_ids(self, o)
    }
}

fn fmt_id<T: Elem>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let i = t.id();
    hook(Ek2::Debug, i, 0);
    let r = write!(f, "{}", i);
    if t.id() != i {
        torn("formatted", i as u64, t.id() as u64);
    }
    r
}

impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt_id(self, f)
    }
}

// ---- a wide plain value ----

#[derive(Copy)]
pub struct Wide([u64; 4]);

fn word(id: u32, k: u64) -> u64 {
    ((id as u64) << 32) | (id as u64).wrapping_mul(2654435761).wrapping_add(k * 0x1357) & 0xffff_ffff
}

impl Elem for Wide {
    const COUNTED: bool = false;
    fn mk(id: u32) -> Self {
        Wide([word(id, 0), word(id, 1), word(id, 2), word(id, 3)])
    }
    fn id(&self) -> u32 {
        let w0 = self.0[0];
        let id = (w0 >> 32) as u32;
        let mut k = 0;
        while k < 4 {
            let w = self.0[k as usize];
            if w != word(id, k) {
                torn("wide", w0, w);
            }
            k += 1;
        }
        id
    }
    fn mutate(&mut self, id: u32) {
        self.0[0] = word(id, 0);
        self.0[1] = word(id, 1);
        pause();
        self.0[2] = word(id, 2);
        self.0[3] = word(id, 3);
    }
    fn copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> Self {
        e.copied()
    }
    fn get_copied<P>(v: &orx_concurrent_vec::ConcurrentVec<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_copied(i)
    }
    fn slice_get_copied<P>(v: &orx_concurrent_vec::ConcurrentSlice<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_copied(i)
    }
}

#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Wide {
    fn clone(&self) -> Self {
        let i = self.id();
        hook(Ek2::Clone, i, 0);
        let w = Wide(self.0);
        if w.id() != i {
            torn("cloned", i as u64, w.id() as u64);
        }
        w
    }
}
impl PartialEq for Wide {
    fn eq(&self, o: &Self) -> bool {
        eq_ids(self, o)
    }
}
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt_id(self, f)
    }
}

// ---- a small plain value ----

#[derive(Copy)]
pub struct Small(u32);

impl Elem for Small {
    const COUNTED: bool = false;
    fn mk(id: u32) -> Self {
        Small(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn mutate(&mut self, id: u32) {
        self.0 = id;
        pause();
    }
    fn copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> Self {
        e.copied()
    }
    fn get_copied<P>(v: &orx_concurrent_vec::ConcurrentVec<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_copied(i)
    }
    fn slice_get_copied<P>(v: &orx_concurrent_vec::ConcurrentSlice<Self, P>, i: usize) -> Option<Self>
    where
        P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Self>>,
    {
        v.get_copied(i)
    }
}

#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Small {
    fn clone(&self) -> Self {
        let i = self.id();
        hook(Ek2::Clone, i, 0);
        let s = Small(self.0);
        if s.0 != i {
            torn("cloned", i as u64, s.0 as u64);
        }
        s
    }
}
impl PartialEq for Small {
    fn eq(&self, o: &Self) -> bool {
        eq_ids(self, o)
    }
}
impl fmt::Debug for Small {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt_id(self, f)
    }
}
