//! Scenario description and its text form (the replay file).
use vsim_rt::sched::{Dec, Stall};

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum K { $($k),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$k),*];
            pub fn name(self) -> &'static str { match self { $(K::$k => stringify!($k)),* } }
            pub fn parse(s: &str) -> Option<K> { match s { $(stringify!($k) => Some(K::$k),)* _ => None } }
        }
    }
}

kinds!(
    // growth: n = number of items, id = first value id, k = reentrancy bits
    Push, PushIdx, Ext, ExtIdx, ExtN,
    // queries
    Len, Empty, Cap, MaxCap,
    // handles, slices, parts of the whole vector, without looking at values: k: which, a: position
    Look,
    // element operations: a = position, k = access path
    EClone, ECopy, EMap, EEqVal, EDebug, EReplace, ESet, EUpdate,
    // a = position; k: 0 get_cloned 1 get_copied 2 slice get_cloned 3 slice get_copied
    GetCloned,
    // a, b; k: 0 vec, 1 slice
    Swap,
    // element == element: a in v, b in vec n; k: path
    EEq,
    // range a..b; k: 0 vec (all), 1 slice
    Fill, FillWith,
    // traversals, range a..b for k&1 == 1 (slice), else the vector
    TIter, TIterCloned, TMap, TFilter, TFold, TReduce, TCloneToVec, TDebug, TClone,
    // id = value searched, range as for traversals
    IndexOf, Contains,
    // compare with an array: n: variant
    EqArr,
    // compare vectors/slices: v against n; k: 0 vv 1 vs 2 sv 3 ss
    EqVec,
    // direct references: a = position (or range for IterRef); k&1 = slice
    GetRef, GetRaw, GetRawMut, IterRef, GetMut, IterMut,
    // slices
    HoldSlice, HoldIter, SplitAt, SplitFirst, SplitLast, Chunks, SubSlice,
    // harness synchronisation on slot a
    Sync,
    // only from the main thread, between phases
    Clear, Reserve, Rebuild, Shrink,
    // endings: n = how many values are taken
    FDrop, FToVec, FIntoIter, FIntoInner,
);

impl K {
    pub fn is_growth(self) -> bool {
        matches!(self, K::Push | K::PushIdx | K::Ext | K::ExtIdx | K::ExtN)
    }
    pub fn is_update(self) -> bool {
        matches!(
            self,
            K::EReplace | K::ESet | K::EUpdate | K::Swap | K::Fill | K::FillWith | K::GetMut | K::IterMut
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub code: K,
    pub v: u8,
    pub a: u32,
    pub b: u32,
    pub n: u64,
    pub k: u32,
    pub id: u32,
    /// fault: 0 none, 1 user code panics at its `fa`-th call, 5 iterator short by fa, 6 long by fa,
    /// 7 reported length differs from the real one
    pub fk: u8,
    pub fa: u32,
}

impl Op {
    pub fn new(code: K) -> Op {
        Op { code, v: 0, a: 0, b: 0, n: 0, k: 0, id: 0, fk: 0, fa: 0 }
    }
    /// how many positions a growth operation asks for
    pub fn grow_n(&self) -> u64 {
        match self.code {
            K::Push | K::PushIdx => 1,
            _ => self.n,
        }
    }
    /// growth inside a callback: which call (bits 12 to 14 of k)
    pub fn nested_growth(&self) -> K {
        [K::Push, K::PushIdx, K::ExtIdx, K::ExtN, K::Ext, K::Push, K::PushIdx, K::Push][(self.k >> 12 & 7) as usize]
    }
    pub fn nested_n(&self) -> u64 {
        match self.nested_growth() {
            K::Push | K::PushIdx => 0,
            _ => 2,
        }
    }
    /// how many positions the growth inside a callback asks for
    pub fn nested_demand(&self) -> u64 {
        match self.k >> 8 & 1 {
            0 => 0,
            _ => self.nested_n().max(1),
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!("{}", self.code.name());
        if self.v != 0 { s += &format!(" v={}", self.v); }
        if self.a != 0 { s += &format!(" a={}", self.a); }
        if self.b != 0 { s += &format!(" b={}", self.b); }
        if self.n != 0 { s += &format!(" n={}", self.n); }
        if self.k != 0 { s += &format!(" k={}", self.k); }
        if self.id != 0 { s += &format!(" id={}", self.id); }
        if self.fk != 0 { s += &format!(" fk={}", self.fk); }
        if self.fa != 0 { s += &format!(" fa={}", self.fa); }
        s
    }
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let mut op = Op::new(K::parse(it.next()?)?);
        for p in it {
            let (k, v) = p.split_once('=')?;
            match k {
                "v" => op.v = v.parse().ok()?,
                "a" => op.a = v.parse().ok()?,
                "b" => op.b = v.parse().ok()?,
                "n" => op.n = v.parse().ok()?,
                "k" => op.k = v.parse().ok()?,
                "id" => op.id = v.parse().ok()?,
                "fk" => op.fk = v.parse().ok()?,
                "fa" => op.fa = v.parse().ok()?,
                _ => return None,
            }
        }
        Some(op)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ek {
    Tok,
    Wide,
    Small,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sk {
    Doubling,
    /// doubling, with room for so many fragments
    Few(u32),
    Linear(u32, u32),
    Fixed(u32),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Phase {
    pub threads: Vec<Vec<Op>>,
    pub after: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub elem: Ek,
    pub store: Sk,
    pub init: Vec<u32>, // initial number of elements per vector (1 or 2 entries)
    pub weak: bool,
    pub strict_freeze: bool,
    pub audit: u32, // bits choosing what the quiescent audits look at
    pub phases: Vec<Phase>,
    pub fin: Op,
    pub stalls: Vec<Stall>,
    pub plain_mean: u64,
    /// how long threads wait for a stalled one before it is resumed (0: the usual time)
    pub patience: u32,
    /// where the allocator puts blocks: 0 upwards, 1 downwards, else pseudo-randomly either
    pub layout: u32,
    /// how the vectors get their first content: 0 by growth, 1 from a filled storage, 2 3 collected (Doubling only)
    pub birth: u32,
}

impl Scn {
    pub fn patience(&self) -> u64 {
        match self.patience {
            0 => 2000,
            n => n as u64,
        }
    }
    pub fn n_ops(&self) -> usize {
        self.phases
            .iter()
            .map(|p| p.threads.iter().map(|t| t.len()).sum::<usize>() + p.after.len())
            .sum::<usize>()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        s += &format!("property {}\n", self.prop);
        s += &format!("elem {:?}\n", self.elem);
        s += &match self.store {
            Sk::Doubling => "store Doubling\n".to_string(),
            Sk::Few(n) => format!("store Few {n}\n"),
            Sk::Linear(e, f) => format!("store Linear {e} {f}\n"),
            Sk::Fixed(n) => format!("store Fixed {n}\n"),
        };
        s += "init";
        for i in &self.init {
            s += &format!(" {i}");
        }
        s += "\n";
        s += &format!(
            "memory {}\n",
            if self.weak { "weak" } else { "sc" }
        );
        if self.strict_freeze {
            s += "strict_freeze\n";
        }
        s += &format!("audit {}\n", self.audit);
        s += &format!("plain_mean {}\n", self.plain_mean);
        if self.patience != 0 {
            s += &format!("patience {}\n", self.patience);
        }
        if self.layout != 0 {
            s += &format!("layout {}\n", self.layout);
        }
        if self.birth != 0 {
            s += &format!("birth {}\n", self.birth);
        }
        for x in &self.stalls {
            s += &format!("stall {} {} {} {}\n", x.phase, x.tid, x.at, x.len);
        }
        for p in &self.phases {
            s += "phase\n";
            for t in &p.threads {
                s += " thread\n";
                for o in t {
                    s += &format!("  op {}\n", o.text());
                }
            }
            for o in &p.after {
                s += &format!(" after {}\n", o.text());
            }
        }
        s += &format!("final {}\n", self.fin.text());
        s
    }
}

#[derive(Clone, Debug)]
pub struct Replay {
    pub scn: Scn,
    pub decs: Vec<Dec>,
    pub seed: u64,
    pub kind: String,
    pub msg: String,
}

impl Replay {
    pub fn text(&self) -> String {
        let mut s = String::new();
        s += "# replay file of the orx-concurrent-vec simulator; run with: bash /verif/check.sh replay <this file>\n";
        s += &format!("kind {}\n", self.kind);
        s += &format!("message {}\n", self.msg.replace('\n', " "));
        s += &format!("seed {}\n", self.seed);
        s += &self.scn.text();
        for d in &self.decs {
            s += &match d.kind {
                0 => format!("switch choice={} to={}\n", d.at, d.val),
                1 => format!("stale op={} age={}\n", d.at, d.val),
                _ => format!("spurious op={} n={}\n", d.at, d.val),
            };
        }
        s
    }
    pub fn parse(t: &str) -> Option<Replay> {
        let mut scn = Scn {
            prop: String::new(),
            elem: Ek::Tok,
            store: Sk::Doubling,
            init: vec![],
            weak: false,
            strict_freeze: false,
            audit: 0,
            phases: vec![],
            fin: Op::new(K::FDrop),
            stalls: vec![],
            plain_mean: 0,
            patience: 0,
            layout: 0,
            birth: 0,
        };
        let mut decs = vec![];
        let (mut seed, mut kind, mut msg) = (0, String::new(), String::new());
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            let nums = || -> Vec<u64> {
                rest.split(|c: char| !c.is_ascii_digit())
                    .filter(|x| !x.is_empty())
                    .filter_map(|x| x.parse().ok())
                    .collect()
            };
            match w {
                "kind" => kind = rest.into(),
                "message" => msg = rest.into(),
                "seed" => seed = rest.parse().ok()?,
                "property" => scn.prop = rest.into(),
                "elem" => {
                    scn.elem = match rest {
                        "Tok" => Ek::Tok,
                        "Wide" => Ek::Wide,
                        _ => Ek::Small,
                    }
                }
                "store" => {
                    let n = nums();
                    scn.store = if rest.starts_with('D') {
                        Sk::Doubling
                    } else if rest.starts_with('L') {
                        Sk::Linear(n[0] as u32, n[1] as u32)
                    } else if rest.starts_with("Few") {
                        Sk::Few(n[0] as u32)
                    } else {
                        Sk::Fixed(n[0] as u32)
                    }
                }
                "init" => scn.init = nums().iter().map(|x| *x as u32).collect(),
                "memory" => scn.weak = rest == "weak",
                "strict_freeze" => scn.strict_freeze = true,
                "audit" => scn.audit = rest.parse().ok()?,
                "patience" => scn.patience = rest.parse().ok()?,
                "layout" => scn.layout = rest.parse().ok()?,
                "birth" => scn.birth = rest.parse().ok()?,
                "plain_mean" => scn.plain_mean = rest.parse().ok()?,
                "stall" => {
                    let n = nums();
                    scn.stalls.push(Stall {
                        phase: n[0] as u32,
                        tid: n[1] as u8,
                        at: n[2] as u32,
                        len: n[3] as u32,
                    })
                }
                "phase" => scn.phases.push(Phase::default()),
                "thread" => scn.phases.last_mut()?.threads.push(vec![]),
                "op" => scn.phases.last_mut()?.threads.last_mut()?.push(Op::parse(rest)?),
                "after" => scn.phases.last_mut()?.after.push(Op::parse(rest)?),
                "final" => scn.fin = Op::parse(rest)?,
                "switch" | "stale" | "spurious" => {
                    let n = nums();
                    decs.push(Dec {
                        kind: match w {
                            "switch" => 0,
                            "stale" => 1,
                            _ => 2,
                        },
                        at: n[0],
                        val: n[1] as u32,
                    })
                }
                _ => return None,
            }
        }
        Some(Replay { scn, decs, seed, kind, msg })
    }
}
