//! The campaign: seeded runs spread over worker processes, minimisation, replay files, evidence.
use crate::gen;
use crate::hist::{self, h, Cover};
use crate::scn::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;
use vsim_rt::rng::Rng;
use vsim_rt::sched::{self, Cfg, Dec, Outcome, Stats, Strat};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn usleep(us: u32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
    fn signal(sig: i32, f: usize) -> usize;
}

const WORKERS: usize = 8;
const HANG_S: u64 = 60;
const DEC_WORDS: usize = 65_536;

/// memory shared by the parent and its workers
struct Shared {
    p: *mut u64,
}
impl Shared {
    fn new() -> Shared {
        let words = 64 + WORKERS * DEC_WORDS;
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { vsim_rt::ctx::mmap(0, words * 8, 3, 0x01 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize > 0, "mmap");
        let s = Shared { p: p as *mut u64 };
        s.set_best(u64::MAX);
        s
    }
    fn best(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.p) }
    }
    fn set_best(&self, v: u64) {
        unsafe { std::ptr::write_volatile(self.p, v) }
    }
    fn min_best(&self, v: u64) {
        let a = unsafe { &*(self.p as *const std::sync::atomic::AtomicU64) };
        a.fetch_min(v, std::sync::atomic::Ordering::SeqCst);
    }
    fn heart(&self, w: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(1 + w)) }
    }
    fn set_heart(&self, w: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.p.add(1 + w), v) }
    }
    fn decs(&self, w: usize) -> *mut u64 {
        unsafe { self.p.add(64 + w * DEC_WORDS) }
    }
    fn read_decs(&self, w: usize) -> Vec<Dec> {
        let p = self.decs(w);
        unsafe {
            let n = *p as usize;
            (0..n.min(60_000))
                .map(|i| {
                    let x = *p.add(1 + i);
                    Dec {
                        kind: (x >> 60) as u8,
                        at: (x >> 16) & ((1 << 44) - 1),
                        val: (x & 0xffff) as u32,
                    }
                })
                .collect()
        }
    }
}

pub type Exec = fn(&Scn);

fn run_one(exec: Exec, scn: &Scn, cfg: Cfg) -> Outcome {
    hist::reset(scn.weak);
    let s = scn.clone();
    sched::run(cfg, Box::new(move || exec(&s)))
}

fn replay_cfg(scn: &Scn, decs: Vec<Dec>, trace: bool) -> Cfg {
    Cfg {
        seed: 1,
        weak: scn.weak,
        stale_den: 1,
        race_fatal: gen::owns(&scn.prop, "race"),
        strict_freeze: scn.strict_freeze,
        strat: Strat::Calm,
        plain_mean: scn.plain_mean,
        layout: scn.layout,
        boundary_den: 0,
        replay: Some(decs),
        stalls: scn.stalls.clone(),
        patience: scn.patience(),
        trace,
    }
}

fn hash(s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x
}

fn prewarm() {
    sched::install_panic_hook();
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(|| panic!("warm"));
    }
    let _ = std::env::var("RUST_BACKTRACE");
    let _ = h();
}

#[derive(Default)]
struct Sum {
    runs: u64,
    nontrivial: u64,
    cover: Cover,
    stats: Stats,
    others: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    scheds: Vec<u64>,
    strat: BTreeMap<String, u64>,
    weak: u64,
    stores: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
}

fn add_stats(a: &mut Stats, b: &Stats) {
    a.steps += b.steps;
    a.switches += b.switches;
    a.preempts += b.preempts;
    a.stale_reads += b.stale_reads;
    a.spurious += b.spurious;
    a.stalls += b.stalls;
    a.freezes += b.freezes;
    a.heals += b.heals;
    a.spins += b.spins;
    a.accesses += b.accesses;
    a.atomics += b.atomics;
    a.allocs += b.allocs;
    a.races += b.races;
}

const STAT_NAMES: [&str; 13] = [
    "steps", "switches", "preempts", "stale_reads", "spurious", "stalls", "freezes", "heals", "spins",
    "accesses", "atomics", "allocs", "races",
];
fn stat_fields(s: &mut Stats) -> [&mut u64; 13] {
    [
        &mut s.steps,
        &mut s.switches,
        &mut s.preempts,
        &mut s.stale_reads,
        &mut s.spurious,
        &mut s.stalls,
        &mut s.freezes,
        &mut s.heals,
        &mut s.spins,
        &mut s.accesses,
        &mut s.atomics,
        &mut s.allocs,
        &mut s.races,
    ]
}

impl Sum {
    fn text(&mut self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "runs {}", self.runs);
        let _ = writeln!(s, "nontrivial {}", self.nontrivial);
        let _ = writeln!(s, "weak {}", self.weak);
        for (k, v) in self.cover.fields() {
            let _ = writeln!(s, "cover:{k} {v}");
        }
        for (k, v) in STAT_NAMES.iter().zip(stat_fields(&mut self.stats)) {
            let _ = writeln!(s, "stat:{k} {v}");
        }
        for (p, m) in [("other", &self.others), ("strat", &self.strat), ("store", &self.stores), ("fired", &self.fired)] {
            for (k, v) in m {
                let _ = writeln!(s, "{p}:{k} {v}");
            }
        }
        s
    }
}

struct Job<'a> {
    prop: &'a str,
    base: u64,
    runs: u64,
    exec: Exec,
    dir: PathBuf,
    others_dir: PathBuf,
}

fn strat_name(s: &Strat) -> &'static str {
    match s {
        Strat::Calm => "calm",
        Strat::Random { .. } => "random",
        Strat::AfterWrite { .. } => "after_write",
        Strat::Pct { .. } => "pct",
        Strat::RoundRobin => "round_robin",
    }
}

/// runs indices from `start`; ends the process
fn worker(job: &Job, sh: &Shared, w: usize, start: u64, gen_no: u32, deadline: Instant) -> ! {
    let mut sum = Sum::default();
    let mut next = start;
    let mut restart = false;
    let mut stopped = false;
    while next < job.runs {
        if next > sh.best() {
            break;
        }
        if Instant::now() > deadline {
            stopped = true;
            break;
        }
        sh.set_heart(w, next);
        let seed = gen::run_seed(job.base, job.prop, next);
        let (scn, cfg) = gen::gen(job.prop, seed);
        let text = scn.text();
        *sum.strat.entry(strat_name(&cfg.strat).into()).or_default() += 1;
        let sk = text.lines().find(|l| l.starts_with("store")).unwrap_or("");
        let sk: String = sk.split(' ').take(2).collect::<Vec<_>>().join("_");
        *sum.stores.entry(format!("{:?}_{}", scn.elem, sk)).or_default() += 1;
        sum.weak += scn.weak as u64;
        sched::rt().shared_decs = sh.decs(w);
        let out = run_one(job.exec, &scn, cfg);
        sum.runs += 1;
        add_stats(&mut sum.stats, &out.stats);
        sum.cover.add(&h().cover);
        if out.stats.switches > 0 && h().cover.concurrent_pairs > 0 {
            sum.nontrivial += 1;
            sum.hashes.push(hash(&text) ^ out.stats.sched_hash);
            sum.scheds.push(out.stats.sched_hash);
        }
        for r in &h().recs {
            if r.fired {
                *sum.fired.entry(format!("user_panic_in_{}", r.op.code.name())).or_default() += 1;
            }
        }
        let idx = next;
        next += WORKERS as u64;
        if let Some((kind, msg)) = out.fail {
            let rep = Replay { scn, decs: out.decs, seed, kind: kind.into(), msg };
            if gen::owns(job.prop, kind) || kind == "harness" {
                let _ = std::fs::write(job.dir.join(format!("viol-{idx}")), rep.text());
                sh.min_best(idx);
                break;
            }
            let n = sum.others.entry(kind.into()).or_default();
            *n += 1;
            let f = job.others_dir.join(format!("{}-{}.replay", job.prop, kind));
            if *n == 1 && !f.exists() {
                let _ = std::fs::write(f, rep.text());
            }
            // stacks were abandoned: go on in a fresh process
            restart = true;
            break;
        }
    }
    let name = job.dir.join(format!("sum-{w}-{gen_no}"));
    let _ = std::fs::write(&name, sum.text());
    let bytes = |v: &Vec<u64>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let _ = std::fs::write(job.dir.join(format!("hash-{w}-{gen_no}")), bytes(&sum.hashes));
    let _ = std::fs::write(job.dir.join(format!("sched-{w}-{gen_no}")), bytes(&sum.scheds));
    sh.set_heart(w, if restart { next } else { u64::MAX });
    unsafe { _exit(if restart { 3 } else if stopped { 4 } else { 0 }) }
}

fn spawn(f: impl FnOnce()) -> i32 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let parent = unsafe { getpid() };
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the parent
            let _ = parent;
        }
        f();
        unsafe { _exit(0) }
    }
    pid
}

struct Campaign {
    sum: Sum,
    distinct: u64,
    distinct_scheds: u64,
    viol: Option<(u64, Replay)>,
    cut: bool,
    wall: f64,
}

fn campaign(job: &Job, cap_s: u64) -> Campaign {
    let sh = Shared::new();
    let t0 = Instant::now();
    let deadline = t0 + std::time::Duration::from_secs(cap_s);
    let mut pids = vec![0i32; WORKERS];
    let mut gens = vec![0u32; WORKERS];
    let mut beat = vec![(0u64, Instant::now()); WORKERS];
    let mut cut = false;
    let start = |w: usize, from: u64, g: u32| -> i32 { spawn(|| worker(job, &sh, w, from, g, deadline)) };
    for w in 0..WORKERS {
        sh.set_heart(w, w as u64);
        pids[w] = start(w, w as u64, 0);
    }
    let mut left = WORKERS;
    while left > 0 {
        let mut any = false;
        for w in 0..WORKERS {
            if pids[w] == 0 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { waitpid(pids[w], &mut st, 1) };
            let hb = sh.heart(w);
            if r == 0 {
                if hb != beat[w].0 {
                    beat[w] = (hb, Instant::now());
                } else if beat[w].1.elapsed().as_secs() > HANG_S {
                    unsafe {
                        kill(pids[w], 9);
                        waitpid(pids[w], &mut st, 0);
                    }
                    save_crash(job, &sh, w, hb, "hang", "one run does not end".to_string());
                    pids[w] = 0;
                    left -= 1;
                }
                continue;
            }
            any = true;
            let sig = st & 0x7f;
            let code = (st >> 8) & 0xff;
            if sig == 0 && code == 3 {
                gens[w] += 1;
                beat[w] = (hb, Instant::now());
                pids[w] = start(w, hb, gens[w]);
                continue;
            }
            if sig != 0 {
                save_crash(job, &sh, w, hb, "crash", format!("the process died of signal {sig}"));
            } else if code == 4 {
                cut = true;
            } else if code != 0 {
                save_crash(job, &sh, w, hb, if code == 70 { "harness" } else { "crash" }, format!("the process exited with {code}"));
            }
            pids[w] = 0;
            left -= 1;
        }
        if !any {
            unsafe { usleep(5000) };
        }
    }
    let mut sum = Sum::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut ss: HashSet<u64> = HashSet::new();
    if let Ok(rd) = std::fs::read_dir(&job.dir) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let data = std::fs::read(e.path()).unwrap_or_default();
            if n.starts_with("hash-") || n.starts_with("sched-") {
                let set = if n.starts_with("hash-") { &mut hs } else { &mut ss };
                for c in data.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            } else if n.starts_with("sum-") {
                let mut st = Stats::default();
                let t = String::from_utf8_lossy(&data).to_string();
                for l in t.lines() {
                    let Some((k, v)) = l.rsplit_once(' ') else { continue };
                    let v: u64 = v.parse().unwrap_or(0);
                    match k.split_once(':') {
                        None if k == "runs" => sum.runs += v,
                        None if k == "nontrivial" => sum.nontrivial += v,
                        None if k == "weak" => sum.weak += v,
                        Some(("stat", k)) => {
                            let i = STAT_NAMES.iter().position(|x| *x == k).unwrap();
                            *stat_fields(&mut st)[i] += v;
                        }
                        Some(("cover", k)) => *sum.fired.entry(format!("cover:{k}")).or_default() += v,
                        Some(("other", k)) => *sum.others.entry(k.into()).or_default() += v,
                        Some(("strat", k)) => *sum.strat.entry(k.into()).or_default() += v,
                        Some(("store", k)) => *sum.stores.entry(k.into()).or_default() += v,
                        Some(("fired", k)) => *sum.fired.entry(k.into()).or_default() += v,
                        _ => {}
                    }
                }
                add_stats(&mut sum.stats, &st);
            }
        }
    }
    let best = sh.best();
    let mut viol = None;
    if best != u64::MAX {
        let t = std::fs::read_to_string(job.dir.join(format!("viol-{best}"))).unwrap_or_default();
        match Replay::parse(&t) {
            Some(r) => viol = Some((best, r)),
            None => {
                eprintln!("vsim: cannot read the violation of run {best}");
                std::process::exit(2);
            }
        }
    }
    Campaign {
        sum,
        distinct: hs.len() as u64,
        distinct_scheds: ss.len() as u64,
        viol,
        cut,
        wall: t0.elapsed().as_secs_f64(),
    }
}

fn save_crash(job: &Job, sh: &Shared, w: usize, idx: u64, kind: &str, msg: String) {
    if idx == u64::MAX {
        return;
    }
    let seed = gen::run_seed(job.base, job.prop, idx);
    let (scn, _) = gen::gen(job.prop, seed);
    let rep = Replay { scn, decs: sh.read_decs(w), seed, kind: kind.into(), msg };
    let _ = std::fs::write(job.dir.join(format!("viol-{idx}")), rep.text());
    sh.min_best(idx);
}

// ---- minimisation ----

struct Mini<'a> {
    exec: Exec,
    dir: &'a Path,
    deadline: Instant,
    kind: String,
    sh: Shared,
    probes: u64,
}

#[derive(Clone)]
enum Mode {
    Replay(Vec<Dec>),
    /// first the given decisions, then that many fresh schedules
    Search(Vec<Dec>, u32),
}

impl<'a> Mini<'a> {
    /// evaluates candidates in parallel; the first in order that fails the same way wins
    fn first(&mut self, cands: &[(Scn, Mode)]) -> Option<(usize, Replay)> {
        let mut i = 0;
        while i < cands.len() {
            if Instant::now() > self.deadline {
                return None;
            }
            let n = (cands.len() - i).min(WORKERS);
            let mut pids = Vec::new();
            for w in 0..n {
                let (scn, mode) = &cands[i + w];
                let file = self.dir.join(format!("cand-{w}"));
                let _ = std::fs::remove_file(&file);
                let kind = self.kind.clone();
                let exec = self.exec;
                unsafe { *self.sh.decs(w) = 0 };
                self.sh.set_heart(w, 0);
                let sh = Shared { p: self.sh.p };
                pids.push(spawn(|| {
                    let tries: Vec<Option<u32>> = match mode {
                        Mode::Replay(_) => vec![None],
                        Mode::Search(_, n) => std::iter::once(None).chain((0..*n).map(Some)).collect(),
                    };
                    let ds = match mode {
                        Mode::Replay(d) | Mode::Search(d, _) => d.clone(),
                    };
                    for (ti, t) in tries.into_iter().enumerate() {
                        let cfg = match t {
                            None => replay_cfg(scn, ds.clone(), false),
                            Some(j) => {
                                let mut r = Rng::new(0x1234_5678 + j as u64);
                                let s = r.next();
                                gen::cfg_for(scn, &mut r, s)
                            }
                        };
                        let replayed = cfg.replay.clone();
                        sh.set_heart(w, ti as u64);
                        sched::rt().shared_decs = sh.decs(w);
                        let out = run_one(exec, scn, cfg);
                        if let Some((k, msg)) = out.fail {
                            if k == kind {
                                let rep = Replay {
                                    scn: scn.clone(),
                                    decs: replayed.unwrap_or(out.decs),
                                    seed: 0,
                                    kind: k.into(),
                                    msg,
                                };
                                let _ = std::fs::write(&file, rep.text());
                                unsafe { _exit(1) }
                            }
                            // another kind of failure: this candidate is given up
                            unsafe { _exit(0) }
                        }
                    }
                }));
            }
            self.probes += n as u64;
            let t0 = Instant::now();
            let mut res: Vec<Option<i32>> = vec![None; n];
            while res.iter().any(|r| r.is_none()) {
                for w in 0..n {
                    if res[w].is_none() {
                        let mut st = 0;
                        let r = unsafe { waitpid(pids[w], &mut st, 1) };
                        if r != 0 {
                            res[w] = Some(st);
                        } else if t0.elapsed().as_secs() > 20 {
                            unsafe {
                                kill(pids[w], 9);
                                waitpid(pids[w], &mut st, 0);
                            }
                            res[w] = Some(1 << 20);
                        }
                    }
                }
                unsafe { usleep(500) };
            }
            for w in 0..n {
                let st = res[w].unwrap();
                if st == 1 << 20 {
                    if self.kind == "hang" {
                        return Some((i + w, self.dead(&cands[i + w], w)));
                    }
                    continue;
                }
                if st & 0x7f != 0 {
                    if self.kind == "crash" {
                        return Some((i + w, self.dead(&cands[i + w], w)));
                    }
                    continue;
                }
                if (st >> 8) & 0xff == 1 {
                    let t = std::fs::read_to_string(self.dir.join(format!("cand-{w}"))).unwrap_or_default();
                    if let Some(r) = Replay::parse(&t) {
                        return Some((i + w, r));
                    }
                }
            }
            i += n;
        }
        None
    }
    fn dead(&self, c: &(Scn, Mode), w: usize) -> Replay {
        let decs = match &c.1 {
            Mode::Replay(d) => d.clone(),
            Mode::Search(d, _) if self.sh.heart(w) == 0 => d.clone(),
            _ => self.sh.read_decs(w),
        };
        Replay {
            scn: c.0.clone(),
            decs,
            seed: 0,
            kind: self.kind.clone(),
            msg: if self.kind == "hang" { "the run does not end" } else { "the process died" }.into(),
        }
    }
}

fn drop_phase(s: &Scn, p: usize) -> Scn {
    let mut x = s.clone();
    x.phases.remove(p);
    x.stalls.retain(|t| t.phase as usize != p + 1);
    for t in x.stalls.iter_mut() {
        if t.phase as usize > p + 1 {
            t.phase -= 1;
        }
    }
    x
}
fn drop_thread(s: &Scn, p: usize, t: usize) -> Scn {
    let mut x = s.clone();
    x.phases[p].threads.remove(t);
    x.stalls.retain(|y| !(y.phase as usize == p + 1 && y.tid as usize == t + 1));
    for y in x.stalls.iter_mut() {
        if y.phase as usize == p + 1 && y.tid as usize > t + 1 {
            y.tid -= 1;
        }
    }
    x
}

fn structural(s: &Scn) -> Vec<Scn> {
    let mut out = Vec::new();
    if s.phases.len() > 1 {
        for p in 0..s.phases.len() {
            out.push(drop_phase(s, p));
        }
    }
    for p in 0..s.phases.len() {
        if s.phases[p].threads.len() > 1 {
            for t in 0..s.phases[p].threads.len() {
                if !(s.strict_freeze && t == 0) {
                    out.push(drop_thread(s, p, t));
                }
            }
        }
    }
    for p in 0..s.phases.len() {
        for t in 0..s.phases[p].threads.len() {
            let n = s.phases[p].threads[t].len();
            if n >= 4 {
                for (a, b) in [(0, n / 2), (n / 2, n)] {
                    let mut x = s.clone();
                    x.phases[p].threads[t].drain(a..b);
                    out.push(x);
                }
            }
            for o in 0..n {
                let mut x = s.clone();
                x.phases[p].threads[t].remove(o);
                out.push(x);
            }
        }
        for o in 0..s.phases[p].after.len() {
            let mut x = s.clone();
            x.phases[p].after.remove(o);
            out.push(x);
        }
    }
    if !s.strict_freeze {
        for k in 0..s.stalls.len() {
            let mut x = s.clone();
            x.stalls.remove(k);
            out.push(x);
        }
    }
    out
}

fn simplify(s: &Scn) -> Vec<Scn> {
    let mut out = Vec::new();
    let mut push = |x: Scn| {
        if x != *s {
            out.push(x)
        }
    };
    if s.weak {
        push(Scn { weak: false, ..s.clone() });
    }
    push(Scn { audit: 0, ..s.clone() });
    for b in 0..6 {
        push(Scn { audit: s.audit & !(1 << b), ..s.clone() });
    }
    push(Scn { fin: Op::new(K::FDrop), ..s.clone() });
    push(Scn { plain_mean: 0, ..s.clone() });
    push(Scn { layout: 0, ..s.clone() });
    push(Scn { patience: 0, ..s.clone() });
    if s.strict_freeze {
        return out;
    }
    let uses2 = s.phases.iter().any(|p| {
        p.threads.iter().flatten().chain(p.after.iter()).any(|o| {
            o.v == 1 || (matches!(o.code, K::EEq | K::EqVec) && o.n != 0)
        })
    });
    if s.init.len() > 1 && !uses2 {
        push(Scn { init: vec![s.init[0]], ..s.clone() });
    }
    for v in 0..s.init.len() {
        for to in [0, s.init[v] / 2, s.init[v].saturating_sub(1)] {
            let mut x = s.clone();
            x.init[v] = to;
            push(x);
        }
    }
    for p in 0..s.phases.len() {
        for t in 0..=s.phases[p].threads.len() {
            let n = if t < s.phases[p].threads.len() { s.phases[p].threads[t].len() } else { s.phases[p].after.len() };
            for o in 0..n {
                let edit = |f: &dyn Fn(&mut Op)| {
                    let mut x = s.clone();
                    if t < x.phases[p].threads.len() {
                        f(&mut x.phases[p].threads[t][o]);
                    } else {
                        f(&mut x.phases[p].after[o]);
                    }
                    x
                };
                push(edit(&|o| {
                    o.fk = 0;
                    o.fa = 0;
                }));
                push(edit(&|o| o.k &= 0xff));
                push(edit(&|o| o.k = 0));
                push(edit(&|o| if o.code.is_growth() && o.n > 1 { o.n = 1 }));
                push(edit(&|o| if o.code.is_growth() && o.n > 2 && o.n < 1 << 20 { o.n -= 1 }));
            }
        }
    }
    out
}

fn minimise(exec: Exec, rep: &Replay, dir: &Path, budget_s: u64) -> (Replay, u64) {
    let mut m = Mini {
        exec,
        dir,
        deadline: Instant::now() + std::time::Duration::from_secs(budget_s),
        kind: rep.kind.clone(),
        sh: Shared::new(),
        probes: 0,
    };
    let mut cur = rep.clone();
    let keep = |cur: &mut Replay, r: Replay| {
        cur.scn = r.scn;
        cur.decs = r.decs;
        cur.msg = r.msg;
    };
    for tries in [30u32, 200] {
        loop {
            let mut progress = false;
            for list in [structural(&cur.scn), simplify(&cur.scn)] {
                let c: Vec<(Scn, Mode)> =
                    list.into_iter().map(|s| (s, Mode::Search(cur.decs.clone(), tries))).collect();
                if let Some((_, r)) = m.first(&c) {
                    keep(&mut cur, r);
                    progress = true;
                    break;
                }
            }
            if !progress || Instant::now() > m.deadline {
                break;
            }
        }
    }
    // fewest decisions: look for a shorter schedule, then remove what is not needed
    m.deadline = m.deadline.max(Instant::now() + std::time::Duration::from_secs(6));
    let mut n = 2usize;
    while cur.decs.len() >= 1 {
        let len = cur.decs.len();
        let size = len.div_ceil(n).max(1);
        let mut c = Vec::new();
        if n == 2 {
            c.push((cur.scn.clone(), Mode::Replay(vec![])));
        }
        let mut i = 0;
        while i < len {
            let mut d = cur.decs.clone();
            d.drain(i..(i + size).min(len));
            c.push((cur.scn.clone(), Mode::Replay(d)));
            i += size;
        }
        match m.first(&c) {
            Some((_, r)) => {
                keep(&mut cur, r);
                n = n.saturating_sub(1).max(2);
            }
            None => {
                if size == 1 || Instant::now() > m.deadline {
                    break;
                }
                n = (n * 2).min(len);
            }
        }
    }
    (cur, m.probes)
}

/// runs a replay file in this process
fn do_replay(exec: Exec, path: &str, trace: bool) -> Result<(Replay, Outcome), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let r = Replay::parse(&t).ok_or(format!("{path}: not a replay file"))?;
    let out = run_one(exec, &r.scn, replay_cfg(&r.scn, r.decs.clone(), trace));
    Ok((r, out))
}

/// replays in a fresh process: kind and message of the violation
fn fresh_replay(path: &Path) -> (String, String) {
    let exe = std::env::current_exe().expect("exe");
    let mut ch = std::process::Command::new(exe)
        .arg("replay-raw")
        .arg(path)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            _ => {
                if t0.elapsed().as_secs() > 20 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return ("hang".into(), "the run does not end".into());
                }
                unsafe { usleep(2000) };
            }
        }
    };
    let mut s = String::new();
    use std::io::Read;
    let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
    if st.code().is_none() {
        return ("crash".into(), "the process died".into());
    }
    let mut kind = String::from("none");
    let mut msg = String::new();
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("kind ") {
            kind = x.into();
        }
        if let Some(x) = l.strip_prefix("message ") {
            msg = x.into();
        }
    }
    (kind, msg)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map<'x>(it: impl Iterator<Item = (String, String)> + 'x) -> String {
    let v: Vec<String> = it.map(|(k, v)| format!("{}: {}", json_str(&k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

struct Tier {
    name: &'static str,
    runs: u64,
    cap_s: u64,
    min_s: u64,
}

fn tier(prop: &str, t: &str) -> Tier {
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let mut r = if t == "thorough" {
        Tier { name: "thorough", runs: gen::quick_runs(prop) * 20, cap_s: 660, min_s: 60 }
    } else {
        Tier { name: "quick", runs: gen::quick_runs(prop), cap_s: 150, min_s: 40 }
    };
    if let Some(x) = env("VSIM_RUNS") {
        r.runs = x;
    }
    if let Some(x) = env("VSIM_CAP") {
        r.cap_s = x;
    }
    r
}

fn check(exec: Exec, prop: &str, tier_name: &str, verif: &Path, base: u64) -> i32 {
    let t0 = Instant::now();
    if !gen::PROPS.contains(&prop) {
        eprintln!("vsim: unknown property {prop}");
        return 2;
    }
    let tier = tier(prop, tier_name);
    let ev = verif.join("evidence");
    let dir = ev.join(format!(".scratch-{}-{}", prop, std::process::id()));
    let others_dir = ev.join("others");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(&others_dir);
    let _ = std::fs::create_dir_all(ev.join("replays"));
    println!("property={prop} tier={} VERIF_SEED={base} runs<={}", tier.name, tier.runs);
    let job = Job { prop, base, runs: tier.runs, exec, dir: dir.clone(), others_dir };
    let c = campaign(&job, tier.cap_s);
    let mut code = 0;
    let mut violations = 0;
    let mut lines = Vec::new();
    let mut mini_info = String::new();
    if let Some((idx, rep)) = &c.viol {
        if rep.kind == "harness" {
            let p = ev.join("replays").join(format!("{prop}-harness.replay"));
            let _ = std::fs::write(&p, rep.text());
            eprintln!("vsim: harness error in run {idx}: {} ({})", rep.msg, p.display());
            code = 2;
        } else {
            violations = 1;
            println!("run {idx} (seed {:#x}): {}: {}", rep.seed, rep.kind, rep.msg);
            let path = ev.join("replays").join(format!("{prop}-{:016x}.replay", rep.seed));
            let _ = std::fs::write(&path, rep.text());
            let r0 = fresh_replay(&path);
            if r0.0 != rep.kind {
                eprintln!(
                    "vsim: the violation does not replay: {} {} instead of {} {}",
                    r0.0, r0.1, rep.kind, rep.msg
                );
                code = 2;
            } else {
                let (mut best, probes) = minimise(exec, rep, &dir, tier.min_s);
                best.seed = rep.seed;
                let tmp = dir.join("final.replay");
                let _ = std::fs::write(&tmp, best.text());
                let a = fresh_replay(&tmp);
                let b = fresh_replay(&tmp);
                if a.0 == rep.kind && a == b {
                    best.msg = a.1.clone();
                    let _ = std::fs::write(&path, best.text());
                } else {
                    eprintln!("vsim: the minimised run does not replay; keeping the original one");
                    best = rep.clone();
                }
                println!("minimised to {} operations, {} decisions ({probes} candidates): {}", best.scn.n_ops(), best.decs.len(), best.msg);
                mini_info = format!("{} ops, {} decisions", best.scn.n_ops(), best.decs.len());
                for l in best.text().lines().skip(1) {
                    println!("  | {l}");
                }
                lines.push(format!("VIOLATION property={prop} replay={}", path.display()));
                code = 1;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = Vec::new();
    for i in 0..2u64 {
        let (s, cfg) = gen::gen(prop, gen::run_seed(base, prop, i));
        samples.push(json_str(&format!("run {i}, schedule {:?}:\n{}", cfg.strat, s.text())));
    }
    let s = &c.sum;
    let mut st = s.stats.clone();
    let stats: Vec<(String, u64)> =
        STAT_NAMES.iter().map(|x| x.to_string()).zip(stat_fields(&mut st).iter().map(|x| **x)).collect();
    let g = |k: &str| s.fired.get(&format!("cover:{k}")).copied().unwrap_or(0);
    let stalls: u64 = s.stats.stalls;
    let mut faults: Vec<(String, u64)> = vec![
        ("thread_stalls".into(), stalls),
        ("thread_freezes_until_others_are_done".into(), s.stats.freezes),
        ("stale_relaxed_reads".into(), s.stats.stale_reads),
        ("failed_compare_exchanges".into(), s.stats.spurious),
        ("user_panics".into(), g("injected_panics_fired")),
        ("growth_refused_for_lack_of_room".into(), g("refused_growth_calls")),
        ("iterators_ending_early".into(), g("short_iterators")),
        ("iterators_with_too_many_items".into(), g("long_iterators")),
        ("iterators_misreporting_their_length".into(), g("lying_lengths")),
        ("absurdly_large_growth_calls".into(), g("oversized_growth_calls")),
        ("preemptions".into(), s.stats.preempts),
    ];
    for (k, v) in &s.fired {
        if !k.starts_with("cover:") {
            faults.push((k.clone(), *v));
        }
    }
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \
         \"distinct_schedules\": {},\n  \"runs_per_hour\": {},\n  \"simulated_steps\": {},\n  \"simulator\": {},\n  \
         \"faults_fired\": {},\n  \"observed\": {},\n  \"schedulers\": {},\n  \"value_and_storage_kinds\": {},\n  \
         \"runs_with_weak_memory\": {},\n  \"runs_ended_by_other_properties\": {},\n  \"cut_by_time\": {},\n  \
         \"components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {violations}{}\n}}\n",
        json_str(prop),
        json_str(tier.name),
        s.runs,
        c.distinct,
        json_str("each run draws a scenario (value type, storage, initial content, phases of 1-4 threads with their operations, faults, stalls, ending) and a schedule from its own seed; non-trivial: at least two operations of different threads overlapped and the scheduler switched threads; distinct: by hash of the scenario text and of the sequence of thread switches"),
        samples.join(", "),
        c.distinct_scheds,
        (s.runs as f64 * 3600.0 / c.wall.max(0.001)) as u64,
        s.stats.steps,
        json_map(stats.into_iter().map(|(k, v)| (k, v.to_string()))),
        json_map(faults.into_iter().map(|(k, v)| (k, v.to_string()))),
        json_map(s.fired.iter().filter(|x| x.0.starts_with("cover:")).map(|(k, v)| (k[6..].to_string(), v.to_string()))),
        json_map(s.strat.iter().map(|(k, v)| (k.clone(), v.to_string()))),
        json_map(s.stores.iter().map(|(k, v)| (k.clone(), v.to_string()))),
        s.weak,
        json_map(s.others.iter().map(|(k, v)| (k.clone(), v.to_string()))),
        c.cut,
        json_map(
            [
                ("real", "orx-concurrent-vec from /repo's working tree and its orx-* dependencies, instrumented by the compiler; the standard library, uninstrumented except for bulk copies it does through memcpy in instrumented code"),
                ("simulated", "threads (fibers), the scheduler, the memory model of atomics and the race detection, the allocator"),
                ("stub", "none of the code under test; user values, closures and iterators are the harness's own")
            ]
            .iter()
            .map(|(k, v)| (k.to_string(), json_str(v)))
        ),
        [
            "sampling: a clean batch is evidence, not proof",
            "threads communicate only through instrumented accesses; fences, read-modify-writes and stale loads follow a release/acquire model without out-of-thin-air or load-buffering behaviour",
            "the compiler's instrumentation covers every memory access of the crates under test"
        ]
        .iter()
        .map(|x| json_str(x))
        .collect::<Vec<_>>()
        .join(", "),
        wall,
        if mini_info.is_empty() { String::new() } else { format!(",\n \"minimised\": {}", json_str(&mini_info)) },
    );
    let _ = std::fs::write(ev.join(format!("{prop}.json")), j);
    println!(
        "{} runs, {} distinct non-trivial, {} steps, {:.1} s{}{}",
        s.runs,
        c.distinct,
        s.stats.steps,
        wall,
        if c.cut { ", cut by the time limit" } else { "" },
        if s.others.is_empty() { String::new() } else { format!(", ended by other properties: {:?}", s.others) }
    );
    for l in lines {
        println!("{l}");
    }
    code
}

/// every run twice, live and replayed: the two must agree
fn selftest(exec: Exec, prop: &str, n: u64, base: u64) -> i32 {
    let mut bad = 0;
    let mut acc = 0xcbf29ce484222325u64;
    // every run once in a process that has run nothing before
    let n = n.min(1 << 20);
    let fresh = unsafe { vsim_rt::ctx::mmap(0, (n as usize + 1) * 8, 3, 0x01 | 0x20 | 0x4000, -1, 0) } as *mut u64;
    let h = |o: &Outcome| {
        let mut x = o.stats.sched_hash ^ (o.stats.steps << 32) ^ (o.stats.accesses << 16) ^ o.stats.allocs;
        for b in format!("{:?}", o.fail).bytes() {
            x = (x ^ b as u64).wrapping_mul(0x100000001b3);
        }
        x
    };
    for i in 0..n {
        let pid = unsafe { fork() };
        if pid == 0 {
            let (scn, cfg) = gen::gen(prop, gen::run_seed(base, prop, i));
            let o = run_one(exec, &scn, cfg);
            unsafe {
                *fresh.add(i as usize) = h(&o);
                _exit(0);
            }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
    }
    for i in 0..n {
        let seed = gen::run_seed(base, prop, i);
        let (scn, cfg) = gen::gen(prop, seed);
        let rp = Replay { scn: scn.clone(), decs: vec![], seed, kind: "x".into(), msg: "y".into() };
        match Replay::parse(&rp.text()) {
            Some(p) if p.scn == scn => {}
            _ => {
                println!("{prop} run {i}: the text form does not round-trip");
                bad += 1;
            }
        }
        let a = run_one(exec, &scn, cfg.clone());
        let b = run_one(exec, &scn, cfg);
        let c = run_one(exec, &scn, replay_cfg(&scn, a.decs.clone(), false));
        let sig = |o: &Outcome| (o.stats.steps, o.stats.sched_hash, o.stats.accesses, o.stats.allocs, o.fail.clone());
        if h(&a) != unsafe { *fresh.add(i as usize) } {
            println!("{prop} run {i} seed {seed:#x}: differs from the same run in a fresh process");
            bad += 1;
        }
        if sig(&a) != sig(&b) {
            println!("{prop} run {i} seed {seed:#x}: two live runs differ: {:?} {:?}", sig(&a), sig(&b));
            bad += 1;
        }
        if sig(&a) != sig(&c) {
            println!("{prop} run {i} seed {seed:#x}: replay differs: {:?} {:?}", sig(&a), sig(&c));
            bad += 1;
        }
        acc = (acc ^ a.stats.sched_hash ^ a.stats.steps).wrapping_mul(0x100000001b3);
        if bad > 5 {
            break;
        }
    }
    println!("{prop} {n} runs, signature {acc:016x}, {bad} differences");
    (bad > 0) as i32
}

pub fn main(exec: Exec) -> i32 {
    unsafe {
        signal(13, 0);
    }
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VSIM_VERIF").unwrap_or("/verif".into()));
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    prewarm();
    match a.get(1).map(|x| x.as_str()) {
        Some("check") if a.len() >= 3 => {
            let t = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(exec, &a[2], &t, &verif, base)
        }
        Some("replay") if a.len() >= 3 => {
            let trace = std::env::var("VSIM_TRACE").is_ok();
            match do_replay(exec, &a[2], trace) {
                Err(e) => {
                    eprintln!("vsim: {e}");
                    2
                }
                Ok((r, out)) => {
                    for l in &out.trace {
                        println!("{l}");
                    }
                    match out.fail {
                        Some((k, m)) => {
                            println!("{k}: {m}");
                            if k == "harness" {
                                return 2;
                            }
                            println!("VIOLATION property={} replay={}", r.scn.prop, a[2]);
                            1
                        }
                        None => {
                            println!("no violation");
                            0
                        }
                    }
                }
            }
        }
        Some("replay-raw") if a.len() >= 3 => match do_replay(exec, &a[2], false) {
            Ok((_, out)) => {
                if let Some((k, m)) = out.fail {
                    println!("kind {k}\nmessage {}", m.replace('\n', " "));
                    return 1;
                }
                println!("kind none");
                0
            }
            Err(_) => 2,
        },
        Some("one") if a.len() >= 4 => {
            // run index a[3] of property a[2], with a trace
            let i: u64 = a[3].parse().unwrap_or(0);
            let seed = gen::run_seed(base, &a[2], i);
            let (scn, mut cfg) = gen::gen(&a[2], seed);
            cfg.trace = std::env::var("VSIM_TRACE").is_ok();
            println!("{}", scn.text());
            let out = run_one(exec, &scn, cfg);
            for l in &out.trace {
                println!("{l}");
            }
            println!("{:?} {:?}", out.fail, out.stats);
            0
        }
        Some("range") if a.len() >= 5 => {
            // consecutive runs in one process, for debugging
            let (i0, i1): (u64, u64) = (a[3].parse().unwrap_or(0), a[4].parse().unwrap_or(0));
            for i in i0..=i1 {
                let (scn, mut cfg) = gen::gen(&a[2], gen::run_seed(base, &a[2], i));
                cfg.trace = i == i1 && std::env::var("VSIM_TRACE").is_ok();
                let out = run_one(exec, &scn, cfg);
                for l in &out.trace {
                    println!("{l}");
                }
                println!("{i} {:?} {:x}", out.fail, out.stats.sched_hash);
            }
            0
        }
        Some("selftest") => {
            let n: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(200);
            let mut rc = 0;
            for p in gen::PROPS {
                if a.get(2).map_or(true, |x| x == p || x == "all") {
                    rc |= selftest(exec, p, n, base);
                }
            }
            rc
        }
        _ => {
            eprintln!("usage: vsim check <property> [quick|thorough] | replay <file> | selftest [property] [runs]");
            2
        }
    }
}
