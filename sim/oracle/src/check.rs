//! Oracles over the history of one phase (concurrent part, then quiescence).
use crate::hist::*;
use crate::lin::{self, LinOp, Verdict};
use crate::scn::K;
use std::collections::{HashMap, HashSet};
use vsim_rt::sched::Stamp;

#[derive(Default, Clone)]
pub struct VState {
    /// content by position at the last quiescent point (0: absent)
    pub content: Vec<u32>,
    /// first position not handed out to a completed growth call
    pub base: usize,
    /// positions failed growth calls may have taken beyond those known
    pub slack: u64,
    /// all positions asked for since the vector was made or cleared
    pub demanded: u64,
    pub max_cap: u64,
    pub cap_seen: u64,
    pub addrs: HashMap<u32, (usize, usize)>,
    pub failed_ids: HashSet<u32>,
}

struct Range {
    s: usize,
    e: usize,
    rec: usize,
}

struct View<'a> {
    start: &'a [u32],
    ranges: Vec<Range>,
    failed: bool,
    recs: &'a [OpRec],
    r0: usize,
    first_hole: usize,
    /// the first position, below others that are filled, which no call filled
    hole: usize,
}

impl<'a> View<'a> {
    fn range_of(&self, p: usize) -> Option<&Range> {
        let i = self.ranges.partition_point(|r| r.e <= p);
        self.ranges.get(i).filter(|r| r.s <= p)
    }
    fn owner(&self, p: usize) -> Option<(u32, &OpRec, usize)> {
        self.range_of(p).map(|r| {
            let rec = &self.recs[r.rec];
            (rec.op.id + (p - r.s) as u32, rec, p - r.s)
        })
    }
    /// all positions below are certainly written before `st`
    fn known(&self, st: &Stamp) -> usize {
        let mut c = self.first_hole;
        if c < self.start.len() {
            return c;
        }
        for r in &self.ranges {
            if r.s < c {
                continue;
            }
            if r.s != c || !prec(&self.recs[r.rec].res, st) {
                break;
            }
            c = r.e;
        }
        c
    }
    /// no position at or above can be counted at event `seq`
    fn upper(&self, seq: u64) -> usize {
        let mut c = self.first_hole;
        if c < self.start.len() {
            return c;
        }
        for r in &self.ranges {
            if r.s < c {
                continue;
            }
            if r.s != c {
                return if self.failed { usize::MAX } else { c };
            }
            let rec = &self.recs[r.rec];
            if rec.inv.seq > seq {
                return if self.failed { usize::MAX } else { c };
            }
            let n = r.e - r.s;
            if rec.op.code != K::Push && rec.prod.len() >= n {
                let k = rec.prod[..n].iter().filter(|x| x.1.seq < seq).count();
                if k < n {
                    return c + k;
                }
            }
            c = r.e;
        }
        if self.failed {
            usize::MAX
        } else {
            c
        }
    }
}

fn desc(r: &OpRec, i: usize) -> String {
    format!("T{} op{} [{}]", r.tid, i, r.op.text())
}

pub fn check_phase(vs: &mut Vec<VState>, r0: usize, r1: usize, baseline: &[Vec<u32>]) {
    let recs: &[OpRec] = &h().recs[..r1];
    let cover = unsafe { &mut *(&mut h().cover as *mut Cover) };
    for r in &recs[r0..r1] {
        cover.ops += 1;
        if r.nested {
            cover.nested += 1;
        }
        check_panic(r, cover);
    }
    for i in r0..r1 {
        for j in i + 1..r1 {
            let (a, b) = (&recs[i], &recs[j]);
            if a.tid != b.tid && a.inv.seq < b.res.seq && b.inv.seq < a.res.seq {
                cover.concurrent_pairs += 1;
            }
        }
    }
    let n_v = vs.len();
    let mut views: Vec<View> = Vec::new();
    for v in 0..n_v {
        let s = &vs[v];
        let view = growth(s, v, recs, r0, r1, &baseline[v], cover);
        views.push(view);
    }
    // accesses that only the oracle can name
    let mut extra: Vec<Acc> = Vec::new();
    for (i, r) in recs.iter().enumerate().take(r1).skip(r0) {
        if r.op.code == K::Fill && r.ret > 0 {
            fills(&vs[r.op.v as usize], &views[r.op.v as usize], i, r, &mut extra);
        }
    }
    let mut ref_addrs: Vec<RefObs> = Vec::new();
    for (i, r) in recs.iter().enumerate().take(r1).skip(r0) {
        if r.op.code == K::IterRef && r.pan == Pan::No && r.ret >= 0 {
            iter_ref(&vs[r.op.v as usize], &views[r.op.v as usize], recs, r0, r1, i, r, &mut extra, &mut ref_addrs);
        }
    }
    for (i, r) in recs.iter().enumerate().take(r1).skip(r0) {
        if let Some(a) = &r.agg {
            cover.aggs += 1;
            aggregate(vs, &views, recs, r0, r1, i, a, &mut extra, cover);
        }
    }
    for v in 0..n_v {
        elements(&vs[v], v, &views[v], recs, r0, r1, &baseline[v], &extra, cover);
        lengths(&vs[v], v, &views[v], recs, r0, r1, cover);
    }
    let mut upd = Vec::new();
    for v in 0..n_v {
        let view = &views[v];
        let s = &vs[v];
        let mut demanded = s.demanded;
        let mut failed = s.slack;
        let mut fids = Vec::new();
        for r in &recs[r0..r1] {
            if r.op.code.is_growth() && r.op.v as usize == v {
                demanded = demanded.saturating_add(r.op.grow_n());
                if r.pan != Pan::No && !refusal(r) {
                    failed = failed.saturating_add(r.op.grow_n());
                    for p in &r.prod {
                        fids.push(p.0);
                    }
                }
            }
        }
        let mut cur = s.base;
        for r in &view.ranges {
            failed = failed.saturating_sub((r.s.max(cur) - cur) as u64);
            cur = cur.max(r.e);
        }
        // what is beyond an empty position may be out of reach
        let mut content = baseline[v].clone();
        if view.hole != usize::MAX {
            for p in view.hole + 1..cur.max(s.content.len()) {
                if content.get(p).copied().unwrap_or(0) == 0 {
                    let id = match s.content.get(p) {
                        Some(x) if *x != 0 => *x,
                        _ => view.owner(p).map_or(0, |o| o.0),
                    };
                    if id != 0 {
                        if content.len() <= p {
                            content.resize(p + 1, 0);
                        }
                        content[p] = id;
                    }
                }
            }
        }
        upd.push((cur, failed, demanded, fids, content));
    }
    drop(views);
    for (v, (base, slack, demanded, fids, content)) in upd.into_iter().enumerate() {
        vs[v].base = base;
        vs[v].slack = slack;
        vs[v].demanded = demanded;
        vs[v].content = content;
        vs[v].failed_ids.extend(fids);
        let mut addrs = std::mem::take(&mut vs[v].addrs);
        let all = recs[r0..r1].iter().flat_map(|r| r.refs.iter().map(move |x| (x, r.op.text())));
        let all = all.chain(ref_addrs.iter().map(|x| (x, "IterRef".to_string())));
        {
            for (x, name) in all {
                if x.v as usize != v {
                    continue;
                }
                cover.refs += 1;
                let e = addrs.entry(x.pos).or_insert((0, 0));
                if x.val_addr != 0 {
                    if e.0 != 0 && e.0 != x.val_addr {
                        violate("ref", format!("the value at position {} is seen at two addresses ({})", x.pos, name));
                    }
                    e.0 = x.val_addr;
                }
                if x.elem_addr != 0 {
                    if e.1 != 0 && e.1 != x.elem_addr {
                        violate("ref", format!("the element at position {} is seen at two addresses ({})", x.pos, name));
                    }
                    e.1 = x.elem_addr;
                }
            }
        }
        vs[v].addrs = addrs;
        for r in &recs[r0..r1] {
            for c in &r.caps {
                if c.v as usize == v {
                    if c.max {
                        if c.cap != vs[v].max_cap {
                            violate("cap", format!("maximum capacity {} reported as {}", vs[v].max_cap, c.cap));
                        }
                    } else {
                        vs[v].cap_seen = vs[v].cap_seen.max(c.cap);
                    }
                }
            }
        }
    }
}

/// a growth call that panicked because it was refused (not because of an injected fault)
pub fn refusal(r: &OpRec) -> bool {
    match &r.pan {
        Pan::Real(_) => !(r.op.fk == 5 || r.op.fk == 7 || (r.op.fk == 6 && r.op.code == K::ExtIdx)) || r.prod.is_empty() && r.evs.is_empty() && r.cb_idx.is_empty(),
        _ => false,
    }
}

fn check_panic(r: &OpRec, cover: &mut Cover) {
    if !r.done {
        violate("harness", "operation without end".into());
    }
    match &r.pan {
        Pan::No => {
            if r.fired {
                violate("contain", format!("a panic of user code did not reach the caller of {}", r.op.text()));
            }
        }
        Pan::Injected => {
            cover.inj_panics += 1;
            if !r.fired && !r.nested {
                // a nested operation's injected panic unwinds through its parent, which has fired
                violate("contain", format!("{} panicked with the panic of another operation", r.op.text()));
            }
        }
        Pan::Real(_) => {
            cover.real_panics += 1;
        }
    }
    match r.op.fk {
        5 => cover.short_iters += 1,
        6 => cover.long_iters += 1,
        7 => cover.lying_len += 1,
        _ => {}
    }
}

/// fill of a whole vector: certainly what was known at its call, possibly what came meanwhile
fn fills(s: &VState, view: &View, i: usize, r: &OpRec, extra: &mut Vec<Acc>) {
    let whole = r.op.k & 1 == 0;
    let done = r.ret == 1;
    let (lo, hi) = if whole {
        (view.known(&r.inv), view.upper(r.res.seq))
    } else {
        (r.op.b as usize, r.op.b as usize)
    };
    let from = if whole { 0 } else { r.op.a as usize };
    let top = view.ranges.last().map_or(0, |x| x.e).max(s.content.len());
    for p in from..hi.min(top) {
        let there = (p < s.content.len() && s.content[p] != 0)
            || view.owner(p).map_or(false, |(_, g, j)| {
                g.prod.get(j).map(|x| x.1.seq).unwrap_or(g.inv.seq) <= r.res.seq
            });
        if there {
            extra.push(Acc {
                v: r.op.v,
                pos: p as u32,
                pos2: 0,
                kind: AccK::Set,
                old: 0,
                new: r.op.id,
                inv: r.inv,
                res: r.res,
                opt: !(done && p < lo),
                rec: i as u32,
                class: 0,
            });
        }
    }
}

/// a reference iterator: ascending positions, none missing that was there at its creation
#[allow(clippy::too_many_arguments)]
fn iter_ref(
    s: &VState,
    view: &View,
    recs: &[OpRec],
    r0: usize,
    r1: usize,
    i: usize,
    r: &OpRec,
    extra: &mut Vec<Acc>,
    refs: &mut Vec<RefObs>,
) {
    let v = r.op.v;
    if recs[r0..r1].iter().any(|q| (q.op.code.is_update() || q.accs.iter().any(|a| a.kind != AccK::Read)) && q.op.v == v) {
        return;
    }
    let mut at: HashMap<u32, usize> = HashMap::new();
    for (p, id) in s.content.iter().enumerate() {
        if *id != 0 {
            at.insert(*id, p);
        }
    }
    for g in &view.ranges {
        for p in g.s..g.e {
            at.insert(view.owner(p).unwrap().0, p);
        }
    }
    let (a, b) = if r.op.k & 1 == 1 { (r.op.a as usize, r.op.b as usize) } else { (0, usize::MAX) };
    let mut next = a;
    // filled before the call began: handed out, whatever is still being written before it
    let must = |p: usize| {
        if b != usize::MAX {
            return p < b;
        }
        match view.range_of(p) {
            Some(g) => prec(&recs[g.rec].res, &r.inv),
            None => s.content.get(p).is_some_and(|id| *id != 0),
        }
    };
    for (id, ad) in &r.items {
        match at.get(id) {
            None => {
                if !view.failed && !s.failed_ids.contains(id) {
                    violate("foreign", format!("{} yields value {id}, which was never stored", desc(r, i)));
                }
            }
            Some(&p) => {
                if p < next || p >= b {
                    violate("ref", format!("{} yields position {p} when {next} is due", desc(r, i)));
                }
                for q in next..p {
                    if must(q) {
                        violate("ref", format!("{} leaves out position {q}, which had been filled before", desc(r, i)));
                    }
                }
                next = p + 1;
                extra.push(Acc {
                    v,
                    pos: p as u32,
                    pos2: 0,
                    kind: AccK::Read,
                    old: *id,
                    new: 0,
                    inv: r.inv,
                    res: r.res,
                    opt: false,
                    rec: i as u32,
                    class: if r.op.k & 1 == 0 { 2 } else { 3 },
                });
                refs.push(RefObs { v, pos: p as u32, val_addr: *ad, elem_addr: 0 });
            }
        }
    }
    let end = view.ranges.last().map_or(0, |g| g.e).max(s.content.len()).min(b);
    for q in next..end {
        if must(q) {
            violate("ref", format!("{} ends before position {q}, which had been filled before", desc(r, i)));
        }
    }
}

fn growth<'a>(
    s: &'a VState,
    v: usize,
    recs: &'a [OpRec],
    r0: usize,
    r1: usize,
    baseline: &[u32],
    cover: &mut Cover,
) -> View<'a> {
    let mut ranges: Vec<Range> = Vec::new();
    let mut zero: Vec<(usize, usize)> = Vec::new();
    let mut failed_total = s.slack;
    let mut asked = s.demanded.max(s.base as u64);
    let mut failed_ids: HashSet<u32> = s.failed_ids.clone();
    for i in r0..r1 {
        let r = &recs[i];
        if !r.op.code.is_growth() || r.op.v as usize != v {
            continue;
        }
        let n = r.op.grow_n();
        asked = asked.saturating_add(n);
        if n > s.max_cap {
            cover.oversize += 1;
        }
        match &r.pan {
            Pan::No => {
                let idx = r.ret as usize;
                if r.fired {
                    continue;
                }
                if n > 0 && idx as u64 + n > s.max_cap {
                    violate("cap", format!("{} got positions {}..{} beyond the maximum capacity {}", desc(r, i), idx, idx as u64 + n, s.max_cap));
                }
                if matches!(r.op.code, K::PushIdx | K::ExtIdx) {
                    if r.cb_idx.len() != 1 {
                        violate("cbidx", format!("{}: callback called {} times", desc(r, i), r.cb_idx.len()));
                    }
                    if r.cb_idx[0] != idx as u64 {
                        violate("cbidx", format!("{}: callback got position {}, the call reported {}", desc(r, i), r.cb_idx[0], idx));
                    }
                }
                if r.op.fk == 5 && n > 0 && r.op.fa > 0 && (r.prod.len() as u64) < n {
                    violate("content", format!("{} succeeded although its iterator yielded only {} values", desc(r, i), r.prod.len()));
                }
                if n == 0 {
                    zero.push((idx, i));
                } else {
                    ranges.push(Range { s: idx, e: idx + n as usize, rec: i });
                }
            }
            Pan::Injected => {
                failed_total = failed_total.saturating_add(n);
                for p in &r.prod {
                    failed_ids.insert(p.0);
                }
            }
            Pan::Real(m) => {
                if refusal(r) {
                    cover.refused += 1;
                    let mut d = s.demanded;
                    for q in &recs[r0..r1] {
                        if q.op.code.is_growth() && q.op.v as usize == v && q.inv.seq < r.res.seq {
                            d = d.saturating_add(q.op.grow_n());
                        }
                    }
                    if d <= s.max_cap {
                        violate(
                            "panic",
                            format!("{} panicked although only {} of {} positions were asked for: {}", desc(r, i), d, s.max_cap, m),
                        );
                    }
                } else {
                    failed_total = failed_total.saturating_add(n);
                    for p in &r.prod {
                        failed_ids.insert(p.0);
                    }
                }
            }
        }
    }
    ranges.sort_by_key(|r| (r.s, r.e));
    let mut cur = s.base;
    let mut gaps = 0u64;
    let mut last: Option<usize> = None;
    for r in &ranges {
        if r.s < cur {
            match last {
                Some(l) if recs[l].tid != u8::MAX => violate(
                    "dup",
                    format!(
                        "position {} handed out twice: {} at {} and {} at {}",
                        r.s,
                        desc(&recs[l], l),
                        recs[l].ret,
                        desc(&recs[r.rec], r.rec),
                        r.s
                    ),
                ),
                _ => violate("dup", format!("{} got position {}, already in use (length was {})", desc(&recs[r.rec], r.rec), r.s, s.base)),
            }
        }
        gaps += (r.s - cur) as u64;
        cur = r.e;
        last = Some(r.rec);
    }
    if gaps > failed_total {
        violate("gap", format!("{} positions below {} belong to no growth call", gaps, cur));
    }
    for (idx, i) in &zero {
        if (*idx as u64) > asked || *idx < s.base {
            violate("gap", format!("{} of nothing reported position {}", desc(&recs[*i], *i), idx));
        }
    }
    // order of positions against the order of the calls
    let mut all: Vec<(usize, usize, usize)> = ranges.iter().map(|r| (r.s, r.e, r.rec)).collect();
    all.extend(zero.iter().map(|z| (z.0, z.0, z.1)));
    for x in &all {
        for y in &all {
            if x.2 != y.2 && prec(&recs[x.2].res, &recs[y.2].inv) {
                cover.order_pairs += 1;
                if y.0 < x.1 {
                    violate(
                        "order",
                        format!(
                            "{} returned before {} was called, but got position {}.. against {}",
                            desc(&recs[x.2], x.2),
                            desc(&recs[y.2], y.2),
                            x.0,
                            y.0
                        ),
                    );
                }
            }
        }
    }
    let first_hole = s.content.iter().position(|x| *x == 0).unwrap_or(s.content.len());
    let mut view = View {
        start: &s.content,
        ranges,
        failed: failed_total > 0,
        recs,
        r0,
        first_hole,
        hole: usize::MAX,
    };
    let _ = view.r0;
    let filled = |p: usize| (p < s.content.len() && s.content[p] != 0) || view.range_of(p).is_some();
    view.hole = (first_hole..cur).find(|p| !filled(*p) && baseline.get(*p).copied().unwrap_or(0) == 0).unwrap_or(usize::MAX);
    // whatever is at positions nobody owns must come from a failed call
    for (p, id) in baseline.iter().enumerate() {
        if *id == 0 {
            if p < view.hole && ((p < s.content.len() && s.content[p] != 0) || view.range_of(p).is_some()) {
                violate("content", format!("nothing is found at position {p}, which a completed growth call filled"));
            }
        } else if !(p < s.content.len() && s.content[p] != 0) && view.range_of(p).is_none() {
            if !failed_ids.contains(id) && !is_written(recs, r0, r1, *id) {
                violate("foreign", format!("position {p}, which no growth call filled, holds value {id}"));
            }
        }
    }
    if baseline.len() < cur.min(view.hole) {
        violate("content", format!("only {} of {} positions can be read", baseline.len(), cur));
    }
    view
}

fn is_written(recs: &[OpRec], r0: usize, r1: usize, id: u32) -> bool {
    recs[r0..r1].iter().any(|r| r.op.code == K::Swap || r.accs.iter().any(|a| a.new == id) || (r.op.code == K::Fill && r.op.id == id))
}

#[allow(clippy::too_many_arguments)]
fn elements(
    s: &VState,
    v: usize,
    view: &View,
    recs: &[OpRec],
    r0: usize,
    r1: usize,
    baseline: &[u32],
    extra: &[Acc],
    cover: &mut Cover,
) {
    let mut accs: Vec<Acc> = Vec::new();
    let mut absent: Vec<Acc> = Vec::new();
    for r in &recs[r0..r1] {
        for a in &r.accs {
            if a.v as usize == v {
                cover.accs += 1;
                if a.kind == AccK::Read && a.old == ABS {
                    absent.push(*a);
                } else {
                    accs.push(*a);
                }
            }
        }
    }
    accs.extend(extra.iter().filter(|a| a.v as usize == v));
    let kind_missing = |c: u8| if c >= 2 { "ref" } else { "missing" };
    for a in &absent {
        let p = a.pos as usize;
        let r = &recs[a.rec as usize];
        if view.known(&a.inv) > p {
            violate(
                kind_missing(a.class),
                format!("{} found nothing at position {p}, although everything up to it had been added before", desc(r, a.rec as usize)),
            );
        }
        for b in &accs {
            if b.class == a.class && b.pos == a.pos && b.kind == AccK::Read && prec(&b.res, &a.inv) {
                violate(
                    kind_missing(a.class),
                    format!("{} found nothing at position {p}, where a value was seen before", desc(r, a.rec as usize)),
                );
            }
        }
    }
    // components
    let mut parent: HashMap<u32, u32> = HashMap::new();
    fn find(p: &mut HashMap<u32, u32>, x: u32) -> u32 {
        let y = *p.entry(x).or_insert(x);
        if y == x {
            return x;
        }
        let r = find(p, y);
        p.insert(x, r);
        r
    }
    for a in &accs {
        let x = find(&mut parent, a.pos);
        if a.kind == AccK::Swap {
            let y = find(&mut parent, a.pos2);
            if x != y {
                parent.insert(x, y);
            }
        }
    }
    let mut comps: HashMap<u32, (Vec<u32>, Vec<Acc>)> = HashMap::new();
    for a in &accs {
        let x = find(&mut parent, a.pos);
        comps.entry(x).or_default().1.push(*a);
    }
    let keys: Vec<u32> = parent.keys().copied().collect();
    for k in keys {
        let x = find(&mut parent, k);
        comps.entry(x).or_default().0.push(k);
    }
    let mut order: Vec<u32> = comps.keys().copied().collect();
    order.sort();
    let mut touched: HashSet<u32> = HashSet::new();
    for key in order {
        let (mut poss, mut list) = comps.remove(&key).unwrap();
        poss.sort();
        list.sort_by_key(|a| (a.inv.seq, a.res.seq));
        let mut known = true;
        let mut init: Vec<u32> = Vec::new();
        let mut ids: HashSet<u32> = HashSet::new();
        for p in &poss {
            let pi = *p as usize;
            if pi < s.content.len() && s.content[pi] != 0 {
                init.push(s.content[pi]);
                ids.insert(s.content[pi]);
            } else if let Some((id, _, _)) = view.owner(pi) {
                init.push(0);
                ids.insert(id);
            } else {
                known = false;
            }
        }
        if !known {
            if !view.failed && s.failed_ids.is_empty() {
                let a = list[0];
                violate(
                    "phantom",
                    format!("{} accessed position {}, which nobody has filled", desc(&recs[a.rec as usize], a.rec as usize), a.pos),
                );
            }
            for p in poss {
                touched.insert(p);
            }
            continue;
        }
        for p in &poss {
            touched.insert(*p);
        }
        let writes = list.iter().any(|a| a.kind != AccK::Read);
        for a in &list {
            if a.new != 0 {
                ids.insert(a.new);
            }
        }
        for a in &list {
            if a.old != 0 && !ids.contains(&a.old) {
                violate(
                    "foreign",
                    format!("{} saw value {} at position {}, where it was never stored", desc(&recs[a.rec as usize], a.rec as usize), a.old, a.pos),
                );
            }
            for p in [a.pos, a.pos2] {
                if (p == a.pos || a.kind == AccK::Swap) && !(p as usize >= s.content.len()) && s.content[p as usize] != 0 {
                    continue;
                }
                if p == a.pos || a.kind == AccK::Swap {
                    if let Some((_, r, j)) = view.owner(p as usize) {
                        let st = r.prod.get(j).map(|x| x.1.seq).unwrap_or(r.inv.seq);
                        if a.res.seq < st {
                            violate(
                                "phantom",
                                format!("{} accessed position {} before its value was produced", desc(&recs[a.rec as usize], a.rec as usize), p),
                            );
                        }
                    }
                }
            }
        }
        if !writes {
            let p = poss[0] as usize;
            let id = if init[0] != 0 { init[0] } else { view.owner(p).unwrap().0 };
            for a in &list {
                if a.old != id {
                    violate(
                        "foreign",
                        format!("{} saw value {} at position {}, which always held {}", desc(&recs[a.rec as usize], a.rec as usize), a.old, p, id),
                    );
                }
            }
            check_base(view, baseline, p, id);
            continue;
        }
        // linearizability of the component
        let at = |x: u32| poss.binary_search(&x).unwrap();
        let mut all: Vec<Acc> = list.clone();
        for (k, p) in poss.iter().enumerate() {
            if init[k] == 0 {
                let (id, r, j) = view.owner(*p as usize).unwrap();
                all.push(Acc {
                    v: v as u8,
                    pos: *p,
                    pos2: 0,
                    kind: AccK::Init,
                    old: 0,
                    new: id,
                    inv: r.prod.get(j).map(|x| x.1).unwrap_or(r.inv),
                    res: r.res,
                    opt: false,
                    rec: 0,
                    class: 0,
                });
            }
        }
        cover.lin_comps += 1;
        cover.lin_ops += all.len() as u64;
        if all.len() > 120 {
            cover.lin_inconclusive += 1;
            continue;
        }
        let mut ops: Vec<LinOp> = all.iter().map(|a| LinOp::from(a, &at)).collect();
        for i in 0..all.len() {
            for j in 0..all.len() {
                if i != j && prec(&all[j].res, &all[i].inv) {
                    ops[i].pred |= 1u128 << j;
                }
            }
        }
        if poss.iter().any(|p| *p as usize > view.hole && baseline.get(*p as usize).copied().unwrap_or(0) == 0) {
            cover.lin_inconclusive += 1;
            continue;
        }
        let fin: Vec<u32> = poss.iter().map(|p| baseline.get(*p as usize).copied().unwrap_or(0)).collect();
        match lin::check(&ops, &init, &fin) {
            Verdict::Ok => {}
            Verdict::Inconclusive => cover.lin_inconclusive += 1,
            Verdict::No => {
                let mut m = format!("no order of the operations on position(s) {:?} explains what was seen; start {:?}, end {:?}:", poss, init, fin);
                for a in all.iter().take(14) {
                    m += &format!(
                        " T{} {:?} p{}{} {}->{};",
                        a.inv.tid,
                        a.kind,
                        a.pos,
                        if a.kind == AccK::Swap { format!(",p{}", a.pos2) } else { String::new() },
                        a.old,
                        a.new
                    );
                }
                violate("lin", m);
            }
        }
    }
    for (p, id) in s.content.iter().enumerate() {
        if *id != 0 && !touched.contains(&(p as u32)) {
            check_base(view, baseline, p, *id);
        }
    }
    for r in &view.ranges {
        for p in r.s..r.e {
            if !touched.contains(&(p as u32)) {
                check_base(view, baseline, p, view.owner(p).unwrap().0);
            }
        }
    }
}

fn check_base(view: &View, baseline: &[u32], p: usize, id: u32) {
    let b = baseline.get(p).copied().unwrap_or(0);
    if b != id && !(b == 0 && p > view.hole) {
        violate("content", format!("position {p} holds {b}, expected {id}"));
    }
}

fn lengths(s: &VState, v: usize, view: &View, recs: &[OpRec], r0: usize, r1: usize, cover: &mut Cover) {
    let mut obs: Vec<LenObs> = Vec::new();
    let mut caps: Vec<CapObs> = Vec::new();
    for r in &recs[r0..r1] {
        obs.extend(r.lens.iter().filter(|l| l.v as usize == v));
        caps.extend(r.caps.iter().filter(|l| l.v as usize == v && !l.max));
    }
    for o in &obs {
        cover.len_obs += 1;
        let lo = view.known(&o.inv) as u64;
        if o.hi < lo {
            violate(
                if recs[o.rec as usize].op.code == K::Swap { "lin" } else { "len-low" },
                format!(
                    "{} observed a length of at most {}, although the first {} values had been added before",
                    desc(&recs[o.rec as usize], o.rec as usize),
                    o.hi,
                    lo
                ),
            );
        }
        let up = view.upper(o.res.seq) as u64;
        if o.lo > up {
            violate(
                "len-high",
                format!(
                    "{} observed a length of at least {}, although position {} was not written yet",
                    desc(&recs[o.rec as usize], o.rec as usize),
                    o.lo,
                    up
                ),
            );
        }
        if o.lo > s.max_cap {
            violate("cap", format!("length {} beyond the maximum capacity {}", o.lo, s.max_cap));
        }
    }
    if obs.len() <= 300 {
        for a in &obs {
            for b in &obs {
                if b.hi < a.lo && prec(&a.res, &b.inv) {
                    violate(
                        "len-mono",
                        format!(
                            "the length went from {} ({}) down to {} ({})",
                            a.lo,
                            desc(&recs[a.rec as usize], a.rec as usize),
                            b.hi,
                            desc(&recs[b.rec as usize], b.rec as usize)
                        ),
                    );
                }
            }
        }
    }
    for c in &caps {
        if c.cap > s.max_cap {
            violate("cap", format!("capacity {} exceeds the maximum capacity {}", c.cap, s.max_cap));
        }
        if c.cap < s.cap_seen {
            violate("cap", format!("capacity went from {} down to {}", s.cap_seen, c.cap));
        }
        for d in &caps {
            if d.cap < c.cap && prec(&c.res, &d.inv) {
                violate("cap", format!("capacity went from {} down to {}", c.cap, d.cap));
            }
        }
        for o in &obs {
            if o.lo > c.cap && prec(&o.res, &c.inv) {
                violate("cap", format!("length {} exceeds the capacity {}", o.lo, c.cap));
            }
        }
        // what completed growth calls filled must be within the capacity
        if (c.cap as usize) < view.known(&c.inv) {
            violate("cap", format!("capacity {} is less than the {} values stored", c.cap, view.known(&c.inv)));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn aggregate(
    vs: &[VState],
    views: &[View],
    recs: &[OpRec],
    r0: usize,
    r1: usize,
    ri: usize,
    g: &Agg,
    extra: &mut Vec<Acc>,
    cover: &mut Cover,
) {
    let r = &recs[ri];
    if r.pan != Pan::No {
        return;
    }
    let v = g.v as usize;
    let written: Vec<HashSet<u32>> = (0..vs.len())
        .map(|v| {
            let mut w: HashSet<u32> = extra.iter().filter(|a| a.v as usize == v && a.kind != AccK::Read).map(|a| a.pos).collect();
            for q in &recs[r0..r1] {
                for a in &q.accs {
                    if a.v as usize == v && a.kind != AccK::Read {
                        w.insert(a.pos);
                        if a.kind == AccK::Swap {
                            w.insert(a.pos2);
                        }
                    }
                }
            }
            w
        })
        .collect();
    // exact value of a position during the whole phase, None: unknown or changing
    let exact = |v: usize, p: u64| -> Option<u32> {
        if written[v].contains(&(p as u32)) {
            return None;
        }
        let p = p as usize;
        let s = &vs[v];
        if p < s.content.len() && s.content[p] != 0 {
            return Some(s.content[p]);
        }
        views[v].owner(p).map(|x| x.0)
    };
    let lens = |v: usize, slice: bool, a: u64, b: u64| -> (u64, u64) {
        if slice {
            (b - a, b - a)
        } else {
            (views[v].known(&g.inv) as u64, views[v].upper(g.res.seq) as u64)
        }
    };
    let (lo, hi) = lens(v, g.slice, g.a, g.b);
    let evs: Vec<&Ev> = r.evs[g.ev0..g.ev1].iter().filter(|e| e.kind == Ek2::Eq).collect();
    let mut read = |v: u8, pos: u64, id: u32, e: &Ev| {
        extra.push(Acc {
            v,
            pos: pos as u32,
            pos2: 0,
            kind: AccK::Read,
            old: id & !PROBE,
            new: 0,
            inv: e.st,
            res: e.st,
            opt: false,
            rec: ri as u32,
            class: 0,
        });
    };
    let bad = |m: String| violate("agg", format!("{}: {}", desc(r, ri), m));
    match r.op.code {
        K::IndexOf | K::Contains => {
            let want = g.probe[0];
            let found = g.result >= 0;
            if r.op.code == K::IndexOf && found {
                let k = g.result as u64;
                if k >= hi {
                    bad(format!("index {k} is not below the length {hi}"));
                }
                if let Some(x) = exact(v, g.a + k) {
                    if x != want {
                        bad(format!("found value {want} at {k}, where {x} always was"));
                    }
                }
                for j in 0..k {
                    if exact(v, g.a + j) == Some(want) {
                        bad(format!("value {want} was at {j} all the time, but {k} was returned"));
                    }
                }
            }
            if found && r.op.code == K::Contains && hi != usize::MAX as u64 {
                let any = (0..hi).any(|j| exact(v, g.a + j).map_or(true, |x| x == want));
                if !any {
                    bad(format!("claims to contain {want}, which was nowhere"));
                }
            }
            if !found {
                for j in 0..lo {
                    if exact(v, g.a + j) == Some(want) {
                        bad(format!("did not find value {want}, which was at {j} all the time"));
                    }
                }
            }
            // precise: the comparisons made are the reads
            let ids: Vec<Option<u32>> = evs
                .iter()
                .map(|e| {
                    if e.id & PROBE != 0 && e.id2 & PROBE == 0 && e.id & !PROBE == want {
                        Some(e.id2)
                    } else if e.id2 & PROBE != 0 && e.id & PROBE == 0 && e.id2 & !PROBE == want {
                        Some(e.id)
                    } else {
                        None
                    }
                })
                .collect();
            if ids.iter().any(|x| x.is_none()) {
                return;
            }
            let ids: Vec<u32> = ids.into_iter().flatten().collect();
            let m = ids.iter().position(|x| *x == want);
            let ok = if found {
                m == Some(ids.len().wrapping_sub(1)) && (r.op.code == K::Contains || m == Some(g.result as usize))
            } else {
                m.is_none() && (ids.len() as u64) >= lo && (ids.len() as u64) <= hi
            };
            if ok {
                cover.aggs_precise += 1;
                for (k, id) in ids.iter().enumerate() {
                    read(g.v, g.a + k as u64, *id, evs[k]);
                }
            }
        }
        K::EqArr => {
            let m = g.probe.len() as u64;
            let yes = g.result > 0;
            if yes {
                if m < lo || m > hi {
                    bad(format!("equal to an array of length {m}, but the length was {lo}..={hi}"));
                }
                for j in 0..m {
                    if let Some(x) = exact(v, g.a + j) {
                        if x != g.probe[j as usize] {
                            bad(format!("equal, but position {j} always held {x}, not {}", g.probe[j as usize]));
                        }
                    }
                }
            } else if lo == hi && lo == m && (0..m).all(|j| exact(v, g.a + j) == Some(g.probe[j as usize])) {
                bad("not equal, although every position always held the same value as the array".into());
            }
            let mut ids = Vec::new();
            for (k, e) in evs.iter().enumerate() {
                let (x, p) = if e.id2 & PROBE != 0 && e.id & PROBE == 0 {
                    (e.id, e.id2 & !PROBE)
                } else if e.id & PROBE != 0 && e.id2 & PROBE == 0 {
                    (e.id2, e.id & !PROBE)
                } else {
                    return;
                };
                if k >= g.probe.len() || g.probe[k] != p {
                    return;
                }
                ids.push(x);
            }
            let mism = ids.iter().enumerate().position(|(k, x)| *x != g.probe[k]);
            let ok = if yes {
                mism.is_none() && ids.len() as u64 == m
            } else {
                mism.is_none() || mism == Some(ids.len() - 1)
            };
            if ok {
                cover.aggs_precise += 1;
                for (k, id) in ids.iter().enumerate() {
                    read(g.v, g.a + k as u64, *id, evs[k]);
                }
            }
        }
        K::EqVec => {
            let v2 = g.v2 as usize;
            let (lo2, hi2) = lens(v2, g.slice2, g.a2, g.b2);
            let yes = g.result > 0;
            if yes {
                if hi < lo2 || hi2 < lo {
                    bad(format!("equal, but the lengths were {lo}..={hi} and {lo2}..={hi2}"));
                }
                // equal means that both covered the same number of positions
                for j in 0..lo.max(lo2) {
                    if let (Some(x), Some(y)) = (exact(v, g.a + j), exact(v2, g.a2 + j)) {
                        if x != y {
                            bad(format!("equal, but position {j} always held {x} and {y}"));
                        }
                    }
                }
            } else if lo == hi && lo2 == hi2 && lo == lo2 {
                let same = (0..lo).all(|j| {
                    matches!((exact(v, g.a + j), exact(v2, g.a2 + j)), (Some(x), Some(y)) if x == y)
                });
                if same {
                    bad("not equal, although every position always held equal values".into());
                }
            }
            // the comparisons made are reads of both sides
            let mism = evs.iter().position(|e| e.id != e.id2);
            let ok = if yes {
                mism.is_none()
            } else {
                mism.is_none() || mism == Some(evs.len() - 1)
            };
            if ok && evs.iter().all(|e| (e.id | e.id2) & PROBE == 0) {
                let mut plausible = true;
                for (k, e) in evs.iter().enumerate() {
                    let k = k as u64;
                    if exact(v, g.a + k).map_or(false, |x| x != e.id) || exact(v2, g.a2 + k).map_or(false, |x| x != e.id2) {
                        plausible = false;
                    }
                }
                if plausible {
                    cover.aggs_precise += 1;
                    for (k, e) in evs.iter().enumerate() {
                        read(g.v, g.a + k as u64, e.id, e);
                        read(g.v2, g.a2 + k as u64, e.id2, e);
                    }
                }
            }
        }
        _ => {}
    }
}
