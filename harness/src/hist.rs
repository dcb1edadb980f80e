//! Histories of writes, queries, rollovers, reopenings and faults, against a map-based model.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use tikv_client::sim::{Op as KvOp, Verdict};

// ---------------------------------------------------------------------------------------------
// model

#[derive(Default, Clone)]
pub struct MChunk {
    pub win: (u64, u64),
    pub data: BTreeMap<usize, BTreeMap<u64, u64>>,
}

/// What a database should hold: per chunk and series, timestamp -> value bits; the first write wins.
#[derive(Default, Clone)]
pub struct Model {
    pub universe: Vec<Ls>,
    pub chunks: Vec<MChunk>,
}

impl Model {
    pub fn cur(&mut self) -> &mut MChunk {
        self.chunks.last_mut().unwrap()
    }
    /// Would this sample be stored now, given that it lies in the window?
    pub fn accepts(&self, s: usize, ts: u64) -> bool {
        let c = self.chunks.last().unwrap();
        ts != 0 && ts >= c.win.0 && ts <= c.win.1 && c.data.get(&s).and_then(|d| d.keys().next_back()).map_or(true, |l| *l < ts)
    }
    pub fn write(&mut self, s: usize, ts: u64, bits: u64) -> bool {
        if self.accepts(s, ts) {
            self.cur().data.entry(s).or_default().insert(ts, bits);
            true
        } else {
            false
        }
    }
    pub fn last(&self, s: usize) -> Option<u64> {
        self.chunks.last().and_then(|c| c.data.get(&s)).and_then(|d| d.keys().next_back().cloned())
    }
    pub fn series(&self, s: usize) -> BTreeMap<u64, u64> {
        let mut m = BTreeMap::new();
        for c in &self.chunks {
            if let Some(d) = c.data.get(&s) {
                for (t, b) in d {
                    m.entry(*t).or_insert(*b);
                }
            }
        }
        m
    }
    pub fn matches(ls: &Ls, m: &[(String, String)]) -> bool {
        m.iter().all(|l| ls.contains(l))
    }
    pub fn expect(&self, m: &[(String, String)], s: u64, e: u64) -> Answer {
        let mut out = Answer::new();
        if s > e {
            return out;
        }
        for (i, ls) in self.universe.iter().enumerate() {
            if Model::matches(ls, m) {
                let pts: Points = self.series(i).range(s..=e).map(|(t, b)| (*t, *b)).collect();
                if !pts.is_empty() {
                    out.insert(ls.clone(), pts);
                }
            }
        }
        out
    }
    /// The same of a read over HTTP, where equality to an empty value selects the series without the label.
    pub fn expect_read(&self, m: &[(i64, String, String)], s: u64, e: u64) -> Answer {
        let some: Vec<(String, String)> = m.iter().filter(|m| !m.2.is_empty()).map(|m| (m.1.clone(), m.2.clone())).collect();
        let mut out = self.expect(&some, s, e);
        out.retain(|ls, _| !m.iter().any(|m| m.2.is_empty() && ls.iter().any(|l| l.0 == m.1 && !l.1.is_empty())));
        out
    }
    /// Times worth asking about: every sample, with the window ends well represented.
    pub fn times(&self) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        for (i, _) in self.universe.iter().enumerate() {
            v.extend(self.series(i).keys());
        }
        let ends: Vec<u64> = self.chunks.iter().flat_map(|c| vec![c.win.0, c.win.1]).collect();
        let n = v.len() / 4 / (ends.len() + 2) + 1;
        for _ in 0..n {
            v.extend(&ends);
            v.push(0);
            v.push(u64::MAX);
        }
        v.sort();
        v
    }
}

/// Exact comparison, but for samples that a failed write may or may not have stored.
pub fn compare(got: &Answer, want: &Answer, maybe: &Answer, what: &str) -> R {
    if maybe.is_empty() {
        if got == want {
            return Ok(());
        }
        let kind = classify(got, want);
        bail!(kind, "{}: expected{}\n  but got{}", what, show(want), show(got));
    }
    for (l, pts) in got {
        let w: BTreeMap<u64, u64> = want.get(l).map(|p| p.iter().cloned().collect()).unwrap_or_default();
        let m: BTreeMap<u64, u64> = maybe.get(l).map(|p| p.iter().cloned().collect()).unwrap_or_default();
        let mut last = None;
        for (t, b) in pts {
            if last.map_or(false, |x| x >= *t) {
                bail!("order", "{}: samples of {:?} out of order or doubled at {}", what, l, t);
            }
            last = Some(*t);
            if w.get(t).or(m.get(t)) != Some(b) {
                bail!("wrong-answer", "{}: {:?} has a sample at {} that was not written", what, l, t);
            }
        }
    }
    for (l, pts) in want {
        let g: Vec<_> = got.get(l).cloned().unwrap_or_default();
        for p in pts {
            if !g.contains(p) {
                bail!("lost-sample", "{}: {:?} lacks the acknowledged sample at {}; got{}", what, l, p.0, show(got));
            }
        }
    }
    Ok(())
}

fn classify(got: &Answer, want: &Answer) -> &'static str {
    for (l, p) in want {
        match got.get(l) {
            None => return "missing-series",
            Some(g) => {
                let g: std::collections::HashSet<&(u64, u64)> = g.iter().collect();
                if p.iter().any(|x| !g.contains(x)) {
                    return "missing-sample";
                }
            }
        }
    }
    if got.keys().any(|l| !want.contains_key(l)) {
        return "wrong-series";
    }
    "wrong-samples"
}

// ---------------------------------------------------------------------------------------------
// cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Q {
    pub s: u16,
    pub mask: u16,
    /// one more label, of another series
    pub other: Option<(u16, u16)>,
    /// a label that is (most likely) nobody's
    pub unknown: Option<u8>,
    pub perm: u8,
    pub from: Anchor,
    pub to: Anchor,
    /// 0: the range as drawn, else its ends in order
    pub sorted: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// which request of the operation fails
    pub at: u8,
    /// how many in a row
    pub n: u8,
    /// did the request take effect?
    pub applied: bool,
    /// operations before the failed write is repeated
    pub delay: u8,
    /// 0: requests to the shared store fail; k: calls of the storage or the indexer, with the k-th kind of error
    #[serde(default)]
    pub call: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Batch { s: u16, perm: u8, first: u32, pts: Vec<(u32, u64)>, fault: Option<Fault> },
    Single { s: u16, perm: u8, step: u32, bits: u64, fault: Option<Fault> },
    /// samples at times picked from those stored (or near them), in any order, then fresh ones
    Resend { s: u16, perm: u8, pts: Vec<(Anchor, u64)>, fresh: Vec<(u32, u64)>, single: bool },
    Query { q: Q, fault: Option<Fault> },
    /// onto: start with an existing chunk, if there is one ahead
    Swap { gap: u32, #[serde(default)] onto: Option<u8>, fault: Option<Fault> },
    /// a rollover that fails in a builder: which one, and whether it fails after having built
    BrokenSwap { indexer: bool, late: bool, gap: u32 },
    /// back: the clock has been set back this far; size: another chunk size than before; onto: the clock has been
    /// set to the very start of an existing chunk, the chunk size to its
    Reopen { adv: u32, back: u32, size: u8, #[serde(default)] onto: Option<u8>, name: String, in_place: bool, fault: Option<Fault> },
}
impl Op {
    fn fault(&self) -> Option<&Fault> {
        match self {
            Op::Batch { fault, .. } | Op::Single { fault, .. } | Op::Query { fault, .. } | Op::Swap { fault, .. } | Op::Reopen { fault, .. } => fault.as_ref(),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub combo: Combo,
    pub universe: Vec<Ls>,
    pub dirname: String,
    pub ops: Vec<Op>,
}

pub fn q_strategy() -> BoxedStrategy<Q> {
    (
        any::<u16>(),
        prop_oneof![2 => Just(u16::MAX), 3 => any::<u16>()],
        prop_oneof![5 => Just(None), 1 => (any::<u16>(), any::<u16>()).prop_map(Some)],
        prop_oneof![8 => Just(None), 1 => (0u8..6).prop_map(Some)],
        0u8..8,
        anchor(),
        anchor(),
        prop_oneof![1 => Just(0u8), 9 => Just(1u8)],
    )
        .prop_map(|(s, mask, other, unknown, perm, from, to, sorted)| Q { s, mask, other, unknown, perm, from, to, sorted })
        .boxed()
}

impl Q {
    pub fn matchers(&self, universe: &[Ls]) -> Vec<(String, String)> {
        let base = &universe[self.s as usize % universe.len()];
        let mut m: Vec<(String, String)> = base.iter().enumerate().filter(|(i, _)| self.mask >> (i % 16) & 1 == 1).map(|x| x.1.clone()).collect();
        if m.is_empty() {
            m.push(base[self.mask as usize % base.len()].clone());
        }
        if let Some((s, l)) = self.other {
            let o = &universe[s as usize % universe.len()];
            m.push(o[l as usize % o.len()].clone());
        }
        if let Some(k) = self.unknown {
            let (n, v) = base[0].clone();
            m.push(match k {
                0 => (n, "no such value".into()),
                1 => ("no_such_name".into(), v),
                2 => (n, format!("{}x", v)),
                3 => (format!("{}x", n), v),
                4 => (n, v.chars().take(v.chars().count().saturating_sub(1)).collect()),
                _ => (n, format!("{},", v)),
            });
        }
        if self.perm % 2 == 1 {
            m.reverse();
        }
        m
    }
    pub fn range(&self, times: &[u64]) -> (u64, u64) {
        let (a, b) = (resolve(self.from, times), resolve(self.to, times));
        if self.sorted != 0 && a > b {
            (b, a)
        } else {
            (a, b)
        }
    }
}

pub fn ml(m: &[(String, String)]) -> monolith::label::Labels {
    labels(&m.to_vec(), 0)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// C01, C04
    Plain,
    /// C05
    Roll,
    /// C06
    Reopen,
    /// C11
    WriteFaults,
    /// C11, with calls of storages and indexers that fail
    WriteCalls,
    /// C12
    ReadFaults,
    /// C12, with calls of storages and indexers that fail
    ReadCalls,
    /// C23
    Resend,
    /// C25
    BrokenRoll,
}

/// Chunk sizes in use. All are long: the timer of a database must not fire while the harness runs.
const SIZES: &[u64] = &[CHUNK_MS, 2 * CHUNK_MS, 20 * CHUNK_MS, 300 * CHUNK_MS];

/// Steps that lead all over the window.
fn far() -> BoxedStrategy<u32> {
    prop_oneof![6 => step(), 1 => 5_000u32..4_000_000, 1 => 4_000_000u32..200_000_000].boxed()
}

fn step() -> BoxedStrategy<u32> {
    prop_oneof![3 => 1u32..4, 3 => 1u32..40, 1 => 1u32..5000].boxed()
}

/// What fails: requests to the store, or calls.
pub fn calls(calls: bool) -> BoxedStrategy<u8> {
    if calls {
        (1u8..=ERROR_KINDS).boxed()
    } else {
        Just(0).boxed()
    }
}

fn fault(on: bool, kind: bool) -> BoxedStrategy<Option<Fault>> {
    if !on {
        return Just(None).boxed();
    }
    prop_oneof![
        2 => Just(None),
        3 => (prop_oneof![3 => 0u8..6, 2 => 0u8..14, 1 => 0u8..60], prop_oneof![4 => Just(1u8), 1 => 1u8..6], any::<bool>(), 0u8..4, calls(kind))
            .prop_map(|(at, n, applied, delay, call)| Some(Fault { at: if call > 0 { at % 8 } else { at }, n, applied, delay, call })),
    ]
    .boxed()
}

const DIRNAMES: &[&str] = &[
    "", "data", "d\u{e9}p\u{f4}t", "\u{6570}\u{636e}", "a b", "\u{1f4be}", "x.y", "0", "deadbeef", "-", "storage", "indexer", "caf\u{e9}/\u{65e5}\u{672c}", "a/b/c", "%20", "\u{e9}",
    "ab\u{300}c", "metadata.json", "ffffffffffffffffffffffffffffffffff",
];

fn dirname(any_name: bool) -> BoxedStrategy<String> {
    if !any_name {
        return Just(String::new()).boxed();
    }
    prop_oneof![3 => select(DIRNAMES).prop_map(|s| s.to_string()), 1 => "[^/\u{0}]{1,30}".prop_map(|s: String| if s == "." || s == ".." { "dots".to_string() } else { s })].boxed()
}

fn op(mode: Mode) -> BoxedStrategy<Op> {
    let wf = matches!(mode, Mode::WriteFaults | Mode::WriteCalls);
    let rf = matches!(mode, Mode::ReadFaults | Mode::ReadCalls);
    let kind = matches!(mode, Mode::WriteCalls | Mode::ReadCalls);
    let named = matches!(mode, Mode::Reopen);
    let steps = if named { far() } else { step() };
    let batch = (any::<u16>(), 0u8..8, 0u32..120, vec((steps, value_bits()), 1..8), fault(wf, kind))
        .prop_map(|(s, perm, first, pts, fault)| Op::Batch { s, perm, first, pts, fault });
    let single = (any::<u16>(), 0u8..8, step(), value_bits(), fault(wf, kind)).prop_map(|(s, perm, step, bits, fault)| Op::Single { s, perm, step, bits, fault });
    let query = (q_strategy(), fault(rf, kind)).prop_map(|(q, fault)| Op::Query { q, fault });
    let onto = if named { prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)].boxed() } else { Just(None).boxed() };
    let swap = (prop_oneof![3 => Just(0u32), 2 => 1u32..10, 1 => 1u32..100_000], onto.clone(), fault(wf, kind)).prop_map(|(gap, onto, fault)| Op::Swap { gap, onto, fault });
    let broken = (any::<bool>(), any::<bool>(), 0u32..1000).prop_map(|(indexer, late, gap)| Op::BrokenSwap { indexer, late, gap });
    let back = if named { prop_oneof![3 => Just(0u32), 1 => 1u32..100, 1 => 100u32..9_000_000].boxed() } else { Just(0u32).boxed() };
    let size = if named { prop_oneof![2 => Just(0u8), 3 => 0u8..SIZES.len() as u8].boxed() } else { Just(0u8).boxed() };
    let reopen = (prop_oneof![1 => 0u32..5, 3 => 5u32..3_000_000, 1 => 3_000_000u32..9_000_000], back, size, onto, dirname(named), any::<bool>(), fault(wf, kind))
        .prop_map(|(adv, back, size, onto, name, in_place, fault)| Op::Reopen { adv, back, size, onto, name, in_place, fault });
    let resend = (
        any::<u16>(),
        0u8..8,
        vec((anchor(), value_bits()), 1..6),
        vec((step(), value_bits()), 0..4),
        any::<bool>(),
    )
        .prop_map(|(s, perm, pts, fresh, single)| Op::Resend { s, perm, pts, fresh, single });
    let (wb, ws, wq, wsw, wbr, wre, wrs) = match mode {
        Mode::Plain => (4, 3, 5, 0, 0, 0, 0),
        Mode::Roll => (5, 2, 4, 3, 0, 0, 0),
        Mode::Reopen => (5, 2, 2, 2, 0, 2, 0),
        Mode::WriteFaults => (6, 2, 1, 1, 0, 1, 0),
        Mode::WriteCalls => (6, 2, 1, 1, 0, 0, 0),
        Mode::ReadFaults | Mode::ReadCalls => (4, 1, 8, 1, 0, 0, 0),
        Mode::Resend => (3, 1, 3, 1, 0, 0, 6),
        Mode::BrokenRoll => (5, 2, 3, 2, 3, 1, 0),
    };
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (wb, batch.boxed()),
        (ws, single.boxed()),
        (wq, query.boxed()),
        (wsw, swap.boxed()),
        (wbr, broken.boxed()),
        (wre, reopen.boxed()),
        (wrs, resend.boxed()),
    ];
    proptest::strategy::Union::new_weighted(all.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

pub fn hist(mode: Mode, combos: &'static [Combo], odd: bool, ops: std::ops::Range<usize>, sets: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Hist> {
    let v = if odd { odd_value() } else { plain_value() };
    let v2 = proptest::strategy::Union::new_weighted(vec![(3u32, v), (1, odd_value())]).boxed();
    let u = prop_oneof![2 => universe(v2.clone(), sets.clone(), 5), if odd { 4 } else { 1 } => odd_universe(v2, sets, 5)];
    (select(combos), u, dirname(mode == Mode::Reopen), vec(op(mode), ops))
        .prop_map(|(combo, universe, dirname, ops)| Hist { combo, universe, dirname, ops })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// running

#[derive(Default, Debug)]
pub struct Stats {
    pub writes: u64,
    pub queries: u64,
    pub non_empty: u64,
    pub partial: u64,
    pub skipped_series: u64,
    pub swaps: u64,
    pub reopens: u64,
    pub span: u64,
    pub faults: u64,
    pub refused: u64,
    pub late: u64,
    pub broken: u64,
    pub overlap: u64,
    pub ahead: u64,
    pub onto: u64,
}

const CHUNK_MS: u64 = 3_600_000;

struct Pending {
    batch: bool,
    perm: u8,
    pts: Points,
    due: usize,
}

struct Run<'a> {
    w: World,
    m: Model,
    case: &'a Hist,
    st: Stats,
    pending: BTreeMap<usize, Pending>,
    /// timestamps of the present
    clock: u64,
    junk: u64,
    /// asked last, to be asked again after writes
    last_asked: Option<(Vec<(String, String)>, u64, u64)>,
    /// where chunks start, also those that a failed rollover left behind
    starts: BTreeSet<u64>,
}

/// Make the store fail requests `at .. at+n`, counted from now on; or calls.
pub fn arm(w: &World, f: &Option<Fault>) -> Option<Arc<AtomicU64>> {
    let f = f.clone()?;
    if f.call > 0 {
        return Some(w.ctl.fail_calls(f.at as u64, f.n as u64, f.applied, f.call - 1));
    }
    let hits = Arc::new(AtomicU64::new(0));
    let h = hits.clone();
    let mut k = 0u64;
    w.sim().set_judge(Some(Box::new(move |_, op, _| {
        let i = k;
        k += 1;
        if i >= f.at as u64 && i < f.at as u64 + f.n as u64 {
            h.fetch_add(1, Ordering::SeqCst);
            if f.applied && op == KvOp::Put {
                Verdict::ApplyThenFail
            } else {
                Verdict::Fail
            }
        } else {
            Verdict::Ok
        }
    })));
    Some(hits)
}
pub fn disarm(w: &World, h: Option<Arc<AtomicU64>>) -> u64 {
    w.ctl.calls_succeed();
    w.sim().set_judge(None);
    h.map_or(0, |h| h.load(Ordering::SeqCst))
}

impl<'a> Run<'a> {
    fn maybe(&self) -> Answer {
        let mut a = Answer::new();
        for (s, p) in &self.pending {
            a.insert(self.m.universe[*s].clone(), p.pts.clone());
        }
        a
    }
    /// What is sent for this time: the value stored for it already, if any. (Reopening inside an earlier
    /// window makes it possible to send a sample a second time that way.)
    fn value_at(&self, s: usize, t: u64, bits: u64) -> u64 {
        self.m.series(s).get(&t).cloned().unwrap_or(bits)
    }
    fn send(&self, s: usize, perm: u8, pts: &Points, batch: bool) -> R<Result<(), String>> {
        let db = self.w.db();
        let l = labels(&self.m.universe[s], perm);
        let r = no_panic("write", || {
            if batch {
                db.write_batch(l, pts.iter().map(|p| tp(*p)).collect())
            } else {
                db.write(l, tp(pts[0]))
            }
        })?;
        Ok(r.map_err(|e| e.to_string()))
    }
    /// Repeat a write that failed, now that the store works.
    fn settle(&mut self, s: usize) -> R {
        if let Some(p) = self.pending.remove(&s) {
            let r = self.send(s, p.perm, &p.pts, p.batch)?;
            if let Err(e) = r {
                // one sample that is there already may be refused as such
                let l = self.m.universe[s].clone();
                let stored = match self.w.query(ml(&l), p.pts[0].0, p.pts[0].0)? {
                    Ok(a) => a.get(&l).map_or(false, |g| g.contains(&p.pts[0])),
                    Err(_) => false,
                };
                if p.batch || !stored {
                    bail!("retry-failed", "repeating a failed write of {:?} to {:?} failed again though the store works: {}", p.pts, l, e);
                }
            }
            for (t, b) in &p.pts {
                self.m.write(s, *t, *b);
            }
            self.everything(Some(s), "after the repeated write")?;
        }
        Ok(())
    }
    fn settle_all(&mut self) -> R {
        let all: Vec<usize> = self.pending.keys().cloned().collect();
        for s in all {
            self.settle(s)?;
        }
        Ok(())
    }
    /// An in-order, in-window write that has to succeed unless the store fails.
    fn write(&mut self, i: usize, s: usize, perm: u8, pts: Points, batch: bool, fault: &Option<Fault>) -> R {
        self.settle(s)?;
        if pts.is_empty() {
            return Ok(());
        }
        self.st.writes += 1;
        // the same question before and after
        let watch = (fault.is_none() && i % 2 == 0).then(|| {
            let ls = &self.m.universe[s];
            let m = if perm % 2 == 0 { ls.clone() } else { vec![ls[i % ls.len()].clone()] };
            (m, pts[i / 2 % pts.len()].0)
        });
        if let Some((m, t)) = &watch {
            let maybe = self.maybe();
            self.ask(m, self.w.win.0, *t, &maybe, "before a write")?;
        }
        let h = arm(&self.w, fault);
        let r = self.send(s, perm, &pts, batch);
        let n = disarm(&self.w, h);
        self.st.faults += (n > 0) as u64;
        match r? {
            Ok(()) => {
                for (t, b) in &pts {
                    self.m.write(s, *t, *b);
                }
                if let Some((m, t)) = &watch {
                    let maybe = self.maybe();
                    self.ask(m, self.w.win.0, *t, &maybe, "before a write and after it")?;
                }
                if n > 0 {
                    self.everything(Some(s), "after a write that was acknowledged though a request failed")?;
                }
            }
            Err(e) => {
                if n == 0 {
                    bail!("write-refused", "write of {:?} to {:?} (window {:?}) failed: {}", pts, self.m.universe[s], self.w.win, e);
                }
                self.st.refused += 1;
                let due = i + fault.as_ref().map_or(0, |f| f.delay as usize);
                self.pending.insert(s, Pending { batch, perm, pts, due });
            }
        }
        Ok(())
    }
    /// Check the series (or all) by its full label set and by every single label.
    fn everything(&mut self, only: Option<usize>, what: &str) -> R {
        let maybe = self.maybe();
        for s in 0..self.m.universe.len() {
            if only.map_or(false, |o| o != s) {
                continue;
            }
            let ls = self.m.universe[s].clone();
            let mut ms: Vec<Vec<(String, String)>> = vec![ls.clone()];
            if only.is_some() || self.m.universe.len() < 12 {
                ms.extend(ls.iter().map(|l| vec![l.clone()]));
            }
            for m in ms {
                self.ask(&m, 0, u64::MAX, &maybe, what)?;
            }
        }
        Ok(())
    }
    fn ask(&mut self, m: &[(String, String)], a: u64, b: u64, maybe: &Answer, what: &str) -> R {
        let want = self.m.expect(m, a, b);
        match self.w.query(ml(m), a, b)? {
            Err(e) => {
                if a <= b {
                    bail!("query-failed", "query {} for {:?} in [{}, {}] failed: {}", what, m, a, b, e);
                }
            }
            Ok(got) => compare(&got, &want, maybe, &format!("query {} for {:?} in [{}, {}] ({})", what, m, a, b, combo_name(self.w.combo)))?,
        }
        Ok(())
    }
    fn query(&mut self, q: &Q, fault: &Option<Fault>) -> R {
        let times = self.m.times();
        let (a, b) = q.range(&times);
        let m = q.matchers(&self.m.universe);
        let want = self.m.expect(&m, a, b);
        self.st.queries += 1;
        if !want.is_empty() {
            self.st.non_empty += 1;
        }
        let all = self.m.expect(&m, 0, u64::MAX);
        if want.len() < all.len() {
            self.st.skipped_series += 1;
        }
        if want.iter().any(|(l, p)| p.len() < all[l].len()) {
            self.st.partial += 1;
        }
        let hit = self.m.chunks.iter().filter(|c| c.data.iter().any(|(s, d)| Model::matches(&self.m.universe[*s], &m) && a <= b && d.range(a..=b).next().is_some())).count();
        if hit > 1 {
            self.st.span += 1;
        }
        let maybe = self.maybe();
        if fault.is_some() {
            let h = arm(&self.w, fault);
            let r = self.w.query(ml(&m), a, b);
            let n = disarm(&self.w, h);
            if n > 0 {
                self.st.faults += 1;
            }
            match r? {
                Ok(got) => {
                    // whether or not a request failed, an answer has to be the right one
                    if let Err(mut f) = compare(&got, &want, &maybe, &format!("query with {} failed requests for {:?} in [{}, {}]", n, m, a, b)) {
                        if n > 0 {
                            f.sig = "answer-hides-failure".into();
                        }
                        return Err(f);
                    }
                }
                Err(e) => {
                    self.st.refused += 1;
                    if n == 0 && a <= b {
                        bail!("query-failed", "query for {:?} in [{}, {}] failed without a fault: {}", m, a, b, e);
                    }
                }
            }
        }
        self.ask(&m, a, b, &maybe, "")?;
        self.last_asked = Some((m, a, b));
        Ok(())
    }
    fn go(&mut self) -> R {
        let faults = self.case.ops.iter().any(|o| o.fault().is_some());
        for (i, op) in self.case.ops.iter().enumerate() {
            beat();
            if i > 0 && !faults && !matches!(self.case.ops[i - 1], Op::Query { .. }) {
                if let Some((m, a, b)) = self.last_asked.clone() {
                    let maybe = self.maybe();
                    self.ask(&m, a, b, &maybe, "the same again")?;
                }
            }
            let due: Vec<usize> = self.pending.iter().filter(|p| p.1.due <= i).map(|p| *p.0).collect();
            for s in due {
                self.settle(s)?;
            }
            let ns = self.m.universe.len();
            match op {
                Op::Batch { s, perm, first, pts, fault } => {
                    let s = *s as usize % ns;
                    self.settle(s)?;
                    let mut t = match self.m.last(s) {
                        Some(l) => l,
                        None => self.w.win.0 + *first as u64,
                    };
                    let mut out = vec![];
                    // some begin at the very start of the window, some end at its very end
                    let opens = self.m.last(s).is_none() && first % 8 == 0;
                    for (k, (st, b)) in pts.iter().enumerate() {
                        if k > 0 || !opens {
                            t += *st as u64;
                        } else {
                            t = self.w.win.0;
                        }
                        if k > 0 && k + 1 == pts.len() && first % 16 == 1 {
                            t = t.max(self.w.win.1);
                        }
                        if t <= self.w.win.1 {
                            out.push((t, self.value_at(s, t, *b)));
                        }
                    }
                    self.write(i, s, *perm, out, true, fault)?;
                }
                Op::Single { s, perm, step, bits, fault } => {
                    let s = *s as usize % ns;
                    self.settle(s)?;
                    let t = self.m.last(s).unwrap_or(self.w.win.0) + *step as u64;
                    if t <= self.w.win.1 {
                        let bits = self.value_at(s, t, *bits);
                        self.write(i, s, *perm, vec![(t, bits)], false, fault)?;
                    }
                }
                Op::Resend { s, perm, pts, fresh, single } => self.resend(*s as usize % ns, *perm, pts, fresh, *single)?,
                Op::Query { q, fault } => self.query(q, fault)?,
                Op::Swap { gap, onto, fault } => {
                    self.settle_all()?;
                    let mut start = self.w.win.1 + 1 + *gap as u64 + self.junk;
                    if let Some(k) = onto {
                        let size = self.w.chunk_ms;
                        let ahead: Vec<u64> =
                            self.m.chunks.iter().filter(|c| c.win.0 > self.w.win.1 && c.win.1 - c.win.0 + 1 == size).map(|c| c.win.0).collect();
                        if !ahead.is_empty() {
                            start = ahead[*k as usize % ahead.len()];
                        }
                    }
                    self.clock = self.clock.max(start - 1);
                    crate::clock::set(self.clock);
                    let h = arm(&self.w, fault);
                    let r = self.w.swap_at(start);
                    let n = disarm(&self.w, h);
                    self.st.faults += (n > 0) as u64;
                    match r? {
                        Ok(()) => self.rolled(start)?,
                        Err(e) => {
                            if n == 0 {
                                bail!("rollover-failed", "rollover at {} failed: {}", start, e);
                            }
                            self.st.refused += 1;
                            self.left_over(start);
                            self.junk += 1;
                            self.everything(None, "after a rollover that failed")?;
                        }
                    }
                }
                Op::BrokenSwap { indexer, late, gap } => {
                    let start = self.w.win.1 + 1 + *gap as u64 + self.junk;
                    self.junk += *gap as u64 + 1;
                    let a = if *indexer { &self.w.ctl.fail_indexer } else { &self.w.ctl.fail_storage };
                    a.store(1, Ordering::SeqCst);
                    self.w.ctl.fail_late.store(*late as usize, Ordering::SeqCst);
                    let r = self.w.swap_at(start)?;
                    self.w.ctl.fail_indexer.store(0, Ordering::SeqCst);
                    self.w.ctl.fail_storage.store(0, Ordering::SeqCst);
                    self.st.broken += 1;
                    self.left_over(start);
                    if r.is_ok() {
                        bail!("rollover-hides-failure", "a rollover whose {} cannot be built succeeded", if *indexer { "indexer" } else { "storage" });
                    }
                    self.everything(None, "after a rollover that failed")?;
                }
                Op::Reopen { adv, back, size, onto, name, in_place, fault } => {
                    self.settle_all()?;
                    self.clock += *adv as u64 + 1;
                    self.clock -= *back as u64;
                    self.w.chunk_ms = SIZES[*size as usize % SIZES.len()];
                    if let Some(k) = onto {
                        let c = &self.m.chunks[*k as usize % self.m.chunks.len()];
                        self.clock = c.win.0;
                        self.w.chunk_ms = c.win.1 - c.win.0;
                    }
                    self.st.onto += self.m.chunks.iter().any(|c| c.win.0 == self.clock) as u64;
                    crate::clock::set(self.clock);
                    self.st.ahead += self.m.chunks.iter().any(|c| c.win.0 > self.clock && !c.data.is_empty()) as u64;
                    self.w.prepare_reopen(name, *in_place);
                    let h = arm(&self.w, fault);
                    let r = self.w.try_open();
                    let n = disarm(&self.w, h);
                    self.st.faults += (n > 0) as u64;
                    match r? {
                        Ok(()) => {}
                        Err(e) => {
                            if n == 0 {
                                bail!("open-failed", "opening {:?} again failed: {}", self.w.dir, e);
                            }
                            self.st.refused += 1;
                            self.left_over(self.clock);
                            self.clock += 1;
                            crate::clock::set(self.clock);
                            if self.w.uses_sled() {
                                // as another process would: sled's lock on what the failed attempt opened may last
                                self.w.prepare_reopen(name, false);
                            }
                            if let Err(e) = self.w.try_open()? {
                                bail!("open-failed", "opening {:?} again after a failed attempt: {}", self.w.dir, e);
                            }
                        }
                    }
                    self.junk = 0;
                    self.starts.insert(self.w.win.0);
                    if self.m.chunks.iter().any(|c| c.win.1 >= self.w.win.0) {
                        self.st.overlap += 1;
                    }
                    self.st.reopens += 1;
                    self.m.chunks.push(MChunk { win: self.w.win, data: BTreeMap::new() });
                    self.everything(None, "after reopening")?;
                }
            }
        }
        self.settle_all()?;
        self.everything(None, "at the end")
    }
    /// A failed rollover or opening may have begun a chunk at that time, or the next one that is free.
    fn left_over(&mut self, start: u64) {
        let at = (start..).find(|t| !self.starts.contains(t)).unwrap();
        self.starts.insert(at);
    }
    fn rolled(&mut self, start: u64) -> R {
        // where there is a chunk with that start already, the next millisecond that is free
        let taken = |t: u64| self.starts.contains(&t);
        if self.w.win.0 < start || (start..self.w.win.0).any(|t| !taken(t)) {
            bail!("window", "rollover at {} opened the window {:?}", start, self.w.win);
        }
        self.starts.insert(self.w.win.0);
        self.junk = 0;
        self.st.swaps += 1;
        self.m.chunks.push(MChunk { win: self.w.win, data: BTreeMap::new() });
        Ok(())
    }
    fn resend(&mut self, s: usize, perm: u8, pts: &[(Anchor, u64)], fresh: &[(u32, u64)], single: bool) -> R {
        // times of this very series for the most part
        let own: Vec<u64> = self.m.chunks.last().unwrap().data.get(&s).map(|d| d.keys().cloned().collect()).unwrap_or_default();
        let times = if own.is_empty() { self.m.times() } else { own };
        let mut out: Points = vec![];
        for (a, b) in pts {
            let t = resolve(*a, &times);
            if t >= self.w.win.0 && t <= self.w.win.1 {
                out.push((t, *b));
            }
        }
        let mut t = self.m.last(s).unwrap_or(self.w.win.0).max(out.iter().map(|p| p.0).max().unwrap_or(0));
        for (st, b) in fresh {
            t += *st as u64;
            if t <= self.w.win.1 {
                out.push((t, *b));
            }
        }
        if out.is_empty() {
            return Ok(());
        }
        self.st.writes += 1;
        if single {
            for p in out {
                let fits = self.m.accepts(s, p.0);
                let r = self.send(s, perm, &vec![p], false)?;
                if fits {
                    if let Err(e) = r {
                        bail!("write-refused", "write of {:?} to {:?} failed: {}", p, self.m.universe[s], e);
                    }
                    self.m.write(s, p.0, p.1);
                } else {
                    self.st.late += 1;
                }
            }
        } else {
            let any_late = out.iter().fold((self.m.clone(), false), |(mut m, l), p| {
                let ok = m.write(s, p.0, p.1);
                (m, l || !ok)
            });
            let r = self.send(s, perm, &out, true)?;
            if let (Err(e), false) = (&r, any_late.1) {
                bail!("write-refused", "batch {:?} to {:?} failed: {}", out, self.m.universe[s], e);
            }
            self.st.late += any_late.1 as u64;
            for p in out {
                self.m.write(s, p.0, p.1);
            }
        }
        self.everything(Some(s), "after resending")
    }
}

pub fn run_hist(case: &Hist, cx: &mut Cx) -> R<Stats> {
    let mut w = World::new(case.combo, CHUNK_MS, &case.dirname);
    w.ctl.tap.store(case.ops.iter().any(|o| o.fault().map_or(false, |f| f.call > 0)), Ordering::SeqCst);
    w.open()?;
    let m = Model { universe: case.universe.clone(), chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
    let starts = [w.win.0].into();
    let mut run = Run { w, m, case, st: Stats::default(), pending: BTreeMap::new(), clock: T0, junk: 0, last_asked: None, starts };
    let r = run.go();
    let s = &run.st;
    cx.hit(combo_name(case.combo));
    cx.hit_n("writes", s.writes);
    cx.hit_n("queries", s.queries);
    cx.hit_n("queries with a non-empty answer", s.non_empty);
    cx.hit_n("queries that leave out samples of a series", s.partial);
    cx.hit_n("queries where a matching series has no sample in range", s.skipped_series);
    cx.hit_n("queries answered from several chunks", s.span);
    cx.hit_n("rollovers", s.swaps);
    cx.hit_n("failed rollovers", s.broken);
    cx.hit_n("reopenings", s.reopens);
    cx.hit_n("reopenings inside an earlier window", s.overlap);
    cx.hit_n("reopenings with a chunk ahead of the clock", s.ahead);
    cx.hit_n("reopenings at the very start of a chunk", s.onto);
    cx.hit_n("operations hit by a fault", s.faults);
    cx.hit_n("operations refused because of a fault", s.refused);
    cx.hit_n("writes with resent or late samples", s.late);
    r?;
    Ok(run.st)
}

pub struct HistPart {
    pub name: &'static str,
    pub mode: Mode,
    pub combos: &'static [Combo],
    pub odd: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub ops: (usize, usize),
}

impl Part for HistPart {
    type Case = Hist;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Hist> {
        let sled = self.combos[0] != TT;
        let k = if sled { 1 } else { tier.pick(1, 2) };
        hist(self.mode, self.combos, self.odd, self.ops.0..self.ops.1 * k, 1..=if sled { 6 } else { 9 })
    }
    fn run(&self, case: &Hist, cx: &mut Cx) -> R {
        let st = run_hist(case, cx)?;
        cx.nontrivial(match self.mode {
            Mode::Plain => st.non_empty > 0 && (st.skipped_series > 0 || st.partial > 0),
            Mode::Roll => st.swaps > 0 && st.span > 0,
            Mode::Reopen => st.reopens > 0 && st.writes > 0,
            Mode::WriteFaults | Mode::WriteCalls => st.refused > 0,
            Mode::ReadFaults | Mode::ReadCalls => st.refused > 0,
            Mode::Resend => st.late > 0,
            Mode::BrokenRoll => st.broken > 0 && st.writes > 0,
        });
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        if self.combos[0] == TT {
            800
        } else {
            150
        }
    }
}

#[allow(dead_code)]
static UNUSED: AtomicBool = AtomicBool::new(false);
