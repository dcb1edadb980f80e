//! Large databases: many series, long series, wide and long labels, many chunks (C01, C05, C06, C13).
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{compare, ml, MChunk, Model};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tikv_client::sim::{Op as KvOp, Verdict};
use crate::http::Srv;
use crate::wire::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    /// which series gives the labels, and which of them
    pub s: u16,
    pub mask: u16,
    pub from: Anchor,
    pub to: Anchor,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Round {
    /// so many samples for every `every`th series, in batches of this size
    Write { every: u8, samples: u16, batch: u16, step: u16, seed: u64 },
    Swap { times: u8 },
    Reopen,
    Ask(Vec<Ask>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeCase {
    pub combo: Combo,
    pub series: u16,
    /// distinct names of series
    pub names: u16,
    /// further labels and the length of their values
    pub more: u8,
    pub length: u32,
    pub odd: String,
    /// values that cannot be compressed
    #[serde(default)]
    pub noise: bool,
    pub rounds: Vec<Round>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    Plain,
    Swap,
    Reopen,
    Http,
    WriteFaults,
    ReadFaults,
    Resend,
}

pub struct Large {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub how: How,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

/// How many requests the operation makes; the one with this number fails, and the next `n`-1 too.
fn under<T>(w: &World, fail: Option<(u64, u64)>, applied: bool, f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (count, hits) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let (k, h) = (count.clone(), hits.clone());
    w.sim().set_judge(Some(Box::new(move |_, op, _| {
        let i = k.fetch_add(1, Ordering::SeqCst);
        match fail {
            Some((at, n)) if i >= at && i < at + n => {
                h.fetch_add(1, Ordering::SeqCst);
                if applied && op == KvOp::Put {
                    Verdict::ApplyThenFail
                } else {
                    Verdict::Fail
                }
            }
            _ => Verdict::Ok,
        }
    })));
    let r = f();
    w.sim().set_judge(None);
    (r, count.load(Ordering::SeqCst), hits.load(Ordering::SeqCst))
}

/// The beginning of a long report will do.
fn cut(mut f: Fail) -> Fail {
    if f.msg.len() > 3000 {
        let at = (0..3000).rev().find(|i| f.msg.is_char_boundary(*i)).unwrap();
        f.msg.truncate(at);
    }
    f
}

/// At most so many samples in one case.
const LIMIT: usize = 12_000;

impl LargeCase {
    fn universe(&self) -> Vec<Ls> {
        let n = self.names.max(1) as usize;
        (0..self.series.max(1) as usize)
            .map(|i| {
                let mut l = vec![("__name__".to_string(), format!("m{}", i % n)), ("instance".to_string(), format!("{}", i / n)), ("job".to_string(), "all".to_string())];
                for j in 0..self.more as usize {
                    let mut v = self.odd.clone();
                    let mut x = (i * 131 + j) as u64 + 1;
                    while self.noise && v.len() < self.length as usize {
                        x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ x >> 31;
                        v.push((33 + (x >> 40) % 94) as u8 as char);
                    }
                    while !self.odd.is_empty() && v.len() < self.length as usize {
                        v.push_str(&self.odd);
                    }
                    // of the same beginning, and often of the same length
                    v.push_str(&format!("{}", i / (j + 1) % 13));
                    l.push((format!("k{}", j), v));
                }
                l.sort();
                l
            })
            .collect()
    }
}

impl Part for Large {
    type Case = LargeCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<LargeCase> {
        let sled = self.combos[0] != TT;
        let big = tier.pick(1, 2) as u16;
        let (wide, long) = if sled { (120u16, 700u16) } else { (900 * big, 3000 * big) };
        let ask = || (any::<u16>(), any::<u16>(), anchor(), anchor()).prop_map(|(s, mask, from, to)| Ask { s, mask, from, to });
        let write = |samples: std::ops::Range<u16>| {
            (prop_oneof![2 => Just(1u8), 1 => 1u8..6], samples, prop_oneof![1u16..4, 1u16..300, Just(u16::MAX)], 1u16..40, any::<u64>()).prop_map(|(every, samples, batch, step, seed)| Round::Write { every, samples, batch, step, seed })
        };
        let asks = || vec(ask(), 1..4).prop_map(Round::Ask);
        let between = match self.how {
            How::Swap => prop_oneof![2 => (1u8..3).prop_map(|times| Round::Swap { times }), if sled { 1 } else { 2 } => (1u8..if sled { 4 } else { 40 }).prop_map(|times| Round::Swap { times }), if sled { 0 } else { 1 } => (100u8..=255).prop_map(|times| Round::Swap { times })].boxed(),
            How::ReadFaults => prop_oneof![3 => asks(), 1 => (1u8..10).prop_map(|times| Round::Swap { times })].boxed(),
            How::Reopen => prop_oneof![2 => (1u8..3).prop_map(|times| Round::Swap { times }), 2 => Just(Round::Reopen)].boxed(),
            _ => asks().boxed(),
        };
        let rounds = move |samples: std::ops::Range<u16>, n: usize| {
            vec(prop_oneof![5 => write(samples).boxed(), 2 => asks().boxed(), 3 => between.clone()], 1..n).boxed()
        };
        let value = prop_oneof![3 => Just("x".to_string()), 1 => Just("\u{e9}".to_string()), 1 => Just("a\\,b=".to_string()), 1 => some_odd_value()];
        let shape = prop_oneof![
            // many series
            3 => (prop_oneof![2 => 10..wide, 1 => 257..wide.max(700)], prop_oneof![Just(1u16), 1u16..40, 40u16..1000], 0u8..3, 1u32..10, value.clone(), rounds(1..4, 5)),
            // long series
            3 => (1u16..4, 1u16..4, 0u8..2, 1u32..10, value.clone(), rounds(1..long, 4)),
            // long values
            2 => (1u16..10, 1u16..4, 1u8..4, prop_oneof![200u32..300, 1000u32..9000, 60_000u32..70_000], value.clone(), rounds(1..6, 5)),
            // many labels
            2 => (1u16..30, 1u16..4, 10u8..120, 1u32..20, value, rounds(1..6, 5)),
        ];
        // a request of some megabytes
        let huge = (4u16..17, 1u16..4, 1u8..4, 60_000u32..200_000, Just("x".to_string()), rounds(1..4, 2));
        let shape = if self.how == How::Http { prop_oneof![9 => shape, 2 => huge].boxed() } else { shape.boxed() };
        (select(self.combos), shape, any::<bool>()).prop_map(|(combo, (series, names, more, length, odd, rounds), noise)| LargeCase { combo, series, names, more, length, odd, noise, rounds }).boxed()
    }
    fn run(&self, c: &LargeCase, cx: &mut Cx) -> R {
        self.go(c, cx).map_err(cut)
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

impl Large {
    fn go(&self, c: &LargeCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 36_000_000, "");
        w.open()?;
        let srv = if self.how == How::Http { Some(Srv::start(w.db(), 3, 0)?) } else { None };
        let mut m = Model { universe: c.universe(), chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let mut clock = T0;
        let (mut stored, mut asked, mut most) = (0usize, 0u64, 0usize);
        let (mut failed, mut refused, mut resent) = (0u64, 0u64, 0u64);
        let mut last: BTreeMap<usize, u64> = BTreeMap::new();
        for r in &c.rounds {
            beat();
            match r {
                Round::Write { every, samples, batch, step, seed } => {
                    let mut x = *seed | 1;
                    let mut rnd = |n: u64| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        x % n
                    };
                    let mut requests: Vec<Vec<(usize, Points)>> = vec![vec![]];
                    for s in (0..m.universe.len()).step_by(*every as usize) {
                        let mut t = *last.get(&s).unwrap_or(&w.win.0);
                        let mut pts: Points = vec![];
                        for _ in 0..*samples {
                            if stored >= LIMIT {
                                break;
                            }
                            t += 1 + rnd(*step as u64);
                            if t > w.win.1 {
                                break;
                            }
                            let bits = [rnd(u64::MAX), (rnd(1000) as f64 / 8.0).to_bits(), 0x7ff0_0000_0000_0002][rnd(3) as usize];
                            pts.push((t, bits));
                            m.write(s, t, bits);
                            stored += 1;
                        }
                        last.insert(s, t);
                        for b in pts.chunks((*batch as usize).max(1)) {
                            requests.last_mut().unwrap().push((s, b.to_vec()));
                            if requests.last().unwrap().len() >= *batch as usize {
                                requests.push(vec![]);
                            }
                        }
                    }
                    for req in requests {
                        if req.is_empty() {
                            continue;
                        }
                        beat();
                        match &srv {
                            Some(srv) => {
                                let series: Vec<WSeries> = req
                                    .iter()
                                    .map(|(s, p)| WSeries { labels: m.universe[*s].clone(), samples: p.iter().map(|p| (p.0 as i64, p.1)).collect() })
                                    .collect();
                                let body = snap_enc(&enc_write(&series, *seed as u32));
                                most = most.max(body.len());
                                let how = if seed >> 40 & 3 == 0 { Transfer::Chunked(4000) } else { Transfer::Length };
                                let r = srv.ask(&request("POST", srv.write, &body, how, true), "a large write")?;
                                if r.status / 100 != 2 {
                                    bail!("write-refused", "a write of {} bytes is answered with {}", body.len(), r.status);
                                }
                            }
                            None => {
                                for (s, p) in req {
                                    let db = w.db();
                                    let l = labels(&m.universe[s], (*seed >> 8) as u8);
                                    let n = p.len();
                                    let write = || no_panic("write", || db.write_batch(l.clone(), p.iter().cloned().map(tp).collect()));
                                    if self.how == How::WriteFaults && rnd(3) == 0 {
                                        // a request somewhere in it fails, and the write is repeated if it says so
                                        let at = if rnd(2) == 0 { rnd(n as u64 * 3 + 8) } else { rnd(12) };
                                        let (r, _, hits) = under(&w, Some((at, 1 + rnd(3))), rnd(2) == 0, write);
                                        failed += hits;
                                        match r? {
                                            Ok(()) => continue,
                                            Err(e) if hits == 0 => bail!("write-refused", "a write of {} samples to series {} of {} failed: {}", n, s, m.universe.len(), e),
                                            Err(_) => refused += 1,
                                        }
                                    }
                                    let r = write()?;
                                    if let Err(e) = r {
                                        bail!("write-refused", "a write of {} samples to series {} of {} failed: {}", n, s, m.universe.len(), e);
                                    }
                                    if self.how == How::Resend && rnd(2) == 0 {
                                        // some of it again, with these values or others
                                        let (from, other) = (rnd(n as u64) as usize, [0, 1][rnd(2) as usize]);
                                        let again: Points = p[from..].iter().map(|p| (p.0, p.1 ^ other)).collect();
                                        resent += again.len() as u64;
                                        if again.len() == 1 && rnd(2) == 0 {
                                            let _ = no_panic("write", || db.write(l.clone(), tp(again[0])))?;
                                        } else {
                                            let _ = no_panic("write", || db.write_batch(l.clone(), again.into_iter().map(tp).collect()))?;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Round::Swap { times } => {
                    for _ in 0..*times {
                        beat();
                        let start = w.win.1 + 1;
                        clock = clock.max(start);
                        crate::clock::set(clock);
                        if let Err(e) = w.swap_at(start)? {
                            bail!("rollover-failed", "rollover at {} failed: {}", start, e);
                        }
                        m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                        last.clear();
                    }
                }
                Round::Reopen => {
                    clock += 1;
                    crate::clock::set(clock);
                    w.prepare_reopen("", false);
                    if let Err(e) = w.try_open()? {
                        bail!("open-failed", "opening again failed: {}", e);
                    }
                    // a window within the one before: only later times, one value for each
                    m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                    for (s, t) in last.iter_mut() {
                        let _ = s;
                        *t = (*t).max(w.win.0);
                    }
                }
                Round::Ask(qs) => {
                    for q in qs {
                        asked += 1;
                        if self.how == How::ReadFaults {
                            let (f, r) = self.ask_under_faults(&w, &m, q)?;
                            failed += f;
                            refused += r;
                        }
                        self.ask(&w, &srv, &m, q)?;
                    }
                }
            }
        }
        for q in [
            Ask { s: 0, mask: 4, from: (0, 0), to: (u16::MAX, 0) },
            Ask { s: u16::MAX, mask: u16::MAX, from: (0, 0), to: (u16::MAX, 0) },
            Ask { s: u16::MAX / 2, mask: 1, from: (0, 0), to: (u16::MAX, 0) },
            Ask { s: u16::MAX / 3, mask: 2, from: (0, 0), to: (u16::MAX, 0) },
        ] {
            if self.how == How::ReadFaults {
                let (f, r) = self.ask_under_faults(&w, &m, &q)?;
                failed += f;
                refused += r;
            }
            self.ask(&w, &srv, &m, &q)?;
        }
        if resent > 0 {
            cx.hit_n("samples sent again", resent);
        }
        if failed > 0 {
            cx.hit_n("failed requests", failed);
            cx.hit_n("operations that reported an error", refused);
        }
        cx.hit(combo_name(c.combo));
        cx.hit_n("series", m.universe.len() as u64);
        cx.hit_n("samples", stored as u64);
        cx.hit_n("queries", asked + 4);
        let longest = m.chunks.iter().flat_map(|c| c.data.values()).map(|d| d.len()).max().unwrap_or(0);
        if longest > 1000 {
            cx.hit("a series with more than 1000 samples in a chunk");
        }
        if m.universe.len() > 256 {
            cx.hit("more than 256 series");
        }
        if m.chunks.len() > 16 {
            cx.hit("more than 16 chunks");
        }
        if m.chunks.len() > 256 {
            cx.hit("more than 256 chunks");
        }
        if c.length > 1000 && c.more > 0 {
            cx.hit("labels of more than 1000 bytes");
        }
        if c.more > 16 {
            cx.hit("more than 16 labels");
        }
        if most > 1 << 20 {
            cx.hit("a request of more than 1048576 bytes");
        }
        if most > 65536 {
            cx.hit("a request of more than 65536 bytes");
        }
        let faulty = matches!(self.how, How::WriteFaults | How::ReadFaults);
        cx.nontrivial((!faulty || refused > 0) && (self.how != How::Resend || resent > 0) && stored > 0 && (longest > 256 || m.universe.len() > 64 || c.more > 9 || c.length > 199 || m.chunks.len() > 9));
        Ok(())
    }
    /// A request somewhere in the query fails: an error, or the whole answer.
    fn ask_under_faults(&self, w: &World, m: &Model, q: &Ask) -> R<(u64, u64)> {
        let (l, a, b, what) = self.asking(w, m, q);
        let (r, n, _) = under(w, None, false, || w.query(ml(&l), a, b));
        if let Err(e) = r? {
            bail!("query-failed", "{} failed: {}", what, e);
        }
        let (mut failed, mut refused) = (0, 0);
        for (k, n_fail) in [(q.mask as u64 * 7 + q.s as u64, 1), (q.s as u64 * 5 + 1, 1 + q.mask as u64 % 3), (n.saturating_sub(1), 1)] {
            if n == 0 {
                break;
            }
            let (r, _, hits) = under(w, Some((k % n, n_fail)), false, || w.query(ml(&l), a, b));
            failed += hits;
            match r? {
                Ok(got) => compare(&got, &m.expect(&l, a, b), &Answer::new(), &format!("{} (request {} of {} failed, no error was reported)", what, k % n, n))?,
                Err(e) if hits == 0 => bail!("query-failed", "{} failed: {}", what, e),
                Err(_) => refused += 1,
            }
        }
        Ok((failed, refused))
    }
    fn asking(&self, w: &World, m: &Model, q: &Ask) -> (Ls, u64, u64, String) {
        let base = &m.universe[(q.s as usize * m.universe.len()) >> 16];
        let mut l: Ls = base.iter().enumerate().filter(|(i, _)| q.mask >> (i % 16) & 1 == 1).map(|x| x.1.clone()).collect();
        if l.is_empty() {
            l.push(base[q.mask as usize % base.len()].clone());
        }
        let times = m.times();
        let (a, b) = (resolve(q.from, &times), resolve(q.to, &times));
        let (a, b) = (a.min(b), a.max(b));
        let short: Vec<String> = l.iter().map(|l| format!("{}={}", l.0, l.1.chars().take(12).collect::<String>())).take(12).collect();
        let what = format!("query for {:?} in [{}, {}] ({}, {} series, {} chunks)", short, a, b, combo_name(w.combo), m.universe.len(), m.chunks.len());
        (l, a, b, what)
    }
    fn ask(&self, w: &World, srv: &Option<Srv>, m: &Model, q: &Ask) -> R {
        let (l, a, b, what) = self.asking(w, m, q);
        match srv {
            None => match w.query(ml(&l), a, b)? {
                Err(e) => bail!("query-failed", "{} failed: {}", what, e),
                Ok(got) => compare(&got, &m.expect(&l, a, b), &Answer::new(), &what),
            },
            Some(srv) => {
                let (a, b) = (a.min(i64::MAX as u64), b.min(i64::MAX as u64));
                let wq = WQuery { start: a as i64, end: b as i64, matchers: l.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() };
                let r = srv.ask(&request("POST", srv.read, &snap_enc(&enc_read(&[wq], q.mask as u32)), Transfer::Length, true), &what)?;
                if r.status / 100 != 2 {
                    bail!("read-refused", "{} is answered with {}", what, r.status);
                }
                let res = match snap_dec(&r.body).and_then(|b| dec_response(&b)) {
                    Some(p) if p.len() == 1 => p,
                    _ => bail!("bad-response", "{}: the response cannot be decoded", what),
                };
                let no_sign = |mut a: Answer| {
                    for p in a.values_mut().flat_map(|p| p.iter_mut()) {
                        if p.1 == 1 << 63 {
                            p.1 = 0;
                        }
                    }
                    a
                };
                compare(&no_sign(answer(&res[0])?), &no_sign(m.expect(&l, a, b)), &Answer::new(), &what)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GreatCase {
    /// so many series or chunks
    pub n: u32,
    pub seed: u64,
    /// every so manieth series carries a common label
    pub common: u16,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Much {
    Series,
    Chunks,
    /// in one series, written and read through the database or over TCP
    Samples,
    Served,
}

/// More series in a chunk than two bytes can count, thousands of chunks in one store, or tens of thousands of samples
/// in a series.
pub struct Great {
    pub name: &'static str,
    pub much: Much,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Great {
    type Case = GreatCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<GreatCase> {
        let n = match self.much {
            Much::Chunks => 6000..tier.pick(9000u32, 16_000),
            Much::Series => 66_000..tier.pick(68_000u32, 140_000),
            Much::Samples | Much::Served => 18_000..tier.pick(36_000u32, 90_000),
        };
        (n, any::<u64>(), prop_oneof![500u16..5000, Just(u16::MAX)]).prop_map(|(n, seed, common)| GreatCase { n, seed, common }).boxed()
    }
    fn run(&self, c: &GreatCase, cx: &mut Cx) -> R {
        let mut w = World::new(TT, 36_000_000, "");
        w.open()?;
        let one = |i: u32| -> Ls {
            let mut l = vec![("k".to_string(), format!("{}", i))];
            if i % c.common as u32 == 0 {
                l.push(("of".to_string(), "some".to_string()));
            }
            l
        };
        let bits = |i: u32| c.seed.wrapping_mul(i as u64 * 2 + 1).rotate_left(17) & !(0x7ff << 52);
        let exactly = |w: &World, l: &Ls, want: Answer, what: String| -> R {
            match w.query(ml(l), 0, u64::MAX)? {
                Err(e) => bail!("query-failed", "{} failed: {}", what, e),
                Ok(got) => compare(&got, &want, &Answer::new(), &what),
            }
        };
        if matches!(self.much, Much::Samples | Much::Served) {
            self.samples(c, &mut w, &bits).map_err(cut)?;
        } else if self.much == Much::Chunks {
            let few: Vec<Ls> = (0..3).map(one).collect();
            let mut want: Vec<Points> = vec![vec![]; 3];
            let mut start = w.win.0;
            for i in 0..c.n {
                beat();
                if i > 0 {
                    start += 36_000_001;
                    crate::clock::set(start);
                    let db = w.db();
                    if let Err(e) = no_panic("rollover", || db.swap(start))? {
                        bail!("rollover-failed", "rollover {} failed: {}", i, e);
                    }
                }
                let s = (bits(i) >> 7) as usize % 3;
                let p = (start + 5, bits(i));
                let db = w.db();
                if let Err(e) = no_panic("write", || db.write(labels(&few[s], 0), tp(p)))? {
                    bail!("write-refused", "a write into chunk {} failed: {}", i, e);
                }
                want[s].push(p);
            }
            for again in ["", " after opening again"] {
                for (s, l) in few.iter().enumerate() {
                    beat();
                    exactly(&w, l, std::iter::once((l.clone(), want[s].clone())).filter(|x| !x.1.is_empty()).collect(), format!("query over {} chunks{}", c.n, again))?;
                }
                if again.is_empty() {
                    crate::clock::set(start + 10);
                    w.prepare_reopen("", false);
                    if let Err(e) = w.try_open()? {
                        bail!("open-failed", "opening {} chunks again failed: {}", c.n, e);
                    }
                }
            }
        } else {
            let (t, db) = (w.win.0 + 3, w.db());
            for i in 0..c.n {
                beat();
                if let Err(e) = no_panic("write", || db.write(labels(&one(i), 0), tp((t, bits(i)))))? {
                    bail!("write-refused", "a write to series {} failed: {}", i, e);
                }
            }
            // the first ones again, now that there are many
            for i in 0..c.n {
                beat();
                if i < 300 || i + 300 > c.n || bits(i) >> 5 & 63 == 0 || (i & 0xffff) < 40 {
                    exactly(&w, &vec![one(i)[0].clone()], std::iter::once((one(i), vec![(t, bits(i))])).collect(), format!("query for series {} of {}", i, c.n))?;
                }
            }
            let common: Ls = vec![("of".to_string(), "some".to_string())];
            exactly(&w, &common, (0..c.n).filter(|i| i % c.common as u32 == 0).map(|i| (one(i), vec![(t, bits(i))])).collect(), format!("query for the common label of {} series", c.n))?;
        }
        cx.hit_n(
            match self.much {
                Much::Chunks => "chunks",
                Much::Series => "series",
                _ => "samples in one series",
            },
            c.n as u64,
        );
        cx.nontrivial(true);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        6
    }
}

impl Great {
    fn samples(&self, c: &GreatCase, w: &mut World, bits: &dyn Fn(u32) -> u64) -> R {
        let srv = if self.much == Much::Served { Some(Srv::start(w.db(), 2, 0)?) } else { None };
        let large = Large { name: "", combos: &[TT], how: How::Http, quick: (0, 0), thorough: (0, 0) };
        let universe: Vec<Ls> = vec![vec![("k".into(), "long".into()), ("of".into(), "some".into())], vec![("k".into(), "short".into()), ("of".into(), "some".into())]];
        let mut m = Model { universe, chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let (mut i, mut k) = (0u32, 0u32);
        let first = w.win.0 + (c.seed >> 20) % 3;
        while i < c.n {
            beat();
            k += 1;
            // one sample at a time, a few hundred, or many at once
            let n = [1, 1 + (bits(k) >> 9) as u32 % 700, 1 + (bits(k) >> 9) as u32 % 9000][(bits(k) >> 3) as usize % 3].min(c.n - i);
            let pts: Points = (i..i + n).map(|i| (first + i as u64 * 3, bits(i))).collect();
            i += n;
            let mut parts = vec![(0usize, pts)];
            if k % 9 == 0 {
                parts.push((1, vec![(first + i as u64 * 3, bits(i))]));
            }
            for (s, p) in &parts {
                for p in p {
                    m.write(*s, p.0, p.1);
                }
            }
            match &srv {
                Some(srv) => {
                    let series: Vec<WSeries> = parts.iter().map(|(s, p)| WSeries { labels: m.universe[*s].clone(), samples: p.iter().map(|p| (p.0 as i64, p.1)).collect() }).collect();
                    let r = srv.ask(&request("POST", srv.write, &snap_enc(&enc_write(&series, k)), Transfer::Length, true), "a write")?;
                    if r.status / 100 != 2 {
                        bail!("write-refused", "a write of {} samples to a series of {} is answered with {}", n, i - n, r.status);
                    }
                }
                None => {
                    for (s, p) in &parts {
                        let (db, l) = (w.db(), labels(&m.universe[*s], k as u8));
                        if let Err(e) = no_panic("write", || if p.len() == 1 { db.write(l, tp(p[0])) } else { db.write_batch(l, p.iter().cloned().map(tp).collect()) })? {
                            bail!("write-refused", "a write of {} samples to a series of {} failed: {}", n, i - n, e);
                        }
                    }
                }
            }
        }
        let mut asks = vec![(0u16, 0u16, u16::MAX), (0, 1 << 14, 3 << 14), (0, 40_000, u16::MAX), (0, 0, 30_000), (u16::MAX, 0, u16::MAX)];
        asks.extend((0..6).map(|i| (0, (bits(i) >> 30) as u16, (bits(i) >> 11) as u16)));
        let half = asks.len() / 2;
        for (i, (s, from, to)) in asks.into_iter().enumerate() {
            beat();
            if i == half && srv.is_none() {
                crate::clock::set(first + c.n as u64 * 3 + 10);
                w.prepare_reopen("", false);
                if let Err(e) = w.try_open()? {
                    bail!("open-failed", "opening a series of {} again failed: {}", c.n, e);
                }
                m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
            }
            large.ask(w, &srv, &m, &Ask { s, mask: 1 + (i as u16 & 1), from: (from, 0), to: (to, 0) })?;
        }
        Ok(())
    }
}
