//! The server over TCP: C13, C14, C24, and C11, C12 at its surface.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{arm, calls, compare, disarm, q_strategy, Fault, MChunk, Model, Q};
use crate::wire::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// a server

pub struct Srv {
    pub port: u16,
    pub read: &'static str,
    pub write: &'static str,
}

impl Srv {
    /// The paths are peculiar to this server, so that no other one can be taken for it.
    pub fn start(db: Arc<dyn Db>, workers: usize, shape: u8) -> R<Srv> {
        static N: AtomicU64 = AtomicU64::new(0);
        static PORT: AtomicU16 = AtomicU16::new(0);
        let id = format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
        let (r, w) = match shape % 3 {
            0 => (format!("/read-{}", id), format!("/write-{}", id)),
            1 => (format!("/{}/api/v1/read", id), format!("/{}/api/v1/write", id)),
            // one is the beginning of the other
            _ => (format!("/w{}", id), format!("/w{}/r", id)),
        };
        let (read, write): (&'static str, &'static str) = (Box::leak(r.into_boxed_str()), Box::leak(w.into_boxed_str()));
        if PORT.load(Ordering::SeqCst) == 0 {
            PORT.store(1024 + (std::process::id() % 30) as u16 * 1000, Ordering::SeqCst);
        }
        for _ in 0..5000 {
            let mut p = PORT.fetch_add(1, Ordering::SeqCst);
            if !(1024..32000).contains(&p) {
                PORT.store(1024, Ordering::SeqCst);
                p = PORT.fetch_add(1, Ordering::SeqCst);
            }
            if std::net::TcpListener::bind(("127.0.0.1", p)).is_err() {
                continue;
            }
            let db = db.clone();
            let ended = Arc::new(AtomicBool::new(false));
            let e = ended.clone();
            std::thread::Builder::new()
                .name("server".into())
                .spawn(move || {
                    let r = guard(|| db.serve(p as i32, read, write, workers));
                    if !matches!(r, Outcome::Done(_)) && std::env::var("VH_TRACE").is_ok() {
                        eprintln!("the server ended");
                    }
                    e.store(true, Ordering::SeqCst);
                })
                .unwrap();
            let s = Srv { port: p, read, write };
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(20) && !ended.load(Ordering::SeqCst) {
                // an undecodable body on the read path of this very server: any answer but 404 is its own
                let probe = request("POST", read, b"", Transfer::Length, true);
                if let Ok(mut c) = Conn::open(p) {
                    if c.send(&probe).is_ok() {
                        if let Ok(r) = c.response(false) {
                            if r.status != 404 {
                                return Ok(s);
                            }
                            break;
                        }
                    }
                }
                real_sleep(Duration::from_millis(2));
            }
        }
        fail("no-server", "the server does not come up")
    }
    /// An answer to a well-formed request, on a connection of its own; a second try if there is none.
    pub fn ask(&self, raw: &[u8], what: &str) -> R<Resp> {
        let mut why = String::new();
        for _ in 0..2 {
            let r = (|| {
                let mut c = Conn::open(self.port)?;
                c.send(raw)?;
                c.response(false)
            })();
            match r {
                Ok(r) => return Ok(r),
                Err(e) => why = e.to_string(),
            }
            beat();
        }
        fail("no-answer", format!("{}: no answer to a well-formed request: {}; panics: {:?}", what, why, take_other_panics()))
    }
}

// ---------------------------------------------------------------------------------------------
// cases

/// samples: (step, where, bits); where: 0 a step after the last, 1 before the window, 2 after it, 3 negative
pub type HSamples = Vec<(u32, u8, u64)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u16, u8),
    Set(u16, u8),
    Cut(u16),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Double,
}

fn mutate(b: &mut Vec<u8>, m: &[Mut]) {
    let at = |n: u16, l: usize| if l == 0 { 0 } else { (n as usize * l) >> 16 };
    for x in m {
        let l = b.len();
        match x {
            Mut::Flip(n, k) if l > 0 => b[at(*n, l)] ^= 1 << (k % 8),
            Mut::Set(n, v) if l > 0 => b[at(*n, l)] = *v,
            Mut::Cut(n) => b.truncate(at(*n, l)),
            Mut::Insert(n, v) => {
                let i = at(*n, l + 1);
                b.splice(i..i, v.iter().cloned());
            }
            Mut::Delete(n, k) if l > 0 => {
                let i = at(*n, l);
                let j = (i + *k as usize).min(l);
                b.drain(i..j);
            }
            Mut::Double => {
                let c = b.clone();
                b.extend(c);
            }
            _ => {}
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Attack {
    /// bytes on a connection
    Raw { bytes: Vec<u8>, reset: bool },
    /// a damaged body; layer 0: the message, 1: what it is compressed to, 2: not compressed at all, 3: these bytes
    Body { write: bool, layer: u8, muts: Vec<Mut>, bytes: Vec<u8>, how: Transfer, series: Vec<(u16, u8, u32, HSamples)>, queries: Vec<(Q, u8)>, enc: u32 },
    /// another path
    Path { path: String, method: u8, write_body: bool, series: Vec<(u16, u8, u32, HSamples)> },
    /// a write cut short: where, and whether the connection is reset
    Cut { at: u16, reset: bool, how: Transfer, series: Vec<(u16, u8, u32, HSamples)> },
    /// a read with a broken way of sending it
    BadTransfer { kind: u8 },
    /// a client that stops in mid-request and stays
    Stall { at: u16, write: bool },
    /// another method on the read path
    Method { method: u8 },
    /// a read over an odd range
    Range { q: Q, start: i64, end: i64 },
    /// a write at odd times
    Times { s: u16, ts: Vec<(i64, u64)> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Write { series: Vec<(u16, u8, u32, HSamples)>, enc: u32, how: Transfer, fault: Option<Fault> },
    Read { queries: Vec<(Q, u8)>, enc: u32, how: Transfer, fault: Option<Fault> },
    /// several reads in one go on one connection
    Pipeline { queries: Vec<(Q, u8)> },
    /// matchers with operators
    Ops { queries: Vec<(Q, Vec<(u8, u8, u8)>)> },
    Swap { gap: u32 },
    Attack(Attack),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HttpCase {
    pub combo: Combo,
    pub universe: Vec<Ls>,
    pub workers: u8,
    pub shape: u8,
    pub ops: Vec<HOp>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HMode {
    /// C13
    Plain,
    /// C14
    Attacks,
    /// C24
    Operators,
    /// C11, C12
    Faults,
    /// as Faults, with calls of the storage and the indexer that fail
    Calls,
}

pub struct Http {
    pub name: &'static str,
    pub mode: HMode,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

fn series() -> BoxedStrategy<Vec<(u16, u8, u32, HSamples)>> {
    let sample = (prop_oneof![4 => 1u32..4, 2 => 1u32..1000, 1 => 1u32..400_000], prop_oneof![12 => Just(0u8), 1 => 1u8..6], value_bits());
    vec((any::<u16>(), 0u8..8, 0u32..100, vec(sample, 1..6)), 1..5).boxed()
}
fn queries(n: usize) -> BoxedStrategy<Vec<(Q, u8)>> {
    vec((q_strategy(), prop_oneof![6 => Just(0u8), 3 => 1u8..7]), 1..n).boxed()
}
fn how() -> BoxedStrategy<Transfer> {
    prop_oneof![5 => Just(Transfer::Length), 2 => (1u16..200).prop_map(Transfer::Chunked), 1 => Just(Transfer::Expect)].boxed()
}
fn enc() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 2 => any::<u32>()].boxed()
}
fn muts() -> BoxedStrategy<Vec<Mut>> {
    let m = prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mut::Flip(a, b)),
        3 => (any::<u16>(), prop_oneof![any::<u8>(), select(&[0u8, 1, 0x7f, 0x80, 0xff, 0x0a, 0x12, 8, 9][..])]).prop_map(|(a, b)| Mut::Set(a, b)),
        3 => any::<u16>().prop_map(Mut::Cut),
        2 => (any::<u16>(), vec(any::<u8>(), 1..6)).prop_map(|(a, b)| Mut::Insert(a, b)),
        2 => (any::<u16>(), 1u8..12).prop_map(|(a, b)| Mut::Delete(a, b)),
        1 => Just(Mut::Double),
    ];
    vec(m, 1..4).boxed()
}

fn attack() -> BoxedStrategy<Attack> {
    let body_bytes = prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        1 => Just(vec![]),
        1 => Just(vec![0]),
        // lengths that are not there
        1 => Just(vec![0xff, 0xff, 0xff, 0xff, 0x0f]),
        1 => Just(vec![0x80, 0x80, 0x80, 0x80, 0x10]),
        1 => Just(vec![0xff; 12]),
        1 => Just(vec![0xfe, 0xff, 0xff, 0x7f, 0, 1]),
        1 => Just(vec![5, 0xfe, 1, 0, 0]),
        1 => Just(b"not snappy at all, just text".to_vec()),
    ];
    let raw = prop_oneof![
        2 => vec(any::<u8>(), 0..200),
        4 => select(
            &[
                "GET", "GET /", "GET / HTTP/1.1\r\n", "\r\n\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "POST", " / \r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "GET / HTTP/1.1\r\n: \r\n\r\n",
                "GET / HTTP/1.1\r\nHost\r\n\r\n", "GET \u{e9} HTTP/1.1\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\u{16}\u{3}\u{1}", "OPTIONS * HTTP/1.1\r\n\r\n", "CONNECT a:1 HTTP/1.1\r\n\r\n",
                "GET / HTTP/1.0\r\n\r\n", "GET / HTTP/1.1\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n", "GET / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET  /  HTTP/1.1\r\n\r\n", "/ HTTP/1.1 GET\r\n\r\n",
                "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "GET / HTTP/1.1\nHost: a\n\n",
                "POST / HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n", "GET / HTTP/1.1\r\nA: \u{0}\u{1}\r\n\r\n", "GET / HTTP/1.1\r\n A: b\r\n\r\n",
            ][..]
        ).prop_map(|s| s.as_bytes().to_vec()),
        1 => (1usize..2000).prop_map(|n| format!("GET / HTTP/1.1\r\nA: {}\r\n\r\n", "x".repeat(n * 16)).into_bytes()),
    ];
    let odd = select(&[i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX, i64::MAX - 1, T0 as i64, -(T0 as i64)][..]);
    prop_oneof![
        3 => (raw, any::<bool>()).prop_map(|(bytes, reset)| Attack::Raw { bytes, reset }),
        12 => (any::<bool>(), prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)], muts(), body_bytes, how(), series(), queries(3), enc())
            .prop_map(|(write, layer, muts, bytes, how, series, queries, enc)| Attack::Body { write, layer, muts, bytes, how, series, queries, enc }),
        3 => ("[a-zA-Z0-9/_.-]{0,12}", 0u8..6, any::<bool>(), series()).prop_map(|(path, method, write_body, series)| Attack::Path { path, method, write_body, series }),
        3 => (any::<u16>(), any::<bool>(), how(), series()).prop_map(|(at, reset, how, series)| Attack::Cut { at, reset, how, series }),
        2 => (0u8..10).prop_map(|kind| Attack::BadTransfer { kind }),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(at, write)| Attack::Stall { at, write }),
        1 => (0u8..8).prop_map(|method| Attack::Method { method }),
        2 => (q_strategy(), odd.clone(), odd).prop_map(|(q, start, end)| Attack::Range { q, start, end }),
        2 => (any::<u16>(), vec((prop_oneof![select(&[i64::MIN, -1, 0, 1, i64::MAX][..]), any::<i64>()], value_bits()), 1..4)).prop_map(|(s, ts)| Attack::Times { s, ts }),
    ]
    .boxed()
}

fn fault(on: bool, kind: bool) -> BoxedStrategy<Option<Fault>> {
    if !on {
        return Just(None).boxed();
    }
    prop_oneof![
        1 => Just(None),
        3 => (prop_oneof![3 => 0u8..6, 2 => 0u8..20, 1 => 0u8..80], prop_oneof![4 => Just(1u8), 1 => 1u8..6], any::<bool>(), calls(kind))
            .prop_map(|(at, n, applied, call)| Some(Fault { at: if call > 0 { at % 16 } else { at }, n, applied, delay: 0, call })),
    ]
    .boxed()
}

impl Part for Http {
    type Case = HttpCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<HttpCase> {
        let f = matches!(self.mode, HMode::Faults | HMode::Calls);
        let kind = self.mode == HMode::Calls;
        let w = (series(), enc(), how(), fault(f, kind)).prop_map(|(series, enc, how, fault)| HOp::Write { series, enc, how, fault }).boxed();
        let r = (queries(4), enc(), how(), fault(f, kind)).prop_map(|(queries, enc, how, fault)| HOp::Read { queries, enc, how, fault }).boxed();
        let p = queries(5).prop_map(|queries| HOp::Pipeline { queries }).boxed();
        let o = vec((q_strategy(), vec((prop_oneof![4 => 0u8..4, 2 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8)], any::<u8>(), 0u8..12), 1..4)), 1..3).prop_map(|queries| HOp::Ops { queries }).boxed();
        let s = prop_oneof![Just(0u32), 1u32..1000].prop_map(|gap| HOp::Swap { gap }).boxed();
        let a = attack().prop_map(HOp::Attack).boxed();
        let weights: [(u32, BoxedStrategy<HOp>); 6] = match self.mode {
            HMode::Plain => [(6, w), (6, r), (1, p), (0, o), (1, s), (0, a)],
            HMode::Attacks => [(3, w), (2, r), (1, p), (0, o), (0, s), (8, a)],
            HMode::Operators => [(4, w), (1, r), (0, p), (6, o), (1, s), (0, a)],
            HMode::Faults | HMode::Calls => [(5, w), (5, r), (0, p), (0, o), (1, s), (0, a)],
        };
        let op = proptest::strategy::Union::new_weighted(weights.into_iter().filter(|x| x.0 > 0).collect());
        let v = proptest::strategy::Union::new_weighted(vec![(3u32, plain_value()), (1, some_odd_value())]).boxed();
        let v = if self.mode == HMode::Operators { plain_value() } else { v };
        let u = if self.mode == HMode::Operators { universe(v, 1..=6, 4) } else { prop_oneof![2 => universe(v.clone(), 1..=6, 4), 1 => odd_universe(v, 1..=6, 4)].boxed() };
        (select(self.combos), u, 1u8..5, 0u8..3, vec(op, 1..25))
            .prop_map(|(combo, universe, workers, shape, ops)| HttpCase { combo, universe, workers, shape, ops })
            .boxed()
    }
    fn run(&self, c: &HttpCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 3_600_000, "");
        w.ctl.tap.store(self.mode == HMode::Calls, Ordering::SeqCst);
        w.open()?;
        let srv = Srv::start(w.db(), c.workers as usize, c.shape)?;
        take_other_panics();
        let m = Model { universe: c.universe.clone(), chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let mut run = HRun { w, srv, m, stalled: vec![], workers: c.workers as usize, st: HStats::default(), odd: false };
        let r = run.go(c);
        let s = &run.st;
        cx.hit(combo_name(c.combo));
        cx.hit_n("writes", s.writes);
        cx.hit_n("reads", s.reads);
        cx.hit_n("results with samples", s.non_empty);
        cx.hit_n("reads of several queries", s.multi);
        cx.hit_n("undecodable requests refused", s.refused);
        cx.hit_n("damaged requests that are still decodable", s.decodable);
        cx.hit_n("damaged requests left out as unclear", s.unclear);
        cx.hit_n("connections attacked", s.attacks);
        cx.hit_n("stalled clients", s.stalls);
        cx.hit_n("reads with operators refused", s.ops_refused);
        cx.hit_n("reads with operators answered", s.ops_answered);
        cx.hit_n("requests hit by a fault", s.faults);
        cx.hit_n("requests refused because of a fault", s.fault_refused);
        r?;
        let s = &run.st;
        cx.nontrivial(match self.mode {
            HMode::Plain => s.writes > 0 && s.non_empty > 0,
            HMode::Attacks => s.refused > 0 || s.attacks > 0,
            HMode::Operators => s.writes > 0 && s.ops_refused + s.ops_answered > 0,
            HMode::Faults | HMode::Calls => s.fault_refused > 0,
        });
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        200
    }
}

/// Messages carry no double that equals the default, so -0.0 arrives as 0.0 (the generated encoder decides so,
/// and that of Prometheus does the same).
fn no_sign_of_zero(mut a: Answer) -> Answer {
    for p in a.values_mut().flatten() {
        if p.1 == 1 << 63 {
            p.1 = 0;
        }
    }
    a
}

#[derive(Default)]
struct HStats {
    writes: u64,
    reads: u64,
    non_empty: u64,
    multi: u64,
    refused: u64,
    decodable: u64,
    unclear: u64,
    attacks: u64,
    stalls: u64,
    ops_refused: u64,
    ops_answered: u64,
    faults: u64,
    fault_refused: u64,
}

struct HRun {
    w: World,
    srv: Srv,
    m: Model,
    stalled: Vec<Conn>,
    workers: usize,
    st: HStats,
    odd: bool,
}

/// Patterns with what they match, both as the whole of a string.
const PATTERNS: &[(&str, fn(&str) -> bool)] = &[
    ("1", |s| s == "1"),
    (".*", |_| true),
    (".+", |s| !s.is_empty()),
    ("1|2", |s| s == "1" || s == "2"),
    ("x.*", |s| s.starts_with('x')),
    ("[0-9]", |s| s.len() == 1 && s.as_bytes()[0].is_ascii_digit()),
    ("", |s| s.is_empty()),
    ("u.", |s| s.len() == 2 && s.starts_with('u')),
    ("(y|up)", |s| s == "y" || s == "up"),
    (".", |s| s.chars().count() == 1),
    ("1?", |s| s.is_empty() || s == "1"),
    ("localhost:90[0-9]+", |s| s.strip_prefix("localhost:90").map_or(false, |r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()))),
];

impl HRun {
    fn times(&self, m: &Model, s: usize, first: u32, samples: &HSamples) -> Vec<(i64, u64)> {
        let win = self.w.win;
        let mut t = m.last(s).unwrap_or(win.0 + first as u64);
        let mut out = vec![];
        for (step, at, bits) in samples {
            let ts = match at {
                0 => {
                    t = t + *step as u64;
                    t as i64
                }
                1 => win.0 as i64 - *step as i64,
                2 => win.1 as i64 + *step as i64,
                3 => -(*step as i64),
                // a time within the window, but for its sign
                4 => -((win.0 + *step as u64) as i64),
                _ => (win.0 + *step as u64) as i64 | i64::MIN,
            };
            // a sample sent for a time that an older chunk has a sample for would not be one to tell apart
            out.push((ts, *bits));
        }
        out
    }
    /// The message and what the model is after it.
    fn writing(&self, series: &[(u16, u8, u32, HSamples)]) -> (Vec<WSeries>, Model) {
        let mut m = self.m.clone();
        let mut out = vec![];
        for (s, perm, first, samples) in series {
            let s = *s as usize % m.universe.len();
            let pts = self.times(&m, s, *first, samples);
            for (t, b) in &pts {
                if *t > 0 {
                    m.write(s, *t as u64, *b);
                }
            }
            let l = labels(&m.universe[s], *perm);
            out.push(WSeries { labels: ls_of(&l), samples: pts });
        }
        (out, m)
    }
    fn reading(&self, queries: &[(Q, u8)]) -> Vec<WQuery> {
        queries
            .iter()
            .map(|(q, neg)| {
                let times: Vec<u64> = self.m.times().into_iter().map(|t| t.min(i64::MAX as u64)).collect();
                let (a, b) = q.range(&times);
                let (mut a, mut b) = (a.min(i64::MAX as u64) as i64, b.min(i64::MAX as u64) as i64);
                match neg {
                    1 => a = -1,
                    2 => a = i64::MIN,
                    3 => {
                        b = -((a & 0xffff) + 1);
                        a = b - 5;
                    }
                    4 => b = i64::MAX,
                    5 => a = -a,
                    _ => {}
                }
                let mut matchers: Vec<(i64, String, String)> = q.matchers(&self.m.universe).into_iter().map(|(n, v)| (0, n, v)).collect();
                if *neg == 6 {
                    // only series without this label: one that another series has, or nobody
                    let ls = &self.m.universe[q.perm as usize % self.m.universe.len()];
                    let n = ls.get(q.from.0 as usize % (ls.len() + 1)).map_or("nobody", |l| l.0.as_str()).to_string();
                    if !matchers.is_empty() && !matchers.iter().any(|m| m.1 == n) {
                        let at = q.to.0 as usize % (matchers.len() + 1);
                        matchers.insert(at, (0, n, String::new()));
                    }
                }
                WQuery { start: a, end: b, matchers }
            })
            .collect()
    }
    fn expect(&self, q: &WQuery) -> Answer {
        if q.end < 0 {
            return Answer::new();
        }
        no_sign_of_zero(self.m.expect_read(&q.matchers, q.start.max(0) as u64, q.end as u64))
    }
    fn check_read(&mut self, qs: &[WQuery], r: &Resp, maybe: &Answer, what: &str) -> R {
        if r.status / 100 != 2 {
            if qs.iter().any(|q| q.start > q.end || q.matchers.iter().all(|m| m.2.is_empty())) {
                return Ok(());
            }
            bail!("read-refused", "{}: a read of {:?} is answered with {}", what, qs, r.status);
        }
        let plain = match snap_dec(&r.body) {
            Some(p) => p,
            None => bail!("bad-response", "{}: the response to {:?} is not snappy: {:?}", what, qs, r.body),
        };
        let res = match dec_response(&plain) {
            Some(p) => p,
            None => bail!("bad-response", "{}: the response to {:?} cannot be decoded", what, qs),
        };
        if res.len() != qs.len() {
            bail!("results", "{}: {} results for {} queries", what, res.len(), qs.len());
        }
        for (q, s) in qs.iter().zip(&res) {
            let got = no_sign_of_zero(answer(s)?);
            let want = self.expect(q);
            self.st.non_empty += !want.is_empty() as u64;
            compare(&got, &want, maybe, &format!("{}: read of {:?}", what, q))?;
        }
        Ok(())
    }
    fn post(&self, path: &str, body: &[u8], how: Transfer, what: &str) -> R<Resp> {
        self.srv.ask(&request("POST", path, body, how, true), what)
    }
    fn write(&mut self, series: Vec<WSeries>, after: Model, enc: u32, how: Transfer, what: &str) -> R {
        let r = self.post(self.srv.write, &snap_enc(&enc_write(&series, enc)), how, what)?;
        if r.status / 100 != 2 {
            bail!("write-refused", "{}: a write of {:?} is answered with {}", what, series, r.status);
        }
        self.m = after;
        self.st.writes += 1;
        Ok(())
    }
    fn read(&mut self, queries: &[(Q, u8)], enc: u32, how: Transfer, what: &str) -> R {
        let qs = self.reading(queries);
        let r = self.post(self.srv.read, &snap_enc(&enc_read(&qs, enc)), how, what)?;
        self.st.reads += 1;
        self.st.multi += (qs.len() > 1) as u64;
        self.check_read(&qs, &r, &Answer::new(), what)
    }
    /// Everything stored, through the server and past it.
    fn everything(&mut self, what: &str) -> R {
        let mut qs = vec![];
        for ls in &self.m.universe {
            qs.push(WQuery { start: 0, end: i64::MAX, matchers: ls.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() });
            qs.push(WQuery { start: i64::MIN, end: i64::MAX, matchers: vec![(0, ls[0].0.clone(), ls[0].1.clone())] });
        }
        // there need not be an answer to those that look for nothing
        qs.retain(|q| q.matchers.iter().any(|m| !m.2.is_empty()));
        let r = self.post(self.srv.read, &snap_enc(&enc_read(&qs, 0)), Transfer::Length, what)?;
        self.check_read(&qs, &r, &Answer::new(), what)?;
        for ls in self.m.universe.clone() {
            let want = self.m.expect(&ls, 0, u64::MAX);
            match self.w.query(labels(&ls, 0), 0, u64::MAX)? {
                Ok(got) => compare(&got, &want, &Answer::new(), &format!("{}: query past the server", what))?,
                Err(e) => bail!("query-failed", "{}: query past the server: {}", what, e),
            }
        }
        Ok(())
    }
    /// Is the server there, and does it do what it should?
    fn probe(&mut self, what: &str) -> R {
        let after = {
            let s = 0;
            let (ws, m) = self.writing(&[(s, 0, 5, vec![(1, 0, 0x3ff0_0000_0000_0000)])]);
            (ws, m)
        };
        self.write(after.0, after.1, 0, Transfer::Length, what)?;
        let ls = self.m.universe[0].clone();
        let qs = vec![WQuery { start: 0, end: i64::MAX, matchers: ls.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() }];
        let r = self.post(self.srv.read, &snap_enc(&enc_read(&qs, 0)), Transfer::Length, what)?;
        self.check_read(&qs, &r, &Answer::new(), what)
    }
    /// Can these label sets be stored and read back by the rules the properties are about?
    fn ordinary(series: &[WSeries]) -> bool {
        series.iter().all(|s| {
            let mut names: Vec<&String> = s.labels.iter().map(|l| &l.0).collect();
            names.sort();
            names.dedup();
            let form = |n: &str| n.bytes().enumerate().all(|(i, b)| b == b'_' || b.is_ascii_alphabetic() || (i > 0 && b.is_ascii_digit())) && !n.is_empty();
            names.len() == s.labels.len() && !names.is_empty() && names.iter().all(|n| form(n))
        })
    }
    fn go(&mut self, c: &HttpCase) -> R {
        for op in &c.ops {
            beat();
            match op {
                HOp::Write { series, enc, how, fault } => {
                    let (ws, after) = self.writing(series);
                    if fault.is_none() {
                        self.write(ws, after, *enc, *how, "write")?;
                    } else {
                        let body = snap_enc(&enc_write(&ws, *enc));
                        let h = arm(&self.w, fault);
                        let r = self.post(self.srv.write, &body, *how, "write with faults");
                        let n = disarm(&self.w, h);
                        self.st.faults += (n > 0) as u64;
                        let r = r?;
                        if r.status / 100 == 2 {
                            self.m = after;
                            self.everything("after a write that was acknowledged in spite of a failed request")?;
                        } else {
                            self.st.fault_refused += 1;
                            if n == 0 {
                                bail!("write-refused", "a write of {:?} is answered with {}", ws, r.status);
                            }
                            // nothing but what was sent may be there
                            let maybe: Answer = after.universe.iter().enumerate().map(|(i, l)| (l.clone(), after.series(i).into_iter().collect::<Points>())).collect();
                            for ls in self.m.universe.clone() {
                                let want = self.m.expect(&ls, 0, u64::MAX);
                                match self.w.query(labels(&ls, 0), 0, u64::MAX)? {
                                    Ok(got) => compare(&got, &want, &maybe, "after a write that failed")?,
                                    Err(e) => bail!("query-failed", "after a write that failed: {}", e),
                                }
                            }
                            self.write(ws, after, *enc, *how, "a write repeated after a fault")?;
                            self.everything("after a write was repeated")?;
                        }
                    }
                }
                HOp::Read { queries, enc, how, fault } => {
                    if fault.is_some() {
                        let qs = self.reading(queries);
                        let h = arm(&self.w, fault);
                        let r = self.post(self.srv.read, &snap_enc(&enc_read(&qs, *enc)), *how, "read with faults");
                        let n = disarm(&self.w, h);
                        self.st.faults += (n > 0) as u64;
                        let r = r?;
                        if r.status / 100 != 2 && n > 0 {
                            self.st.fault_refused += 1;
                        } else {
                            self.check_read(&qs, &r, &Answer::new(), &format!("read with {} failed requests", n)).map_err(|mut f| {
                                if n > 0 {
                                    f.sig = "answer-hides-failure".into();
                                }
                                f
                            })?;
                        }
                    }
                    self.read(queries, *enc, *how, "read")?;
                }
                HOp::Pipeline { queries } => self.pipeline(queries)?,
                HOp::Ops { queries } => self.operators(queries)?,
                HOp::Swap { gap } => {
                    let start = self.w.win.1 + 1 + *gap as u64;
                    if let Err(e) = self.w.swap_at(start)? {
                        bail!("rollover-failed", "{}", e);
                    }
                    self.m.chunks.push(MChunk { win: self.w.win, data: BTreeMap::new() });
                }
                HOp::Attack(a) => {
                    self.attack(a)?;
                    if !self.odd {
                        self.probe(&format!("after {:?}", a))?;
                    }
                }
            }
        }
        self.everything("at the end")?;
        let stalled = std::mem::take(&mut self.stalled);
        if !stalled.is_empty() {
            drop(stalled);
            self.probe("after the stalled clients went away")?;
            self.everything("after the stalled clients went away")?;
        }
        Ok(())
    }
    fn pipeline(&mut self, queries: &[(Q, u8)]) -> R {
        let qs = self.reading(queries);
        let mut raw = vec![];
        for (i, q) in qs.iter().enumerate() {
            raw.extend(request("POST", self.srv.read, &snap_enc(&enc_read(std::slice::from_ref(q), 0)), Transfer::Length, i + 1 == qs.len()));
        }
        let n = qs.len();
        let go = |port: u16| -> std::io::Result<Vec<Resp>> {
            let mut c = Conn::open(port)?;
            c.send(&raw)?;
            (0..n).map(|_| c.response(false)).collect()
        };
        let rs = match go(self.srv.port).or_else(|_| go(self.srv.port)) {
            Ok(rs) => rs,
            Err(e) => bail!("no-answer", "{} reads sent together: {}", n, e),
        };
        for (q, r) in qs.iter().zip(&rs) {
            self.st.reads += 1;
            self.check_read(std::slice::from_ref(q), r, &Answer::new(), "read among others on one connection")?;
        }
        Ok(())
    }
    fn operators(&mut self, queries: &[(Q, Vec<(u8, u8, u8)>)]) -> R {
        let mut qs = vec![];
        for (q, ops) in queries {
            let mut x = self.reading(&[(q.clone(), 0)]).remove(0);
            if x.start > x.end {
                std::mem::swap(&mut x.start, &mut x.end);
            }
            if let Some(first) = ops.first() {
                if first.1 % 4 == 0 {
                    // only these, no equality beside them
                    x.matchers.clear();
                }
            }
            for (t, who, pat) in ops {
                let ls = &self.m.universe[*who as usize % self.m.universe.len()];
                let l = &ls[*pat as usize % ls.len()];
                // 4 and 5: (in)equality to nothing, which is what a series without the label has
                x.matchers.push(match t {
                    0 => (0, l.0.clone(), l.1.clone()),
                    1 => (1, l.0.clone(), l.1.clone()),
                    4 | 5 => (*t as i64 - 4, if *pat == 11 { "nobody".to_string() } else { l.0.clone() }, String::new()),
                    // operators that do not exist
                    6 => ([4, 5, 7, 8, 127, 255, i32::MAX as i64, -1][*who as usize % 8], l.0.clone(), l.1.clone()),
                    k => (*k as i64, l.0.clone(), PATTERNS[*pat as usize].0.to_string()),
                });
                if *who % 3 == 0 {
                    let n = x.matchers.len();
                    x.matchers.swap(0, n - 1);
                }
            }
            qs.push(x);
        }
        let r = self.post(self.srv.read, &snap_enc(&enc_read(&qs, 0)), Transfer::Length, "read with operators")?;
        // what the server has to answer: equality throughout, and something to look for
        let all_eq = qs.iter().all(|q| q.matchers.iter().all(|m| m.0 == 0) && q.matchers.iter().any(|m| !m.2.is_empty()));
        if r.status / 100 != 2 {
            if all_eq {
                bail!("read-refused", "a read of {:?} is answered with {}", qs, r.status);
            }
            self.st.ops_refused += 1;
            return Ok(());
        }
        if qs.iter().any(|q| q.matchers.iter().any(|m| !(0..4).contains(&m.0))) {
            bail!("no-such-operator", "a read of {:?} is answered with {}", qs, r.status);
        }
        self.st.ops_answered += 1;
        let res = match snap_dec(&r.body).and_then(|p| dec_response(&p)) {
            Some(p) if p.len() == qs.len() => p,
            _ => bail!("bad-response", "the response to {:?} is not one", qs),
        };
        for (q, s) in qs.iter().zip(&res) {
            let got = no_sign_of_zero(answer(s)?);
            let mut want = Answer::new();
            for (i, ls) in self.m.universe.iter().enumerate() {
                let fits = q.matchers.iter().all(|(t, n, v)| {
                    let have = ls.iter().find(|l| l.0 == *n).map_or("", |l| l.1.as_str());
                    let re = || PATTERNS.iter().find(|p| p.0 == v).map_or(false, |p| (p.1)(have));
                    match t {
                        0 => have == v,
                        1 => have != v,
                        2 => re(),
                        _ => !re(),
                    }
                });
                let pts: Points = self.m.series(i).range(q.start.max(0) as u64..=q.end.max(0) as u64).map(|(t, b)| (*t, *b)).collect();
                if fits && !pts.is_empty() {
                    want.insert(ls.clone(), pts);
                }
            }
            compare(&got, &no_sign_of_zero(want), &Answer::new(), &format!("read with operators {:?}", q))?;
        }
        Ok(())
    }
    fn attack(&mut self, a: &Attack) -> R {
        match a {
            Attack::Raw { bytes, reset } => {
                self.st.attacks += 1;
                if let Ok(mut c) = Conn::open(self.srv.port) {
                    let _ = c.send(bytes);
                    if *reset {
                        c.reset();
                    } else {
                        c.end();
                    }
                }
            }
            Attack::Body { write, layer, muts, bytes, how, series, queries, enc } => {
                let (ws, _) = self.writing(series);
                let qs = self.reading(queries);
                let mut msg = if *write { enc_write(&ws, *enc) } else { enc_read(&qs, *enc) };
                let body = match layer {
                    0 => {
                        mutate(&mut msg, muts);
                        snap_enc(&msg)
                    }
                    1 => {
                        let mut b = snap_enc(&msg);
                        mutate(&mut b, muts);
                        b
                    }
                    2 => msg,
                    _ => bytes.clone(),
                };
                let plain = snap_dec(&body);
                if *write {
                    let dec = plain.as_ref().map_or(Dec::Invalid, |p| dec_write(p));
                    match dec {
                        Dec::Unclear => self.st.unclear += 1,
                        Dec::Invalid => {
                            let r = self.post(self.srv.write, &body, *how, "a write that cannot be decoded")?;
                            if r.status / 100 == 2 {
                                bail!("bad-write-accepted", "a write that cannot be decoded is answered with {}: {:?}", r.status, body);
                            }
                            self.st.refused += 1;
                            self.everything("after a write that cannot be decoded")?;
                        }
                        Dec::Valid(ws) => {
                            if !HRun::ordinary(&ws) {
                                self.st.unclear += 1;
                                return Ok(());
                            }
                            let mut m = self.m.clone();
                            for s in &ws {
                                let mut ls = s.labels.clone();
                                ls.sort();
                                let i = match m.universe.iter().position(|u| *u == ls) {
                                    Some(i) => i,
                                    None => {
                                        m.universe.push(ls);
                                        m.universe.len() - 1
                                    }
                                };
                                for (t, b) in &s.samples {
                                    if *t > 0 {
                                        m.write(i, *t as u64, *b);
                                    }
                                }
                            }
                            let r = self.post(self.srv.write, &body, *how, "a changed write")?;
                            if r.status / 100 != 2 {
                                bail!("write-refused", "a write of {:?} is answered with {}", ws, r.status);
                            }
                            self.m = m;
                            self.st.decodable += 1;
                            self.everything("after a changed write")?;
                        }
                    }
                } else {
                    let dec = plain.as_ref().map_or(Dec::Invalid, |p| dec_read(p));
                    match dec {
                        Dec::Unclear => self.st.unclear += 1,
                        Dec::Invalid => {
                            let r = self.post(self.srv.read, &body, *how, "a read that cannot be decoded")?;
                            if r.status / 100 == 2 {
                                bail!("bad-read-answered", "a read that cannot be decoded is answered with {}: {:?}", r.status, body);
                            }
                            self.st.refused += 1;
                        }
                        Dec::Valid(qs) => {
                            let r = self.post(self.srv.read, &body, *how, "a changed read")?;
                            self.st.decodable += 1;
                            if !qs.is_empty() && qs.iter().all(|q| !q.matchers.is_empty() && q.matchers.iter().all(|m| m.0 == 0 && !m.1.is_empty() && !m.2.is_empty() && !m.1.contains('='))) {
                                self.check_read(&qs, &r, &Answer::new(), "a changed read")?;
                            }
                        }
                    }
                }
            }
            Attack::Path { path, method, write_body, series } => {
                let path = format!("/{}", path);
                let path = match path.as_str() {
                    "/x" => format!("{}x", self.srv.read),
                    "/y" => format!("{}/", self.srv.write),
                    "/z" => self.srv.write[..self.srv.write.len() - 1].to_string(),
                    p => p.to_string(),
                };
                if path == self.srv.read || path == self.srv.write {
                    return Ok(());
                }
                let (ws, _) = self.writing(series);
                let body = if *write_body { snap_enc(&enc_write(&ws, 0)) } else { vec![] };
                let method = ["POST", "GET", "PUT", "DELETE", "PATCH", "OPTIONS"][*method as usize % 6];
                let r = self.srv.ask(&request(method, &path, &body, Transfer::Length, true), "another path")?;
                if r.status != 404 {
                    bail!("not-404", "{} {} is answered with {}; the paths are {} and {}", method, path, r.status, self.srv.read, self.srv.write);
                }
                self.st.attacks += 1;
                self.everything("after a request to another path")?;
            }
            Attack::Cut { at, reset, how, series } => {
                let (ws, _) = self.writing(series);
                let raw = request("POST", self.srv.write, &snap_enc(&enc_write(&ws, 0)), *how, true);
                // without its last byte the body is not complete, in whatever form it is sent
                let body_end = if matches!(how, Transfer::Chunked(_)) { raw.len() - 7 } else { raw.len() };
                let n = (*at as usize * body_end) >> 16;
                if let Ok(mut c) = Conn::open(self.srv.port) {
                    let _ = c.send(&raw[..n]);
                    if *reset {
                        c.reset();
                    } else {
                        c.end();
                        let _ = c.response(false);
                    }
                }
                self.st.attacks += 1;
                self.everything("after a write that was cut short")?;
            }
            Attack::BadTransfer { kind } => {
                let body = snap_enc(&enc_read(&self.reading(&[]), 0));
                let mut raw = format!("POST {} HTTP/1.1\r\nHost: a\r\n", self.srv.read).into_bytes();
                let rest: &[u8] = match kind {
                    0 => b"Transfer-Encoding: chunked\r\n\r\nxyz\r\n",
                    1 => b"Transfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\nabc",
                    2 => b"Transfer-Encoding: chunked\r\n\r\n-1\r\nabc\r\n",
                    3 => b"Transfer-Encoding: gzip\r\n\r\nabc",
                    4 => b"Content-Length: abc\r\n\r\nabc",
                    5 => b"Content-Length: 1000000\r\n\r\nabc",
                    6 => b"Content-Length: 18446744073709551615\r\n\r\nabc",
                    7 => b"Transfer-Encoding: chunked\r\nContent-Length: 2\r\n\r\n5\r\nabc",
                    8 => b"Transfer-Encoding: chunked\r\n\r\n3;ext=1\r\nabc\r\n0\r\nTrailer: x\r\n\r\n",
                    _ => b"Expect: something-else\r\nContent-Length: 3\r\n\r\nabc",
                };
                raw.extend_from_slice(rest);
                raw.extend_from_slice(&body);
                if let Ok(mut c) = Conn::open(self.srv.port) {
                    let _ = c.send(&raw);
                    c.end();
                    let _ = c.response(false);
                }
                self.st.attacks += 1;
            }
            Attack::Stall { at, write } => {
                if self.stalled.len() + 1 < self.workers {
                    let (ws, _) = self.writing(&[(0, 0, 5, vec![(1, 0, 5)])]);
                    let body = snap_enc(&enc_write(&ws, 0));
                    let raw = request("POST", if *write { self.srv.write } else { self.srv.read }, &body, Transfer::Length, true);
                    let n = (*at as usize * raw.len()) >> 16;
                    if let Ok(mut c) = Conn::open(self.srv.port) {
                        let _ = c.send(&raw[..n]);
                        self.stalled.push(c);
                        self.st.stalls += 1;
                    }
                }
            }
            Attack::Method { method } => {
                let m = ["GET", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "BREW", "HEAD"][*method as usize % 8];
                if let Ok(mut c) = Conn::open(self.srv.port) {
                    let _ = c.send(&request(m, self.srv.read, b"", Transfer::Length, true));
                    let _ = c.response(m == "HEAD");
                }
                self.st.attacks += 1;
            }
            Attack::Range { q, start, end } => {
                let mut x = self.reading(&[(q.clone(), 0)]).remove(0);
                x.start = *start;
                x.end = *end;
                let r = self.post(self.srv.read, &snap_enc(&enc_read(&[x.clone()], 0)), Transfer::Length, "a read over an odd range")?;
                self.check_read(&[x], &r, &Answer::new(), "a read over an odd range")?;
                self.st.attacks += 1;
            }
            Attack::Times { s, ts } => {
                let s = *s as usize % self.m.universe.len();
                let win = self.w.win;
                let ts: Vec<(i64, u64)> = ts.iter().filter(|t| t.0 < win.0 as i64 || t.0 > win.1 as i64).cloned().collect();
                let w = WSeries { labels: self.m.universe[s].clone(), samples: ts };
                let m = self.m.clone();
                self.write(vec![w], m, 1, Transfer::Length, "a write at odd times")?;
                self.everything("after a write at odd times")?;
                self.st.attacks += 1;
            }
        }
        Ok(())
    }
}
