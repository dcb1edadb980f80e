//! C07: processes that end at chosen file operations, and what the next one finds.
use crate::bail;
use crate::crashpt;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tikv_client::sim::{Op as KvOp, Verdict};

// ---------------------------------------------------------------------------------------------
// the process that ends

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Open { clock: u64 },
    /// one write each
    Write { s: usize, pts: Points },
    /// all in one batch
    Batch { s: usize, pts: Points },
    Swap { start: u64 },
    Flush,
    /// wait for the background flusher
    Wait,
    /// all series by their sets and by their single labels
    Dump,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub combo: Combo,
    pub dir: PathBuf,
    /// the TiKV stand-in's data
    pub kv: PathBuf,
    pub log: PathBuf,
    pub universe: Vec<Ls>,
    pub ops: Vec<SOp>,
    /// (index in ops, nth file operation in it, kind)
    pub crash: Option<(usize, u64, u8)>,
}

pub const CHUNK_MS: u64 = 3_600_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Begin(usize),
    /// the sample of this number is being written, or was
    Sample(usize),
    Done(usize, u64),
    Failed(usize, String),
    Seen(usize, Vec<(Vec<(String, String)>, Vec<(Ls, Points)>)>),
}

struct Log(std::fs::File);
impl Log {
    fn put(&mut self, e: &Ev) {
        let mut b = serde_json::to_vec(e).unwrap();
        b.push(b'\n');
        self.0.write_all(&b).unwrap();
    }
}

fn load_kv(p: &Path) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let b = std::fs::read(p).unwrap_or_default();
    let mut m = BTreeMap::new();
    let mut at = 0;
    let mut next = || {
        if at + 4 > b.len() {
            return None;
        }
        let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        let v = b[at + 4..at + 4 + n].to_vec();
        at += 4 + n;
        Some(v)
    };
    while let (Some(k), Some(v)) = (next(), next()) {
        m.insert(k, v);
    }
    m
}

/// The queries of a dump.
pub fn probes(universe: &[Ls]) -> Vec<Ls> {
    let mut v: Vec<Ls> = universe.to_vec();
    let single: BTreeSet<(String, String)> = universe.iter().flatten().cloned().collect();
    v.extend(single.into_iter().map(|l| vec![l]));
    v.sort();
    v.dedup();
    v
}

pub fn child(file: &Path) -> ! {
    let s: Script = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let mut log = Log(std::fs::OpenOptions::new().create(true).append(true).open(&s.log).unwrap());
    let sim = tikv_client::sim::cluster("kv");
    sim.restore(load_kv(&s.kv));
    let mut kv = std::fs::OpenOptions::new().create(true).append(true).open(&s.kv).unwrap();
    crashpt::track(&s.dir);
    sim.set_judge(Some(Box::new(|_, op, _| {
        // a request to the shared store is a point to end at, too
        if op == KvOp::Put {
            if let Some(k) = crashpt::due() {
                if k == 0 {
                    crashpt::die()
                }
                crashpt::arm(0, 9);
            }
        }
        Verdict::Ok
    })));
    sim.set_tap(Some(Box::new(move |k, v| {
        let mut b = vec![];
        for x in [k, v] {
            b.extend((x.len() as u32).to_le_bytes());
            b.extend(x);
        }
        kv.write_all(&b).unwrap();
        if crashpt::armed_after() {
            crashpt::die()
        }
    })));
    let ctl = Arc::new(Ctl::default());
    let mut db: Option<Arc<dyn Db>> = None;
    for (i, op) in s.ops.iter().enumerate() {
        log.put(&Ev::Begin(i));
        crashpt::take_count();
        match s.crash {
            Some((at, nth, kind)) if at == i => crashpt::arm(nth, kind),
            _ => {}
        }
        let e = |r: MResult<()>| r.map_err(|e| e.to_string());
        let r: Result<(), String> = match guard(|| match op {
            SOp::Open { clock } => {
                crate::clock::set(*clock);
                open_db(s.combo, &s.dir, "kv", Duration::from_millis(CHUNK_MS), &ctl).map(|d| db = Some(d)).map_err(|e| e.to_string())
            }
            SOp::Write { s: n, pts } => {
                for (k, p) in pts.iter().enumerate() {
                    log.put(&Ev::Sample(k));
                    e(db.as_ref().unwrap().write(labels(&s.universe[*n], k as u8), tp(*p)))?;
                }
                Ok(())
            }
            SOp::Batch { s: n, pts } => e(db.as_ref().unwrap().write_batch(labels(&s.universe[*n], 0), pts.iter().map(|p| tp(*p)).collect())),
            SOp::Swap { start } => e(db.as_ref().unwrap().swap(*start)),
            SOp::Flush => {
                ctl.flush();
                Ok(())
            }
            SOp::Wait => {
                real_sleep(Duration::from_millis(700));
                Ok(())
            }
            SOp::Dump => {
                let mut seen = vec![];
                for q in probes(&s.universe) {
                    let r = db.as_ref().unwrap().query(labels(&q, 0), 0, u64::MAX).map_err(|e| format!("query {:?}: {}", q, e))?;
                    let a = answer_of(r).map_err(|f| format!("query {:?}: {}", q, f.msg))?;
                    if !a.is_empty() {
                        seen.push((q, a.into_iter().collect()));
                    }
                }
                log.put(&Ev::Seen(i, seen));
                Ok(())
            }
        }) {
            Outcome::Done(r) => r,
            _ => Err("panic".into()),
        };
        if s.crash.map_or(false, |c| c.0 == i) {
            // it took fewer operations than that: end here
            log.put(&Ev::Done(i, crashpt::take_count()));
            crashpt::disarm();
            unsafe { libc::_exit(0) }
        }
        match r {
            Ok(()) => log.put(&Ev::Done(i, crashpt::take_count())),
            Err(e) => {
                log.put(&Ev::Failed(i, format!("{}; panics: {:?}", e, take_other_panics())));
                break;
            }
        }
    }
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------------------------------------
// cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Write { s: u16, n: u8, batch: bool, bits: u64 },
    Swap { gap: u16 },
    Flush,
    Wait,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<COp>,
    /// which of the operations (opening is the first), the nth file operation in it, how
    pub at: u16,
    pub nth: u64,
    pub kind: u8,
    /// look at everything after opening
    pub look: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrashCase {
    pub combo: Combo,
    pub universe: Vec<Ls>,
    pub lives: Vec<Life>,
}

pub struct Crash {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    /// begun, not known to have ended
    Open,
    Acked,
    /// must be there from now on
    Durable,
}

struct Attempt {
    s: usize,
    ts: u64,
    bits: u64,
    chunk: usize,
    st: St,
}

struct Book {
    universe: Vec<Ls>,
    tries: Vec<Attempt>,
    chunk: usize,
    /// acknowledging makes durable
    tt: bool,
}

impl Book {
    /// An answer to one query has to be made of prefixes and lack nothing durable.
    fn judge(&self, q: &Ls, a: &BTreeMap<Ls, Points>, what: &str) -> R<u64> {
        let mut n = 0;
        for (l, pts) in a {
            let s = match self.universe.iter().position(|u| u == l) {
                Some(s) => s,
                None => bail!("unknown-series", "{}: query {:?} returns {:?}, which was never written", what, q, l),
            };
            if !q.iter().all(|x| l.contains(x)) {
                bail!("wrong-series", "{}: query {:?} returns {:?}", what, q, l);
            }
            if pts.windows(2).any(|w| w[0].0 >= w[1].0) {
                bail!("order", "{}: query {:?}: samples of {:?} are not in time order: {:?}", what, q, l, pts);
            }
            for p in pts {
                n += 1;
                if !self.tries.iter().any(|t| t.s == s && t.ts == p.0 && t.bits == p.1) {
                    bail!("never-written", "{}: query {:?}: {:?} has the sample {:?}, which was never written to it", what, q, l, p);
                }
            }
        }
        for (s, l) in self.universe.iter().enumerate() {
            if !q.iter().all(|x| l.contains(x)) {
                continue;
            }
            let none = vec![];
            let got: BTreeSet<u64> = a.get(l).unwrap_or(&none).iter().map(|p| p.0).collect();
            // by chunk: first one missing
            let mut gap: BTreeMap<usize, u64> = BTreeMap::new();
            for t in self.tries.iter().filter(|t| t.s == s) {
                let have = got.contains(&t.ts);
                if have {
                    if let Some(g) = gap.get(&t.chunk) {
                        bail!("not-a-prefix", "{}: query {:?}: {:?} has the sample at {} but not the earlier one at {} of the same chunk", what, q, l, t.ts, g);
                    }
                } else {
                    if t.st == St::Durable {
                        bail!("lost", "{}: query {:?}: {:?} lacks the sample at {}, which was on disk", what, q, l, t.ts);
                    }
                    gap.entry(t.chunk).or_insert(t.ts);
                }
            }
        }
        Ok(n)
    }
}

fn run_child(root: &Path, k: usize, s: &Script) -> R<(i32, Vec<Ev>)> {
    let file = root.join(format!("script-{}.json", k));
    std::fs::write(&file, serde_json::to_vec(s).unwrap()).unwrap();
    let err = std::fs::File::create(root.join(format!("err-{}", k))).unwrap();
    let mut c = tied(&mut Command::new(std::env::current_exe().unwrap())).arg("crash-child").arg(&file).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().unwrap();
    let t = Instant::now();
    let code = loop {
        match c.try_wait().unwrap() {
            Some(st) => break st.code(),
            None if t.elapsed() > Duration::from_secs(90) => {
                let _ = c.kill();
                let _ = c.wait();
                bail!("hangs", "life {} does not end: {:?}", k, read_log(&s.log).last());
            }
            None => real_sleep(Duration::from_millis(1)),
        }
        beat();
    };
    match code {
        Some(c @ (0 | crashpt::STATUS)) => Ok((c, read_log(&s.log))),
        other => {
            let e = std::fs::read_to_string(root.join(format!("err-{}", k))).unwrap_or_default();
            let tail: String = e.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
            bail!("process-died", "life {} ended with {:?} at {:?}: {}", k, other, read_log(&s.log).last(), tail)
        }
    }
}

fn read_log(p: &Path) -> Vec<Ev> {
    let b = std::fs::read(p).unwrap_or_default();
    b.split(|c| *c == b'\n').filter(|l| !l.is_empty()).filter_map(|l| serde_json::from_slice(l).ok()).collect()
}

impl Part for Crash {
    type Case = CrashCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CrashCase> {
        let op = prop_oneof![
            8 => (any::<u16>(), 1u8..5, any::<bool>(), value_bits()).prop_map(|(s, n, batch, bits)| COp::Write { s, n, batch, bits }),
            3 => (0u16..50).prop_map(|gap| COp::Swap { gap }),
            3 => Just(COp::Flush),
        ];
        let life = (
            vec(op, 0..9),
            prop_oneof![2 => Just(0u16), 4 => any::<u16>()],
            prop_oneof![3 => 0u64..8, 4 => 0u64..40, 1 => 0u64..160],
            prop_oneof![3 => Just(0u8), 3 => Just(1u8), 2 => 2u8..9],
            any::<bool>(),
        )
            .prop_map(|(ops, at, nth, kind, look)| Life { ops, at, nth, kind, look });
        (select(self.combos), universe(plain_value(), 1..=4, 3), vec(life, 1..4)).prop_map(|(combo, universe, lives)| CrashCase { combo, universe, lives }).boxed()
    }
    fn run(&self, c: &CrashCase, cx: &mut Cx) -> R {
        let root = scratch_dir();
        let dir = root.path().join("db");
        std::fs::create_dir_all(&dir).unwrap();
        let mut book = Book { universe: c.universe.clone(), tries: vec![], chunk: 0, tt: c.combo == TT };
        let mut clock = T0;
        let mut last = T0;
        let mut cut = 0;
        let mut cut_in = BTreeSet::new();
        let mut returned = 0;
        let lives = c.lives.len();
        // two more lives that nothing cuts short
        for k in 0..lives + 2 {
            beat();
            clock = clock.max(last) + 10;
            last = clock;
            let life = c.lives.get(k);
            let mut ops = vec![SOp::Open { clock }];
            let mut plan = vec![];
            if life.map_or(true, |l| l.look) {
                ops.push(SOp::Dump);
            }
            let every = |last: &mut u64, ops: &mut Vec<SOp>, book: &Book| {
                for s in 0..book.universe.len() {
                    ops.push(SOp::Batch { s, pts: vec![(*last + 1, 7), (*last + 2, 8)] });
                    *last += 2;
                }
            };
            match life {
                Some(l) => {
                    for o in &l.ops {
                        match o {
                            COp::Write { s, n, batch, bits } => {
                                let pts: Points = (0..*n as u64).map(|i| (last + 1 + i, bits.wrapping_add(i))).collect();
                                last += *n as u64;
                                let s = *s as usize % book.universe.len();
                                ops.push(if *batch { SOp::Batch { s, pts } } else { SOp::Write { s, pts } });
                            }
                            COp::Swap { gap } => {
                                last += 1 + *gap as u64;
                                ops.push(SOp::Swap { start: last });
                            }
                            COp::Flush => ops.push(SOp::Flush),
                            COp::Wait => ops.push(SOp::Wait),
                        }
                    }
                    plan.push(l);
                }
                None => {
                    every(&mut last, &mut ops, &book);
                    ops.push(SOp::Dump);
                    if k == lives {
                        last += 5;
                        ops.push(SOp::Swap { start: last });
                        every(&mut last, &mut ops, &book);
                        ops.push(SOp::Flush);
                        ops.push(SOp::Dump);
                    }
                }
            }
            let crash = life.map(|l| ((l.at as usize * ops.len()) >> 16, l.nth, l.kind));
            let s = Script {
                combo: c.combo,
                dir: dir.clone(),
                kv: root.path().join("kv"),
                log: root.path().join(format!("log-{}", k)),
                universe: c.universe.clone(),
                ops,
                crash,
            };
            let (code, evs) = run_child(root.path(), k, &s)?;
            if code == crashpt::STATUS {
                cut += 1;
            }
            // what the last one was told and had not flushed may be gone
            for t in book.tries.iter_mut().filter(|t| t.st == St::Acked) {
                t.st = St::Open;
            }
            let what = format!("life {} of {} ({}; cut short so far: {:?})", k + 1, lives + 2, combo_name(c.combo), cut_in);
            // what happened, in order
            let mut now = 0;
            for (n, e) in evs.iter().enumerate() {
                match e {
                    Ev::Begin(i) => {
                        now = *i;
                        match &s.ops[*i] {
                            SOp::Batch { s, pts } => {
                                for p in pts {
                                    book.tries.push(Attempt { s: *s, ts: p.0, bits: p.1, chunk: book.chunk, st: St::Open });
                                }
                            }
                            _ => {}
                        }
                    }
                    Ev::Sample(j) => {
                        if let SOp::Write { s, pts } = &s.ops[now] {
                            // the one before has been acknowledged
                            if *j > 0 {
                                let st = if book.tt { St::Durable } else { St::Acked };
                                book.tries.last_mut().unwrap().st = st;
                            }
                            book.tries.push(Attempt { s: *s, ts: pts[*j].0, bits: pts[*j].1, chunk: book.chunk, st: St::Open });
                        }
                    }
                    Ev::Done(i, count) => match &s.ops[*i] {
                        SOp::Open { .. } | SOp::Swap { .. } => {
                            cx.hit_n(if matches!(s.ops[*i], SOp::Swap { .. }) { "operations in rollovers" } else { "operations in openings" }, *count);
                            book.chunk += 1
                        }
                        SOp::Write { pts, .. } | SOp::Batch { pts, .. } => {
                            let l = book.tries.len();
                            let st = if book.tt { St::Durable } else { St::Acked };
                            for t in &mut book.tries[l - pts.len()..] {
                                t.st = st.clone();
                            }
                        }
                        SOp::Flush => {
                            for t in book.tries.iter_mut().filter(|t| t.st == St::Acked) {
                                t.st = St::Durable;
                            }
                        }
                        _ => {}
                    },
                    Ev::Failed(i, e) => {
                        bail!(
                            match &s.ops[*i] {
                                SOp::Open { .. } => "does-not-open",
                                SOp::Dump => "query-failed",
                                SOp::Swap { .. } => "does-not-roll-over",
                                _ => "does-not-accept",
                            },
                            "{}: {:?} fails: {}",
                            what,
                            s.ops[*i],
                            e
                        )
                    }
                    Ev::Seen(_, seen) => {
                        let seen: BTreeMap<Ls, BTreeMap<Ls, Points>> = seen.iter().map(|(q, a)| (q.clone(), a.iter().cloned().collect())).collect();
                        for q in probes(&c.universe) {
                            let none = BTreeMap::new();
                            returned += book.judge(&q, seen.get(&q).unwrap_or(&none), &what)?;
                        }
                    }
                }
                if n + 1 == evs.len() && code == crashpt::STATUS {
                    cut_in.insert(format!("{:?}", s.ops[now]).split(|c| c == ' ' || c == '{').next().unwrap_or("").to_string());
                }
            }
            if life.is_none() && !matches!(evs.last(), Some(Ev::Done(i, _)) if *i + 1 == s.ops.len()) {
                bail!("process-died", "{}: the last thing it said is {:?}", what, evs.last());
            }
        }
        cx.hit(combo_name(c.combo));
        for w in &cut_in {
            cx.hit(&format!("cut short in {}", w));
        }
        cx.hit_n("samples returned", returned);
        cx.nontrivial(cut > 0 && !book.tries.is_empty());
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}
