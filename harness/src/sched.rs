//! C09, C10: threads under a scheduler that decides at every request to the store (and at named points) who
//! goes on, and threads left to themselves.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{q_strategy, Q};
use crate::world::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::label::Labels;
use monolith::option::DbOpts;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::{Builder, HasTypeName, MonolithDb, MonolithErr};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Running,
    Parked,
    Done,
}

struct Inner {
    th: Vec<Th>,
    tid: Vec<i64>,
    turn: Option<usize>,
}
struct Sched {
    m: Mutex<Inner>,
    cv: Condvar,
}

thread_local! { static ME: Cell<Option<usize>> = Cell::new(None); }
static MODE: AtomicU8 = AtomicU8::new(0); // 0 nothing, 1 scheduled, 2 free
static CUR: Mutex<Option<Arc<Sched>>> = Mutex::new(None);
static JITTER: AtomicU64 = AtomicU64::new(1);

/// A point where another thread may go on.
pub fn point(_: &'static str) {
    match MODE.load(SeqCst) {
        1 => {
            if let Some(i) = ME.with(|m| m.get()) {
                let s = CUR.lock().unwrap().clone();
                if let Some(s) = s {
                    s.park(i)
                }
            }
        }
        2 => {
            if ME.with(|m| m.get()).is_some() {
                let x = JITTER.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst);
                let x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                match (x >> 33) % 8 {
                    0..=3 => {}
                    4..=6 => std::thread::yield_now(),
                    _ => real_sleep(Duration::from_micros((x >> 40) % 60)),
                }
            }
        }
        _ => {}
    }
}

impl Sched {
    fn park(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        g.th[i] = Th::Parked;
        if g.turn == Some(i) {
            g.turn = None;
        }
        self.cv.notify_all();
        while g.turn != Some(i) {
            g = self.cv.wait(g).unwrap();
        }
        g.th[i] = Th::Running;
        g.turn = None;
    }
}

fn asleep(tid: i64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    s.rsplit(')').next().and_then(|r| r.trim().chars().next()).map_or(false, |c| c == 'S' || c == 'D')
}

pub enum How {
    /// whom to let go on, one choice after the other
    Chosen(Vec<u8>),
    Free(u64),
}

#[derive(Default)]
pub struct Ran {
    pub steps: u64,
    pub switches: u64,
    pub blocked: u64,
}

/// Run the bodies as threads. Err: they block one another for ever.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, how: How) -> R<Ran> {
    let n = bodies.len();
    let s = Arc::new(Sched { m: Mutex::new(Inner { th: vec![Th::Running; n], tid: vec![0; n], turn: None }), cv: Condvar::new() });
    let chosen = match &how {
        How::Chosen(_) => true,
        How::Free(x) => {
            JITTER.store(*x, SeqCst);
            false
        }
    };
    *CUR.lock().unwrap() = Some(s.clone());
    MODE.store(if chosen { 1 } else { 2 }, SeqCst);
    tikv_client::sim::set_before(Some(Arc::new(|_, _| point("store"))));
    monolith::verif::set_point_hook(Some(point));
    let go = Arc::new(std::sync::Barrier::new(n));
    for (i, b) in bodies.into_iter().enumerate() {
        let s = s.clone();
        let go = go.clone();
        std::thread::Builder::new()
            .name(format!("actor-{}", i))
            .spawn(move || {
                ME.with(|m| m.set(Some(i)));
                s.m.lock().unwrap().tid[i] = unsafe { libc::syscall(libc::SYS_gettid) };
                if chosen {
                    s.park(i)
                } else {
                    go.wait();
                }
                b();
                let mut g = s.m.lock().unwrap();
                g.th[i] = Th::Done;
                s.cv.notify_all();
            })
            .unwrap();
    }
    let mut ran = Ran::default();
    let r = match how {
        How::Chosen(choices) => drive(&s, &choices, &mut ran),
        How::Free(_) => wait_free(&s),
    };
    MODE.store(0, SeqCst);
    *CUR.lock().unwrap() = None;
    tikv_client::sim::set_before(None);
    monolith::verif::set_point_hook(None);
    r.map(|_| ran)
}

const STUCK: Duration = Duration::from_secs(8);
const SPINS: Duration = Duration::from_secs(40);

fn wait_free(s: &Sched) -> R {
    let mut asleep_since: Option<Instant> = None;
    let start = Instant::now();
    let mut g = s.m.lock().unwrap();
    loop {
        if g.th.iter().all(|t| *t == Th::Done) {
            return Ok(());
        }
        g = s.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
        let waiting: Vec<i64> = g.th.iter().zip(&g.tid).filter(|x| *x.0 == Th::Running).map(|x| *x.1).collect();
        if start.elapsed() > Duration::from_millis(500) && waiting.iter().all(|t| asleep(*t)) {
            let t = *asleep_since.get_or_insert(Instant::now());
            if t.elapsed() > STUCK {
                return fail("deadlock", format!("{} threads block for ever", waiting.len()));
            }
        } else {
            asleep_since = None;
        }
        if start.elapsed() > SPINS * 2 {
            return fail("deadlock", "threads do not come to an end");
        }
        beat();
    }
}

fn drive(s: &Sched, choices: &[u8], ran: &mut Ran) -> R {
    let mut last: Option<usize> = None;
    let mut at = 0;
    loop {
        // until everyone is parked, done, or waits for somebody
        let mut since = vec![0u32; s.m.lock().unwrap().th.len()];
        let settled = Instant::now();
        let mut stuck_since: Option<Instant> = None;
        let parked: Vec<usize> = loop {
            let mut g = s.m.lock().unwrap();
            let mut moving = false;
            if g.turn.is_some() {
                moving = true;
            } else {
                for i in 0..g.th.len() {
                    if g.th[i] == Th::Running {
                        if g.tid[i] != 0 && asleep(g.tid[i]) {
                            since[i] += 1;
                        } else {
                            since[i] = 0;
                        }
                        moving |= since[i] < 4;
                    }
                }
            }
            if !moving {
                if g.th.iter().all(|t| *t == Th::Done) {
                    return Ok(());
                }
                let p: Vec<usize> = (0..g.th.len()).filter(|i| g.th[*i] == Th::Parked).collect();
                if !p.is_empty() {
                    ran.blocked += g.th.iter().any(|t| *t == Th::Running) as u64;
                    break p;
                }
                let t = *stuck_since.get_or_insert(Instant::now());
                if t.elapsed() > STUCK {
                    let k = g.th.iter().filter(|t| **t == Th::Running).count();
                    return fail("deadlock", format!("{} threads wait for one another", k));
                }
            } else {
                stuck_since = None;
            }
            if settled.elapsed() > SPINS {
                return fail("deadlock", "a thread neither goes on nor ends");
            }
            let _ = s.cv.wait_timeout(g, Duration::from_micros(60)).unwrap();
        };
        beat();
        let pick = match choices.get(at) {
            // 0..128: the same one again, if it can
            Some(c) if *c < 128 => last.filter(|l| parked.contains(l)).unwrap_or(parked[*c as usize % parked.len()]),
            Some(c) => parked[*c as usize % parked.len()],
            None => last.filter(|l| parked.contains(l)).unwrap_or(parked[0]),
        };
        at += 1;
        ran.steps += 1;
        ran.switches += (last.is_some() && last != Some(pick)) as u64;
        last = Some(pick);
        let mut g = s.m.lock().unwrap();
        g.turn = Some(pick);
        s.cv.notify_all();
    }
}

// ---------------------------------------------------------------------------------------------
// backends with a point before every call

pub struct Slow<T>(T);
impl<T: HasTypeName> HasTypeName for Slow<T> {
    fn get_type_name() -> &'static str {
        T::get_type_name()
    }
}
impl<T: Storage> Storage for Slow<T> {
    fn write_time_point(&self, id: u64, t: u64, v: f64) -> MResult<()> {
        point("storage");
        let r = self.0.write_time_point(id, t, v);
        point("storage");
        r
    }
    fn read_time_series(&self, id: u64, s: u64, e: u64) -> MResult<Vec<TimePoint>> {
        point("storage");
        self.0.read_time_series(id, s, e)
    }
}
impl<T: Indexer> Indexer for Slow<T> {
    fn get_series_metadata_contains_labels(&self, l: Labels) -> MResult<Vec<(u64, Labels)>> {
        point("indexer");
        self.0.get_series_metadata_contains_labels(l)
    }
    fn get_series_id_contains_labels(&self, l: Labels) -> MResult<Vec<u64>> {
        point("indexer");
        self.0.get_series_id_contains_labels(l)
    }
    fn get_series_id_by_labels(&self, l: Labels) -> MResult<Option<u64>> {
        let r = self.0.get_series_id_by_labels(l);
        point("indexer");
        r
    }
    fn create_index(&self, l: Labels, id: u64) -> MResult<()> {
        point("indexer");
        let r = self.0.create_index(l, id);
        point("indexer");
        r
    }
}
struct SlowB<B>(B);
impl<T, B: Builder<T>> Builder<Slow<T>> for SlowB<B> {
    fn build(&self, path: String, c: Option<&ChunkOpts>, d: Option<&DbOpts>) -> MResult<Slow<T>> {
        Ok(Slow(self.0.build(path, c, d)?))
    }
    fn write_to_chunk(&self, dir: &Path) -> MResult<()> {
        self.0.write_to_chunk(dir)
    }
    fn read_from_chunk(&self, dir: &Path, c: Option<&ChunkOpts>) -> MResult<Option<Slow<T>>> {
        Ok(self.0.read_from_chunk(dir, c)?.map(Slow))
    }
    fn write_config(&self, dir: &Path) -> MResult<()> {
        self.0.write_config(dir)
    }
    fn read_config(&self, dir: &Path) -> MResult<()> {
        self.0.read_config(dir)
    }
}

// ---------------------------------------------------------------------------------------------
// what the threads work on

/// A chunk alone, as a database that cannot roll over.
struct One<S: Storage, I: Indexer>(Chunk<S, I>);
impl<S: Storage + Send + Sync, I: Indexer + Send + Sync> Db for One<S, I> {
    fn write(&self, l: Labels, p: TimePoint) -> MResult<()> {
        self.0.insert(l, p)
    }
    fn write_batch(&self, l: Labels, p: Vec<TimePoint>) -> MResult<()> {
        for x in p {
            match self.0.insert(l.clone(), x) {
                Ok(()) | Err(MonolithErr::OutOfRangeErr(..)) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn query(&self, l: Labels, s: u64, e: u64) -> MResult<Vec<(Labels, Vec<TimePoint>)>> {
        Ok(self.0.query(l, s, e)?.into_iter().map(|t| (t.meta_data().clone(), t.time_points().clone())).collect())
    }
    fn swap(&self, _: u64) -> MResult<()> {
        unreachable!()
    }
    fn serve(self: Arc<Self>, _: i32, _: &'static str, _: &'static str, _: usize) -> MResult<()> {
        unreachable!()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Place {
    DbTikv,
    ChunkTikv,
    DbSled,
    ChunkSled,
}

pub const WIN: u64 = 3_600_000;

/// An indexer of the series of the only chunk, opened beside the one in use (TiKV only).
type Second = Option<TiKvIndexer>;

fn second(dir: &Path, cluster: &str) -> Second {
    let w = windows(dir);
    let d = &w.last()?.2;
    let o = ChunkOpts::read_config_from_dir(d).ok()?;
    TiKvIndexerBuilder::new(backend(cluster)).ok()?.read_from_chunk(d, Some(&o)).ok()?
}

fn open_place(p: Place, dir: &Path, cluster: &str) -> MResult<(Arc<dyn Db>, Second)> {
    crate::clock::set(T0);
    let ctl = Arc::new(Ctl::default());
    let mut o = ChunkOpts::default();
    o.start_time = Some(T0);
    o.end_time = Some(T0 + WIN);
    let d = dir.join("c").display().to_string();
    Ok(match p {
        Place::DbTikv => {
            let db = open_db(TT, dir, cluster, Duration::from_millis(WIN), &ctl)?;
            (db, second(dir, cluster))
        }
        Place::ChunkTikv => {
            let s = TiKvStorageBuilder::new(backend(cluster))?.build(d.clone(), Some(&o), None)?;
            let ib = TiKvIndexerBuilder::new(backend(cluster))?;
            let i = ib.build(d, Some(&o), None)?;
            (Arc::new(One(Chunk::new(s, i, &o))), ib.read_from_chunk(dir, Some(&o))?)
        }
        Place::DbSled => {
            let mut b = DbOpts::default();
            b.base_dir = dir.to_path_buf();
            b.chunk_size = Duration::from_millis(WIN);
            (MonolithDb::<Slow<SledStorage>, Slow<SledIndexer>>::new(b, Box::new(SlowB(SledStorageBuilder::new())), Box::new(SlowB(SledIndexerBuilder::new())))?, None)
        }
        Place::ChunkSled => {
            let s = SlowB(SledStorageBuilder::new()).build(d.clone(), Some(&o), None)?;
            let i = SlowB(SledIndexerBuilder::new()).build(d, Some(&o), None)?;
            (Arc::new(One(Chunk::new(s, i, &o))), None)
        }
    })
}

// ---------------------------------------------------------------------------------------------
// cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    /// a sample of the series; its time is this far ahead of the number of the operation
    Write { s: u8, perm: u8, ahead: u8 },
    Batch { s: u8, perm: u8, ahead: u8, n: u8 },
    Query { q: Q, all: bool },
    Swap,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    pub place: Place,
    pub universe: Vec<Ls>,
    pub threads: Vec<Vec<TOp>>,
    /// empty: threads left to themselves
    pub choices: Option<Vec<u8>>,
    pub jitter: u64,
}

pub struct Threads {
    pub name: &'static str,
    pub places: &'static [Place],
    /// with queries and rollovers (C10)
    pub mixed: bool,
    pub free: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

#[derive(Clone, Debug)]
struct Rec {
    s: usize,
    ts: u64,
    bits: u64,
    /// when the window was looked up
    load: u64,
    from: u64,
    /// 0: not answered
    to: u64,
    ok: bool,
    /// the batch it is part of
    batch: Option<u64>,
    err: String,
}

#[derive(Clone, Debug)]
struct QRec {
    m: Vec<(String, String)>,
    a: u64,
    b: u64,
    from: u64,
    to: u64,
    res: Result<Answer, String>,
}

#[derive(Default)]
struct History {
    w: Vec<Rec>,
    q: Vec<QRec>,
    /// rollovers; 0: not ended
    r: Vec<(u64, u64)>,
    bad: Option<Fail>,
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

impl Part for Threads {
    type Case = TCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<TCase> {
        let w = (any::<u8>(), 0u8..8, prop_oneof![3 => 0u8..4, 1 => 0u8..40]).prop_map(|(s, perm, ahead)| TOp::Write { s, perm, ahead }).boxed();
        let b = (any::<u8>(), 0u8..8, 0u8..8, 1u8..4).prop_map(|(s, perm, ahead, n)| TOp::Batch { s, perm, ahead, n }).boxed();
        let q = (q_strategy(), any::<bool>()).prop_map(|(q, all)| TOp::Query { q, all }).boxed();
        let len = if self.free { 30 } else { 7 };
        let threads = if self.mixed {
            let writer = vec(prop_oneof![6 => w.clone(), 3 => b, 1 => q.clone()], 1..len);
            let asker = vec(prop_oneof![1 => w, 6 => q], 1..len);
            let roller = vec(Just(TOp::Swap), 1..if self.free { 6 } else { 3 });
            (vec(writer, 1..3), vec(asker, 1..3), prop_oneof![1 => Just(vec![]), 4 => roller])
                .prop_map(|(mut a, b, c)| {
                    a.extend(b);
                    if !c.is_empty() {
                        a.push(c);
                    }
                    a
                })
                .boxed()
        } else {
            vec(vec(prop_oneof![5 => w, 1 => b], 1..len), 2..5).boxed()
        };
        let choices = if self.free { Just(None).boxed() } else { vec(any::<u8>(), 0..160).prop_map(Some).boxed() };
        (select(self.places), universe(plain_value(), 1..=4, 3), threads, choices, any::<u64>())
            .prop_map(|(place, universe, threads, choices, jitter)| TCase { place, universe, threads, choices, jitter })
            .boxed()
    }
    fn run(&self, c: &TCase, cx: &mut Cx) -> R {
        let root = scratch_dir();
        let cluster = new_cluster();
        let (db, second) = no_panic("opening", || open_place(c.place, root.path(), &cluster))?.map_err(|e| err("open-failed", e))?;
        let hist = Arc::new(Mutex::new(History::default()));
        let win = Arc::new(AtomicU64::new(T0 + 1));
        // C10: times are handed out in order
        let next = Arc::new(AtomicU64::new(0));
        let mixed = self.mixed;
        let universe = Arc::new(c.universe.clone());
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let serial = Arc::new(AtomicUsize::new(1));
        for ops in c.threads.clone() {
            let (db, hist, win, next, universe, serial) = (db.clone(), hist.clone(), win.clone(), next.clone(), universe.clone(), serial.clone());
            bodies.push(Box::new(move || {
                for (k, op) in ops.iter().enumerate() {
                    point("operation");
                    let r = actor(&*db, &hist, &win, &next, &universe, &serial, mixed, k, op);
                    if let Err(f) = r {
                        hist.lock().unwrap().bad.get_or_insert(f);
                        return;
                    }
                }
            }));
        }
        let how = match &c.choices {
            Some(ch) => How::Chosen(ch.clone()),
            None => How::Free(c.jitter),
        };
        let ran = run_threads(bodies, how)?;
        let h = std::mem::take(&mut *hist.lock().unwrap());
        if let Some(f) = h.bad {
            return Err(f);
        }
        self.judge(c, &h, &*db, second)?;
        if let Place::DbTikv = c.place {
            // and after opening again
            crate::clock::set(T0 + 10 * WIN);
            let db = no_panic("opening", || open_db(TT, root.path(), &cluster, Duration::from_millis(WIN), &Arc::new(Ctl::default())))?.map_err(|e| err("open-failed", e))?;
            self.judge(c, &h, &*db, None)?;
        }
        crate::clock::set(0);
        tikv_client::sim::forget(&cluster);
        cx.hit(&format!("{:?}", c.place));
        cx.hit_n("scheduling steps", ran.steps);
        cx.hit_n("switches", ran.switches);
        cx.hit_n("steps with a thread waiting for a lock", ran.blocked);
        cx.hit_n("writes acknowledged", h.w.iter().filter(|w| w.ok).count() as u64);
        cx.hit_n("writes refused", h.w.iter().filter(|w| !w.ok).count() as u64);
        cx.hit_n("queries", h.q.len() as u64);
        let beside = |a: u64, b: u64| h.w.iter().filter(|w| w.from < b && w.to > a).count();
        let overlap = h.w.iter().any(|w| beside(w.from, w.to) > 1);
        let full = h.q.iter().filter(|q| q.res.as_ref().map_or(false, |a| !a.is_empty()) && beside(q.from, q.to) > 0).count();
        cx.hit_n("queries with an answer beside writes", full as u64);
        cx.nontrivial(if mixed { full > 0 || h.q.iter().any(|q| q.res.as_ref().map_or(false, |a| !a.is_empty())) && ran.switches > 3 } else { overlap });
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        150
    }
}

fn actor(db: &dyn Db, hist: &Mutex<History>, win: &AtomicU64, next: &AtomicU64, universe: &[Ls], serial: &AtomicUsize, mixed: bool, k: usize, op: &TOp) -> R {
    let time = |ahead: u8| if mixed { win.load(SeqCst) + next.fetch_add(1, SeqCst) } else { T0 + 1 + k as u64 * 8 + ahead as u64 };
    let bits = || (serial.fetch_add(1, SeqCst) as f64).to_bits();
    match op {
        TOp::Write { s, perm, ahead } => {
            let s = *s as usize % universe.len();
            let load = tick();
            let (ts, bits) = (time(*ahead), bits());
            let i = {
                let mut h = hist.lock().unwrap();
                h.w.push(Rec { s, ts, bits, load, from: tick(), to: 0, ok: false, batch: None, err: String::new() });
                h.w.len() - 1
            };
            let r = no_panic("write", || db.write(labels(&universe[s], *perm), tp((ts, bits))))?;
            let mut h = hist.lock().unwrap();
            h.w[i].to = tick();
            h.w[i].ok = r.is_ok();
            if let Err(e) = r {
                h.w[i].err = e.to_string();
                if !matches!(e, MonolithErr::OutOfRangeErr(..)) {
                    bail!("write-failed", "a write of {:?} at {} fails: {}", universe[s], ts, e);
                }
            }
        }
        TOp::Batch { s, perm, ahead, n } => {
            let s = *s as usize % universe.len();
            let load = tick();
            let first = time(*ahead);
            if mixed {
                next.fetch_add(*n as u64, SeqCst);
            }
            let pts: Points = (0..*n as u64).map(|j| (first + j, bits())).collect();
            let (i, n) = {
                let mut h = hist.lock().unwrap();
                let from = tick();
                for p in &pts {
                    h.w.push(Rec { s, ts: p.0, bits: p.1, load, from, to: 0, ok: false, batch: Some(from), err: String::new() });
                }
                (h.w.len() - pts.len(), pts.len())
            };
            let r = no_panic("write", || db.write_batch(labels(&universe[s], *perm), pts.iter().map(|p| tp(*p)).collect()))?;
            let mut h = hist.lock().unwrap();
            let to = tick();
            for w in &mut h.w[i..i + n] {
                w.to = to;
            }
            if let Err(e) = r {
                bail!("write-failed", "a batch of {:?} fails: {}", universe[s], e);
            }
        }
        TOp::Query { q, all } => {
            let m = q.matchers(universe);
            let (mut a, mut b) = (0, u64::MAX);
            if !*all {
                let mut times: Vec<u64> = hist.lock().unwrap().w.iter().map(|w| w.ts).collect();
                times.sort();
                if !times.is_empty() {
                    let r = q.range(&times);
                    a = r.0.min(r.1);
                    b = r.0.max(r.1);
                }
            }
            let l: Ls = m.clone();
            let from = tick();
            let r = no_panic("query", || db.query(labels(&l, 0), a, b))?;
            let to = tick();
            let res = match r {
                Ok(raw) => Ok(answer_of(raw)?),
                Err(e) => Err(e.to_string()),
            };
            hist.lock().unwrap().q.push(QRec { m, a, b, from, to, res });
        }
        TOp::Swap => {
            let start = win.load(SeqCst) + WIN + 1;
            let i = {
                let mut h = hist.lock().unwrap();
                h.r.push((tick(), 0));
                h.r.len() - 1
            };
            match no_panic("rollover", || db.swap(start))? {
                Ok(()) => {
                    win.store(start + 1, SeqCst);
                    hist.lock().unwrap().r[i].1 = tick();
                }
                Err(e) => bail!("rollover-failed", "{}", e),
            }
        }
    }
    Ok(())
}

impl Threads {
    fn judge(&self, c: &TCase, h: &History, db: &dyn Db, second: Second) -> R {
        // the final state
        let everything = |q: &Ls| -> R<Answer> {
            match no_panic("query", || db.query(labels(q, 0), 0, u64::MAX))? {
                Ok(raw) => answer_of(raw),
                Err(e) => fail("query-failed", format!("after all threads have ended, query {:?}: {}", q, e)),
            }
        };
        let mut stored: Vec<Points> = vec![];
        for (s, ls) in c.universe.iter().enumerate() {
            let a = everything(ls)?;
            let got: Points = a.get(ls).cloned().unwrap_or_default();
            let tried: BTreeMap<(u64, u64), &Rec> = h.w.iter().filter(|w| w.s == s).map(|w| ((w.ts, w.bits), w)).collect();
            let mut last = None;
            for p in &got {
                if !tried.contains_key(p) {
                    bail!("never-written", "{:?} holds {:?}, which was not written to it", ls, p);
                }
                if last.map_or(false, |l| l >= p.0) {
                    bail!("order", "{:?} holds samples out of order or doubled: {:?}", ls, got);
                }
                last = Some(p.0);
            }
            let has = |w: &Rec| got.contains(&(w.ts, w.bits));
            for w in tried.values() {
                if w.ok && !has(w) {
                    bail!("lost-sample", "{:?}: the acknowledged sample at {} is not there; there are {:?}", ls, w.ts, got);
                }
                if w.batch.is_none() && !w.ok && has(w) {
                    bail!("refused-but-stored", "{:?}: the sample at {} was refused ({}) but is there", ls, w.ts, w.err);
                }
                if !has(w) {
                    // there has to be a reason: one not earlier that may have come before
                    let mut why = tried.values().any(|x| has(x) && x.ts >= w.ts && x.from < w.to && (x.batch.is_none() || x.batch != w.batch));
                    // or another window, but for the batch as a whole
                    if !why && h.r.iter().any(|r| r.0 < w.to && (r.1 == 0 || r.1 > w.load)) {
                        why = w.batch.is_none() || !tried.values().any(|x| has(x) && x.batch == w.batch);
                        if !why {
                            bail!("batch-in-parts", "{:?}: of one batch the sample at {} was left out, but not all of it; there are {:?}", ls, w.ts, got);
                        }
                    }
                    if !why {
                        bail!("refused-without-reason", "{:?}: the sample at {} was left out ({}); there are {:?}", ls, w.ts, w.err, got);
                    }
                }
                if has(w) && !self.mixed {
                    // none later may have been stored before this one was sent
                    if let Some(x) = tried.values().find(|x| has(x) && x.ts > w.ts && x.to < w.from && x.batch.is_none()) {
                        bail!("order", "{:?}: the sample at {} was stored after the one at {}", ls, w.ts, x.ts);
                    }
                }
            }
            stored.push(got);
        }
        // every series by each of its labels, and nothing else
        let single: BTreeSet<(String, String)> = c.universe.iter().flatten().cloned().collect();
        for l in single {
            let a = everything(&vec![l.clone()])?;
            let want: Answer = c.universe.iter().enumerate().filter(|(s, ls)| ls.contains(&l) && !stored[*s].is_empty()).map(|(s, ls)| (ls.clone(), stored[s].clone())).collect();
            if a != want {
                bail!("index", "the query for {:?} returns{}\n but these are stored{}", l, show(&a), show(&want));
            }
        }
        if let (Some(ix), false) = (second, self.mixed) {
            let mut ids = BTreeMap::new();
            for (s, ls) in c.universe.iter().enumerate() {
                let id = match no_panic("lookup", || ix.get_series_id_by_labels(labels(ls, 1)))? {
                    Ok(id) => id,
                    Err(e) => bail!("query-failed", "lookup of {:?}: {}", ls, e),
                };
                let known = h.w.iter().any(|w| w.s == s);
                if id.is_none() && !stored[s].is_empty() {
                    bail!("index", "{:?} cannot be found by its label set", ls);
                }
                if id.is_some() && !known {
                    bail!("index", "{:?} was never written but has an identifier", ls);
                }
                if let Some(id) = id {
                    if let Some(o) = ids.insert(id, ls) {
                        bail!("index", "{:?} and {:?} share the identifier {}", o, ls, id);
                    }
                }
                let all = no_panic("lookup", || ix.get_series_metadata_contains_labels(labels(ls, 0)))?.map_err(|e| err("query-failed", e))?;
                let own: Vec<_> = all.iter().filter(|x| ls_of(&x.1).len() == ls.len()).collect();
                if known && own.len() != 1 {
                    bail!("index", "the series with the labels {:?} is there {} times", ls, own.len());
                }
            }
        }
        for q in &h.q {
            let got = match &q.res {
                Ok(a) => a,
                Err(e) => bail!("query-failed", "a query beside other threads fails: {}", e),
            };
            let hit = |s: usize| q.m.iter().all(|l| c.universe[s].contains(l));
            for (ls, pts) in got {
                let s = match c.universe.iter().position(|u| u == ls) {
                    Some(s) if hit(s) => s,
                    _ => bail!("wrong-series", "query {:?} returns {:?}", q.m, ls),
                };
                let mut last = None;
                for p in pts {
                    if last.map_or(false, |l| l >= p.0) {
                        bail!("order", "query {:?}: samples of {:?} out of order or doubled: {:?}", q.m, ls, pts);
                    }
                    last = Some(p.0);
                    if p.0 < q.a || p.0 > q.b {
                        bail!("out-of-range", "query {:?} over {}..{}: {:?} at {}", q.m, q.a, q.b, ls, p.0);
                    }
                    if !h.w.iter().any(|w| w.s == s && (w.ts, w.bits) == *p && w.from < q.to) {
                        bail!("never-written", "query {:?}: {:?} has {:?}, which nobody had written", q.m, ls, p);
                    }
                }
            }
            for w in h.w.iter().filter(|w| w.ok && w.to < q.from && hit(w.s) && w.ts >= q.a && w.ts <= q.b) {
                if !got.get(&c.universe[w.s]).map_or(false, |p| p.contains(&(w.ts, w.bits))) {
                    bail!("missing-sample", "query {:?} over {}..{}: lacks the sample of {:?} at {}, which had been acknowledged; got{}", q.m, q.a, q.b, c.universe[w.s], w.ts, show(got));
                }
            }
        }
        Ok(())
    }
}
