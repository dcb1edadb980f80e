//! Databases under test: the four backend combinations behind one interface, opened in scratch
//! directories, with access to what a harness needs (flushing, failing builders, the shared store).
use crate::fw::{fail, no_panic, Fail, R};
use crate::gen::Ls;
use monolith::chunk::ChunkOpts;
use monolith::indexer::*;
use monolith::label::{Label, Labels};
use monolith::option::{DbOpts, ServerOpts};
use monolith::server::MonolithServer;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::{Builder, HasTypeName, MonolithDb, MonolithErr, TiKvRawBackendSingleton};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type MResult<T> = std::result::Result<T, MonolithErr>;
pub type Points = Vec<(u64, u64)>; // timestamp, value bits
pub type Answer = BTreeMap<Ls, Points>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Sled,
    Tikv,
}
/// (storage, indexer)
pub type Combo = (Kind, Kind);
pub const TT: Combo = (Kind::Tikv, Kind::Tikv);
pub const SS: Combo = (Kind::Sled, Kind::Sled);
pub const ST: Combo = (Kind::Sled, Kind::Tikv);
pub const TS: Combo = (Kind::Tikv, Kind::Sled);
pub const COMBOS: [Combo; 4] = [TT, SS, ST, TS];

pub fn combo_name(c: Combo) -> &'static str {
    match c {
        (Kind::Tikv, Kind::Tikv) => "tikv/tikv",
        (Kind::Sled, Kind::Sled) => "sled/sled",
        (Kind::Sled, Kind::Tikv) => "sled/tikv",
        (Kind::Tikv, Kind::Sled) => "tikv/sled",
    }
}

pub fn labels(ls: &Ls, perm: u8) -> Labels {
    let mut v: Vec<&(String, String)> = ls.iter().collect();
    let n = v.len();
    // a few of the orders; 0 keeps the order of names
    if n > 1 {
        v.rotate_left(perm as usize % n);
        if perm as usize / n % 2 == 1 {
            v.reverse();
        }
    }
    Labels::from_vec(v.into_iter().map(|(k, w)| Label::from_key_value(k, w)).collect())
}

pub fn ls_of(l: &Labels) -> Ls {
    l.vec().iter().map(|l| (l.key().clone(), l.value().clone())).collect()
}

pub fn tp(p: (u64, u64)) -> TimePoint {
    TimePoint::new(p.0, f64::from_bits(p.1))
}

pub fn answer_of(raw: Vec<(Labels, Vec<TimePoint>)>) -> R<Answer> {
    let mut out = Answer::new();
    for (l, pts) in raw {
        let mut ls = ls_of(&l);
        ls.sort();
        let pts: Points = pts.iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
        if out.insert(ls.clone(), pts).is_some() {
            return fail("series-twice", format!("series {:?} occurs twice in an answer", ls));
        }
    }
    Ok(out)
}

pub trait Db: Send + Sync {
    fn write(&self, l: Labels, p: TimePoint) -> MResult<()>;
    fn write_batch(&self, l: Labels, p: Vec<TimePoint>) -> MResult<()>;
    fn query(&self, l: Labels, s: u64, e: u64) -> MResult<Vec<(Labels, Vec<TimePoint>)>>;
    fn swap(&self, start: u64) -> MResult<()>;
    fn serve(self: Arc<Self>, port: i32, read: &'static str, write: &'static str, workers: usize) -> MResult<()>;
}

impl<S, I> Db for MonolithDb<S, I>
where
    S: Storage + Send + Sync + 'static,
    I: Indexer + Send + Sync + 'static,
{
    fn write(&self, l: Labels, p: TimePoint) -> MResult<()> {
        self.write_time_point(l, p)
    }
    fn write_batch(&self, l: Labels, p: Vec<TimePoint>) -> MResult<()> {
        self.write_time_points(l, p)
    }
    fn query(&self, l: Labels, s: u64, e: u64) -> MResult<Vec<(Labels, Vec<TimePoint>)>> {
        MonolithDb::query(self, l, s, e)
    }
    fn swap(&self, start: u64) -> MResult<()> {
        self.verif_swap(start)
    }
    fn serve(self: Arc<Self>, port: i32, read: &'static str, write: &'static str, workers: usize) -> MResult<()> {
        let opts = ServerOpts { port, read_path: read, write_path: write, worker_num: workers };
        MonolithServer::new(opts, self).serve()
    }
}

/// What the harness holds of a database besides its interface.
#[derive(Default)]
pub struct Ctl {
    flushers: Mutex<Vec<Box<dyn Fn() + Send>>>,
    /// fail the n-th next build of a storage / indexer, before or after it happened
    pub fail_storage: AtomicUsize,
    pub fail_indexer: AtomicUsize,
    pub fail_late: AtomicUsize,
    pub builds_failed: AtomicUsize,
    /// put storages and indexers behind `Tapped` when a database is opened
    pub tap: AtomicBool,
    calls: Mutex<Option<CallPlan>>,
}

/// Calls of storages and indexers that fail, whatever they are built on.
struct CallPlan {
    at: u64,
    n: u64,
    applied: bool,
    kind: u8,
    seen: u64,
    hits: Arc<AtomicU64>,
}

/// The errors a storage or an indexer may give for reasons of its own. (Out of range and not found say
/// something about the data and are no failures.)
pub const ERROR_KINDS: u8 = 7;
fn error_of(kind: u8) -> MonolithErr {
    let why = || "simulated: call failed".to_string();
    match kind % ERROR_KINDS {
        0 => MonolithErr::IoError(why()),
        1 => MonolithErr::InternalErr(why()),
        2 => MonolithErr::ParseErr,
        3 => MonolithErr::OptionErr,
        4 => MonolithErr::from(serde_json::from_str::<u8>("simulated").unwrap_err()),
        5 => MonolithErr::TiKvErr(tikv_client::Error(why())),
        _ => MonolithErr::CompactionErr(monolith::compaction::CompactionErr::CompactionTypeDontMatch(1, 2)),
    }
}
impl Ctl {
    /// Let the calls `at .. at+n` fail, counted from now on; the counter says how many did.
    pub fn fail_calls(&self, at: u64, n: u64, applied: bool, kind: u8) -> Arc<AtomicU64> {
        let hits = Arc::new(AtomicU64::new(0));
        *self.calls.lock().unwrap() = Some(CallPlan { at, n, applied, kind, seen: 0, hits: hits.clone() });
        hits
    }
    pub fn calls_succeed(&self) {
        *self.calls.lock().unwrap() = None;
    }
    fn call<T>(&self, f: impl FnOnce() -> MResult<T>) -> MResult<T> {
        let fate = self.calls.lock().unwrap().as_mut().and_then(|p| {
            let i = p.seen;
            p.seen += 1;
            if i < p.at || i >= p.at + p.n {
                return None;
            }
            p.hits.fetch_add(1, Ordering::SeqCst);
            Some((p.applied, p.kind))
        });
        match fate {
            None => f(),
            Some((applied, kind)) => {
                if applied {
                    let _ = f();
                }
                Err(error_of(kind))
            }
        }
    }
    pub fn flush(&self) {
        for f in self.flushers.lock().unwrap().iter() {
            f()
        }
    }
}

trait Spyable {
    fn flusher(&self) -> Option<Box<dyn Fn() + Send>>;
}
impl Spyable for SledStorage {
    fn flusher(&self) -> Option<Box<dyn Fn() + Send>> {
        let db = self.clone().get_storage();
        Some(Box::new(move || {
            let _ = db.flush();
        }))
    }
}
impl Spyable for SledIndexer {
    fn flusher(&self) -> Option<Box<dyn Fn() + Send>> {
        let db = self.verif_db().clone();
        Some(Box::new(move || {
            let _ = db.flush();
        }))
    }
}
impl Spyable for TiKvStorage {
    fn flusher(&self) -> Option<Box<dyn Fn() + Send>> {
        None
    }
}
impl Spyable for TiKvIndexer {
    fn flusher(&self) -> Option<Box<dyn Fn() + Send>> {
        None
    }
}

/// A storage or an indexer whose calls can be made to fail.
struct Tapped<T> {
    inner: T,
    ctl: Arc<Ctl>,
}
impl<T: HasTypeName> HasTypeName for Tapped<T> {
    fn get_type_name() -> &'static str {
        T::get_type_name()
    }
}
impl<T: Storage> Storage for Tapped<T> {
    fn write_time_point(&self, id: u64, t: u64, v: f64) -> MResult<()> {
        self.ctl.call(|| self.inner.write_time_point(id, t, v))
    }
    fn read_time_series(&self, id: u64, a: u64, b: u64) -> MResult<Vec<TimePoint>> {
        self.ctl.call(|| self.inner.read_time_series(id, a, b))
    }
}
impl<T: Indexer> Indexer for Tapped<T> {
    fn get_series_metadata_contains_labels(&self, l: Labels) -> MResult<Vec<(u64, Labels)>> {
        self.ctl.call(|| self.inner.get_series_metadata_contains_labels(l))
    }
    fn get_series_id_contains_labels(&self, l: Labels) -> MResult<Vec<u64>> {
        self.ctl.call(|| self.inner.get_series_id_contains_labels(l))
    }
    fn get_series_id_by_labels(&self, l: Labels) -> MResult<Option<u64>> {
        self.ctl.call(|| self.inner.get_series_id_by_labels(l))
    }
    fn create_index(&self, l: Labels, id: u64) -> MResult<()> {
        self.ctl.call(|| self.inner.create_index(l, id))
    }
}

struct TapBuilder<B>(Spy<B>);
impl<T: Spyable, B: Builder<T>> Builder<Tapped<T>> for TapBuilder<B> {
    fn build(&self, path: String, c: Option<&ChunkOpts>, d: Option<&DbOpts>) -> MResult<Tapped<T>> {
        Ok(Tapped { inner: self.0.build(path, c, d)?, ctl: self.0.ctl.clone() })
    }
    fn write_to_chunk(&self, dir: &Path) -> MResult<()> {
        self.0.write_to_chunk(dir)
    }
    fn read_from_chunk(&self, dir: &Path, c: Option<&ChunkOpts>) -> MResult<Option<Tapped<T>>> {
        Ok(self.0.read_from_chunk(dir, c)?.map(|inner| Tapped { inner, ctl: self.0.ctl.clone() }))
    }
    fn write_config(&self, dir: &Path) -> MResult<()> {
        self.0.write_config(dir)
    }
    fn read_config(&self, dir: &Path) -> MResult<()> {
        self.0.read_config(dir)
    }
}

struct Spy<B> {
    inner: B,
    ctl: Arc<Ctl>,
    indexer: bool,
}
impl<B> Spy<B> {
    fn due(&self) -> bool {
        let a = if self.indexer { &self.ctl.fail_indexer } else { &self.ctl.fail_storage };
        match a.load(Ordering::SeqCst) {
            0 => false,
            1 => {
                a.store(0, Ordering::SeqCst);
                self.ctl.builds_failed.fetch_add(1, Ordering::SeqCst);
                true
            }
            n => {
                a.store(n - 1, Ordering::SeqCst);
                false
            }
        }
    }
}
impl<T: Spyable, B: Builder<T>> Builder<T> for Spy<B> {
    fn build(&self, path: String, c: Option<&ChunkOpts>, d: Option<&DbOpts>) -> MResult<T> {
        let due = self.due();
        let late = self.ctl.fail_late.load(Ordering::SeqCst) != 0;
        if due && !late {
            return Err(error_of(self.ctl.builds_failed.load(Ordering::SeqCst) as u8));
        }
        let t = self.inner.build(path, c, d)?;
        if due {
            return Err(error_of(self.ctl.builds_failed.load(Ordering::SeqCst) as u8));
        }
        if let Some(f) = t.flusher() {
            self.ctl.flushers.lock().unwrap().push(f);
        }
        Ok(t)
    }
    fn write_to_chunk(&self, dir: &Path) -> MResult<()> {
        self.inner.write_to_chunk(dir)
    }
    fn read_from_chunk(&self, dir: &Path, c: Option<&ChunkOpts>) -> MResult<Option<T>> {
        let r = self.inner.read_from_chunk(dir, c)?;
        if let Some(f) = r.as_ref().and_then(|t| if self.indexer { t.flusher() } else { None }) {
            self.ctl.flushers.lock().unwrap().push(f);
        }
        Ok(r)
    }
    fn write_config(&self, dir: &Path) -> MResult<()> {
        self.inner.write_config(dir)
    }
    fn read_config(&self, dir: &Path) -> MResult<()> {
        self.inner.read_config(dir)
    }
}

pub fn backend(cluster: &str) -> TiKvRawBackendSingleton {
    TiKvRawBackendSingleton::new(tikv_client::Config::new(vec![cluster.to_string()])).unwrap()
}

pub fn new_cluster() -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    format!("sim-{}", N.fetch_add(1, Ordering::SeqCst))
}

pub fn open_db(combo: Combo, dir: &Path, cluster: &str, chunk: Duration, ctl: &Arc<Ctl>) -> MResult<Arc<dyn Db>> {
    let mut o = DbOpts::default();
    o.base_dir = dir.to_path_buf();
    o.chunk_size = chunk;
    macro_rules! open {
        ($s:ty, $i:ty, $sb:expr, $ib:expr) => {{
            let sb = Spy { inner: $sb, ctl: ctl.clone(), indexer: false };
            let ib = Spy { inner: $ib, ctl: ctl.clone(), indexer: true };
            if ctl.tap.load(Ordering::SeqCst) {
                MonolithDb::<Tapped<$s>, Tapped<$i>>::new(o, Box::new(TapBuilder(sb)), Box::new(TapBuilder(ib)))? as Arc<dyn Db>
            } else {
                MonolithDb::<$s, $i>::new(o, Box::new(sb), Box::new(ib))? as Arc<dyn Db>
            }
        }};
    }
    Ok(match combo {
        (Kind::Sled, Kind::Sled) => open!(SledStorage, SledIndexer, SledStorageBuilder::new(), SledIndexerBuilder::new()),
        (Kind::Sled, Kind::Tikv) => open!(SledStorage, TiKvIndexer, SledStorageBuilder::new(), TiKvIndexerBuilder::new(backend(cluster))?),
        (Kind::Tikv, Kind::Sled) => open!(TiKvStorage, SledIndexer, TiKvStorageBuilder::new(backend(cluster))?, SledIndexerBuilder::new()),
        (Kind::Tikv, Kind::Tikv) => open!(TiKvStorage, TiKvIndexer, TiKvStorageBuilder::new(backend(cluster))?, TiKvIndexerBuilder::new(backend(cluster))?),
    })
}

/// Chunk directories of a database directory and the windows their names stand for.
pub fn windows(dir: &Path) -> Vec<(u64, u64, PathBuf)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if !e.path().is_dir() {
                continue;
            }
            if let Some(n) = e.file_name().to_str() {
                if let Ok(x) = u128::from_str_radix(n, 16) {
                    v.push(((x >> 64) as u64, x as u64, e.path()));
                }
            }
        }
    }
    v.sort();
    v
}

fn tree_state(dir: &Path) -> BTreeMap<PathBuf, (u64, std::time::SystemTime)> {
    fn walk(d: &Path, m: &mut BTreeMap<PathBuf, (u64, std::time::SystemTime)>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                if let Ok(md) = e.metadata() {
                    if md.is_dir() {
                        walk(&e.path(), m)
                    } else {
                        m.insert(e.path(), (md.len(), md.modified().unwrap()));
                    }
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, &mut m);
    m
}

fn copy_tree(a: &Path, b: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(b)?;
    for e in std::fs::read_dir(a)? {
        let e = e?;
        let t = b.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_tree(&e.path(), &t)?
        } else {
            std::fs::copy(e.path(), &t)?;
        }
    }
    Ok(())
}

/// Copy a directory that nothing writes to any more.
pub fn copy_quiet(a: &Path, b: &Path) {
    for _ in 0..50 {
        let before = tree_state(a);
        let ok = copy_tree(a, b).is_ok();
        if ok && tree_state(a) == before {
            return;
        }
        let _ = std::fs::remove_dir_all(b);
        crate::fw::real_sleep(Duration::from_millis(20));
    }
    panic!("the directory of a flushed database does not come to rest");
}

/// A database with its directory, its (fake) clock and its past incarnations.
pub struct World {
    pub combo: Combo,
    pub root: tempfile::TempDir,
    pub dir: PathBuf,
    pub cluster: String,
    pub chunk_ms: u64,
    pub ctl: Arc<Ctl>,
    pub db: Option<Arc<dyn Db>>,
    /// window of the active chunk
    pub win: (u64, u64),
    n: u32,
    seen: BTreeSet<(u64, u64)>,
    /// of the database's own file operations in the next opening or rollover, and how many of them failed
    pub fault: Option<crate::crashpt::DiskFault>,
    pub struck: u64,
}

pub const T0: u64 = 1_700_000_000_000;

impl World {
    pub fn new(combo: Combo, chunk_ms: u64, dirname: &str) -> World {
        let root = crate::fw::scratch_dir();
        crate::clock::set(T0);
        let mut w = World {
            combo,
            dir: PathBuf::new(),
            cluster: new_cluster(),
            chunk_ms,
            ctl: Arc::new(Ctl::default()),
            db: None,
            win: (0, 0),
            n: 0,
            seen: BTreeSet::new(),
            fault: None,
            struck: 0,
            root,
        };
        w.dir = w.fresh_dir(dirname);
        std::fs::create_dir_all(&w.dir).unwrap();
        w
    }
    fn fresh_dir(&mut self, name: &str) -> PathBuf {
        self.n += 1;
        let d = self.root.path().join(format!("{}", self.n));
        if name.is_empty() {
            d
        } else {
            d.join(name)
        }
    }
    pub fn uses_sled(&self) -> bool {
        self.combo != TT
    }
    pub fn sim(&self) -> tikv_client::sim::Cluster {
        tikv_client::sim::cluster(&self.cluster)
    }
    /// Open (or open again) what is in `dir`.
    pub fn try_open(&mut self) -> R<MResult<()>> {
        self.db = None;
        let before: BTreeSet<(u64, u64)> = windows(&self.dir).into_iter().map(|w| (w.0, w.1)).collect();
        if let Some(f) = self.fault.take() {
            crate::crashpt::fault(self.root.path(), &f);
        }
        let r = no_panic("opening a database", || {
            open_db(self.combo, &self.dir, &self.cluster, Duration::from_millis(self.chunk_ms), &self.ctl)
        });
        self.struck = crate::crashpt::no_fault();
        match r? {
            Ok(db) => {
                self.db = Some(db);
                self.seen = before;
                self.learn_window(crate::clock::now())?;
                Ok(Ok(()))
            }
            Err(e) => Ok(Err(e)),
        }
    }
    pub fn open(&mut self) -> R {
        match self.try_open()? {
            Ok(()) => Ok(()),
            Err(e) => fail("open-failed", format!("opening {} failed: {}", self.dir.display(), e)),
        }
    }
    /// The window that was opened: of the new directory or, where an attempt that failed has left one, of
    /// the directory with the right start.
    fn learn_window(&mut self, start: u64) -> R {
        let now: Vec<(u64, u64)> = windows(&self.dir).into_iter().map(|w| (w.0, w.1)).collect();
        let fresh: Vec<_> = now.iter().filter(|w| !self.seen.contains(w)).cloned().collect();
        match fresh.last().or(now.iter().rev().find(|w| w.0 == start)) {
            Some(w) => {
                self.win = *w;
                self.seen.extend(now);
                Ok(())
            }
            None => fail("no-chunk-directory", format!("no new chunk directory in {}: {:?}", self.dir.display(), now)),
        }
    }
    pub fn db(&self) -> Arc<dyn Db> {
        self.db.clone().expect("open")
    }
    /// Put everything on disk, then open a copy of the directory under another name.
    pub fn prepare_reopen(&mut self, dirname: &str, in_place: bool) {
        self.ctl.flush();
        self.db = None;
        if in_place && !self.uses_sled() {
            return;
        }
        let to = self.fresh_dir(dirname);
        copy_quiet(&self.dir, &to);
        self.dir = to;
    }
    /// Roll over; the start is at least one past the end of the active window.
    pub fn swap_at(&mut self, start: u64) -> R<MResult<()>> {
        let db = self.db();
        let before: BTreeSet<(u64, u64)> = windows(&self.dir).into_iter().map(|w| (w.0, w.1)).collect();
        if let Some(f) = self.fault.take() {
            crate::crashpt::fault(self.root.path(), &f);
        }
        let r = no_panic("rollover", || db.swap(start));
        self.struck = crate::crashpt::no_fault();
        let r = r?;
        if r.is_ok() {
            self.seen = before;
            self.learn_window(start)?;
        }
        Ok(r)
    }
    pub fn query(&self, l: Labels, s: u64, e: u64) -> R<Result<Answer, String>> {
        let db = self.db();
        match no_panic("query", || db.query(l, s, e))? {
            Ok(raw) => Ok(Ok(answer_of(raw)?)),
            Err(e) => Ok(Err(e.to_string())),
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.sim().set_judge(None);
        tikv_client::sim::forget(&self.cluster);
        crate::clock::set(0);
    }
}

pub fn show(a: &Answer) -> String {
    let mut s = String::new();
    for (l, p) in a.iter().take(12) {
        s.push_str(&format!("\n    {:?}: {} samples {:?}", l, p.len(), p.iter().take(8).map(|x| (x.0, f64::from_bits(x.1))).collect::<Vec<_>>()));
    }
    s
}

pub fn err(sig: &str, e: impl std::fmt::Display) -> Fail {
    Fail { sig: sig.into(), msg: e.to_string() }
}
