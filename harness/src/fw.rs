//! Case generation, shrinking, sharding over processes, evidence and replay.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    /// what kind of failure; known findings are recognised by it
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::fw::Fail { sig: $sig.to_string(), msg: format!($($a)*) }) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// quick/thorough amounts of work
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known: Vec<Fail>,
    known_sigs: BTreeSet<String>,
}
impl Cx {
    pub fn hit(&mut self, class: &str) {
        self.hit_n(class, 1)
    }
    pub fn hit_n(&mut self, class: &str, n: u64) {
        if n > 0 {
            *self.classes.entry(class.to_string()).or_insert(0) += n;
        }
    }
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    /// A failure the case can go on after if it is a listed finding.
    pub fn report(&mut self, f: Fail) -> R {
        if self.known_sigs.contains(&f.sig) {
            self.known.push(f);
            Ok(())
        } else {
            Err(f)
        }
    }
}

/// One generator with its oracle. A property has one or more.
pub trait Part: Sync {
    type Case: Serialize + DeserializeOwned + Clone + Debug + 'static;
    fn name(&self) -> &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(&self, case: &Self::Case, cx: &mut Cx) -> R;
    /// (number of processes, cases per process)
    fn plan(&self, tier: Tier) -> (usize, usize);
    fn max_shrink(&self) -> usize {
        600
    }
}

pub trait DynPart: Sync {
    fn name(&self) -> &'static str;
    fn plan(&self, tier: Tier) -> (usize, usize);
    fn work(&self, prop: &str, tier: Tier, seed: u64, shard: usize, cases: usize, cur: &Path) -> ShardResult;
    fn replay(&self, prop: &str, case: &Json) -> R;
}

#[derive(Default, Serialize, Deserialize)]
pub struct ShardResult {
    pub evaluations: u64,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: Vec<u64>,
    pub samples: Vec<Json>,
    pub known: Vec<Fail>,
    pub fail: Option<Fail>,
    pub fail_case: Option<Json>,
    pub unshrunk_case: Option<Json>,
    pub error: Option<String>,
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }
static OTHER_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Panics of threads other than those under `guard` since the last call.
pub fn take_other_panics() -> Vec<String> {
    std::mem::take(&mut *OTHER_PANICS.lock().unwrap())
}

thread_local! { static GUARDED: RefCell<bool> = RefCell::new(false); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".into()
        };
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        if GUARDED.with(|g| *g.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            let name = std::thread::current().name().unwrap_or("?").to_string();
            let line = format!("{} at {}: {}", name, loc, msg);
            if name == "main" || loc.starts_with("src/") {
                eprintln!("harness panic: {}", line);
            }
            if let Ok(mut v) = OTHER_PANICS.lock() {
                v.push(line)
            }
        }
    }));
}

pub enum Outcome<T> {
    Done(T),
    /// the code under test panicked
    Panic(String),
    /// the harness did
    Harness(String),
}

/// Run something of the code under test; tell its panics from those of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    let before = GUARDED.with(|g| std::mem::replace(&mut *g.borrow_mut(), true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = before);
    match r {
        Ok(v) => Outcome::Done(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let text = format!("panic at {}: {}", loc, msg);
            if loc.starts_with("src/") {
                Outcome::Harness(text)
            } else {
                Outcome::Panic(text)
            }
        }
    }
}

/// A panic of the code under test as a failure of the property.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match guard(f) {
        Outcome::Done(v) => Ok(v),
        Outcome::Panic(p) => fail("panic", format!("{}: {}", what, p)),
        Outcome::Harness(p) => panic!("{}", p),
    }
}

// ---------------------------------------------------------------------------------------------
// worker

static BEAT: AtomicU64 = AtomicU64::new(0);

pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// Exit code of a process in which a case went on for too long.
pub const HUNG: i32 = 77;

pub fn start_watchdog(limit: Duration) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
            loop {
                real_sleep(Duration::from_millis(500));
                let b = BEAT.load(Ordering::Relaxed);
                if b != last.0 {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > limit {
                    eprintln!("watchdog: a case has been running for more than {:?}", limit);
                    unsafe { libc::_exit(HUNG) }
                }
            }
        })
        .unwrap();
}

/// Sleep that no virtual clock touches.
pub fn real_sleep(d: Duration) {
    crate::clock::real_sleep(d)
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Resident memory of this process: databases stay open as long as their timer threads live.
pub fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

fn seed_bytes(prop: &str, part: &str, seed: u64, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = hash64(&(prop, part, seed, shard as u64, i));
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut res = vec![];
    for l in text.lines() {
        // known: property=<id> sig=<signature> <what fails>
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let s = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("");
            let d = it.next().unwrap_or("");
            if p == prop && !s.is_empty() {
                res.push((s.to_string(), d.to_string()));
            }
        }
    }
    res
}

impl<P: Part> DynPart for P {
    fn name(&self) -> &'static str {
        Part::name(self)
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        Part::plan(self, tier)
    }
    fn work(&self, prop: &str, tier: Tier, seed: u64, shard: usize, cases: usize, cur: &Path) -> ShardResult {
        let mut res = ShardResult::default();
        let known: BTreeSet<String> = known_findings(prop).into_iter().map(|k| k.0).collect();
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(prop, Part::name(self), seed, shard));
        let config = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = self.strategy(tier);
        let mut seen = HashSet::new();
        let exec = |case: &P::Case| -> (Cx, Result<R, String>) {
            beat();
            let mut cx = Cx { known_sigs: known.clone(), ..Cx::default() };
            let r = match guard(|| self.run(case, &mut cx)) {
                Outcome::Done(r) => Ok(r),
                Outcome::Panic(p) => Ok(fail("panic", p)),
                Outcome::Harness(p) => Err(p),
            };
            (cx, r)
        };
        for i in 0..cases {
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    res.error = Some(format!("generator: {}", e));
                    return res;
                }
            };
            let case = tree.current();
            let text = serde_json::to_string(&case).unwrap();
            if !cur.as_os_str().is_empty() {
                let _ = std::fs::write(cur, &text);
            }
            let (cx, r) = exec(&case);
            res.evaluations += 1;
            for (k, v) in &cx.classes {
                *res.classes.entry(k.clone()).or_insert(0) += v;
            }
            if cx.nontrivial && seen.insert(hash64(&text)) {
                if res.samples.len() < 2 && (i > cases / 3 || cases < 4) && text.len() < 6000 {
                    res.samples.push(serde_json::from_str(&text).unwrap());
                }
            }
            for k in cx.known {
                if !res.known.iter().any(|x| x.sig == k.sig) {
                    res.known.push(k);
                }
            }
            match r {
                Err(e) => {
                    res.error = Some(format!("harness panic {} on {}", e, text));
                    break;
                }
                Ok(Ok(())) => {}
                Ok(Err(f)) if known.contains(&f.sig) => {
                    if !res.known.iter().any(|x| x.sig == f.sig) {
                        res.known.push(f);
                    }
                }
                Ok(Err(f)) => {
                    // shrink: bounded by steps and, as it does not change the verdict, by time
                    let start = Instant::now();
                    let mut best = (f, case.clone());
                    let mut steps = 0;
                    if tree.simplify() {
                        while steps < self.max_shrink() && start.elapsed() < Duration::from_secs(60) && rss_mb() < 2500 {
                            steps += 1;
                            let c = tree.current();
                            let failed = match exec(&c).1 {
                                Ok(Err(f)) if !known.contains(&f.sig) => Some(f),
                                _ => None,
                            };
                            let more = match failed {
                                Some(f) => {
                                    best = (f, c);
                                    tree.simplify()
                                }
                                None => tree.complicate(),
                            };
                            if !more {
                                break;
                            }
                        }
                    }
                    res.fail = Some(best.0);
                    res.fail_case = Some(serde_json::to_value(&best.1).unwrap());
                    res.unshrunk_case = Some(serde_json::to_value(&case).unwrap());
                    break;
                }
            }
        }
        res.nontrivial = seen.into_iter().collect();
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!("rss {} MB after {} cases", rss_mb(), res.evaluations);
        }
        res
    }
    fn replay(&self, prop: &str, case: &Json) -> R {
        let case: P::Case = serde_json::from_value(case.clone()).expect("case does not fit this part");
        let known: BTreeSet<String> = known_findings(prop).into_iter().map(|k| k.0).collect();
        let mut cx = Cx { known_sigs: known, ..Cx::default() };
        match guard(|| self.run(&case, &mut cx)) {
            Outcome::Done(r) => r,
            Outcome::Panic(p) => fail("panic", p),
            Outcome::Harness(p) => panic!("{}", p),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// scratch space

/// A scratch directory of this process, removed by whoever started it.
pub fn scratch_root() -> PathBuf {
    let p = PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| format!("/tmp/vh-{}", std::process::id())));
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn scratch_dir() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("c").tempdir_in(scratch_root()).unwrap()
}

// ---------------------------------------------------------------------------------------------
// parent

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
}

/// A process that ends with this one.
pub fn tied(c: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    }
}

struct Task {
    part: usize,
    shard: usize,
    cases: usize,
}

fn spawn_worker(p: &Property, t: &Task, tier: Tier, seed: u64, dir: &Path) -> (Child, PathBuf, PathBuf) {
    let out = dir.join(format!("{}-{}.out", t.part, t.shard));
    let cur = dir.join(format!("{}-{}.cur", t.part, t.shard));
    let err = std::fs::File::create(dir.join(format!("{}-{}.err", t.part, t.shard))).unwrap();
    let scratch = dir.join(format!("s{}-{}", t.part, t.shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let child = tied(&mut Command::new(std::env::current_exe().unwrap()))
        .args([
            "work",
            p.id,
            &t.part.to_string(),
            &t.shard.to_string(),
            &t.cases.to_string(),
            if tier == Tier::Quick { "quick" } else { "thorough" },
            &seed.to_string(),
        ])
        .arg(&out)
        .arg(&cur)
        .env("VH_SCRATCH", &scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap();
    (child, out, cur)
}

pub fn run_check(p: &Property, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = tempfile::Builder::new().prefix("vh-").tempdir_in(base).unwrap();
    let jobs: usize = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_PART").ok();

    let mut tasks = vec![];
    for (i, part) in p.parts.iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != part.name()) {
            continue;
        }
        let (shards, cases) = part.plan(tier);
        for s in 0..shards {
            tasks.push(Task { part: i, shard: s, cases: ((cases as f64 * scale).ceil() as usize).max(1) });
        }
    }
    tasks.sort_by_key(|t| (t.shard, t.part));
    tasks.reverse();

    let mut running: Vec<(Task, Child, PathBuf, PathBuf)> = vec![];
    let mut results: Vec<(usize, usize, ShardResult)> = vec![];
    let mut crashed: Vec<(usize, usize, String, Option<Json>)> = vec![];
    let mut failed = false;
    while !running.is_empty() || (!tasks.is_empty() && !failed) {
        while running.len() < jobs && !failed {
            match tasks.pop() {
                Some(t) => {
                    let (c, out, cur) = spawn_worker(p, &t, tier, seed, dir.path());
                    running.push((t, c, out, cur));
                }
                None => break,
            }
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            if let Some(st) = running[i].1.try_wait().unwrap() {
                let (t, _, out, cur) = running.remove(i);
                let err = std::fs::read_to_string(dir.path().join(format!("{}-{}.err", t.part, t.shard))).unwrap_or_default();
                let scratch = dir.path().join(format!("s{}-{}", t.part, t.shard));
                let _ = std::fs::remove_dir_all(&scratch);
                match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<ShardResult>(&b).ok()) {
                    Some(r) if st.success() => {
                        if r.fail.is_some() {
                            failed = true;
                        }
                        results.push((t.part, t.shard, r));
                    }
                    _ => {
                        use std::os::unix::process::ExitStatusExt;
                        let case = std::fs::read(&cur).ok().and_then(|b| serde_json::from_slice(&b).ok());
                        let sig = st.signal();
                        let tail: String = err.chars().rev().take(2000).collect::<Vec<_>>().into_iter().rev().collect();
                        crashed.push((
                            t.part,
                            t.shard,
                            format!("worker ended with {:?}: {}", st, tail),
                            if matches!(sig, Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGILL) | Some(libc::SIGBUS) | Some(libc::SIGFPE)) || st.code() == Some(HUNG) { case } else { None },
                        ));
                        failed = true;
                    }
                }
            } else {
                i += 1;
            }
        }
        if failed {
            // let the others go: one failure decides
            for r in running.iter_mut() {
                let _ = r.1.kill();
                let _ = r.1.wait();
            }
            running.clear();
        }
    }

    // merge
    let mut evals = 0;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<(usize, u64)> = HashSet::new();
    let mut samples = vec![];
    let mut known: Vec<Fail> = vec![];
    let mut per_part: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut violation: Option<(usize, Fail, Json, Option<Json>)> = None;
    results.sort_by_key(|r| (r.0, r.1));
    for (pi, _, r) in results {
        evals += r.evaluations;
        *per_part.entry(p.parts[pi].name().into()).or_insert(0) += r.evaluations;
        for (k, v) in r.classes {
            *classes.entry(format!("{}: {}", p.parts[pi].name(), k)).or_insert(0) += v;
        }
        for h in r.nontrivial {
            distinct.insert((pi, h));
        }
        if let Some(s) = r.samples.into_iter().next() {
            if samples.iter().filter(|s: &&Json| s["part"] == p.parts[pi].name()).count() < 2 {
                samples.push(json!({"part": p.parts[pi].name(), "case": s}));
            }
        }
        for k in r.known {
            if !known.iter().any(|x| x.sig == k.sig) {
                known.push(k);
            }
        }
        if let Some(e) = r.error {
            errors.push(e);
        }
        if let (Some(f), None) = (r.fail, &violation) {
            violation = Some((pi, f, r.fail_case.unwrap_or(Json::Null), r.unshrunk_case));
        }
    }
    if violation.is_none() {
        for (pi, shard, what, case) in crashed {
            // the process died of the code under test, not of the machine: does the case alone do it again?
            if let Some(case) = case {
                let f = dir.path().join("crash.json");
                let body = json!({"property": p.id, "part": p.parts[pi].name(), "case": case});
                std::fs::write(&f, body.to_string()).unwrap();
                let sc = dir.path().join("crash-scratch");
                let _ = std::fs::create_dir_all(&sc);
                let out = Command::new(std::env::current_exe().unwrap())
                    .arg("replay")
                    .arg(&f)
                    .env("VH_SCRATCH", &sc)
                    .stderr(Stdio::null())
                    .output();
                if let Ok(out) = out {
                    let st = out.status;
                    use std::os::unix::process::ExitStatusExt;
                    if matches!(st.signal(), Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGILL) | Some(libc::SIGBUS)) {
                        violation = Some((pi, Fail { sig: "process-crash".into(), msg: what.clone() }, body["case"].clone(), None));
                        break;
                    }
                    if st.code() == Some(1) {
                        // it fails without ending the process, which one of the smaller ones must have done
                        let text = String::from_utf8_lossy(&out.stdout).to_string();
                        let (sig, msg) = text.split_once(": ").unwrap_or(("crash", &text));
                        if !known_findings(p.id).iter().any(|k| k.0 == sig) {
                            violation = Some((pi, Fail { sig: sig.into(), msg: msg.split("\nVIOLATION").next().unwrap().into() }, body["case"].clone(), None));
                            break;
                        }
                    }
                    if st.code() == Some(HUNG) {
                        violation = Some((pi, Fail { sig: "no-end".into(), msg: "the case does not come to an end, twice".into() }, body["case"].clone(), None));
                        break;
                    }
                }
            }
            errors.push(format!("part {} shard {}: {}", p.parts[pi].name(), shard, what));
        }
    }

    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "evaluations_by_part": per_part,
            "classes": classes,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();

    for (sig, what) in known_findings(p.id) {
        if known.iter().any(|k| k.sig == sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        }
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        evals,
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("VH_CLASSES").is_ok() {
        for (k, v) in &classes {
            println!("    {:7} {}", v, k);
        }
    }
    if let Some((pi, f, case, orig)) = violation {
        let rdir = verif_dir().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let file = rdir.join(format!("{}-{:016x}.json", p.id, hash64(&case.to_string())));
        let body = json!({"property": p.id, "part": p.parts[pi].name(), "seed": seed, "sig": f.sig, "msg": f.msg, "case": case, "unshrunk": orig});
        std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap() + "\n").unwrap();
        println!("[{}] {}: {}", p.parts[pi].name(), f.sig, f.msg.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, file.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(3) {
            eprintln!("error: {}", e);
        }
        return 2;
    }
    0
}
