//! C26: the timer of a database, on virtual time and on the real one.
use crate::bail;
use crate::clock;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What is stored: per series, by time.
type Kept = BTreeMap<usize, BTreeMap<u64, u64>>;

fn compare(db: &dyn Db, universe: &[Ls], kept: &Kept, m: &[(String, String)], a: u64, b: u64) -> R {
    let mut want = Answer::new();
    for (s, ls) in universe.iter().enumerate() {
        if m.iter().all(|l| ls.contains(l)) {
            let p: Points = kept.get(&s).map(|d| d.range(a..=b).map(|x| (*x.0, *x.1)).collect()).unwrap_or_default();
            if !p.is_empty() {
                want.insert(ls.clone(), p);
            }
        }
    }
    let got = match no_panic("query", || db.query(labels(&m.to_vec(), 0), a, b))? {
        Ok(raw) => answer_of(raw)?,
        Err(e) => bail!("query-failed", "query {:?} over {}..{}: {}", m, a, b, e),
    };
    if got != want {
        bail!("wrong-answer", "query {:?} over {}..{} returns{}\n instead of{}", m, a, b, show(&got), show(&want));
    }
    Ok(())
}

/// The windows of the directory: each of the right length, none overlapping, every sample in one of them.
fn check_windows(dir: &Path, chunk_ms: u64, kept: &Kept) -> R<Vec<(u64, u64)>> {
    let w: Vec<(u64, u64)> = windows(dir).iter().map(|w| (w.0, w.1)).collect();
    for (s, e) in &w {
        // both ends included, or one
        if *e < *s || (e - s != chunk_ms && e - s + 1 != chunk_ms) {
            bail!("window-length", "the window {}..{} is not {} ms long", s, e, chunk_ms);
        }
    }
    for p in w.windows(2) {
        if p[1].0 <= p[0].1 {
            bail!("windows-overlap", "the window {:?} begins before {:?} has ended", p[1], p[0]);
        }
    }
    for t in kept.values().flat_map(|d| d.keys()) {
        let n = w.iter().filter(|w| w.0 <= *t && *t <= w.1).count();
        if n != 1 {
            bail!("sample-outside", "the stored sample at {} lies in {} windows of {:?}", t, n, w);
        }
    }
    Ok(w)
}

fn panics() -> R {
    let p: Vec<String> = take_other_panics().into_iter().filter(|p| !p.contains(" at src/")).collect();
    if !p.is_empty() {
        bail!("panic", "in the background: {:?}", p);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// virtual time

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Put {
    pub s: u8,
    /// where in the window, in 65536ths
    pub at: u16,
    pub n: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Turn {
    pub puts: Vec<Put>,
    /// how long the timer oversleeps
    pub late: u16,
    /// writes for the old window while the new one is being made
    pub beside: u8,
    pub ask: Vec<(u8, u16, u16)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    pub combo: Combo,
    pub secs: u64,
    pub start: u32,
    pub universe: Vec<Ls>,
    pub turns: Vec<Turn>,
}

pub struct Virtual {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub turns: usize,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

/// How long to look for the timer's sleep: not long where it has not been seen before.
fn patience() -> Duration {
    Duration::from_millis(if UNSEEN.load(std::sync::atomic::Ordering::Relaxed) { 200 } else { 3000 })
}
static UNSEEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn unseen(cx: &mut Cx) {
    UNSEEN.store(true, std::sync::atomic::Ordering::Relaxed);
    cx.hit("no long sleep");
}

fn wait_for(what: Duration, mut f: impl FnMut() -> R<bool>) -> R<bool> {
    let t = Instant::now();
    let mut pause = 20;
    loop {
        if f()? {
            return Ok(true);
        }
        if t.elapsed() > what {
            return Ok(false);
        }
        beat();
        real_sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(3000);
    }
}

impl Part for Virtual {
    type Case = VCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<VCase> {
        let put = (any::<u8>(), prop_oneof![2 => any::<u16>(), 1 => Just(0u16), 1 => Just(u16::MAX)], 1u8..4).prop_map(|(s, at, n)| Put { s, at, n });
        let turn = (vec(put, 0..5), prop_oneof![2 => Just(0u16), 2 => 0u16..50, 1 => any::<u16>()], 0u8..4, vec((any::<u8>(), any::<u16>(), any::<u16>()), 0..4))
            .prop_map(|(puts, late, beside, ask)| Turn { puts, late, beside, ask });
        let secs = prop_oneof![3 => 60u64..200, 2 => select(vec![3600u64, 7200, 12000, 86400]), 1 => 60u64..1_000_000];
        (select(self.combos), secs, any::<u32>(), universe(plain_value(), 1..=3, 3), vec(turn, 1..=self.turns))
            .prop_map(|(combo, secs, start, universe, turns)| VCase { combo, secs, start, universe, turns })
            .boxed()
    }
    fn run(&self, c: &VCase, cx: &mut Cx) -> R {
        let root = scratch_dir();
        let cluster = new_cluster();
        let ctl = Arc::new(Ctl::default());
        let chunk = c.secs * 1000;
        take_other_panics();
        clock::new_epoch();
        clock::set(T0 + c.start as u64);
        clock::virtual_sleep(true);
        let db = no_panic("opening", || open_db(c.combo, root.path(), &cluster, Duration::from_millis(chunk), &ctl))?.map_err(|e| err("open-failed", e))?;
        let near = |s: &[u64]| s.first().map_or(false, |f| *f + 1000 >= chunk && *f <= chunk + 1000);
        if !wait_for(patience(), || Ok(near(&clock::sleepers())))? {
            // it does not sleep, at least not in one go: nothing that virtual time could decide
            unseen(cx);
            clock::set(0);
            return Ok(());
        }
        let mut universe = c.universe.clone();
        // stamped with the current time, as those of a client
        universe.push(vec![("now".to_string(), "probe".to_string())]);
        let probe = universe.len() - 1;
        let mut kept = Kept::new();
        let mut serial = 1u64;
        let last_of = |kept: &Kept, s: usize| kept.get(&s).and_then(|d| d.keys().next_back().cloned()).unwrap_or(0);
        let (mut beside_in, mut beside_out) = (0, 0);
        for (k, t) in c.turns.iter().enumerate() {
            let w = check_windows(root.path(), chunk, &kept)?;
            let (a, b) = *w.last().unwrap();
            let now = clock::now();
            if now < a || now > b {
                bail!("no-window", "after {} rollovers the active window is {}..{}, it is {}", k, a, b, now);
            }
            // the timer goes on sleeping
            if !wait_for(Duration::from_secs(20), || Ok(!clock::sleepers().is_empty()))? {
                bail!("timer-stopped", "after {} rollovers nothing sleeps until the next one; {:?}", k, take_other_panics());
            }
            let mut write = |kept: &mut Kept, s: usize, ts: u64, must: bool| -> R<bool> {
                serial += 1;
                let bits = (serial as f64).to_bits();
                match no_panic("write", || db.write(labels(&universe[s], serial as u8), tp((ts, bits))))? {
                    Ok(()) => {
                        kept.entry(s).or_default().insert(ts, bits);
                        Ok(true)
                    }
                    Err(e) if must => fail("refused", format!("after {} rollovers a sample at {} is refused although the window is {}..{} and it is {}: {}", k, ts, a, b, now, e)),
                    Err(_) => Ok(false),
                }
            };
            if now > last_of(&kept, probe) {
                write(&mut kept, probe, now, true)?;
            }
            for p in &t.puts {
                let s = p.s as usize % c.universe.len();
                let at = a + ((b - a) as u128 * p.at as u128 / u16::MAX as u128) as u64;
                for j in 0..p.n as u64 {
                    let ts = (at.max(last_of(&kept, s) + 1)) + j;
                    if ts > b {
                        break;
                    }
                    write(&mut kept, s, ts, true)?;
                }
            }
            // time passes
            let target = now + chunk + t.late as u64;
            let count = w.len();
            loop {
                let sl = clock::sleepers();
                let left = target.saturating_sub(clock::now());
                if left == 0 {
                    break;
                }
                // the one due at the end of the window oversleeps
                let step = sl.first().map_or(left, |f| if *f + t.late as u64 + 1000 >= left { left } else { (*f).max(1) });
                clock::advance(step);
                if left > step {
                    // let whoever woke up do what it wants
                    wait_for(Duration::from_millis(300), || Ok(windows(root.path()).len() > count))?;
                    if windows(root.path()).len() > count {
                        if clock::now() < now + chunk / 2 {
                            bail!("too-early", "a window of {} ms is replaced after {} ms", chunk, clock::now() - now);
                        }
                        break;
                    }
                }
            }
            for _ in 0..t.beside {
                // either in time or refused
                let s = k % c.universe.len();
                let ts = (last_of(&kept, s) + 1).max(b.saturating_sub(5));
                if ts <= b {
                    if write(&mut kept, s, ts, false)? {
                        beside_in += 1
                    } else {
                        beside_out += 1
                    }
                }
            }
            let mut extra = 0;
            while !wait_for(Duration::from_secs(if extra == 0 { 4 } else { 10 }), || Ok(windows(root.path()).len() > count))? {
                extra += 1;
                if extra > 2 {
                    bail!("no-new-window", "after {} rollovers: {} ms later there is still no new window of {} ms; sleeping for {:?}; panics {:?}", k, clock::now() - now, chunk, clock::sleepers(), take_other_panics());
                }
                clock::advance(chunk / 2);
            }
            // the new window begins after the time the timer saw
            clock::advance(2);
            let fresh = clock::now();
            let mut why = String::new();
            let ok = wait_for(Duration::from_secs(20), || {
                serial += 1;
                let bits = (serial as f64).to_bits();
                match no_panic("write", || db.write(labels(&universe[probe], 0), tp((fresh, bits))))? {
                    Ok(()) => {
                        kept.entry(probe).or_default().insert(fresh, bits);
                        Ok(true)
                    }
                    Err(e) => {
                        why = e.to_string();
                        Ok(false)
                    }
                }
            })?;
            let w2 = check_windows(root.path(), chunk, &kept)?;
            if !ok {
                bail!("now-refused", "after {} rollovers a sample stamped with the current time {} is refused ({}); windows {:?}", k + 1, fresh, why, w2);
            }
            if w2.len() > count + 1 + extra {
                bail!("windows", "{} new windows in {} ms", w2.len() - count, chunk + t.late as u64);
            }
            for (s, x, y) in &t.ask {
                let ls = &universe[*s as usize % universe.len()];
                let m = vec![ls[*x as usize % ls.len()].clone()];
                let (first, end) = (w2[0].0, w2.last().unwrap().1);
                let p = |v: u16| first + ((end - first) as u128 * v as u128 / u16::MAX as u128) as u64;
                compare(&*db, &universe, &kept, &m, p(*x.min(y)), p(*x.max(y)))?;
            }
            for ls in &universe {
                compare(&*db, &universe, &kept, ls, 0, u64::MAX)?;
            }
            panics()?;
        }
        if c.combo == TT {
            wait_for(Duration::from_secs(5), || Ok(!clock::sleepers().is_empty()))?;
            clock::new_epoch();
            clock::advance(2 * chunk);
            let db = no_panic("opening", || open_db(c.combo, root.path(), &cluster, Duration::from_millis(chunk), &ctl))?.map_err(|e| err("open-failed", e))?;
            for ls in &universe {
                compare(&*db, &universe, &kept, ls, 0, u64::MAX)?;
            }
        }
        // so that its timer is not taken for one of the next case
        wait_for(Duration::from_secs(5), || Ok(!clock::sleepers().is_empty()))?;
        clock::new_epoch();
        clock::set(0);
        tikv_client::sim::forget(&cluster);
        cx.hit(combo_name(c.combo));
        cx.hit_n("windows", c.turns.len() as u64 + 1);
        cx.hit_n("writes beside a rollover stored", beside_in);
        cx.hit_n("writes beside a rollover refused", beside_out);
        cx.hit_n("oversleeping", c.turns.iter().filter(|t| t.late > 0).count() as u64);
        cx.nontrivial(c.turns.len() > 1 && c.turns.iter().any(|t| !t.puts.is_empty()));
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

// ---------------------------------------------------------------------------------------------
// real time

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RDb {
    pub combo: Combo,
    pub chunk_ms: u64,
    pub universe: Vec<Ls>,
    pub pause_ms: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    pub dbs: Vec<RDb>,
    pub windows: u8,
}

/// Databases that run side by side for some of their windows.
pub struct Real {
    pub name: &'static str,
    pub dbs: usize,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Real {
    type Case = RCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<RCase> {
        let combo = prop_oneof![4 => Just(TT), 1 => select(vec![SS, ST, TS])];
        let db = (combo, prop_oneof![3 => 300u64..1500, 1 => Just(1000u64)], universe(plain_value(), 1..=3, 3), 1u8..30)
            .prop_map(|(combo, chunk_ms, universe, pause_ms)| RDb { combo, chunk_ms: if combo == TT { chunk_ms } else { chunk_ms.max(900) }, universe, pause_ms });
        (vec(db, 1..=self.dbs), 3u8..6).prop_map(|(dbs, windows)| RCase { dbs, windows }).boxed()
    }
    fn run(&self, c: &RCase, cx: &mut Cx) -> R {
        clock::set(0);
        clock::virtual_sleep(false);
        take_other_panics();
        let results = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for d in &c.dbs {
                let results = &results;
                sc.spawn(move || {
                    let r = match guard(|| one(d, c.windows)) {
                        Outcome::Done(r) => r,
                        Outcome::Panic(p) => fail("panic", p),
                        Outcome::Harness(p) => panic!("{}", p),
                    };
                    results.lock().unwrap().push(r)
                });
            }
        });
        let results = results.into_inner().unwrap();
        assert_eq!(results.len(), c.dbs.len());
        let mut rolled = 0;
        for r in results {
            let n = r?;
            rolled += n.1 as u64;
            cx.hit_n("samples", n.0 as u64);
        }
        panics()?;
        cx.hit_n("databases", c.dbs.len() as u64);
        cx.hit_n("windows", rolled);
        cx.nontrivial(rolled > c.dbs.len() as u64 * 2);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        4
    }
}

fn one(d: &RDb, n: u8) -> R<(usize, usize)> {
    let root = scratch_dir();
    let dir = root.path().join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let cluster = new_cluster();
    let ctl = Arc::new(Ctl::default());
    let db = no_panic("opening", || open_db(d.combo, &dir, &cluster, Duration::from_millis(d.chunk_ms), &ctl))?.map_err(|e| err("open-failed", e))?;
    let opened = Instant::now();
    let mut kept = Kept::new();
    let mut last = 0;
    let mut last_ok = Instant::now();
    let patience = Duration::from_millis(3 * d.chunk_ms) + Duration::from_secs(10);
    let (mut k, mut stored, mut asked) = (0usize, 0, 0u64);
    let enough = Duration::from_millis(d.chunk_ms * n as u64 + d.chunk_ms / 2);
    // the end: the time is up, and several windows have come by
    while opened.elapsed() < enough || (windows(&dir).len() < 3 && opened.elapsed() < enough + patience) {
        beat();
        real_sleep(Duration::from_millis(d.pause_ms as u64));
        let now = clock::now();
        if now > last {
            let s = k % d.universe.len();
            k += 1;
            let bits = (k as f64).to_bits();
            match no_panic("write", || db.write(labels(&d.universe[s], k as u8), tp((now, bits))))? {
                Ok(()) => {
                    last = now;
                    last_ok = Instant::now();
                    kept.entry(s).or_default().insert(now, bits);
                    stored += 1;
                }
                // between two windows
                Err(monolith::MonolithErr::OutOfRangeErr(..)) => {}
                Err(e) => bail!("write-failed", "{}", e),
            }
        }
        if last_ok.elapsed() > patience {
            bail!("now-refused", "no sample stamped with the current time has been accepted for {:?}; the windows of {} ms are {:?}, it is {}", last_ok.elapsed(), d.chunk_ms, windows(&dir).iter().map(|w| (w.0, w.1)).collect::<Vec<_>>(), now);
        }
        asked += 1;
        if asked % 7 == 0 {
            let ls = &d.universe[(asked / 7) as usize % d.universe.len()];
            compare(&*db, &d.universe, &kept, ls, 0, u64::MAX)?;
        }
    }
    let w = check_windows(&dir, d.chunk_ms, &kept)?;
    let ran = opened.elapsed().as_millis() as u64;
    if w.len() < 3 {
        bail!("no-new-window", "{} windows of {} ms in {} ms", w.len(), d.chunk_ms, ran);
    }
    if w.len() as u64 > ran / d.chunk_ms + 2 {
        bail!("windows", "{} windows of {} ms in {} ms", w.len(), d.chunk_ms, ran);
    }
    for ls in &d.universe {
        compare(&*db, &d.universe, &kept, ls, 0, u64::MAX)?;
    }
    // the timer goes on; let it find nothing to work on
    for _ in 0..3 {
        let _ = std::fs::remove_dir_all(&dir);
        if std::fs::write(&dir, b"").is_ok() {
            break;
        }
    }
    std::mem::forget(root);
    Ok((stored, w.len()))
}

// ---------------------------------------------------------------------------------------------
// C25: the timer after rollovers that failed

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCase {
    pub combo: Combo,
    pub secs: u64,
    pub universe: Vec<Ls>,
    /// 0: works; storage, indexer, before or after having built; and writes
    pub turns: Vec<(u8, u8)>,
}

pub struct Broken {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Broken {
    type Case = BCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BCase> {
        let fail = prop_oneof![1 => Just(0u8), 1 => 1u8..5];
        (select(self.combos), prop_oneof![60u64..200, Just(12000u64)], universe(plain_value(), 1..=3, 3), vec((fail, 0u8..5), 1..7))
            .prop_map(|(combo, secs, universe, turns)| BCase { combo, secs, universe, turns })
            .boxed()
    }
    fn run(&self, c: &BCase, cx: &mut Cx) -> R {
        use std::sync::atomic::Ordering::SeqCst;
        let root = scratch_dir();
        let cluster = new_cluster();
        let ctl = Arc::new(Ctl::default());
        let chunk = c.secs * 1000;
        take_other_panics();
        clock::new_epoch();
        clock::set(T0);
        clock::virtual_sleep(true);
        let db = no_panic("opening", || open_db(c.combo, root.path(), &cluster, Duration::from_millis(chunk), &ctl))?.map_err(|e| err("open-failed", e))?;
        if !wait_for(patience(), || Ok(clock::sleepers().first().map_or(false, |f| *f + 1000 >= chunk && *f <= chunk + 1000)))? {
            unseen(cx);
            clock::set(0);
            return Ok(());
        }
        let mut kept = Kept::new();
        let mut serial = 0u64;
        // the window that is active, as far as known: it accepts everything up to here
        let mut until = T0 + chunk - 1;
        let mut next = T0;
        let (mut failed, mut rolled) = (0, 0);
        for (k, (fail, puts)) in c.turns.iter().enumerate() {
            let mut put = |kept: &mut Kept, ts: u64| -> R<Result<(), String>> {
                serial += 1;
                let s = serial as usize % c.universe.len();
                let bits = (serial as f64).to_bits();
                Ok(match no_panic("write", || db.write(labels(&c.universe[s], serial as u8), tp((ts, bits))))? {
                    Ok(()) => {
                        kept.entry(s).or_default().insert(ts, bits);
                        Ok(())
                    }
                    Err(e) => Err(e.to_string()),
                })
            };
            let mut puts_in = |kept: &mut Kept, n: u64| -> R {
                for _ in 0..n {
                    next += 1;
                    if next <= until {
                        if let Err(e) = put(kept, next)? {
                            bail!("refused", "before rollover {}: the write at {} in the active window that ends at {} fails: {}", k + 1, next, until, e);
                        }
                    }
                }
                Ok(())
            };
            puts_in(&mut kept, *puts as u64)?;
            let before = ctl.builds_failed.load(SeqCst);
            match fail {
                1 | 2 => ctl.fail_storage.store(1, SeqCst),
                3 | 4 => ctl.fail_indexer.store(1, SeqCst),
                _ => {}
            }
            ctl.fail_late.store((*fail == 2 || *fail == 4) as usize, SeqCst);
            if !wait_for(Duration::from_secs(20), || Ok(!clock::sleepers().is_empty()))? {
                bail!("timer-stopped", "after {} failed rollovers nothing sleeps until the next one; panics: {:?}", failed, take_other_panics());
            }
            if *fail > 0 {
                let mut tries = 0;
                loop {
                    clock::advance(clock::sleepers().first().cloned().unwrap_or(chunk));
                    if wait_for(Duration::from_secs(5), || Ok(ctl.builds_failed.load(SeqCst) > before))? {
                        break;
                    }
                    tries += 1;
                    if tries == 3 {
                        bail!("timer-stopped", "after {} failed rollovers no other is tried; panics: {:?}", failed, take_other_panics());
                    }
                }
                failed += 1;
                puts_in(&mut kept, 2)?;
            } else {
                let mut tries = 0;
                let mut why = String::new();
                loop {
                    clock::advance(clock::sleepers().first().cloned().unwrap_or(chunk));
                    let woken = clock::now();
                    let mut now = woken;
                    if wait_for(Duration::from_secs(5), || {
                        clock::advance(1);
                        now = clock::now();
                        Ok(match put(&mut kept, now)? {
                            Ok(()) => true,
                            Err(e) => {
                                why = e;
                                false
                            }
                        })
                    })? {
                        next = now;
                        until = woken + chunk - 1;
                        rolled += 1;
                        break;
                    }
                    tries += 1;
                    if tries == 3 {
                        bail!("no-new-window", "after {} failed rollovers and {} others, samples stamped with the current time are refused: {}; panics: {:?}", failed, rolled, why, take_other_panics());
                    }
                }
            }
            for ls in &c.universe {
                compare(&*db, &c.universe, &kept, ls, 0, u64::MAX)?;
            }
        }
        panics()?;
        wait_for(Duration::from_secs(5), || Ok(!clock::sleepers().is_empty()))?;
        clock::new_epoch();
        if c.combo == TT {
            clock::advance(2 * chunk);
            let db = no_panic("opening", || open_db(c.combo, root.path(), &cluster, Duration::from_millis(chunk), &Arc::new(Ctl::default())))?.map_err(|e| err("open-failed", e))?;
            for ls in &c.universe {
                compare(&*db, &c.universe, &kept, ls, 0, u64::MAX)?;
            }
            wait_for(Duration::from_secs(5), || Ok(!clock::sleepers().is_empty()))?;
            clock::new_epoch();
        }
        clock::set(0);
        tikv_client::sim::forget(&cluster);
        cx.hit_n("failed rollovers", failed);
        cx.hit_n("rollovers", rolled);
        cx.nontrivial(failed > 0 && !kept.is_empty());
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        30
    }
}
