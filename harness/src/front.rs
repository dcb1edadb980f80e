//! Series that come into being while others ask for them: writers that bring one new series after another,
//! readers that ask for the ones being created right now, by any of their labels, without waiting.
use crate::bail;
use crate::fw::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FrontCase {
    pub combo: Combo,
    pub writers: u8,
    pub readers: u8,
    /// new series of each writer
    pub series: u16,
    /// how many series share a label
    pub share: u16,
    /// a rollover after so many series; 0: none
    pub roll: u16,
    pub seed: u64,
}

pub struct Front {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

type Ls = Vec<(String, String)>;

/// What a writer does, one after the other: series, time relative to the start of the window, value.
#[derive(Clone)]
struct Write {
    ls: Ls,
    ts: AtomicTs,
    bits: u64,
}
/// known once it is sent
type AtomicTs = Arc<AtomicU64>;

fn series(w: usize, i: usize, share: usize) -> Ls {
    let mut l = vec![("n".to_string(), format!("{}.{}", w, i)), ("g".to_string(), format!("{}", i / share)), ("w".to_string(), format!("{}", w))];
    l.sort();
    l
}

struct Shared {
    db: Arc<dyn Db>,
    writes: Vec<Vec<Write>>,
    begun: Vec<AtomicUsize>,
    done: Vec<AtomicUsize>,
    over: AtomicBool,
    bad: Mutex<Option<Fail>>,
    /// start of the window; writes hold it, a rollover changes it
    win: RwLock<u64>,
}

impl Shared {
    /// Ask, and judge the answer by what was acknowledged before and begun at the end.
    fn ask(&self, m: &Ls, what: &str) -> R<usize> {
        let before: Vec<usize> = self.done.iter().map(|d| d.load(SeqCst)).collect();
        let r = no_panic("query", || self.db.query(labels(m, 0), 0, u64::MAX))?;
        let after: Vec<usize> = self.begun.iter().map(|d| d.load(SeqCst)).collect();
        let got = match r {
            Ok(raw) => answer_of(raw)?,
            Err(e) => return fail("query-failed", format!("{} for {:?} failed: {}", what, m, e)),
        };
        let mut must: BTreeMap<&Ls, BTreeMap<u64, u64>> = BTreeMap::new();
        let mut may: BTreeMap<&Ls, BTreeMap<u64, u64>> = BTreeMap::new();
        for (w, writes) in self.writes.iter().enumerate() {
            for (i, x) in writes.iter().enumerate().take(after[w]) {
                if m.iter().all(|l| x.ls.contains(l)) {
                    may.entry(&x.ls).or_default().insert(x.ts.load(SeqCst), x.bits);
                    if i < before[w] {
                        must.entry(&x.ls).or_default().insert(x.ts.load(SeqCst), x.bits);
                    }
                }
            }
        }
        for (ls, pts) in &must {
            for p in pts {
                if !got.get(*ls).map_or(false, |g| g.contains(&(*p.0, *p.1))) {
                    bail!("lost-sample", "{} for {:?}: the sample at {} of {:?}, acknowledged before the query began, is not in the answer; of the series there are {:?}", what, m, p.0, ls, got.get(*ls));
                }
            }
        }
        for (ls, pts) in &got {
            for p in pts {
                if may.get(ls).map_or(true, |d| d.get(&p.0) != Some(&p.1)) {
                    bail!("never-written", "{} for {:?}: {:?} with a sample at {}, which nobody has begun to write", what, m, ls, p.0);
                }
            }
            if pts.windows(2).any(|w| w[0].0 >= w[1].0) {
                bail!("order", "{} for {:?}: {:?} has samples out of order or twice: {:?}", what, m, ls, pts);
            }
        }
        Ok(got.len())
    }
}

impl Part for Front {
    type Case = FrontCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FrontCase> {
        (select(self.combos), 1u8..3, 1u8..5, 10u16..120, prop_oneof![Just(1u16), 1u16..8, Just(1000)], prop_oneof![2 => Just(0u16), 1 => 3u16..60], any::<u64>())
            .prop_map(|(combo, writers, readers, series, share, roll, seed)| FrontCase { combo, writers, readers, series, share, roll, seed })
            .boxed()
    }
    fn run(&self, c: &FrontCase, cx: &mut Cx) -> R {
        const SIZE: u64 = 3_600_000;
        let mut world = World::new(c.combo, SIZE, "");
        world.open()?;
        let nw = c.writers as usize;
        let writes: Vec<Vec<Write>> = (0..nw)
            .map(|w| {
                let mut v = vec![];
                for i in 0..c.series as usize {
                    // the new one, and now and then an older one again
                    let old = (i > 0 && (c.seed >> (i % 60)) & 1 == 1).then_some((c.seed as usize >> 3) % i.max(1));
                    for i in std::iter::once(i).chain(old) {
                        let bits = ((w * 1_000_000 + v.len() + 1) as f64).to_bits();
                        v.push(Write { ls: series(w, i, c.share.max(1) as usize), ts: Default::default(), bits });
                    }
                }
                v
            })
            .collect();
        let n = writes[0].len();
        let sh = Arc::new(Shared {
            db: world.db(),
            writes,
            begun: (0..nw).map(|_| AtomicUsize::new(0)).collect(),
            done: (0..nw).map(|_| AtomicUsize::new(0)).collect(),
            over: AtomicBool::new(false),
            bad: Mutex::new(None),
            win: RwLock::new(world.win.0),
        });
        let answers = Arc::new(AtomicUsize::new(0));
        let asked = Arc::new(AtomicUsize::new(0));
        let mut writers = vec![];
        for w in 0..nw {
            let (sh, roll) = (sh.clone(), if w == 0 { c.roll as usize } else { 0 });
            writers.push(std::thread::spawn(move || {
                let go = || -> R {
                    for k in 0..n {
                        if sh.bad.lock().unwrap().is_some() {
                            return Ok(());
                        }
                        if roll > 0 && k % roll == roll - 1 {
                            let mut win = sh.win.write().unwrap();
                            let start = *win + SIZE + 1;
                            if let Err(e) = no_panic("rollover", || sh.db.swap(start))? {
                                bail!("rollover-failed", "{}", e);
                            }
                            *win = start;
                        }
                        let win = sh.win.read().unwrap();
                        let x = &sh.writes[w][k];
                        x.ts.store(*win + 1 + k as u64, SeqCst);
                        sh.begun[w].store(k + 1, SeqCst);
                        if let Err(e) = no_panic("write", || sh.db.write(labels(&x.ls, k as u8), tp((x.ts.load(SeqCst), x.bits))))? {
                            bail!("write-failed", "a write of {:?} fails: {}", x.ls, e);
                        }
                        sh.done[w].store(k + 1, SeqCst);
                    }
                    Ok(())
                };
                if let Err(f) = go() {
                    sh.bad.lock().unwrap().get_or_insert(f);
                }
            }));
        }
        let mut readers = vec![];
        for r in 0..c.readers as u64 {
            let (sh, answers, asked) = (sh.clone(), answers.clone(), asked.clone());
            let mut x = c.seed ^ (r + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
            readers.push(std::thread::spawn(move || {
                while !sh.over.load(SeqCst) && sh.bad.lock().unwrap().is_none() {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let w = x as usize % sh.writes.len();
                    let k = (sh.begun[w].load(SeqCst) + (x >> 8) as usize % 3).saturating_sub((x >> 12) as usize % 2).min(n - 1);
                    let ls = &sh.writes[w][k].ls;
                    // all labels, or one, or two of them ("g", "n", "w" in this order)
                    let m: Ls = match (x >> 20) % 8 {
                        0 => ls.clone(),
                        1..=3 => vec![ls[1].clone()],
                        4 | 5 => vec![ls[0].clone()],
                        6 => vec![ls[0].clone(), ls[2].clone()],
                        _ => vec![ls[1].clone(), ls[0].clone()],
                    };
                    asked.fetch_add(1, SeqCst);
                    match sh.ask(&m, "a query beside writes") {
                        Ok(n) => {
                            answers.fetch_add((n > 0) as usize, SeqCst);
                        }
                        Err(f) => {
                            sh.bad.lock().unwrap().get_or_insert(f);
                        }
                    }
                }
            }));
        }
        for t in writers {
            let _ = t.join();
            beat();
        }
        sh.over.store(true, SeqCst);
        for t in readers {
            let _ = t.join();
            beat();
        }
        if let Some(f) = sh.bad.lock().unwrap().take() {
            return Err(f);
        }
        for w in 0..nw {
            for x in &sh.writes[w] {
                for l in x.ls.iter().filter(|l| l.0 != "w") {
                    sh.ask(&vec![l.clone()], "after all threads have ended, a query")?;
                }
                beat();
            }
            sh.ask(&vec![("w".to_string(), format!("{}", w))], "after all threads have ended, a query")?;
        }
        crate::clock::set(0);
        tikv_client::sim::forget(&world.cluster);
        cx.hit(combo_name(c.combo));
        cx.hit_n("series created", c.series as u64 * nw as u64);
        cx.hit_n("queries beside writes", asked.load(SeqCst) as u64);
        cx.hit_n("of these with an answer", answers.load(SeqCst) as u64);
        cx.nontrivial(answers.load(SeqCst) > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}
