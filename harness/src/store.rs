//! Storages, indexers and chunks used directly: C02, C03, C04, C17, C22, C23.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{ml, q_strategy, Model, Q};
use crate::world::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::label::Labels;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::Builder;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// both kinds of storage and indexer behind one type

pub enum AnyStorage {
    Sled(SledStorage),
    Tikv(TiKvStorage),
}
pub enum AnyIndexer {
    Sled(SledIndexer),
    Tikv(TiKvIndexer),
}

impl AnyStorage {
    /// `again`: what was there before has to be found
    fn open(kind: Kind, dir: &Path, opts: &ChunkOpts, cluster: &str, again: bool) -> MResult<AnyStorage> {
        Ok(match kind {
            Kind::Sled => AnyStorage::Sled(SledStorageBuilder::new().build(dir.to_str().unwrap().into(), Some(opts), None)?),
            Kind::Tikv => {
                let b = TiKvStorageBuilder::new(backend(cluster))?;
                AnyStorage::Tikv(if again {
                    b.read_from_chunk(&dir.join("storage"), Some(opts))?.ok_or(monolith::MonolithErr::InternalErr("the storage of the chunk is gone".into()))?
                } else {
                    b.build(dir.to_str().unwrap().into(), Some(opts), None)?
                })
            }
        })
    }
    fn write(&self, id: u64, p: (u64, u64)) -> MResult<()> {
        match self {
            AnyStorage::Sled(s) => s.write_time_point(id, p.0, f64::from_bits(p.1)),
            AnyStorage::Tikv(s) => s.write_time_point(id, p.0, f64::from_bits(p.1)),
        }
    }
    fn read(&self, id: u64, a: u64, b: u64) -> MResult<Vec<TimePoint>> {
        match self {
            AnyStorage::Sled(s) => s.read_time_series(id, a, b),
            AnyStorage::Tikv(s) => s.read_time_series(id, a, b),
        }
    }
    fn flush(&self) {
        if let AnyStorage::Sled(s) = self {
            let _ = s.clone().get_storage().flush();
        }
    }
}

impl AnyIndexer {
    fn open(kind: Kind, dir: &Path, opts: &ChunkOpts, cluster: &str, again: bool) -> MResult<AnyIndexer> {
        Ok(match kind {
            Kind::Sled => AnyIndexer::Sled(SledIndexerBuilder::new().build(dir.to_str().unwrap().into(), Some(opts), None)?),
            Kind::Tikv => {
                let b = TiKvIndexerBuilder::new(backend(cluster))?;
                AnyIndexer::Tikv(if again {
                    b.read_from_chunk(&dir.join("indexer"), Some(opts))?.ok_or(monolith::MonolithErr::InternalErr("the indexer of the chunk is gone".into()))?
                } else {
                    b.build(dir.to_str().unwrap().into(), Some(opts), None)?
                })
            }
        })
    }
    fn create(&self, l: Labels, id: u64) -> MResult<()> {
        match self {
            AnyIndexer::Sled(s) => s.create_index(l, id),
            AnyIndexer::Tikv(s) => s.create_index(l, id),
        }
    }
    fn ids(&self, l: Labels) -> MResult<Vec<u64>> {
        match self {
            AnyIndexer::Sled(s) => s.get_series_id_contains_labels(l),
            AnyIndexer::Tikv(s) => s.get_series_id_contains_labels(l),
        }
    }
    fn metas(&self, l: Labels) -> MResult<Vec<(u64, Labels)>> {
        match self {
            AnyIndexer::Sled(s) => s.get_series_metadata_contains_labels(l),
            AnyIndexer::Tikv(s) => s.get_series_metadata_contains_labels(l),
        }
    }
    fn exact(&self, l: Labels) -> MResult<Option<u64>> {
        match self {
            AnyIndexer::Sled(s) => s.get_series_id_by_labels(l),
            AnyIndexer::Tikv(s) => s.get_series_id_by_labels(l),
        }
    }
    fn flush(&self) {
        if let AnyIndexer::Sled(s) = self {
            let _ = s.verif_db().flush();
        }
    }
}

pub fn kinds(k: &'static [Kind]) -> BoxedStrategy<Kind> {
    select(k).boxed()
}

struct Forget(String);
impl Drop for Forget {
    fn drop(&mut self) {
        tikv_client::sim::forget(&self.0);
    }
}

fn opts() -> ChunkOpts {
    let mut o = ChunkOpts::default();
    o.start_time = Some(0);
    o.end_time = Some(u64::MAX);
    o
}

// ---------------------------------------------------------------------------------------------
// C02 (and C23 at the storage): series of samples and ranges

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// a sample this long after the last one of the series (the first: at this time)
    Write { s: u16, first: u64, step: u64, bits: u64 },
    Read { s: u16, from: Anchor, to: Anchor, sorted: bool },
    /// so many samples, each a step after the one before
    Many { s: u16, n: u16, first: u64, step: u16, bits: u64 },
    /// a sample not later than the last one
    Late { s: u16, at: Anchor, bits: u64 },
    /// a series nothing was written to
    Unknown { id: u64, from: Anchor, to: Anchor },
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StorageCase {
    pub kind: Kind,
    pub ids: Vec<u64>,
    pub ops: Vec<SOp>,
}

pub struct Ranges {
    pub name: &'static str,
    pub kinds: &'static [Kind],
    pub late: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub ops: usize,
}

fn series_id() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..14,
        3 => select(&[1u64, 10, 11, 111, 100, 256, 65_536, 0, u64::MAX, 1 << 32, 1 << 63, 12, 0x0101][..]),
        1 => any::<u64>(),
    ]
    .boxed()
}

impl Part for Ranges {
    type Case = StorageCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<StorageCase> {
        let first = prop_oneof![4 => 0u64..200, 1 => Just(0u64), 2 => T0..T0 + 1000, 1 => any::<u64>(), 1 => (0u64..50).prop_map(|d| u64::MAX - d)];
        let step = prop_oneof![5 => 1u64..4, 3 => 1u64..200, 1 => any::<u64>().prop_map(|v| v >> 3 | 1), 1 => (1u64..64).prop_map(|b| 1 << b)];
        let ops = vec![
            (40u32, (any::<u16>(), first, step, value_bits()).prop_map(|(s, first, step, bits)| SOp::Write { s, first, step, bits }).boxed()),
            (
                1,
                (any::<u16>(), 3u32..tier.pick(13, 15), any::<u16>(), prop_oneof![3 => Just(1u16), 3 => 1u16..2000], value_bits())
                    .prop_map(|(s, b, r, step, bits)| SOp::Many { s, n: (1 << b >> 1) + (r & ((1 << b >> 1) - 1)), first: T0 + r as u64, step, bits })
                    .boxed(),
            ),
            (32, (any::<u16>(), anchor(), anchor(), prop_oneof![1 => Just(false), 9 => Just(true)]).prop_map(|(s, from, to, sorted)| SOp::Read { s, from, to, sorted }).boxed()),
            (4, (series_id(), anchor(), anchor()).prop_map(|(id, from, to)| SOp::Unknown { id, from, to }).boxed()),
            (4, Just(SOp::Reopen).boxed()),
            (if self.late { 32 } else { 0 }, (any::<u16>(), anchor(), value_bits()).prop_map(|(s, at, bits)| SOp::Late { s, at, bits }).boxed()),
        ];
        let ops = proptest::strategy::Union::new_weighted(ops.into_iter().filter(|o| o.0 > 0).collect());
        (kinds(self.kinds), vec(series_id(), 1..5), vec(ops, 1..self.ops)).prop_map(|(kind, ids, ops)| StorageCase { kind, ids, ops }).boxed()
    }
    fn run(&self, c: &StorageCase, cx: &mut Cx) -> R {
        let dir = scratch_dir();
        let cluster = new_cluster();
        let _f = Forget(cluster.clone());
        let o = opts();
        // sled keeps its lock beyond the end of a database: open a copy, as another process would
        let mut n = 0;
        let mut open = |again: bool| -> R<AnyStorage> {
            let to = dir.path().join(if c.kind == Kind::Sled { n.to_string() } else { "0".into() });
            if again && c.kind == Kind::Sled {
                copy_quiet(&dir.path().join((n - 1).to_string()), &to);
            }
            n += 1;
            match no_panic("opening a storage", || AnyStorage::open(c.kind, &to, &o, &cluster, again))? {
                Ok(s) => Ok(s),
                Err(e) => fail("open-failed", format!("opening a storage: {}", e)),
            }
        };
        let mut ids = c.ids.clone();
        ids.sort();
        ids.dedup();
        let mut st = Some(open(false)?);
        let mut m: BTreeMap<u64, BTreeMap<u64, u64>> = BTreeMap::new();
        let (mut cut, mut between, mut lates) = (0u64, 0u64, 0u64);
        let mut longest = 0;
        let read = |st: &AnyStorage, m: &BTreeMap<u64, BTreeMap<u64, u64>>, id: u64, a: u64, b: u64| -> R<usize> {
            let empty = BTreeMap::new();
            let all = m.get(&id).unwrap_or(&empty);
            let want: Points = if a <= b { all.range(a..=b).map(|(t, v)| (*t, *v)).collect() } else { vec![] };
            let got = no_panic("reading a series", || st.read(id, a, b))?;
            match got {
                Ok(g) => {
                    let g: Points = g.iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
                    if g != want && all.len() > 200 {
                        let at = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                        bail!(
                            "wrong-range",
                            "series {} in [{}, {}]: expected {} samples, got {}; the first difference is at {}: {:?} instead of {:?}; {} in all",
                            id, a, b, want.len(), g.len(), at, g.get(at), want.get(at), all.len()
                        );
                    }
                    if g != want {
                        bail!("wrong-range", "series {} in [{}, {}]: expected {:?}, got {:?}; all of it: {:?}", id, a, b, want, g, all);
                    }
                }
                Err(e) if !want.is_empty() => bail!("read-failed", "series {} in [{}, {}] with {} samples: {}", id, a, b, want.len(), e),
                Err(_) => {}
            }
            Ok(want.len())
        };
        for op in &c.ops {
            let s = st.as_ref().unwrap();
            let times = |id: u64| -> Vec<u64> {
                let mut v: Vec<u64> = m.get(&id).map(|d| d.keys().cloned().collect()).unwrap_or_default();
                v.push(0);
                v.push(u64::MAX);
                v.sort();
                v
            };
            match op {
                SOp::Write { s: k, first, step, bits } => {
                    let id = ids[*k as usize % ids.len()];
                    let t = match m.get(&id).and_then(|d| d.keys().next_back()) {
                        None => *first,
                        Some(l) => match l.checked_add(*step) {
                            Some(t) => t,
                            None => continue,
                        },
                    };
                    match no_panic("writing a sample", || s.write(id, (t, *bits)))? {
                        Ok(()) => {
                            m.entry(id).or_default().insert(t, *bits);
                        }
                        Err(e) => bail!("write-refused", "sample at {} for series {} refused: {}", t, id, e),
                    }
                }
                SOp::Many { s: k, n, first, step, bits } => {
                    let id = ids[*k as usize % ids.len()];
                    let have = m.entry(id).or_default();
                    let mut t = have.keys().next_back().copied();
                    for i in 0..*n as u64 {
                        let next = t.map_or(Some(*first), |t| t.checked_add(*step as u64));
                        let at = match next {
                            Some(at) => at,
                            None => break,
                        };
                        let bits = bits ^ (i & 0xff);
                        match no_panic("writing a sample", || s.write(id, (at, bits)))? {
                            Ok(()) => have.insert(at, bits),
                            Err(e) => bail!("write-refused", "sample {} of many, at {}, for series {} refused: {}", i, at, id, e),
                        };
                        t = next;
                    }
                    longest = longest.max(have.len());
                    if have.is_empty() {
                        m.remove(&id);
                    }
                }
                SOp::Late { s: k, at, bits } => {
                    let id = ids[*k as usize % ids.len()];
                    if let Some(last) = m.get(&id).and_then(|d| d.keys().next_back().cloned()) {
                        let t = resolve(*at, &times(id)).min(last);
                        let _ = no_panic("writing a late sample", || s.write(id, (t, *bits)))?;
                        lates += 1;
                        read(s, &m, id, 0, u64::MAX)?;
                        read(s, &m, id, t, t)?;
                    }
                }
                SOp::Read { s: k, from, to, sorted } => {
                    let id = ids[*k as usize % ids.len()];
                    let ts = times(id);
                    let (mut a, mut b) = (resolve(*from, &ts), resolve(*to, &ts));
                    if *sorted && a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    let n = read(s, &m, id, a, b)?;
                    let all = m.get(&id).map_or(0, |d| d.len());
                    cut += (n > 0 && n < all) as u64;
                    between += (n == 0 && all > 0) as u64;
                }
                SOp::Unknown { id, from, to } => {
                    if !m.contains_key(id) {
                        read(s, &m, *id, resolve(*from, &[0, T0, u64::MAX]), resolve(*to, &[0, T0, u64::MAX]))?;
                    }
                }
                SOp::Reopen => {
                    s.flush();
                    st = None;
                    st = Some(open(true)?);
                }
            }
        }
        let s = st.as_ref().unwrap();
        for (id, d) in &m {
            read(s, &m, *id, 0, u64::MAX)?;
            let v: Vec<u64> = d.keys().cloned().collect();
            // all of them, or those around round numbers and some in between
            let apart = v.len() / 60 + 1;
            let round = |i: usize| i < 3 || i + 3 > v.len() || i.count_ones() == 1 || (i + 1).count_ones() == 1 || i % apart == 0;
            for (i, t) in v.iter().enumerate() {
                if round(i) {
                    read(s, &m, *id, *t, *t)?;
                }
                if apart > 1 && round(i) {
                    read(s, &m, *id, 0, *t)?;
                    read(s, &m, *id, *t, u64::MAX)?;
                }
            }
            for (i, w) in v.windows(2).enumerate() {
                if !round(i) {
                    continue;
                }
                if w[1] - w[0] > 1 {
                    read(s, &m, *id, w[0] + 1, w[1] - 1)?;
                }
                read(s, &m, *id, w[0], w[1])?;
            }
        }
        cx.hit(if c.kind == Kind::Sled { "sled" } else { "tikv" });
        cx.hit_n("reads of a proper part of a series", cut);
        cx.hit_n("reads of a known series without samples in range", between);
        cx.hit_n("late samples", lates);
        if longest >= 256 {
            cx.hit(if longest >= 2048 { "a series with at least 2048 samples" } else { "a series with at least 256 samples" });
        }
        cx.nontrivial(if self.late { lates > 0 } else { cut > 0 && between > 0 });
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

// ---------------------------------------------------------------------------------------------
// C03, C04: indexers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IOp {
    Create { s: u16, perm: u8, gap: u32 },
    Select { q: Q },
    /// label sets near one of the universe: how it is changed, and at which label
    Exact { s: u16, perm: u8, change: u8, at: u8 },
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IndexCase {
    pub kind: Kind,
    pub universe: Vec<Ls>,
    pub ops: Vec<IOp>,
}

pub struct Index {
    pub name: &'static str,
    pub kinds: &'static [Kind],
    pub odd: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Index {
    type Case = IndexCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<IndexCase> {
        let v = if self.odd { proptest::strategy::Union::new_weighted(vec![(4u32, odd_value()), (1, plain_value())]).boxed() } else { plain_value() };
        let op = prop_oneof![
            5 => (any::<u16>(), 0u8..8, prop_oneof![4 => 1u32..3, 1 => 1u32..2000]).prop_map(|(s, perm, gap)| IOp::Create { s, perm, gap }),
            6 => q_strategy().prop_map(|q| IOp::Select { q }),
            5 => (any::<u16>(), 0u8..8, 0u8..8, any::<u8>()).prop_map(|(s, perm, change, at)| IOp::Exact { s, perm, change, at }),
            1 => Just(IOp::Reopen),
        ];
        let n = tier.pick(60, 120);
        let u = prop_oneof![2 => universe(v.clone(), 1..=16, 5), if self.odd { 4 } else { 1 } => odd_universe(v, 1..=16, 5)];
        (kinds(self.kinds), u, vec(op, 1..n)).prop_map(|(kind, universe, ops)| IndexCase { kind, universe, ops }).boxed()
    }
    fn run(&self, c: &IndexCase, cx: &mut Cx) -> R {
        let dir = scratch_dir();
        let cluster = new_cluster();
        let _f = Forget(cluster.clone());
        let o = opts();
        // sled keeps its lock beyond the end of a database: open a copy, as another process would
        let mut n = 0;
        let mut open = |again: bool| -> R<AnyIndexer> {
            let to = dir.path().join(if c.kind == Kind::Sled { n.to_string() } else { "0".into() });
            if again && c.kind == Kind::Sled {
                copy_quiet(&dir.path().join((n - 1).to_string()), &to);
            }
            n += 1;
            match no_panic("opening an indexer", || AnyIndexer::open(c.kind, &to, &o, &cluster, again))? {
                Ok(s) => Ok(s),
                Err(e) => fail("open-failed", format!("opening an indexer: {}", e)),
            }
        };
        let mut ix = Some(open(false)?);
        let mut known: BTreeMap<Ls, u64> = BTreeMap::new();
        let mut next = 0u64;
        let (mut hits, mut misses, mut near) = (0u64, 0u64, 0u64);
        let select_all = |ix: &AnyIndexer, known: &BTreeMap<Ls, u64>, m: &[(String, String)]| -> R<usize> {
            let want: BTreeMap<u64, Ls> = known.iter().filter(|(l, _)| Model::matches(l, m)).map(|(l, i)| (*i, l.clone())).collect();
            let ids = match no_panic("selecting", || ix.ids(ml(m)))? {
                Ok(i) => i,
                Err(e) => bail!("select-failed", "selecting {:?}: {}", m, e),
            };
            let mut sorted = ids.clone();
            sorted.sort();
            if sorted != want.keys().cloned().collect::<Vec<_>>() {
                bail!("wrong-selection", "selecting {:?}: expected {:?}, got ids {:?}", m, want, ids);
            }
            let metas = match no_panic("selecting", || ix.metas(ml(m)))? {
                Ok(i) => i,
                Err(e) => bail!("select-failed", "selecting {:?}: {}", m, e),
            };
            if metas.len() != want.len() {
                bail!("wrong-selection", "selecting {:?}: expected {:?}, got {} series", m, want, metas.len());
            }
            for (id, l) in metas {
                let mut l = ls_of(&l);
                l.sort();
                if want.get(&id) != Some(&l) {
                    bail!("wrong-labels", "selecting {:?}: series {} is reported with {:?}, expected {:?}", m, id, l, want.get(&id));
                }
            }
            Ok(want.len())
        };
        let exact = |ix: &AnyIndexer, known: &BTreeMap<Ls, u64>, ls: &Ls, perm: u8| -> R {
            match no_panic("looking up a series", || ix.exact(labels(ls, perm)))? {
                Ok(i) if i == known.get(ls).cloned() => Ok(()),
                Ok(i) => fail("wrong-lookup", format!("looking up {:?}: expected {:?}, got {:?}; known are {:?}", ls, known.get(ls), i, known)),
                Err(e) => fail("lookup-failed", format!("looking up {:?}: {}", ls, e)),
            }
        };
        for op in &c.ops {
            let x = ix.as_ref().unwrap();
            match op {
                IOp::Create { s, perm, gap } => {
                    let ls = &c.universe[*s as usize % c.universe.len()];
                    if !known.contains_key(ls) {
                        exact(x, &known, ls, *perm)?;
                        next += *gap as u64;
                        if let Err(e) = no_panic("creating a series", || x.create(labels(ls, *perm), next))? {
                            bail!("create-failed", "creating {:?}: {}; known are {:?}", ls, e, known);
                        }
                        known.insert(ls.clone(), next);
                        exact(x, &known, ls, 0)?;
                    }
                }
                IOp::Select { q } => {
                    let n = select_all(x, &known, &q.matchers(&c.universe))?;
                    hits += (n > 0 && n < known.len()) as u64;
                    misses += (n == 0) as u64;
                }
                IOp::Exact { s, perm, change, at } => {
                    let mut ls = c.universe[*s as usize % c.universe.len()].clone();
                    let k = *at as usize % ls.len();
                    match change {
                        1 if ls.len() > 1 => {
                            ls.remove(k);
                        }
                        2 => {
                            let l = c.universe[*at as usize % c.universe.len()][0].clone();
                            if !ls.iter().any(|x| x.0 == l.0) {
                                ls.push(l);
                            }
                        }
                        3 => ls[k].1.push('1'),
                        4 => {
                            ls[k].1.pop();
                        }
                        5 => {
                            let n = format!("{}b", ls[k].0);
                            if !ls.iter().any(|x| x.0 == n) {
                                ls[k].0 = n;
                            }
                        }
                        6 if ls.len() > 1 => {
                            // two labels folded into the value of one
                            let l = ls.remove(k);
                            let j = k % ls.len();
                            ls[j].1 = format!("{},{}={}", ls[j].1, l.0, l.1);
                        }
                        _ => {}
                    }
                    ls.sort();
                    near += (!known.contains_key(&ls)) as u64;
                    exact(x, &known, &ls, *perm)?;
                }
                IOp::Reopen => {
                    x.flush();
                    ix = None;
                    ix = Some(open(true)?);
                }
            }
        }
        let x = ix.as_ref().unwrap();
        for ls in &c.universe {
            exact(x, &known, ls, 3)?;
            select_all(x, &known, ls)?;
            for l in ls {
                select_all(x, &known, std::slice::from_ref(l))?;
            }
        }
        cx.hit(if c.kind == Kind::Sled { "sled" } else { "tikv" });
        cx.hit_n("series", known.len() as u64);
        cx.hit_n("selections of some of the series", hits);
        cx.hit_n("selections of nothing", misses);
        cx.hit_n("lookups of sets that are not there", near);
        cx.nontrivial(known.len() > 1 && hits > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

// ---------------------------------------------------------------------------------------------
// C17: several chunks in one store

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NOp {
    OpenStorage { c: u8 },
    OpenIndexer { c: u8 },
    Write { c: u8, id: u64, step: u64, bits: u64 },
    Create { c: u8, s: u16 },
    Read { c: u8, id: u64, from: Anchor, to: Anchor },
    Select { c: u8, q: Q },
    Again { c: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NeighbourCase {
    /// identifiers; empty stands for a fresh one
    pub idents: Vec<Vec<u8>>,
    pub universe: Vec<Ls>,
    pub ops: Vec<NOp>,
}

pub struct Neighbours;

impl Part for Neighbours {
    type Case = NeighbourCase;
    fn name(&self) -> &'static str {
        "chunks"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<NeighbourCase> {
        let ident = prop_oneof![
            3 => Just(vec![]),
            2 => vec(any::<u8>(), 16..=16),
            2 => (0u8..4, 0usize..16).prop_map(|(b, at)| {
                let mut v = vec![0u8; 16];
                v[at] = b;
                v
            }),
        ];
        let id = prop_oneof![5 => 1u64..5, 1 => series_id()].boxed();
        let k = 0u8..4;
        let op = prop_oneof![
            3 => k.clone().prop_map(|c| NOp::OpenStorage { c }),
            3 => k.clone().prop_map(|c| NOp::OpenIndexer { c }),
            6 => (k.clone(), id.clone(), 1u64..50, value_bits()).prop_map(|(c, id, step, bits)| NOp::Write { c, id, step, bits }),
            5 => (k.clone(), any::<u16>()).prop_map(|(c, s)| NOp::Create { c, s }),
            3 => (k.clone(), id, anchor(), anchor()).prop_map(|(c, id, from, to)| NOp::Read { c, id, from, to }),
            3 => (k.clone(), q_strategy()).prop_map(|(c, q)| NOp::Select { c, q }),
            2 => k.prop_map(|c| NOp::Again { c }),
        ];
        let v = proptest::strategy::Union::new_weighted(vec![(3u32, plain_value()), (1, odd_value())]).boxed();
        (vec(ident, 2..5), odd_universe(v, 1..=6, 3), vec(op, 1..tier.pick(80, 160))).prop_map(|(idents, universe, ops)| NeighbourCase { idents, universe, ops }).boxed()
    }
    fn run(&self, c: &NeighbourCase, cx: &mut Cx) -> R {
        #[derive(Default)]
        struct Half {
            st: Option<AnyStorage>,
            ix: Option<AnyIndexer>,
            data: BTreeMap<u64, BTreeMap<u64, u64>>,
            series: BTreeMap<Ls, u64>,
            next: u64,
        }
        let dir = scratch_dir();
        let cluster = new_cluster();
        let _f = Forget(cluster.clone());
        let mut os: Vec<ChunkOpts> = vec![];
        for i in &c.idents {
            let mut o = opts();
            if !i.is_empty() && !os.iter().any(|x| x.identifier == *i) {
                o.identifier = i.clone();
            }
            os.push(o);
        }
        let n = os.len();
        let mut cs: Vec<Half> = (0..n).map(|_| Half::default()).collect();
        let (mut again, mut both) = (0u64, BTreeSet::new());
        let check = |h: &Half, k: usize, universe: &[Ls]| -> R {
            if let Some(st) = &h.st {
                for id in h.data.keys().cloned().chain(0..6) {
                    let want: Points = h.data.get(&id).map(|d| d.iter().map(|(t, b)| (*t, *b)).collect()).unwrap_or_default();
                    let got: Points = match no_panic("reading", || st.read(id, 0, u64::MAX))? {
                        Ok(g) => g.iter().map(|p| (p.timestamp, p.value.to_bits())).collect(),
                        Err(e) if !want.is_empty() => bail!("read-failed", "chunk {} series {}: {}", k, id, e),
                        Err(_) => vec![],
                    };
                    if got != want {
                        bail!("samples-differ", "chunk {} series {}: expected {:?}, got {:?}", k, id, want, got);
                    }
                }
            }
            if let Some(ix) = &h.ix {
                for ls in universe {
                    let want: Vec<u64> = h.series.get(ls).cloned().into_iter().collect();
                    match no_panic("looking up", || ix.exact(labels(ls, 0)))? {
                        Ok(g) if g == want.first().cloned() => {}
                        Ok(g) => bail!("series-differ", "chunk {}: {:?} is {:?}, expected {:?}", k, ls, g, want),
                        Err(e) => bail!("lookup-failed", "chunk {}: {:?}: {}", k, ls, e),
                    }
                    for l in ls {
                        let m = std::slice::from_ref(l);
                        let mut want: Vec<(u64, Ls)> = h.series.iter().filter(|(l, _)| Model::matches(l, m)).map(|(l, i)| (*i, l.clone())).collect();
                        want.sort();
                        let mut got: Vec<(u64, Ls)> = match no_panic("selecting", || ix.metas(ml(m)))? {
                            Ok(g) => g.iter().map(|(i, l)| { let mut l = ls_of(l); l.sort(); (*i, l) }).collect(),
                            Err(e) => bail!("select-failed", "chunk {}: {:?}: {}", k, m, e),
                        };
                        got.sort();
                        if got != want {
                            bail!("series-differ", "chunk {}: selecting {:?} gives {:?}, expected {:?}", k, m, got, want);
                        }
                    }
                }
            }
            Ok(())
        };
        for op in &c.ops {
            match op {
                NOp::OpenStorage { c: k } => {
                    let k = *k as usize % n;
                    if cs[k].st.is_none() {
                        match no_panic("opening a storage", || AnyStorage::open(Kind::Tikv, &dir.path().join(k.to_string()), &os[k], &cluster, false))? {
                            Ok(s) => cs[k].st = Some(s),
                            Err(e) => bail!("open-failed", "storage of chunk {}: {}", k, e),
                        }
                    }
                }
                NOp::OpenIndexer { c: k } => {
                    let k = *k as usize % n;
                    if cs[k].ix.is_none() {
                        match no_panic("opening an indexer", || AnyIndexer::open(Kind::Tikv, &dir.path().join(k.to_string()), &os[k], &cluster, false))? {
                            Ok(s) => cs[k].ix = Some(s),
                            Err(e) => bail!("open-failed", "indexer of chunk {}: {}", k, e),
                        }
                    }
                }
                NOp::Write { c: k, id, step, bits } => {
                    let h = &mut cs[*k as usize % n];
                    if let Some(st) = &h.st {
                        let d = h.data.entry(*id).or_default();
                        let t = d.keys().next_back().map_or(*step, |l| l + step);
                        if let Err(e) = no_panic("writing", || st.write(*id, (t, *bits)))? {
                            bail!("write-refused", "chunk {} series {} at {}: {}", k, id, t, e);
                        }
                        d.insert(t, *bits);
                    }
                }
                NOp::Create { c: k, s } => {
                    let h = &mut cs[*k as usize % n];
                    let ls = &c.universe[*s as usize % c.universe.len()];
                    if let (Some(ix), false) = (&h.ix, h.series.contains_key(ls)) {
                        h.next += 1;
                        if let Err(e) = no_panic("creating a series", || ix.create(labels(ls, 0), h.next))? {
                            bail!("create-failed", "chunk {}: creating {:?}: {}", k, ls, e);
                        }
                        h.series.insert(ls.clone(), h.next);
                    }
                }
                NOp::Read { c: k, id, from, to } => {
                    let h = &cs[*k as usize % n];
                    if let Some(st) = &h.st {
                        let d = h.data.get(id).cloned().unwrap_or_default();
                        let times: Vec<u64> = cs.iter().flat_map(|h| h.data.get(id).into_iter().flat_map(|d| d.keys().cloned())).collect();
                        let (a, b) = (resolve(*from, &times), resolve(*to, &times));
                        let (a, b) = (a.min(b), a.max(b));
                        let want: Points = d.range(a..=b).map(|(t, b)| (*t, *b)).collect();
                        let got: Points = match no_panic("reading", || st.read(*id, a, b))? {
                            Ok(g) => g.iter().map(|p| (p.timestamp, p.value.to_bits())).collect(),
                            Err(e) if !want.is_empty() => bail!("read-failed", "chunk {} series {}: {}", k, id, e),
                            Err(_) => vec![],
                        };
                        if got != want {
                            bail!("samples-differ", "chunk {} series {} in [{}, {}]: expected {:?}, got {:?}", k, id, a, b, want, got);
                        }
                    }
                }
                NOp::Select { c: k, q } => {
                    let h = &cs[*k as usize % n];
                    if let Some(ix) = &h.ix {
                        let m = q.matchers(&c.universe);
                        let mut want: Vec<u64> = h.series.iter().filter(|(l, _)| Model::matches(l, &m)).map(|x| *x.1).collect();
                        want.sort();
                        match no_panic("selecting", || ix.ids(ml(&m)))? {
                            Ok(mut g) => {
                                g.sort();
                                if g != want {
                                    bail!("series-differ", "chunk {}: selecting {:?} gives {:?}, expected {:?}", k, m, g, want);
                                }
                            }
                            Err(e) => bail!("select-failed", "chunk {}: {:?}: {}", k, m, e),
                        }
                    }
                }
                NOp::Again { c: k } => {
                    let k = *k as usize % n;
                    let h = &mut cs[k];
                    if h.st.is_some() && h.ix.is_some() {
                        again += 1;
                        let d = dir.path().join(k.to_string());
                        match no_panic("opening a storage again", || AnyStorage::open(Kind::Tikv, &d, &os[k], &cluster, true))? {
                            Ok(s) => h.st = Some(s),
                            Err(e) => bail!("open-failed", "storage of chunk {} again: {}", k, e),
                        }
                        match no_panic("opening an indexer again", || AnyIndexer::open(Kind::Tikv, &d, &os[k], &cluster, true))? {
                            Ok(s) => h.ix = Some(s),
                            Err(e) => bail!("open-failed", "indexer of chunk {} again: {}", k, e),
                        }
                        check(h, k, &c.universe)?;
                    }
                }
            }
        }
        for (k, h) in cs.iter_mut().enumerate() {
            check(h, k, &c.universe)?;
            if h.st.is_some() && h.ix.is_some() {
                let d = dir.path().join(k.to_string());
                h.st = AnyStorage::open(Kind::Tikv, &d, &os[k], &cluster, true).map_err(|e| err("open-failed", e))?.into();
                h.ix = AnyIndexer::open(Kind::Tikv, &d, &os[k], &cluster, true).map_err(|e| err("open-failed", e))?.into();
                check(h, k, &c.universe)?;
            }
            if !h.data.is_empty() && !h.series.is_empty() {
                both.insert(k);
            }
        }
        cx.hit_n("chunks opened again", again);
        cx.hit_n("chunks with samples and series", both.len() as u64);
        cx.nontrivial(both.len() > 1);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 6000), (32, 5000))
    }
}

// ---------------------------------------------------------------------------------------------
// C17: several databases in one store

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Write { d: u8, s: u16, pts: Vec<(u32, u64)> },
    Swap { d: u8 },
    Query { d: u8, q: Q },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DbsCase {
    pub combos: Vec<Combo>,
    pub universe: Vec<Ls>,
    pub ops: Vec<DOp>,
}

pub struct Databases {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Databases {
    type Case = DbsCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<DbsCase> {
        let op = prop_oneof![
            6 => (0u8..4, any::<u16>(), vec((1u32..30, value_bits()), 1..5)).prop_map(|(d, s, pts)| DOp::Write { d, s, pts }),
            1 => (0u8..4).prop_map(|d| DOp::Swap { d }),
            4 => (0u8..4, q_strategy()).prop_map(|(d, q)| DOp::Query { d, q }),
        ];
        (vec(select(self.combos), 2..4), universe(plain_value(), 1..=5, 3), vec(op, 1..40)).prop_map(|(combos, universe, ops)| DbsCase { combos, universe, ops }).boxed()
    }
    fn run(&self, c: &DbsCase, cx: &mut Cx) -> R {
        let cluster = new_cluster();
        let mut ws: Vec<(World, Model)> = vec![];
        for k in &c.combos {
            let mut w = World::new(*k, 3_600_000, "");
            w.cluster = cluster.clone();
            w.open()?;
            let m = Model { universe: c.universe.clone(), chunks: vec![crate::hist::MChunk { win: w.win, data: BTreeMap::new() }] };
            ws.push((w, m));
        }
        let n = ws.len();
        let mut swaps = 0;
        let ask = |w: &World, m: &Model, ms: &[(String, String)], a: u64, b: u64, d: usize| -> R {
            match w.query(ml(ms), a, b)? {
                Ok(got) => crate::hist::compare(&got, &m.expect(ms, a, b), &Answer::new(), &format!("database {}: query for {:?} in [{}, {}]", d, ms, a, b)),
                Err(e) => fail("query-failed", format!("database {}: query for {:?} in [{}, {}]: {}", d, ms, a, b, e)),
            }
        };
        for op in &c.ops {
            match op {
                DOp::Write { d, s, pts } => {
                    let (w, m) = &mut ws[*d as usize % n];
                    let s = *s as usize % c.universe.len();
                    let mut t = m.last(s).unwrap_or(w.win.0);
                    let mut out = vec![];
                    for (st, b) in pts {
                        t += *st as u64;
                        out.push((t, *b));
                    }
                    let db = w.db();
                    if let Err(e) = no_panic("write", || db.write_batch(labels(&c.universe[s], 0), out.iter().map(|p| tp(*p)).collect()))? {
                        bail!("write-refused", "database {}: {}", d, e);
                    }
                    for p in out {
                        m.write(s, p.0, p.1);
                    }
                }
                DOp::Swap { d } => {
                    let (w, m) = &mut ws[*d as usize % n];
                    let start = w.win.1 + 1;
                    if let Err(e) = w.swap_at(start)? {
                        bail!("rollover-failed", "{}", e);
                    }
                    m.chunks.push(crate::hist::MChunk { win: w.win, data: BTreeMap::new() });
                    swaps += 1;
                }
                DOp::Query { d, q } => {
                    let k = *d as usize % n;
                    let (w, m) = &ws[k];
                    let (a, b) = q.range(&m.times());
                    if a <= b {
                        ask(w, m, &q.matchers(&c.universe), a, b, k)?;
                    }
                }
            }
        }
        let mut filled = 0;
        for (k, (w, m)) in ws.iter().enumerate() {
            for ls in &c.universe {
                ask(w, m, ls, 0, u64::MAX, k)?;
            }
            filled += m.chunks.iter().any(|c| !c.data.is_empty()) as u64;
        }
        cx.hit_n("databases with samples", filled);
        cx.hit_n("rollovers", swaps);
        cx.nontrivial(filled > 1);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

// ---------------------------------------------------------------------------------------------
// C22: windows

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Single { s: u16, at: (u16, i8), bits: u64 },
    Batch { s: u16, pts: Vec<((u16, i8), u64)> },
    /// a batch of so many samples, in one direction
    Long { s: u16, at: (u16, i8), n: u16, step: u16, back: bool },
    Swap { gap: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WindowCase {
    pub combo: Combo,
    /// window of a lone chunk; None: a database
    pub lone: Option<(u64, u64)>,
    pub size: u64,
    pub universe: Vec<Ls>,
    pub ops: Vec<WOp>,
}

pub struct Window {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub lone: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

enum Target {
    Db(World),
    Chunk(Chunk<TiKvStorage, TiKvIndexer>, (u64, u64)),
    SledChunk(Chunk<SledStorage, SledIndexer>, (u64, u64)),
}
impl Target {
    fn win(&self) -> (u64, u64) {
        match self {
            Target::Db(w) => w.win,
            Target::Chunk(_, w) | Target::SledChunk(_, w) => *w,
        }
    }
    fn single(&self, l: Labels, p: (u64, u64)) -> R<Result<(), String>> {
        no_panic("write", || match self {
            Target::Db(w) => w.db().write(l, tp(p)).map_err(|e| e.to_string()),
            Target::Chunk(c, _) => c.insert(l, tp(p)).map_err(|e| e.to_string()),
            Target::SledChunk(c, _) => c.insert(l, tp(p)).map_err(|e| e.to_string()),
        })
    }
    fn query(&self, l: Labels, a: u64, b: u64) -> R<Result<Answer, String>> {
        let flat = |v: Vec<monolith::time_series::TimeSeries>| -> R<Answer> { answer_of(v.iter().map(|t| (t.meta_data().clone(), t.time_points().clone())).collect()) };
        Ok(match self {
            Target::Db(w) => w.query(l, a, b)?,
            Target::Chunk(c, _) => match no_panic("query", || c.query(l, a, b))? {
                Ok(v) => Ok(flat(v)?),
                Err(e) => Err(e.to_string()),
            },
            Target::SledChunk(c, _) => match no_panic("query", || c.query(l, a, b))? {
                Ok(v) => Ok(flat(v)?),
                Err(e) => Err(e.to_string()),
            },
        })
    }
}

impl Part for Window {
    type Case = WindowCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<WindowCase> {
        let at = (any::<u16>(), prop_oneof![4 => Just(0i8), 3 => Just(1i8), 3 => Just(-1i8), 1 => -100i8..100]).boxed();
        let op = prop_oneof![
            6 => (any::<u16>(), at.clone(), value_bits()).prop_map(|(s, at, bits)| WOp::Single { s, at, bits }),
            4 => (any::<u16>(), vec((at.clone(), value_bits()), 1..8)).prop_map(|(s, pts)| WOp::Batch { s, pts }),
            1 => (any::<u16>(), at.clone(), prop_oneof![3 => 2u16..100, 1 => 100u16..700], prop_oneof![2 => Just(1u16), 1 => 1u16..2000], any::<bool>())
                .prop_map(|(s, at, n, step, back)| WOp::Long { s, at, n, step, back }),
            1 => prop_oneof![Just(0u32), 1u32..100_000].prop_map(|gap| WOp::Swap { gap }),
        ];
        let edge = prop_oneof![2 => 0u64..40, 2 => T0..T0 + 40, 1 => any::<u64>().prop_map(|v| v.min(u64::MAX - 20_000))];
        let lone = if self.lone {
            (edge, prop_oneof![2 => 0u64..4, 3 => 0u64..200, 1 => any::<u64>(), 1 => Just(u64::MAX)]).prop_map(|(s, l)| Some((s, s.saturating_add(l)))).boxed()
        } else {
            Just(None).boxed()
        };
        (
            select(self.combos),
            lone,
            select(&[3_600_000u64, 3_600_001, 12_000_000, 86_400_000 * 400][..]),
            universe(plain_value(), 1..=4, 3),
            vec(op, 1..25),
        )
            .prop_map(|(combo, lone, size, universe, ops)| WindowCase { combo, lone, size, universe, ops })
            .boxed()
    }
    fn run(&self, c: &WindowCase, cx: &mut Cx) -> R {
        let dir = scratch_dir();
        let cluster = new_cluster();
        let _f = Forget(cluster.clone());
        let mut t = match c.lone {
            None => {
                let mut w = World::new(c.combo, c.size, "");
                w.open()?;
                if w.win.0 != T0 || w.win.1 < T0 + c.size - 1 || w.win.1 > T0 + c.size {
                    bail!("window", "a database opened at {} with windows of {} has the window {:?}", T0, c.size, w.win);
                }
                Target::Db(w)
            }
            Some(win) => {
                let mut o = ChunkOpts::default();
                o.start_time = Some(win.0);
                o.end_time = Some(win.1);
                let r = match c.combo {
                    SS => (|| {
                        let d: String = dir.path().to_str().unwrap().into();
                        Ok(Target::SledChunk(Chunk::new(SledStorageBuilder::new().build(d.clone(), Some(&o), None)?, SledIndexerBuilder::new().build(d, Some(&o), None)?, &o), win))
                    })(),
                    _ => (|| {
                        let d: String = dir.path().to_str().unwrap().into();
                        Ok(Target::Chunk(
                            Chunk::new(TiKvStorageBuilder::new(backend(&cluster))?.build(d.clone(), Some(&o), None)?, TiKvIndexerBuilder::new(backend(&cluster))?.build(d, Some(&o), None)?, &o),
                            win,
                        ))
                    })(),
                };
                r.map_err(|e: monolith::MonolithErr| err("open-failed", e))?
            }
        };
        let mut m = Model { universe: c.universe.clone(), chunks: vec![crate::hist::MChunk { win: t.win(), data: BTreeMap::new() }] };
        let (mut edge, mut outside, mut mixed) = (0u64, 0u64, 0u64);
        let time = |a: (u16, i8), win: (u64, u64), m: &Model, s: usize| -> u64 {
            let last = m.last(s).unwrap_or(win.0);
            let pool = [win.0, win.1, last.saturating_add(1), win.0 / 2 + win.1 / 2, last.saturating_add((win.1 - last.min(win.1)) / 16), win.0, win.1, 0, u64::MAX];
            let b = pool[a.0 as usize % pool.len()];
            if a.1 >= 0 {
                b.saturating_add(a.1 as u64)
            } else {
                b.saturating_sub(a.1.unsigned_abs() as u64)
            }
        };
        // in every range that begins or ends at an end of the window, or at the last sample
        let all = |t: &Target, m: &Model, s: usize, what: &str| -> R {
            let ls = &m.universe[s];
            let (win, last) = (t.win(), m.last(s).unwrap_or(t.win().0));
            for (a, b) in [(0, u64::MAX), (0, win.0), (win.0, win.0), (win.0, win.1), (win.1, win.1), (win.1, u64::MAX), (last, last), (0, last), (last, u64::MAX)] {
                let want = m.expect(ls, a, b);
                match t.query(ml(ls), a, b)? {
                    Ok(got) => crate::hist::compare(&got, &want, &Answer::new(), &format!("{}, in [{}, {}]", what, a, b))?,
                    Err(e) => bail!("query-failed", "{}, in [{}, {}]: {}", what, a, b, e),
                }
            }
            Ok(())
        };
        for op in &c.ops {
            let win = t.win();
            match op {
                WOp::Single { s, at, bits } => {
                    let s = *s as usize % c.universe.len();
                    let ts = time(*at, win, &m, s);
                    let inside = ts >= win.0 && ts <= win.1;
                    if inside && m.last(s).map_or(false, |l| l >= ts) {
                        continue;
                    }
                    let r = t.single(labels(&c.universe[s], 0), (ts, *bits))?;
                    match (inside, r) {
                        (true, Err(e)) => bail!("refused-inside", "a sample at {} is refused, the window is {:?}: {}", ts, win, e),
                        (false, Ok(())) => bail!("accepted-outside", "a sample at {} is accepted, the window is {:?}", ts, win),
                        _ => {}
                    }
                    if inside {
                        m.cur().data.entry(s).or_default().insert(ts, *bits);
                        edge += (ts == win.0 || ts == win.1) as u64;
                    } else {
                        outside += 1;
                    }
                    all(&t, &m, s, &format!("after a single write at {}, window {:?}", ts, win))?;
                }
                WOp::Batch { .. } | WOp::Long { .. } => {
                    let s = match op {
                        WOp::Batch { s, .. } | WOp::Long { s, .. } => s,
                        _ => unreachable!(),
                    };
                    let s = *s as usize % c.universe.len();
                    let w = match &t {
                        Target::Db(w) => w,
                        _ => continue,
                    };
                    let mut out: Points = vec![];
                    let mut m2 = m.clone();
                    let (mut i, mut o) = (0, 0);
                    let mut pts: Vec<(u64, u64)> = match op {
                        WOp::Long { at, n, step, back, .. } => {
                            // ends or begins there
                            let (at, d) = (time(*at, win, &m2, s), *n as u64 * *step as u64);
                            let from = if *back { at.saturating_sub(d) } else { at };
                            (0..=*n as u64).map(|i| (from.saturating_add(i * *step as u64), i)).collect()
                        }
                        _ => vec![],
                    };
                    let listed = match op {
                        WOp::Batch { pts, .. } => pts.clone(),
                        _ => vec![],
                    };
                    pts.extend(listed.iter().map(|_| (0, 0)));
                    for (k, (ts, b)) in pts.iter().enumerate() {
                        let (ts, b) = match listed.get(k) {
                            Some((a, b)) => (time(*a, win, &m2, s), b),
                            None => (*ts, b),
                        };
                        if ts >= win.0 && ts <= win.1 {
                            if !m2.write(s, ts, *b) {
                                continue;
                            }
                            i += 1;
                        } else {
                            o += 1;
                        }
                        out.push((ts, *b));
                    }
                    let db = w.db();
                    if let Err(e) = no_panic("write", || db.write_batch(labels(&c.universe[s], 0), out.iter().map(|p| tp(*p)).collect()))? {
                        bail!("batch-refused", "batch at {:?}, window {:?}: {}", out.iter().map(|p| p.0).collect::<Vec<_>>(), win, e);
                    }
                    m = m2;
                    mixed += (i > 0 && o > 0) as u64;
                    all(&t, &m, s, &format!("after a batch at {:?}, window {:?}", out.iter().map(|p| p.0).collect::<Vec<_>>(), win))?;
                }
                WOp::Swap { gap } => {
                    if let Target::Db(w) = &mut t {
                        let start = w.win.1 + 1 + *gap as u64;
                        if let Err(e) = w.swap_at(start)? {
                            bail!("rollover-failed", "{}", e);
                        }
                        m.chunks.push(crate::hist::MChunk { win: w.win, data: BTreeMap::new() });
                    }
                }
            }
        }
        for s in 0..c.universe.len() {
            all(&t, &m, s, "at the end")?;
        }
        cx.hit_n("samples at an end of the window", edge);
        cx.hit_n("single samples outside", outside);
        cx.hit_n("batches with samples on both sides", mixed);
        cx.nontrivial(edge > 0 && outside + mixed > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

#[allow(dead_code)]
fn _unused(_: Duration) {}
