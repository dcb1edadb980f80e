//! C08: directories opened with other backends than they were created with.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{compare, MChunk, Model};
use crate::world::*;
use monolith::chunk::ChunkOpts;
use monolith::indexer::Indexer;
use monolith::label::Labels;
use monolith::option::DbOpts;
use monolith::storage::Storage;
use monolith::time_point::TimePoint;
use monolith::{Builder, HasTypeName, MonolithDb, MonolithErr, DB_METADATA_FILENAME};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// the four real pairs, with data

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Write { s: u16, n: u8, bits: u64 },
    Swap { gap: u16 },
    /// open again with the same pair
    Reopen,
    /// with another one, this many times
    Other { pick: u8, times: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCase {
    pub combo: Combo,
    pub universe: Vec<Ls>,
    pub ops: Vec<BOp>,
}

pub struct Backends {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub ops: usize,
}

pub fn check_all(w: &World, m: &Model, what: &str) -> R<usize> {
    let mut n = 0;
    for ls in &m.universe {
        for q in [ls.clone(), vec![ls[0].clone()]] {
            let want = m.expect(&q, 0, u64::MAX);
            match w.query(labels(&q, 0), 0, u64::MAX)? {
                Ok(got) => compare(&got, &want, &Answer::new(), what)?,
                Err(e) => bail!("query-failed", "{}: {}", what, e),
            }
            n += want.len();
        }
    }
    Ok(n)
}

impl Part for Backends {
    type Case = BCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BCase> {
        let op = prop_oneof![
            5 => (any::<u16>(), 1u8..5, value_bits()).prop_map(|(s, n, bits)| BOp::Write { s, n, bits }),
            1 => (0u16..50).prop_map(|gap| BOp::Swap { gap }),
            1 => Just(BOp::Reopen),
            4 => (0u8..3, 1u8..3).prop_map(|(pick, times)| BOp::Other { pick, times }),
        ];
        (select(self.combos), universe(plain_value(), 1..=4, 3), vec(op, 1..self.ops)).prop_map(|(combo, universe, ops)| BCase { combo, universe, ops }).boxed()
    }
    fn run(&self, c: &BCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 3_600_000, "");
        w.open()?;
        let mut m = Model { universe: c.universe.clone(), chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let mut last = w.win.0;
        let (mut tried, mut stored, mut after) = (0, 0, 0);
        let reopen = |w: &mut World, m: &mut Model, last: &mut u64| -> R {
            *last += 10;
            crate::clock::set(*last);
            w.open()?;
            m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
            Ok(())
        };
        for op in &c.ops {
            beat();
            match op {
                BOp::Write { s, n, bits } => {
                    let s = *s as usize % m.universe.len();
                    let pts: Points = (0..*n as u64).map(|i| (last + 1 + i, bits.wrapping_add(i))).collect();
                    last += *n as u64;
                    if let Err(e) = no_panic("write", || w.db().write_batch(labels(&m.universe[s], 0), pts.iter().map(|p| tp(*p)).collect()))? {
                        bail!("write-failed", "{}", e);
                    }
                    for p in pts {
                        m.write(s, p.0, p.1);
                        stored += 1;
                    }
                    if tried > 0 {
                        after += 1;
                    }
                }
                BOp::Swap { gap } => {
                    last = w.win.1 + 1 + *gap as u64;
                    if let Err(e) = w.swap_at(last)? {
                        bail!("rollover-failed", "{}", e);
                    }
                    m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                }
                BOp::Reopen => {
                    w.prepare_reopen("", true);
                    reopen(&mut w, &mut m, &mut last)?;
                    check_all(&w, &m, "opened again with the same backends")?;
                }
                BOp::Other { pick, times } => {
                    w.prepare_reopen("", true);
                    let others: Vec<Combo> = COMBOS.iter().filter(|x| **x != c.combo).cloned().collect();
                    for i in 0..*times {
                        let other = others[(*pick + i) as usize % 3];
                        last += 10;
                        crate::clock::set(last);
                        w.combo = other;
                        if let Ok(()) = w.try_open()? {
                            bail!("other-backends", "created with {}, opens with {}", combo_name(c.combo), combo_name(other));
                        }
                        tried += 1;
                        cx.hit(&format!("{} refused for {}", combo_name(c.combo), combo_name(other)));
                    }
                    w.combo = c.combo;
                    // what was attempted may hold locks
                    w.prepare_reopen("", true);
                    reopen(&mut w, &mut m, &mut last)?;
                    check_all(&w, &m, "opened again after other backends were refused")?;
                }
            }
        }
        check_all(&w, &m, "at the end")?;
        cx.hit_n("writes after a refused attempt", after);
        cx.nontrivial(tried > 0 && stored > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

// ---------------------------------------------------------------------------------------------
// backends of any name

const NAMES: [&str; 7] = ["SledStorage", "sledstorage", "SledStorag", "SledStorageX", "SledIndexer", "", "S\"l\\e,d\u{e9}\n"];

struct Any<const K: usize>;
impl<const K: usize> HasTypeName for Any<K> {
    fn get_type_name() -> &'static str {
        NAMES[K]
    }
}
impl<const K: usize> Storage for Any<K> {
    fn write_time_point(&self, _: u64, _: u64, _: f64) -> MResult<()> {
        Ok(())
    }
    fn read_time_series(&self, _: u64, _: u64, _: u64) -> MResult<Vec<TimePoint>> {
        Err(MonolithErr::NotFoundErr)
    }
}
impl<const K: usize> Indexer for Any<K> {
    fn get_series_metadata_contains_labels(&self, _: Labels) -> MResult<Vec<(u64, Labels)>> {
        Ok(vec![])
    }
    fn get_series_id_contains_labels(&self, _: Labels) -> MResult<Vec<u64>> {
        Ok(vec![])
    }
    fn get_series_id_by_labels(&self, _: Labels) -> MResult<Option<u64>> {
        Ok(None)
    }
    fn create_index(&self, _: Labels, _: u64) -> MResult<()> {
        Ok(())
    }
}
impl<const K: usize> Builder<Any<K>> for Any<K> {
    fn build(&self, _: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> MResult<Any<K>> {
        Ok(Any)
    }
    fn write_to_chunk(&self, _: &Path) -> MResult<()> {
        Ok(())
    }
    fn read_from_chunk(&self, _: &Path, _: Option<&ChunkOpts>) -> MResult<Option<Any<K>>> {
        Ok(Some(Any))
    }
    fn write_config(&self, _: &Path) -> MResult<()> {
        Ok(())
    }
    fn read_config(&self, _: &Path) -> MResult<()> {
        Ok(())
    }
}

fn open_named<const S: usize, const I: usize>(dir: &Path) -> bool {
    let mut o = DbOpts::default();
    o.base_dir = dir.to_path_buf();
    o.chunk_size = Duration::from_secs(3600);
    MonolithDb::<Any<S>, Any<I>>::new(o, Box::new(Any::<S>), Box::new(Any::<I>)).is_ok()
}
fn open_with<const S: usize>(i: usize, dir: &Path) -> bool {
    match i {
        0 => open_named::<S, 0>(dir),
        1 => open_named::<S, 1>(dir),
        2 => open_named::<S, 2>(dir),
        3 => open_named::<S, 3>(dir),
        4 => open_named::<S, 4>(dir),
        5 => open_named::<S, 5>(dir),
        _ => open_named::<S, 6>(dir),
    }
}
fn open_pair(s: usize, i: usize, dir: &Path) -> bool {
    match s {
        0 => open_with::<0>(i, dir),
        1 => open_with::<1>(i, dir),
        2 => open_with::<2>(i, dir),
        3 => open_with::<3>(i, dir),
        4 => open_with::<4>(i, dir),
        5 => open_with::<5>(i, dir),
        _ => open_with::<6>(i, dir),
    }
}

pub struct Names {
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NCase {
    pub own: (u8, u8),
    pub tries: Vec<(u8, u8)>,
    /// the tries for which the metadata file is damaged, and how much of it is left
    #[serde(default)]
    pub damage: Vec<Option<u16>>,
}

impl Part for Names {
    type Case = NCase;
    fn name(&self) -> &'static str {
        "names"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<NCase> {
        let n = NAMES.len() as u8;
        (0..n, 0..n)
            .prop_flat_map(move |own| {
                let t = prop_oneof![
                    2 => Just(own),
                    2 => (0..n).prop_map(move |i| (own.0, i)),
                    2 => (0..n).prop_map(move |s| (s, own.1)),
                    1 => Just((own.1, own.0)),
                    1 => (0..n, 0..n),
                ];
                let d = prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)];
                (vec(t, 1..8), prop_oneof![1 => Just(vec![]).boxed(), 1 => vec(d, 1..8).boxed()]).prop_map(move |(tries, damage)| NCase { own, tries, damage })
            })
            .boxed()
    }
    fn run(&self, c: &NCase, cx: &mut Cx) -> R {
        let root = scratch_dir();
        let mut now = T0;
        let mut go = |p: (u8, u8)| {
            now += 10;
            crate::clock::set(now);
            no_panic("opening", || open_pair(p.0 as usize, p.1 as usize, root.path()))
        };
        if !go(c.own)? {
            bail!("open-failed", "an empty directory does not open");
        }
        let mut refused = 0;
        let file = root.path().join(DB_METADATA_FILENAME);
        for (i, t) in c.tries.iter().chain([c.own].iter()).enumerate() {
            let whole = match c.damage.get(i) {
                Some(Some(left)) if i < c.tries.len() => {
                    let whole = std::fs::read(&file).unwrap();
                    if *left % 8 == 7 {
                        std::fs::write(&file, [&whole[..], b"}"].concat()).unwrap();
                    } else {
                        std::fs::write(&file, &whole[..*left as usize * whole.len() >> 16]).unwrap();
                    }
                    Some(whole)
                }
                _ => None,
            };
            let ok = go(*t)?;
            if let Some(whole) = whole {
                // whether the right ones are taken is another matter
                if ok && *t != c.own {
                    bail!("other-backends", "opens with storage {:?} and indexer {:?} although the damaged metadata file does not say so", NAMES[t.0 as usize], NAMES[t.1 as usize]);
                }
                std::fs::write(&file, whole).unwrap();
                cx.hit("tried with a damaged metadata file");
                continue;
            }
            if ok != (*t == c.own) {
                bail!(
                    if ok { "other-backends" } else { "open-failed" },
                    "created with storage {:?} and indexer {:?}; storage {:?} and indexer {:?}: {}",
                    NAMES[c.own.0 as usize],
                    NAMES[c.own.1 as usize],
                    NAMES[t.0 as usize],
                    NAMES[t.1 as usize],
                    if ok { "opens" } else { "is refused" }
                );
            }
            refused += !ok as u64;
        }
        crate::clock::set(0);
        cx.hit_n("refused", refused);
        cx.nontrivial(refused > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}
