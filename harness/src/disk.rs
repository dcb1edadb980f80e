//! C29: file operations of the database itself that fail.
use crate::backends::check_all;
use crate::bail;
use crate::crashpt::DiskFault;
use crate::fw::*;
use crate::gen::*;
use crate::hist::{MChunk, Model};
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Write { s: u16, n: u8, bits: u64 },
    Swap { gap: u16, fault: Option<DiskFault> },
    Reopen { fault: Option<DiskFault>, again: Option<DiskFault> },
    /// with other backends
    Other { pick: u8, fault: Option<DiskFault> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DCase {
    pub combo: Combo,
    pub universe: Vec<Ls>,
    pub create: Option<DiskFault>,
    pub ops: Vec<DOp>,
}

pub struct Disk {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub ops: usize,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

fn fault() -> BoxedStrategy<Option<DiskFault>> {
    let errno = select(vec![libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOSPC, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::ENOMEM]);
    prop_oneof![
        1 => Just(None),
        5 => (prop_oneof![3 => 0u16..12, 1 => 0u16..40], prop_oneof![3 => Just(1u16), 1 => 2u16..6, 1 => Just(u16::MAX)], errno, any::<bool>(), any::<bool>())
            .prop_map(|(at, n, errno, part, stores)| Some(DiskFault { at, n, errno, part, stores })),
    ]
    .boxed()
}

/// With the fault in place; how often it struck.
fn with<T>(w: &mut World, f: &Option<DiskFault>, g: impl FnOnce(&mut World) -> R<T>) -> R<(T, u64)> {
    w.fault = f.clone();
    let r = g(w)?;
    Ok((r, w.struck))
}

impl Part for Disk {
    type Case = DCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<DCase> {
        let op = prop_oneof![
            4 => (any::<u16>(), 1u8..5, value_bits()).prop_map(|(s, n, bits)| DOp::Write { s, n, bits }),
            3 => (0u16..50, fault()).prop_map(|(gap, fault)| DOp::Swap { gap, fault }),
            3 => (fault(), prop_oneof![3 => Just(None).boxed(), 1 => fault()]).prop_map(|(fault, again)| DOp::Reopen { fault, again }),
            1 => (0u8..3, fault()).prop_map(|(pick, fault)| DOp::Other { pick, fault }),
        ];
        (select(self.combos), universe(plain_value(), 1..=4, 3), prop_oneof![2 => Just(None).boxed(), 1 => fault()], vec(op, 1..self.ops))
            .prop_map(|(combo, universe, create, ops)| DCase { combo, universe, create, ops })
            .boxed()
    }
    fn run(&self, c: &DCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 3_600_000, "");
        let mut now = T0;
        let (mut struck, mut refused, mut stored, mut survived) = (0u64, 0u64, 0u64, 0u64);
        // opened under the fault and, if that fails, once more
        let mut open = |w: &mut World, f: &[&Option<DiskFault>], now: &mut u64| -> R {
            for f in f {
                let (r, n) = with(w, f, |w| w.try_open())?;
                struck += n.min(1);
                match r {
                    Ok(()) => {
                        survived += (n > 0) as u64;
                        return Ok(());
                    }
                    Err(e) if n == 0 => bail!("open-failed", "opening {:?} failed: {}", w.dir, e),
                    Err(_) => refused += 1,
                }
                if w.uses_sled() {
                    // sled's lock on what the failed attempt opened may last
                    w.prepare_reopen("", false);
                }
                *now += 10;
                crate::clock::set(*now);
            }
            if let Err(e) = w.try_open()? {
                bail!("open-failed", "opening {:?} after an attempt during which file operations failed: {}", w.dir, e);
            }
            Ok(())
        };
        open(&mut w, &[&c.create], &mut now)?;
        let mut m = Model { universe: c.universe.clone(), chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let mut last = w.win.0;
        for op in &c.ops {
            beat();
            match op {
                DOp::Write { s, n, bits } => {
                    let s = *s as usize % m.universe.len();
                    let pts: Points = (0..*n as u64).map(|i| (last + 1 + i, bits.wrapping_add(i))).collect();
                    last += *n as u64;
                    if let Err(e) = no_panic("write", || w.db().write_batch(labels(&m.universe[s], 0), pts.iter().map(|p| tp(*p)).collect()))? {
                        bail!("write-failed", "{}", e);
                    }
                    for p in pts {
                        m.write(s, p.0, p.1);
                        stored += 1;
                    }
                }
                DOp::Swap { gap, fault } => {
                    let start = w.win.1.max(last) + 1 + *gap as u64;
                    now = now.max(start);
                    crate::clock::set(now);
                    let (r, n) = with(&mut w, fault, |w| w.swap_at(start))?;
                    match r {
                        Ok(()) => {
                            m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                            last = w.win.0;
                            if n > 0 {
                                check_all(&w, &m, "after a rollover during which a file operation failed")?;
                            }
                        }
                        Err(e) if n == 0 => bail!("rollover-failed", "{}", e),
                        Err(_) => {
                            check_all(&w, &m, "after a rollover that failed")?;
                        }
                    }
                }
                DOp::Reopen { fault, again } => {
                    w.prepare_reopen("", true);
                    now = now.max(last) + 10;
                    crate::clock::set(now);
                    open(&mut w, &[fault, again], &mut now)?;
                    last = w.win.0;
                    m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                    check_all(&w, &m, "opened again while, or after, file operations failed")?;
                }
                DOp::Other { pick, fault } => {
                    w.prepare_reopen("", true);
                    let others: Vec<Combo> = COMBOS.iter().filter(|x| **x != c.combo).cloned().collect();
                    now = now.max(last) + 10;
                    crate::clock::set(now);
                    w.combo = others[*pick as usize % 3];
                    let (r, _) = with(&mut w, fault, |w| w.try_open())?;
                    if r.is_ok() {
                        bail!("other-backends", "created with {}, opens with {}", combo_name(c.combo), combo_name(w.combo));
                    }
                    w.combo = c.combo;
                    w.prepare_reopen("", false);
                    now += 10;
                    crate::clock::set(now);
                    open(&mut w, &[], &mut now)?;
                    last = w.win.0;
                    m.chunks.push(MChunk { win: w.win, data: BTreeMap::new() });
                    check_all(&w, &m, "opened again after other backends were refused")?;
                }
            }
        }
        check_all(&w, &m, "at the end")?;
        cx.hit_n("openings with failed file operations", struck);
        cx.hit_n("of these refused", refused);
        cx.hit_n("of these successful", survived);
        cx.nontrivial(struck > 0 && stored > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        if self.combos[0] == TT {
            100 // a database with sled that has been opened stays in memory
        } else {
            50
        }
    }
}
