//! Parts for the pure pieces: compaction, names and options of chunks, id lists, log segments, equality.
use crate::bail;
use crate::fw::*;
use crate::gen::*;
use monolith::chunk::ChunkOpts;
use monolith::compaction::{CompactType, Compactor, Decompactor};
use monolith::label::{Label, Labels};
use monolith::time_point::TimePoint;
use monolith::utils::{decode_chunk_dir, encode_chunk_dir, intersect_time_series_id_vec};
use monolith::verif::{Entry, EntryType, FlushPolicy, Segment};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Pts = Vec<(u64, u64)>;

// ---------------------------------------------------------------------------------------------
// C15, C16: compaction

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// the step before, plus this
    Change(i64),
    /// this step
    Abs(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Same,
    Bits(u64),
    /// the value before with this many bits changed from there on: (first bit from the left, how many, pattern)
    Xor(u8, u8, u64),
    Float(f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seq {
    pub start: u64,
    pub pts: Vec<(Step, Val)>,
}

fn edge() -> BoxedStrategy<i64> {
    // the distances at which an encoding of differences changes its width
    (select(&[0i64, 1 << 6, 1 << 7, 1 << 8, 1 << 11, 1 << 13, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 62, i64::MAX][..]), -3i64..=3, any::<bool>())
        .prop_map(|(b, o, neg)| {
            let v = b.saturating_add(o);
            if neg {
                -v
            } else {
                v
            }
        })
        .boxed()
}

pub fn seq(max: usize) -> BoxedStrategy<Seq> {
    let step = prop_oneof![
        6 => Just(Step::Change(0)),
        4 => (-200i64..200).prop_map(Step::Change),
        3 => edge().prop_map(Step::Change),
        2 => (-70_000i64..70_000).prop_map(Step::Change),
        1 => any::<i32>().prop_map(|v| Step::Change(v as i64)),
        2 => select(&[0u64, 1, 15_000, 1000, 60_000][..]).prop_map(Step::Abs),
        1 => any::<u64>().prop_map(|v| Step::Abs(v >> 1)),
        1 => edge().prop_map(|v| Step::Abs(v.unsigned_abs())),
    ];
    let val = prop_oneof![
        3 => Just(Val::Same),
        3 => value_bits().prop_map(Val::Bits),
        6 => (0u8..64, 1u8..=64, any::<u64>()).prop_map(|(a, n, p)| Val::Xor(a, n, p)),
        3 => (-1000i32..1000).prop_map(|v| Val::Float(v as f64 / 4.0)),
    ];
    (
        prop_oneof![4 => Just(1_700_000_000_000u64), 1 => Just(0u64), 1 => any::<u64>(), 1 => any::<u32>().prop_map(|v| v as u64), 1 => Just(u64::MAX - 3)],
        prop_oneof![1 => vec((step.clone(), val.clone()), 0..4), 4 => vec((step, val), 1..max)],
    )
        .prop_map(|(start, pts)| Seq { start, pts })
        .boxed()
}

impl Seq {
    /// Timestamps never go back.
    pub fn points(&self) -> Pts {
        let mut out: Pts = vec![];
        let (mut t, mut d, mut v) = (self.start, 0u64, 0u64);
        for (i, (s, val)) in self.pts.iter().enumerate() {
            let nd = match s {
                Step::Change(c) => {
                    if *c < 0 {
                        d.saturating_sub(c.unsigned_abs())
                    } else {
                        d.saturating_add(*c as u64)
                    }
                }
                Step::Abs(a) => *a,
            };
            if i > 0 {
                match t.checked_add(nd) {
                    Some(n) => {
                        t = n;
                        d = nd
                    }
                    None => d = 0,
                }
            }
            v = match val {
                Val::Same => v,
                Val::Bits(b) => *b,
                Val::Float(f) => f.to_bits(),
                Val::Xor(a, n, p) => {
                    let n = (*n as u32).min(64 - *a as u32);
                    let mask = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << (64 - *a as u32 - n) };
                    // both ends of the changed stretch do change
                    let ends = (1u64 << (63 - *a as u32)) | (1u64 << (64 - *a as u32 - n));
                    v ^ ((p & mask) | ends)
                }
            };
            out.push((t, v));
        }
        out
    }
}

fn tps(p: &Pts) -> Vec<TimePoint> {
    p.iter().map(|x| TimePoint::new(x.0, f64::from_bits(x.1))).collect()
}
fn bits(p: &[TimePoint]) -> Pts {
    p.iter().map(|x| (x.timestamp, x.value.to_bits())).collect()
}
fn kind(g: bool) -> CompactType {
    if g {
        CompactType::Gorilla
    } else {
        CompactType::None
    }
}
fn unpack(g: bool, b: Vec<u8>) -> R<Result<Pts, String>> {
    no_panic("decompaction", || match Decompactor::from(kind(g), b) {
        Ok(mut d) => d.decompact().map(|v| bits(&v)).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    })
}
fn differ(got: &Pts, want: &Pts) -> String {
    for i in 0..want.len().max(got.len()) {
        if got.get(i) != want.get(i) {
            return format!(
                "sample {}: expected {:x?}, got {:x?} (lengths {} and {}; before it {:x?})",
                i,
                want.get(i),
                got.get(i),
                want.len(),
                got.len(),
                &want[i.saturating_sub(2).min(want.len())..i.min(want.len())]
            );
        }
    }
    String::new()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompactCase {
    pub gorilla: bool,
    pub seq: Seq,
    /// how the samples are handed over: sizes of batches, 0 for single samples
    pub cuts: Vec<u8>,
    /// look at the bytes in between
    pub peek: u8,
}

pub struct Compaction;
impl Part for Compaction {
    type Case = CompactCase;
    fn name(&self) -> &'static str {
        "round-trip"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<CompactCase> {
        (prop_oneof![9 => Just(true), 1 => Just(false)], seq(tier.pick(60, 300)), vec(0u8..12, 0..6), any::<u8>())
            .prop_map(|(gorilla, seq, cuts, peek)| CompactCase { gorilla, seq, cuts, peek })
            .boxed()
    }
    fn run(&self, c: &CompactCase, cx: &mut Cx) -> R {
        let p = c.seq.points();
        // as a whole
        let whole = no_panic("compaction", || Compactor::new(kind(c.gorilla)).compact_vec(tps(&p)))?;
        match unpack(c.gorilla, whole.clone())? {
            Ok(got) if got == p => {}
            Ok(got) => bail!("lossy", "compacted as a whole: {}", differ(&got, &p)),
            Err(e) => bail!("refused", "own output refused: {}", e),
        }
        // piece by piece
        let mut comp = Compactor::new(kind(c.gorilla));
        let mut i = 0;
        let mut k = 0;
        while i < p.len() {
            let n = if c.cuts.is_empty() { 0 } else { c.cuts[k % c.cuts.len()] as usize };
            k += 1;
            if n == 0 {
                no_panic("compaction", || comp.compact(&tps(&p)[i]))?;
                i += 1;
            } else {
                let e = (i + n).min(p.len());
                no_panic("compaction", || comp.compact_vec(tps(&p)[i..e].to_vec()))?;
                i = e;
            }
            if (k as u8).wrapping_mul(37) ^ c.peek < 60 || i == p.len() {
                cx.hit("bytes taken in between");
                let b = no_panic("taking bytes", || comp.get_bytes_vec())?;
                let want: Pts = p[..i].to_vec();
                match unpack(c.gorilla, b)? {
                    Ok(got) if got == want => {}
                    Ok(got) => bail!("lossy", "after {} samples: {}", i, differ(&got, &want)),
                    Err(e) => bail!("refused", "own output refused: {}", e),
                }
            }
        }
        let mut widths = BTreeSet::new();
        for w in p.windows(3) {
            let dod = (w[2].0.wrapping_sub(w[1].0) as i64).wrapping_sub(w[1].0.wrapping_sub(w[0].0) as i64);
            widths.insert(match dod.unsigned_abs() {
                0 => "dod 0",
                1..=128 => "dod to 8 bits",
                129..=32768 => "dod to 16 bits",
                32769..=2147483648 => "dod to 32 bits",
                _ => "dod above 32 bits",
            });
        }
        for w in &widths {
            cx.hit(w);
        }
        let mut vals = BTreeSet::new();
        for w in p.windows(2) {
            let x = w[0].1 ^ w[1].1;
            vals.insert(match (x, x.leading_zeros(), x.trailing_zeros()) {
                (0, _, _) => "value repeated",
                (_, 0, 0) => "value differs at both ends",
                (_, l, _) if l > 31 => "value differs in the low half only",
                _ => "value differs inside",
            });
        }
        for w in &vals {
            cx.hit(w);
        }
        cx.nontrivial(p.len() >= 3 && widths.len() + vals.len() >= 3);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 60_000), (8, 150_000))
    }
}

/// The same over and over, for long sequences.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub gorilla: bool,
    pub seq: Seq,
    pub len: u32,
    pub cut: u32,
}

pub struct LongCompaction;
impl Part for LongCompaction {
    type Case = LongCase;
    fn name(&self) -> &'static str {
        "long sequences"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<LongCase> {
        let len = prop_oneof![
            4 => 300u32..10_000,
            2 => (select(&[1u32 << 15, 1 << 16][..]), -20i32..200).prop_map(|(a, b)| a.wrapping_add(b as u32)),
            1 => 10_000u32..tier.pick(90_000, 400_000),
        ];
        (prop_oneof![9 => Just(true), 1 => Just(false)], seq(40), len, any::<u32>()).prop_map(|(gorilla, seq, len, cut)| LongCase { gorilla, seq, len, cut }).boxed()
    }
    fn run(&self, c: &LongCase, cx: &mut Cx) -> R {
        let all = Seq { start: c.seq.start, pts: c.seq.pts.iter().cycle().take(c.len as usize).cloned().collect() };
        let p = all.points();
        let whole = no_panic("compaction", || Compactor::new(kind(c.gorilla)).compact_vec(tps(&p)))?;
        beat();
        match unpack(c.gorilla, whole)? {
            Ok(got) if got == p => {}
            Ok(got) => bail!("lossy", "{} samples compacted as a whole: {}", p.len(), differ(&got, &p)),
            Err(e) => bail!("refused", "own output for {} samples refused: {}", p.len(), e),
        }
        beat();
        let cut = if p.is_empty() { 0 } else { c.cut as usize % p.len() };
        let mut comp = Compactor::new(kind(c.gorilla));
        no_panic("compaction", || tps(&p[..cut].to_vec()).iter().for_each(|t| comp.compact(t)))?;
        for (want, rest) in [(&p[..cut], &p[cut..]), (&p[..], &p[..0])] {
            beat();
            let b = no_panic("taking bytes", || comp.get_bytes_vec())?;
            match unpack(c.gorilla, b)? {
                Ok(got) if got == want => {}
                Ok(got) => bail!("lossy", "after {} of {} samples: {}", want.len(), p.len(), differ(&got, &want.to_vec())),
                Err(e) => bail!("refused", "own output refused: {}", e),
            }
            no_panic("compaction", || comp.compact_vec(tps(&rest.to_vec())))?;
        }
        if p.len() > 65535 {
            cx.hit("more than 65535 samples");
        }
        cx.hit_n("samples", p.len() as u64);
        cx.nontrivial(p.len() > 1000);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 25), (8, 400))
    }
    fn max_shrink(&self) -> usize {
        100
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Flip(u16, u8),
    Set(u16, u8),
    Cut(u16),
    /// overwrite everything from there with these bytes
    Tail(u16, Vec<u8>),
    Insert(u16, Vec<u8>),
    Remaining(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamageCase {
    pub gorilla: bool,
    /// none: the bytes are `raw` alone
    pub seq: Option<Seq>,
    pub raw: Vec<u8>,
    pub damage: Vec<Damage>,
    /// tag of a type put at the end
    pub tag: u8,
    /// keep the last two bytes (fill of the last byte, type) where the format expects them
    pub keep_end: bool,
}

pub struct DamagedCompaction;
impl Part for DamagedCompaction {
    type Case = DamageCase;
    fn name(&self) -> &'static str {
        "damaged"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<DamageCase> {
        let d = prop_oneof![
            4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b)),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Set(a, b)),
            3 => any::<u16>().prop_map(Damage::Cut),
            2 => (any::<u16>(), vec(any::<u8>(), 0..40)).prop_map(|(a, b)| Damage::Tail(a, b)),
            1 => (any::<u16>(), vec(any::<u8>(), 0..9)).prop_map(|(a, b)| Damage::Insert(a, b)),
            1 => any::<u8>().prop_map(Damage::Remaining),
        ];
        (
            prop_oneof![6 => Just(true), 1 => Just(false)],
            prop_oneof![5 => seq(40).prop_map(Some), 2 => Just(None)],
            prop_oneof![1 => vec(any::<u8>(), 0..20), 1 => vec(any::<u8>(), 0..200)],
            vec(d, 0..4),
            prop_oneof![6 => Just(0u8), 1 => 1u8..5, 1 => any::<u8>()],
            prop_oneof![4 => Just(true), 1 => Just(false)],
        )
            .prop_map(|(gorilla, seq, raw, damage, tag, keep_end)| DamageCase { gorilla, seq, raw, damage, tag, keep_end })
            .boxed()
    }
    fn run(&self, c: &DamageCase, cx: &mut Cx) -> R {
        let own = if c.gorilla { 1u8 } else { 3 };
        let (mut body, mut end, pts) = match &c.seq {
            Some(s) => {
                let p = s.points();
                let mut b = no_panic("compaction", || Compactor::new(kind(c.gorilla)).compact_vec(tps(&p)))?;
                let n = if c.gorilla { 2 } else { 1 };
                let e = b.split_off(b.len() - n);
                (b, e, p)
            }
            None => (c.raw.clone(), vec![], vec![]),
        };
        if c.seq.is_none() && c.keep_end {
            end = if c.gorilla { vec![c.tag & 7, own] } else { vec![own] };
        }
        // bytes before this one are as they were
        let mut first = body.len();
        let orig_len = body.len();
        for d in &c.damage {
            let n = body.len().max(1);
            match d {
                Damage::Flip(a, b) => {
                    let i = *a as usize % n;
                    if i < body.len() {
                        body[i] ^= 1 << b;
                        first = first.min(i)
                    }
                }
                Damage::Set(a, v) => {
                    let i = *a as usize % n;
                    if i < body.len() {
                        body[i] = *v;
                        first = first.min(i)
                    }
                }
                Damage::Cut(a) => {
                    let i = *a as usize % n;
                    body.truncate(i);
                    first = first.min(i)
                }
                Damage::Tail(a, v) => {
                    let i = *a as usize % n;
                    body.truncate(i);
                    body.extend(v);
                    first = first.min(i)
                }
                Damage::Insert(a, v) => {
                    let i = (*a as usize % n).min(body.len());
                    body.splice(i..i, v.iter().cloned());
                    first = first.min(i)
                }
                Damage::Remaining(r) => {
                    if c.gorilla && end.len() == 2 {
                        end[0] = *r;
                        first = first.min(orig_len.saturating_sub(1));
                    }
                }
            }
        }
        // the fill of the last byte tells something about another byte now
        if body.len() != orig_len && c.gorilla {
            first = first.min(body.len().saturating_sub(1));
        }
        let mut bytes = body.clone();
        if c.keep_end {
            bytes.extend(&end);
        }
        let mut tag_ok = bytes.last() == Some(&own);
        if c.tag != 0 && c.seq.is_some() {
            if let Some(l) = bytes.last_mut() {
                *l = c.tag;
                tag_ok = c.tag == own;
            }
        }
        cx.hit(if tag_ok { "right tag" } else { "wrong tag" });
        let r = unpack(c.gorilla, bytes.clone())?;
        if !tag_ok {
            if let Ok(v) = r {
                bail!("wrong-tag-accepted", "bytes tagged {:?} decompacted as type {} into {} samples", bytes.last(), own, v.len());
            }
            cx.nontrivial(true);
            return Ok(());
        }
        // the other type must refuse these bytes
        if let Ok(v) = unpack(!c.gorilla, bytes.clone())? {
            bail!("wrong-tag-accepted", "bytes tagged {} decompacted as the other type into {} samples", own, v.len());
        }
        if c.keep_end && c.seq.is_some() && !pts.is_empty() {
            // how many samples lie before the damage?
            let mut whole = 0;
            if c.gorilla {
                let mut comp = Compactor::new(CompactType::Gorilla);
                for (i, p) in tps(&pts).iter().enumerate() {
                    comp.compact(p);
                    let b = comp.get_bytes_vec();
                    // the bytes a prefix takes, its last one counted in full
                    if b.len() - 2 <= first {
                        whole = i + 1
                    }
                }
            } else {
                whole = first / 16;
            }
            match &r {
                Ok(got) => {
                    if got.len() < whole || got[..whole] != pts[..whole] {
                        bail!("lost-undamaged", "damage from byte {} of {} on, {} samples lie before it: {}", first, orig_len, whole, differ(&got[..got.len().min(whole)].to_vec(), &pts[..whole].to_vec()));
                    }
                }
                // the count of unused bits is no count
                Err(_) if c.gorilla && (end[0] > 7 || body.is_empty()) => {}
                Err(e) if whole > 0 => bail!("lost-undamaged", "damage from byte {} of {} on, {} samples lie before it, but the whole is refused: {}", first, orig_len, whole, e),
                Err(_) => {}
            }
            cx.hit_n("samples before the damage", whole as u64);
            cx.nontrivial(first < orig_len || whole > 0);
        } else {
            cx.nontrivial(bytes.len() > 2);
        }
        match r {
            Ok(v) => cx.hit(if v.is_empty() { "decoded nothing" } else { "decoded samples" }),
            Err(_) => cx.hit("refused"),
        }
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 160_000), (8, 500_000))
    }
}

// ---------------------------------------------------------------------------------------------
// C18: names and options of chunks

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NameCase {
    pub a: (u64, u64),
    pub b: (u64, u64),
    pub junk: String,
}

fn time64() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        3 => (1_700_000_000_000u64..1_700_100_000_000),
        3 => (0u32..64, 0u64..3, any::<bool>()).prop_map(|(s, d, up)| if up { (1u64 << s).wrapping_add(d) } else { (1u64 << s).wrapping_sub(d) }),
        1 => 0u64..20,
        1 => Just(u64::MAX),
    ]
    .boxed()
}

pub struct Names;
impl Part for Names {
    type Case = NameCase;
    fn name(&self) -> &'static str {
        "names"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<NameCase> {
        let junk = prop_oneof![
            Just(String::new()),
            "[0-9a-f]{0,20}[g-zG-Z_.:-][0-9a-f]{0,20}",
            "[1-9a-f][0-9a-f]{32,40}",
            ".{1,20}",
            "0x[0-9a-f]{1,16}",
            " [0-9a-f]{1,16}",
            "[0-9a-f]{1,16} ",
            "-[0-9a-f]{1,16}",
            select(&["metadata.json", "storage", "indexer", "lost+found", ".git", "é", "１２", "tmp", "a b", "-", "0x", "metadata.json.tmp"][..]).prop_map(|s| s.to_string()),
        ];
        ((time64(), time64()), (time64(), time64()), junk).prop_map(|(a, b, junk)| NameCase { a, b, junk }).boxed()
    }
    fn run(&self, c: &NameCase, cx: &mut Cx) -> R {
        let mut near = vec![c.b, (c.a.1, c.a.0), (c.a.0.wrapping_add(1), c.a.1), (c.a.0, c.a.1.wrapping_add(1)), (c.a.0 ^ c.a.1, c.a.1)];
        near.push(c.a);
        let na = no_panic("naming a chunk", || encode_chunk_dir(c.a.0, c.a.1))?;
        for x in near {
            let n = no_panic("naming a chunk", || encode_chunk_dir(x.0, x.1))?;
            match no_panic("reading a name", || decode_chunk_dir(n.clone()))? {
                Ok(y) if y == x => {}
                Ok(y) => bail!("wrong-times", "{:?} is named {:?}, which reads as {:?}", x, n, y),
                Err(e) => bail!("own-name-refused", "{:?} is named {:?}, which is refused: {}", x, n, e),
            }
            if (n == na) != (x == c.a) {
                bail!("names-collide", "{:?} and {:?} are named {:?} and {:?}", c.a, x, na, n);
            }
            if n.is_empty() || n.contains('/') || n.len() > 64 {
                bail!("bad-name", "{:?} is named {:?}", x, n);
            }
        }
        let is_hex = !c.junk.is_empty() && c.junk.strip_prefix('+').unwrap_or(&c.junk).chars().all(|x| x.is_ascii_hexdigit());
        let significant = c.junk.trim_start_matches('0').len();
        if !is_hex || significant > 32 {
            if let Ok(t) = no_panic("reading a name", || decode_chunk_dir(c.junk.clone()))? {
                bail!("junk-accepted", "{:?} is taken for the name of a chunk with times {:?}", c.junk, t);
            }
            cx.hit("names refused");
        }
        cx.nontrivial(c.a != c.b);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 300_000), (8, 600_000))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OptsCase {
    pub writes: Vec<(u64, u64, Vec<u8>)>,
    /// 0 none, 1 remove, 2 cut, 3 bytes
    pub damage: u8,
    pub at: u16,
    pub bytes: Vec<u8>,
    pub nested: bool,
}

pub struct Opts;
impl Part for Opts {
    type Case = OptsCase;
    fn name(&self) -> &'static str {
        "options"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<OptsCase> {
        (
            vec((time64(), time64(), prop_oneof![2 => vec(any::<u8>(), 16..=16), 1 => vec(any::<u8>(), 0..40)]), 1..4),
            0u8..4,
            any::<u16>(),
            prop_oneof![
                2 => vec(any::<u8>(), 0..60),
                2 => select(
                    &[
                        "", "{}", "[]", "null", "{\"start_time\":1,\"end_time\":2}", "{\"start_time\":\"1\",\"end_time\":2,\"identifier\":[1]}",
                        "{\"start_time\":-1,\"end_time\":2,\"identifier\":[1]}", "{\"start_time\":1,\"end_time\":2,\"identifier\":[256]}",
                        "{\"start_time\":1,\"end_time\":2,\"identifier\":\"ab\"}", "{\"start_time\":1,\"end_time\":2,\"identifier\":null}",
                        "{\"start_time\":1.5,\"end_time\":2,\"identifier\":[]}", "{\"start_time\":1,\"end_time\":99999999999999999999999,\"identifier\":[]}", "1", "\"\"", "{\"identifier\":[1]", "\u{feff}{}",
                    ][..]
                ).prop_map(|s| s.as_bytes().to_vec()),
            ],
            any::<bool>(),
        )
            .prop_map(|(writes, damage, at, bytes, nested)| OptsCase { writes, damage, at, bytes, nested })
            .boxed()
    }
    fn run(&self, c: &OptsCase, cx: &mut Cx) -> R {
        let root = scratch_dir();
        let dir = if c.nested { root.path().join("a").join("b") } else { root.path().to_path_buf() };
        if no_panic("reading options", || ChunkOpts::read_config_from_dir(&dir))?.is_ok() {
            bail!("missing-accepted", "options are read from a directory without any");
        }
        for (s, e, id) in &c.writes {
            let o = ChunkOpts { start_time: Some(*s), end_time: Some(*e), identifier: id.clone() };
            if let Err(e) = no_panic("writing options", || o.write_config_to_dir(&dir))? {
                bail!("write-failed", "writing {:?}: {}", o, e);
            }
            match no_panic("reading options", || ChunkOpts::read_config_from_dir(&dir))? {
                Ok(r) if r.start_time == Some(*s) && r.end_time == Some(*e) && r.identifier == *id => {}
                Ok(r) => bail!("options-changed", "written {:?}, read {:?}", o, r),
                Err(e) => bail!("options-lost", "written {:?}, reading fails: {}", o, e),
            }
        }
        let file = dir.join(monolith::CHUNK_METADATA_FILENAME);
        let text = std::fs::read(&file).unwrap();
        let must_fail = match c.damage {
            1 => {
                std::fs::remove_file(&file).unwrap();
                true
            }
            2 => {
                std::fs::write(&file, &text[..c.at as usize % text.len()]).unwrap();
                true
            }
            3 => {
                std::fs::write(&file, &c.bytes).unwrap();
                let shape = |v: &serde_json::Value| {
                    let t = |k: &str| v.get(k).map_or(true, |x| x.is_null() || x.is_u64());
                    v.get("identifier").and_then(|i| i.as_array()).map_or(false, |a| a.iter().all(|b| b.as_u64().map_or(false, |b| b < 256))) && t("start_time") && t("end_time")
                };
                !serde_json::from_slice::<serde_json::Value>(&c.bytes).map_or(false, |v| shape(&v))
            }
            _ => false,
        };
        let r = no_panic("reading options", || ChunkOpts::read_config_from_dir(&dir))?;
        if let (Ok(o), true) = (&r, must_fail) {
            bail!("damaged-accepted", "damage {}: {:?} is read as {:?}", c.damage, c.bytes, o);
        }
        cx.hit(["intact", "removed", "cut", "replaced"][c.damage as usize]);
        cx.nontrivial(c.damage != 0 || c.writes.len() > 1);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 15_000), (8, 20_000))
    }
}

// ---------------------------------------------------------------------------------------------
// C19: intersection

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lists {
    pub common: Vec<u64>,
    pub own: Vec<Vec<u64>>,
}

/// Long lists with a few gaps, and short ones with ids in and around the gaps.
fn uneven(tier: Tier) -> BoxedStrategy<Vec<Vec<u64>>> {
    let long = (1u64..tier.pick(700, 6000), 1u64..4, vec(any::<u16>(), 0..8));
    let short = vec((any::<u16>(), 0u64..5), 0..12);
    (vec((long, any::<bool>()), 1..4), vec((short, any::<u16>()), 1..4))
        .prop_map(|(long, short)| {
            let mut gaps: Vec<u64> = vec![0];
            let mut out: Vec<Vec<u64>> = vec![];
            for ((n, stride, holes), _) in &long {
                let own: Vec<u64> = holes.iter().map(|h| *h as u64 % n * stride).collect();
                gaps.extend(&own);
                gaps.push(n * stride);
                out.push((0..*n).map(|i| i * stride).filter(|i| !own.contains(i)).collect());
            }
            for (ids, at) in short {
                let ids = ids.iter().map(|(g, d)| (gaps[*g as usize % gaps.len()] + d).saturating_sub(2)).collect();
                let at = at as usize % (out.len() + 1);
                out.insert(at, ids);
            }
            out
        })
        .boxed()
}

/// Many lists, each id in all of them but one or two.
fn nearly(tier: Tier) -> BoxedStrategy<Vec<Vec<u64>>> {
    let n = prop_oneof![6 => 2usize..12, 3 => 12usize..40, 1 => 40usize..tier.pick(70, 130)];
    (n, vec((any::<u64>(), any::<u16>(), any::<u16>()), 1..24), any::<bool>())
        .prop_map(|(n, ids, two)| {
            let mut out: Vec<Vec<u64>> = vec![vec![]; n];
            for (i, (id, a, b)) in ids.iter().enumerate() {
                let id = if id % 4 == 0 { *id } else { i as u64 * (1 + id % 3) };
                let (a, b) = (*a as usize * n >> 16, *b as usize * n >> 16);
                for (k, l) in out.iter_mut().enumerate() {
                    if k != a && !(two && k == b) {
                        l.push(id);
                    }
                }
            }
            out
        })
        .boxed()
}

/// Some hundred lists, with ids that only so many of the first or the last of them have.
fn hundreds() -> BoxedStrategy<Vec<Vec<u64>>> {
    let n = prop_oneof![1 => 60usize..140, 2 => 254usize..300, 1 => 510usize..520];
    (n, vec((0u64..20, any::<bool>(), prop_oneof![Just(0usize), Just(1), Just(256), 0usize..600]), 1..8))
        .prop_map(|(n, ids)| {
            (0..n)
                .map(|i| ids.iter().filter(|(_, first, less)| if *first { i + less < n } else { i >= *less }).map(|x| x.0).collect())
                .collect()
        })
        .boxed()
}

pub struct Intersect;
impl Part for Intersect {
    type Case = Lists;
    fn name(&self) -> &'static str {
        "lists"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Lists> {
        let id = prop_oneof![5 => 0u64..12, 3 => 0u64..60, 2 => 0u64..5000, 1 => any::<u64>(), 1 => Just(u64::MAX)].boxed();
        let n = tier.pick(20usize, 40);
        (
            prop_oneof![1 => Just(vec![]), 3 => vec(id.clone(), 0..30)],
            prop_oneof![
                90 => vec(prop_oneof![1 => Just(vec![]), 8 => vec(id.clone(), 0..40)], 0..6),
                60 => vec(vec(id.clone(), 0..40), 0..n),
                60 => vec(vec(0u64..8, 4..30), 2..8),
                90 => uneven(tier),
                90 => nearly(tier),
                1 => hundreds(),
            ],
        )
            .prop_map(|(common, own)| Lists { common, own })
            .boxed()
    }
    fn run(&self, c: &Lists, cx: &mut Cx) -> R {
        let sets: Vec<BTreeSet<u64>> = c.own.iter().map(|o| o.iter().chain(&c.common).cloned().collect()).collect();
        let lists: Vec<Vec<u64>> = sets.iter().map(|s| s.iter().cloned().collect()).collect();
        let mut want: Vec<u64> = vec![];
        if let Some(f) = sets.first() {
            want = f.iter().filter(|x| sets.iter().all(|s| s.contains(x))).cloned().collect();
        }
        for round in 0..2 {
            match no_panic("intersection", || intersect_time_series_id_vec(lists.clone()))? {
                Ok(got) if got == want => {}
                Ok(got) => bail!("wrong-ids", "run {}: the intersection of {:.1000} is {:?}, got {:?}", round, format!("{:?}", lists), want, got),
                Err(e) => bail!("error", "run {}: intersecting {:?}: {}", round, lists, e),
            }
        }
        cx.hit(match lists.len() {
            0 => "no list",
            1 => "one list",
            2 => "two lists",
            3..=6 => "3 to 6 lists",
            7..=29 => "7 to 29 lists",
            30..=255 => "30 to 255 lists",
            _ => "256 lists and more",
        });
        let (short, long) = (lists.iter().map(|l| l.len()).min().unwrap_or(0), lists.iter().map(|l| l.len()).max().unwrap_or(0));
        if short > 0 && long > 20 * short {
            cx.hit("one list more than 20 times as long as another");
        }
        cx.nontrivial(lists.len() >= 2 && !want.is_empty() && lists.iter().any(|l| l.len() > want.len()));
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 800), (8, 12_000))
    }
}

// ---------------------------------------------------------------------------------------------
// C20: log segments

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WalOp {
    /// sequence number, pieces of the content, and how often each byte is repeated
    Entry(u64, Vec<Vec<u8>>, u16),
    Flush,
    /// the entry before, once more: 0 made anew, 1 a clone of it, 2 a clone with this behind
    Again(u8, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WalCase {
    /// 0 immediate, 1 count, 2 size, 3 time
    pub policy: u8,
    pub limit: usize,
    pub ops: Vec<WalOp>,
    pub close: bool,
    /// how much the writer takes at a time; 0: an interruption
    pub takes: Vec<u16>,
    /// the call to the writer that fails, counted from the opening, and how
    #[serde(default)]
    pub fails: Option<(u16, u8)>,
}

#[derive(Clone, Default)]
struct Sink {
    data: Arc<Mutex<Vec<u8>>>,
    takes: Arc<Mutex<(usize, Vec<u16>)>>,
    /// how many calls until the one that fails, and whether it has
    fails: Arc<Mutex<(Option<(u16, u8)>, bool)>>,
}
impl Sink {
    fn trip(&self) -> Option<std::io::Result<usize>> {
        let mut f = self.fails.lock().unwrap();
        match f.0 {
            Some((0, how)) => {
                f.0 = None;
                f.1 = true;
                use std::io::ErrorKind::*;
                Some(match how {
                    0 => Err(std::io::Error::new(Other, "no space left")),
                    1 => Err(std::io::Error::from_raw_os_error(28)),
                    2 => Err(std::io::Error::new(WouldBlock, "would block")),
                    // a writer that takes nothing
                    _ => Ok(0),
                })
            }
            Some((n, how)) => {
                f.0 = Some((n - 1, how));
                None
            }
            None => None,
        }
    }
    fn failed(&self) -> bool {
        self.fails.lock().unwrap().1
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            if let Some(r) = self.trip() {
                return r;
            }
        }
        let mut t = self.takes.lock().unwrap();
        let n = if t.1.is_empty() {
            b.len()
        } else {
            t.0 += 1;
            let k = t.1[t.0 % t.1.len()];
            if k == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
            }
            (k as usize).min(b.len())
        };
        self.data.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        // one that takes nothing flushes well
        if matches!(self.fails.lock().unwrap().0, Some((0, 3..=255))) {
            return Ok(());
        }
        self.trip().unwrap_or(Ok(0)).map(|_| ())
    }
}

const MAGIC: [u8; 8] = [0x57, 0x41, 0x4c, 0, 0, 0, 0, 0];

fn entry_bytes(seq: u64, content: &[u8]) -> Vec<u8> {
    let mut v = seq.to_be_bytes().to_vec();
    v.push(0);
    v.extend((content.len() as u16).to_be_bytes());
    v.extend(content);
    v.extend(crc32(content).to_be_bytes());
    v
}

/// CRC-64 (ECMA-182, reflected), bit by bit
fn crc64(b: &[u8]) -> u64 {
    let mut c = !0u64;
    for x in b {
        c ^= *x as u64;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xc96c_5795_d787_0f42 } else { c >> 1 };
        }
    }
    !c
}

/// CRC-32 (IEEE), bit by bit
fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub struct Wal;
impl Part for Wal {
    type Case = WalCase;
    fn name(&self) -> &'static str {
        "segments"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<WalCase> {
        let piece = vec(any::<u8>(), 0..20);
        let op = prop_oneof![
            12 => (any::<u64>(), vec(piece.clone(), 0..4), Just(1u16)).prop_map(|(s, p, n)| WalOp::Entry(s, p, n)),
            4 => (0u64..100, vec(vec(any::<u8>(), 1..6), 1..2), 1u16..200).prop_map(|(s, p, n)| WalOp::Entry(s, p, n)),
            1 => (0u64..100, select(&[65534usize, 65535, 65536, 65537, 70000, 131072][..])).prop_map(|(s, n)| WalOp::Entry(s, vec![vec![7; n]], 1)),
            3 => Just(WalOp::Flush),
            // the same entry once more
            3 => (0u8..3, vec(any::<u8>(), 0..6)).prop_map(|(how, more)| WalOp::Again(how, more)),
        ];
        (
            0u8..4,
            // or so much that only flushing and closing empty the buffer
            prop_oneof![8 => 0usize..6, 6 => 1usize..60, 2 => 1usize..2000, 1 => select(&[1usize << 16, 1 << 24, 1 << 40, usize::MAX / 8, usize::MAX][..])],
            vec(op, 0..tier.pick(30, 60)),
            any::<bool>(),
            prop_oneof![2 => Just(vec![]), 2 => vec(prop_oneof![4 => 1u16..20, 1 => 1u16..2000, 1 => Just(0u16)], 1..6)],
            prop_oneof![3 => Just(None), 1 => (0u16..60, 0u8..4).prop_map(Some), 1 => (0u16..2000, 0u8..4).prop_map(Some)],
        )
            .prop_map(|(policy, limit, ops, close, mut takes, fails)| {
                if takes.iter().all(|t| *t == 0) {
                    takes.push(3);
                }
                WalCase { policy, limit, ops, close, takes, fails }
            })
            .boxed()
    }
    fn run(&self, c: &WalCase, cx: &mut Cx) -> R {
        let sink = Sink::default();
        sink.takes.lock().unwrap().1 = c.takes.clone();
        sink.fails.lock().unwrap().0 = c.fails;
        let policy = match c.policy {
            0 => FlushPolicy::Immediate,
            1 => FlushPolicy::NumBased(c.limit),
            2 => FlushPolicy::SizeBased(c.limit),
            _ => FlushPolicy::TimeBased(Duration::from_millis(c.limit as u64)),
        };
        let mut seg = match no_panic("opening a segment", || Segment::new(policy, sink.clone()))? {
            Ok(_) if sink.failed() => bail!("failure-hidden", "a segment is opened on a writer that takes nothing"),
            Ok(s) => s,
            Err(_) if sink.failed() => {
                cx.hit("writer fails");
                return Ok(());
            }
            Err(e) => bail!("open-failed", "{}", e),
        };
        // the whole of what was written, and where its entries end
        let mut want: Vec<u8> = MAGIC.to_vec();
        let mut ends = vec![want.len()];
        let mut buffered = 0;
        let mut last: Option<(Entry, u64, Vec<u8>)> = None;
        for (i, op) in c.ops.iter().enumerate() {
            let mut flushed = false;
            let mut failed = None;
            match op {
                WalOp::Flush => {
                    match no_panic("flush", || seg.flush())? {
                        Err(_) if sink.failed() => failed = Some(true),
                        Err(e) => bail!("flush-failed", "{}", e),
                        Ok(()) => failed = Some(false),
                    }
                    flushed = true;
                }
                WalOp::Entry(..) | WalOp::Again(..) => {
                    let (e, seq, content) = match op {
                        WalOp::Entry(seq, pieces, rep) => {
                            let mut e = Entry::new(*seq, EntryType::Default);
                            let mut content = vec![];
                            for p in pieces {
                                let p: Vec<u8> = p.iter().flat_map(|b| std::iter::repeat(*b).take(*rep as usize)).collect();
                                content.extend(&p);
                                e.push(p);
                            }
                            (e, *seq, content)
                        }
                        WalOp::Again(how, more) => {
                            let (old, seq, mut content) = match last.take() {
                                None => continue,
                                Some(l) => l,
                            };
                            let mut e = match how {
                                0 => {
                                    let mut e = Entry::new(seq, EntryType::Default);
                                    e.push(content.clone());
                                    e
                                }
                                _ => old.clone(),
                            };
                            if *how == 2 {
                                content.extend(more);
                                e.push(more.clone());
                            }
                            cx.hit("entries once more");
                            (e, seq, content)
                        }
                        WalOp::Flush => unreachable!(),
                    };
                    last = Some((e.clone(), seq, content.clone()));
                    let r = no_panic("writing an entry", || seg.write_entry(e))?;
                    if content.len() > 65535 {
                        cx.hit("entries too long");
                        if r.is_ok() {
                            bail!("too-long-accepted", "an entry with {} bytes is accepted", content.len());
                        }
                    } else {
                        match r {
                            Err(_) if sink.failed() => failed = Some(true),
                            Err(e) => bail!("write-failed", "entry with {} bytes: {}", content.len(), e),
                            Ok(()) => failed = Some(false),
                        }
                        want.extend(entry_bytes(seq, &content));
                        ends.push(want.len());
                    }
                }
            }
            let out = sink.data.lock().unwrap().clone();
            if out.len() > want.len() || out[..] != want[..out.len()] {
                let at = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len());
                bail!("wrong-output", "after operation {}: {} bytes written, the first wrong one is at {} (entries end at {:?})", i, out.len(), at, ends);
            }
            if sink.failed() {
                if failed == Some(false) {
                    bail!("failure-hidden", "operation {} succeeds although the writer has failed", i);
                }
                cx.hit("writer fails");
                cx.nontrivial(ends.len() > 2);
                return Ok(());
            }
            let whole = match ends.iter().position(|e| *e == out.len()) {
                Some(k) => k,
                None => bail!("torn-entry", "after operation {}: {} bytes written, entries end at {:?}", i, out.len(), ends),
            };
            let pending: Vec<usize> = ends[whole..].windows(2).map(|w| w[1] - w[0]).collect();
            let ok = match (flushed, c.policy) {
                (true, _) | (_, 0) => pending.is_empty(),
                (_, 1) => pending.is_empty() || pending.len() < c.limit,
                // whatever may be held back until the next flush
                (_, 3) => true,
                // the two bytes of the length are not counted
                _ => pending.is_empty() || pending.iter().map(|n| n - 2).sum::<usize>() < c.limit,
            };
            if !ok {
                bail!("not-flushed", "after operation {} (policy {}, limit {}): {} entries are held back: {:?}", i, c.policy, c.limit, pending.len(), pending);
            }
            buffered += !pending.is_empty() as u64;
        }
        if c.close {
            match no_panic("close", || seg.close())? {
                Ok(()) if sink.failed() => bail!("failure-hidden", "closing succeeds although the writer has failed"),
                Err(_) if sink.failed() => {
                    cx.hit("writer fails");
                    return Ok(());
                }
                Err(e) => bail!("close-failed", "{}", e),
                Ok(()) => {}
            }
            let out = sink.data.lock().unwrap().clone();
            if out.len() != want.len() + 8 || out[..want.len()] != want[..] {
                bail!("lost-on-close", "closing leaves {} bytes, expected {} and a checksum of 8", out.len(), want.len());
            }
            let sum = crc64(&want[MAGIC.len()..]).to_be_bytes();
            if out[want.len()..] != sum {
                bail!("wrong-checksum", "the checksum of {} bytes of entries is {:?}, expected {:?}", want.len() - MAGIC.len(), &out[want.len()..], sum);
            }
        } else {
            match no_panic("flush", || seg.flush())? {
                Ok(()) if sink.failed() => bail!("failure-hidden", "the last flush succeeds although the writer has failed"),
                Err(_) if sink.failed() => {
                    cx.hit("writer fails");
                    return Ok(());
                }
                Err(e) => bail!("flush-failed", "{}", e),
                Ok(()) => {}
            }
            if *sink.data.lock().unwrap() != want {
                bail!("lost", "after the last flush {} bytes are written, expected {}", sink.data.lock().unwrap().len(), want.len());
            }
        }
        cx.hit(["immediate", "count", "size", "time"][c.policy as usize]);
        cx.hit_n("writes left in the buffer", buffered);
        cx.nontrivial(ends.len() > 2 && (buffered > 0 || c.policy == 0));
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 8_000), (8, 80_000))
    }
}

// ---------------------------------------------------------------------------------------------
// C21: equality and hashing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    pub sets: Vec<Vec<(String, String)>>,
    pub points: Vec<(u64, u64)>,
}

pub struct Equality;
impl Part for Equality {
    type Case = EqCase;
    fn name(&self) -> &'static str {
        "equality"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<EqCase> {
        let s = || select(&["a", "b", "", "ab", "é", "A", "a\u{0}"][..]).prop_map(|s| s.to_string());
        let list = vec((s(), s()), 0..5);
        let sets = (vec(list, 2..5), vec((any::<u16>(), any::<u16>(), any::<u16>(), 0u8..6), 0..5)).prop_map(|(mut sets, edits)| {
            // relatives: prefixes, swapped neighbours, single changes
            for (i, j, k, how) in edits {
                let mut x: Vec<(String, String)> = sets[i as usize % sets.len()].clone();
                let n = x.len();
                if n > 0 {
                    let (j, k) = (j as usize % n, k as usize % n);
                    match how {
                        0 => {
                            x.pop();
                        }
                        1 => x.swap(j, k),
                        2 => x[j].0.push('x'),
                        3 => x[j].1.push('x'),
                        4 => {
                            let y = x[j].clone();
                            x.push(y)
                        }
                        _ => {
                            let y = x[j].clone();
                            x[j] = (y.1, y.0)
                        }
                    }
                } else {
                    x.push(("a".into(), String::new()));
                }
                sets.push(x);
            }
            sets
        });
        let tiny = prop_oneof![
            3 => select(&[0.0f64, 1.0, -1.0, 1e-10, -1e-10, 9.9e-10, 1.1e-9, 1e300, -1e300, 0.5, 1.0 + 5e-10, 1.0 + 2e-9, 1e9, 1e17][..]).prop_map(|f| f.to_bits()),
            2 => value_bits(),
        ];
        // neighbours of a sample: as much more as a share of its value, or so many representable values further
        let kin = vec((any::<u16>(), prop_oneof![2 => (8u8..52).prop_map(|k| (true, k as u32)), 1 => (1u32..4).prop_map(|n| (false, n))]), 0..3);
        (sets, vec((prop_oneof![4 => 0u64..3, 1 => any::<u64>()], tiny), 2..6), kin)
            .prop_map(|(sets, mut points, kin)| {
                for (i, (share, n)) in kin {
                    let (t, b) = points[i as usize % points.len()];
                    let v = f64::from_bits(b);
                    points.push((t, if share { (v + v / (1u64 << n) as f64).to_bits() } else { b.wrapping_add(n as u64) }));
                }
                EqCase { sets, points }
            })
            .boxed()
    }
    fn run(&self, c: &EqCase, cx: &mut Cx) -> R {
        use std::collections::hash_map::DefaultHasher;
        use std::hash::{Hash, Hasher};
        let h = |l: &dyn Fn(&mut DefaultHasher)| {
            let mut d = DefaultHasher::new();
            l(&mut d);
            d.finish()
        };
        let ls: Vec<Labels> = c.sets.iter().map(|s| Labels::from_vec(s.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())).collect();
        let (mut eq, mut ne) = (0, 0);
        for (i, a) in ls.iter().enumerate() {
            for (j, b) in ls.iter().enumerate() {
                let want = c.sets[i] == c.sets[j];
                let got = no_panic("comparing label sets", || a == b)?;
                if got != want {
                    bail!("label-sets", "{:?} == {:?} is {}", c.sets[i], c.sets[j], got);
                }
                if no_panic("comparing label sets", || a != b)? == want {
                    bail!("label-sets", "{:?} != {:?} is {}", c.sets[i], c.sets[j], want);
                }
                if want {
                    if i != j {
                        eq += 1;
                    }
                    if a.get_hash() != b.get_hash() || h(&|d| a.hash(d)) != h(&|d| b.hash(d)) {
                        bail!("hash", "equal label sets {:?} hash differently", c.sets[i]);
                    }
                } else {
                    ne += 1;
                }
            }
            for (b, y) in a.vec().iter().zip(&c.sets[i]) {
                for (k, z) in c.sets.iter().enumerate() {
                    for (l, w) in ls[k].vec().iter().zip(z) {
                        let got = no_panic("comparing labels", || b == l)?;
                        if got != (y == w) {
                            bail!("labels", "{:?} == {:?} is {}", y, w, got);
                        }
                        if got && h(&|d| b.hash(d)) != h(&|d| l.hash(d)) {
                            bail!("hash", "equal labels {:?} hash differently", y);
                        }
                    }
                }
            }
        }
        // as keys of a map
        let mut m = std::collections::HashMap::new();
        for (i, a) in ls.iter().enumerate() {
            m.insert(a.clone(), i);
        }
        for (i, a) in ls.iter().enumerate() {
            let want = c.sets.iter().rposition(|s| *s == c.sets[i]);
            if m.get(a).cloned() != want {
                bail!("map", "a map finds {:?} under {:?}, expected {:?}", m.get(a), c.sets[i], want);
            }
        }
        for a in &c.points {
            for b in &c.points {
                let (x, y) = (TimePoint::new(a.0, f64::from_bits(a.1)), TimePoint::new(b.0, f64::from_bits(b.1)));
                let got = no_panic("comparing samples", || x == y)?;
                if got != no_panic("comparing samples", || y == x)? {
                    bail!("samples", "{:?} == {:?} is not symmetric", x, y);
                }
                let close = (x.value - y.value).abs() < 1e-6;
                if got && (a.0 != b.0 || !close) {
                    bail!("samples", "{:?} == {:?}", x, y);
                }
                if !got && a == b && x.value.is_finite() {
                    bail!("samples", "{:?} is not equal to itself", x);
                }
                if a.0 != b.0 || !close {
                    cx.hit("different samples");
                } else if a != b {
                    cx.hit("samples close to each other");
                }
            }
        }
        cx.hit_n("equal pairs", eq);
        cx.hit_n("unequal pairs", ne);
        cx.nontrivial(eq > 0 && ne > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick((8, 150_000), (8, 200_000))
    }
}
