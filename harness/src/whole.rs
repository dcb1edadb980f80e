//! The server with several clients at once (C13), and the program through several lives in one directory (C06).
use crate::bail;
use crate::cli::{ask, launch, Prog};
use crate::fw::*;
use crate::gen::*;
use crate::hist::{compare, q_strategy, MChunk, Model, Q};
use crate::http::Srv;
use crate::wire::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::Duration;

fn transfer() -> BoxedStrategy<Transfer> {
    prop_oneof![4 => Just(Transfer::Length), 1 => (1u16..400).prop_map(Transfer::Chunked)].boxed()
}

/// The samples a read of this query returns, from one result of a response.
fn results(r: &Resp, n: usize, what: &str) -> R<Vec<Answer>> {
    if r.status / 100 != 2 {
        bail!("read-refused", "{}: a read is answered with {}", what, r.status);
    }
    let res = match snap_dec(&r.body).and_then(|b| dec_response(&b)) {
        Some(p) => p,
        None => bail!("bad-response", "{}: the response cannot be decoded", what),
    };
    if res.len() != n {
        bail!("results", "{}: {} results for {} queries", what, res.len(), n);
    }
    res.iter().map(|s| answer(s).map(no_sign_of_zero)).collect()
}

fn no_sign_of_zero(mut a: Answer) -> Answer {
    for p in a.values_mut().flat_map(|p| p.iter_mut()) {
        if p.1 == 1 << 63 {
            p.1 = 0;
        }
    }
    a
}

// ---------------------------------------------------------------------------------------------
// clients at once

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CStep {
    /// series of this client: which, order of the labels, first step, samples
    Write { series: Vec<(u16, u8, Vec<(u32, u64)>)>, enc: u32, how: Transfer },
    Read { queries: Vec<Q>, enc: u32, how: Transfer },
    Wait(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClientsCase {
    pub combo: Combo,
    pub base: Vec<Ls>,
    pub workers: u8,
    pub clients: Vec<Vec<CStep>>,
    /// each client keeps one connection, as long as the server does
    pub keep: bool,
}

pub struct Clients {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub steps: usize,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Clients {
    type Case = ClientsCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ClientsCase> {
        let write = (vec((any::<u16>(), 0u8..8, vec((1u32..50, value_bits()), 1..8)), 1..5), any::<u32>(), transfer()).prop_map(|(series, enc, how)| CStep::Write { series, enc, how });
        let read = (vec(q_strategy(), 1..4), any::<u32>(), transfer()).prop_map(|(queries, enc, how)| CStep::Read { queries, enc, how });
        let step = prop_oneof![5 => write, 5 => read, 1 => (0u8..4).prop_map(CStep::Wait)];
        let base = prop_oneof![universe(plain_value(), 1..=4, 3), odd_universe(some_odd_value(), 1..=4, 3)];
        (select(self.combos), base, 2u8..9, vec(vec(step, 1..self.steps), 2..7), any::<bool>())
            .prop_map(|(combo, base, workers, clients, keep)| ClientsCase { combo, base, workers, clients, keep })
            .boxed()
    }
    fn run(&self, c: &ClientsCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 3_600_000, "");
        w.open()?;
        take_other_panics();
        let srv = Srv::start(w.db(), c.workers as usize, 0)?;
        // the series of the clients share all labels but one
        let nb = c.base.len();
        let mut universe = vec![];
        for k in 0..c.clients.len() {
            for ls in &c.base {
                let mut l = ls.clone();
                l.push(("zz_client".into(), k.to_string()));
                universe.push(l);
            }
        }
        let m = Model { universe, chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let begun = Mutex::new(m.clone());
        let acked = Mutex::new(m);
        let keep = c.keep && c.clients.len() < c.workers as usize;
        let failed = Mutex::new(None);
        let counts = Mutex::new((0u64, 0u64, 0u64));
        let barrier = std::sync::Barrier::new(c.clients.len());
        std::thread::scope(|sc| {
            for (k, steps) in c.clients.iter().enumerate() {
                let (begun, acked, failed, counts, srv, barrier, w) = (&begun, &acked, &failed, &counts, &srv, &barrier, &w);
                sc.spawn(move || {
                    let mut conn = None;
                    barrier.wait();
                    for st in steps {
                        if failed.lock().unwrap().is_some() {
                            return;
                        }
                        beat();
                        let r = guard(|| one_step(k, nb, st, begun, acked, counts, srv, keep, &mut conn, w.win));
                        match r {
                            Outcome::Done(Ok(())) => {}
                            Outcome::Done(Err(f)) => {
                                failed.lock().unwrap().get_or_insert(f);
                            }
                            Outcome::Panic(p) => {
                                failed.lock().unwrap().get_or_insert(Fail { sig: "panic".into(), msg: p });
                            }
                            Outcome::Harness(p) => panic!("{}", p),
                        }
                    }
                });
            }
        });
        if let Some(f) = failed.into_inner().unwrap() {
            return Err(f);
        }
        let acked = acked.into_inner().unwrap();
        for ls in acked.universe.iter().chain(&c.base) {
            let q = WQuery { start: 0, end: i64::MAX, matchers: ls.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() };
            let r = srv.ask(&request("POST", srv.read, &snap_enc(&enc_read(&[q], 0)), Transfer::Length, true), "at the end")?;
            let got = results(&r, 1, "at the end")?.remove(0);
            let want = no_sign_of_zero(acked.expect(ls, 0, u64::MAX));
            compare(&got, &want, &Answer::new(), &format!("after all clients: read of {:?}", ls))?;
        }
        let n = counts.into_inner().unwrap();
        cx.hit(combo_name(c.combo));
        cx.hit_n("clients", c.clients.len() as u64);
        cx.hit_n("writes", n.0);
        cx.hit_n("reads", n.1);
        cx.hit_n("results with samples of several clients", n.2);
        cx.nontrivial(n.0 > 1 && n.1 > 0);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

#[allow(clippy::too_many_arguments)]
fn one_step(k: usize, nb: usize, st: &CStep, begun: &Mutex<Model>, acked: &Mutex<Model>, counts: &Mutex<(u64, u64, u64)>, srv: &Srv, keep: bool, conn: &mut Option<Conn>, win: (u64, u64)) -> R {
    let mut send = |path: &str, body: &[u8], how: Transfer, what: &str| -> R<Resp> {
        if keep {
            let raw = request("POST", path, body, how, false);
            if conn.is_none() {
                *conn = Conn::open(srv.port).ok();
            }
            if let Some(c) = conn.as_mut() {
                if let Ok(r) = c.send(&raw).and_then(|_| c.response(false)) {
                    return Ok(r);
                }
            }
            *conn = None;
        }
        srv.ask(&request("POST", path, body, how, true), what)
    };
    match st {
        CStep::Wait(ms) => real_sleep(Duration::from_millis(*ms as u64)),
        CStep::Write { series, enc, how } => {
            let mut out = vec![];
            let mut all = vec![];
            {
                let mut b = begun.lock().unwrap();
                for (s, perm, pts) in series {
                    let s = k * nb + *s as usize % nb;
                    let mut t = b.last(s).unwrap_or(win.0);
                    let mut samples = vec![];
                    for (step, bits) in pts {
                        t += *step as u64;
                        b.write(s, t, *bits);
                        samples.push((t as i64, *bits));
                        all.push((s, t, *bits));
                    }
                    out.push(WSeries { labels: ls_of(&labels(&b.universe[s], *perm)), samples });
                }
            }
            let what = format!("client {}", k);
            let r = send(srv.write, &snap_enc(&enc_write(&out, *enc)), *how, &what)?;
            if r.status / 100 != 2 {
                bail!("write-refused", "{}: a write of {:?} is answered with {}", what, out, r.status);
            }
            let mut a = acked.lock().unwrap();
            for (s, t, b) in all {
                a.write(s, t, b);
            }
            counts.lock().unwrap().0 += 1;
        }
        CStep::Read { queries, enc, how } => {
            let before = acked.lock().unwrap().clone();
            let times: Vec<u64> = before.times().into_iter().map(|t| t.min(i64::MAX as u64)).collect();
            let qs: Vec<WQuery> = queries
                .iter()
                .map(|q| {
                    let (a, b) = q.range(&times);
                    let mut m = q.matchers(&before.universe);
                    if q.other.is_none() && q.mask & 0x8000 == 0 && m.iter().any(|l| l.0 != "zz_client" && !l.1.is_empty()) {
                        // the series of all clients
                        m.retain(|l| l.0 != "zz_client");
                    }
                    let (a, b) = (a.min(i64::MAX as u64), b.min(i64::MAX as u64));
                    WQuery { start: a.min(b) as i64, end: a.max(b) as i64, matchers: m.into_iter().map(|(n, v)| (0, n, v)).collect() }
                })
                .collect();
            let what = format!("client {}", k);
            let r = send(srv.read, &snap_enc(&enc_read(&qs, *enc)), *how, &what)?;
            let after = begun.lock().unwrap().clone();
            let res = results(&r, qs.len(), &what)?;
            let mut n = counts.lock().unwrap();
            n.1 += 1;
            for (q, got) in qs.iter().zip(res) {
                let expect = |w: &Model| no_sign_of_zero(w.expect_read(&q.matchers, q.start as u64, q.end as u64));
                n.2 += (got.keys().filter_map(|l| l.last()).map(|l| &l.1).collect::<std::collections::BTreeSet<_>>().len() > 1) as u64;
                compare(&got, &expect(&before), &expect(&after), &format!("{}: read of {:?} beside other clients", what, q))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// lives of the program

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub chunk_secs: u32,
    pub workers: u8,
    /// after the start, (series, (step, bits))
    pub writes: Vec<(u16, Vec<(u32, u64)>)>,
    pub enc: u32,
    /// SIGTERM instead of SIGKILL
    pub term: bool,
    /// more time than it takes for sled to write
    pub pause_ms: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LDir {
    /// (storage, indexer) is TiKV in dry-run mode, which keeps nothing
    pub tikv: (bool, bool),
    pub name: String,
    pub universe: Vec<Ls>,
    pub lives: Vec<Life>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LivesCase {
    pub dirs: Vec<LDir>,
}

/// Directories side by side, each with several programs one after the other.
pub struct Lives {
    pub dirs: usize,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Lives {
    type Case = LivesCase;
    fn name(&self) -> &'static str {
        "program"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LivesCase> {
        let life = (60u32..5000, 1u8..6, vec((any::<u16>(), vec((1u32..3000, value_bits()), 1..6)), 0..5), any::<u32>(), any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 0u16..700])
            .prop_map(|(chunk_secs, workers, writes, enc, term, pause_ms)| Life { chunk_secs, workers, writes, enc, term, pause_ms });
        let u = prop_oneof![universe(plain_value(), 1..=4, 3), odd_universe(some_odd_value(), 1..=4, 3)];
        let name = select(vec!["data", "d\u{e9}p\u{f4}t", "a b", "0", "deadbeef", "x.y", "metadata.json"]).prop_map(|s| s.to_string());
        let dir = (prop_oneof![5 => Just((false, false)), 1 => Just((true, true)), 1 => Just((true, false)), 1 => Just((false, true))], name, u, vec(life, 2..5))
            .prop_map(|(tikv, name, universe, lives)| LDir { tikv, name, universe, lives });
        vec(dir, 1..=self.dirs).prop_map(|dirs| LivesCase { dirs }).boxed()
    }
    fn run(&self, c: &LivesCase, cx: &mut Cx) -> R {
        let results = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for d in &c.dirs {
                let results = &results;
                sc.spawn(move || {
                    let r = match guard(|| {
                        let r = lives(d, Duration::from_millis(1500));
                        match r {
                            // the disk may have been slow: sled is given more time before that is believed
                            Err(_) => lives(d, Duration::from_secs(12)),
                            r => r,
                        }
                    }) {
                        Outcome::Done(r) => r,
                        Outcome::Panic(p) => fail("panic", p),
                        Outcome::Harness(p) => panic!("{}", p),
                    };
                    results.lock().unwrap().push(r);
                });
            }
        });
        for r in results.into_inner().unwrap() {
            let n = r?;
            cx.hit_n("starts", n.0);
            cx.hit_n("writes", n.1);
            cx.hit_n("samples found again", n.2);
            cx.nontrivial(n.2 > 0);
        }
        cx.hit_n("directories", c.dirs.len() as u64);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        12
    }
}

fn lives(d: &LDir, patience: Duration) -> R<(u64, u64, u64)> {
    let root = scratch_dir();
    let dir = root.path().join(&d.name);
    std::fs::create_dir(&dir).unwrap();
    let keeps = !d.tikv.0 && !d.tikv.1;
    let mut m = Model { universe: d.universe.clone(), chunks: vec![] };
    let (mut starts, mut writes, mut found) = (0, 0, 0);
    for (i, life) in d.lives.iter().enumerate() {
        let kind = |t: bool| if t { "tikv" } else { "sled" }.to_string();
        let args = |port: u16| {
            vec![
                "--file_dir".to_string(),
                dir.display().to_string(),
                "--port".into(),
                port.to_string(),
                "--worker_num".into(),
                life.workers.to_string(),
                "--storage".into(),
                kind(d.tikv.0),
                "--indexer".into(),
                kind(d.tikv.1),
                "--chunk_size".into(),
                life.chunk_secs.to_string(),
            ]
        };
        let known: Vec<(u64, u64)> = windows(&dir).into_iter().map(|w| (w.0, w.1)).collect();
        let Prog { run: mut p, port, read, write } = launch(root.path(), &args, &format!("start {} on this directory", i + 1))?;
        starts += 1;
        let new: Vec<(u64, u64)> = windows(&dir).into_iter().map(|w| (w.0, w.1)).filter(|w| !known.contains(w)).collect();
        // a start whose port was taken leaves a window behind; the last one is in use
        let win = match new.last() {
            Some(w) => *w,
            None => bail!("no-window", "start {} has opened no window", i + 1),
        };
        if !keeps {
            m.chunks.clear();
        }
        m.chunks.push(MChunk { win, data: BTreeMap::new() });
        let check = |m: &Model, what: &str| -> R<u64> {
            let mut n = 0;
            for (j, ls) in m.universe.iter().enumerate() {
                let one = vec![ls[j % ls.len()].clone()];
                let qs: Vec<WQuery> =
                    [ls, &one].iter().map(|l| WQuery { start: 0, end: i64::MAX, matchers: l.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() }).collect();
                let raw = request("POST", &read, &snap_enc(&enc_read(&qs, life.enc)), Transfer::Length, true);
                let r = ask(port, &raw).or_else(|_| ask(port, &raw)).map_err(|e| err("no-answer", e))?;
                let got = results(&r, 2, what)?;
                for (l, g) in [ls, &one].iter().zip(got) {
                    let want = no_sign_of_zero(m.expect(l, 0, u64::MAX));
                    n += want.values().map(|p| p.len() as u64).sum::<u64>();
                    compare(&g, &want, &Answer::new(), &format!("{}: read of {:?}", what, l))?;
                }
            }
            Ok(n)
        };
        found += check(&m, &format!("after start {}", i + 1))? * (i > 0) as u64;
        for (s, pts) in &life.writes {
            beat();
            let s = *s as usize % m.universe.len();
            let mut t = m.last(s).unwrap_or(win.0);
            let mut samples = vec![];
            for (step, bits) in pts {
                t += *step as u64;
                if t > win.1 {
                    break;
                }
                // one value for one time, whichever chunk it is in
                let bits = m.series(s).get(&t).cloned().unwrap_or(*bits);
                m.write(s, t, bits);
                samples.push((t as i64, bits));
            }
            if samples.is_empty() {
                continue;
            }
            let msg = enc_write(&[WSeries { labels: m.universe[s].clone(), samples }], life.enc);
            let raw = request("POST", &write, &snap_enc(&msg), Transfer::Length, true);
            let r = ask(port, &raw).or_else(|_| ask(port, &raw)).map_err(|e| err("no-answer", e))?;
            if r.status / 100 != 2 {
                bail!("write-refused", "life {}: a write is answered with {}", i + 1, r.status);
            }
            writes += 1;
        }
        check(&m, &format!("in life {}", i + 1))?;
        if i + 1 < d.lives.len() {
            let until = std::time::Instant::now() + patience + Duration::from_millis(life.pause_ms as u64);
            while keeps && std::time::Instant::now() < until {
                beat();
                real_sleep(Duration::from_millis(50));
            }
        }
        if let Some(st) = p.0.try_wait().unwrap() {
            bail!("ended", "the program of life {} has ended: {:?}", i + 1, st);
        }
        if life.term {
            unsafe { libc::kill(p.0.id() as i32, libc::SIGTERM) };
        } else {
            let _ = p.0.kill();
        }
        let _ = p.0.wait();
    }
    Ok((starts, writes, found))
}

// ---------------------------------------------------------------------------------------------
// a server that has answered a great many requests

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub combo: Combo,
    pub workers: u8,
    pub requests: u32,
    /// requests on one connection
    pub per_conn: u16,
    /// of writes, reads, bodies that cannot be decoded, other paths, connections cut off in mid-request
    pub weights: [u8; 5],
    pub rng: u64,
}

pub struct Long {
    pub name: &'static str,
    pub combos: &'static [Combo],
    pub requests: std::ops::Range<u32>,
    /// mostly requests that are refused
    pub attacks: bool,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Long {
    type Case = LongCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongCase> {
        let per = prop_oneof![1 => Just(1u16), 2 => 2u16..20, 3 => 200u16..2000, 1 => Just(u16::MAX)];
        let weights = if self.attacks {
            prop_oneof![
                1 => (1u8..5, 1u8..5, 1u8..4, 1u8..4, 0u8..2).prop_map(|w| [w.0, w.1, w.2, w.3, w.4]),
                2 => Just([1, 1, 60, 0, 0]),
                2 => Just([1, 1, 0, 60, 0]),
                2 => Just([1, 1, 0, 0, 20]),
            ]
            .boxed()
        } else {
            (1u8..5, 1u8..5, 0u8..2, 0u8..2).prop_map(|w| [w.0, w.1, w.2, w.3, 0]).boxed()
        };
        (select(self.combos), 1u8..9, self.requests.clone(), per, weights, any::<u64>())
            .prop_map(|(combo, workers, requests, per_conn, weights, rng)| LongCase { combo, workers, requests, per_conn, weights, rng })
            .boxed()
    }
    fn run(&self, c: &LongCase, cx: &mut Cx) -> R {
        let mut w = World::new(c.combo, 3_600_000, "");
        w.open()?;
        take_other_panics();
        let srv = Srv::start(w.db(), c.workers as usize, 0)?;
        let universe: Vec<Ls> = (0..60).map(|i| vec![("a".to_string(), (i % 7).to_string()), ("n".to_string(), i.to_string())]).collect();
        let mut m = Model { universe, chunks: vec![MChunk { win: w.win, data: BTreeMap::new() }] };
        let mut rng = c.rng;
        let mut draw = |n: u64| {
            rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (rng >> 33) % n
        };
        let sum: u64 = c.weights.iter().map(|w| *w as u64).sum();
        let mut conn: Option<Conn> = None;
        let mut on = 0u16;
        let mut n = [0u64; 5];
        for i in 0..c.requests {
            beat();
            let mut k = draw(sum) as i64;
            let kind = c.weights.iter().position(|w| {
                k -= *w as i64;
                k < 0
            });
            let kind = kind.unwrap();
            n[kind] += 1;
            let what = format!("request {}", i);
            let s = draw(m.universe.len() as u64) as usize;
            let last = on + 1 >= c.per_conn;
            let mut sample = None;
            let raw = match kind {
                0 => {
                    // not too many in one series, each write reads all of them
                    let at = m.last(s).unwrap_or(w.win.0) + 1;
                    sample = Some((s, at, i as u64));
                    let body = enc_write(&[WSeries { labels: m.universe[s].clone(), samples: vec![(at as i64, i as u64)] }], 0);
                    request("POST", srv.write, &snap_enc(&body), Transfer::Length, last)
                }
                1 => {
                    let q = WQuery { start: 0, end: i64::MAX, matchers: m.universe[s].iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() };
                    request("POST", srv.read, &snap_enc(&enc_read(&[q], 0)), Transfer::Length, last)
                }
                2 => {
                    let bad: &[u8] = [&b""[..], b"\xff\xff\xff", b"\x04\x0cab", b"\x03\x08\x0a\x05a"][draw(4) as usize];
                    request("POST", if draw(2) == 0 { srv.write } else { srv.read }, bad, Transfer::Length, last)
                }
                3 => request("GET", "/neither", b"", Transfer::Length, last),
                _ => {
                    let body = enc_write(&[WSeries { labels: m.universe[s].clone(), samples: vec![(w.win.0 as i64 + 1, 1)] }], 0);
                    let raw = request("POST", srv.write, &snap_enc(&body), Transfer::Length, true);
                    if let Ok(mut c) = Conn::open(srv.port) {
                        let _ = c.send(&raw[..draw(raw.len() as u64) as usize]);
                        if draw(2) == 0 {
                            c.reset();
                        }
                    }
                    continue;
                }
            };
            let mut r = None;
            if conn.is_none() || on >= c.per_conn {
                conn = Conn::open(srv.port).ok();
                on = 0;
            }
            on += 1;
            if let Some(c) = conn.as_mut() {
                r = c.send(&raw).and_then(|_| c.response(false)).ok();
            }
            if r.is_none() {
                conn = None;
                r = Some(srv.ask(&raw, &what)?);
            }
            if last {
                conn = None;
            }
            let r = r.unwrap();
            match kind {
                0 => {
                    if r.status / 100 != 2 {
                        bail!("write-refused", "{}: a write is answered with {}", what, r.status);
                    }
                    let (s, t, b) = sample.unwrap();
                    m.write(s, t, b);
                }
                1 => {
                    let got = results(&r, 1, &what)?.remove(0);
                    compare(&got, &m.expect(&m.universe[s], 0, u64::MAX), &Answer::new(), &what)?;
                }
                2 if r.status < 400 => bail!("bad-accepted", "{}: a body that cannot be decoded is answered with {}", what, r.status),
                3 if r.status != 404 => bail!("other-path", "{}: another path is answered with {}", what, r.status),
                _ => {}
            }
        }
        for a in 0..7 {
            let q = WQuery { start: 0, end: i64::MAX, matchers: vec![(0, "a".into(), a.to_string())] };
            let r = srv.ask(&request("POST", srv.read, &snap_enc(&enc_read(&[q], 0)), Transfer::Length, true), "at the end")?;
            let got = results(&r, 1, "at the end")?.remove(0);
            compare(&got, &m.expect(&[("a".to_string(), a.to_string())], 0, u64::MAX), &Answer::new(), "at the end")?;
        }
        cx.hit(combo_name(c.combo));
        for (i, k) in ["writes", "reads", "bodies that cannot be decoded", "other paths", "connections cut off"].iter().enumerate() {
            cx.hit_n(k, n[i]);
        }
        cx.nontrivial(n[0] > 10 && n[1] > 10);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        12
    }
}
