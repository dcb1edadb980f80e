//! C27: start-up options, read by the library's functions and by the program.
use crate::bail;
use crate::fw::*;
use crate::wire::*;
use crate::world::*;
use clap::{App, Arg};
use monolith::option::{DbOpts, ServerOpts};
use monolith::TiKvRawBackendSingleton;
use monolith::{CHUNK_SIZE, DB_METADATA_FILENAME, DEFAULT_CHUNK_SIZE, DEFAULT_PORT, DEFAULT_READ_PATH, DEFAULT_WORKER_NUM, DEFAULT_WRITE_PATH, FILE_DIR_ARG, INDEXER_ARG, PORT, READ_PATH, SLED_BACKEND, STORAGE_ARG, TIKV_BACKEND, TIKV_CONFIG, WORKER_NUM, WRITE_PATH};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    Is(u128),
    /// decimal with a plus sign: may be taken or refused
    Plus(u128),
    Bad,
}

fn number(s: &str) -> Num {
    let d = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    // what is longer is larger than anything that counts
    let v = |s: &str| s.trim_start_matches('0').get(..30).map_or_else(|| s.parse().unwrap_or(0), |_| u128::MAX);
    match s.strip_prefix('+') {
        Some(r) if d(r) => Num::Plus(v(r)),
        None if d(s) => Num::Is(v(s)),
        _ => Num::Bad,
    }
}

fn good(edges: &'static [u64]) -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(edges).prop_map(|v| v.to_string()),
        3 => (1u64..100_000).prop_map(|v| v.to_string()),
        1 => any::<u64>().prop_map(|v| v.to_string()),
        1 => any::<u32>().prop_map(|v| v.to_string()),
        1 => (1u64..70_000, 1usize..6).prop_map(|(v, z)| format!("{}{}", "0".repeat(z), v)),
        1 => (1u64..70_000).prop_map(|v| format!("+{}", v)),
        // the same, modulo what an integer can hold
        1 => (1u128..70_000, select(vec![16u32, 31, 32, 63, 64, 128 - 1])).prop_map(|(v, b)| (v + (1u128 << b)).to_string()),
    ]
    .boxed()
}
fn bad() -> BoxedStrategy<String> {
    let n = 1u64..70_000;
    prop_oneof![
        Just(String::new()),
        select(vec![" 9001", "9001 ", "9001s", "9001.0", "-9001", "9e3", "0x2329", "9_001", "9,001", "\u{ff19}\u{ff10}\u{ff10}\u{ff11}", "\u{669}\u{660}\u{660}\u{661}", "none", "auto", "++9001", "9001;", "NaN", "inf", "9001\n", "\t9001", "true", "-", "+", "1/2", "9001-9002", ":9001"]).prop_map(|s| s.to_string()),
        n.clone().prop_map(|v| format!("-{}", v)),
        (n.clone(), "[a-zA-Z .,;_-]{1,3}").prop_map(|(v, s)| format!("{}{}", v, s)),
        (n.clone(), "[a-zA-Z .,;_]{1,3}").prop_map(|(v, s)| format!("{}{}", s, v)),
        n.prop_map(|v| format!("{:#x}", v)),
    ]
    .boxed()
}
const PORTS: &[u64] = &[0, 1, 80, 1023, 1024, 1025, 9001, 32767, 32768, 65534, 65535, 65536, 65537, 74537, 131071, 2147483647, 2147483648, 4294967295, 4294967296, 4294976297];
const SIZES: &[u64] = &[0, 1, 59, 60, 12000, 86400, 4294967, 4294968, 4294967295, 4294967296, 18446744073709551, 18446744073709552, u64::MAX - 1, u64::MAX];
const WORKERS: &[u64] = &[0, 1, 2, 8, 16, 255, 256, 65536, 4294967296, u64::MAX];

fn numeric(edges: &'static [u64], damaged: u32) -> BoxedStrategy<Option<String>> {
    prop_oneof![6 => good(edges).prop_map(Some), damaged => bad().prop_map(Some), 3 => Just(None)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub storage: Option<String>,
    pub indexer: Option<String>,
    pub dir: Option<String>,
    pub chunk: Option<String>,
    pub port: Option<String>,
    pub workers: Option<String>,
    pub read: Option<String>,
    pub write: Option<String>,
    pub tikv: Option<String>,
    /// how they are written, and in which order
    pub form: u64,
}

fn arguments(l: &Line) -> Vec<String> {
    let mut v: Vec<(usize, &str, char, String)> = vec![];
    for (i, (name, short, val)) in [
        (STORAGE_ARG, 's', &l.storage),
        (INDEXER_ARG, 'i', &l.indexer),
        (FILE_DIR_ARG, 'd', &l.dir),
        (CHUNK_SIZE, ' ', &l.chunk),
        (PORT, ' ', &l.port),
        (WORKER_NUM, ' ', &l.workers),
        (READ_PATH, ' ', &l.read),
        (WRITE_PATH, ' ', &l.write),
        (TIKV_CONFIG, ' ', &l.tikv),
    ]
    .iter()
    .enumerate()
    {
        if let Some(x) = val {
            v.push((i, name, *short, x.clone()));
        }
    }
    v.sort_by_key(|x| (l.form >> (x.0 * 3 + 10)) & 7);
    let mut out = vec![];
    for (i, name, short, val) in v {
        match (l.form >> i) & 1 {
            _ if short != ' ' && (l.form >> (i + 40)) & 3 == 0 && !val.starts_with('-') && !val.is_empty() => {
                out.push(format!("-{}", short));
                out.push(val);
            }
            1 if !val.starts_with('-') && !val.is_empty() => {
                out.push(format!("--{}", name));
                out.push(val);
            }
            _ => out.push(format!("--{}={}", name, val)),
        }
    }
    out
}

/// What the line has to yield: Err it is refused, Ok(sure): taken, or perhaps refused.
fn verdict(l: &Line) -> Result<bool, &'static str> {
    let mut sure = true;
    let mut check = |v: &Option<String>, lo: u128, hi: u128, what: &'static str| match v.as_deref().map(number) {
        None => Ok(()),
        Some(Num::Bad) => Err(what),
        Some(Num::Is(n)) | Some(Num::Plus(n)) if n < lo || n > hi => Err(what),
        Some(Num::Plus(_)) => {
            sure = false;
            Ok(())
        }
        Some(Num::Is(_)) => Ok(()),
    };
    check(&l.chunk, 0, u64::MAX as u128, "the chunk size")?;
    check(&l.port, 1024, 65535, "the port")?;
    check(&l.workers, 0, usize::MAX as u128, "the number of workers")?;
    Ok(sure)
}
fn value(v: &Option<String>, default: u64) -> u64 {
    match v.as_deref().map(number) {
        Some(Num::Is(n)) | Some(Num::Plus(n)) => n as u64,
        _ => default,
    }
}

fn app() -> App<'static, 'static> {
    let port: &'static str = Box::leak(DEFAULT_PORT.to_string().into_boxed_str());
    let workers: &'static str = Box::leak(DEFAULT_WORKER_NUM.to_string().into_boxed_str());
    App::new("monolith").args(&[
        Arg::with_name(STORAGE_ARG).short("s").long(STORAGE_ARG).default_value(SLED_BACKEND),
        Arg::with_name(INDEXER_ARG).short("i").long(INDEXER_ARG).default_value(SLED_BACKEND),
        Arg::with_name(FILE_DIR_ARG).short("dir").long(FILE_DIR_ARG).default_value("/nowhere"),
        Arg::with_name(CHUNK_SIZE).long(CHUNK_SIZE).default_value(DEFAULT_CHUNK_SIZE),
        Arg::with_name(PORT).long(PORT).default_value(port),
        Arg::with_name(WRITE_PATH).long(WRITE_PATH).default_value(DEFAULT_WRITE_PATH),
        Arg::with_name(READ_PATH).long(READ_PATH).default_value(DEFAULT_READ_PATH),
        Arg::with_name(WORKER_NUM).long(WORKER_NUM).default_value(workers),
        Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG).takes_value(true),
    ])
}

pub struct Options {
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for Options {
    type Case = Line;
    fn name(&self) -> &'static str {
        "options"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Line> {
        let text = || prop_oneof![1 => Just(None), 1 => "[a-z/._é -]{1,8}".prop_map(|s| Some(format!("x{}", s)))];
        let path = || prop_oneof![1 => Just(None), 1 => "/[a-zA-Z0-9/_.-]{0,12}".prop_map(Some)];
        (
            (text(), text(), text(), text()),
            (numeric(SIZES, 1), numeric(PORTS, 1), numeric(WORKERS, 1)),
            (path(), path()),
            any::<u64>(),
        )
            .prop_map(|((storage, indexer, dir, tikv), (chunk, port, workers), (read, write), form)| Line { storage, indexer, dir, chunk, port, workers, read, write, tikv, form })
            .boxed()
    }
    fn run(&self, l: &Line, cx: &mut Cx) -> R {
        let args = arguments(l);
        let m = match app().get_matches_from_safe(std::iter::once("monolith".to_string()).chain(args.iter().cloned())) {
            Ok(m) => m,
            Err(_) => {
                // clap itself refuses
                cx.hit("refused by the parser");
                if verdict(l) == Ok(true) {
                    panic!("the harness made a line that cannot be parsed: {:?}", args);
                }
                return Ok(());
            }
        };
        let db = no_panic("DbOpts::get_config", || DbOpts::get_config(&m))?;
        let srv = no_panic("ServerOpts::get_config", || ServerOpts::get_config(&m))?;
        let taken = db.is_ok() && srv.is_ok();
        match verdict(l) {
            Err(what) => {
                if taken {
                    bail!("accepted", "{:?}: {} is accepted", args, what);
                }
                cx.hit("refused");
                cx.nontrivial(true);
                return Ok(());
            }
            Ok(true) if !taken => bail!("refused", "{:?} is refused: {:?} {:?}", args, db.err().map(|e| e.to_string()), srv.err().map(|e| e.to_string())),
            Ok(_) if !taken => {
                cx.hit("refused with a plus sign");
                return Ok(());
            }
            Ok(_) => {}
        }
        let (db, srv) = (db.unwrap(), srv.unwrap());
        let or = |v: &Option<String>, d: &str| v.clone().unwrap_or(d.to_string());
        let mut same = vec![
            ("storage", db.storage.clone(), or(&l.storage, SLED_BACKEND)),
            ("indexer", db.indexer.clone(), or(&l.indexer, SLED_BACKEND)),
            ("directory", db.base_dir.to_str().unwrap_or("").to_string(), or(&l.dir, "/nowhere")),
            ("read path", srv.read_path.to_string(), or(&l.read, "/read")),
            ("write path", srv.write_path.to_string(), or(&l.write, "/write")),
            ("TiKV options", format!("{:?}", db.tikv_config.as_ref().map(|p| p.to_str().unwrap_or(""))), format!("{:?}", l.tikv.as_deref())),
            ("port", srv.port.to_string(), value(&l.port, DEFAULT_PORT as u64).to_string()),
            ("workers", srv.worker_num.to_string(), value(&l.workers, DEFAULT_WORKER_NUM as u64).to_string()),
        ];
        let secs = Duration::from_secs(value(&l.chunk, DEFAULT_CHUNK_SIZE.parse().unwrap()));
        same.push(("chunk size", format!("{:?}", db.chunk_size), format!("{:?}", secs)));
        for (what, got, want) in same {
            if got != want {
                bail!("altered", "{:?}: the {} becomes {:?} instead of {:?}", args, what, got, want);
            }
        }
        cx.hit("taken");
        cx.nontrivial(args.len() > 2);
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

// ---------------------------------------------------------------------------------------------
// the program

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PortArg {
    Free,
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProgCase {
    pub line: Line,
    pub port: PortArg,
    pub samples: u8,
    pub stalled: bool,
}

pub struct Program {
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

pub struct Running(pub Child);

/// The program at work. Its paths are peculiar to it, so that no other one can be taken for it.
pub struct Prog {
    pub run: Running,
    pub port: u16,
    pub read: String,
    pub write: String,
}
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn free_port() -> u16 {
    use std::sync::atomic::{AtomicU16, Ordering};
    static PORT: AtomicU16 = AtomicU16::new(0);
    if PORT.load(Ordering::SeqCst) == 0 {
        PORT.store(1100 + (std::process::id() % 300) as u16 * 100, Ordering::SeqCst);
    }
    loop {
        let p = PORT.fetch_add(1, Ordering::SeqCst);
        if !(1024..32000).contains(&p) {
            PORT.store(1024, Ordering::SeqCst);
        } else if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}

pub fn ask(port: u16, raw: &[u8]) -> std::io::Result<Resp> {
    let mut c = Conn::open(port)?;
    c.send(raw)?;
    c.response(false)
}

/// The program with these arguments, once it answers; what it says is in `stderr`.
pub fn launch(root: &Path, args: &dyn Fn(u16) -> Vec<String>, what: &str) -> R<Prog> {
    let exe = std::env::current_exe().unwrap().with_file_name("monolith-server");
    if !exe.exists() {
        panic!("the program was not built");
    }
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    for _ in 0..3 {
        let port = free_port();
        let id = format!("{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        let (read, write) = (format!("/read-{}", id), format!("/write-{}", id));
        let child = tied(&mut Command::new(&exe))
            .args(args(port))
            .args(&[format!("--{}={}", READ_PATH, read), format!("--{}={}", WRITE_PATH, write)])
            .current_dir(root)
            .env_remove("RUST_LOG")
            .env("RUST_BACKTRACE", "1")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(root.join("stderr")).unwrap())
            .spawn()
            .unwrap();
        let mut r = Running(child);
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(30) && r.0.try_wait().unwrap().is_none() {
            beat();
            if matches!(ask(port, &request("POST", &read, b"", Transfer::Length, true)), Ok(r) if r.status != 404) {
                return Ok(Prog { run: r, port, read, write });
            }
            real_sleep(Duration::from_millis(5));
        }
    }
    let said: String = std::fs::read_to_string(root.join("stderr")).unwrap_or_default().chars().take(1500).collect();
    fail("no-start", format!("{}: the program does not answer: {}", what, said))
}

/// Chunk sizes with which a window would end close to the last of all timestamps or beyond it.
const LONG: &[&str] = &["18446744073709551", "18446744073709552", "18446744073709600", "20000000000000000", "36893488147419103", "1000000000000000000", "18446744073709551615", "10000000000000000", "9223372036854775"];

impl Part for Program {
    type Case = ProgCase;
    fn name(&self) -> &'static str {
        "program"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ProgCase> {
        let kind = || prop_oneof![2 => Just(None), 3 => Just(Some(SLED_BACKEND.to_string())), 3 => Just(Some(TIKV_BACKEND.to_string())), 1 => select(vec!["Sled", "TiKV", "rocksdb", "", "sled "]).prop_map(|s| Some(s.to_string()))];
        let chunk = prop_oneof![3 => (60u64..100_000).prop_map(|v| Some(v.to_string())), 2 => Just(None), 1 => Just(Some("4294968".to_string())), 1 => bad().prop_map(Some), 1 => select(LONG).prop_map(|s| Some(s.to_string()))];
        let workers = prop_oneof![4 => (1u64..5).prop_map(|v| Some(v.to_string())), 1 => select(&[0u64, 6, 8, 12, 32, 33, 64][..]).prop_map(|v| Some(v.to_string())), 2 => Just(None), 1 => bad().prop_map(Some)];
        let port = prop_oneof![6 => Just(PortArg::Free), 1 => bad().prop_map(PortArg::Text), 1 => select(vec!["0", "80", "1023", "65536", "66560", "70000", "4294976297"]).prop_map(|s| PortArg::Text(s.to_string()))];
        let path = |a: &'static str| prop_oneof![2 => Just(None), 3 => "[a-zA-Z0-9/_.-]{0,8}".prop_map(move |s| Some(format!("/{}{}", a, s)))];
        let tikv = prop_oneof![4 => Just(None), 2 => Just(Some("dry".to_string())), 1 => Just(Some("endpoints".to_string())), 1 => Just(Some("readme".to_string())), 1 => Just(Some("missing".to_string())), 1 => Just(Some("invalid".to_string()))];
        ((kind(), kind(), chunk, workers), (path("r"), path("w"), tikv, any::<u64>()), port, 1u8..4, any::<bool>())
            .prop_map(|((storage, indexer, chunk, workers), (read, write, tikv, form), port, samples, stalled)| ProgCase {
                line: Line { storage, indexer, dir: None, chunk, port: None, workers, read, write, tikv, form },
                port,
                samples,
                stalled,
            })
            .boxed()
    }
    fn run(&self, c: &ProgCase, cx: &mut Cx) -> R {
        let exe = std::env::current_exe().unwrap().with_file_name("monolith-server");
        if !exe.exists() {
            panic!("the program was not built");
        }
        let kinds = (c.line.storage.as_deref().unwrap_or("sled"), c.line.indexer.as_deref().unwrap_or("sled"));
        let known = |k: &str| k == SLED_BACKEND || k == TIKV_BACKEND;
        let any_tikv = kinds.0 == TIKV_BACKEND || kinds.1 == TIKV_BACKEND;
        for attempt in 0..3 {
            let root = scratch_dir();
            let dir = root.path().join("data dir");
            std::fs::create_dir(&dir).unwrap();
            let mut l = c.line.clone();
            l.dir = Some(dir.display().to_string());
            let port = free_port();
            l.port = Some(match &c.port {
                PortArg::Free => port.to_string(),
                PortArg::Text(t) => t.clone(),
            });
            l.tikv = l.tikv.map(|t| {
                let f = root.path().join("tikv.yaml");
                match t.as_str() {
                    "dry" => std::fs::write(&f, "dry_run: true\n").unwrap(),
                    "readme" => std::fs::write(&f, "dry_run: false # if true, in memory\npd_endpoint: # of the cluster\n - 127.0.0.1\n").unwrap(),
                    "invalid" => std::fs::write(&f, "invalid_entry:\npd_endpoint: \"Should be an array\"").unwrap(),
                    "endpoints" => std::fs::write(&f, "pd_endpoints:\n  - \"127.0.0.1:2379\"\n").unwrap(),
                    _ => {}
                }
                f.display().to_string()
            });
            let missing = matches!(c.line.tikv.as_deref(), Some("missing") | Some("invalid"));
            let args = arguments(&l);
            let child = tied(&mut Command::new(&exe))
                .args(&args)
                .current_dir(root.path())
                .env_remove("RUST_LOG")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(root.path().join("stderr")).unwrap())
                .spawn()
                .unwrap();
            let mut p = Running(child);
            let said = || std::fs::read_to_string(root.path().join("stderr")).unwrap_or_default().chars().take(1500).collect::<String>();
            let bad = verdict(&l).is_err();
            // backends there are not: the program ends, which is left to it
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis();
            let endless = !bad && value(&l.chunk, DEFAULT_CHUNK_SIZE.parse().unwrap()) as u128 * 1000 + now > u64::MAX as u128;
            let refuse = bad || endless || !known(kinds.0) || !known(kinds.1) || (any_tikv && missing);
            let write = l.write.clone().unwrap_or("/write".into());
            let read = l.read.clone().unwrap_or("/read".into());
            let start = Instant::now();
            let mut up = false;
            let ended = loop {
                beat();
                if let Some(st) = p.0.try_wait().unwrap() {
                    break Some(st);
                }
                if start.elapsed() > Duration::from_secs(30) {
                    break None;
                }
                if !refuse {
                    if let Ok(r) = ask(port, &request("GET", "/neither-of-the-two", b"", Transfer::Length, true)) {
                        if r.status == 404 {
                            up = true;
                            break None;
                        }
                    }
                }
                real_sleep(Duration::from_millis(5));
            };
            if refuse {
                match ended {
                    None => bail!("accepted", "{:?}: the program runs", args),
                    Some(st) if st.success() => bail!("accepted", "{:?}: the program ends without an error", args),
                    Some(_) => {}
                }
                cx.hit(if bad { "refused" } else if endless { "refused for its chunk size" } else { "refused for its backends" });
                cx.nontrivial(bad);
                return Ok(());
            }
            if value(&l.workers, DEFAULT_WORKER_NUM as u64) == 0 && matches!(ended, Some(st) if !st.success()) {
                // no workers at all may also be refused
                cx.hit("refused for its workers");
                cx.nontrivial(true);
                return Ok(());
            }
            if !up {
                // the port may have been taken by someone else meanwhile
                if attempt < 2 {
                    continue;
                }
                bail!("refused", "{:?}: the program does not answer on port {}: {:?} {}", args, port, ended, said());
            }
            let r = self.talk(c, &l, &dir, port, &read, &write, kinds, cx);
            let mut over = None;
            for _ in 0..if r.is_err() { 200 } else { 0 } {
                over = p.0.try_wait().unwrap();
                if over.is_some() {
                    break;
                }
                real_sleep(Duration::from_millis(10));
            }
            if over.is_some() && attempt < 2 {
                // it may be someone else who answered
                continue;
            }
            if over.is_some() {
                bail!("ended", "{:?}: the program has ended: {}", args, said());
            }
            return r.map_err(|mut f| {
                f.msg = format!("{:?}: {}", args, f.msg);
                f
            });
        }
        unreachable!()
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
    fn max_shrink(&self) -> usize {
        40
    }
}

impl Program {
    #[allow(clippy::too_many_arguments)]
    fn talk(&self, c: &ProgCase, l: &Line, dir: &Path, port: u16, read: &str, write: &str, kinds: (&str, &str), cx: &mut Cx) -> R {
        let io = |e: std::io::Error| err("no-answer", e);
        let w = windows(dir);
        if w.len() != 1 {
            bail!("altered", "{} windows in the directory", w.len());
        }
        let secs = value(&l.chunk, DEFAULT_CHUNK_SIZE.parse().unwrap());
        if w[0].1 - w[0].0 != secs * 1000 && w[0].1 - w[0].0 + 1 != secs * 1000 {
            bail!("altered", "the window is {} ms long, the chunk size {} s", w[0].1 - w[0].0, secs);
        }
        // one fewer than there are workers stop in mid-request
        let mut held = vec![];
        if c.stalled {
            for _ in 1..value(&l.workers, DEFAULT_WORKER_NUM as u64) {
                let mut k = Conn::open(port).map_err(io)?;
                k.send(format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\nabc", write).as_bytes()).map_err(io)?;
                held.push(k);
                // tiny_http may let a connection wait for the one before when both come at once
                real_sleep(Duration::from_millis(20));
            }
            cx.hit_n("connections stopped in mid-request", held.len() as u64);
        }
        let first = w[0].0 as i64 + 1;
        let series = WSeries {
            labels: vec![("__name__".into(), "up".into()), ("job".into(), "x y".into())],
            samples: (0..c.samples as i64).map(|i| (first + i, (i as f64 + 0.5).to_bits())).collect(),
        };
        let ask = |port: u16, raw: &[u8]| ask(port, raw).or_else(|_| ask(port, raw));
        let r = ask(port, &request("POST", write, &snap_enc(&enc_write(&[series.clone()], 0)), Transfer::Length, true)).map_err(io)?;
        if r.status / 100 != 2 {
            bail!("altered", "a write to {} is answered with {}", write, r.status);
        }
        let q = WQuery { start: 0, end: i64::MAX, matchers: vec![(0, "__name__".into(), "up".into())] };
        let r = ask(port, &request("POST", read, &snap_enc(&enc_read(&[q], 0)), Transfer::Length, true)).map_err(io)?;
        if r.status / 100 != 2 {
            bail!("altered", "a read from {} is answered with {}", read, r.status);
        }
        let got = snap_dec(&r.body).and_then(|b| dec_response(&b));
        let got = match got {
            Some(g) if g.len() == 1 => answer(&g[0])?,
            _ => bail!("altered", "the answer to a read cannot be decoded"),
        };
        let want = answer(&[series])?;
        if got != want {
            bail!("altered", "a read returns{}\n instead of{}", show(&got), show(&want));
        }
        drop(held);
        // the backends asked for are the ones in use
        let of = |k: &str| if k == TIKV_BACKEND { Kind::Tikv } else { Kind::Sled };
        let mine = (of(kinds.0), of(kinds.1));
        for combo in COMBOS {
            let root = scratch_dir();
            let copy = root.path().join("copy");
            std::fs::create_dir(&copy).unwrap();
            std::fs::copy(dir.join(DB_METADATA_FILENAME), copy.join(DB_METADATA_FILENAME)).unwrap();
            let r = no_panic("opening", || open_db(combo, &copy, &new_cluster(), Duration::from_secs(3600), &Default::default()))?;
            if r.is_ok() != (combo == mine) {
                bail!("altered", "started with {:?}, but opening what it has created with {} gives {:?}", kinds, combo_name(combo), r.err().map(|e| e.to_string()));
            }
            cx.hit_n("opened with the right backends", r.is_ok() as u64);
        }
        cx.hit("started");
        cx.hit(combo_name(mine));
        cx.nontrivial(true);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C14, against the program: requests that announce bodies which do not come

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Announce {
    /// 0 the write path, 1 the read path, 2 another one
    pub to: u8,
    pub length: u64,
    /// so many bytes of it are sent, those of a valid body first
    pub sent: u16,
    pub expect: bool,
    /// 0 half-closed, 1 reset, 2 closed, 3 left open to the end of the case
    pub end: u8,
    pub method: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnnounceCase {
    pub workers: u8,
    pub sent: Vec<Announce>,
}

pub struct Announced {
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

fn short_of(e: &str) -> bool {
    // where tiny_http makes room for the rest of a body it wants to skip
    e.contains("memory allocation of") && e.contains("EqualReader")
}

/// Two threads were short of memory at once, and the program has ended before it could say where.
fn unsaid(e: &str) -> bool {
    e.contains("skipping backtrace") && !e.contains("EqualReader")
}

impl Part for Announced {
    type Case = AnnounceCase;
    fn name(&self) -> &'static str {
        "announced"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<AnnounceCase> {
        let length = prop_oneof![
            8 => 0u64..3000,
            6 => (10u32..30, -2i64..3).prop_map(|(b, d)| ((1i64 << b) + d) as u64),
            // more than there is memory
            1 => (42u32..63, -2i64..3).prop_map(|(b, d)| ((1i64 << b) + d) as u64),
            // more than can be asked for
            3 => (0u64..3).prop_map(|d| u64::MAX - d),
            1 => (1u64 << 63..u64::MAX),
        ];
        let one = (0u8..3, length, prop_oneof![1 => Just(0u16), 2 => 1u16..3000, 1 => Just(u16::MAX)], prop_oneof![4 => Just(false), 1 => Just(true)], 0u8..4, prop_oneof![4 => Just(0u8), 1 => 0u8..8])
            .prop_map(|(to, length, sent, expect, end, method)| Announce { to, length, sent, expect, end, method });
        (1u8..5, vec(one, 1..16)).prop_map(|(workers, sent)| AnnounceCase { workers, sent }).boxed()
    }
    fn run(&self, c: &AnnounceCase, cx: &mut Cx) -> R {
        for pause in [0, 200, 1000, 3000] {
            match self.once(c, cx, Duration::from_millis(pause)) {
                Err(f) if f.sig == "ended-unsaid" && pause < 3000 => cx.hit("once more, more slowly"),
                r => return r,
            }
        }
        unreachable!()
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}

impl Announced {
    fn once(&self, c: &AnnounceCase, cx: &mut Cx, pause: Duration) -> R {
        let exe = std::env::current_exe().unwrap().with_file_name("monolith-server");
        let root = scratch_dir();
        let said = || std::fs::read_to_string(root.path().join("stderr")).unwrap_or_default();
        let dir = root.path().join("data");
        std::fs::create_dir(&dir).unwrap();
        let args = |port: u16| vec!["--file_dir".to_string(), dir.display().to_string(), "--port".into(), port.to_string(), "--worker_num".into(), c.workers.to_string()];
        let Prog { run: mut p, port, read, write } = launch(root.path(), &args, "start")?;
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64;
        let mut want = WSeries { labels: vec![("__name__".into(), "up".into())], samples: vec![] };
        let name = vec![("__name__".to_string(), "up".to_string())];
        let mut open = vec![];
        for (i, a) in c.sent.iter().enumerate() {
            beat();
            // a client that stops occupies a worker; one is left
            let end = if a.end == 3 && open.len() + 1 >= c.workers as usize { 0 } else { a.end };
            let path = [write.as_str(), read.as_str(), "/elsewhere"][a.to as usize % 3];
            let method = ["POST", "GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "BREW"][a.method as usize % 8];
            let mut body = match a.to {
                1 => snap_enc(&enc_read(&[WQuery { start: 0, end: i64::MAX, matchers: vec![(0, "__name__".into(), "up".into())] }], 0)),
                // were it accepted, it would be found
                _ => snap_enc(&enc_write(&[WSeries { labels: name.clone(), samples: vec![(now(), 7f64.to_bits())] }], 0)),
            };
            body.resize(body.len() + 70_000, b'x');
            let n = (a.sent as u64).min(a.length) as usize;
            body.truncate(n);
            // the whole of a body is someone else's business
            if n as u64 == a.length {
                body.iter_mut().for_each(|b| *b = 0xff);
            }
            let head = format!("{} {} HTTP/1.1\r\nHost: x\r\n{}Content-Length: {}\r\n\r\n", method, path, if a.expect { "Expect: 100-continue\r\n" } else { "" }, a.length);
            if let Ok(mut k) = Conn::open(port) {
                let _ = k.send(head.as_bytes()).and_then(|_| k.send(&body));
                match end {
                    0 => {
                        k.end();
                        let _ = k.response(method == "HEAD");
                    }
                    1 => k.reset(),
                    2 => drop(k),
                    _ => {
                        open.push(k);
                        // tiny_http may let a connection wait for the one before when both come at once
                        real_sleep(Duration::from_millis(20));
                    }
                }
            }
            if a.length > 0x8000_0000 {
                real_sleep(pause);
            }
            cx.hit(match a.length {
                0..=1024 => "announced: little",
                1025..=0xffff => "announced: some",
                0x1_0000..=0x7fff_ffff => "announced: much",
                0x8000_0000..=0x7fff_ffff_ffff_ffff => "announced: more than there is memory",
                _ => "announced: more than can be asked for",
            });
            // what is well formed is still taken and answered
            let t = (now()).max(want.samples.last().map_or(0, |s| s.0 + 1));
            let s = (t, (i as f64).to_bits());
            let r = (|| -> R {
                let io = |e: std::io::Error| err("no-answer", e);
                let ask = |raw: &[u8]| ask(port, raw).or_else(|_| ask(port, raw)).map_err(io);
                let w = WSeries { labels: name.clone(), samples: vec![s] };
                let r = ask(&request("POST", &write, &snap_enc(&enc_write(&[w], 0)), Transfer::Length, true))?;
                if r.status / 100 != 2 {
                    bail!("write-refused", "a write is answered with {} after {:?}", r.status, a);
                }
                want.samples.push(s);
                let q = WQuery { start: 0, end: i64::MAX, matchers: vec![(0, "__name__".into(), "up".into())] };
                let r = ask(&request("POST", &read, &snap_enc(&enc_read(&[q], 0)), Transfer::Length, true))?;
                if r.status / 100 != 2 {
                    bail!("read-refused", "a read is answered with {} after {:?}", r.status, a);
                }
                let got = match snap_dec(&r.body).and_then(|b| dec_response(&b)) {
                    Some(g) if g.len() == 1 => answer(&g[0])?,
                    _ => bail!("read-answer", "the answer to a read cannot be decoded after {:?}", a),
                };
                let want = answer(&[want.clone()])?;
                if got != want {
                    bail!("read-answer", "a read returns{}\n instead of{} after {:?}", show(&got), show(&want), a);
                }
                Ok(())
            })();
            let mut over = None;
            for _ in 0..if r.is_err() { 200 } else { 1 } {
                over = p.0.try_wait().unwrap();
                if over.is_some() {
                    break;
                }
                real_sleep(Duration::from_millis(if r.is_err() { 10 } else { 0 }));
            }
            if over.is_some() {
                cx.nontrivial(true);
                let e = said();
                let at = e.find("memory allocation").or_else(|| e.find("panicked")).unwrap_or(0);
                let what = e[at..].lines().next().unwrap_or("").to_string();
                if unsaid(&e) {
                    return Err(Fail { sig: "ended-unsaid".into(), msg: format!("the program has ended after {:?}: {}", a, what) });
                }
                let sig = if short_of(&e) { "no-memory-for-rest-of-body" } else { "ended" };
                return cx.report(Fail { sig: sig.into(), msg: format!("the program has ended after {:?}: {}", a, what) });
            }
            r?;
        }
        cx.hit("survived");
        cx.nontrivial(true);
        Ok(())
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

// ---------------------------------------------------------------------------------------------
// C28: the TiKV config file

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// the list is a single text, a number, a list of lists, ...
    Endpoints(String),
    DryRun(String),
    /// the text ends before the closing bracket of the list
    Cut,
    /// bytes that are no UTF-8 text, at this place of 256
    Bytes(u8),
    Missing,
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    endpoints: Vec<String>,
    /// the key as the README writes it
    singular: bool,
    dry: Option<bool>,
    /// choices of how it is written down
    form: u64,
    damage: Option<Damage>,
    key: Vec<u8>,
    values: Vec<Vec<u8>>,
}

fn config_text(c: &FileCase) -> Vec<u8> {
    let mut form = c.form;
    let mut choose = |n: u64| {
        let v = form % n;
        form /= n;
        v
    };
    let eol = if choose(5) == 0 { "\r\n" } else { "\n" };
    let note = |n: u64| if n == 0 { " # pd_endpoints: [none], dry_run: true".to_string() } else { String::new() };
    let name = if c.singular { "pd_endpoint" } else { "pd_endpoints" };
    let cut = matches!(c.damage, Some(Damage::Cut));
    let list = match &c.damage {
        Some(Damage::Endpoints(t)) => format!("{}: {}{}", name, t, eol),
        _ if cut || choose(2) == 0 => {
            let mut t = format!("{}: [", name);
            for (i, e) in c.endpoints.iter().enumerate() {
                let q = if choose(2) == 0 { '"' } else { '\'' };
                t += &format!("{}{}{}{}", if i > 0 { ", " } else { "" }, q, e, q);
            }
            if !cut {
                t += "]";
                t += &note(choose(3));
                t += eol;
            }
            t
        }
        _ => {
            let mut t = format!("{}:{}{}", name, note(choose(3)), eol);
            let indent = ["", " ", "  ", "    "][choose(4) as usize];
            for e in &c.endpoints {
                // an address in brackets is a list unless quoted
                let q = if e.starts_with('[') { 1 + choose(2) } else { choose(3) };
                let q = ["", "\"", "'"][q as usize];
                t += &format!("{}- {}{}{}{}{}", indent, q, e, q, note(choose(4)), eol);
            }
            t
        }
    };
    let dry = match (&c.damage, c.dry) {
        (Some(Damage::DryRun(t)), _) => format!("dry_run: {}{}", t, eol),
        (_, Some(v)) => format!("dry_run: {}{}{}", v, note(choose(3)), eol),
        _ => String::new(),
    };
    let mut t = String::new();
    if choose(4) == 0 {
        t += "---";
        t += eol;
    }
    if choose(4) == 0 {
        for _ in 0..=[0, 0, 3, 150][choose(4) as usize] {
            t += "# how to reach the cluster: dry_run: true, or pd_endpoints";
            t += eol;
        }
    }
    // what is cut has to come last
    if choose(2) == 0 || cut {
        t += &dry;
        t += &list;
    } else {
        t += &list;
        t += &dry;
    }
    let mut t = t.into_bytes();
    if let Some(Damage::Bytes(at)) = c.damage {
        let at = at as usize * t.len() / 256;
        // no continuation of anything and no start
        t.splice(at..at, [0xff, 0xfe, 0xff]);
    }
    t
}

pub struct ConfigFile {
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
}

impl Part for ConfigFile {
    type Case = FileCase;
    fn name(&self) -> &'static str {
        "file"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FileCase> {
        let host = prop_oneof![
            3 => any::<[u8; 4]>().prop_map(|b| format!("{}.{}.{}.{}", b[0], b[1], b[2], b[3])),
            2 => "[a-z][a-z0-9-]{0,20}[a-z]".prop_map(|s| format!("{}.example", s)),
            1 => any::<[u16; 2]>().prop_map(|b| format!("[fd00::{:x}:{:x}]", b[0], b[1])),
        ];
        let endpoint = (host, proptest::option::weighted(0.8, 1u16..)).prop_map(|(h, p)| match p {
            Some(p) => format!("{}:{}", h, p),
            None => h,
        });
        let damage = prop_oneof![
            3 => select(vec!["\"Should be an array\"", "127.0.0.1:2379", "2379", "true", "{a: b}", "[[\"127.0.0.1:2379\"]]", "[{a: b}]"]).prop_map(|s| Damage::Endpoints(s.to_string())),
            3 => select(vec!["maybe", "\"perhaps\"", "3", "1.5", "[true]", "{a: true}", "tru", "falsee"]).prop_map(|s| Damage::DryRun(s.to_string())),
            1 => Just(Damage::Cut),
            1 => any::<u8>().prop_map(Damage::Bytes),
            1 => Just(Damage::Missing),
            1 => Just(Damage::Directory),
        ];
        let bytes = || vec(any::<u8>(), 0..20);
        (
            (prop_oneof![20 => vec(endpoint.clone(), 1..6), 1 => vec(endpoint, 100..400)], any::<bool>(), proptest::option::weighted(0.8, any::<bool>())),
            (any::<u64>(), proptest::option::weighted(0.3, damage)),
            (vec(any::<u8>(), 8..20), vec(bytes(), 1..4)),
        )
            .prop_map(|((endpoints, singular, dry), (form, damage), (key, values))| FileCase { endpoints, singular, dry, form, damage, key, values })
            .boxed()
    }
    fn run(&self, c: &FileCase, cx: &mut Cx) -> R {
        use tikv_client::sim;
        let root = scratch_dir();
        let file = root.path().join("tikv.yaml");
        let text = config_text(c);
        match c.damage {
            Some(Damage::Missing) => {}
            Some(Damage::Directory) => std::fs::create_dir(&file).unwrap(),
            _ => std::fs::write(&file, &text).unwrap(),
        }
        for n in sim::names() {
            sim::forget(&n);
        }
        let shown = String::from_utf8_lossy(&text).into_owned();
        let singleton = match no_panic("reading the file", || TiKvRawBackendSingleton::from_config_file(&file).map_err(|e| e.to_string()))? {
            Ok(_) if c.damage.is_some() => bail!("accepted", "a config file that is not one is accepted ({:?}):\n{}", c.damage, shown),
            Ok(s) => s,
            Err(_) if c.damage.is_some() => {
                cx.hit("refused");
                cx.nontrivial(true);
                return Ok(());
            }
            Err(e) => bail!("refused", "refused with {:?}:\n{}", e, shown),
        };
        let name = c.endpoints.join(",");
        let used = |expect: &str| -> R<()> {
            for n in sim::names() {
                if n != expect && sim::cluster(&n).ops() > 0 {
                    bail!("elsewhere", "requests went to the cluster {:?} with:\n{}", n, shown);
                }
            }
            Ok(())
        };
        let instance = match no_panic("get_instance", || singleton.get_instance().map_err(|e| e.to_string()))? {
            Ok(i) => i,
            Err(e) => bail!("refused", "no backend ({}) with:\n{}", e, shown),
        };
        for v in &c.values {
            if let Err(e) = no_panic("set", || instance.set(c.key.clone(), v.clone()).map_err(|e| e.to_string()))? {
                bail!("refused", "set fails ({}) with:\n{}", e, shown);
            }
            let got = no_panic("get", || instance.get(c.key.clone()).map_err(|e| e.to_string()))?;
            if got != Ok(Some(v.clone())) {
                bail!("lost", "get gives {:?} instead of {:?} with:\n{}", got, v, shown);
            }
        }
        let last = c.values.last().unwrap();
        let stored = sim::names().contains(&name) && sim::cluster(&name).snapshot().get(&c.key) == Some(last);
        match c.dry {
            Some(true) => used("")?,
            _ => used(&name)?,
        }
        match c.dry {
            Some(true) if stored => bail!("not dry", "a dry run writes to the cluster:\n{}", shown),
            Some(false) if !stored => bail!("dry", "nothing is stored in the cluster at {:?} with:\n{}", name, shown),
            // what holds without the option is told differently by the README and the code
            None if !stored => cx.hit("option not given, dry"),
            None => cx.hit("option not given, stored"),
            Some(true) => cx.hit("dry"),
            Some(false) => {
                // a second connection is one to the same cluster
                let again = no_panic("get_instance", || singleton.clone().get_instance().map_err(|e| e.to_string()))?;
                let got = again.map(|i| i.get(c.key.clone()).ok().flatten());
                if got != Ok(Some(last.clone())) {
                    bail!("lost", "another instance gives {:?} instead of {:?} with:\n{}", got, last, shown);
                }
                cx.hit("stored")
            }
        }
        cx.nontrivial(c.dry.is_some());
        Ok(())
    }
    fn plan(&self, tier: Tier) -> (usize, usize) {
        tier.pick(self.quick, self.thorough)
    }
}
