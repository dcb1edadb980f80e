//! Stand-in for the `tikv-client` crate (github.com/tikv/client-rust), which cannot be fetched here.
//!
//! Only the raw API that monolith uses is offered. A "cluster" is an in-memory ordered map, named by
//! the pd endpoints of the `Config`, and shared by every client that names the same endpoints, as a
//! real cluster is. `sim` lets a harness look at a cluster and make chosen requests fail.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::sync::{Arc, Mutex, OnceLock, RwLock};

#[derive(Clone, Debug)]
pub struct Error(pub String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, Default)]
pub struct Config {
    pd_endpoints: Vec<String>,
}

impl Config {
    pub fn new(pd_endpoints: impl IntoIterator<Item = impl Into<String>>) -> Self {
        Config {
            pd_endpoints: pd_endpoints.into_iter().map(Into::into).collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key(Vec<u8>);
impl From<Vec<u8>> for Key {
    fn from(v: Vec<u8>) -> Self {
        Key(v)
    }
}
impl From<Key> for Vec<u8> {
    fn from(k: Key) -> Self {
        k.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Value(Vec<u8>);
impl From<Vec<u8>> for Value {
    fn from(v: Vec<u8>) -> Self {
        Value(v)
    }
}
impl From<Value> for Vec<u8> {
    fn from(v: Value) -> Self {
        v.0
    }
}

pub mod sim {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Op {
        Get,
        Put,
    }

    /// What to do with a request: let it through, fail it without effect, or (puts) apply it and still
    /// report an error, as when the answer of the cluster is lost.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Verdict {
        Ok,
        Fail,
        ApplyThenFail,
    }

    pub type Judge = dyn FnMut(u64, Op, &[u8]) -> Verdict + Send;
    pub type Tap = dyn FnMut(&[u8], &[u8]) + Send;
    pub type Before = dyn Fn(Op, &[u8]) + Send + Sync;

    #[derive(Default)]
    pub struct State {
        pub map: BTreeMap<Vec<u8>, Vec<u8>>,
        pub ops: u64,
        pub failed: u64,
        pub judge: Option<Box<Judge>>,
        /// told of every put that took effect
        pub tap: Option<Box<Tap>>,
    }

    fn before() -> &'static RwLock<Option<Arc<Before>>> {
        static B: OnceLock<RwLock<Option<Arc<Before>>>> = OnceLock::new();
        B.get_or_init(Default::default)
    }

    /// Called at the start of every request, without any lock held.
    pub fn set_before(f: Option<Arc<Before>>) {
        *before().write().unwrap() = f;
    }

    #[derive(Clone, Default)]
    pub struct Cluster(pub Arc<Mutex<State>>);

    impl Cluster {
        pub fn set_judge(&self, judge: Option<Box<Judge>>) {
            self.0.lock().unwrap().judge = judge;
        }
        pub fn ops(&self) -> u64 {
            self.0.lock().unwrap().ops
        }
        pub fn failed(&self) -> u64 {
            self.0.lock().unwrap().failed
        }
        pub fn snapshot(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
            self.0.lock().unwrap().map.clone()
        }
        pub fn restore(&self, map: BTreeMap<Vec<u8>, Vec<u8>>) {
            self.0.lock().unwrap().map = map;
        }
        pub fn set_tap(&self, tap: Option<Box<Tap>>) {
            self.0.lock().unwrap().tap = tap;
        }
        fn judge(&self, op: Op, key: &[u8]) -> Verdict {
            let b = before().read().unwrap().clone();
            if let Some(b) = b {
                b(op, key);
            }
            let mut s = self.0.lock().unwrap();
            let n = s.ops;
            s.ops += 1;
            let v = match s.judge.as_mut() {
                Some(j) => j(n, op, key),
                None => Verdict::Ok,
            };
            if v != Verdict::Ok {
                s.failed += 1;
            }
            v
        }
        pub(crate) fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
            match self.judge(Op::Get, key) {
                Verdict::Ok => Ok(self.0.lock().unwrap().map.get(key).cloned()),
                _ => Err(Error("simulated: get failed".into())),
            }
        }
        pub(crate) fn put(&self, key: Vec<u8>, value: Vec<u8>) -> Result<()> {
            let v = self.judge(Op::Put, &key);
            if v != Verdict::Fail {
                let mut s = self.0.lock().unwrap();
                if let Some(t) = s.tap.as_mut() {
                    t(&key, &value);
                }
                s.map.insert(key, value);
            }
            match v {
                Verdict::Ok => Ok(()),
                _ => Err(Error("simulated: put failed".into())),
            }
        }
    }

    fn clusters() -> &'static Mutex<HashMap<String, Cluster>> {
        static C: OnceLock<Mutex<HashMap<String, Cluster>>> = OnceLock::new();
        C.get_or_init(Default::default)
    }

    /// The cluster behind these endpoints, created empty when it is first named.
    pub fn cluster(name: &str) -> Cluster {
        clusters().lock().unwrap().entry(name.to_string()).or_default().clone()
    }

    /// The clusters that were named.
    pub fn names() -> Vec<String> {
        clusters().lock().unwrap().keys().cloned().collect()
    }

    pub fn forget(name: &str) {
        clusters().lock().unwrap().remove(name);
    }
}

#[derive(Clone)]
pub struct RawClient {
    cluster: sim::Cluster,
}

impl RawClient {
    pub fn new(config: Config) -> Result<RawClient> {
        Ok(RawClient {
            cluster: sim::cluster(&config.pd_endpoints.join(",")),
        })
    }

    pub fn get(&self, key: impl Into<Key>) -> impl Future<Output = Result<Option<Value>>> {
        let r = self.cluster.get(&key.into().0);
        std::future::ready(r.map(|o| o.map(Value)))
    }

    pub fn put(&self, key: impl Into<Key>, value: impl Into<Value>) -> impl Future<Output = Result<()>> {
        std::future::ready(self.cluster.put(key.into().0, value.into().0))
    }
}
