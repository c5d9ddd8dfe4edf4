//! Histories of the state store: saves, crashes, failures, concurrent use, cleaning and restarts (C20), and the states
//! of epoch boundaries and checkpoints through every layer of caching (C21).
use crate::fsx::{self, Fault};
use crate::life::*;
use crate::node::*;
use crate::sim::*;
use crate::util::*;
use beacon_types::{EthSpec, MainnetEthSpec};
use host::mainnet::BeaconState;
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError, StateRef};
use serde_json::{json, Value};
use ssz_rs::HashTreeRoot;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use z_core::Root;

type Id = (u64, i64);
struct Lab<E: EthSpec> {
    life: Life,
    slots: Vec<u64>,
    states: HashMap<Id, StateRef>,
    sizes: HashMap<Id, usize>,
    dir: String,
    node: Rc<Node>,
    roots: RefCell<HashMap<u64, (Root, Root)>>,
    _e: std::marker::PhantomData<E>,
}
enum Layer<E: EthSpec> {
    File(FileProvider<E>),
    Cache(CacheStateProvider<FileProvider<E>>),
    Api(PersistentApiStateProvider<E>),
    Both(CacheStateProvider<PersistentApiStateProvider<E>>),
}
impl<E: EthSpec> StateProvider for Layer<E> {
    type Spec = E;
    fn genesis_validators_root(&self) -> Result<Root, StateProviderError> {
        match self { Layer::File(p) => p.genesis_validators_root(), Layer::Cache(p) => p.genesis_validators_root(), Layer::Api(p) => p.genesis_validators_root(), Layer::Both(p) => p.genesis_validators_root() }
    }
    fn state_at_slot(&self, s: z_core::Slot) -> Result<StateRef, StateProviderError> {
        match self { Layer::File(p) => p.state_at_slot(s), Layer::Cache(p) => p.state_at_slot(s), Layer::Api(p) => p.state_at_slot(s), Layer::Both(p) => p.state_at_slot(s) }
    }
    fn state_at_epoch(&self, s: z_core::Epoch) -> Result<StateRef, StateProviderError> {
        match self { Layer::File(p) => p.state_at_epoch(s), Layer::Cache(p) => p.state_at_epoch(s), Layer::Api(p) => p.state_at_epoch(s), Layer::Both(p) => p.state_at_epoch(s) }
    }
    fn state_at_epoch_boundary(&self, s: z_core::Epoch) -> Result<StateRef, StateProviderError> {
        match self { Layer::File(p) => p.state_at_epoch_boundary(s), Layer::Cache(p) => p.state_at_epoch_boundary(s), Layer::Api(p) => p.state_at_epoch_boundary(s), Layer::Both(p) => p.state_at_epoch_boundary(s) }
    }
    fn state_at_checkpoint(&self, s: z_core::Checkpoint) -> Result<StateRef, StateProviderError> {
        match self { Layer::File(p) => p.state_at_checkpoint(s), Layer::Cache(p) => p.state_at_checkpoint(s), Layer::Api(p) => p.state_at_checkpoint(s), Layer::Both(p) => p.state_at_checkpoint(s) }
    }
}
fn name<E: EthSpec>(l: &Layer<E>) -> &'static str { match l { Layer::File(_) => "file", Layer::Cache(_) => "cache", Layer::Api(_) => "api", Layer::Both(_) => "both" } }
impl<E: EthSpec> Lab<E> {
    fn layer(&self, rng: &mut Rng, api: bool) -> Layer<E> {
        let client = || BeaconClient::builder(self.node.url.clone()).with_rate_limit(0).build();
        match rng.below(if api { 5 } else { 2 }) {
            0 => Layer::File(FileProvider::new(&self.dir).unwrap()),
            1 => Layer::Cache(CacheStateProvider::new(FileProvider::new(&self.dir).unwrap())),
            2 | 3 => Layer::Both(CacheStateProvider::new(PersistentApiStateProvider::new(&self.dir, client()).unwrap())),
            _ => Layer::Api(PersistentApiStateProvider::new(&self.dir, client()).unwrap()),
        }
    }
    fn got(&self, r: Option<Result<StateRef, StateProviderError>>) -> Value {
        match r {
            None => json!([0, -3]),
            Some(Err(StateProviderError::NotFound(_))) => json!([0, 0]),
            Some(Err(_)) => json!([0, -1]),
            Some(Ok(s)) => match self.states.iter().find(|(k, x)| k.0 == s.slot() && x.as_ref() == s.as_ref()) {
                Some((k, _)) => json!([k.0, k.1]),
                None => json!([s.slot().min(1 << 30), -2]),
            },
        }
    }
    fn publish(&self, s: u64) {
        let path = format!("/eth/v2/debug/beacon/states/{s}");
        if self.node.has(&path) { return; }
        let st = &self.states[&(s, 1)];
        let version = if matches!(st.as_ref(), BeaconState::Fulu(_)) { "fulu" } else { "electra" };
        let data = serde_json::to_string(st.as_ref()).unwrap();
        self.node.set(path, format!("{{\"version\":\"{version}\",\"execution_optimistic\":false,\"finalized\":true,\"data\":{data}}}").into_bytes());
    }
    /// The root of the block a state belongs to, and one that is not.
    fn root(&self, s: u64) -> (Root, Root) {
        *self.roots.borrow_mut().entry(s).or_insert_with(|| {
            let st = &self.states[&(s, 1)];
            let mut h = st.latest_block_header().clone();
            let wrong = h.hash_tree_root().unwrap();
            h.state_root = st.hash_tree_root().unwrap();
            (h.hash_tree_root().unwrap(), wrong)
        })
    }
    fn ls(&self) -> Value {
        let mut v: Vec<(String, u64)> = std::fs::read_dir(&self.dir).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().to_string_lossy().into_owned(), e.metadata().unwrap().len()) }).collect();
        v.sort();
        json!(v)
    }
}
fn ops(c: &fsx::Ctx) -> Value {
    json!(c.ops.iter().map(|o| json!({"k": o.kind, "name": o.name, "to": o.to, "f": o.file, "at": o.at, "len": o.len, "ok": o.ok, "done": o.done})).collect::<Vec<_>>())
}
/// A state for a slot that differs from the chain's.
fn variant(s: &BeaconState, k: u64) -> BeaconState {
    let mut s = s.clone();
    match &mut s {
        BeaconState::Electra(b) => b.balances[0] += k,
        BeaconState::Fulu(b) => b.balances[0] += k,
        _ => unreachable!(),
    }
    s
}
fn lab<E: EthSpec>(rng: &mut Rng, node: Rc<Node>, dir: String) -> Lab<E> {
    let base = *rng.pick(&[3u64, 10, 12, 1250, 411392 - 2]);
    let st = Style { exits: 1, cons: false, eject: false, pending: rng.chance(1, 2), skips: rng.below(3), gap: 0, late: 3, luck: 1 };
    let spec = crate::flight::schedule(rng, base);
    let life = live::<E>(rng, spec, base, 5, 20, st);
    let spe = life.chain.spe;
    let mut slots: Vec<u64> = (base..base + 5).map(|e| e * spe).chain((base + 1..base + 5).map(|e| life.boundary(e))).filter(|s| life.snaps.contains_key(s)).collect();
    for _ in 0..2 { let all: Vec<u64> = life.snaps.keys().copied().collect(); slots.push(*rng.pick(&all)); }
    slots.push(0);
    slots.sort();
    slots.dedup();
    let mut states = HashMap::new();
    let mut sizes = HashMap::new();
    for s in &slots {
        let x = life.state(*s).unwrap();
        states.insert((*s, 2), Arc::new(variant(&x, 1)));
        states.insert((*s, 1), x);
    }
    for (k, s) in &states { sizes.insert(*k, ssz_rs::serialize(s.as_ref()).unwrap().len()); }
    Lab { life, slots, states, sizes, dir, node, roots: Default::default(), _e: Default::default() }
}
fn fault(rng: &mut Rng, len: usize) -> Fault {
    let k = rng.below(5);
    let m = *rng.pick(&[0, 0, 1, 100, len / 2, len - 48, len - 32, len - 16, len - 1, len]);
    match rng.below(10) {
        0..=2 => Fault::Die(k, m),
        3 => Fault::Fail(k, m, libc::ENOSPC),
        4 => Fault::Fail(k, 0, *rng.pick(&[libc::EIO, libc::EINTR, libc::EDQUOT, libc::EACCES])),
        5 => Fault::Short(k, m.max(1)),
        _ => Fault::Meet(k),
    }
}
fn history<E: EthSpec>(rng: &mut Rng, lab: &Lab<E>, api: bool) -> Vec<Value> {
    let mut ev = vec![];
    let mut layer = lab.layer(rng, api);
    let file = || FileProvider::<E>::new(&lab.dir).unwrap();
    for _ in 0..rng.range(0, 2) { std::fs::write(format!("{}/{}", lab.dir, rng.pick(&["notes.txt", "README", "x_beacon_state.ssz", ".lock"])), b"junk").unwrap(); }
    let spe = lab.life.chain.spe;
    let base = lab.life.chain.base;
    let focus: Vec<u64> = (0..3).map(|_| *rng.pick(&lab.slots)).collect();
    for _ in 0..rng.range(6, 16) {
        let s = if rng.chance(2, 3) { *rng.pick(&focus) } else { *rng.pick(&lab.slots) };
        let mode = if api && rng.chance(1, 5) { *rng.pick(&[Mode::Missing, Mode::Broken, Mode::Cut, Mode::Nonsense]) } else { Mode::Fine };
        lab.node.mode(mode);
        match rng.below(12) {
            0..=3 => {
                let v = if rng.chance(1, 6) { 2 } else { 1 };
                let st = lab.states[&(s, v)].clone();
                let n = lab.sizes[&(s, v)];
                let f = if rng.chance(2, 3) { fault(rng, n) } else { Fault::None };
                let met: Rc<RefCell<Vec<Value>>> = Default::default();
                let meet: Option<Box<dyn FnMut()>> = matches!(f, Fault::Meet(_)).then(|| {
                    let (m, what) = (met.clone(), rng.below(5));
                    let v2 = if rng.chance(1, 3) { 3 - v } else { v };
                    let e = s / spe + rng.range(0, 1);
                    // SAFETY: runs within this call only
                    let lab: &'static Lab<E> = unsafe { &*(lab as *const Lab<E>) };
                    Box::new(move || {
                        let p = FileProvider::<E>::new(&lab.dir).unwrap();
                        m.borrow_mut().push(match what {
                            0 | 1 => json!({"k": "read", "s": s, "got": lab.got(caught(|| p.state_at_slot(s.into())))}),
                            2 | 3 => json!({"k": "save", "s": s, "v": v2, "ok": matches!(caught(|| p.save_state(&lab.states[&(s, v2)])), Some(Ok(_)))}),
                            _ => json!({"k": "clear", "upto": e * spe, "ok": matches!(caught(|| p.clear_states_before(e.into())), Some(Ok(_)))}),
                        });
                    }) as Box<dyn FnMut()>
                });
                let p = file();
                let before = lab.ls();
                fsx::start(&lab.dir, f, meet);
                let r = caught(|| p.save_state(&st));
                let c = fsx::stop();
                ev.push(json!({"k": "save", "s": s, "v": v, "ok": matches!(r, Some(Ok(_))), "fault": c.hit && !matches!(f, Fault::Meet(_) | Fault::Short(..)), "dead": c.dead,
                    "met": *met.borrow(), "ops": ops(&c), "n": n, "before": before, "ls": lab.ls(), "name": format!("{s}_beacon_state.ssz"), "how": format!("{f:?}")}));
                if c.dead { layer = lab.layer(rng, api); ev.push(json!({"k": "restart"})); }
            }
            4..=6 => {
                if api { lab.publish(s); }
                let broken = rng.chance(1, 8);
                let f = if api && rng.chance(1, 4) { fault(rng, lab.sizes[&(s, 1)]) } else { Fault::None };
                let f = if matches!(f, Fault::Meet(_)) { Fault::None } else { f };
                fsx::start(&lab.dir, f, None);
                if broken { fsx::fail_reads(libc::EIO); }
                let r = lab.got(caught(|| layer.state_at_slot(s.into())));
                let c = fsx::stop();
                ev.push(json!({"k": "read", "s": s, "via": name(&layer), "got": r, "fault": broken || (c.hit && !matches!(f, Fault::Short(..))), "node": mode == Mode::Fine}));
                if c.dead { layer = lab.layer(rng, api); ev.push(json!({"k": "restart"})); }
            }
            7 | 8 => {
                let able: Vec<u64> = (base + 1..base + 5).filter(|e| lab.slots.contains(&lab.life.boundary(*e))).collect();
                if able.is_empty() { continue; }
                let e = *rng.pick(&able);
                let b = lab.life.boundary(e);
                if api { lab.publish(e * spe); lab.publish(b); }
                if rng.chance(1, 2) {
                    let r = lab.got(caught(|| layer.state_at_epoch_boundary(e.into())));
                    ev.push(json!({"k": "boundary", "e": e * spe, "b": b, "via": name(&layer), "got": r, "node": mode == Mode::Fine}));
                } else {
                    let (good, root) = match rng.below(4) {
                        0 | 1 => (true, lab.root(b).0),
                        2 => (false, lab.root(b).1),
                        _ => { let o = *rng.pick(&able); let x = lab.life.boundary(o); (x == b, lab.root(x).0) }
                    };
                    let r = lab.got(caught(|| layer.state_at_checkpoint(z_core::Checkpoint::new(e.into(), root))));
                    ev.push(json!({"k": "checkpoint", "e": e * spe, "b": b, "good": good, "via": name(&layer), "got": r, "node": mode == Mode::Fine}));
                }
            }
            9 => {
                let e = s / spe + rng.range(0, 1);
                let f = match rng.below(4) { 0 => Fault::Die(rng.below(3), 0), 1 => Fault::Fail(rng.below(3), 0, libc::EACCES), _ => Fault::None };
                fsx::start(&lab.dir, f, None);
                let r = match &layer { Layer::Api(p) => caught(|| p.clear_states_before(e.into())), _ => { let p = file(); caught(|| p.clear_states_before(e.into())) } };
                let c = fsx::stop();
                ev.push(json!({"k": "clear", "upto": e * spe, "ok": matches!(r, Some(Ok(_))), "fault": c.hit}));
            }
            10 => {
                if api { lab.publish(0); }
                let r = caught(|| layer.genesis_validators_root());
                ev.push(json!({"k": "genesis", "via": name(&layer), "ok": matches!(r, Some(Ok(_))), "right": matches!(r, Some(Ok(g)) if g == root(lab.life.gvr)), "node": mode == Mode::Fine}));
            }
            _ => { layer = lab.layer(rng, api); ev.push(json!({"k": "restart"})); }
        }
    }
    // what is there in the end
    let p = file();
    for s in &lab.slots {
        if *s != 0 && !focus.contains(s) && rng.chance(1, 2) { continue; }
        ev.push(json!({"k": "read", "s": s, "via": "file", "got": lab.got(caught(|| p.state_at_slot((*s).into()))), "fault": false, "node": false}));
    }
    ev
}
fn one<E: EthSpec>(seed: u64, node: &Rc<Node>, dir: &str, stats: &mut BTreeMap<String, usize>) -> Vec<Value> {
    let rng = &mut Rng(seed);
    let mut out = vec![];
    node.clear();
    let lab = lab::<E>(rng, node.clone(), dir.to_string());
    for k in 0..12 {
        std::fs::create_dir(dir).unwrap();
        let api = k % 6 == 2;
        let ev = history(rng, &lab, api);
        std::fs::remove_dir_all(dir).unwrap();
        for e in &ev {
            let mut k = e["k"].as_str().unwrap().to_string();
            if e["dead"] == json!(true) { k += " crashed"; }
            if e["met"].as_array().is_some_and(|m| !m.is_empty()) { k += " with others"; }
            *stats.entry(k).or_default() += 1;
        }
        out.push(json!({"seed": seed.to_string(), "slots": lab.slots, "ev": ev}));
    }
    out
}
struct Gone(String);
impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 240 } else { 48 };
    let mut out = Out::new(dir, "trace.ndjson");
    let work = std::sync::atomic::AtomicU64::new(0);
    let done = std::sync::Mutex::new((BTreeMap::new(), BTreeMap::<String, usize>::new()));
    let scratch = format!("{}/vstore-{}", if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { dir }, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let _gone = Gone(scratch.clone());
    std::thread::scope(|s| {
        for t in 0..8 {
            let (work, done, scratch) = (&work, &done, &scratch);
            s.spawn(move || {
                let node = Rc::new(Node::start());
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
                loop {
                    let i = work.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n { break; }
                    let mut st = BTreeMap::new();
                    let k = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    let d = format!("{scratch}/{t}");
                    let v = rt.block_on(async { if i % 3 == 0 { one::<MainnetEthSpec>(k, &node, &d, &mut st) } else { one::<ShortSpec>(k, &node, &d, &mut st) } });
                    let mut g = done.lock().unwrap();
                    g.0.insert(i, v);
                    for (k, c) in st { *g.1.entry(k).or_default() += c; }
                }
            });
        }
    });
    let g = done.into_inner().unwrap();
    for v in g.0.into_values().flatten() { out.line(v); }
    std::fs::write(format!("{dir}/stats.json"), serde_json::to_string(&g.1).unwrap()).unwrap();
}
