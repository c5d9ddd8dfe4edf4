//! The command-line program against a simulated node: the files it leaves and what the guest programs make of them (C23).
use crate::flight::Names;
use crate::life::*;
use crate::sim::*;
use crate::util::*;
use beacon_types::MainnetEthSpec;
use ethereum_consensus::types::{electra, mainnet::BeaconBlock};
use host::mainnet::BeaconState;
use host::FileProvider;
use serde_json::{json, Value};
use ssz_rs::HashTreeRoot;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpListener;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

type E = MainnetEthSpec;
const SPE: u64 = 32;

pub fn block(l: &Life, s: u64) -> Option<BeaconBlock> {
    let v = l.chain.blocks.get(&s)?;
    let h = l.chain.header(s).message;
    let mut b = electra::BeaconBlock { slot: s, proposer_index: h.proposer_index, parent_root: h.parent_root, state_root: h.state_root, ..Default::default() };
    b.body.attestations = v.iter().map(|a| a.real.clone()).collect::<Vec<_>>().try_into().unwrap();
    Some(BeaconBlock::Electra(b))
}
pub fn state_json(st: &BeaconState) -> Vec<u8> {
    let version = if matches!(st, BeaconState::Fulu(_)) { "fulu" } else { "electra" };
    let data = serde_json::to_string(st).unwrap();
    format!("{{\"version\":\"{version}\",\"execution_optimistic\":false,\"finalized\":true,\"data\":{data}}}").into_bytes()
}
/// The node's answer, given the slot it has reached.
pub fn answer(l: &Life, head: u64, path: &str) -> Option<Vec<u8>> {
    let p: Vec<&str> = path.trim_matches('/').split('/').collect();
    let c = &l.chain;
    let state_of = |id: &str| -> Option<u64> { if id == "head" { Some(head) } else { id.parse().ok().filter(|s| *s <= head) } };
    match p.as_slice() {
        ["eth", "v1", "beacon", "headers", id] => {
            let s = match id.parse::<u64>() { Ok(s) => s, Err(_) => *c.blocks.keys().find(|s| root(**s as u32 + 1).to_string() == *id)? };
            if s > head || !c.blocks.contains_key(&s) { return None; }
            let h = serde_json::to_value(c.header(s)).unwrap();
            Some(json!({"execution_optimistic": false, "finalized": true, "data": {"root": root(s as u32 + 1), "canonical": true, "header": h}}).to_string().into_bytes())
        }
        ["eth", "v2", "beacon", "blocks", id] => {
            let s: u64 = id.parse().ok().filter(|s| *s <= head)?;
            let b = serde_json::to_value(block(l, s)?).unwrap();
            let sig = format!("0x{}", "00".repeat(96));
            Some(json!({"version": "electra", "execution_optimistic": false, "finalized": true, "data": {"message": b, "signature": sig}}).to_string().into_bytes())
        }
        ["eth", "v1", "beacon", "states", id, "finality_checkpoints"] => {
            let e = state_of(id)? / SPE;
            if e < c.base { return None; }
            let s = c.state(e);
            let cp = |c: C| json!({"epoch": c.0.to_string(), "root": root(c.1)});
            Some(json!({"execution_optimistic": false, "finalized": true, "data": {"previous_justified": cp(s.pj), "current_justified": cp(s.j), "finalized": cp(s.f)}}).to_string().into_bytes())
        }
        ["eth", "v2", "debug", "beacon", "states", id] => Some(state_json(&*l.state(state_of(id)?)?)),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wrong { Broken, Missing, Cut, Nonsense }
/// A node that is waited for while a program runs.
pub struct Served { pub code: i32, asked: usize, polls: usize, hung: bool, wrong: bool }
pub fn serve(l: &Life, listener: &TcpListener, mut child: Child, head: &mut u64, wrong: Option<(usize, Wrong)>, patience: usize) -> Served {
    let mut r = Served { code: -1, asked: 0, polls: 0, hung: false, wrong: false };
    let since = Instant::now();
    let mut same = 0;
    loop {
        match listener.accept() {
            Ok((mut s, _)) => {
                s.set_nonblocking(false).unwrap();
                let mut rd = BufReader::new(s.try_clone().unwrap());
                let (mut line, mut h) = (String::new(), String::new());
                if rd.read_line(&mut line).is_err() { continue; }
                while rd.read_line(&mut h).is_ok_and(|n| n > 2) { h.clear(); }
                let path = line.split(' ').nth(1).unwrap_or("").to_string();
                r.asked += 1;
                if path.contains("/head/") {
                    r.polls += 1;
                    same += 1;
                    // the chain goes on while it is waited for, up to its end
                    if same > 1 && *head < l.chain.head { *head = (*head + SPE).min(l.chain.head); same = 0; }
                } else { same = 0; }
                let over = same > patience || r.asked > 20000;
                let bad = wrong.filter(|w| w.0 == r.asked).map(|w| w.1);
                r.wrong |= bad.is_some();
                let (code, body) = match (over, bad) {
                    (true, _) | (_, Some(Wrong::Broken)) => (500, b"{}".to_vec()),
                    (_, Some(Wrong::Missing)) => (404, b"{\"code\":404}".to_vec()),
                    (_, Some(Wrong::Nonsense)) => (200, b"{\"data\":{}}".to_vec()),
                    _ => match answer(l, *head, &path) { Some(b) => (200, b), None => (404, b"{\"code\":404}".to_vec()) },
                };
                let _ = s.write_all(format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes());
                let n = if bad == Some(Wrong::Cut) { body.len() / 2 } else { body.len() };
                let _ = s.write_all(&body[..n]);
            }
            Err(_) => {
                if let Some(x) = child.try_wait().unwrap() { r.code = x.code().unwrap_or(-1); return r; }
                if since.elapsed() > Duration::from_secs(240) { let _ = child.kill(); let _ = child.wait(); r.hung = true; return r; }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }
}
fn hex(b: &[u8]) -> String { hex::encode(b) }
fn small(b: &[u8]) -> i64 { if b[..24].iter().any(|x| *x != 0) { return -1; } let n = u64::from_be_bytes(b[24..].try_into().unwrap()); if n < 1 << 30 { n as i64 } else { -1 } }
/// The nine words of a journal: numbers and names of roots.
fn words(n: &Names, j: &[u8]) -> Value {
    if j.len() != 288 { return json!([]); }
    json!(j.chunks(32).map(|w| json!([small(w), n.root(w.try_into().unwrap())])).collect::<Vec<_>>())
}
pub fn listing(dir: &str) -> BTreeSet<String> {
    std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}
pub fn program(bins: &str, url: &str, net: &str, data: &str, rest: &[String]) -> Child {
    Command::new(format!("{bins}/zkasper_cli")).env_remove("BEACON_RPC_URL").env_remove("LOG_LEVEL").env_remove("RUST_LOG").env("GUEST_DIR", bins)
        .args(["--beacon-api", url, "--network", net, "--data-dir", data, "--log-level", "error"]).args(rest)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(if std::env::var("DRIVER_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn().expect("DRIVER-ERROR spawn")
}
/// A chain and what it is: the network, its finalized epochs that can be proven, epochs with few votes.
pub fn stage(rng: &mut Rng) -> Option<(Life, &'static str, Vec<u64>, Vec<u64>)> {
    let net = *rng.pick(&["mainnet", "sepolia"]);
    let spec = if net == "mainnet" { chainspec::mainnet_spec() } else { chainspec::sepolia_spec() };
    let (electra, fulu) = (spec.electra_fork_epoch.unwrap().as_u64(), spec.fulu_fork_epoch.unwrap().as_u64());
    let base = match rng.below(4) { 0 => electra + rng.range(3, 200), 1 => fulu + rng.range(0, 500), _ => fulu - rng.range(1, 7) };
    let calm = rng.chance(1, 2); // exits only without empty boundaries: no history the guest is known not to follow
    let st = Style { exits: if calm { rng.below(3) } else { 0 }, cons: false, eject: false, pending: calm && rng.chance(1, 2), skips: if calm { 0 } else { rng.range(1, 2) as usize }, gap: 0, late: 3, luck: *rng.pick(&[0, 1, 2, 2, 4]) };
    let n = rng.range(40, 70) as usize;
    let mut l = { let k = rng.range(8, 12); live::<E>(rng, spec, base, k, n, st) };
    for s in l.snaps.values_mut() { for v in &mut s.reg.vals { v.slashed = false; } }
    let body = electra::BeaconBlock::default().body.hash_tree_root().unwrap();
    for h in l.chain.headers.values_mut() { h.body_root = body; }
    l.rename();
    let mut fs: Vec<u64> = l.chain.states.iter().map(|s| s.f.0).filter(|f| *f > base && l.snaps.contains_key(&l.boundary(*f))).collect();
    fs.dedup();
    if fs.is_empty() { return None; }
    for e in base + 1..=l.chain.head / SPE { let s = l.boundary(e); if l.snaps.contains_key(&s) { l.clean.insert(s); l.seal(e); } }
    let (limit, few) = if net == "sepolia" { (70, [80, 78, 70]) } else { (85, [93, 90, 80]) };
    let part = if rng.chance(1, 2) { 100 } else { *rng.pick(&few) };
    let mut weak = vec![];
    for e in fs[0]..=l.chain.head / SPE { l.vote::<E>(rng, e, part); let (a, all) = l.share[&e]; if a * 100 < all * (limit + 6) { weak.push(e); } }
    Some((l, net, fs, weak))
}
pub fn one(seed: u64, bins: &str, dir: &str, stats: &mut BTreeMap<String, usize>) -> Value {
    let rng = &mut Rng(seed);
    let Some((l, net, fs, weak)) = stage(rng) else { return Value::Null };
    let base = l.chain.base;
    let names = Names::new(&l);
    let data = format!("{dir}/data");
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    listener.set_nonblocking(true).unwrap();
    let url = format!("http://{}/", listener.local_addr().unwrap());
    // some states are already there
    let states = format!("{data}/{net}/states");
    if rng.chance(1, 2) {
        std::fs::create_dir_all(&states).unwrap();
        let p = FileProvider::<E>::new(&states).unwrap();
        for e in base..=l.chain.head / SPE { for s in [e * SPE, l.boundary(e), 0] { if rng.chance(1, 2) { if let Some(s) = l.state(s) { let _ = p.save_state(&s); } } } }
    }
    let f0 = if rng.chance(1, 6) { rng.range(base + 1, l.chain.head / SPE) } else { fs[rng.below(fs.len().min(3))] };
    let mode = *rng.pick(&["build", "continuous", "continuous", "verify", "sync"]);
    let grow = mode != "verify" && mode != "sync" && rng.chance(1, 3);
    let mut head = if grow { ((f0 + rng.range(0, 3)) * SPE).clamp(base * SPE, l.chain.head) } else { l.chain.head };
    let wrong = rng.chance(1, 4).then(|| (rng.range(1, 250) as usize, *rng.pick(&[Wrong::Broken, Wrong::Missing, Wrong::Cut, Wrong::Nonsense])));
    let log = format!("{dir}/log/sync.txt");
    let a = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let start = f0 * SPE + 2 * SPE;
    let args = match mode {
        "build" => a(&["build-input", "--finalized-epoch", &f0.to_string(), "--retry-interval", "0"]),
        "continuous" => a(&["build-input", "--finalized-epoch", &f0.to_string(), "--continuous", "--retry-interval", "0"]),
        "verify" => a(&["verify", "--mode", "r0vm", "--trusted-epoch", &f0.to_string()]),
        _ => a(&["sync", "--mode", "r0vm", "--start-slot", &start.to_string(), "--log-path", &log]),
    };
    let r = serve(&l, &listener, program(bins, &url, net, &data, &args), &mut head, wrong, 3);
    // what it left
    let (ins, js) = (format!("{data}/{net}/inputs"), format!("{data}/{net}/journals"));
    let (a, b) = (listing(&ins), listing(&js));
    let epoch = |n: &str, end: &str| n.strip_suffix(end).and_then(|e| e.parse::<i64>().ok()).unwrap_or(-1);
    let mut pairs = vec![];
    for n in &a {
        let e = epoch(n, "_stdin.bin");
        let input = std::fs::read(format!("{ins}/{n}")).unwrap();
        let journal = std::fs::read(format!("{js}/{e}_journal.bin")).unwrap_or_default();
        let mut c = Command::new(format!("{bins}/{net}")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("DRIVER-ERROR spawn");
        let mut i = c.stdin.take().unwrap();
        let t = std::thread::spawn(move || { let _ = i.write_all(&input); });
        let mut out = vec![];
        c.stdout.take().unwrap().read_to_end(&mut out).unwrap();
        let code = c.wait().unwrap().code().unwrap_or(-1);
        t.join().unwrap();
        pairs.push(json!({"e": e, "exit": code, "out": hex(&out), "journal": hex(&journal), "words": words(&names, &journal)}));
    }
    let alone: Vec<i64> = b.iter().map(|n| epoch(n, "_journal.bin")).filter(|e| !a.contains(&format!("{e}_stdin.bin"))).collect();
    let lines: Vec<Value> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|x| {
        let to = x.split(" -> ").nth(1).and_then(|t| t.split('\t').next()).unwrap_or("");
        let cp = |c: C| z_core::Checkpoint::new(c.0.into(), root(c.1));
        let k = l.chain.states.iter().position(|s| format!("{:?}", z_core::ConsensusState::new(cp(s.j), cp(s.f))) == to).map(|k| l.chain.state(base + k as u64).clone());
        json!({"ok": x.ends_with("\tOk"), "to": k.map(|s| json!([s.j, s.f])).unwrap_or(json!([[0, 0], [0, 0]]))})
    }).collect();
    let s0 = l.chain.state(base).clone();
    *stats.entry(format!("{mode} exit {}", r.code)).or_default() += 1;
    *stats.entry("pairs".into()).or_default() += pairs.len();
    *stats.entry("requests".into()).or_default() += r.asked;
    if r.hung { *stats.entry("hung".into()).or_default() += 1; }
    json!({"seed": seed.to_string(), "net": net, "spe": SPE, "base": base, "head": l.chain.head, "start": {"j": s0.j, "pj": s0.pj, "f": s0.f, "b": s0.b}, "bits": l.chain.bits,
        "roots": (base - 2..=l.chain.head / SPE).map(|e| json!([l.chain.root_of(e), l.boundary(e)])).collect::<Vec<_>>(),
        "states": l.chain.states.iter().map(|s| json!([s.j, s.f])).collect::<Vec<_>>(),
        "mode": mode, "f0": f0, "sync": start / SPE, "grow": grow, "fault": r.wrong, "weak": weak, "exit": r.code, "hung": r.hung,
        "pairs": pairs, "alone": alone, "log": lines})
}
struct Gone(String);
impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let bins = std::env::var("DRIVER_BIN").expect("DRIVER-ERROR DRIVER_BIN");
    let n = if thorough { 480 } else { 160 };
    let work = std::sync::atomic::AtomicU64::new(0);
    let done = std::sync::Mutex::new((BTreeMap::new(), BTreeMap::<String, usize>::new()));
    let scratch = format!("{}/vcli-{}", if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { dir }, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let _gone = Gone(scratch.clone());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = work.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= n { break; }
                if std::env::var("DRIVER_ONE").is_ok_and(|o| o != i.to_string()) { continue; }
                let mut st = BTreeMap::new();
                let d = format!("{scratch}/{i}");
                std::fs::create_dir(&d).unwrap();
                let v = one(seed.wrapping_mul(1_000_003).wrapping_add(i), &bins, &d, &mut st);
                std::fs::remove_dir_all(&d).unwrap();
                let mut g = done.lock().unwrap();
                if v != Value::Null { g.0.insert(i, v); }
                for (k, c) in st { *g.1.entry(k).or_default() += c; }
            });
        }
    });
    let g = done.into_inner().unwrap();
    let mut out = Out::new(dir, "trace.ndjson");
    for v in g.0.into_values() { out.line(v); }
    std::fs::write(format!("{dir}/stats.json"), serde_json::to_string(&g.1).unwrap()).unwrap();
}
