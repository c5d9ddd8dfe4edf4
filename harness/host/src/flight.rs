//! From a chain to a guest input and through the guest's reader (C19), and what the host says about the chain (C22).
use crate::life::*;
use crate::sim::*;
use crate::util::*;
use crate::world::FAR;
use beacon_types::{ChainSpec, EthSpec, ForkName, MainnetEthSpec};
use futures::executor::block_on;
use host::{HostInputReader, PreflightInputReader};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use z_core::{Config, ConsensusState, GuestInput, InputReader};

pub struct Names { roots: HashMap<[u8; 32], u32>, mixes: HashMap<[u8; 32], u32>, keys: HashMap<Vec<u8>, u32> }
impl Names {
    pub fn new(l: &Life) -> Names {
        Names {
            roots: l.chain.headers.keys().map(|s| (root(*s as u32 + 1).0, *s as u32 + 1)).collect(),
            mixes: l.mixes.values().map(|t| (crate::world::mix(*t).0, *t)).collect(),
            keys: (0..400).map(|k| (bls::PublicKey::from_seed(k).serialize().to_vec(), k as u32)).collect(),
        }
    }
    fn mix(&self, b: &[u8]) -> u32 { if b == [0; 32] { 0 } else { b.try_into().ok().and_then(|b: [u8; 32]| self.mixes.get(&b)).copied().unwrap_or(99999) } }
    pub fn root(&self, b: &[u8; 32]) -> u32 { self.roots.get(b).copied().unwrap_or(0) }
    fn key(&self, k: &bls::PublicKey) -> u32 { self.keys.get(k.serialize().as_slice()).copied().unwrap_or(99999) }
    fn cs(&self, s: &ConsensusState) -> Value {
        let c = |c: z_core::Checkpoint| json!([d(c.epoch().as_u64()), self.root(&c.root().0)]);
        json!([c(s.current_justified_checkpoint()), c(s.finalized_checkpoint())])
    }
}
fn jv(v: &crate::world::Val) -> Value { json!([v.key, d(v.bal), v.slashed, d(v.aee), d(v.act), d(v.exit)]) }
fn none() -> Value { json!([[d(0), 0], [d(0), 0]]) }
fn said(n: &Names, r: &Option<Result<(ConsensusState, u64), String>>) -> Value {
    match r {
        Some(Ok((s, slot))) => json!({"ok": true, "err": "", "cs": n.cs(s), "slot": d(*slot)}),
        Some(Err(e)) => json!({"ok": false, "err": clean(e), "cs": none(), "slot": d(0)}),
        None => json!({"ok": false, "err": "panic", "cs": none(), "slot": d(0)}),
    }
}
fn clean(e: &str) -> String { e.chars().filter(|c| c.is_ascii() && !"\"\\<>".contains(*c) && !c.is_control()).take(120).collect() }
fn factors(n: u64) -> Vec<u64> {
    match n { 1_000_000_000 => vec![1000; 3], 65536 => vec![256; 2], n => vec![n] }
}
pub fn config(look: u64) -> Config {
    Config { min_version: ForkName::ALL[5], max_version: ForkName::ALL[6], epoch_lookahead_limit: look.into(), justification_threshold_factor: 85, justification_threshold_quotient: 100 }
}
/// Everything about one trusted checkpoint.
pub fn flight<E: EthSpec + serde::Serialize + serde::de::DeserializeOwned>(rng: &mut Rng, l: &Life, t: C, look: u64, twist: u64) -> Value {
    let spe = l.chain.spe;
    let names = Names::new(l);
    let trusted = z_core::Checkpoint::new(t.0.into(), root(t.1));
    let slot = l.boundary(t.0);
    let snap = &l.snaps[&slot];
    let s = &l.spec;
    let mut v = json!({
        "spe": spe, "ephv": E::epochs_per_historical_vector(), "maxlook": s.max_seed_lookahead.as_u64(), "minlook": s.min_seed_lookahead.as_u64(),
        "trusted": [d(t.0), t.1], "slot": d(slot), "fin": d(snap.fin.0), "ee": d(snap.reg.ee), "ce": d(snap.reg.ce), "gvr": l.gvr,
        "vals": snap.reg.vals.iter().map(jv).collect::<Vec<_>>(),
        "at": (t.0..=(t.0 + look + 1).min(l.chain.head / spe)).map(|e| json!([d(e), l.snaps[&(e * spe)].reg.vals.iter().map(jv).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "mixes": l.mixes.iter().map(|(i, t)| json!([i, t])).collect::<Vec<_>>(),
        "roots": (l.chain.base - 2..=l.chain.head / spe).map(|e| json!([d(e), l.chain.root_of(e), d(l.boundary(e))])).collect::<Vec<_>>(),
        "forkv": (0..8).filter_map(|o| s.fork_epoch(ForkName::ALL[o]).map(|e| json!([o, d(e.as_u64()), ver(&s.fork_version_for_name(ForkName::ALL[o]))]))).collect::<Vec<_>>(),
        "versions": (0..8).map(|o| ver(&s.fork_version_for_name(ForkName::ALL[o]))).collect::<Vec<_>>(),
        "minact": d(s.min_activation_balance), "minchurn": d(s.min_per_epoch_churn_limit_electra), "churnq": factors(s.churn_limit_quotient),
        "incr": d(s.effective_balance_increment), "incrq": factors(s.effective_balance_increment),
        "look": look,
    });
    let mut twice = json!({"tried": false, "same": true});
    (v["twice"], v["faulty"]) = (twice.clone(), json!([]));
    let empty = json!({"patches": [], "keys": [], "slots": [], "cs": none(), "natt": 0});
    (v["links"], v["facts"], v["sent"], v["guest"], v["bytes"], v["pre"]) = (json!([]), json!([]), empty, said(&names, &None), json!(0), none());
    l.reads.borrow_mut().clear();
    let made = caught(|| block_on(HostInputReader::<E, _, _>::new(s.clone(), Lives::<E>(l, PhantomData), &l.chain, trusted)));
    let reader = match made {
        Some(Ok(r)) => r,
        r => {
            let e = match r { Some(Err(e)) => format!("search: {e}"), _ => "search: panic".into() };
            v["host"] = said(&names, &Some(Err(e)));
            return v;
        }
    };
    let pre = reader.consensus_state().unwrap();
    v["facts"] = facts::<E, _>(rng, l, t, look, &reader, &names);
    let flight = PreflightInputReader::new(&reader, &l.chain, trusted);
    let host = caught(|| z_core::verify(&config(look), &flight).map_err(|e| format!("{e}")));
    v["host"] = said(&names, &host);
    v["pre"] = names.cs(&pre);
    let atts: Vec<_> = reader.attestations().unwrap().cloned().collect();
    let mut links: Vec<Value> = atts.iter().map(|a| {
        let c = |c: beacon_types::Checkpoint| json!([d(c.epoch.as_u64()), names.root(&c.root.0)]);
        json!([c(a.data().source), c(a.data().target)])
    }).collect();
    links.dedup();
    v["links"] = json!(links);
    if !matches!(host, Some(Ok(_))) { return v; }
    // the same with a state that cannot be had: an error, or nothing different
    let reads: Vec<u64> = l.reads.borrow().iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    if twist % 4 == 1 {
        l.missing.set(Some(reads[(twist / 4) as usize % reads.len()]));
        let r = caught(|| {
            let r = block_on(HostInputReader::<E, _, _>::new(s.clone(), Lives::<E>(l, PhantomData), &l.chain, trusted)).map_err(|e| format!("{e}"))?;
            z_core::verify(&config(look), &PreflightInputReader::new(&r, &l.chain, trusted)).map_err(|e| format!("{e}"))
        });
        l.missing.set(None);
        v["faulty"] = json!([said(&names, &r)]);
    }
    // an input built again, the first time perhaps without one of the states
    let first = if twist % 2 == 0 {
        if twist % 4 == 0 { l.missing.set(Some(reads[(twist / 4) as usize % reads.len()])); }
        let r = caught(|| flight.to_input());
        l.missing.set(None);
        twice["tried"] = json!(true);
        r.and_then(|r| r.ok()).map(|i| bincode::serialize(&i).unwrap())
    } else { None };
    let input = match caught(|| flight.to_input()) {
        Some(Ok(i)) => i,
        Some(Err(e)) => { v["guest"] = said(&names, &Some(Err(format!("no input: {e}")))); return v; }
        None => { v["guest"] = said(&names, &Some(Err("no input: panic".into()))); return v; }
    };
    v["sent"] = json!({
        "patches": input.patches.iter().map(|(e, p)| json!({"e": d(e.as_u64()),
            "mixes": p.randao_mixes.iter().map(|(i, m)| json!([*i as u64, names.mix(m.as_slice())])).collect::<Vec<_>>(),
            "exits": p.validator_exits.iter().map(|(i, x)| json!([*i as u64, d(x.as_u64())])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "keys": input.public_keys.iter().map(|k| names.key(k)).collect::<Vec<_>>(),
        "slots": input.block_slot_proofs.iter().map(|p| json!(names.root(&p.calculate_root().unwrap().into()))).collect::<Vec<_>>(),
        "cs": names.cs(&input.consensus_state), "natt": input.attestations.len(),
    });
    let bytes = bincode::serialize(&input).unwrap();
    v["bytes"] = json!(bytes.len());
    if first.is_some_and(|f| f != bytes) { twice["same"] = json!(false); }
    v["twice"] = twice;
    let guest = caught(|| {
        let input: GuestInput<E> = bincode::deserialize(&bytes).map_err(|e| format!("deserialize: {e}"))?;
        let r = input.into_reader(s.clone()).map_err(|e| format!("{e}"))?;
        z_core::verify(&config(look), &r).map_err(|e| format!("{e}"))
    });
    v["guest"] = said(&names, &guest);
    v
}
fn ver(v: &[u8; 4]) -> Value { json!([u16::from_le_bytes([v[2], v[3]]), u16::from_le_bytes([v[0], v[1]])]) }
/// What the reader says about the chain, asked in any order and repeatedly.
fn facts<E: EthSpec, R: InputReader<Spec = E>>(rng: &mut Rng, l: &Life, t: C, look: u64, r: &R, n: &Names) -> Value {
    let top = (t.0 + look + 1).min(l.chain.head / l.chain.spe);
    let mut out = vec![];
    for _ in 0..rng.range(3, 9) {
        let e = if rng.chance(1, 3) { t.0 } else { rng.range(t.0, top) };
        out.push(match rng.below(5) {
            0 | 1 => {
                let vs = r.active_validators(e.into()).ok().map(|it| it.map(|(i, v)| json!([i, n.key(&v.pubkey), d(v.effective_balance), v.slashed,
                    d(v.activation_eligibility_epoch.as_u64()), d(v.activation_epoch.as_u64()), d(v.exit_epoch.as_u64())])).collect::<Vec<_>>());
                json!({"k": "active", "e": d(e), "ok": vs.is_some(), "vals": vs.unwrap_or_default()})
            }
            2 => {
                let ephv = E::epochs_per_historical_vector() as u64;
                let i = *rng.pick(&[(e + ephv - 2) % ephv, e % ephv, ephv - 1, 0, ephv]);
                let m = r.randao_mix(e.into(), i as _).ok();
                let got = match m { None => -2, Some(None) => -1, Some(Some(m)) => n.mix(m.as_slice()) as i64 };
                json!({"k": "mix", "e": d(e), "i": i, "m": got})
            }
            3 => {
                let f = r.fork(e.into()).ok();
                json!({"k": "fork", "e": d(e), "ok": f.is_some(), "f": f.map(|f| json!([ver(&f.previous_version), ver(&f.current_version), d(f.epoch.as_u64())])).unwrap_or(json!([[0, 0], [0, 0], d(0)])),
                    "gvr": r.genesis_validators_root().map(|g| if g == root(l.gvr) { l.gvr } else { 0 }).unwrap_or(0)})
            }
            _ => {
                let tok = if rng.chance(1, 8) { 4_000_000_001 } else { l.chain.root_of(rng.range(l.chain.base, top)) };
                let s = caught(|| r.slot_for_block(&root(tok)).ok()).flatten();
                json!({"k": "slot", "root": tok, "ok": s.is_some(), "slot": d(s.unwrap_or(0))})
            }
        });
    }
    json!(out)
}
pub fn schedule(rng: &mut Rng, base: u64) -> ChainSpec {
    let mut s = ChainSpec::mainnet();
    for k in 1..5 { s.set_fork_epoch(ForkName::ALL[k], Some(0u64.into())); }
    let e = match rng.below(3) { 0 => base - 3, 1 => base.saturating_sub(100), _ => 0 };
    s.set_fork_epoch(ForkName::ALL[5], Some(e.into()));
    s.set_fork_epoch(ForkName::ALL[6], match rng.below(4) { 0 => None, 1 => Some((base - 3).max(e).into()), _ => Some((base + rng.range(2, 9)).into()) });
    s.set_fork_epoch(ForkName::ALL[7], None);
    if rng.chance(1, 2) { s.churn_limit_quotient = *rng.pick(&[2u64, 8, 32]); }
    s
}
fn one<E: EthSpec + serde::Serialize + serde::de::DeserializeOwned>(seed: u64, stats: &mut BTreeMap<String, usize>) -> Vec<Value> {
    let rng = &mut Rng(seed);
    let base = *rng.pick(&[3u64, 10, 65530, 411392 - 4, 1000]);
    let mut st = Style {
        exits: rng.below(3), cons: rng.chance(1, 4), eject: rng.chance(1, 6), pending: rng.chance(1, 2),
        skips: rng.below(3), gap: 0, late: 4, luck: *rng.pick(&[0usize, 0, 1, 2]),
    };
    let n = rng.range(20, 70) as usize;
    let mut spec = schedule(rng, base);
    match rng.below(8) {
        0 => { (st.cons, st.exits) = (true, 2); spec.churn_limit_quotient = 2; }
        1 => (st.eject, st.skips, st.exits) = (true, 2, rng.below(2)),
        _ => {}
    }
    // a verification configured to look further ahead sees exits take effect
    let look = if rng.chance(1, 3) { rng.range(6, 10) } else { 4 };
    if look > 4 {
        (st.luck, st.late, st.gap) = (0, 0, rng.range(3, 7) as usize); st.exits = rng.range(1, 2) as usize; st.pending &= rng.chance(1, 5); }
    let mut l = live::<E>(rng, spec, base, if look > 4 { 20 } else { 12 }, n, st);
    let mut fs: Vec<C> = l.chain.states.iter().map(|s| s.f).filter(|f| f.0 > base && l.snaps.contains_key(&l.boundary(f.0))).collect();
    fs.dedup();
    if fs.is_empty() { return vec![]; }
    let t = if st.gap > 0 && rng.chance(4, 5) { *fs.iter().filter(|f| f.0 < base + 3).next_back().unwrap_or(&fs[0]) } else { *rng.pick(&fs[..fs.len().min(5)]) };
    l.seal(t.0);
    let part = if st.gap > 0 { 100 } else { *rng.pick(&[100, 100, 100, 100, 97, 88]) };
    for e in t.0..=(t.0 + look + 1).min(l.chain.head / l.chain.spe) { l.vote::<E>(rng, e, part); }
    let v = flight::<E>(rng, &l, t, look, seed % 32);
    let k = if v["host"]["ok"] == json!(true) { if v["guest"]["ok"] == json!(true) { if look > 4 { "accepted, far".to_string() } else { "accepted".to_string() } } else { format!("refused: {}", v["guest"]["err"].as_str().unwrap()) } } else { format!("host: {}", &v["host"]["err"].as_str().unwrap().chars().take(22).collect::<String>()) };
    *stats.entry(k).or_default() += 1;
    let mut v = v;
    v["seed"] = json!(seed.to_string());
    if st.exits > 0 { *stats.entry("with exits".into()).or_default() += 1; }
    if v["twice"]["tried"] == json!(true) { *stats.entry("built twice".into()).or_default() += 1; }
    if let Some(f) = v["faulty"].get(0) { *stats.entry(format!("missing state: {}", if f["ok"] == json!(true) { "same" } else { "refused" })).or_default() += 1; }
    if l.boundary(t.0) < t.0 * l.chain.spe { *stats.entry("skipped boundary".into()).or_default() += 1; }
    vec![v]
}
const FIXED: [u64; 3] = [1000351, 1001098, 1001994];
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let n = if thorough { 2400 } else { 480 };
    let mut out = Out::new(dir, "trace.ndjson");
    let work = std::sync::atomic::AtomicU64::new(0);
    let done = std::sync::Mutex::new((BTreeMap::new(), BTreeMap::<String, usize>::new()));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = work.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= n { break; }
                let n0 = i;
                let mut st = BTreeMap::new();
                let k = seed.wrapping_mul(1_000_003).wrapping_add(i);
                // the first ones are always the same: one of each history the guest is known not to follow
                let (i, k) = if i < FIXED.len() as u64 { ((FIXED[i as usize] - 1_000_003) % 6, FIXED[i as usize]) } else { (i, k) };
                let v = if i % 6 == 0 { one::<MainnetEthSpec>(k, &mut st) } else { one::<ShortSpec>(k, &mut st) };
                let mut g = done.lock().unwrap();
                g.0.insert(n0, v);
                for (k, c) in st { *g.1.entry(k).or_default() += c; }
            });
        }
    });
    let g = done.into_inner().unwrap();
    for v in g.0.into_values().flatten() { out.line(v); }
    std::fs::write(format!("{dir}/stats.json"), serde_json::to_string(&g.1).unwrap()).unwrap();
    let _ = FAR;
}
