//! The shipped guest programs, run as processes on complete inputs.
use crate::guest::{self, Trees, Truth, ETH};
use crate::scen;
use crate::ssz::*;
use crate::util::*;
use crate::world::*;
use beacon_types::{ChainSpec, EthSpec, ForkName};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
type E = z_core::MainnetEthSpec;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Net { Mainnet, Sepolia }
impl Net {
    /// The network's fork schedule (epochs and versions), as published.
    pub fn spec(self) -> ChainSpec {
        let mut s = E::default_spec();
        let t: [u64; 6] = match self {
            Net::Mainnet => [74240, 144896, 194048, 269568, 364032, 411392],
            Net::Sepolia => [50, 100, 56832, 132608, 222464, 272640],
        };
        for (k, e) in t.iter().enumerate() { s.set_fork_epoch(ForkName::ALL[k + 1], Some((*e).into())); }
        s.set_fork_epoch(ForkName::Gloas, None);
        let v = |k: u8| match self { Net::Mainnet => [k, 0, 0, 0], Net::Sepolia => [0x90, 0, 0, if k == 0 { 0x69 } else { 0x6f + k }] };
        s.genesis_fork_version = v(0);
        s.altair_fork_version = v(1);
        s.bellatrix_fork_version = v(2);
        s.capella_fork_version = v(3);
        s.deneb_fork_version = v(4);
        s.electra_fork_version = v(5);
        s.fulu_fork_version = v(6);
        s
    }
    pub fn forks(self) -> (u64, u64) { match self { Net::Mainnet => (364032, 411392), Net::Sepolia => (222464, 272640) } }
    pub fn name(self) -> &'static str { match self { Net::Mainnet => "mainnet", Net::Sepolia => "sepolia" } }
}
pub fn base_epoch(rng: &mut Rng, net: Net) -> u64 {
    let (e, f) = net.forks();
    let other = match net { Net::Mainnet => Net::Sepolia, Net::Sepolia => Net::Mainnet };
    match rng.below(10) {
        0 => e - rng.range(0, 6),
        1 | 2 => e + rng.range(0, 3),
        3 | 4 => f - rng.range(1, 7),
        5 => f + rng.range(0, 2),
        6 => rng.range(e, f),
        7 => other.forks().0 - rng.range(0, 4),
        8 => other.forks().1 - rng.range(0, 4),
        _ => rng.range(f, f + 300000),
    }
}
pub struct Input {
    pub w: World,               // votes and chain
    pub g: guest::World<E>,     // the input that proves it
}
/// A registry: what the state says and what the chain makes of it.
fn registry(rng: &mut Rng, n: usize, base: u64, cs: S, back: u64) -> (Vec<Val>, Vec<(u64, u64)>) {
    let steady = rng.chance(1, 4);
    let mut v = scen::registry(rng, n, base, steady);
    let se = (base * 32 - back) / 32;
    let mut raw = vec![];
    for x in v.iter_mut() {
        if rng.chance(1, 12) {
            // in the activation queue of the proven state
            let fin = se - 2;
            let aee = *rng.pick(&[fin, fin - 1, se, se + 1, FAR]);
            raw.push((aee, FAR));
            (x.aee, x.act) = (aee, FAR);
            for e in se..=cs.0 .0 {
                let fin = if e < cs.0 .0 { fin } else { base };
                if x.aee == FAR && x.bal >= 32 * ETH { x.aee = e + 1; }
                if x.aee <= fin && x.act == FAR { x.act = e + 5; }
            }
        } else {
            x.aee = x.act.saturating_sub(7);
            raw.push((x.aee, x.act));
        }
    }
    (v, raw)
}
pub fn make(rng: &mut Rng, net: Net, prop: &'static str, kind: &str, twist: Option<&str>) -> Option<Input> {
    let base = base_epoch(rng, net);
    let mut w = World::shape::<E>(net.spec());
    (w.fac, w.quo) = match net { Net::Mainnet => (85, 100), Net::Sepolia => (70, 100) };
    // votes that reach the threshold of the other network, or the least the guest could ask
    let (fac, quo) = match rng.below(8) { 0 => (70, 100), 1 => (2, 3), 2 => (84, 100), _ => (w.fac, w.quo) };
    w.gvr = 900 + rng.range(0, 3) as u32;
    w.cs = ((base + *rng.pick(&[1u64, 1, 1, 1, 2]), 10), (base, 11));
    let n = match rng.below(6) { 0 => rng.range(1, 12), 1 => rng.range(60, 90), _ => rng.range(20, 50) } as usize;
    let back = match rng.below(5) { 0 => rng.range(1, 3), 1 => rng.range(32, 40), _ => 0 };
    let (vals, raw) = registry(rng, n, base, w.cs, back);
    w.vals = vals;
    let before = w.vals.clone();
    (w.fac, w.quo) = (fac, quo);
    let (mut w, _, _) = scen::scenario_in(rng, w, base, prop, kind, true);
    (w.fac, w.quo) = match net { Net::Mainnet => (85, 100), Net::Sepolia => (70, 100) };
    let exits = rng.chance(1, 3);
    prove(rng, w, &before, &raw, back, exits, twist)
}
/// The state and blocks that prove a world (whose activations were `before`, from `raw` eligibility and activation epochs).
pub fn prove(rng: &mut Rng, w: World, before: &[Val], raw: &[(u64, u64)], back: u64, exits: bool, twist: Option<&str>) -> Option<Input> {
    let base = w.cs.1 .0;
    let slot = base * 32 - back;
    let fk = w.spec.fork_at_epoch((slot / 32).into());
    let vals = w.vals.iter().enumerate().map(|(i, v)| {
        let (aee, act) = if v.act == before[i].act { raw[i] } else { (v.aee, v.act) };
        ValRec { key: guest::key(v.key as u64), bal: v.bal, slashed: v.slashed, aee, act, exit: v.exit }
    }).collect();
    let st = StateRec {
        gvr: root(w.gvr).0, slot, fork: (fk.previous_version, fk.current_version, fk.epoch.as_u64()),
        fin: slot / 32 - 2, eee: base + rng.range(0, 9), ece: base + rng.range(0, 9), salt: rng.next() % 100000,
    };
    let t = Truth { vals, st, block_slot: slot };
    // what the driver believed about activations must be what the chain does
    let rolled = guest::rolled(&t, 32, w.cs);
    for e in base + 1..=base + 4 {
        if (0..w.vals.len()).any(|i| w.vals[i].active(e) != (rolled[i].act <= e && e < rolled[i].exit)) { return None; }
    }
    let mut g = guest::World::<E>::new(&w.spec, w.cs, t);
    g.c.ask.clear();
    // randomness, and the exits a chain may add (too late to matter within the lookahead)
    let mut seen: Vec<u64> = w.mixes.keys().map(|k| k.0).filter(|e| *e >= base).collect();
    seen.dedup();
    if exits { g.c.patches = guest::honest_patches(rng, &w.spec, &g.t, 32, w.cs, &seen, 30); }
    for ((e, i), t) in w.mixes.range((base, 0)..) { g.c.patches.entry(*e).or_default().0.insert(*i, *t); }
    // the blocks whose slots are proven
    let mut roots: HashMap<u32, _> = HashMap::new();
    for (name, slot) in &w.slots {
        if *name == 11 || roots.contains_key(name) { continue; }
        let b = block_tree(*slot, sha(&[b"block", &name.to_le_bytes()]), rng.next() % 1000);
        roots.insert(*name, b.root().into());
        g.c.slots.push(b.prove(&[8].into()));
    }
    if w.slots.iter().any(|s| s.0 == 11) { let p = g.tr.b.prove(&[8].into()); g.c.slots.push(p); }
    rng.shuffle(&mut g.c.slots);
    if let Some(k) = twist { guest::mutate(rng, &mut g, k); }
    g.c.roots.extend(roots);
    name_roots(g.c.roots.clone());
    g.c.atts = w.atts.iter().map(|a| w.real(a)).collect();
    let _ = Trees::of;
    Some(Input { w, g })
}
/// Exit status and journal of a guest program.
pub fn execute(bin: &str, frame: &[u8]) -> (i32, Vec<u8>) {
    let mut p = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("DRIVER-ERROR spawn");
    let mut i = p.stdin.take().unwrap();
    let mut o = p.stdout.take().unwrap();
    let f = frame.to_vec();
    let t = std::thread::spawn(move || { let _ = i.write_all(&(f.len() as u32).to_le_bytes()); let _ = i.write_all(&f); });
    let mut out = vec![];
    o.read_to_end(&mut out).expect("DRIVER-ERROR read");
    let s = p.wait().expect("DRIVER-ERROR wait");
    t.join().unwrap();
    (s.code().unwrap_or(-1), out)
}
pub fn frame(c: &guest::Case<E>) -> Vec<u8> {
    guest::with_input(c, |i| bincode::serialize(&i).expect("DRIVER-ERROR serialize"))
}
pub fn record(x: &Input, net: Net, code: i32, out: &[u8]) -> Value {
    name_roots(x.g.c.roots.clone());
    let mut tok = guest::Tok::new();
    let mut v = guest::describe(&x.g.c, &mut tok);
    let w = x.w.json();
    for k in ["cs", "shuf", "msgs", "atts"] { v[k] = w[k].clone(); }
    // names of roots, numbers of keys
    let mut names: BTreeSet<u32> = [0, x.w.gvr].into();
    names.extend([x.w.cs.0 .1, x.w.cs.1 .1]);
    for a in &x.w.atts {
        names.extend([a.src.1, a.tgt.1]);
        names.extend(a.sig.iter().flat_map(|s| [s.1.src.1, s.1.tgt.1, s.1.gvr]));
    }
    names.extend(x.w.slots.iter().map(|s| s.0));
    v["names"] = names.iter().map(|n| json!([n, tok.get(&root(*n).0)])).collect();
    v["pk"] = (1..=x.w.vals.len() as u64 + 1).map(|k| { let t = tok.key(&guest::key(k)); json!([t, k]) }).collect();
    v["net"] = json!(net.name());
    v["exit"] = json!(code);
    v["len"] = json!(out.len());
    v["words"] = if out.len() == 288 {
        out.chunks(32).map(|c| {
            let h: [u8; 32] = c.try_into().unwrap();
            let small = h[..24].iter().all(|b| *b == 0);
            json!([tok.get(&h), small, d(u64::from_be_bytes(h[24..].try_into().unwrap()))])
        }).collect()
    } else { json!([]) };
    v
}
const TWISTS: &[&str] = &["block-other", "block-tamper", "state-other", "state-tamper", "vlist-other", "vlist-tamper", "slot-moved", "slot-tamper",
    "next-block", "trusted-other", "omit-active", "key-swap", "key-missing", "past", "early", "over", "missing", "change", "unexit", "swapped", "slots", "edge"];
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let bins = std::env::var("DRIVER_BIN").expect("DRIVER-ERROR DRIVER_BIN");
    let mut plan: Vec<(&'static str, &str, Option<&str>)> = vec![];
    for (p, ks) in [("C03", scen::C03), ("C04", scen::C04), ("C05", scen::C05)] {
        for k in ks { if !["two-thirds"].contains(k) { plan.push((p, k, None)); } }
    }
    for k in ["mix-shift", "mix-view", "plain"] { plan.push(("C14", k, None)); }
    for _ in 0..24 { plan.push(("C06", "plain", None)); plan.push(("C15", "plain", None)); }
    for p in ["C03", "C04", "C05", "C05", "C14"] { for _ in 0..8 { plan.push((p, "plain", None)); } }
    for k in TWISTS { plan.push(("C15", "plain", Some(k))); }
    let reps = if thorough { 24 } else { 5 };
    let jobs: Vec<_> = (0..reps).flat_map(|r| plan.iter().map(move |p| (r, *p))).enumerate().collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some((_, (_, (prop, kind, twist)))) = jobs.get(i) else { break };
                let mut rng = Rng(seed.wrapping_mul(1_000_003) ^ 0x70726f67 ^ ((i as u64) << 20));
                for net in [Net::Mainnet, Net::Sepolia] {
                    name_roots(Default::default());
                    let Some(x) = make(&mut rng, net, prop, kind, *twist) else { continue };
                    let f = frame(&x.g.c);
                    let (code, o) = execute(&format!("{bins}/{}", net.name()), &f);
                    let mut v = record(&x, net, code, &o);
                    v["focus"] = json!(prop);
                    v["kind"] = json!(twist.map(|t| format!("{kind}+{t}")).unwrap_or(kind.to_string()));
                    out.lock().unwrap().insert((i, net.name()), v);
                }
            });
        }
    });
    let mut o = Out::new(dir, "trace.ndjson");
    let mut stats: BTreeMap<String, [usize; 2]> = BTreeMap::new();
    for v in out.into_inner().unwrap().into_values() {
        stats.entry(format!("{} {}", v["net"].as_str().unwrap(), v["focus"].as_str().unwrap())).or_default()[(v["exit"] == 0) as usize] += 1;
        o.line(v);
    }
    std::fs::write(format!("{dir}/stats.json"), json!({"refused_accepted": stats}).to_string()).unwrap();
}
