//! Guest inputs, honest and not: the real GuestInput::into_reader and the reader it returns.
use crate::ssz::*;
use crate::util::*;
use crate::world::{FAR, S};
use alloy_primitives::B256;
use beacon_types::{Attestation, ChainSpec, EthSpec, ForkName, PublicKey};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use z_core::{Checkpoint, ConsensusState, GuestInput, InputReader, StatePatch};

pub type Patches = BTreeMap<u64, (BTreeMap<u32, u32>, BTreeMap<usize, u64>)>; // epoch -> mixes, exits
#[derive(Clone)]
pub struct Case<E: EthSpec> {
    pub spec: ChainSpec,
    pub cs: S,
    pub roots: HashMap<u32, B256>, // names of block roots
    pub block: Proof,
    pub state: Proof,
    pub vlist: Proof,
    pub keys: Vec<[u8; 48]>,
    pub patches: Patches,
    pub slots: Vec<Proof>,
    pub atts: Vec<Attestation<E>>,
    pub ask: Vec<u64>,
}
#[derive(Clone)]
pub struct Truth {
    pub vals: Vec<ValRec>,
    pub st: StateRec,
    pub block_slot: u64,
}
pub fn state_gs() -> BTreeSet<u64> { [65, 66, 268, 269, 270, 75, 168, 95, 97].into() }
pub fn vlist_gs(t: &Truth, trusted: u64, all: bool) -> BTreeSet<u64> {
    let mut g: BTreeSet<u64> = [3].into();
    for (i, v) in t.vals.iter().enumerate() {
        if v.exit <= trusted && !all { g.insert(vbase(i as u64) + 6); } else { g.extend(full_gs(i as u64)); }
    }
    g
}
pub struct Trees {
    pub v: Tree,
    pub s: Tree,
    pub b: Tree,
}
impl Trees {
    pub fn of(t: &Truth) -> Trees {
        let v = validators_tree(&t.vals);
        let s = state_tree(&t.st, v.root());
        let b = block_tree(t.block_slot, s.root(), t.st.salt);
        Trees { v, s, b }
    }
}
/// The input an honest prover makes.
pub fn honest<E: EthSpec>(spec: &ChainSpec, cs: S, t: &Truth) -> Case<E> {
    let tr = Trees::of(t);
    let trusted = cs.1 .0;
    Case {
        spec: spec.clone(),
        cs,
        roots: HashMap::from([(cs.1 .1, tr.b.root().into())]),
        block: tr.b.prove(&[11].into()),
        state: tr.s.prove(&state_gs()),
        vlist: tr.v.prove(&vlist_gs(t, trusted, false)),
        keys: t.vals.iter().filter(|v| v.exit > trusted).map(|v| v.key).collect(),
        patches: BTreeMap::new(),
        slots: vec![],
        atts: vec![],
        ask: (trusted.saturating_sub(1)..trusted.saturating_add(8)).collect(),
    }
}
pub fn state_of(s: S) -> ConsensusState {
    let c = |c: (u64, u32)| Checkpoint::new(c.0.into(), root(c.1));
    if s == ((0, 0), (0, 0)) { ConsensusState::default() } else { ConsensusState::new(c(s.0), c(s.1)) }
}
pub fn with_input<E: EthSpec, R>(c: &Case<E>, f: impl FnOnce(GuestInput<'_, E>) -> R) -> R {
    let bufs: Vec<Vec<u8>> = [&c.block, &c.state, &c.vlist].into_iter().chain(&c.slots).map(|p| p.bytes()).collect();
    f(GuestInput {
        beacon_block: c.block.real(&bufs[0]),
        beacon_state: c.state.real(&bufs[1]),
        active_validators: c.vlist.real(&bufs[2]),
        public_keys: c.keys.iter().map(|k| PublicKey::deserialize(k).expect("DRIVER-ERROR key")).collect(),
        patches: c.patches.iter().map(|(e, (m, x))| ((*e).into(), StatePatch {
            randao_mixes: m.iter().map(|(i, t)| (*i, crate::world::mix(*t))).collect(),
            validator_exits: x.iter().map(|(i, e)| (*i, (*e).into())).collect(),
        })).collect(),
        consensus_state: state_of(c.cs),
        attestations: c.atts.clone(),
        block_slot_proofs: c.slots.iter().zip(&bufs[3..]).map(|(p, b)| p.real(b)).collect(),
    })
}
/// Numbers the 32-byte values of a line; 0 and 1 are the chunks of these numbers.
pub struct Tok(HashMap<H, usize>);
impl Tok {
    pub fn new() -> Tok { Tok(HashMap::from([(chunk(0), 0), (chunk(1), 1)])) }
    pub fn get(&mut self, h: &H) -> usize {
        let n = self.0.len();
        *self.0.entry(*h).or_insert(n)
    }
    pub fn val(&mut self, h: &H) -> Value { json!([self.get(h), d(u64::from_le_bytes(h[..8].try_into().unwrap()))]) }
    pub fn key(&mut self, k: &[u8; 48]) -> Value {
        let mut b = [0; 32];
        b[..16].copy_from_slice(&k[32..]);
        json!([self.get(&k[..32].try_into().unwrap()), self.get(&b)])
    }
    pub fn proof(&mut self, p: &Proof) -> Value {
        let root = p.root().map(|r| self.get(&r.0) as i64).unwrap_or(-1);
        json!({"root": root, "vals": p.values().iter().map(|(g, h)| { let v = self.val(h); json!([d(*g), v[0], v[1]]) }).collect::<Vec<_>>()})
    }
    pub fn version(v: &[u8; 4]) -> Value { json!([u16::from_le_bytes([v[2], v[3]]), u16::from_le_bytes([v[0], v[1]])]) }
}
/// Small factors whose product is n (divisors beyond TLC's integers).
fn factors(n: u64) -> Vec<u64> {
    match n {
        1_000_000_000 => vec![1000; 3],
        65536 => vec![256; 2],
        n if n < 32768 => vec![n],
        n => panic!("cannot factor {n}"),
    }
}
/// What the specification needs to know about the input.
pub fn describe<E: EthSpec>(c: &Case<E>, tok: &mut Tok) -> Value {
    let s = &c.spec;
    let cp = |tok: &mut Tok, c: (u64, u32)| json!([d(c.0), tok.get(&root(c.1).0)]);
    json!({
        "spe": E::slots_per_epoch(),
        "gcs": [cp(tok, c.cs.0), cp(tok, c.cs.1)],
        "block": tok.proof(&c.block), "state": tok.proof(&c.state), "vlist": tok.proof(&c.vlist),
        "keys": c.keys.iter().map(|k| tok.key(k)).collect::<Vec<_>>(),
        "patches": c.patches.iter().map(|(e, (m, x))| json!({"e": d(*e),
            "mixes": m.iter().map(|(i, t)| json!([i, t])).collect::<Vec<_>>(),
            "exits": x.iter().map(|(i, e)| json!([i, d(*e)])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "sproofs": c.slots.iter().map(|p| tok.proof(p)).collect::<Vec<_>>(),
        "forkv": (0..8).filter_map(|o| s.fork_epoch(ForkName::ALL[o]).map(|e| json!([o, d(e.as_u64()), Tok::version(&s.fork_version_for_name(ForkName::ALL[o]))]))).collect::<Vec<_>>(),
        "versions": (0..8).map(|o| Tok::version(&s.fork_version_for_name(ForkName::ALL[o]))).collect::<Vec<_>>(),
        "minact": d(s.min_activation_balance), "maxlook": s.max_seed_lookahead.as_u64(),
        "minchurn": d(s.min_per_epoch_churn_limit_electra), "churnq": factors(s.churn_limit_quotient),
        "incr": d(s.effective_balance_increment), "incrq": factors(s.effective_balance_increment),
    })
}
/// Runs the real code and appends what it said.
pub fn judge<E: EthSpec>(c: &Case<E>, rng: &mut Rng) -> (bool, Value) {
    name_roots(c.roots.clone());
    let mut tok = Tok::new();
    let mut v = describe(c, &mut tok);
    // as the host hands it over
    let bytes = caught(|| with_input(c, |i| bincode::serialize(&i).expect("DRIVER-ERROR serialize"))).expect("DRIVER-ERROR serialize");
    let reader = caught(|| {
        let i: GuestInput<E> = bincode::deserialize(&bytes).ok()?;
        i.into_reader(c.spec.clone()).ok()
    }).flatten();
    v["ok"] = json!(reader.is_some());
    let Some(r) = reader else { return (false, v) };
    let got = caught(|| {
        let mut infos: BTreeMap<usize, Value> = BTreeMap::new();
        let mut odd = String::new();
        let mut active = vec![];
        for e in &c.ask {
            let mut l = vec![];
            for (i, x) in r.active_validators((*e).into()).unwrap() {
                let key: [u8; 48] = x.pubkey.serialize();
                let j = json!([i, tok.key(&key), d(x.effective_balance), x.slashed, d(x.activation_eligibility_epoch.into()), d(x.activation_epoch.into()), d(x.exit_epoch.into())]);
                if *infos.entry(i).or_insert(j.clone()) != j { odd = "a validator differs between epochs".into(); }
                if l.last().is_some_and(|p| *p >= i) { odd = "active validators out of order".into(); }
                l.push(i);
            }
            active.push(json!([d(*e), l]));
        }
        let mut mixes = vec![];
        let mut es: BTreeSet<(u64, u32)> = c.patches.iter().flat_map(|(e, (m, _))| m.keys().map(move |i| (*e, *i))).collect();
        // what another epoch's patch says must not matter
        let at: Vec<u64> = c.patches.keys().copied().chain(c.ask.iter().copied()).collect();
        let is: Vec<u32> = es.iter().map(|x| x.1).collect();
        if !is.is_empty() { for _ in 0..4 { es.insert((*rng.pick(&at), *rng.pick(&is))); } }
        for _ in 0..3 { es.insert((*rng.pick(&c.ask), rng.below(E::epochs_per_historical_vector()) as u32)); }
        let known: HashMap<B256, u32> = c.patches.values().flat_map(|(m, _)| m.values()).map(|t| (crate::world::mix(*t), *t)).collect();
        for (e, i) in es {
            let m = r.randao_mix(e.into(), i).unwrap();
            mixes.push(json!([d(e), i, m.map(|m| known.get(&m).map(|t| *t as i64).unwrap_or(-2)).unwrap_or(-1)]));
        }
        let mut slots = vec![];
        let mut ask: BTreeSet<B256> = c.slots.iter().filter_map(|p| p.root()).collect();
        ask.extend([root(c.cs.1 .1), root(c.cs.0 .1), root(991)]);
        ask.extend(c.roots.values());
        for q in ask {
            let s = r.slot_for_block(&q);
            slots.push(json!([tok.get(&q.0), s.is_ok(), d(s.unwrap_or(0))]));
        }
        let forks: Vec<Value> = c.ask.iter().map(|e| { let f = r.fork((*e).into()).unwrap(); json!([d(*e), Tok::version(&f.previous_version), Tok::version(&f.current_version), d(f.epoch.into())]) }).collect();
        if r.consensus_state().unwrap() != state_of(c.cs) { odd = "another consensus state".into(); }
        let atts: Vec<_> = r.attestations().unwrap().cloned().collect();
        if atts != c.atts { odd = "other attestations".into(); }
        json!({"gvr": tok.get(&r.genesis_validators_root().unwrap().0), "infos": infos.into_values().collect::<Vec<_>>(),
            "active": active, "mixes": mixes, "slots": slots, "forks": forks, "odd": odd})
    });
    match got {
        Some(g) => v["got"] = g,
        None => v["got"] = json!({"odd": "the reader panicked"}),
    }
    (true, v)
}
pub fn key(i: u64) -> [u8; 48] { PublicKey::from_seed(i).serialize() }
pub const ETH: u64 = 1_000_000_000;

/// A registry around the trusted epoch f and the justified epoch j.
pub fn registry(rng: &mut Rng, n: usize, f: u64, j: u64, fin: u64, pending: usize, exits: usize) -> Vec<ValRec> {
    let big = rng.chance(1, 3);
    (0..n).map(|i| {
        let bal = match rng.below(8) { 0 if big => 2048 * ETH, 1 => ETH * rng.range(1, 31), 2 => ETH * rng.range(33, 300), _ => 32 * ETH };
        let mut v = ValRec { key: key(i as u64 + 1), bal, slashed: rng.chance(1, 9), aee: rng.range(0, f / 2), act: 0, exit: FAR };
        v.act = (v.aee + rng.range(0, 4)).min(f);
        if rng.chance(pending, 100) {
            // somewhere in the activation queue
            v.act = FAR;
            v.aee = match rng.below(6) {
                0 | 1 => FAR,
                2 => fin,
                3 => *rng.pick(&[fin + 1, f, f + 1]),
                4 => *rng.pick(&[j, j + 1, j + 2, f.saturating_sub(1)]),
                _ => fin.saturating_sub(1),
            };
            if v.aee == FAR { v.bal = *rng.pick(&[32 * ETH, 32 * ETH - 1, 31 * ETH, 33 * ETH, 0]); }
            if rng.chance(1, 4) && v.aee != FAR { v.act = f + rng.range(0, 6); }
        }
        if rng.chance(exits, 100) {
            v.exit = match rng.below(6) { 0 => f, 1 => f + 1, 2 => f.saturating_sub(1), 3 => f.saturating_sub(rng.range(0, 9)), _ => f + rng.range(0, 9) };
            v.act = v.act.min(v.exit);
        }
        v
    }).collect()
}
pub fn truth(rng: &mut Rng, spec: &ChainSpec, spe: u64, n: usize, cs: S, pending: usize, exits: usize, gvr: u32) -> Truth {
    let (j, f) = (cs.0 .0, cs.1 .0);
    let back = match rng.below(6) { 0 => rng.range(1, 3), 1 => spe + rng.range(0, 3), 2 => 2 * spe + rng.range(0, 9), _ => 0 };
    let slot = f.saturating_mul(spe).saturating_sub(back);
    let e = slot / spe;
    let fin = e.saturating_sub(*rng.pick(&[1, 2, 2, 2, 3, 5]));
    let fk = spec.fork_at_epoch(e.into());
    let base = f + 5;
    let (eee, ece) = (base.saturating_add(rng.range(0, 8)).saturating_sub(rng.range(0, 6)), base.saturating_add(rng.range(0, 8)).saturating_sub(rng.range(0, 6)));
    Truth {
        vals: registry(rng, n, f, j, fin, pending, exits),
        st: StateRec { gvr: root(gvr).0, slot, fork: (fk.previous_version, fk.current_version, fk.epoch.as_u64()), fin, eee, ece, salt: rng.next() % 100000 },
        block_slot: slot,
    }
}
/// The registry as of the justified epoch (what honest provers expect the guest to see).
pub fn rolled(t: &Truth, spe: u64, cs: S) -> Vec<ValRec> {
    let mut v = t.vals.clone();
    let (s, j, f) = (t.st.slot / spe, cs.0 .0, cs.1 .0);
    for e in s..=j {
        let fin = if e < j { t.st.fin } else { f };
        for x in v.iter_mut().filter(|x| x.exit > f) {
            if x.aee == FAR && x.bal >= 32 * ETH { x.aee = e + 1; }
            if x.aee <= fin && x.act == FAR { x.act = e + 5; }
        }
    }
    v
}
pub struct Churn {
    pub churn: u64, // per epoch
    pub first: u64,
}
pub fn churn(spec: &ChainSpec, t: &Truth, spe: u64, cs: S) -> Churn {
    let f = cs.1 .0;
    let total: u64 = rolled(t, spe, cs).iter().filter(|v| v.act <= f && f < v.exit).map(|v| v.bal).sum::<u64>().max(ETH);
    let c = (total / spec.churn_limit_quotient).max(spec.min_per_epoch_churn_limit_electra);
    Churn { churn: 2 * (c - c % ETH), first: t.st.eee.min(t.st.ece).max(f + 5) }
}
/// Exits a chain with one exit queue could schedule after the trusted block, as seen from the epochs given.
pub fn honest_patches(rng: &mut Rng, spec: &ChainSpec, t: &Truth, spe: u64, cs: S, epochs: &[u64], rate: usize) -> Patches {
    let c = churn(spec, t, spe, cs);
    let mut out: Patches = BTreeMap::new();
    let mut at = c.first;
    let mut seen: BTreeMap<u32, u64> = BTreeMap::new();
    let mut free: Vec<usize> = candidates(t, cs);
    rng.shuffle(&mut free);
    for e in epochs {
        let mut left = c.churn;
        while rng.chance(rate, 100) {
            let Some(i) = free.pop() else { break };
            let b = t.vals[i].bal;
            // the epochs this exit has to wait for, exactly or a little longer
            let wait = if b > left { (b - left).div_ceil(c.churn) } else { 0 } + if rng.chance(1, 3) { rng.range(0, 2) } else { 0 };
            left = left + wait * c.churn - b;
            at += wait;
            seen.insert(i as u32, at);
        }
        out.entry(*e).or_default().1 = seen.iter().map(|(i, x)| (*i as usize, *x)).collect();
    }
    out
}
/// Validators whose exit a chain could still schedule.
pub fn candidates(t: &Truth, cs: S) -> Vec<usize> {
    (0..t.vals.len()).filter(|i| { let v = &t.vals[*i]; v.exit == FAR && v.act <= cs.1 .0 }).collect()
}
pub const C10: &[&str] = &[
    "honest", "fork-edge", "block-other", "block-extra", "block-moved", "block-none", "state-other", "state-tamper", "state-extra", "state-missing",
    "state-moved", "vlist-other", "vlist-tamper", "block-tamper", "trusted-other", "fork-prev", "fork-cur", "fork-epoch", "fork-slot", "swapped",
    "slots", "slot-moved", "slot-none", "slot-extra", "slot-shallow", "slot-tamper", "slot-cut", "slot-two", "next-block", "parent-state",
];
pub const C11: &[&str] = &[
    "honest", "large", "full-exited", "omit-active", "omit-edge", "omit-ok", "skip", "key-swap", "key-missing", "key-other", "key-extra", "unmask",
    "key-bytes", "mask-sibling", "length-short", "length-long", "tamper", "bad-bool", "empty", "twice", "tail-cut", "tail-extra", "none-active", "bare",
];
pub const C12: &[&str] = &["pending", "pending", "pending", "long", "state-late", "ask-far"];
pub const C13: &[&str] = &[
    "honest", "honest", "past", "past-empty", "early", "edge", "exact", "over", "exact-many", "over-many", "from-state", "same-state", "change",
    "change-gap", "again-gap", "unexit", "far-far", "missing", "exited", "carry", "two-queues", "refill", "huge", "late", "ratio", "mixes", "over-total",
];
pub struct World<E: EthSpec> {
    pub t: Truth,
    pub tr: Trees,
    pub c: Case<E>,
}
impl<E: EthSpec> World<E> {
    pub fn new(spec: &ChainSpec, cs: S, t: Truth) -> World<E> {
        let c = honest(spec, cs, &t);
        World { tr: Trees::of(&t), t, c }
    }
    /// Trees and proofs again, after the truth has changed.
    pub fn again(&mut self) {
        let (p, s, a) = (self.c.patches.clone(), self.c.slots.clone(), self.c.atts.clone());
        let (spec, cs) = (self.c.spec.clone(), self.c.cs);
        *self = World::new(&spec, cs, self.t.clone());
        (self.c.patches, self.c.slots, self.c.atts) = (p, s, a);
    }
    pub fn trusted(&self) -> u64 { self.c.cs.1 .0 }
}
fn flip(rng: &mut Rng, p: &mut Proof) {
    let (i, j) = (rng.below(p.data.len()), rng.below(32));
    p.data[i][j] ^= 1 << rng.below(8);
}
/// Positions in a proof of its marked nodes.
fn marked(p: &Proof) -> Vec<usize> { (0..p.mask.len()).filter(|i| p.mask[*i]).collect() }
fn at(p: &Proof, g: u64) -> Option<usize> { p.eval().unwrap().0.iter().position(|x| *x == g) }

pub fn scenario<E: EthSpec>(rng: &mut Rng, focus: &str, kind: &str, n: usize) -> World<E> {
    let mut spec = E::default_spec();
    let spe = E::slots_per_epoch();
    let f = match rng.below(8) { 0 => rng.range(1, 3), 1 => (1u64 << 33) + rng.range(0, 99), 2 => 65536 * rng.range(1, 9) - rng.range(0, 3), _ => rng.range(7, 400) };
    crate::scen::schedule(&mut spec, rng, f);
    if focus == "C13" && rng.chance(1, 2) {
        spec.churn_limit_quotient = rng.range(2, 40);
        spec.min_per_epoch_churn_limit_electra = ETH * rng.range(1, 64);
    }
    let j = f + *rng.pick(&[1u64, 1, 1, 2, 2, 3, 5]);
    let cs = ((j, 10), (f, 11));
    let n = if kind == "large" { rng.range(60, 150) as usize } else { n };
    let (pending, exits) = match focus { "C12" => (60, 25), "C13" => (15, 15), "C11" => (15, 40), _ => (20, 20) };
    let gvr = 900 + rng.below(3) as u32;
    let mut t = truth(rng, &spec, spe, n, cs, pending, exits, gvr);
    match kind {
        "fork-edge" => {
            let e = (t.st.slot / spe + rng.range(0, 1)).max(1);
            let k = *rng.pick(&[5usize, 6]);
            for g in 1..8 {
                let fe = spec.fork_epoch(ForkName::ALL[g]).map(|x| x.as_u64());
                let ne = if g < k { fe.map(|x| x.min(e)).or(Some(0)) } else if g == k { Some(e) } else { None };
                spec.set_fork_epoch(ForkName::ALL[g], ne.map(|x| x.into()));
            }
            let fk = spec.fork_at_epoch((t.st.slot / spe).into());
            t.st.fork = (fk.previous_version, fk.current_version, fk.epoch.as_u64());
        }
        "fork-prev" => t.st.fork.0 = spec.fork_version_for_name(ForkName::ALL[rng.below(8)]),
        "fork-cur" => t.st.fork.1 = spec.fork_version_for_name(ForkName::ALL[rng.below(8)]),
        "fork-epoch" => t.st.fork.2 ^= 1 << rng.below(12),
        "fork-slot" => {
            let fk = spec.fork_at_epoch((f + rng.range(0, 2)).into());
            t.st.fork = (fk.previous_version, fk.current_version, fk.epoch.as_u64());
        }
        "long" => { t.st.slot = t.st.slot.saturating_sub(spe * rng.range(2, 9)); t.block_slot = t.st.slot; t.st.fin = t.st.fin.min((t.st.slot / spe).saturating_sub(1)); }
        "state-late" => t.st.slot = f * spe + rng.range(0, spe * (j - f + 2)),
        "empty" => t.vals.clear(),
        "none-active" => t.vals.iter_mut().for_each(|v| { v.exit = f.saturating_sub(rng.range(0, 3)); v.act = v.act.min(v.exit); }),
        "ratio" => { spec.churn_limit_quotient = rng.range(1, 4); spec.min_per_epoch_churn_limit_electra = ETH; t.vals.iter_mut().for_each(|v| if rng.chance(1, 2) { v.bal += rng.range(0, ETH) }); }
        _ => {}
    }
    if kind == "long" || kind == "state-late" {
        let fk = spec.fork_at_epoch((t.st.slot / spe).into());
        t.st.fork = (fk.previous_version, fk.current_version, fk.epoch.as_u64());
    }
    let mut w = World::<E>::new(&spec, cs, t);
    w.c.ask.extend(if kind == "ask-far" { vec![0, j + 40, FAR - 1] } else { vec![] });
    w.c.ask.sort();
    w.c.ask.dedup();
    // other blocks whose slots are proven
    for k in 0..rng.below(3) {
        let b = block_tree((f + k as u64) * spe - rng.range(0, 3).min(f * spe), sha(&[b"st", &[k as u8]]), rng.next() % 1000);
        w.c.slots.push(b.prove(&[8].into()));
    }
    if rng.chance(1, 2) { w.c.slots.push(w.tr.b.prove(&[8].into())); }
    let list: Vec<u64> = if kind == "mixes" || focus == "C13" || rng.chance(1, 4) { (f..=f + 5).filter(|_| rng.chance(2, 3)).collect() } else { vec![] };
    let rate = if focus == "C13" { *rng.pick(&[20, 40, 60, 85]) } else { 30 };
    w.c.patches = honest_patches(rng, &spec, &w.t, spe, cs, &list, rate);
    for p in w.c.patches.values_mut() { if rng.chance(1, 2) { p.0.insert(rng.below(64) as u32, rng.below(50) as u32); } }
    if let Some(i) = w.c.patches.values().flat_map(|p| p.0.keys().copied()).next() {
        for p in w.c.patches.values_mut() { if rng.chance(1, 3) { p.0.insert(i, rng.below(50) as u32); } }
    }
    mutate(rng, &mut w, kind);
    w
}
pub fn mutate<E: EthSpec>(rng: &mut Rng, w: &mut World<E>, kind: &str) {
    let (f, j, spe) = (w.trusted(), w.c.cs.0 .0, E::slots_per_epoch());
    let full = vlist_gs(&w.t, f, false);
    let other_state = |w: &World<E>| { let mut o = w.t.clone(); o.st.salt += 1; o.st.slot += 1; Trees::of(&o) };
    let live: Vec<usize> = (0..w.t.vals.len()).filter(|i| w.t.vals[*i].exit > f).collect();
    let gone: Vec<usize> = (0..w.t.vals.len()).filter(|i| w.t.vals[*i].exit <= f).collect();
    let cand = candidates(&w.t, w.c.cs);
    let ch = churn(&w.c.spec, &w.t, spe, w.c.cs);
    match kind {
        // --- binding to the trusted root
        "block-other" => w.c.block = other_state(w).b.prove(&[11].into()),
        "block-extra" => w.c.block = w.tr.b.prove(&if rng.chance(1, 2) { BTreeSet::from([8, 11]) } else { BTreeSet::from([11, 12]) }),
        "block-moved" => w.c.block = w.tr.b.prove(&[*rng.pick(&[8u64, 9, 10, 12, 5])].into()),
        "block-none" => w.c.block.mask.iter_mut().for_each(|b| *b = false),
        "next-block" => {
            // the genuine next block proves the genuine next state, but neither is trusted
            let o = other_state(w);
            (w.c.block, w.c.state, w.c.vlist) = (o.b.prove(&[11].into()), o.s.prove(&state_gs()), o.v.prove(&full));
        }
        "parent-state" | "state-other" => w.c.state = other_state(w).s.prove(&state_gs()),
        "state-tamper" => flip(rng, &mut w.c.state),
        "block-tamper" => flip(rng, &mut w.c.block),
        "vlist-tamper" | "tamper" => flip(rng, &mut w.c.vlist),
        "state-extra" => {
            let un: Vec<usize> = (0..w.c.state.mask.len()).filter(|i| !w.c.state.mask[*i]).collect();
            w.c.state.mask[*rng.pick(&un)] = true;
        }
        "state-missing" => { let m = marked(&w.c.state); w.c.state.mask[*rng.pick(&m)] = false; }
        "state-moved" => {
            let mut gs = state_gs();
            let g = *rng.pick(&gs.iter().copied().collect::<Vec<_>>());
            gs.remove(&g);
            gs.insert(match g { 168 => 169, 270 => *rng.pick(&[271u64, 17 * 16 - 1]), g if g > 200 => 271, g => *rng.pick(&[g ^ 1, g + 1, g + 2]) });
            let gs = if gs.iter().any(|a| gs.iter().any(|b| a != b && level(*a) < level(*b) && b >> (level(*b) - level(*a)) == *a)) { [65, 66].into() } else { gs };
            w.c.state = w.tr.s.prove(&gs);
        }
        "vlist-other" => {
            let mut o = w.t.clone();
            if let Some(i) = live.first() { o.vals[*i].bal += 1; } else { o.vals.push(ValRec { key: key(1), bal: 1, slashed: false, aee: 0, act: 0, exit: 0 }); }
            w.c.vlist = validators_tree(&o.vals).prove(&vlist_gs(&o, f, false));
        }
        "trusted-other" => { let r = w.c.roots[&w.c.cs.1 .1]; w.c.roots = HashMap::from([(w.c.cs.0 .1, r)]); }
        "swapped" => std::mem::swap(&mut w.c.block, &mut w.c.state),
        "slots" | "slot-moved" | "slot-none" | "slot-extra" | "slot-shallow" | "slot-tamper" | "slot-cut" | "slot-two" => {
            let b = block_tree(f * spe + 3, sha(&[b"other"]), 7);
            let mut p = b.prove(&match kind {
                "slot-moved" => [*rng.pick(&[9u64, 10, 11, 12])].into(),
                "slot-extra" => [8, *rng.pick(&[9u64, 11])].into(),
                "slot-shallow" => [*rng.pick(&[2u64, 4])].into(),
                _ => BTreeSet::from([8]),
            });
            match kind {
                "slot-none" => p.mask.iter_mut().for_each(|b| *b = false),
                "slot-tamper" => flip(rng, &mut p),
                "slot-cut" => { p.data.pop(); }
                "slot-two" => { let q = block_tree(f * spe + 4, sha(&[b"other"]), 7).prove(&[8].into()); w.c.slots.push(q); }
                _ => {}
            }
            let i = rng.below(w.c.slots.len() + 1);
            w.c.slots.insert(i, p);
        }
        // --- registry
        "full-exited" => {
            let mut gs = full;
            for i in &gone { if rng.chance(1, 2) { gs.remove(&(vbase(*i as u64) + 6)); gs.extend(full_gs(*i as u64)); } }
            w.c.keys = (0..w.t.vals.len()).filter(|i| gs.contains(&(vbase(*i as u64) * 2))).map(|i| w.t.vals[i].key).collect();
            w.c.vlist = w.tr.v.prove(&gs);
        }
        "omit-active" | "omit-edge" | "omit-ok" if !live.is_empty() => {
            let i = *rng.pick(&live);
            if kind != "omit-active" { w.t.vals[i].exit = if kind == "omit-ok" { f } else { f + 1 }; w.again(); }
            let mut gs = vlist_gs(&w.t, f, false);
            full_gs(i as u64).iter().for_each(|g| { gs.remove(g); });
            gs.insert(vbase(i as u64) + 6);
            w.c.vlist = w.tr.v.prove(&gs);
            w.c.keys = (0..w.t.vals.len()).filter(|k| gs.contains(&(vbase(*k as u64) * 2))).map(|k| w.t.vals[k].key).collect();
        }
        "skip" if !w.t.vals.is_empty() => {
            let i = rng.below(w.t.vals.len());
            let mut gs = full;
            full_gs(i as u64).iter().for_each(|g| { gs.remove(g); });
            w.c.vlist = w.tr.v.prove(&gs);
            w.c.keys = (0..w.t.vals.len()).filter(|k| gs.contains(&(vbase(*k as u64) * 2))).map(|k| w.t.vals[k].key).collect();
        }
        "tail-cut" if !w.t.vals.is_empty() => {
            // the last validators are not shown at all
            let k = rng.range(1, 2).min(w.t.vals.len() as u64) as usize;
            let gs: BTreeSet<u64> = full.iter().copied().filter(|g| *g == 3 || (w.t.vals.len() - k..w.t.vals.len()).all(|i| *g != vbase(i as u64) + 6 && !full_gs(i as u64).contains(g))).collect();
            w.c.vlist = w.tr.v.prove(&gs);
            w.c.keys = (0..w.t.vals.len()).filter(|k| gs.contains(&(vbase(*k as u64) * 2))).map(|k| w.t.vals[k].key).collect();
        }
        "tail-extra" => {
            // padding shown as a validator that exited in epoch 0
            let mut gs = full;
            gs.insert(vbase(w.t.vals.len() as u64) + 6);
            // the padding subtree has no nodes of its own: make them
            let mut tr = Trees::of(&w.t);
            for o in 0..8 { tr.v.nodes.insert(vbase(w.t.vals.len() as u64) + o, [0; 32]); }
            w.c.vlist = tr.v.prove(&gs);
        }
        "key-swap" if w.c.keys.len() > 1 => { let i = rng.below(w.c.keys.len() - 1); w.c.keys.swap(i, i + 1); }
        "key-missing" if !w.c.keys.is_empty() => { if rng.chance(1, 2) { w.c.keys.pop(); } else { w.c.keys.remove(0); } }
        "key-other" if !w.c.keys.is_empty() => { let i = rng.below(w.c.keys.len()); w.c.keys[i] = key(500); }
        "key-bytes" if !live.is_empty() => {
            // a proven key that differs from the supplied one in a single byte, padding included
            let k = rng.below(live.len());
            let b = rng.below(64);
            let (mut key, mut pad) = (w.t.vals[live[k]].key, [0u8; 16]);
            if b < 48 { key[b] ^= 1 << rng.below(8) } else { pad[b - 48] = 1 << rng.below(8) }
            let mut h = [0; 32];
            if b < 32 { h.copy_from_slice(&key[..32]) } else { h[..16].copy_from_slice(&key[32..]); h[16..].copy_from_slice(&pad) }
            w.tr.v = reroot(&w.tr.v, vbase(live[k] as u64) * 2 + (b >= 32) as u64, h);
            rebind(w);
        }
        "key-extra" => { let k = key(501); if rng.chance(1, 2) { w.c.keys.push(k); } else { w.c.keys.insert(0, k); } }
        "twice" => { if let Some(k) = w.c.keys.first().copied() { w.c.keys.push(k); } }
        "unmask" => { let m = marked(&w.c.vlist); let i = *rng.pick(&m); w.c.vlist.mask[i] = false; }
        "mask-sibling" => {
            let un: Vec<usize> = (0..w.c.vlist.mask.len()).filter(|i| !w.c.vlist.mask[*i]).collect();
            if !un.is_empty() { w.c.vlist.mask[*rng.pick(&un)] = true; }
        }
        "length-short" | "length-long" => {
            // the list's length disagrees with what is shown (a tree of its own)
            let k = rng.range(1, 3);
            let n = w.t.vals.len() as u64;
            let l = if kind == "length-long" { n + k } else { n.saturating_sub(k) };
            w.tr.v = reroot(&w.tr.v, 3, chunk(l));
            rebind(w);
        }
        "bad-bool" if !live.is_empty() => {
            let g = vbase(*rng.pick(&live) as u64) + 3;
            let mut h = chunk(rng.range(0, 3));
            if rng.chance(1, 2) { h[rng.range(1, 31) as usize] = 1; }
            w.tr.v = reroot(&w.tr.v, g, h);
            rebind(w);
        }
        "bare" => w.c.vlist = w.tr.v.prove(&[3].into()),
        // --- patches
        "past" | "past-empty" => {
            let p = if kind == "past" { w.c.patches.values().next().cloned().unwrap_or_default() } else { Default::default() };
            w.c.patches.insert(f - 1, p);
            if rng.chance(1, 4) { w.c.patches.remove(&(f - 1)); w.c.patches.insert(f, Default::default()); }
        }
        "early" | "edge" | "late" if !cand.is_empty() => {
            let x = match kind { "early" => ch.first - rng.range(1, 2), "edge" => ch.first, _ => ch.first + rng.range(1, 40) };
            let e = f + rng.range(0, 3);
            w.c.patches = BTreeMap::from([(e, (BTreeMap::new(), BTreeMap::from([(*rng.pick(&cand), x)])))]);
        }
        "exact" | "over" | "exact-many" | "over-many" | "over-total" if !cand.is_empty() => {
            // one or more exits that need exactly the churn up to the last of them (or one unit more)
            let mut c = cand.clone();
            rng.shuffle(&mut c);
            c.truncate(if kind.ends_with("many") { rng.range(2, 5) as usize } else { 1 });
            let gap = rng.range(0, 3);
            // balances outside the churn's own total: the churn is bounded below by the minimum
            for _ in 0..6 {
                let ch = churn(&w.c.spec, &w.t, spe, w.c.cs);
                let budget = ch.churn * (gap + 1);
                let share = budget / c.len() as u64;
                for i in &c { w.t.vals[*i].bal = share; }
                w.t.vals[c[0]].bal = budget - share * (c.len() as u64 - 1) + kind.starts_with("over") as u64;
            }
            w.again();
            let ch = churn(&w.c.spec, &w.t, spe, w.c.cs);
            let mut x = BTreeMap::new();
            for (k, i) in c.iter().enumerate() { x.insert(*i, ch.first + if k == 0 { gap } else { rng.range(gap, gap) }); }
            w.c.patches = BTreeMap::from([(f + rng.range(0, 2), (BTreeMap::new(), x))]);
        }
        "from-state" | "same-state" if !live.is_empty() => {
            let i = *rng.pick(&live);
            w.t.vals[i].act = w.t.vals[i].act.min(f);
            w.t.vals[i].exit = f + rng.range(1, 9);
            w.again();
            let mut x = w.t.vals[i].exit;
            if kind == "from-state" { x = *rng.pick(&[x + 1, x - 1, ch.first, ch.first + 3, FAR]); }
            w.c.patches.entry(f + rng.range(0, 2)).or_default().1.insert(i, x);
        }
        "change" | "change-gap" | "again-gap" | "unexit" | "far-far" if !cand.is_empty() => {
            let i = *rng.pick(&cand);
            let big = w.t.vals[i].bal.div_ceil(ch.churn);
            let x = ch.first + big + rng.range(0, 3);
            let y = match kind { "again-gap" => x, "unexit" => FAR, "far-far" => FAR, _ => if rng.chance(1, 2) { x + rng.range(1, 3) } else { x.saturating_sub(rng.range(1, 2)).max(ch.first) } };
            w.c.patches.clear();
            w.c.patches.insert(f, (BTreeMap::new(), BTreeMap::from([(i, if kind == "far-far" { FAR } else { x })])));
            let e = if kind == "change" { f + 1 } else { f + rng.range(1, 3) };
            if kind.ends_with("gap") && e > f + 1 { w.c.patches.insert(f + 1, (BTreeMap::from([(3, 4)]), BTreeMap::new())); }
            w.c.patches.insert(e, (BTreeMap::new(), BTreeMap::from([(i, y)])));
        }
        "missing" => { let i = w.t.vals.len() + rng.below(3); w.c.patches.entry(f + 1).or_default().1.insert(i, *rng.pick(&[ch.first + 9, FAR])); }
        "exited" if !gone.is_empty() => {
            let i = *rng.pick(&gone);
            let x = *rng.pick(&[w.t.vals[i].exit, ch.first + 2, FAR]);
            w.c.patches.entry(f + 1).or_default().1.insert(i, x);
        }
        "carry" if cand.len() > 1 => {
            // both queues start at the same late epoch, the second patch goes below the first
            let far = f + 5 + rng.range(2, 9);
            (w.t.st.eee, w.t.st.ece) = if rng.chance(1, 2) { (far, far) } else if rng.chance(1, 2) { (f + 5, far + 20) } else { (far + 20, f + 5) };
            w.again();
            let ch = churn(&w.c.spec, &w.t, spe, w.c.cs);
            let (a, b) = (cand[0], cand[cand.len() - 1]);
            let x = ch.first + w.t.vals[a].bal.div_ceil(ch.churn) + rng.range(2, 4);
            w.c.patches.clear();
            w.c.patches.insert(f, (BTreeMap::new(), BTreeMap::from([(a, x)])));
            w.c.patches.insert(f + rng.range(1, 3), (BTreeMap::new(), BTreeMap::from([(a, x), (b, x - rng.range(0, 2))])));
        }
        "two-queues" if cand.len() > 1 => {
            w.t.st.eee = f + 5 + rng.range(6, 20);
            w.t.st.ece = f + 5;
            if rng.chance(1, 2) { std::mem::swap(&mut w.t.st.eee, &mut w.t.st.ece); }
            w.again();
            let (a, b) = (cand[0], cand[cand.len() - 1]);
            let (lo, hi) = (w.t.st.eee.min(w.t.st.ece), w.t.st.eee.max(w.t.st.ece));
            w.c.patches.clear();
            w.c.patches.insert(f, (BTreeMap::new(), BTreeMap::from([(a, hi)])));
            w.c.patches.insert(f + 1, (BTreeMap::new(), BTreeMap::from([(a, hi), (b, lo + rng.range(0, 2))])));
        }
        "refill" if cand.len() > 1 => {
            // one churn's worth of balance in each of two patches, all in the same exit epoch
            let (a, b) = (cand[0], cand[cand.len() - 1]);
            for _ in 0..6 { let c = churn(&w.c.spec, &w.t, spe, w.c.cs).churn; w.t.vals[a].bal = c; w.t.vals[b].bal = c; }
            w.again();
            let ch = churn(&w.c.spec, &w.t, spe, w.c.cs);
            w.c.patches.clear();
            w.c.patches.insert(f, (BTreeMap::new(), BTreeMap::from([(a, ch.first)])));
            let both = BTreeMap::from([(a, ch.first), (b, ch.first)]);
            w.c.patches.insert(f + 1, (BTreeMap::new(), both.clone()));
            if rng.chance(1, 3) { w.c.patches.insert(f, (BTreeMap::new(), both)); }
        }
        "huge" if !cand.is_empty() => {
            let x = *rng.pick(&[FAR - 1, 1 << 63, 1 << 40, (1 << 50) + 7]);
            w.c.patches.entry(f + 4).or_default().1.insert(*rng.pick(&cand), x);
        }
        "ratio" => {
            // exits within the churn of a large registry, rounded down to whole increments
            let mut c = cand.clone();
            rng.shuffle(&mut c);
            let mut left = ch.churn;
            let mut x = BTreeMap::new();
            for i in c { if w.t.vals[i].bal <= left { left -= w.t.vals[i].bal; x.insert(i, ch.first); } else if rng.chance(1, 2) { x.insert(i, ch.first); break; } }
            w.c.patches = BTreeMap::from([(f + 1, (BTreeMap::new(), x))]);
        }
        _ => {}
    }
    let _ = j;
}
/// The tree with another value at a leaf.
fn reroot(t: &Tree, g: u64, h: H) -> Tree {
    let mut l: Vec<(u64, H)> = t.nodes.iter().filter(|(k, _)| !t.nodes.contains_key(&(**k * 2)) && !t.nodes.contains_key(&(**k * 2 + 1))).map(|(k, v)| (*k, *v)).collect();
    l.retain(|x| x.0 != g);
    l.push((g, h));
    Tree::of(l, t.depth)
}
/// Binds a changed validator tree to a new trusted block.
fn rebind<E: EthSpec>(w: &mut World<E>) {
    w.tr.s = state_tree(&w.t.st, w.tr.v.root());
    w.tr.b = block_tree(w.t.block_slot, w.tr.s.root(), w.t.st.salt);
    w.c.roots = HashMap::from([(w.c.cs.1 .1, w.tr.b.root().into())]);
    w.c.block = w.tr.b.prove(&[11].into());
    w.c.state = w.tr.s.prove(&state_gs());
    w.c.vlist = w.tr.v.prove(&vlist_gs(&w.t, w.trusted(), false));
}
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed ^ 0x6775657374);
    let mut o = Out::new(dir, "trace.ndjson");
    let mut stats: BTreeMap<String, BTreeMap<String, [usize; 2]>> = BTreeMap::new();
    let reps = if thorough { 120 } else { 34 };
    for (focus, kinds) in [("C10", C10), ("C11", C11), ("C12", C12), ("C13", C13)] {
        for k in kinds {
            let reps = if focus == "C12" { 3 * reps } else { reps };
            let reps = if *k == "key-bytes" { 3 * reps } else { reps };
            for _ in 0..reps {
                let n = if rng.chance(1, 12) { rng.range(0, 3) } else { rng.range(4, 18) } as usize;
                let w = scenario::<z_core::MinimalEthSpec>(&mut rng, focus, k, n);
                let (ok, mut v) = judge(&w.c, &mut rng);
                v["k"] = json!("guest");
                v["focus"] = json!(focus);
                v["kind"] = json!(k);
                stats.entry(focus.into()).or_default().entry(k.to_string()).or_default()[ok as usize] += 1;
                o.line(v);
            }
        }
    }
    name_roots(Default::default());
    std::fs::write(format!("{dir}/stats.json"), json!({"refused_accepted": stats}).to_string()).unwrap();
}
