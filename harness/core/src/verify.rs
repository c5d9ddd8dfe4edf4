//! The real `verify` over a symbolic chain.
use crate::scen as gens;
use crate::util::*;
use crate::world::*;
use alloy_primitives::B256;
use beacon_types::{Attestation, ChainSpec, EthSpec, ForkName, PublicKey};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use z_core::{Checkpoint, Config, ConsensusState, Epoch, InputReader, RandaoMixIndex, Root, ValidatorIndex, ValidatorInfo};

#[derive(Debug, thiserror::Error)]
pub enum MockError {
    #[error("no such block")]
    NoBlock,
    #[error("{0:?}")]
    Arith(safe_arith::ArithError),
}
impl From<safe_arith::ArithError> for MockError { fn from(e: safe_arith::ArithError) -> Self { MockError::Arith(e) } }
/// Answers every question about the chain from the world, truthfully.
pub struct Mock<'a, E: EthSpec> {
    pub w: &'a World,
    pub infos: Vec<ValidatorInfo>,
    pub atts: Vec<Attestation<E>>,
    pub mixes: HashMap<(u64, u32), B256>,
    pub slots: HashMap<Root, u64>,
}
pub fn keys(n: usize) -> Vec<PublicKey> { (0..n as u64 + 2).map(PublicKey::from_seed).collect() }
impl<'a, E: EthSpec> Mock<'a, E> {
    pub fn new(w: &'a World, pks: &[PublicKey]) -> Self {
        Mock {
            infos: w.vals.iter().map(|v| ValidatorInfo {
                pubkey: pks[v.key as usize].clone(),
                effective_balance: v.bal,
                slashed: v.slashed,
                activation_eligibility_epoch: v.aee.into(),
                activation_epoch: v.act.into(),
                exit_epoch: v.exit.into(),
            }).collect(),
            atts: w.atts.iter().map(|a| w.real(a)).collect(),
            mixes: w.mixes.iter().map(|(k, t)| (*k, mix(*t))).collect(),
            slots: w.slots.iter().rev().map(|(r, s)| (root(*r), *s)).collect(),
            w,
        }
    }
}
impl<E: EthSpec> InputReader for Mock<'_, E> {
    type Error = MockError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec { &self.w.spec }
    fn genesis_validators_root(&self) -> Result<Root, MockError> { Ok(root(self.w.gvr)) }
    fn fork(&self, epoch: Epoch) -> Result<beacon_types::Fork, MockError> { Ok(self.w.spec.fork_at_epoch(epoch)) }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, MockError> {
        Ok(self.infos.iter().enumerate().filter(move |(i, _)| self.w.vals[*i].active(epoch.as_u64())))
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, MockError> {
        Ok(self.mixes.get(&(epoch.as_u64(), idx)).copied())
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, MockError> { Ok(self.atts.iter()) }
    fn consensus_state(&self) -> Result<ConsensusState, MockError> {
        let c = |c: C| Checkpoint::new(c.0.into(), root(c.1));
        Ok(if self.w.cs == ((0, 0), (0, 0)) { ConsensusState::default() } else { ConsensusState::new(c(self.w.cs.0), c(self.w.cs.1)) })
    }
    fn slot_for_block(&self, r: &Root) -> Result<u64, MockError> { self.slots.get(r).copied().ok_or(MockError::NoBlock) }
}
pub struct Names(HashMap<B256, u32>);
impl Names {
    pub fn new() -> Self { Names((0..1000).map(|i| (root(i), i)).collect()) }
    pub fn cp(&self, c: Checkpoint) -> Value { json!([d(c.epoch().into()), self.0.get(&c.root()).copied().unwrap_or(99999)]) }
    pub fn st(&self, s: &ConsensusState) -> Value { json!([self.cp(s.current_justified_checkpoint()), self.cp(s.finalized_checkpoint())]) }
}
pub fn config(w: &World) -> Config {
    Config {
        min_version: ForkName::ALL[w.min],
        max_version: ForkName::ALL[w.max],
        epoch_lookahead_limit: w.look.into(),
        justification_threshold_factor: w.fac,
        justification_threshold_quotient: w.quo,
    }
}
pub fn judge<E: EthSpec>(w: &World, pks: &[PublicKey], names: &Names) -> (bool, Value) {
    let m = Mock::<E>::new(w, pks);
    let r = caught(|| z_core::verify(&config(w), &m));
    let mut v = w.json();
    let (ok, res, slot) = match &r {
        Some(Ok((s, slot))) => (true, names.st(s), d(*slot)),
        _ => (false, js(w.cs), d(0)),
    };
    v["ok"] = json!(ok);
    v["res"] = res;
    v["slot"] = slot;
    (ok, v)
}
fn size(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(20) {
        0..=6 => rng.range(8, 16) as usize,
        7..=15 => rng.range(17, 40) as usize,
        16..=18 => rng.range(60, 80) as usize,
        _ => rng.range(96, if thorough { 180 } else { 140 }) as usize,
    }
}
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut o = Out::new(dir, "trace.ndjson");
    let (names, pks) = (Names::new(), keys(220));
    let mut stats: BTreeMap<String, [usize; 2]> = BTreeMap::new();
    let mut put = |w: &World, prop: &str, kind: &str| {
        let (ok, mut v) = judge::<z_core::MinimalEthSpec>(w, &pks, &names);
        v["k"] = json!("verify");
        v["focus"] = json!(prop);
        v["kind"] = json!(kind);
        stats.entry(prop.to_string()).or_default()[ok as usize] += 1;
        o.line(v);
    };
    let kinds: Vec<(&'static str, &str)> = [("C03", gens::C03), ("C04", gens::C04), ("C05", gens::C05), ("C06", gens::C06), ("C14", gens::C14)]
        .into_iter().flat_map(|(p, k)| k.iter().map(move |x| (p, *x))).collect();
    let reps = if thorough { 150 } else { 60 };
    for (p, k) in &kinds {
        for _ in 0..reps {
            let n = size(&mut rng, thorough);
            let (w, p, k) = gens::scenario_of::<z_core::MinimalEthSpec>(&mut rng, n, p, k);
            put(&w, p, &k);
        }
    }
    for _ in 0..(if thorough { 4000 } else { 1200 }) {
        let n = size(&mut rng, thorough);
        let (w, p, k) = gens::scenario::<z_core::MinimalEthSpec>(&mut rng, n);
        put(&w, p, &k);
    }
    std::fs::write(format!("{dir}/stats.json"), json!({"refused_accepted": stats}).to_string()).unwrap();
}
pub fn run_pairs(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut o = Out::new(dir, "trace.ndjson");
    let (names, pks) = (Names::new(), keys(220));
    let (mut both, mut total) = (0, 0);
    for _ in 0..(if thorough { 9000 } else { 3000 }) {
        let n = rng.range(9, 30) as usize;
        let (a, b, kind) = gens::pair::<z_core::MinimalEthSpec>(&mut rng, n);
        let (oka, va) = judge::<z_core::MinimalEthSpec>(&a, &pks, &names);
        let (okb, vb) = judge::<z_core::MinimalEthSpec>(&b, &pks, &names);
        both += (oka && okb) as usize;
        total += 1;
        o.line(json!({"k": "pair", "kind": kind, "a": va, "b": vb}));
    }
    std::fs::write(format!("{dir}/stats.json"), json!({"pairs": total, "both_accepted": both}).to_string()).unwrap();
}

/// Small worlds, exhaustively: every sequence of links, every participation.
pub fn run_small(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut o = Out::new(dir, "trace.ndjson");
    let (names, pks) = (Names::new(), keys(20));
    let (mut acc, mut total) = (0usize, 0usize);
    let mut put = |w: &World, prop: &str, kind: &str| {
        let (ok, mut v) = judge::<z_core::MinimalEthSpec>(w, &pks, &names);
        acc += ok as usize;
        total += 1;
        v["k"] = json!("verify");
        v["focus"] = json!(prop);
        v["kind"] = json!(kind);
        o.line(v);
    };
    let base = |spec| {
        let mut w = World::shape::<z_core::MinimalEthSpec>(spec);
        (w.min, w.max, w.look) = (0, 7, 9);
        w
    };
    let spec = || z_core::MinimalEthSpec::default_spec();
    // one validator: every sequence of at most two (three) links between six checkpoints
    let mut w = base(spec());
    w.vals = vec![Val { key: 1, bal: 32_000_000_000, slashed: false, aee: 0, act: 0, exit: FAR }];
    for e in 0..9 {
        let i = w.mix_idx(e).unwrap();
        w.mixes.insert((e, i), 1 + e as u32);
    }
    for (cs, points) in [
        (((3, 10), (2, 11)), vec![(2, 11), (3, 10), (4, 20), (4, 21), (5, 22), (6, 23)]),
        (((4, 10), (2, 11)), vec![(2, 11), (3, 24), (4, 10), (5, 20), (6, 21), (6, 22)]),
        (((0, 0), (0, 0)), vec![(0, 0), (0, 25), (1, 20), (1, 21), (2, 22), (3, 23)]),
    ] {
        w.cs = cs;
        w.slots = points.iter().map(|c: &C| (c.1, c.0 * 8)).collect();
        let mut links: Vec<(Vec<Att>, C, C)> = vec![];
        for s in &points {
            for t in &points {
                let a = vote_all(&w, (*s, *t));
                links.push((a, *s, *t));
            }
        }
        let mut stack: Vec<Vec<usize>> = (0..links.len()).map(|i| vec![i]).collect();
        let depth = if thorough { 4 } else { 3 };
        while let Some(q) = stack.pop() {
            // beyond two links only continue what connects, or what follows a connected prefix
            let ok = |q: &[usize]| q.iter().try_fold(cs.0, |at, i| (links[*i].1 == at && links[*i].2 .0 > at.0).then(|| links[*i].2)).is_some();
            w.atts = q.iter().flat_map(|i| links[*i].0.clone()).collect();
            put(&w, "C03", "links");
            if q.len() < depth && (q.len() < 2 || ok(&q)) {
                stack.extend((0..links.len()).filter(|i| q.last() != Some(i)).map(|i| [q.clone(), vec![i]].concat()));
            }
        }
    }
    // four validators: every slashing pattern, every set of voters, split or repeated
    let mut w = base(spec());
    for e in 0..9 {
        let i = w.mix_idx(e).unwrap();
        w.mixes.insert((e, i), 1 + e as u32);
    }
    w.cs = ((3, 10), (2, 11));
    let l = ((3, 10), (4, 20));
    w.slots = vec![(10, 24), (20, 32)];
    let g = 1_000_000_000u64;
    let bals: &[[u64; 4]] = &[[32 * g; 4], [85, 5, 5, 5], [70 * g, 10 * g, 15 * g, 5 * g], [g, g / 2, g / 3, 1], [u64::MAX / 13, u64::MAX / 13, 1 << 60, 3]];
    for b in bals {
        for (f, q) in [(85, 100), (70, 100), (2, 3), (1, 2)] {
            (w.fac, w.quo) = (f, q);
            for slashed in 0..16u32 {
                for who in 0..16usize {
                    if !thorough && rng.chance(1, 2) {
                        continue;
                    }
                    w.vals = (0..4).map(|i| Val { key: i as u32 + 1, bal: b[i], slashed: slashed >> i & 1 == 1, aee: 0, act: 0, exit: FAR }).collect();
                    let v: Vec<usize> = (0..4).filter(|i| who >> i & 1 == 1).collect();
                    w.atts = gens::vote(&mut rng, &w, l, &v, gens::Style::PerSlot);
                    if rng.chance(1, 3) {
                        let a = w.atts.clone();
                        w.atts.extend(a);
                    }
                    put(&w, "C04", "voters");
                }
            }
        }
    }
    std::fs::write(format!("{dir}/stats.json"), json!({"worlds": total, "accepted": acc}).to_string()).unwrap();
}
fn vote_all(w: &World, l: (C, C)) -> Vec<Att> {
    let com = w.committees(l.1 .0);
    (0..w.spe).filter_map(|s| w.attest(&com, l.1 .0 * w.spe + s, &[0], &|_| true, 300, l.0, l.1)).collect()
}
