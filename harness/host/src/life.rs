//! The registry of a simulated chain (exits, consolidations, slashings, ejections, activations, deposits), the
//! beacon states it leads to, and votes by its committees.
use crate::sim::*;
use crate::util::*;
use crate::world::{Att, Val, World, FAR};
use beacon_types::{ChainSpec, EthSpec};
use bls::PublicKey;
use ethereum_consensus::electra::mainnet::Attestation;
use ethereum_consensus::phase0::{BeaconBlockHeader, Checkpoint, Fork, Validator};
use host::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
use host::{StateProvider, StateProviderError, StateRef};
use ssz::Encode;
use ssz_rs::HashTreeRoot;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const ETH: u64 = 1_000_000_000;
/// The registry and its queues.
#[derive(Clone, Debug, Default)]
pub struct Reg {
    pub vals: Vec<Val>,
    pub ee: u64, // earliest exit epoch
    pub eb: u64, // exit balance to consume
    pub ce: u64, // the same for consolidations
    pub cb: u64,
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub reg: Reg,
    pub fin: C,
    pub header: u64, // slot of the latest block
}
pub fn queue(spec: &ChainSpec, e: &mut u64, left: &mut u64, per: u64, now: u64, bal: u64) -> u64 {
    let mut at = (*e).max(now + 1 + spec.max_seed_lookahead.as_u64());
    let mut have = if *e < at { per } else { *left };
    if bal > have {
        let more = (bal - have - 1) / per + 1;
        at += more;
        have += more * per;
    }
    *left = have - bal;
    *e = at;
    at
}
impl Reg {
    pub fn churn(&self, spec: &ChainSpec, now: u64) -> (u64, u64) {
        let total: u64 = self.vals.iter().filter(|v| v.active(now)).map(|v| v.bal).sum::<u64>().max(ETH);
        let c = spec.min_per_epoch_churn_limit_electra.max(total / spec.churn_limit_quotient);
        let c = c - c % spec.effective_balance_increment;
        let exits = c.min(256 * ETH);
        (exits, c - exits)
    }
    pub fn exit(&mut self, spec: &ChainSpec, i: usize, now: u64) {
        if self.vals[i].exit != FAR { return; }
        let per = self.churn(spec, now).0;
        let b = self.vals[i].bal;
        self.vals[i].exit = queue(spec, &mut self.ee, &mut self.eb, per, now, b);
    }
    pub fn consolidate(&mut self, spec: &ChainSpec, i: usize, now: u64) {
        let per = self.churn(spec, now).1;
        if self.vals[i].exit != FAR || per <= 32 * ETH { return; }
        let b = self.vals[i].bal;
        self.vals[i].exit = queue(spec, &mut self.ce, &mut self.cb, per, now, b);
    }
    /// process_registry_updates (Electra) at the end of an epoch
    pub fn updates(&mut self, spec: &ChainSpec, now: u64, fin: u64) {
        for i in 0..self.vals.len() {
            let v = &mut self.vals[i];
            if v.aee == FAR && v.bal >= 32 * ETH {
                v.aee = now + 1;
            } else if v.active(now) && v.bal <= 16 * ETH {
                self.exit(spec, i, now);
            } else if v.aee <= fin && v.act == FAR {
                v.act = now + 1 + spec.max_seed_lookahead.as_u64();
            }
        }
    }
}
pub struct Life {
    pub chain: Chain,
    pub spec: ChainSpec,
    pub snaps: BTreeMap<u64, Snap>, // after the block or the empty slot
    pub gvr: u32,
    pub mixes: BTreeMap<u64, u32>, // index -> mix
    pub cache: RefCell<HashMap<u64, StateRef>>,
    pub reads: RefCell<Vec<u64>>,
    pub missing: Cell<Option<u64>>, // a slot whose state is not available
    pub clean: std::collections::BTreeSet<u64>, // blocks without votes
    pub share: BTreeMap<u64, (u64, u64)>, // balance that voted for an epoch, and all that may
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Style {
    pub exits: usize,
    pub cons: bool,
    pub eject: bool,
    pub pending: bool,
    pub skips: usize, // 0: none, 1: some boundaries, 2: whole stretches
    pub gap: usize,   // epochs without finality after the third
    pub late: usize, // how often they come later
    pub luck: usize,  // how often an epoch misses its votes
}
fn key(i: u32) -> [u8; 48] { PublicKey::from_seed(i as u64).serialize() }
fn mix(tok: u32) -> [u8; 32] { crate::world::mix(tok).0 }

pub fn live<E: EthSpec>(rng: &mut Rng, spec: ChainSpec, base: u64, epochs: u64, n: usize, st: Style) -> Life {
    let spe = E::slots_per_epoch();
    let end = base + epochs;
    // blocks
    let mut have: BTreeMap<u64, bool> = ((base - 3) * spe..(end + 1) * spe).map(|s| (s, s < base * spe || st.skips == 0 || rng.chance(9, 10))).collect();
    for e in base + 1..=end {
        have.insert(e * spe, true);
        if st.skips > 0 && rng.chance(st.skips, 3) {
            let lo = rng.range(0, if st.skips == 2 { spe + 2 } else { 3 });
            for s in (e * spe).saturating_sub(lo)..=e * spe + rng.range(0, 2) { have.insert(s, false); }
        }
    }
    let blocks: BTreeMap<u64, Vec<Vote>> = have.iter().filter(|x| *x.1).map(|(s, _)| (*s, vec![])).collect();
    let mut bits: Vec<(bool, bool)> = vec![];
    for e in base..end {
        let any = blocks.range(e * spe + 1..(e + 1) * spe).next().is_some();
        let k = (e - base) as usize;
        let in_gap = st.gap > 0 && (3..3 + st.gap).contains(&k);
        let c = if in_gap { any && !bits.last().unwrap().1 && rng.chance(2, 3) } else { any && !rng.chance(st.luck, 10) };
        let p = if in_gap { bits.last().unwrap().1 } else { bits.last().map(|b: &(bool, bool)| b.1).unwrap_or(true) || (any && rng.chance(st.late, 6)) };
        bits.push((p, c));
    }
    let head = end * spe + spe - 1;
    let mut c = Chain { spe, base, head, headers: BTreeMap::new(), bits, blocks, states: vec![], fault: None, requests: Cell::new(0) };
    c.derive();
    // the registry at the start
    let mut reg = Reg { ee: base + rng.range(0, 6), ce: base + rng.range(0, 6), ..Default::default() };
    reg.eb = rng.below(128) as u64 * ETH;
    for k in 0..n {
        let bal = match rng.below(8) { 0 => 2048, 1 => rng.range(33, 500), 2 => rng.range(20, 31), 3 if st.eject => rng.range(17, 19), _ => 32 } * ETH;
        let mut v = Val { key: k as u32 + 1, bal, slashed: rng.chance(1, if st.gap > 0 { 100 } else { 20 }), aee: 0, act: base.saturating_sub(rng.range(1, 50)), exit: FAR };
        match rng.below(12) {
            0 if st.pending => { v.act = FAR; v.aee = *rng.pick(&[FAR, base - 2, base - 1, base, base + 1]); v.bal = *rng.pick(&[32, 31, 64, 2048]) * ETH; }
            1 if st.pending => { v.act = base + rng.range(1, 4); v.aee = v.act - 5; }
            2 if st.exits > 0 => v.exit = base - rng.range(0, 3).min(base),
            // (nothing may be left of one that is leaving)
            3 if st.exits > 0 => { v.exit = base + rng.range(1, 9); if k % 3 == 0 { v.bal = 0; } }
            _ => {}
        }
        if v.exit != FAR && v.exit <= v.act { v.act = v.exit - 1; }
        v.aee = if v.act == FAR { v.aee } else { v.act.saturating_sub(7) };
        reg.vals.push(v);
    }
    if let Some(m) = reg.vals.iter().map(|v| v.exit).filter(|e| *e != FAR).max() { reg.ee = reg.ee.max(m); }
    // through the epochs
    let mut snaps = BTreeMap::new();
    let mut header = *c.blocks.range(..base * spe).next_back().unwrap().0;
    for e in base..=end {
        let fin = c.state(e).f;
        for s in e * spe..(e + 1) * spe {
            if c.blocks.contains_key(&s) {
                header = s;
                for _ in 0..st.exits {
                    let i = rng.below(reg.vals.len());
                    let v = &reg.vals[i];
                    if !v.active(e) || v.exit != FAR || !rng.chance(1, 12) || reg.vals.iter().filter(|v| v.exit == FAR).count() < 8 { continue; }
                    match rng.below(6) {
                        0 => { reg.vals[i].slashed = true; reg.exit(&spec, i, e); }
                        1 | 2 if st.cons => reg.consolidate(&spec, i, e),
                        _ => reg.exit(&spec, i, e),
                    }
                }
            }
            if c.blocks.contains_key(&s) || s == e * spe { snaps.insert(s, Snap { reg: reg.clone(), fin, header }); }
        }
        if e == end { break; }
        reg.updates(&spec, e, c.state(e + 1).f.0);
        if st.pending && rng.chance(1, 3) {
            let k = reg.vals.len() as u32 + 1;
            reg.vals.push(Val { key: k, bal: *rng.pick(&[32, 16, 64]) * ETH, slashed: false, aee: FAR, act: FAR, exit: FAR });
        }
        for _ in 0..2 {
            let i = rng.below(reg.vals.len());
            let v = &mut reg.vals[i];
            match rng.below(5) {
                0 | 4 if st.eject && v.active(e) && v.bal <= 19 * ETH => v.bal = rng.range(15, 16) * ETH,
                1 => v.bal = (v.bal + ETH).min(2048 * ETH),
                2 => v.bal = v.bal.saturating_sub(ETH).max(17 * ETH),
                3 if st.pending && v.aee == FAR => v.bal = 32 * ETH,
                _ => {}
            }
        }
    }
    let ephv = E::epochs_per_historical_vector() as u64;
    let mut mixes: BTreeMap<u64, u32> = BTreeMap::from([(0, 7), (ephv - 1, 8)]);
    for e in base.saturating_sub(4)..=end { mixes.insert(e % ephv, 20 + (e % 1000) as u32); }
    let mut l = Life { chain: c, spec, snaps, gvr: 900 + rng.range(0, 3) as u32, mixes, cache: Default::default(), reads: Default::default(), missing: Cell::new(None), clean: Default::default(), share: Default::default() };
    // every block gets a header; those of the given checkpoints a real state root
    let slots: Vec<u64> = l.chain.blocks.keys().copied().collect();
    for s in slots {
        let h = BeaconBlockHeader { slot: s, proposer_index: rng.below(n), parent_root: root(5), state_root: root(rng.range(1, 60000) as u32), body_root: root(6) };
        l.chain.headers.insert(s, h);
    }
    l.rename();
    l
}
impl Life {
    /// Names every block by its real root.
    pub fn rename(&mut self) {
        name_roots(Default::default());
        name_roots(self.chain.headers.iter().map(|(s, h)| (*s as u32 + 1, h.hash_tree_root().unwrap())).collect());
    }
    pub fn boundary(&self, e: u64) -> u64 { *self.chain.blocks.range(..=e * self.chain.spe).next_back().unwrap().0 }
    /// Gives the boundary block of an epoch its real state root.
    pub fn seal(&mut self, e: u64) {
        let s = self.boundary(e);
        self.cache.borrow_mut().clear();
        let r = self.state(s).unwrap().hash_tree_root().unwrap();
        self.chain.headers.get_mut(&s).unwrap().state_root = r;
        self.cache.borrow_mut().retain(|k, _| *k == s);
        self.rename();
    }
    pub fn state(&self, slot: u64) -> Option<StateRef> {
        if let Some(s) = self.cache.borrow().get(&slot) { return Some(s.clone()); }
        let e = slot / self.chain.spe;
        let snap = if slot == 0 { self.snaps.values().next()? } else { self.snaps.get(&slot)? };
        let mut h = self.chain.headers.get(&snap.header).cloned().unwrap_or_default();
        if snap.header == slot { h.state_root = Default::default(); }
        let f = self.spec.fork_at_epoch(e.into());
        let fork = Fork { previous_version: f.previous_version, current_version: f.current_version, epoch: f.epoch.into() };
        let validators: Vec<Validator> = snap.reg.vals.iter().map(|v| Validator {
            public_key: key(v.key).as_slice().try_into().unwrap(),
            effective_balance: v.bal, slashed: v.slashed, activation_eligibility_epoch: v.aee, activation_epoch: v.act, exit_epoch: v.exit,
            ..Default::default()
        }).collect();
        let balances: Vec<u64> = snap.reg.vals.iter().map(|v| v.bal + 12345).collect();
        macro_rules! fill {
            ($t:ident, $v:ident) => {{
                let mut b = $t { genesis_validators_root: root(self.gvr), slot, fork, latest_block_header: h, ..Default::default() };
                b.validators = validators.try_into().unwrap();
                b.balances = balances.try_into().unwrap();
                b.finalized_checkpoint = Checkpoint { epoch: snap.fin.0, root: root(snap.fin.1) };
                b.earliest_exit_epoch = snap.reg.ee;
                b.earliest_consolidation_epoch = snap.reg.ce;
                b.exit_balance_to_consume = snap.reg.eb;
                for (i, t) in &self.mixes { b.randao_mixes[*i as usize] = mix(*t).as_slice().try_into().unwrap(); }
                BeaconState::$v(b)
            }};
        }
        let st = if self.spec.fork_name_at_epoch(e.into()).fulu_enabled() { fill!(FuluBeaconState, Fulu) } else { fill!(ElectraBeaconState, Electra) };
        let st = Arc::new(st);
        self.cache.borrow_mut().insert(slot, st.clone());
        Some(st)
    }
    /// The registry as a world that can vote in an epoch.
    pub fn world<E: EthSpec>(&self, e: u64) -> World {
        let mut w = World::shape::<E>(self.spec.clone());
        w.vals = self.snaps[&(e * self.chain.spe)].reg.vals.clone();
        w.gvr = self.gvr;
        let i = w.mix_idx(e).unwrap();
        w.mixes.insert((e, i), self.mixes[&(i as u64)]);
        w
    }
    /// Votes of an epoch for its boundary block, included up to the end of the next; returns how many found no block.
    pub fn vote<E: EthSpec>(&mut self, rng: &mut Rng, e: u64, part: usize) -> usize {
        let mut lost = 0;
        let spe = self.chain.spe;
        let w = self.world::<E>(e);
        let com = w.committees(e);
        let (src, tgt) = (self.chain.state(e).j, (e, self.chain.root_of(e)));
        let mut id = 0;
        let mut seen = std::collections::BTreeSet::new();
        for s in e * spe..(e + 1) * spe {
            let row = &com[(s - e * spe) as usize];
            let who: Vec<bool> = (0..w.vals.len()).map(|_| rng.below(100) < part).collect();
            let all: Vec<usize> = (0..row.len()).collect();
            let salt = rng.next();
            for k in 0..1 + rng.below(2) as u64 {
                let vote = |v: usize| who[v] && (k == 0 || salt >> (v % 61) & 1 == 1);
                let Some(a) = w.attest(&com, s, &all, &vote, 300, src, tgt) else { continue };
                let open: Vec<u64> = self.chain.blocks.range(s + 1..(e + 2) * spe).map(|x| *x.0).filter(|x| self.chain.blocks[x].len() < 8 && !self.clean.contains(x)).take(6).collect();
                if open.is_empty() { lost += 1; continue; }
                let at = if rng.chance(3, 4) { open[0] } else { *rng.pick(&open) };
                id += 1;
                seen.extend(row.iter().flatten().copied().filter(|v| vote(*v)));
                self.chain.blocks.get_mut(&at).unwrap().push(Vote { id, src, tgt, real: real::<E>(&w, &a) });
            }
        }
        let bal = |i: &usize| w.vals[*i].bal;
        self.share.insert(e, (seen.iter().map(bal).sum(), (0..w.vals.len()).filter(|i| w.vals[*i].active(e)).map(|i| bal(&i)).sum()));
        lost
    }
}
pub fn real<E: EthSpec>(w: &World, a: &Att) -> Attestation {
    let bytes = w.real::<E>(a).as_electra().unwrap().as_ssz_bytes();
    ssz_rs::deserialize(&bytes).unwrap()
}
/// Serves the states of a life.
pub struct Lives<'a, E>(pub &'a Life, pub std::marker::PhantomData<E>);
impl<E: EthSpec> StateProvider for Lives<'_, E> {
    type Spec = E;
    fn state_at_slot(&self, slot: beacon_types::Slot) -> Result<StateRef, StateProviderError> {
        let l = self.0;
        l.reads.borrow_mut().push(slot.as_u64());
        if l.missing.get() == Some(slot.as_u64()) { return Err(StateProviderError::NotFound(slot)); }
        l.state(slot.as_u64()).ok_or(StateProviderError::NotFound(slot))
    }
}
