//! A simulated canonical chain: blocks with votes, and the consensus states they lead to.
use crate::util::*;
use beacon_types::{EthSpec, ChainSpec, Unsigned};
use ethereum_consensus::electra::mainnet::Attestation;
use ethereum_consensus::phase0::{AttestationData, BeaconBlockHeader, Checkpoint, SignedBeaconBlockHeader};
use ethereum_consensus::types::{electra, mainnet::BeaconBlock};
use host::ChainReader;
use serde_json::{json, Value};
use ssz_types::typenum;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Display;
use z_core::ConsensusState;

/// The mainnet containers with short epochs.
#[derive(Clone, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct ShortSpec;
impl EthSpec for ShortSpec {
    type SlotsPerEpoch = typenum::U8;
    type EpochsPerHistoricalVector = typenum::U65536;
    type SlotsPerHistoricalRoot = typenum::U8192;
    type MaxCommitteesPerSlot = typenum::U64;
    type MaxValidatorsPerSlot = typenum::U131072;
    type MaxValidatorsPerCommittee = typenum::U2048;
    fn default_spec() -> ChainSpec { ChainSpec::mainnet() }
}
pub fn spe<E: EthSpec>() -> u64 { E::SlotsPerEpoch::to_u64() }

pub type C = (u64, u32);
#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub j: C,
    pub pj: C,
    pub f: C,
    pub b: [bool; 4],
}
pub const START: St = St { j: (0, 0), pj: (0, 0), f: (0, 0), b: [false; 4] };
/// consensus-specs weigh_justification_and_finalization at the end of epoch n.
pub fn end_epoch(s: &St, n: u64, p: bool, c: bool, root: &dyn Fn(u64) -> u32) -> St {
    if n <= 1 {
        return s.clone();
    }
    let b = [c, p || s.b[0], s.b[1], s.b[2]];
    let mut j = s.j;
    if p { j = (n - 1, root(n - 1)); }
    if c { j = (n, root(n)); }
    let mut f = s.f;
    if b[1] && b[2] && b[3] && s.pj.0 + 3 == n { f = s.pj; }
    if b[1] && b[2] && s.pj.0 + 2 == n { f = s.pj; }
    if b[0] && b[1] && b[2] && s.j.0 + 2 == n { f = s.j; }
    if b[0] && b[1] && s.j.0 + 1 == n { f = s.j; }
    St { j, pj: s.j, f, b }
}
#[derive(Clone, Debug)]
pub struct Vote {
    pub id: u32,
    pub src: C,
    pub tgt: C,
    pub real: Attestation,
}
pub struct Chain {
    pub spe: u64,
    pub base: u64, // first epoch
    pub head: u64,
    pub headers: BTreeMap<u64, BeaconBlockHeader>,
    pub bits: Vec<(bool, bool)>,
    pub blocks: BTreeMap<u64, Vec<Vote>>,
    pub states: Vec<St>,
    pub fault: Option<u64>, // the n-th request fails
    pub requests: Cell<u64>,
}
impl Chain {
    pub fn root_of(&self, e: u64) -> u32 { *self.blocks.range(..=e * self.spe).next_back().unwrap().0 as u32 + 1 }
    /// Derives the consensus states from the history.
    pub fn derive(&mut self) {
        self.states = vec![if self.base == 0 { START } else {
            let b = self.base;
            let at = |e: u64| (e, self.root_of(e));
            St { j: at(b - 1), pj: at(b - 2), f: at(b - 2), b: [true; 4] }
        }];
        for n in self.base..self.head / self.spe {
            let (p, c) = self.bits[(n - self.base) as usize];
            let s = end_epoch(self.state(n), n, p, c, &|e| self.root_of(e));
            self.states.push(s);
        }
    }
    pub fn state(&self, e: u64) -> &St { &self.states[(e - self.base) as usize] }
    pub fn header(&self, slot: u64) -> SignedBeaconBlockHeader {
        let message = self.headers.get(&slot).cloned().unwrap_or(BeaconBlockHeader { slot, ..Default::default() });
        SignedBeaconBlockHeader { message, ..Default::default() }
    }
    fn tick(&self) -> anyhow::Result<()> {
        let n = self.requests.get() + 1;
        self.requests.set(n);
        assert!(n < 20000, "asks for ever more");
        anyhow::ensure!(Some(n) != self.fault, "connection reset");
        Ok(())
    }
    pub fn json(&self) -> Value {
        json!({"spe": self.spe, "head": self.head, "bits": self.bits, "roots": (0..=self.head / self.spe).map(|e| self.root_of(e)).collect::<Vec<_>>(),
            "states": self.states.iter().map(|s| json!([s.j, s.f])).collect::<Vec<_>>(),
            "blocks": self.blocks.iter().map(|(s, v)| json!([s, v.iter().map(|a| json!([a.id, a.src, a.tgt])).collect::<Vec<_>>()])).collect::<Vec<_>>()})
    }
}
pub fn vote(rng: &mut Rng, id: u32, slot: u64, src: C, tgt: C) -> Vote {
    let n = rng.range(1, 20) as usize;
    let cp = |c: C| Checkpoint { epoch: c.0, root: root(c.1) };
    let mut a = Attestation { aggregation_bits: (0..n).map(|_| rng.chance(2, 3)).collect(), ..Default::default() };
    a.data = AttestationData { slot, index: 0, beacon_block_root: root(rng.range(1, 9000) as u32), source: cp(src), target: cp(tgt) };
    a.committee_bits.set(rng.below(64), true);
    a.signature[0] = 0x80;
    a.signature[92..].copy_from_slice(&id.to_le_bytes());
    Vote { id, src, tgt, real: a }
}
pub fn block(c: &Chain, s: u64) -> Option<BeaconBlock> {
    c.blocks.get(&s).map(|v| {
        let mut b = electra::BeaconBlock { slot: s, ..Default::default() };
        b.body.attestations = v.iter().map(|a| a.real.clone()).collect::<Vec<_>>().try_into().unwrap();
        BeaconBlock::Electra(b)
    })
}
impl ChainReader for &Chain {
    async fn get_block_header(&self, id: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        self.tick()?;
        let id = id.to_string();
        Ok(match id.parse::<u64>() {
            Ok(s) => self.blocks.contains_key(&s).then(|| self.header(s)),
            Err(_) => self.blocks.keys().find(|s| root(**s as u32 + 1).to_string() == id).map(|s| self.header(*s)),
        })
    }
    async fn get_block(&self, id: impl Display) -> anyhow::Result<Option<BeaconBlock>> {
        self.tick()?;
        let s: u64 = id.to_string().parse()?;
        Ok(block(self, s))
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<ConsensusState> {
        self.tick()?;
        let s: u64 = id.to_string().parse()?;
        anyhow::ensure!(s <= self.head, "slot {s} is beyond the head");
        anyhow::ensure!(s / self.spe >= self.base, "slot {s} was pruned");
        let st = self.state(s / self.spe);
        let cp = |c: C| z_core::Checkpoint::new(c.0.into(), root(c.1));
        Ok(ConsensusState::new(cp(st.j), cp(st.f)))
    }
}
