use crate::{Epoch, EthSpec, Hash256};
use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ForkName { Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas }
use ForkName::*;
impl ForkName {
    pub const ALL: [ForkName; 8] = [Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas];
    pub fn list_all() -> Vec<ForkName> { Self::ALL.to_vec() }
    pub fn latest() -> ForkName { Gloas }
    pub fn previous_fork(self) -> Option<ForkName> { (self as usize).checked_sub(1).map(|i| Self::ALL[i]) }
    pub fn next_fork(self) -> Option<ForkName> { Self::ALL.get(self as usize + 1).copied() }
    pub fn altair_enabled(self) -> bool { self >= Altair }
    pub fn bellatrix_enabled(self) -> bool { self >= Bellatrix }
    pub fn capella_enabled(self) -> bool { self >= Capella }
    pub fn deneb_enabled(self) -> bool { self >= Deneb }
    pub fn gloas_enabled(self) -> bool { self >= Gloas }
    pub fn electra_enabled(self) -> bool { self >= Electra }
    pub fn fulu_enabled(self) -> bool { self >= Fulu }
    fn lower(self) -> &'static str {
        ["base", "altair", "bellatrix", "capella", "deneb", "electra", "fulu", "gloas"][self as usize]
    }
}
impl fmt::Display for ForkName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if *self == Base { write!(f, "phase0") } else { write!(f, "{}", self.lower()) }
    }
}
impl std::str::FromStr for ForkName {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let s = s.to_lowercase();
        ForkName::ALL.into_iter().find(|f| f.lower() == s || f.to_string() == s).ok_or(format!("unknown fork name: {s}"))
    }
}
impl Serialize for ForkName { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
impl<'de> Deserialize<'de> for ForkName {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash)]
pub struct Fork {
    pub previous_version: [u8; 4],
    pub current_version: [u8; 4],
    pub epoch: Epoch,
}
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] {
        if epoch < self.epoch { self.previous_version } else { self.current_version }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Domain {
    BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit, SelectionProof, AggregateAndProof,
    SyncCommittee, ContributionAndProof, SyncCommitteeSelectionProof,
}
#[derive(Debug, Clone, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub preset_minimal: bool,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub shuffle_round_count: u8,
    pub churn_limit_quotient: u64,
    pub min_per_epoch_churn_limit: u64,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    pub max_per_epoch_activation_churn_limit: u64,
    pub effective_balance_increment: u64,
    pub min_activation_balance: u64,
    pub max_effective_balance: u64,
    pub max_effective_balance_electra: u64,
    pub ejection_balance: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_validator_withdrawability_delay: Epoch,
    pub shard_committee_period: u64,
    pub far_future_epoch: Epoch,
    pub genesis_slot: crate::Slot,
    pub seconds_per_slot: u64,
    pub genesis_fork_version: [u8; 4],
    pub altair_fork_version: [u8; 4],
    pub altair_fork_epoch: Option<Epoch>,
    pub bellatrix_fork_version: [u8; 4],
    pub bellatrix_fork_epoch: Option<Epoch>,
    pub capella_fork_version: [u8; 4],
    pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_version: [u8; 4],
    pub deneb_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4],
    pub electra_fork_epoch: Option<Epoch>,
    pub fulu_fork_version: [u8; 4],
    pub fulu_fork_epoch: Option<Epoch>,
    pub gloas_fork_version: [u8; 4],
    pub gloas_fork_epoch: Option<Epoch>,
}
impl ChainSpec {
    pub fn mainnet() -> Self {
        ChainSpec {
            config_name: Some("mainnet".into()),
            preset_minimal: false,
            max_committees_per_slot: 64,
            target_committee_size: 128,
            shuffle_round_count: 90,
            churn_limit_quotient: 65536,
            min_per_epoch_churn_limit: 4,
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            max_per_epoch_activation_churn_limit: 8,
            effective_balance_increment: 1_000_000_000,
            min_activation_balance: 32_000_000_000,
            max_effective_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            ejection_balance: 16_000_000_000,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_validator_withdrawability_delay: Epoch::new(256),
            shard_committee_period: 256,
            far_future_epoch: Epoch::new(u64::MAX),
            genesis_slot: crate::Slot::new(0),
            seconds_per_slot: 12,
            genesis_fork_version: [0, 0, 0, 0],
            altair_fork_version: [1, 0, 0, 0],
            altair_fork_epoch: Some(Epoch::new(74240)),
            bellatrix_fork_version: [2, 0, 0, 0],
            bellatrix_fork_epoch: Some(Epoch::new(144896)),
            capella_fork_version: [3, 0, 0, 0],
            capella_fork_epoch: Some(Epoch::new(194048)),
            deneb_fork_version: [4, 0, 0, 0],
            deneb_fork_epoch: Some(Epoch::new(269568)),
            electra_fork_version: [5, 0, 0, 0],
            electra_fork_epoch: Some(Epoch::new(364032)),
            fulu_fork_version: [6, 0, 0, 0],
            fulu_fork_epoch: Some(Epoch::new(411392)),
            gloas_fork_version: [7, 0, 0, 0],
            gloas_fork_epoch: None,
        }
    }
    pub fn minimal() -> Self {
        ChainSpec {
            config_name: None,
            preset_minimal: true,
            max_committees_per_slot: 4,
            target_committee_size: 4,
            shuffle_round_count: 10,
            churn_limit_quotient: 32,
            min_per_epoch_churn_limit: 2,
            min_per_epoch_churn_limit_electra: 64_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 128_000_000_000,
            max_per_epoch_activation_churn_limit: 4,
            shard_committee_period: 64,
            seconds_per_slot: 6,
            genesis_fork_version: [0, 0, 0, 1],
            altair_fork_version: [1, 0, 0, 1],
            altair_fork_epoch: None,
            bellatrix_fork_version: [2, 0, 0, 1],
            bellatrix_fork_epoch: None,
            capella_fork_version: [3, 0, 0, 1],
            capella_fork_epoch: None,
            deneb_fork_version: [4, 0, 0, 1],
            deneb_fork_epoch: None,
            electra_fork_version: [5, 0, 0, 1],
            electra_fork_epoch: None,
            fulu_fork_version: [6, 0, 0, 1],
            fulu_fork_epoch: None,
            ..Self::mainnet()
        }
    }
    pub fn fork_epoch(&self, f: ForkName) -> Option<Epoch> {
        match f {
            Base => Some(Epoch::new(0)),
            Altair => self.altair_fork_epoch,
            Bellatrix => self.bellatrix_fork_epoch,
            Capella => self.capella_fork_epoch,
            Deneb => self.deneb_fork_epoch,
            Electra => self.electra_fork_epoch,
            Fulu => self.fulu_fork_epoch,
            Gloas => self.gloas_fork_epoch,
        }
    }
    pub fn set_fork_epoch(&mut self, f: ForkName, e: Option<Epoch>) {
        match f {
            Base => {}
            Altair => self.altair_fork_epoch = e,
            Bellatrix => self.bellatrix_fork_epoch = e,
            Capella => self.capella_fork_epoch = e,
            Deneb => self.deneb_fork_epoch = e,
            Electra => self.electra_fork_epoch = e,
            Fulu => self.fulu_fork_epoch = e,
            Gloas => self.gloas_fork_epoch = e,
        }
    }
    pub fn fork_version_for_name(&self, f: ForkName) -> [u8; 4] {
        match f {
            Base => self.genesis_fork_version,
            Altair => self.altair_fork_version,
            Bellatrix => self.bellatrix_fork_version,
            Capella => self.capella_fork_version,
            Deneb => self.deneb_fork_version,
            Electra => self.electra_fork_version,
            Fulu => self.fulu_fork_version,
            Gloas => self.gloas_fork_version,
        }
    }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        ForkName::ALL.into_iter().rev().find(|f| self.fork_epoch(*f).is_some_and(|e| epoch >= e)).unwrap_or(Base)
    }
    pub fn fork_name_at_slot<E: EthSpec>(&self, slot: crate::Slot) -> ForkName {
        self.fork_name_at_epoch(slot.epoch(E::slots_per_epoch()))
    }
    pub fn fork_version_at_epoch(&self, epoch: Epoch) -> [u8; 4] {
        self.fork_version_for_name(self.fork_name_at_epoch(epoch))
    }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let cur = self.fork_name_at_epoch(epoch);
        let fork_epoch = self.fork_epoch(cur).unwrap_or(Epoch::new(0));
        let prev = if fork_epoch == Epoch::new(0) { cur } else { cur.previous_fork().unwrap_or(Base) };
        Fork {
            previous_version: self.fork_version_for_name(prev),
            current_version: self.fork_version_for_name(cur),
            epoch: fork_epoch,
        }
    }
    pub fn get_domain_constant(&self, d: Domain) -> u32 {
        match d {
            Domain::BeaconProposer => 0,
            Domain::BeaconAttester => 1,
            Domain::Randao => 2,
            Domain::Deposit => 3,
            Domain::VoluntaryExit => 4,
            Domain::SelectionProof => 5,
            Domain::AggregateAndProof => 6,
            Domain::SyncCommittee => 7,
            Domain::SyncCommitteeSelectionProof => 8,
            Domain::ContributionAndProof => 9,
        }
    }
    pub fn get_domain(&self, epoch: Epoch, domain: Domain, fork: &Fork, genesis_validators_root: Hash256) -> Hash256 {
        self.compute_domain(domain, fork.get_fork_version(epoch), genesis_validators_root)
    }
    pub fn compute_domain(&self, domain: Domain, fork_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let mut v = [0u8; 32];
        v[..4].copy_from_slice(&fork_version);
        let root = tree_hash::hash2(&v, genesis_validators_root.as_slice());
        let mut d = [0u8; 32];
        d[..4].copy_from_slice(&self.get_domain_constant(domain).to_le_bytes());
        d[4..].copy_from_slice(&root[..28]);
        d.into()
    }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        epoch.safe_add(1u64)?.safe_add(self.max_seed_lookahead)
    }
    /// Applies a runtime configuration over the preset of `E`.
    pub fn from_config<E: EthSpec>(config: &Config) -> Option<Self> {
        config.apply_to_chain_spec::<E>(&E::default_spec())
    }
}
/// A runtime chain configuration (the scalar fields of a `config.yaml`).
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Config {
    pub fields: BTreeMap<String, String>,
}
impl Config {
    fn u(&self, k: &str) -> Option<Option<u64>> {
        match self.fields.get(k) {
            None => Some(None),
            Some(v) => v.replace('_', "").parse().ok().map(Some),
        }
    }
    fn ver(&self, k: &str) -> Option<Option<[u8; 4]>> {
        match self.fields.get(k) {
            None => Some(None),
            Some(v) => hex::decode(v.trim_start_matches("0x")).ok().and_then(|b| b.try_into().ok()).map(Some),
        }
    }
    pub fn from_chain_spec<E: EthSpec>(s: &ChainSpec) -> Self {
        let mut f = BTreeMap::new();
        let mut put = |k: &str, v: String| { f.insert(k.to_string(), v); };
        put("PRESET_BASE", if s.preset_minimal { "minimal" } else { "mainnet" }.into());
        if let Some(n) = &s.config_name { put("CONFIG_NAME", n.clone()); }
        put("GENESIS_FORK_VERSION", format!("0x{}", hex::encode(s.genesis_fork_version)));
        for k in &ForkName::ALL[1..] {
            let n = k.lower().to_uppercase();
            put(&format!("{n}_FORK_VERSION"), format!("0x{}", hex::encode(s.fork_version_for_name(*k))));
            if let Some(e) = s.fork_epoch(*k) { put(&format!("{n}_FORK_EPOCH"), e.to_string()); }
        }
        put("CHURN_LIMIT_QUOTIENT", s.churn_limit_quotient.to_string());
        put("MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", s.min_per_epoch_churn_limit_electra.to_string());
        put("MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", s.max_per_epoch_activation_exit_churn_limit.to_string());
        put("SHARD_COMMITTEE_PERIOD", s.shard_committee_period.to_string());
        put("EJECTION_BALANCE", s.ejection_balance.to_string());
        put("SECONDS_PER_SLOT", s.seconds_per_slot.to_string());
        Config { fields: f }
    }
    pub fn apply_to_chain_spec<E: EthSpec>(&self, base: &ChainSpec) -> Option<ChainSpec> {
        let mut s = base.clone();
        let preset = self.fields.get("PRESET_BASE")?;
        if (preset == "minimal") != s.preset_minimal { return None; }
        s.config_name = self.fields.get("CONFIG_NAME").cloned();
        if let Some(v) = self.ver("GENESIS_FORK_VERSION")? { s.genesis_fork_version = v; }
        for k in &ForkName::ALL[1..] {
            let n = k.lower().to_uppercase();
            if let Some(v) = self.ver(&format!("{n}_FORK_VERSION"))? {
                match k {
                    Altair => s.altair_fork_version = v,
                    Bellatrix => s.bellatrix_fork_version = v,
                    Capella => s.capella_fork_version = v,
                    Deneb => s.deneb_fork_version = v,
                    Electra => s.electra_fork_version = v,
                    Fulu => s.fulu_fork_version = v,
                    _ => s.gloas_fork_version = v,
                }
            }
            let e = self.u(&format!("{n}_FORK_EPOCH"))?.filter(|e| *e != u64::MAX).map(Epoch::new);
            s.set_fork_epoch(*k, e);
        }
        macro_rules! field { ($k:expr, $f:ident) => { if let Some(v) = self.u($k)? { s.$f = v; } }; }
        field!("CHURN_LIMIT_QUOTIENT", churn_limit_quotient);
        field!("MIN_PER_EPOCH_CHURN_LIMIT", min_per_epoch_churn_limit);
        field!("MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", min_per_epoch_churn_limit_electra);
        field!("MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", max_per_epoch_activation_exit_churn_limit);
        field!("MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT", max_per_epoch_activation_churn_limit);
        field!("SHARD_COMMITTEE_PERIOD", shard_committee_period);
        field!("EJECTION_BALANCE", ejection_balance);
        field!("SECONDS_PER_SLOT", seconds_per_slot);
        if let Some(v) = self.u("MIN_VALIDATOR_WITHDRAWABILITY_DELAY")? { s.min_validator_withdrawability_delay = Epoch::new(v); }
        Some(s)
    }
}
