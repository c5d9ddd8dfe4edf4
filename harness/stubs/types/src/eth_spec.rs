use crate::{ChainSpec, Error};
use ssz_types::typenum::{Unsigned, U131072, U2048, U4, U64, U65536, U8, U8192, U32, UInt, UTerm, Prod};
use std::fmt::Debug;
pub type U16384 = Prod<U8192, ssz_types::typenum::U2>;
pub type U256 = ssz_types::typenum::U256;
type _Z = UInt<UTerm, ssz_types::typenum::B1>;
pub trait EthSpec: 'static + Default + Sync + Send + Clone + Debug + PartialEq + Eq {
    type SlotsPerEpoch: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type EpochsPerHistoricalVector: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type SlotsPerHistoricalRoot: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type MaxCommitteesPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + std::hash::Hash;
    type MaxValidatorsPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + std::hash::Hash;
    type MaxValidatorsPerCommittee: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + std::hash::Hash;
    fn default_spec() -> ChainSpec;
    fn slots_per_epoch() -> u64 { Self::SlotsPerEpoch::to_u64() }
    fn epochs_per_historical_vector() -> usize { Self::EpochsPerHistoricalVector::to_usize() }
    fn slots_per_historical_root() -> usize { Self::SlotsPerHistoricalRoot::to_usize() }
    fn max_committees_per_slot() -> usize { Self::MaxCommitteesPerSlot::to_usize() }
    fn get_committee_count_per_slot(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Self::get_committee_count_per_slot_with(active_validator_count, spec.max_committees_per_slot, spec.target_committee_size)
    }
    fn get_committee_count_per_slot_with(n: usize, max_committees_per_slot: usize, target_committee_size: usize) -> Result<usize, Error> {
        let spe = Self::slots_per_epoch() as usize;
        Ok(std::cmp::max(1, std::cmp::min(max_committees_per_slot, n / spe / target_committee_size)))
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec {
    type SlotsPerEpoch = U32;
    type EpochsPerHistoricalVector = U65536;
    type SlotsPerHistoricalRoot = U8192;
    type MaxCommitteesPerSlot = U64;
    type MaxValidatorsPerSlot = U131072;
    type MaxValidatorsPerCommittee = U2048;
    fn default_spec() -> ChainSpec { ChainSpec::mainnet() }
}
#[derive(Clone, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec {
    type SlotsPerEpoch = U8;
    type EpochsPerHistoricalVector = U64;
    type SlotsPerHistoricalRoot = U64;
    type MaxCommitteesPerSlot = U4;
    type MaxValidatorsPerSlot = U8192;
    type MaxValidatorsPerCommittee = U2048;
    fn default_spec() -> ChainSpec { ChainSpec::minimal() }
}
