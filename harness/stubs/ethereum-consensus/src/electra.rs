use crate::primitives::*;
use crate::serde::as_str;
use ssz_rs::prelude::*;
pub use crate::phase0::{BeaconBlockHeader, Checkpoint, Eth1Data, Fork, PendingAttestation, SignedBeaconBlockHeader, Validator, JUSTIFICATION_BITS_LENGTH};
pub use crate::primitives::FAR_FUTURE_EPOCH;
pub use crate::primitives::ParticipationFlags;
pub use crate::altair::SyncCommittee;
pub use crate::capella::HistoricalSummary;
pub use crate::deneb::ExecutionPayloadHeader;
pub use crate::phase0::AttestationData;
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct PendingConsolidation {
    #[serde(with = "as_str")]
    pub source_index: ValidatorIndex,
    #[serde(with = "as_str")]
    pub target_index: ValidatorIndex,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Attestation<const MAX_VALIDATORS_PER_SLOT: usize, const MAX_COMMITTEES_PER_SLOT: usize> {
    pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_SLOT>,
    pub data: AttestationData,
    pub signature: BlsSignature,
    pub committee_bits: Bitvector<MAX_COMMITTEES_PER_SLOT>,
}

pub mod mainnet {
    pub use crate::phase0::mainnet::{
        EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, ETH1_DATA_VOTES_BOUND, HISTORICAL_ROOTS_LIMIT,
        MAX_VALIDATORS_PER_COMMITTEE, SLOTS_PER_HISTORICAL_ROOT, VALIDATOR_REGISTRY_LIMIT,
    };
    pub use crate::phase0::{BeaconBlockHeader, SignedBeaconBlockHeader};
    pub const BYTES_PER_LOGS_BLOOM: usize = 256;
    pub const MAX_EXTRA_DATA_BYTES: usize = 32;
    pub const SYNC_COMMITTEE_SIZE: usize = 512;
    pub const PENDING_DEPOSITS_LIMIT: usize = 134217728;
    pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 134217728;
    pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 262144;
    pub const MAX_VALIDATORS_PER_SLOT: usize = 131072;
    pub const MAX_COMMITTEES_PER_SLOT: usize = 64;
    pub const MAX_ATTESTATIONS_ELECTRA: usize = 8;
    pub type Attestation = super::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>;
}
