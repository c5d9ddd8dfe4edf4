use crate::primitives::*;
use crate::serde::{as_str, seq_of_str};
use ssz_rs::prelude::*;
pub use crate::phase0::{BeaconBlockHeader, Checkpoint, Eth1Data, Fork, PendingAttestation, SignedBeaconBlockHeader, Validator, JUSTIFICATION_BITS_LENGTH};
pub use crate::primitives::FAR_FUTURE_EPOCH;
pub use crate::primitives::ParticipationFlags;
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct SyncCommittee<const SYNC_COMMITTEE_SIZE: usize> {
    #[serde(rename = "pubkeys")]
    pub public_keys: Vector<BlsPublicKey, SYNC_COMMITTEE_SIZE>,
    #[serde(rename = "aggregate_pubkey")]
    pub aggregate_public_key: BlsPublicKey,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct BeaconState<const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const SYNC_COMMITTEE_SIZE: usize> {
    #[serde(with = "as_str")]
    pub genesis_time: u64,
    pub genesis_validators_root: Root,
    #[serde(with = "as_str")]
    pub slot: Slot,
    pub fork: Fork,
    pub latest_block_header: BeaconBlockHeader,
    pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
    pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
    pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
    pub eth1_data: Eth1Data,
    pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
    #[serde(with = "as_str")]
    pub eth1_deposit_index: u64,
    pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
    #[serde(with = "seq_of_str")]
    pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
    pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
    #[serde(with = "seq_of_str")]
    pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
    #[serde(with = "seq_of_str")]
    pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
    #[serde(with = "seq_of_str")]
    pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
    pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
    pub previous_justified_checkpoint: Checkpoint,
    pub current_justified_checkpoint: Checkpoint,
    pub finalized_checkpoint: Checkpoint,
    #[serde(with = "seq_of_str")]
    pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
    pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
    pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
}
