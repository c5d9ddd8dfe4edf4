//! Stand-in for lighthouse's `types` crate: the parts The Signal uses, with lighthouse's semantics
//! (saturating epoch/slot operators, fork schedule, domains, SSZ roots and encodings).
extern crate self as types;
mod epoch_slot;
pub mod attestation;
mod chain_spec;
mod eth_spec;
pub mod beacon_state;
pub use attestation::{
    Attestation, AttestationBase, AttestationData, AttestationElectra, AttestationRef,
};
pub use beacon_state::{
    compute_committee_index_in_epoch, compute_committee_range_in_epoch, epoch_committee_count,
    BeaconState, Error,
};
pub use beacon_state::Error as BeaconStateError;
pub use bls::{
    AggregateSignature, Keypair, PublicKey, PublicKeyBytes, SecretKey, Signature,
};
pub use chain_spec::{ChainSpec, Config, Domain, Fork, ForkName};
pub use epoch_slot::{Epoch, Slot};
pub use eth_spec::{EthSpec, MainnetEthSpec, MinimalEthSpec};
pub use ssz_types::{typenum, typenum::Unsigned, BitList, BitVector};

pub type Hash256 = alloy_primitives::B256;
pub type CommitteeIndex = u64;

pub trait FixedBytesExtended {
    fn from_low_u64_be(v: u64) -> Self;
    fn from_low_u64_le(v: u64) -> Self;
    fn zero() -> Self;
}
impl FixedBytesExtended for Hash256 {
    fn from_low_u64_be(v: u64) -> Self {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&v.to_be_bytes());
        b.into()
    }
    fn from_low_u64_le(v: u64) -> Self {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&v.to_le_bytes());
        b.into()
    }
    fn zero() -> Self { Hash256::ZERO }
}
pub trait SignedRoot: tree_hash::TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 {
        tree_hash::merkle_chunks(&[self.tree_hash_root().0, domain.0])
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Checkpoint {
    pub epoch: Epoch,
    pub root: Hash256,
}
impl tree_hash::TreeHash for Checkpoint {
    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Container }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding { unreachable!("Struct should never be packed.") }
    fn tree_hash_packing_factor() -> usize { unreachable!("Struct should never be packed.") }
    fn tree_hash_root(&self) -> Hash256 { tree_hash::merkle_chunks(&[self.epoch.tree_hash_root().0, self.root.0]) }
}
