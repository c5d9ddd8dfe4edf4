//! Stand-in for `ethereum-consensus`: the consensus containers the host reads and proves.
//! Layouts follow the consensus specification, except that block bodies carry only the fields used
//! here (RANDAO reveal, graffiti, attestations).
pub mod fork;
pub use fork::Fork;
pub mod ssz {
    pub use ssz_rs::prelude;
    pub use ssz_rs::*;
}
pub mod serde;
pub mod primitives {
    pub use ssz_rs::ByteVector;
    pub type Root = ssz_rs::Node;
    pub type Bytes32 = ByteVector<32>;
    pub type ExecutionAddress = ByteVector<20>;
    pub type BlsPublicKey = ByteVector<48>;
    pub type BlsSignature = ByteVector<96>;
    pub type Hash32 = Bytes32;
    pub type Gwei = u64;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Version = [u8; 4];
    pub type ParticipationFlags = u8;
    pub type ValidatorIndex = usize;
    pub type CommitteeIndex = usize;
    pub type WithdrawalIndex = usize;
    pub const FAR_FUTURE_EPOCH: Epoch = Epoch::MAX;
}
pub mod phase0;
pub mod altair;
pub mod bellatrix;
pub mod capella;
pub mod deneb;
pub mod electra;
pub mod types;
