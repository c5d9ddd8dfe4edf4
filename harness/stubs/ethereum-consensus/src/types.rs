//! Fork-independent views of blocks.
use crate::primitives::*;
use crate::serde::as_str;
use ssz_rs::prelude::*;

macro_rules! body {
    ($m:ident, $att:ty, $max:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
            #[serde(deny_unknown_fields)]
            pub struct BeaconBlockBody {
                pub randao_reveal: BlsSignature,
                pub graffiti: Bytes32,
                pub attestations: List<$att, { $max }>,
            }
            #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
            pub struct BeaconBlock {
                #[serde(with = "as_str")]
                pub slot: Slot,
                #[serde(with = "as_str")]
                pub proposer_index: ValidatorIndex,
                pub parent_root: Root,
                pub state_root: Root,
                pub body: BeaconBlockBody,
            }
        }
    };
}
body!(phase0, crate::phase0::Attestation<2048>, 128);
body!(electra, crate::electra::mainnet::Attestation, 8);

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
#[serde(untagged)]
pub enum BeaconBlock {
    Electra(electra::BeaconBlock),
    Phase0(phase0::BeaconBlock),
    Altair(phase0::BeaconBlock),
    Bellatrix(phase0::BeaconBlock),
    Capella(phase0::BeaconBlock),
    Deneb(phase0::BeaconBlock),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BeaconBlockBodyRef<'a> {
    Phase0(&'a phase0::BeaconBlockBody),
    Altair(&'a phase0::BeaconBlockBody),
    Bellatrix(&'a phase0::BeaconBlockBody),
    Capella(&'a phase0::BeaconBlockBody),
    Deneb(&'a phase0::BeaconBlockBody),
    Electra(&'a electra::BeaconBlockBody),
}
macro_rules! each {
    ($s:ident, $b:ident => $e:expr) => {
        match $s {
            BeaconBlock::Electra($b) => $e,
            BeaconBlock::Phase0($b) | BeaconBlock::Altair($b) | BeaconBlock::Bellatrix($b) | BeaconBlock::Capella($b) | BeaconBlock::Deneb($b) => $e,
        }
    };
}
impl BeaconBlock {
    pub fn version(&self) -> crate::Fork {
        match self {
            BeaconBlock::Electra(_) => crate::Fork::Electra,
            BeaconBlock::Phase0(_) => crate::Fork::Phase0,
            BeaconBlock::Altair(_) => crate::Fork::Altair,
            BeaconBlock::Bellatrix(_) => crate::Fork::Bellatrix,
            BeaconBlock::Capella(_) => crate::Fork::Capella,
            BeaconBlock::Deneb(_) => crate::Fork::Deneb,
        }
    }
    pub fn slot(&self) -> Slot { each!(self, b => b.slot) }
    pub fn proposer_index(&self) -> ValidatorIndex { each!(self, b => b.proposer_index) }
    pub fn parent_root(&self) -> Root { each!(self, b => b.parent_root) }
    pub fn state_root(&self) -> Root { each!(self, b => b.state_root) }
    pub fn body(&self) -> BeaconBlockBodyRef<'_> {
        match self {
            BeaconBlock::Electra(b) => BeaconBlockBodyRef::Electra(&b.body),
            BeaconBlock::Phase0(b) => BeaconBlockBodyRef::Phase0(&b.body),
            BeaconBlock::Altair(b) => BeaconBlockBodyRef::Altair(&b.body),
            BeaconBlock::Bellatrix(b) => BeaconBlockBodyRef::Bellatrix(&b.body),
            BeaconBlock::Capella(b) => BeaconBlockBodyRef::Capella(&b.body),
            BeaconBlock::Deneb(b) => BeaconBlockBodyRef::Deneb(&b.body),
        }
    }
    pub fn electra(&self) -> Option<&electra::BeaconBlock> {
        match self {
            BeaconBlock::Electra(b) => Some(b),
            _ => None,
        }
    }
}
impl<'a> BeaconBlockBodyRef<'a> {
    pub fn electra(&self) -> Option<&'a electra::BeaconBlockBody> {
        match self {
            BeaconBlockBodyRef::Electra(b) => Some(b),
            _ => None,
        }
    }
}
impl HashTreeRoot for BeaconBlock {
    fn tree(&self) -> ssz_rs::Tree { each!(self, b => b.tree()) }
}
pub mod mainnet {
    pub use super::{BeaconBlock, BeaconBlockBodyRef};
}
