use crate::{Checkpoint, Epoch, EthSpec, Hash256, SignedRoot, Slot};
use bls::AggregateSignature;
use ssz::{Decode, DecodeError, Encode};
use ssz_types::{BitList, BitVector};
use tree_hash::{merkle_chunks, TreeHash};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct AttestationData {
    pub slot: Slot,
    pub index: u64,
    pub beacon_block_root: Hash256,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
impl TreeHash for AttestationData {
    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Container }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding { unreachable!() }
    fn tree_hash_packing_factor() -> usize { unreachable!() }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_chunks(&[
            self.slot.tree_hash_root().0,
            self.index.tree_hash_root().0,
            self.beacon_block_root.0,
            self.source.tree_hash_root().0,
            self.target.tree_hash_root().0,
        ])
    }
}
impl SignedRoot for AttestationData {}
impl Encode for AttestationData {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        self.slot.ssz_append(b);
        self.index.ssz_append(b);
        self.beacon_block_root.ssz_append(b);
        for c in [self.source, self.target] {
            c.epoch.ssz_append(b);
            c.root.ssz_append(b);
        }
    }
}
impl Decode for AttestationData {
    fn is_ssz_fixed_len() -> bool { true }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if b.len() != 128 {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: 128 });
        }
        let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let r = |i: usize| Hash256::from_slice(&b[i..i + 32]);
        Ok(AttestationData {
            slot: Slot::new(u(0)),
            index: u(8),
            beacon_block_root: r(16),
            source: Checkpoint { epoch: Epoch::new(u(48)), root: r(56) },
            target: Checkpoint { epoch: Epoch::new(u(88)), root: r(96) },
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerCommittee>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerSlot>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub committee_bits: BitVector<E::MaxCommitteesPerSlot>,
}
impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> {
        self.committee_bits.iter().enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect()
    }
    pub fn committee_index(&self) -> Option<u64> { self.get_committee_indices().first().copied() }
}
fn sig(b: &[u8]) -> Result<AggregateSignature, DecodeError> {
    AggregateSignature::deserialize(b).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
}
fn bits<T>(r: Result<T, ssz_types::Error>) -> Result<T, DecodeError> {
    r.map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
}
fn parts(b: &[u8], fixed: usize) -> Result<(), DecodeError> {
    if b.len() < fixed {
        return Err(DecodeError::InvalidByteLength { len: b.len(), expected: fixed });
    }
    let off = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    if off != fixed {
        return Err(DecodeError::OffsetIntoFixedPortion(off));
    }
    Ok(())
}
impl<E: EthSpec> Encode for AttestationElectra<E> {
    fn ssz_append(&self, b: &mut Vec<u8>) {
        let cb = self.committee_bits.clone().into_bytes();
        b.extend_from_slice(&((4 + 128 + 96 + cb.len()) as u32).to_le_bytes());
        self.data.ssz_append(b);
        b.extend_from_slice(&self.signature.serialize());
        b.extend_from_slice(&cb);
        b.extend_from_slice(&self.aggregation_bits.clone().into_bytes());
    }
}
impl<E: EthSpec> Decode for AttestationElectra<E> {
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let cl = E::max_committees_per_slot().div_ceil(8);
        let fixed = 4 + 128 + 96 + cl;
        parts(b, fixed)?;
        Ok(Self {
            data: AttestationData::from_ssz_bytes(&b[4..132])?,
            signature: sig(&b[132..228])?,
            committee_bits: bits(BitVector::from_bytes(&b[228..228 + cl]))?,
            aggregation_bits: bits(BitList::from_bytes(&b[fixed..]))?,
        })
    }
}
impl<E: EthSpec> Encode for AttestationBase<E> {
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&((4 + 128 + 96) as u32).to_le_bytes());
        self.data.ssz_append(b);
        b.extend_from_slice(&self.signature.serialize());
        b.extend_from_slice(&self.aggregation_bits.clone().into_bytes());
    }
}
impl<E: EthSpec> Decode for AttestationBase<E> {
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        parts(b, 228)?;
        Ok(Self {
            data: AttestationData::from_ssz_bytes(&b[4..132])?,
            signature: sig(&b[132..228])?,
            aggregation_bits: bits(BitList::from_bytes(&b[228..]))?,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Attestation<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum AttestationRef<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<E: EthSpec> Attestation<E> {
    pub fn data(&self) -> &AttestationData {
        match self {
            Attestation::Base(a) => &a.data,
            Attestation::Electra(a) => &a.data,
        }
    }
    pub fn data_mut(&mut self) -> &mut AttestationData {
        match self {
            Attestation::Base(a) => &mut a.data,
            Attestation::Electra(a) => &mut a.data,
        }
    }
    pub fn signature(&self) -> &AggregateSignature {
        match self {
            Attestation::Base(a) => &a.signature,
            Attestation::Electra(a) => &a.signature,
        }
    }
    pub fn is_aggregation_bits_zero(&self) -> bool { self.num_set_aggregation_bits() == 0 }
    pub fn get_aggregation_bit(&self, i: usize) -> Result<bool, ssz_types::Error> {
        match self {
            Attestation::Base(a) => a.aggregation_bits.get(i),
            Attestation::Electra(a) => a.aggregation_bits.get(i),
        }
    }
    pub fn get_committee_indices_map(&self) -> std::collections::HashSet<u64> {
        match self {
            Attestation::Base(a) => [a.data.index].into(),
            Attestation::Electra(a) => a.get_committee_indices().into_iter().collect(),
        }
    }
    pub fn committee_index(&self) -> Option<u64> { self.to_ref().committee_index() }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            Attestation::Base(a) => a.aggregation_bits.num_set_bits(),
            Attestation::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, crate::Error> {
        match self {
            Attestation::Electra(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, crate::Error> {
        match self {
            Attestation::Base(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn to_ref(&self) -> AttestationRef<'_, E> {
        match self {
            Attestation::Base(a) => AttestationRef::Base(a),
            Attestation::Electra(a) => AttestationRef::Electra(a),
        }
    }
}
impl<'a, E: EthSpec> AttestationRef<'a, E> {
    pub fn data(&self) -> &'a AttestationData {
        match self {
            AttestationRef::Base(a) => &a.data,
            AttestationRef::Electra(a) => &a.data,
        }
    }
    pub fn signature(&self) -> &'a AggregateSignature {
        match self {
            AttestationRef::Base(a) => &a.signature,
            AttestationRef::Electra(a) => &a.signature,
        }
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            AttestationRef::Base(a) => a.aggregation_bits.num_set_bits(),
            AttestationRef::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            AttestationRef::Base(a) => Some(a.data.index),
            AttestationRef::Electra(a) => a.committee_index(),
        }
    }
    pub fn as_electra(&self) -> Result<&'a AttestationElectra<E>, crate::Error> {
        match self {
            AttestationRef::Electra(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn clone_as_attestation(self) -> Attestation<E> {
        match self {
            AttestationRef::Base(a) => Attestation::Base(a.clone()),
            AttestationRef::Electra(a) => Attestation::Electra(a.clone()),
        }
    }
}
/// The "on disk" forms: an SSZ union with a one-byte selector.
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationOnDisk<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationRefOnDisk<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> {
    fn from(a: AttestationRef<'a, E>) -> Self {
        match a {
            AttestationRef::Base(a) => AttestationRefOnDisk::Base(a),
            AttestationRef::Electra(a) => AttestationRefOnDisk::Electra(a),
        }
    }
}
impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> {
    fn from(a: AttestationOnDisk<E>) -> Self {
        match a {
            AttestationOnDisk::Base(a) => Attestation::Base(a),
            AttestationOnDisk::Electra(a) => Attestation::Electra(a),
        }
    }
}
impl<'a, E: EthSpec> Encode for AttestationRefOnDisk<'a, E> {
    fn ssz_append(&self, b: &mut Vec<u8>) {
        match self {
            AttestationRefOnDisk::Base(a) => {
                b.push(0);
                a.ssz_append(b)
            }
            AttestationRefOnDisk::Electra(a) => {
                b.push(1);
                a.ssz_append(b)
            }
        }
    }
}
impl<E: EthSpec> Decode for AttestationOnDisk<E> {
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        match b.first() {
            Some(0) => Ok(AttestationOnDisk::Base(AttestationBase::from_ssz_bytes(&b[1..])?)),
            Some(1) => Ok(AttestationOnDisk::Electra(AttestationElectra::from_ssz_bytes(&b[1..])?)),
            Some(x) => Err(DecodeError::UnionSelectorInvalid(*x)),
            None => Err(DecodeError::InvalidByteLength { len: 0, expected: 1 }),
        }
    }
}
