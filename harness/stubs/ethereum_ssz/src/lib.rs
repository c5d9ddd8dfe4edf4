//! Stand-in for `ethereum_ssz` (trait surface only; the implementors live in the stand-in `types`).
#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
}
pub trait Encode {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_bytes_len(&self) -> usize { self.as_ssz_bytes().len() }
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.ssz_append(&mut v);
        v
    }
}
pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}
impl Encode for u64 {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()) }
}
impl Decode for u64 {
    fn is_ssz_fixed_len() -> bool { true }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(u64::from_le_bytes(b.try_into().map_err(|_| DecodeError::InvalidByteLength { len: b.len(), expected: 8 })?))
    }
}
impl Encode for alloy_primitives::B256 {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_slice()) }
}
impl Decode for alloy_primitives::B256 {
    fn is_ssz_fixed_len() -> bool { true }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if b.len() != 32 {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: 32 });
        }
        Ok(alloy_primitives::B256::from_slice(b))
    }
}
