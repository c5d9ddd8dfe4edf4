//! Stand-in for the `tree_hash` crate (the parts of its API a consumer can reach).
use sha2::Digest;
use smallvec::SmallVec;
pub type Hash256 = alloy_primitives::B256;
pub type PackedEncoding = SmallVec<[u8; 32]>;
pub const BYTES_PER_CHUNK: usize = 32;

#[derive(Debug, PartialEq, Clone)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}
pub fn hash2(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    Digest::update(&mut h, a);
    Digest::update(&mut h, b);
    h.finalize().into()
}
/// Root of the given chunks, padded with zero chunks to the next power of two.
pub fn merkle_chunks(chunks: &[[u8; 32]]) -> Hash256 {
    let n = chunks.len().max(1).next_power_of_two();
    let mut layer: Vec<[u8; 32]> = chunks.to_vec();
    layer.resize(n, [0; 32]);
    while layer.len() > 1 {
        layer = layer.chunks(2).map(|p| hash2(&p[0], &p[1])).collect();
    }
    layer[0].into()
}
pub fn merkle_root(bytes: &[u8], minimum_leaf_count: usize) -> Hash256 {
    let mut chunks: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            x
        })
        .collect();
    if chunks.len() < minimum_leaf_count {
        chunks.resize(minimum_leaf_count, [0; 32]);
    }
    merkle_chunks(&chunks)
}
pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(length as u64).to_le_bytes());
    hash2(&root[..], &l).into()
}
macro_rules! impl_uint {
    ($($t:ty, $n:expr);*) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(&self.to_le_bytes()) }
            fn tree_hash_packing_factor() -> usize { 32 / $n }
            fn tree_hash_root(&self) -> Hash256 {
                let mut x = [0u8; 32];
                x[..$n].copy_from_slice(&self.to_le_bytes());
                x.into()
            }
        }
    )*};
}
impl_uint!(u8, 1; u16, 2; u32, 4; u64, 8);
impl TreeHash for bool {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { (*self as u8).tree_hash_packed_encoding() }
    fn tree_hash_packing_factor() -> usize { 32 }
    fn tree_hash_root(&self) -> Hash256 { (*self as u8).tree_hash_root() }
}
impl TreeHash for Hash256 {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Vector }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(self.as_slice()) }
    fn tree_hash_packing_factor() -> usize { 1 }
    fn tree_hash_root(&self) -> Hash256 { *self }
}
