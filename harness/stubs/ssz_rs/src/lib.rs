//! Stand-in for `ssz_rs`: SSZ encoding, Merkleization, generalized indices and node proofs.
extern crate self as ssz_rs;
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize};
mod tree;
mod types;
pub use tree::Tree;
pub use types::{Bitlist, Bitvector, ByteList, ByteVector, List, Vector};

pub type Node = alloy_primitives::B256;
pub type GeneralizedIndex = usize;
pub type Path<'a> = &'a [PathElement];

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Index(usize),
    Field(String),
    Length,
    Selector,
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self { PathElement::Index(i) }
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self { PathElement::Field(s.to_string()) }
}
#[derive(Debug, thiserror::Error, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    #[error("invalid generalized index")]
    InvalidGeneralizedIndex,
    #[error("invalid path element")]
    InvalidPathElement,
    #[error("invalid proof")]
    InvalidProof,
    #[error("node does not exist")]
    NoInnerElement,
}
#[derive(Debug, thiserror::Error, Clone, PartialEq, Eq)]
pub enum SerializeError {
    #[error("encoding too long")]
    MaximumEncodedLengthExceeded,
    #[error("instance invalid")]
    InvalidInstance,
}
#[derive(Debug, thiserror::Error, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    #[error("expected further input: provided {provided}, expected {expected}")]
    ExpectedFurtherInput { provided: usize, expected: usize },
    #[error("additional input: provided {provided}, expected {expected}")]
    AdditionalInput { provided: usize, expected: usize },
    #[error("invalid byte {0}")]
    InvalidByte(u8),
    #[error("invalid offsets")]
    InvalidOffsets,
    #[error("invalid input")]
    InvalidInput,
    #[error("bound exceeded")]
    InvalidBound,
}
pub trait Serializable {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize: Serializable {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Serializable + Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait HashTreeRoot {
    #[doc(hidden)]
    fn tree(&self) -> Tree;
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.tree().root()) }
    /// Basic types are packed into chunks.
    fn is_composite_type() -> bool
    where
        Self: Sized,
    {
        true
    }
}
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize { 1 }
    fn item_length() -> usize { 32 }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(parent: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError>;
}
pub trait Prove: HashTreeRoot + GeneralizedIndexable {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> { Ok(self.tree()) }
    fn prove(&self, path: Path) -> Result<(proofs::Proof, Node), MerkleizationError>
    where
        Self: Sized,
    {
        let mut p = proofs::Prover::from(Self::generalized_index(path)?);
        p.compute_proof(self)?;
        Ok((p.into_proof(), self.hash_tree_root()?))
    }
}
pub trait SimpleSerialize: Serialize + Deserialize + HashTreeRoot {}

pub fn serialize<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut b = Vec::new();
    v.serialize(&mut b)?;
    Ok(b)
}
pub fn deserialize<T: Deserialize>(b: &[u8]) -> Result<T, DeserializeError> { T::deserialize(b) }

pub mod proofs {
    use super::*;
    pub use super::Prove;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Proof {
        pub leaf: Node,
        pub branch: Vec<Node>,
        pub index: GeneralizedIndex,
    }
    pub struct Prover {
        proof: Proof,
    }
    impl From<GeneralizedIndex> for Prover {
        fn from(index: GeneralizedIndex) -> Self { Prover { proof: Proof { leaf: Node::ZERO, branch: vec![], index } } }
    }
    impl Prover {
        pub fn compute_proof<T: Prove + ?Sized>(&mut self, data: &T) -> Result<(), MerkleizationError> {
            let t = data.compute_tree()?;
            self.compute_proof_cached_tree(data, &t)
        }
        pub fn compute_proof_cached_tree<T: Prove + ?Sized>(&mut self, _data: &T, tree: &Tree) -> Result<(), MerkleizationError> {
            let i = self.proof.index;
            if i == 0 {
                return Err(MerkleizationError::InvalidGeneralizedIndex);
            }
            self.proof.leaf = tree.node(i)?;
            let mut j = i;
            self.proof.branch.clear();
            while j > 1 {
                self.proof.branch.push(tree.node(j ^ 1)?);
                j /= 2;
            }
            Ok(())
        }
        pub fn into_proof(self) -> Proof { self.proof }
    }
}
pub mod prelude {
    pub use super::proofs::{Proof, Prover};
    pub use super::{
        deserialize, serialize, Bitlist, Bitvector, ByteList, ByteVector, Deserialize, DeserializeError, GeneralizedIndex,
        GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, Path, PathElement, Prove, Serializable, Serialize,
        SerializeError, SimpleSerialize, Vector,
    };
}

#[doc(hidden)]
pub mod __private {
    pub use crate::tree::container;
    use crate::*;
    /// Some(n): fixed size n; None: variable size.
    pub trait Fixed {
        fn fixed() -> Option<usize>;
    }
    impl<T: Serializable> Fixed for T {
        fn fixed() -> Option<usize> { (!T::is_variable_size()).then(T::size_hint) }
    }
    #[derive(Default)]
    pub struct Parts {
        fixed: Vec<Option<Vec<u8>>>,
        variable: Vec<Vec<u8>>,
    }
    impl Parts {
        pub fn add<T: Serialize>(&mut self, v: &T) -> Result<(), SerializeError> {
            let b = serialize(v)?;
            if T::is_variable_size() {
                self.fixed.push(None);
                self.variable.push(b);
            } else {
                self.fixed.push(Some(b));
            }
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let start = out.len();
            let mut off: usize = self.fixed.iter().map(|f| f.as_ref().map_or(4, |b| b.len())).sum();
            let mut vs = self.variable.iter();
            for f in &self.fixed {
                match f {
                    Some(b) => out.extend_from_slice(b),
                    None => {
                        out.extend_from_slice(&u32::try_from(off).map_err(|_| SerializeError::MaximumEncodedLengthExceeded)?.to_le_bytes());
                        off += vs.next().unwrap().len();
                    }
                }
            }
            for v in &self.variable {
                out.extend_from_slice(v);
            }
            Ok(out.len() - start)
        }
    }
    /// Splits an encoding into the slices of its fields; strict about offsets and length.
    pub fn split<'a>(b: &'a [u8], layout: &[Option<usize>]) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = layout.iter().map(|l| l.unwrap_or(4)).sum();
        if b.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput { provided: b.len(), expected: fixed });
        }
        let mut offs = vec![];
        let mut at = 0;
        for l in layout {
            if l.is_none() {
                offs.push(u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize);
            }
            at += l.unwrap_or(4);
        }
        if offs.is_empty() && b.len() != fixed {
            return Err(DeserializeError::AdditionalInput { provided: b.len(), expected: fixed });
        }
        if offs.first().is_some_and(|o| *o != fixed) || offs.windows(2).any(|w| w[0] > w[1]) || offs.last().is_some_and(|o| *o > b.len()) {
            return Err(DeserializeError::InvalidOffsets);
        }
        offs.push(b.len());
        let (mut at, mut k, mut out) = (0, 0, vec![]);
        for l in layout {
            match l {
                Some(n) => {
                    out.push(&b[at..at + n]);
                    at += n;
                }
                None => {
                    out.push(&b[offs[k]..offs[k + 1]]);
                    k += 1;
                    at += 4;
                }
            }
        }
        Ok(out)
    }
}
