use crate::tree::{merkleize, pack, with_length};
use crate::*;
use std::ops::{Deref, DerefMut};

macro_rules! basic {
    ($($t:ty),*) => {$(
        impl Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { std::mem::size_of::<$t>() }
        }
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice(&self.to_le_bytes());
                Ok(std::mem::size_of::<$t>())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact(e, std::mem::size_of::<$t>())?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl HashTreeRoot for $t {
            fn tree(&self) -> Tree {
                let mut x = [0u8; 32];
                x[..std::mem::size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                Tree::leaf(x)
            }
            fn is_composite_type() -> bool { false }
        }
        impl GeneralizedIndexable for $t {
            fn item_length() -> usize { std::mem::size_of::<$t>() }
            fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> { end(p, path) }
        }
        impl Prove for $t {}
        impl SimpleSerialize for $t {}
    )*};
}
fn end(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
    if path.is_empty() { Ok(p) } else { Err(MerkleizationError::InvalidPathElement) }
}
fn exact(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n });
    }
    if e.len() > n {
        return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n });
    }
    Ok(())
}
basic!(u8, u16, u32, u64);
impl Serializable for bool {
    fn is_variable_size() -> bool { false }
    fn size_hint() -> usize { 1 }
}
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { (*self as u8).serialize(b) }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        match u8::deserialize(e)? {
            0 => Ok(false),
            1 => Ok(true),
            x => Err(DeserializeError::InvalidByte(x)),
        }
    }
}
impl HashTreeRoot for bool {
    fn tree(&self) -> Tree { (*self as u8).tree() }
    fn is_composite_type() -> bool { false }
}
impl GeneralizedIndexable for bool {
    fn item_length() -> usize { 1 }
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> { end(p, path) }
}
impl Prove for bool {}
impl SimpleSerialize for bool {}
/// `usize` stands for the u64 indices of the specification (as in ethereum-consensus).
impl Serializable for usize {
    fn is_variable_size() -> bool { false }
    fn size_hint() -> usize { 8 }
}
impl Serialize for usize {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { (*self as u64).serialize(b) }
}
impl Deserialize for usize {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { u64::deserialize(e).map(|x| x as usize) }
}
impl HashTreeRoot for usize {
    fn tree(&self) -> Tree { (*self as u64).tree() }
    fn is_composite_type() -> bool { false }
}
impl GeneralizedIndexable for usize {
    fn item_length() -> usize { 8 }
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> { end(p, path) }
}
impl Prove for usize {}
impl SimpleSerialize for usize {}

macro_rules! bytes_n {
    ($t:ty, $n:expr, [$($g:tt)*], $from:expr, $as:expr) => {
        impl $($g)* Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { $n }
        }
        impl $($g)* Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice($as(self));
                Ok($n)
            }
        }
        impl $($g)* Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact(e, $n)?;
                Ok($from(e))
            }
        }
        impl $($g)* HashTreeRoot for $t {
            fn tree(&self) -> Tree { pack($as(self), usize::div_ceil($n, 32)) }
        }
        impl $($g)* GeneralizedIndexable for $t {
            fn chunk_count() -> usize { usize::div_ceil($n, 32) }
            fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
                match path.split_first() {
                    None => Ok(p),
                    Some((PathElement::Index(i), rest)) if *i < $n => end(p * usize::div_ceil($n, 32).next_power_of_two() + i / 32, rest),
                    _ => Err(MerkleizationError::InvalidPathElement),
                }
            }
        }
        impl $($g)* Prove for $t {}
        impl $($g)* SimpleSerialize for $t {}
    };
}
bytes_n!(Node, 32usize, [], |e: &[u8]| Node::from_slice(e), slice_of_node);
fn slice_of_node(s: &Node) -> &[u8] { s.as_slice() }
bytes_n!([u8; 4], 4usize, [], |e: &[u8]| <[u8; 4]>::try_from(e).unwrap(), slice_of_4);
fn slice_of_4(s: &[u8; 4]) -> &[u8] { s }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByteVector<const N: usize>(Box<[u8]>);
impl<const N: usize> Default for ByteVector<N> {
    fn default() -> Self { ByteVector(vec![0; N].into()) }
}
impl<const N: usize> ByteVector<N> {
    pub fn as_slice(&self) -> &[u8] { &self.0 }
}
impl<const N: usize> Deref for ByteVector<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.0 }
}
impl<const N: usize> DerefMut for ByteVector<N> {
    fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 }
}
impl<const N: usize> AsRef<[u8]> for ByteVector<N> {
    fn as_ref(&self) -> &[u8] { &self.0 }
}
impl<const N: usize> TryFrom<&[u8]> for ByteVector<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> { exact(b, N).map(|_| ByteVector(b.into())) }
}
impl<const N: usize> std::fmt::Debug for ByteVector<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}", hex::encode(&self.0)) }
}
bytes_n!(ByteVector<N>, N, [<const N: usize>], |e: &[u8]| ByteVector::<N>(e.into()), slice_of_bv);
fn slice_of_bv<const N: usize>(s: &ByteVector<N>) -> &[u8] { &s.0 }

macro_rules! hex_serde {
    ($t:ident, $n:ident, $v:ident => $b:expr, $e:ident => $from:expr) => {
        impl<const $n: usize> serde::Serialize for $t<$n> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let $v = self;
                s.serialize_str(&format!("0x{}", hex::encode($b)))
            }
        }
        impl<'de, const $n: usize> serde::Deserialize<'de> for $t<$n> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let $e = hex::decode(s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("no 0x"))?).map_err(serde::de::Error::custom)?;
                $from.map_err(serde::de::Error::custom)
            }
        }
    };
}
hex_serde!(ByteVector, N, v => &v.0, e => ByteVector::<N>::try_from(&e[..]));

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct ByteList<const N: usize>(Vec<u8>);
impl<const N: usize> TryFrom<&[u8]> for ByteList<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> {
        if b.len() > N { Err(DeserializeError::InvalidBound) } else { Ok(ByteList(b.to_vec())) }
    }
}
impl<const N: usize> Deref for ByteList<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.0 }
}
impl<const N: usize> std::fmt::Debug for ByteList<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}", hex::encode(&self.0)) }
}
hex_serde!(ByteList, N, v => &v.0, e => ByteList::<N>::try_from(&e[..]));
impl<const N: usize> Serializable for ByteList<N> {
    fn is_variable_size() -> bool { true }
    fn size_hint() -> usize { 0 }
}
impl<const N: usize> Serialize for ByteList<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0);
        Ok(self.0.len())
    }
}
impl<const N: usize> Deserialize for ByteList<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { Self::try_from(e) }
}
impl<const N: usize> HashTreeRoot for ByteList<N> {
    fn tree(&self) -> Tree { with_length(pack(&self.0, N.div_ceil(32)), self.0.len()) }
}
impl<const N: usize> GeneralizedIndexable for ByteList<N> {
    fn chunk_count() -> usize { N.div_ceil(32) }
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(p),
            Some((PathElement::Length, rest)) => end(2 * p + 1, rest),
            Some((PathElement::Index(i), rest)) if *i < N => end(2 * p * N.div_ceil(32).next_power_of_two() + i / 32, rest),
            _ => Err(MerkleizationError::InvalidPathElement),
        }
    }
}
impl<const N: usize> Prove for ByteList<N> {}
impl<const N: usize> SimpleSerialize for ByteList<N> {}

fn ser_elems<T: Serialize>(v: &[T], b: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let start = b.len();
    if T::is_variable_size() {
        let parts: Vec<Vec<u8>> = v.iter().map(serialize).collect::<Result<_, _>>()?;
        let mut off = 4 * parts.len();
        for p in &parts {
            b.extend_from_slice(&(off as u32).to_le_bytes());
            off += p.len();
        }
        for p in &parts {
            b.extend_from_slice(p);
        }
    } else {
        b.reserve(v.len() * T::size_hint());
        for x in v {
            x.serialize(b)?;
        }
    }
    Ok(b.len() - start)
}
fn de_elems<T: Deserialize>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if !T::is_variable_size() {
        let n = T::size_hint();
        if e.len() % n != 0 {
            return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: e.len() / n * n });
        }
        return e.chunks(n).map(T::deserialize).collect();
    }
    if e.is_empty() {
        return Ok(vec![]);
    }
    if e.len() < 4 {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: 4 });
    }
    let first = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
    if first == 0 || first % 4 != 0 || first > e.len() {
        return Err(DeserializeError::InvalidOffsets);
    }
    __private::split(e, &vec![None; first / 4])?.into_iter().map(T::deserialize).collect()
}
fn elems_tree<T: HashTreeRoot + Serialize>(v: &[T], n: usize) -> Tree {
    if T::is_composite_type() {
        merkleize(v.iter().map(|x| x.tree()).collect(), n)
    } else {
        let mut b = Vec::new();
        ser_elems(v, &mut b).unwrap();
        pack(&b, (n * T::size_hint()).div_ceil(32))
    }
}
fn elem_chunks<T: HashTreeRoot + Serializable>(n: usize) -> usize {
    if T::is_composite_type() { n } else { (n * T::size_hint()).div_ceil(32) }
}
fn elem_index<T: HashTreeRoot + Serializable + GeneralizedIndexable>(base: usize, n: usize, i: usize, rest: Path) -> Result<usize, MerkleizationError> {
    if i >= n {
        return Err(MerkleizationError::InvalidPathElement);
    }
    let c = elem_chunks::<T>(n).next_power_of_two();
    if T::is_composite_type() {
        T::compute_generalized_index(base * c + i, rest)
    } else {
        end(base * c + i * T::size_hint() / 32, rest)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct List<T, const N: usize>(Vec<T>);
impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self { Vector(vec![T::default(); N]) }
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self { List(vec![]) }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, DeserializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() == N { Ok(Vector(v)) } else { Err((v, DeserializeError::InvalidBound)) }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, DeserializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() <= N { Ok(List(v)) } else { Err((v, DeserializeError::InvalidBound)) }
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> { &self.0 }
}
impl<T, const N: usize> std::ops::IndexMut<usize> for Vector<T, N> {
    fn index_mut(&mut self, i: usize) -> &mut T { &mut self.0[i] }
}
impl<T, const N: usize> std::ops::Index<usize> for Vector<T, N> {
    type Output = T;
    fn index(&self, i: usize) -> &T { &self.0[i] }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> { &self.0 }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 }
}
macro_rules! seqs {
    ($($t:ident)*) => {$(
        impl<T: std::fmt::Debug, const N: usize> std::fmt::Debug for $t<T, N> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
        }
        impl<T, const N: usize> AsRef<[T]> for $t<T, N> { fn as_ref(&self) -> &[T] { &self.0 } }
        impl<'a, T, const N: usize> IntoIterator for &'a $t<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter { self.0.iter() }
        }
        impl<T, const N: usize> IntoIterator for $t<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $t<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $t<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                $t::try_from(<Vec<T> as serde::Deserialize>::deserialize(d)?).map_err(|e| serde::de::Error::custom(e.1))
            }
        }
        impl<T: Serialize, const N: usize> Serialize for $t<T, N> {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { ser_elems(&self.0, b) }
        }
        impl<T: Deserialize, const N: usize> Deserialize for $t<T, N> {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { $t::try_from(de_elems::<T>(e)?).map_err(|e| e.1) }
        }
        impl<T: HashTreeRoot + Serialize + GeneralizedIndexable, const N: usize> Prove for $t<T, N> {}
        impl<T: Serialize + Deserialize + HashTreeRoot, const N: usize> SimpleSerialize for $t<T, N> {}
    )*};
}
seqs!(Vector List);
impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool { T::is_variable_size() }
    fn size_hint() -> usize { N * T::size_hint() }
}
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool { true }
    fn size_hint() -> usize { 0 }
}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for Vector<T, N> {
    fn tree(&self) -> Tree { elems_tree(&self.0, N) }
}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for List<T, N> {
    fn tree(&self) -> Tree { with_length(elems_tree(&self.0, N), self.0.len()) }
}
impl<T: HashTreeRoot + Serializable + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize { elem_chunks::<T>(N) }
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(p),
            Some((PathElement::Index(i), rest)) => elem_index::<T>(p, N, *i, rest),
            _ => Err(MerkleizationError::InvalidPathElement),
        }
    }
}
impl<T: HashTreeRoot + Serializable + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize { elem_chunks::<T>(N) }
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(p),
            Some((PathElement::Length, rest)) => end(2 * p + 1, rest),
            Some((PathElement::Index(i), rest)) => elem_index::<T>(2 * p, N, *i, rest),
            _ => Err(MerkleizationError::InvalidPathElement),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bitvector<const N: usize>(Vec<bool>);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Bitlist<const N: usize>(Vec<bool>);
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self { Bitvector(vec![false; N]) }
}
fn bits_to_bytes(v: &[bool], mark: bool) -> Vec<u8> {
    let mut o = vec![0u8; if mark { v.len() / 8 + 1 } else { v.len().div_ceil(8) }];
    for (i, b) in v.iter().enumerate() {
        o[i / 8] |= (*b as u8) << (i % 8);
    }
    if mark {
        o[v.len() / 8] |= 1 << (v.len() % 8);
    }
    o
}
impl<const N: usize> Bitvector<N> {
    pub fn get(&self, i: usize) -> Option<bool> { self.0.get(i).copied() }
    pub fn set(&mut self, i: usize, v: bool) -> bool { std::mem::replace(&mut self.0[i], v) }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
}
impl<const N: usize> Bitlist<N> {
    pub fn get(&self, i: usize) -> Option<bool> { self.0.get(i).copied() }
    pub fn push(&mut self, v: bool) { self.0.push(v) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self { Bitlist(i.into_iter().collect()) }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool { false }
    fn size_hint() -> usize { N.div_ceil(8) }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let x = bits_to_bytes(&self.0, false);
        b.extend_from_slice(&x);
        Ok(x.len())
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, N.div_ceil(8))?;
        if (N..e.len() * 8).any(|i| e[i / 8] >> (i % 8) & 1 == 1) {
            return Err(DeserializeError::InvalidInput);
        }
        Ok(Bitvector((0..N).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn tree(&self) -> Tree { pack(&bits_to_bytes(&self.0, false), N.div_ceil(256)) }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> { end(p, path) }
}
impl<const N: usize> Prove for Bitvector<N> {}
impl<const N: usize> SimpleSerialize for Bitvector<N> {}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool { true }
    fn size_hint() -> usize { 0 }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.0.len() > N {
            return Err(SerializeError::InvalidInstance);
        }
        let x = bits_to_bytes(&self.0, true);
        b.extend_from_slice(&x);
        Ok(x.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e.last().ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidInput);
        }
        let n = (e.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if n > N {
            return Err(DeserializeError::InvalidBound);
        }
        Ok(Bitlist((0..n).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn tree(&self) -> Tree { with_length(pack(&bits_to_bytes(&self.0, false), N.div_ceil(256)), self.0.len()) }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> { end(p, path) }
}
impl<const N: usize> Prove for Bitlist<N> {}
impl<const N: usize> SimpleSerialize for Bitlist<N> {}
hex_serde!(Bitvector, N, v => bits_to_bytes(&v.0, false), e => <Bitvector<N> as Deserialize>::deserialize(&e));
hex_serde!(Bitlist, N, v => bits_to_bytes(&v.0, true), e => <Bitlist<N> as Deserialize>::deserialize(&e));
