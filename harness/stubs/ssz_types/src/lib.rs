//! Stand-in for `ssz_types` bitfields.
pub use typenum;
pub use typenum::Unsigned;
use std::marker::PhantomData;
#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    InvalidByteCount { given: usize, expected: usize },
    MissingLengthInformation,
    ExcessBits,
}
pub struct BitList<N>(Vec<bool>, PhantomData<fn() -> N>);
impl<N> Clone for BitList<N> {
    fn clone(&self) -> Self { BitList(self.0.clone(), PhantomData) }
}
impl<N> std::fmt::Debug for BitList<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) }
}
fn pack(bits: &[bool], extra: bool) -> Vec<u8> {
    let n = bits.len() + extra as usize;
    let mut o = vec![0u8; n.div_ceil(8).max(1)];
    for (i, b) in bits.iter().chain(extra.then_some(&true)).enumerate() {
        o[i / 8] |= (*b as u8) << (i % 8);
    }
    o
}
impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(n: usize) -> Result<Self, Error> {
        if n > N::to_usize() {
            return Err(Error::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(BitList(vec![false; n], PhantomData))
    }
    pub fn max_len() -> usize { N::to_usize() }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        self.0.get(i).copied().ok_or(Error::OutOfBounds { i, len: self.0.len() })
    }
    pub fn set(&mut self, i: usize, v: bool) -> Result<(), Error> {
        let len = self.0.len();
        *self.0.get_mut(i).ok_or(Error::OutOfBounds { i, len })? = v;
        Ok(())
    }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn num_set_bits(&self) -> usize { self.0.iter().filter(|b| **b).count() }
    pub fn is_zero(&self) -> bool { self.num_set_bits() == 0 }
    pub fn highest_set_bit(&self) -> Option<usize> { self.0.iter().rposition(|b| *b) }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
    pub fn difference(&self, o: &Self) -> Self { let mut r = self.clone(); r.difference_inplace(o); r }
    pub fn difference_inplace(&mut self, o: &Self) { for (i, b) in self.0.iter_mut().enumerate() { *b &= !o.0.get(i).copied().unwrap_or(false); } }
    pub fn intersection(&self, o: &Self) -> Self { let n = self.0.len().min(o.0.len()); Self((0..n).map(|i| self.0[i] && o.0[i]).collect(), PhantomData) }
    pub fn union(&self, o: &Self) -> Self { let n = self.0.len().max(o.0.len()); Self((0..n).map(|i| self.0.get(i) == Some(&true) || o.0.get(i) == Some(&true)).collect(), PhantomData) }
    pub fn is_subset(&self, o: &Self) -> bool { self.difference(o).num_set_bits() == 0 }
    pub fn into_bytes(self) -> Vec<u8> { pack(&self.0, true) }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let last = *b.last().ok_or(Error::MissingLengthInformation)?;
        if last == 0 {
            return Err(Error::MissingLengthInformation);
        }
        let n = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if n > N::to_usize() {
            return Err(Error::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(BitList((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect(), PhantomData))
    }
}
pub struct BitVector<N>(Vec<bool>, PhantomData<fn() -> N>);
impl<N> Clone for BitVector<N> {
    fn clone(&self) -> Self { BitVector(self.0.clone(), PhantomData) }
}
impl<N> std::fmt::Debug for BitVector<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self { Self::new() }
}
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self { BitVector(vec![false; N::to_usize()], PhantomData) }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        self.0.get(i).copied().ok_or(Error::OutOfBounds { i, len: self.0.len() })
    }
    pub fn set(&mut self, i: usize, v: bool) -> Result<(), Error> {
        let len = self.0.len();
        *self.0.get_mut(i).ok_or(Error::OutOfBounds { i, len })? = v;
        Ok(())
    }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn num_set_bits(&self) -> usize { self.0.iter().filter(|b| **b).count() }
    pub fn is_zero(&self) -> bool { self.num_set_bits() == 0 }
    pub fn highest_set_bit(&self) -> Option<usize> { self.0.iter().rposition(|b| *b) }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
    pub fn difference(&self, o: &Self) -> Self { let mut r = self.clone(); r.difference_inplace(o); r }
    pub fn difference_inplace(&mut self, o: &Self) { for (i, b) in self.0.iter_mut().enumerate() { *b &= !o.0.get(i).copied().unwrap_or(false); } }
    pub fn intersection(&self, o: &Self) -> Self { let n = self.0.len().min(o.0.len()); Self((0..n).map(|i| self.0[i] && o.0[i]).collect(), PhantomData) }
    pub fn union(&self, o: &Self) -> Self { let n = self.0.len().max(o.0.len()); Self((0..n).map(|i| self.0.get(i) == Some(&true) || o.0.get(i) == Some(&true)).collect(), PhantomData) }
    pub fn is_subset(&self, o: &Self) -> bool { self.difference(o).num_set_bits() == 0 }
    pub fn into_bytes(self) -> Vec<u8> { pack(&self.0, false) }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let n = N::to_usize();
        if b.len() != n.div_ceil(8) {
            return Err(Error::InvalidByteCount { given: b.len(), expected: n.div_ceil(8) });
        }
        if (n..b.len() * 8).any(|i| b[i / 8] >> (i % 8) & 1 == 1) {
            return Err(Error::ExcessBits);
        }
        Ok(BitVector((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect(), PhantomData))
    }
}

macro_rules! eqs { ($($t:ident),*) => {$(
    impl<N> PartialEq for $t<N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<N> Eq for $t<N> {}
    impl<N> std::hash::Hash for $t<N> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
)*}; }
eqs!(BitList, BitVector);
