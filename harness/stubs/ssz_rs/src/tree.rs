use crate::{GeneralizedIndex, MerkleizationError, Node};
use sha2::Digest;
use std::sync::{Arc, LazyLock};

static ZEROS: LazyLock<[[u8; 32]; 65]> = LazyLock::new(|| {
    let mut z = [[0u8; 32]; 65];
    for i in 1..65 {
        z[i] = hash2(&z[i - 1], &z[i - 1]);
    }
    z
});
fn hash2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut buf = [0u8; 64];
    buf[..32].copy_from_slice(a);
    buf[32..].copy_from_slice(b);
    sha2::Sha256::digest(buf).into()
}
#[derive(Debug, Clone)]
enum T {
    Zero(u32),
    Leaf([u8; 32]),
    Branch([u8; 32], Arc<(T, T)>),
    /// A perfect layer of packed chunks: all levels, leaves first.
    Packed(Arc<Vec<Vec<[u8; 32]>>>, usize, usize),
}
/// The Merkle tree of a value, with all-zero subtrees kept virtual.
#[derive(Debug, Clone)]
pub struct Tree(T);
impl T {
    fn hash(&self) -> [u8; 32] {
        match self {
            T::Zero(d) => ZEROS[*d as usize],
            T::Leaf(h) => *h,
            T::Branch(h, _) => *h,
            T::Packed(ls, lvl, i) => ls[*lvl].get(*i).copied().unwrap_or(ZEROS[*lvl]),
        }
    }
    fn child(&self, right: bool) -> Option<T> {
        match self {
            T::Zero(0) | T::Leaf(_) => None,
            T::Zero(d) => Some(T::Zero(d - 1)),
            T::Branch(_, c) => Some(if right { c.1.clone() } else { c.0.clone() }),
            T::Packed(_, 0, _) => None,
            T::Packed(ls, lvl, i) => Some(T::Packed(ls.clone(), lvl - 1, 2 * i + right as usize)),
        }
    }
    fn join(a: T, b: T) -> T {
        if let (T::Zero(x), T::Zero(y)) = (&a, &b) {
            if x == y && *x < 64 {
                return T::Zero(x + 1);
            }
        }
        T::Branch(hash2(&a.hash(), &b.hash()), Arc::new((a, b)))
    }
}
impl Tree {
    pub fn root(&self) -> Node { self.0.hash().into() }
    pub fn leaf(h: [u8; 32]) -> Tree { Tree(T::Leaf(h)) }
    /// The node at a generalized index.
    pub fn node(&self, index: GeneralizedIndex) -> Result<Node, MerkleizationError> {
        if index == 0 {
            return Err(MerkleizationError::InvalidGeneralizedIndex);
        }
        let mut t = self.0.clone();
        for k in (0..index.ilog2()).rev() {
            t = t.child(index >> k & 1 == 1).ok_or(MerkleizationError::NoInnerElement)?;
        }
        Ok(t.hash().into())
    }
}
pub(crate) fn depth(limit: usize) -> u32 { limit.max(1).next_power_of_two().ilog2() }

/// A tree of `limit` element trees (missing ones are zero).
pub(crate) fn merkleize(elems: Vec<Tree>, limit: usize) -> Tree {
    let d = depth(limit);
    let mut layer: Vec<T> = elems.into_iter().map(|t| t.0).collect();
    for k in 0..d {
        let mut next = Vec::with_capacity(layer.len().div_ceil(2));
        let mut it = layer.into_iter();
        while let Some(a) = it.next() {
            next.push(T::join(a, it.next().unwrap_or(T::Zero(k))));
        }
        layer = next;
    }
    Tree(layer.into_iter().next().unwrap_or(T::Zero(d)))
}
pub(crate) fn pack(bytes: &[u8], limit: usize) -> Tree {
    let mut layer: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            x
        })
        .collect();
    let d = depth(limit) as usize;
    if layer.is_empty() {
        return Tree(T::Zero(d as u32));
    }
    if d == 0 {
        return Tree(T::Leaf(layer[0]));
    }
    let mut all = vec![];
    for k in 0..d {
        let next = layer.chunks(2).map(|p| hash2(&p[0], p.get(1).unwrap_or(&ZEROS[k]))).collect();
        all.push(std::mem::replace(&mut layer, next));
    }
    all.push(layer);
    Tree(T::Packed(Arc::new(all), d, 0))
}
pub(crate) fn with_length(t: Tree, n: usize) -> Tree {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(n as u64).to_le_bytes());
    Tree(T::join(t.0, T::Leaf(l)))
}
pub fn container(fields: Vec<Tree>) -> Tree {
    let n = fields.len();
    merkleize(fields, n)
}
