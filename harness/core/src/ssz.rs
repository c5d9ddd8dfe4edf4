//! Own merkle trees and multiproofs (nothing of this comes from the code under test).
use crate::util::*;
use alloy_primitives::B256;
use bitvec::prelude::*;
use serde::de::{value::Error as DeError, IntoDeserializer, MapAccess, Visitor};
use serde::Deserialize;
use serde_json::json;
use ssz_multiproofs::Multiproof;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type H = [u8; 32];
pub fn h2(a: &H, b: &H) -> H { sha(&[a, b]) }
pub fn chunk(n: u64) -> H {
    let mut h = [0; 32];
    h[..8].copy_from_slice(&n.to_le_bytes());
    h
}
pub fn zero(height: usize) -> H {
    thread_local!(static Z: Vec<H> = {
        let mut z = vec![[0u8; 32]];
        for i in 0..64 { let h = h2(&z[i], &z[i]); z.push(h); }
        z
    });
    Z.with(|z| z[height])
}
/// A binary tree known at some nodes; the rest are padding subtrees of a given depth.
pub struct Tree {
    pub nodes: HashMap<u64, H>,
    pub depth: usize, // padding leaves live at this depth
}
pub fn level(g: u64) -> usize { 63 - g.leading_zeros() as usize }
impl Tree {
    pub fn node(&self, g: u64) -> H {
        self.nodes.get(&g).copied().unwrap_or_else(|| zero(self.depth.saturating_sub(level(g))))
    }
    pub fn root(&self) -> H { self.node(1) }
    fn close(mut self) -> Tree {
        // hash upwards, level by level
        let mut by: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
        self.nodes.keys().for_each(|g| { by.entry(level(*g)).or_default().insert(*g); });
        for l in (1..=*by.keys().max().unwrap()).rev() {
            let parents: BTreeSet<u64> = by.get(&l).into_iter().flatten().map(|g| g / 2).collect();
            for p in parents {
                let h = h2(&self.node(2 * p), &self.node(2 * p + 1));
                self.nodes.insert(p, h);
                by.entry(l - 1).or_default().insert(p);
            }
        }
        self
    }
    pub fn of(leaves: Vec<(u64, H)>, depth: usize) -> Tree {
        Tree { nodes: leaves.into_iter().collect(), depth }.close()
    }
    /// Proof of the given nodes, none an ancestor of another.
    pub fn prove(&self, gs: &BTreeSet<u64>) -> Proof {
        let mut inner = BTreeSet::new();
        for g in gs {
            let mut p = g / 2;
            while p >= 1 && inner.insert(p) { p /= 2; }
        }
        let mut out = Proof::default();
        let mut stack = vec![1u64];
        while let Some(g) = stack.pop() {
            if inner.contains(&g) {
                out.desc.push(false);
                stack.push(2 * g + 1);
                stack.push(2 * g);
            } else {
                out.desc.push(true);
                out.mask.push(gs.contains(&g));
                out.data.push(self.node(g));
            }
        }
        out
    }
}
#[derive(Clone, Default, Debug)]
pub struct Proof {
    pub desc: Vec<bool>,
    pub mask: Vec<bool>,
    pub data: Vec<H>,
}
impl Proof {
    /// The generalized indices in proof order, and the root; None if malformed.
    pub fn eval(&self) -> Option<(Vec<u64>, H)> {
        fn go(p: &Proof, i: &mut usize, j: &mut usize, g: u64, gs: &mut Vec<u64>) -> Option<H> {
            let b = *p.desc.get(*i)?;
            *i += 1;
            if b {
                gs.push(g);
                *j += 1;
                return p.data.get(*j - 1).copied();
            }
            if g >> 63 == 1 { return None; }
            let l = go(p, i, j, 2 * g, gs)?;
            let r = go(p, i, j, 2 * g + 1, gs)?;
            Some(h2(&l, &r))
        }
        if *self.desc.first()? { return None; }
        let (mut i, mut j, mut gs) = (0, 0, vec![]);
        let r = go(self, &mut i, &mut j, 1, &mut gs)?;
        (i == self.desc.len()).then_some((gs, r))
    }
    pub fn values(&self) -> Vec<(u64, H)> {
        let Some((gs, _)) = self.eval() else { return vec![] };
        gs.iter().zip(&self.data).zip(&self.mask).filter(|x| *x.1).map(|x| (*x.0 .0, *x.0 .1)).collect()
    }
    pub fn root(&self) -> Option<B256> { self.eval().map(|x| x.1.into()) }
    pub fn bytes(&self) -> Vec<u8> { self.data.concat() }
    pub fn real<'a>(&self, buf: &'a [u8]) -> Multiproof<'a> {
        let f = Fields(
            vec![
                ("data", F::Bytes(buf)),
                ("value_mask", F::Json(serde_json::to_value(bits(&self.mask)).unwrap())),
                ("descriptor", F::Json(serde_json::to_value(bits(&self.desc)).unwrap())),
                ("max_stack_depth", F::Json(json!(8))),
            ],
            None,
        );
        Multiproof::deserialize(FD(f)).expect("DRIVER-ERROR the proof's own field names and types")
    }
}
fn bits(v: &[bool]) -> BitVec<u32, Lsb0> { v.iter().collect() }
enum F<'a> {
    Bytes(&'a [u8]),
    Json(serde_json::Value),
}
struct Fields<'a>(Vec<(&'static str, F<'a>)>, Option<F<'a>>);
impl<'a> MapAccess<'a> for Fields<'a> {
    type Error = DeError;
    fn next_key_seed<K: serde::de::DeserializeSeed<'a>>(&mut self, s: K) -> Result<Option<K::Value>, DeError> {
        match self.0.pop() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(k.into_deserializer()).map(Some)
            }
        }
    }
    fn next_value_seed<V: serde::de::DeserializeSeed<'a>>(&mut self, s: V) -> Result<V::Value, DeError> {
        match self.1.take().unwrap() {
            F::Bytes(b) => s.deserialize(serde::de::value::BorrowedBytesDeserializer::new(b)),
            F::Json(j) => s.deserialize(j).map_err(serde::de::Error::custom),
        }
    }
}
struct FD<'a>(Fields<'a>);
impl<'de> serde::Deserializer<'de> for FD<'de> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> { v.visit_map(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

// ---- the containers ----
pub const FIELDS: usize = 37;
#[derive(Clone, Debug)]
pub struct StateRec {
    pub gvr: H,
    pub slot: u64,
    pub fork: ([u8; 4], [u8; 4], u64),
    pub fin: u64,
    pub eee: u64,
    pub ece: u64,
    pub salt: u64,
}
pub fn version(v: [u8; 4]) -> H {
    let mut h = [0; 32];
    h[..4].copy_from_slice(&v);
    h
}
pub fn state_tree(s: &StateRec, validators: H) -> Tree {
    let mut l: Vec<(u64, H)> = (0..FIELDS as u64)
        .filter(|i| ![1, 2, 3, 11, 20, 31, 33].contains(i))
        .map(|i| (64 + i, sha(&[b"field", &i.to_le_bytes(), &s.salt.to_le_bytes()])))
        .collect();
    l.extend([
        (65, s.gvr), (66, chunk(s.slot)), (268, version(s.fork.0)), (269, version(s.fork.1)), (270, chunk(s.fork.2)), (271, [0; 32]),
        (75, validators), (168, chunk(s.fin)), (169, sha(&[b"finroot", &s.salt.to_le_bytes()])), (95, chunk(s.eee)), (97, chunk(s.ece)),
    ]);
    Tree::of(l, 6)
}
pub fn block_tree(slot: u64, state_root: H, salt: u64) -> Tree {
    let f = |i: u64| sha(&[b"block", &i.to_le_bytes(), &salt.to_le_bytes()]);
    Tree::of(vec![(8, chunk(slot)), (9, chunk(salt % 977)), (10, f(10)), (11, state_root), (12, f(12))], 3)
}
#[derive(Clone, Debug)]
pub struct ValRec {
    pub key: [u8; 48],
    pub bal: u64,
    pub slashed: bool,
    pub aee: u64,
    pub act: u64,
    pub exit: u64,
}
pub const LIST: u64 = 1 << 41;
pub fn vbase(i: u64) -> u64 { (LIST + i) * 8 }
pub fn full_gs(i: u64) -> [u64; 7] {
    let b = vbase(i);
    [b * 2, b * 2 + 1, b + 2, b + 3, b + 4, b + 5, b + 6]
}
pub fn validators_tree(v: &[ValRec]) -> Tree {
    let mut l = vec![];
    for (i, v) in v.iter().enumerate() {
        let b = vbase(i as u64);
        let mut k1 = [0; 32];
        k1[..16].copy_from_slice(&v.key[32..]);
        l.extend([
            (b * 2, v.key[..32].try_into().unwrap()), (b * 2 + 1, k1), (b + 1, sha(&[b"withdrawal", &i.to_le_bytes()])),
            (b + 2, chunk(v.bal)), (b + 3, chunk(v.slashed as u64)), (b + 4, chunk(v.aee)), (b + 5, chunk(v.act)), (b + 6, chunk(v.exit)),
            (b + 7, chunk(v.exit.saturating_add(256))),
        ]);
    }
    l.push((3, chunk(v.len() as u64)));
    // padding validators are zero chunks at depth 41
    Tree::of(l, 41)
}
