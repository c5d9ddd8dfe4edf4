//! Symbolic stand-in for lighthouse's `bls`: perfect (Dolev-Yao) aggregate signatures.
//! A signature by key k on message m is H(k, m); an aggregate is the sum of its parts (mod 2^256),
//! so aggregation is homomorphic and order-independent as in BLS, and a signature verifies for
//! exactly the multiset of (key, message) pairs that went into it.
use alloy_primitives::{B256, U256};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha2::Digest;
use std::sync::atomic::{AtomicU64, Ordering};

pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const SIGNATURE_BYTES_LEN: usize = 96;
pub const SIGNATURE_UNCOMPRESSED_BYTES_LEN: usize = 192;
pub const SECRET_KEY_BYTES_LEN: usize = 32;
pub type Hash256 = B256;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    InvalidByteLength { got: usize, expected: usize },
    InvalidInfinityPublicKey,
    InvalidPoint,
    InvalidSecretKeyLength { got: usize, expected: usize },
}
fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = sha2::Sha256::new();
    for p in parts {
        Digest::update(&mut s, (p.len() as u64).to_le_bytes());
        Digest::update(&mut s, p);
    }
    s.finalize().into()
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PublicKey {
    c: [u8; 48],
}
impl PublicKey {
    /// A deterministic, valid key.
    pub fn from_seed(seed: u64) -> Self {
        let (a, b) = (h(&[b"pk0", &seed.to_le_bytes()]), h(&[b"pk1", &seed.to_le_bytes()]));
        let mut c = [0u8; 48];
        c[..32].copy_from_slice(&a);
        c[32..].copy_from_slice(&b[..16]);
        c[0] = 0x80 | (c[0] & 0x3f);
        PublicKey { c }
    }
    pub fn serialize(&self) -> [u8; 48] { self.c }
    pub fn serialize_uncompressed(&self) -> [u8; 96] {
        let mut u = [0u8; 96];
        u[..48].copy_from_slice(&self.c);
        u[0] &= 0x1f | 0x20;
        u[48..80].copy_from_slice(&h(&[b"y", &self.c]));
        u[0] &= 0x3f;
        u
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        let c: [u8; 48] = b.try_into().map_err(|_| Error::InvalidByteLength { got: b.len(), expected: 48 })?;
        if c[0] == 0xc0 && c[1..].iter().all(|x| *x == 0) {
            return Err(Error::InvalidInfinityPublicKey);
        }
        if c[0] & 0xc0 != 0x80 {
            return Err(Error::InvalidPoint);
        }
        Ok(PublicKey { c })
    }
    pub fn deserialize_uncompressed(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 96 {
            return Err(Error::InvalidByteLength { got: b.len(), expected: 96 });
        }
        let mut c: [u8; 48] = b[..48].try_into().unwrap();
        if c[0] & 0xc0 != 0 {
            return Err(Error::InvalidPoint);
        }
        c[0] |= 0x80;
        let k = PublicKey { c };
        if k.serialize_uncompressed() != b {
            return Err(Error::InvalidPoint);
        }
        Ok(k)
    }
    pub fn as_hex_string(&self) -> String { format!("0x{}", hex::encode(self.c)) }
    pub fn as_ssz_bytes(&self) -> Vec<u8> { self.c.to_vec() }
}
impl std::fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.as_hex_string()) }
}
impl std::fmt::Display for PublicKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.as_hex_string()) }
}
impl Serialize for PublicKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.as_hex_string()) }
}
impl<'de> Deserialize<'de> for PublicKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        PublicKey::deserialize(&b).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublicKeyBytes(pub [u8; 48]);

#[derive(Clone)]
pub struct SecretKey {
    seed: u64,
}
static NEXT: AtomicU64 = AtomicU64::new(1 << 40);
impl SecretKey {
    pub fn random() -> Self { SecretKey { seed: NEXT.fetch_add(1, Ordering::Relaxed) } }
    pub fn from_seed(seed: u64) -> Self { SecretKey { seed } }
    pub fn public_key(&self) -> PublicKey { PublicKey::from_seed(self.seed) }
    pub fn sign(&self, msg: Hash256) -> Signature { Signature(AggregateSignature::of(&self.public_key(), msg)) }
}
#[derive(Clone)]
pub struct Keypair {
    pub sk: SecretKey,
    pub pk: PublicKey,
}
impl Keypair {
    pub fn random() -> Self { Self::from_components_seed(NEXT.fetch_add(1, Ordering::Relaxed)) }
    pub fn from_components_seed(seed: u64) -> Self {
        let sk = SecretKey::from_seed(seed);
        Keypair { pk: sk.public_key(), sk }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Signature(AggregateSignature);

/// `pts` counts the parts (0 = the point at infinity), `sum` is the homomorphic sum.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct AggregateSignature {
    b: [u8; 96],
}
impl std::fmt::Debug for AggregateSignature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}", hex::encode(self.b)) }
}
impl AggregateSignature {
    pub fn infinity() -> Self {
        let mut b = [0u8; 96];
        b[0] = 0xc0;
        Self { b }
    }
    pub fn empty() -> Self { Self { b: [0u8; 96] } }
    pub fn is_infinity(&self) -> bool { *self == Self::infinity() }
    pub fn is_empty(&self) -> bool { *self == Self::empty() }
    fn of(pk: &PublicKey, msg: Hash256) -> Self {
        Self::from_sum(U256::from_be_bytes(h(&[b"sig", &pk.c, msg.as_slice()])))
    }
    fn from_sum(s: U256) -> Self {
        if s.is_zero() {
            return Self::infinity();
        }
        let mut b = [0u8; 96];
        b[0] = 0x80;
        b[64..].copy_from_slice(&s.to_be_bytes::<32>());
        Self { b }
    }
    fn sum(&self) -> Option<U256> {
        if self.is_infinity() {
            return Some(U256::ZERO);
        }
        (self.b[0] == 0x80 && self.b[1..64].iter().all(|x| *x == 0))
            .then(|| U256::from_be_slice(&self.b[64..]))
    }
    pub fn add_assign(&mut self, s: &Signature) { self.add_assign_aggregate(&s.0) }
    pub fn add_assign_aggregate(&mut self, s: &AggregateSignature) {
        let (a, b) = (self.sum().unwrap_or_default(), s.sum().unwrap_or_default());
        *self = Self::from_sum(a.wrapping_add(b));
    }
    pub fn serialize(&self) -> [u8; 96] { self.b }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        let b: [u8; 96] = b.try_into().map_err(|_| Error::InvalidByteLength { got: b.len(), expected: 96 })?;
        let s = Self { b };
        if s.is_empty() || s.sum().is_some() { Ok(s) } else { Err(Error::InvalidPoint) }
    }
    pub fn fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() {
            return false;
        }
        let want = pubkeys.iter().fold(U256::ZERO, |a, k| {
            a.wrapping_add(U256::from_be_bytes(h(&[b"sig", &k.c, msg.as_slice()])))
        });
        !self.is_empty() && self.sum() == Some(want)
    }
    pub fn eth_fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() && self.is_infinity() {
            true
        } else {
            self.fast_aggregate_verify(msg, pubkeys)
        }
    }
    pub fn aggregate_verify(&self, msgs: &[Hash256], pubkeys: &[&PublicKey]) -> bool {
        if msgs.is_empty() || msgs.len() != pubkeys.len() {
            return false;
        }
        let want = pubkeys.iter().zip(msgs).fold(U256::ZERO, |a, (k, m)| {
            a.wrapping_add(U256::from_be_bytes(h(&[b"sig", &k.c, m.as_slice()])))
        });
        !self.is_empty() && self.sum() == Some(want)
    }
}
