//! Shared helpers of the drivers: deterministic randomness, JSON digits, output files.
use alloy_primitives::B256;
use serde_json::{json, Value};
use std::io::Write;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.next() % (hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
/// 64-bit numbers as four base-2^16 digits, most significant first (TLC integers are 32-bit).
pub fn d(n: u64) -> Value { json!([n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]) }
thread_local!(static NAMED: std::cell::RefCell<std::collections::HashMap<u32, B256>> = Default::default());
/// Gives some names a root of their own (block roots with a known preimage).
pub fn name_roots(m: std::collections::HashMap<u32, B256>) { NAMED.with(|n| *n.borrow_mut() = m) }
pub fn root(i: u32) -> B256 {
    if let Some(r) = NAMED.with(|n| n.borrow().get(&i).copied()) {
        return r;
    }
    if i == 0 {
        return B256::ZERO;
    }
    let mut b = [0u8; 32];
    b[..4].copy_from_slice(&i.to_be_bytes());
    b[4..8].copy_from_slice(&(i.wrapping_mul(0x9E3779B9)).to_le_bytes());
    b[31] = 0x5A;
    b.into()
}
pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    use sha2::Digest;
    let mut s = sha2::Sha256::new();
    for p in parts {
        s.update(p);
    }
    s.finalize().into()
}
pub struct Out(std::io::BufWriter<std::fs::File>, pub usize);
impl Out {
    pub fn new(dir: &str, name: &str) -> Out {
        Out(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{name}")).unwrap()), 0)
    }
    pub fn line(&mut self, v: Value) {
        self.1 += 1;
        serde_json::to_writer(&mut self.0, &v).unwrap();
        self.0.write_all(b"\n").unwrap();
    }
}
impl Drop for Out { fn drop(&mut self) { self.0.flush().unwrap() } }
/// Runs the code under test; a panic is a refusal.
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
