//! Stand-in for lighthouse's `swap_or_not_shuffle`, written from the consensus specification's
//! `compute_shuffled_index` (not from lighthouse's optimised whole-list version).
use sha2::Digest;
fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = sha2::Sha256::new();
    for p in parts {
        Digest::update(&mut s, p);
    }
    s.finalize().into()
}
/// For every index, where `compute_shuffled_index` sends it.
fn permutation(n: usize, seed: &[u8], rounds: u8) -> Vec<usize> {
    let mut pos: Vec<usize> = (0..n).collect();
    for r in 0..rounds {
        let pivot = (u64::from_le_bytes(h(&[seed, &[r]])[..8].try_into().unwrap()) % n as u64) as usize;
        let sources: Vec<[u8; 32]> =
            (0..n.div_ceil(256)).map(|w| h(&[seed, &[r], &(w as u32).to_le_bytes()])).collect();
        for p in pos.iter_mut() {
            let flip = (pivot + n - *p) % n;
            let position = flip.max(*p);
            let byte = sources[position / 256][(position % 256) / 8];
            if byte >> (position % 8) & 1 == 1 {
                *p = flip;
            }
        }
    }
    pos
}
pub fn compute_shuffled_index(index: usize, n: usize, seed: &[u8], rounds: u8) -> Option<usize> {
    if n == 0 || index >= n {
        return None;
    }
    Some(permutation(n, seed, rounds)[index])
}
/// `forwards == false`: result[i] = input[compute_shuffled_index(i)] (what committees use);
/// `forwards == true`: the inverse.
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    if input.is_empty() || input.len() > (1 << 24) || rounds == 0 {
        return None;
    }
    let perm = permutation(input.len(), seed, rounds);
    let mut out = vec![0; input.len()];
    for (i, p) in perm.iter().enumerate() {
        if forwards {
            out[*p] = input[i];
        } else {
            out[i] = input[*p];
        }
    }
    Some(out)
}
