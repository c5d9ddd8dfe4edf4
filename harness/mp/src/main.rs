//! Drives the real ssz-multiproofs code with generated proofs and records what it said.
//! Usage: mp <seed> <tier> <outdir>   -> outdir/trees.ndjson, outdir/trace.ndjson
use bitvec::prelude::*;
use serde::de::{value::Error as DeError, IntoDeserializer, MapAccess, Visitor};
use serde::Deserialize;
use serde_json::json;
use sha2::Digest;
use ssz_multiproofs::Multiproof;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
type H32 = [u8; 32];
fn hash2(a: &H32, b: &H32) -> H32 {
    let mut h = sha2::Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}
/// A known binary tree: path -> hash. Tokens number the distinct 32-byte values.
struct Tree {
    nodes: BTreeMap<Vec<u8>, H32>,
    tok: HashMap<H32, usize>,
    val: Vec<H32>,
    keys: Vec<usize>,
    vals: Vec<usize>,
    junk: Vec<usize>,
}
impl Tree {
    fn build(shape: &HashSet<Vec<u8>>, rng: &mut Rng) -> Tree {
        // shape: the set of internal paths (prefix closed)
        let mut t = Tree { nodes: BTreeMap::new(), tok: HashMap::new(), val: vec![[0; 32]], keys: vec![], vals: vec![], junk: vec![] };
        t.fill(shape, vec![], rng);
        let mut seen = HashSet::new();
        for p in shape {
            let (mut l, mut r) = (p.clone(), p.clone());
            l.push(0);
            r.push(1);
            let k = t.tok[&t.nodes[&l]] * 32768 + t.tok[&t.nodes[&r]];
            if seen.insert(k) {
                t.keys.push(k);
                t.vals.push(t.tok[&t.nodes[p]]);
            }
        }
        for i in 0..3u8 {
            let mut h = [0xEEu8; 32];
            h[0] = i;
            let n = t.intern(h);
            t.junk.push(n);
        }
        t
    }
    fn intern(&mut self, h: H32) -> usize {
        let n = self.val.len();
        let e = *self.tok.entry(h).or_insert(n);
        if e == n {
            self.val.push(h);
        }
        e
    }
    fn fill(&mut self, shape: &HashSet<Vec<u8>>, p: Vec<u8>, rng: &mut Rng) -> H32 {
        let h = if shape.contains(&p) {
            let (mut l, mut r) = (p.clone(), p.clone());
            l.push(0);
            r.push(1);
            let a = self.fill(shape, l, rng);
            let b = self.fill(shape, r, rng);
            hash2(&a, &b)
        } else {
            // leaves: random chunks, some shared, some zero
            let mut h = [0u8; 32];
            if !rng.chance(1, 6) {
                let x = if rng.chance(1, 6) { rng.next() % 3 } else { rng.next() };
                h[..8].copy_from_slice(&x.to_le_bytes());
            }
            h
        };
        self.intern(h);
        self.nodes.insert(p, h);
        h
    }
    fn at(&self, p: &[u8]) -> Option<usize> { self.nodes.get(p).map(|h| self.tok[h]) }
}
fn full(depth: usize) -> HashSet<Vec<u8>> {
    let mut s = HashSet::new();
    let mut layer = vec![vec![]];
    for _ in 0..depth {
        let mut nx = vec![];
        for p in layer {
            for b in 0..2u8 {
                let mut q: Vec<u8> = p.clone();
                q.push(b);
                nx.push(q);
            }
            s.insert(p);
        }
        layer = nx;
    }
    s
}
fn random_shape(rng: &mut Rng, n: usize, maxd: usize) -> HashSet<Vec<u8>> {
    let mut s: HashSet<Vec<u8>> = HashSet::new();
    s.insert(vec![]);
    let mut frontier = vec![vec![0u8], vec![1u8]];
    while s.len() < n && !frontier.is_empty() {
        let i = if rng.chance(1, 3) { frontier.len() - 1 } else { rng.below(frontier.len()) };
        let p = frontier.swap_remove(i);
        if p.len() >= maxd {
            continue;
        }
        for b in 0..2 {
            let mut q = p.clone();
            q.push(b);
            frontier.push(q);
        }
        s.insert(p);
    }
    s
}
/// A spine of the given bits: every prefix is internal.
fn spine(bits: &[u8]) -> HashSet<Vec<u8>> { (0..bits.len()).map(|i| bits[..i].to_vec()).collect() }

#[derive(Clone, Debug)]
struct Proof {
    desc: Vec<bool>,
    mask: Vec<bool>,
    data: Vec<usize>,
    tail: usize,
    hint: u64,
}
/// Generator-side walk of a descriptor (only used to pick plausible data).
fn paths(desc: &[bool]) -> Vec<Vec<u8>> {
    let (mut out, mut cur): (Vec<Vec<u8>>, Vec<u8>) = (vec![], vec![]);
    for b in desc {
        if *b {
            out.push(cur.clone());
            while cur.last() == Some(&1) {
                cur.pop();
            }
            if let Some(x) = cur.last_mut() {
                *x = 1;
            }
        } else {
            cur.push(0);
        }
    }
    out
}
enum F<'a> {
    Bytes(&'a [u8]),
    Json(serde_json::Value),
}
struct Fields<'a>(Vec<(&'static str, F<'a>)>, Option<F<'a>>);
impl<'a> MapAccess<'a> for Fields<'a> {
    type Error = DeError;
    fn next_key_seed<K: serde::de::DeserializeSeed<'a>>(&mut self, s: K) -> Result<Option<K::Value>, DeError> {
        match self.0.pop() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(k.into_deserializer()).map(Some)
            }
        }
    }
    fn next_value_seed<V: serde::de::DeserializeSeed<'a>>(&mut self, s: V) -> Result<V::Value, DeError> {
        match self.1.take().unwrap() {
            F::Bytes(b) => s.deserialize(serde::de::value::BorrowedBytesDeserializer::new(b)),
            F::Json(j) => s.deserialize(j).map_err(serde::de::Error::custom),
        }
    }
}
struct FD<'a>(Fields<'a>);
impl<'de> serde::Deserializer<'de> for FD<'de> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> { v.visit_map(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn bits(v: &[bool]) -> BitVec<u32, Lsb0> { v.iter().collect() }
fn make<'a>(t: &Tree, p: &Proof, buf: &'a mut Vec<u8>) -> Multiproof<'a> {
    for d in &p.data {
        buf.extend_from_slice(&t.val[*d]);
    }
    buf.extend(std::iter::repeat_n(7u8, p.tail));
    let f = Fields(
        vec![
            ("data", F::Bytes(&buf[..])),
            ("value_mask", F::Json(serde_json::to_value(bits(&p.mask)).unwrap())),
            ("descriptor", F::Json(serde_json::to_value(bits(&p.desc)).unwrap())),
            ("max_stack_depth", F::Json(json!(p.hint))),
        ],
        None,
    );
    Multiproof::deserialize(FD(f)).expect("the proof's own field names and types")
}
fn gbits(g: u64) -> Vec<u8> {
    if g == 0 {
        return vec![9]; // not an index at all
    }
    let n = 63 - g.leading_zeros();
    (0..n).rev().map(|i| (g >> i & 1) as u8).collect()
}
fn gof(p: &[u8]) -> u64 { p.iter().fold(1u64, |g, b| g.wrapping_mul(2).wrapping_add(*b as u64)) }
fn b01(v: &[bool]) -> Vec<u8> { v.iter().map(|b| *b as u8).collect() }

struct Out<W: Write> {
    w: W,
    n: usize,
}
impl<W: Write> Out<W> {
    fn run(&mut self, t: &Tree, ti: usize, p: &Proof, root: usize, rng: &mut Rng, tag: &str) {
        let mut buf = vec![];
        let m = make(t, p, &mut buf);
        let tk = |h: &H32| t.tok.get(h).copied().unwrap_or(0);
        let verify = catch_unwind(AssertUnwindSafe(|| m.verify(&t.val[root]).is_ok())).unwrap_or(false);
        let calc = catch_unwind(AssertUnwindSafe(|| m.calculate_root().ok())).unwrap_or(None);
        let calc = calc.map(|h| tk(&h) as i64).unwrap_or(-1);
        let (mut nodes, mut values, mut gets, mut asserts) = (vec![], vec![], vec![], String::new());
        if verify || calc >= 0 {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let nodes: Vec<_> = m.nodes().map(|(g, h)| (g, tk(h))).collect();
                let values: Vec<_> = m.values().map(|(g, h)| (g, tk(h))).collect();
                (nodes, values)
            }));
            match r {
                Ok((n, v)) => {
                    nodes = n;
                    values = v;
                }
                Err(_) => asserts = "listing the nodes of an accepted proof panicked".into(),
            }
            let mut ask: Vec<u64> = nodes.iter().map(|x| x.0).collect();
            ask.extend([1, 2, 3, 5, 11, rng.next() % 64 + 1]);
            for _ in 0..ask.len().min(6) {
                let g = ask[rng.below(ask.len())];
                let got = catch_unwind(AssertUnwindSafe(|| m.get(g).map(tk)));
                match got {
                    Ok(x) => gets.push(json!([gbits(g), x.unwrap_or(0)])),
                    Err(_) => asserts = "lookup panicked".into(),
                }
            }
            // the checked iterator: right index gives the value, wrong index an error, then the end
            let ok = catch_unwind(AssertUnwindSafe(|| {
                let mut it = m.values();
                for (g, v) in &values {
                    if it.next_assert_gindex(*g).ok().map(tk) != Some(*v) {
                        return false;
                    }
                }
                if it.next_assert_gindex(1).is_ok() || it.next().is_some() {
                    return false;
                }
                match values.first() {
                    Some((g, _)) => m.values().next_assert_gindex(g ^ 1).is_err(),
                    None => true,
                }
            }));
            if !matches!(ok, Ok(true)) && asserts.is_empty() {
                asserts = "checked iteration disagrees with the values".into();
            }
            if self.n % 16 == 0 {
                let b = bincode::serialize(&m).unwrap();
                match bincode::deserialize::<Multiproof>(&b) {
                    Ok(x) if x == m => {}
                    _ => asserts = "a proof does not survive serialization".into(),
                }
            }
        }
        let pr = |v: &Vec<(u64, usize)>| v.iter().map(|(g, k)| json!([gbits(*g), k])).collect::<Vec<_>>();
        let line = json!({"tag": tag, "tree": ti, "desc": b01(&p.desc), "mask": b01(&p.mask), "data": p.data, "tail": p.tail,
            "root": root, "verify": verify, "calc": calc, "nodes": pr(&nodes), "values": pr(&values), "gets": gets, "asserts": asserts});
        writeln!(self.w, "{line}").unwrap();
        self.n += 1;
    }
}
fn honest(t: &Tree, desc: &[bool], rng: &mut Rng) -> Vec<usize> {
    paths(desc).iter().map(|p| t.at(p).unwrap_or_else(|| 1 + rng.below(t.val.len() - 1))).collect()
}
/// A random honest proof: descend from the root, stopping at random.
fn random_desc(t: &Tree, rng: &mut Rng, p: Vec<u8>, stop: usize, out: &mut Vec<bool>) {
    let mut l = p.clone();
    l.push(0);
    if t.nodes.contains_key(&l) && (p.is_empty() || !rng.chance(stop, 100)) {
        out.push(false);
        random_desc(t, rng, l, stop, out);
        let mut r = p;
        r.push(1);
        random_desc(t, rng, r, stop, out);
    } else {
        out.push(true);
    }
}
fn rmask(n: usize, rng: &mut Rng) -> Vec<bool> {
    let k = rng.below(4);
    (0..n).map(|_| match k { 0 => true, 1 => rng.chance(1, 8), _ => rng.chance(1, 2) }).collect()
}
fn mutate(t: &Tree, p: &mut Proof, root: &mut usize, rng: &mut Rng) -> &'static str {
    match rng.below(13) {
        0 if !p.data.is_empty() => {
            let i = rng.below(p.data.len());
            p.data[i] = 1 + rng.below(t.val.len() - 1);
            "swap-one"
        }
        1 if p.data.len() > 1 => {
            let (i, j) = (rng.below(p.data.len()), rng.below(p.data.len()));
            p.data.swap(i, j);
            "swap-two"
        }
        2 if !p.data.is_empty() => {
            p.data.pop();
            "short"
        }
        3 => {
            let k = 1 + rng.below(t.val.len() - 1);
            p.data.push(k);
            "long"
        }
        4 => {
            p.tail = 1 + rng.below(31);
            "tail"
        }
        5 if !p.desc.is_empty() => {
            let i = rng.below(p.desc.len());
            p.desc[i] ^= true;
            "flip-desc"
        }
        6 if !p.desc.is_empty() => {
            p.desc.pop();
            "cut-desc"
        }
        7 => {
            p.desc.push(rng.chance(1, 2));
            "grow-desc"
        }
        8 => {
            *root = 1 + rng.below(t.val.len() - 1);
            "root"
        }
        9 => {
            let n = rng.below(p.mask.len() + 4);
            p.mask = rmask(n, rng);
            "mask-len"
        }
        10 if !p.data.is_empty() => {
            // replace a node by its child or parent: same tree, wrong place
            let i = rng.below(p.data.len());
            let ps = paths(&p.desc);
            if let Some(q) = ps.get(i) {
                let mut c = q.clone();
                if rng.chance(1, 2) { c.pop(); } else { c.push(rng.below(2) as u8); }
                if let Some(k) = t.at(&c) { p.data[i] = k; }
            }
            "shift-level"
        }
        11 => {
            let d = rng.below(p.data.len().max(1));
            if d < p.data.len() { p.data.remove(d); }
            if d < p.mask.len() { p.mask.remove(d); }
            "drop-one"
        }
        _ if p.desc.len() > 2 => {
            let (i, j) = (rng.below(p.desc.len()), rng.below(p.desc.len()));
            p.desc.swap(i, j);
            "perm-desc"
        }
        _ => "none",
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xC08);
    let mut trees: Vec<Tree> = vec![];
    let mut o = Out { w: std::io::BufWriter::new(std::fs::File::create(format!("{}/trace.ndjson", a[3])).unwrap()), n: 0 };

    // 1. every descriptor up to a number of bits, over a complete tree
    let maxbits = if thorough { 15 } else { 11 };
    trees.push(Tree::build(&full(maxbits / 2), &mut rng));
    for n in 0..=maxbits {
        for code in 0..1u32 << n {
            let desc: Vec<bool> = (0..n).map(|i| code >> i & 1 == 1).collect();
            let t = &trees[0];
            let root = t.at(&[]).unwrap();
            let data = honest(t, &desc, &mut rng);
            let mask = rmask(data.len(), &mut rng);
            let mut p = Proof { desc, mask, data, tail: 0, hint: rng.next() % 16 };
            o.run(t, 1, &p, root, &mut rng, "enum");
            let mut r = root;
            let tag = mutate(t, &mut p, &mut r, &mut rng);
            o.run(t, 1, &p, r, &mut rng, tag);
        }
    }
    // 2. random trees, larger proofs, mutations
    let (nt, per) = if thorough { (60, 120) } else { (20, 60) };
    for k in 0..nt {
        let n = [3, 8, 20, 60, 120][k % 5];
        let sh = random_shape(&mut rng, n, 40);
        trees.push(Tree::build(&sh, &mut rng));
        let ti = trees.len();
        let t = &trees[ti - 1];
        for _ in 0..per {
            let mut desc = vec![];
            let stop = [0, 5, 20, 50][rng.below(4)];
            random_desc(t, &mut rng, vec![], stop, &mut desc);
            let data = honest(t, &desc, &mut rng);
            let mask = rmask(data.len(), &mut rng);
            let mut p = Proof { desc, mask, data, tail: 0, hint: rng.next() % 300 };
            let mut r = t.at(&[]).unwrap();
            o.run(t, ti, &p, r, &mut rng, "honest");
            let mut tag = "none";
            for _ in 0..1 + rng.below(2) {
                tag = mutate(t, &mut p, &mut r, &mut rng);
            }
            o.run(t, ti, &p, r, &mut rng, tag);
        }
    }
    // 3. deep spines: paths near and beyond what a 64-bit index can name, including paths whose
    //    low 64 bits spell the index of an ordinary field
    let mut bitsets: Vec<Vec<u8>> = vec![];
    for d in [30usize, 60, 61, 62, 63, 64, 65, 66, 70, 80] {
        bitsets.push(vec![0; d]);
        bitsets.push(vec![1; d]);
        for _ in 0..if thorough { 6 } else { 2 } {
            bitsets.push((0..d).map(|_| rng.below(2) as u8).collect());
        }
    }
    for g in [1u64, 8, 11, 66, 75, 168] {
        for pre in 1..4 {
            let mut v: Vec<u8> = (0..pre).map(|_| rng.below(2) as u8).collect();
            v.extend((0..64).rev().map(|i| (g >> i & 1) as u8));
            bitsets.push(v);
        }
    }
    for bs in bitsets {
        trees.push(Tree::build(&spine(&bs), &mut rng));
        let ti = trees.len();
        let t = &trees[ti - 1];
        // the whole spine, and a cut through it
        for cut in [bs.len(), 63.min(bs.len()), bs.len() - 1, 1 + rng.below(bs.len() - 1)] {
            let mut desc = vec![];
            fn go(b: &[u8], out: &mut Vec<bool>) {
                if b.is_empty() {
                    out.push(true);
                    return;
                }
                out.push(false);
                if b[0] == 0 {
                    go(&b[1..], out);
                    out.push(true);
                } else {
                    out.push(true);
                    go(&b[1..], out);
                }
            }
            go(&bs[..cut], &mut desc);
            let data = honest(t, &desc, &mut rng);
            let target = paths(&desc).iter().position(|p| p[..] == bs[..cut]).unwrap();
            let mut mask = vec![false; data.len()];
            mask[target] = true;
            let mut p = Proof { desc, mask, data, tail: 0, hint: 100 };
            let mut r = t.at(&[]).unwrap();
            o.run(t, ti, &p, r, &mut rng, "deep");
            let tag = mutate(t, &mut p, &mut r, &mut rng);
            o.run(t, ti, &p, r, &mut rng, tag);
        }
    }
    let _ = gof(&[]);
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{}/trees.ndjson", a[3])).unwrap());
    for t in &trees {
        writeln!(w, "{}", json!({"keys": t.keys, "vals": t.vals})).unwrap();
    }
    println!("{}", json!({"lines": o.n, "trees": trees.len()}));
}
