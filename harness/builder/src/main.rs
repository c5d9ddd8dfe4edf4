//! Drives the real multiproof builder over generated objects and requests and records what it built.
//! Usage: builder-driver <seed> <tier> <outdir>   -> outdir/trees.ndjson, outdir/trace.ndjson
use ethereum_consensus::phase0::{self, BeaconBlockHeader, Validator};
use ethereum_consensus::ssz::prelude::*;
use serde_json::json;
use ssz_multiproofs::MultiproofBuilder;
use ssz_rs::Tree;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
type H32 = [u8; 32];

/// An object that is nothing but a given Merkle tree; its paths are the left/right turns.
struct Shape(Tree);
impl HashTreeRoot for Shape {
    fn tree(&self) -> Tree { self.0.clone() }
}
impl GeneralizedIndexable for Shape {
    fn compute_generalized_index(p: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        path.iter().try_fold(p, |g, e| match e {
            PathElement::Index(b) => Ok(2 * g + b),
            _ => Err(MerkleizationError::InvalidPathElement),
        })
    }
}
impl Prove for Shape {}

/// The true tree of an object as far as a case needs it: index -> hash, hash -> token.
#[derive(Default)]
struct Truth {
    tok: HashMap<H32, usize>,
    h: BTreeMap<usize, usize>,
    done: BTreeSet<u64>,
}
impl Truth {
    fn token(&mut self, h: H32) -> usize {
        let n = self.tok.len() + 1;
        *self.tok.entry(h).or_insert(n)
    }
    /// Records everything on the way from the root to `g`.
    fn learn(&mut self, t: &Tree, g: u64) -> usize {
        let at = |i: u64| t.node(i as usize).ok().map(|n| n.0);
        let mut a = g / 2;
        while a >= 1 && self.done.insert(a) {
            if let (Some(p), Some(l), Some(r)) = (at(a), at(2 * a), at(2 * a + 1)) {
                let (l, r, p) = (self.token(l), self.token(r), self.token(p));
                self.h.insert(l * 32768 + r, p);
            }
            a /= 2;
        }
        match at(g) {
            Some(h) => self.token(h),
            None => 0,
        }
    }
}
fn gbits(g: u64) -> Vec<u8> {
    if g == 0 {
        return vec![9];
    }
    (0..63 - g.leading_zeros()).rev().map(|i| (g >> i & 1) as u8).collect()
}
struct Out<W: Write> {
    w: W,
    n: usize,
    big: usize,
}
impl<W: Write> Out<W> {
    /// One request for one object. `paths` are registered with their type's paths, `gs` by index.
    fn run<T: Prove + Sync>(&mut self, obj: &T, tree: &Tree, tr: &mut Truth, ti: usize, gs: &[u64], paths: &[Vec<PathElement>], rng: &mut Rng, tag: &str) {
        let big = gs.len() > 1000;
        let mut all: BTreeSet<u64> = gs.iter().copied().collect();
        for p in paths {
            all.insert(T::generalized_index(p).expect("generated paths are valid") as u64);
        }
        // index 0 names nothing; a request below a leaf has no value
        let invalid = all.iter().any(|g| *g == 0 || tree.node(*g as usize).is_err());
        // in proof order: left before right
        let mut order: Vec<u64> = all.iter().copied().collect();
        order.sort_by_key(|g| gbits(*g));
        let req: Vec<_> = order.iter().map(|g| json!([gbits(*g), if *g == 0 { 0 } else { tr.learn(tree, *g) }])).collect();
        let root: H32 = tree.root().0;
        let root_t = tr.token(root);
        let built = catch_unwind(AssertUnwindSafe(|| {
            let mut b = MultiproofBuilder::new();
            for p in paths {
                b = b.with_path::<T>(p);
            }
            match rng.below(3) {
                0 => {
                    for g in gs {
                        b = b.with_gindex(*g as usize);
                    }
                }
                1 => b = b.with_gindices(gs.iter().map(|g| *g as usize)),
                _ => {
                    // in two halves, with repetitions
                    let k = gs.len() / 2;
                    b = b.with_gindices(gs[k..].iter().map(|g| *g as usize)).with_gindices(gs[..k].iter().map(|g| *g as usize));
                    if let Some(g) = gs.first() {
                        b = b.with_gindex(*g as usize);
                    }
                }
            }
            b.build(obj).ok()
        }));
        let tk = |h: &H32| tr.tok.get(h).copied().unwrap_or(0);
        let mut line = json!({"tag": tag, "tree": ti, "big": big, "invalid": invalid, "req": req, "root": root_t, "ok": false, "verify": false,
            "nodes": [], "values": [], "extra": 0});
        if let Ok(Some(m)) = built {
            line["ok"] = true.into();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let pr = |x: (u64, &H32)| json!([gbits(x.0), tk(x.1)]);
                (m.verify(&root).is_ok(), m.nodes().map(pr).collect::<Vec<_>>(), m.values().map(pr).collect::<Vec<_>>())
            }));
            if let Ok((v, n, vs)) = r {
                // chunks carried without belonging to any node
                if let Ok(j) = serde_json::to_value(&m) {
                    if let Some(d) = j.get("data").and_then(|d| d.as_array()) {
                        line["extra"] = (d.len() as i64 - 32 * n.len() as i64).into();
                    }
                }
                line["verify"] = v.into();
                line["nodes"] = n.into();
                line["values"] = vs.into();
            }
        }
        writeln!(self.w, "{line}").unwrap();
        self.n += 1;
        self.big += big as usize;
    }
}
/// A tree of the given depth over which every leaf position may be cut short.
fn grow(rng: &mut Rng, depth: usize, cut: usize) -> Tree {
    if depth == 0 || rng.chance(cut, 100) {
        let mut h = [0u8; 32];
        if !rng.chance(1, 6) {
            let x = if rng.chance(1, 6) { rng.next() % 3 } else { rng.next() };
            h[..8].copy_from_slice(&x.to_le_bytes());
        }
        return Tree::leaf(h);
    }
    let a = grow(rng, depth - 1, cut);
    let b = grow(rng, depth - 1, cut);
    ssz_rs::__private::container(vec![a, b])
}
/// All antichains of the indices below `g` down to the given depth (as sets; the empty one too).
fn antichains(g: u64, depth: usize) -> Vec<Vec<u64>> {
    if depth == 0 {
        return vec![vec![], vec![g]];
    }
    let (l, r) = (antichains(2 * g, depth - 1), antichains(2 * g + 1, depth - 1));
    let mut out = vec![vec![g]];
    for a in &l {
        for b in &r {
            out.push(a.iter().chain(b).copied().collect());
        }
    }
    out
}
fn below(t: &Tree, g: u64) -> bool { g < 1 << 62 && t.node(2 * g as usize).is_ok() }
/// A random antichain: descend at random, keep a node with the given chance.
fn pick(t: &Tree, g: u64, rng: &mut Rng, stop: usize, keep: usize, out: &mut Vec<u64>) {
    if g > 1 && (rng.chance(stop, 100) || !below(t, g)) {
        if rng.chance(keep, 100) {
            out.push(g);
        }
        return;
    }
    if below(t, g) {
        pick(t, 2 * g, rng, stop, keep, out);
        pick(t, 2 * g + 1, rng, stop, keep, out);
    }
}
fn antichain(gs: Vec<u64>) -> Vec<u64> {
    let s: BTreeSet<u64> = gs.into_iter().collect();
    s.iter()
        .copied()
        .filter(|g| {
            let mut a = g / 2;
            while a > 0 {
                if s.contains(&a) {
                    return false;
                }
                a /= 2;
            }
            true
        })
        .collect()
}
fn shuffle(v: &mut [u64], rng: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq)]
struct Mixed {
    a: u64,
    words: List<u64, 37>,
    v: Vector<u16, 40>,
    bits: Bitlist<600>,
    one: bool,
    headers: List<BeaconBlockHeader, 5>,
    vals: List<Validator, 1099511627776>,
    root: Node,
    cp: phase0::Checkpoint,
    many: List<Node, 16777216>,
    bytes: ByteVector<96>,
}
fn mixed(rng: &mut Rng, n: usize) -> Mixed {
    let mut m = Mixed { a: rng.next(), one: rng.chance(1, 2), ..Default::default() };
    for _ in 0..n.min(37) {
        m.words.push(rng.next());
    }
    for i in 0..40 {
        m.v[i] = rng.next() as u16;
    }
    m.bits = (0..rng.below(601)).map(|_| rng.chance(1, 2)).collect();
    for _ in 0..rng.below(6) {
        m.headers.push(BeaconBlockHeader { slot: rng.next(), proposer_index: rng.below(1000), ..Default::default() });
    }
    for _ in 0..n {
        m.vals.push(Validator { effective_balance: rng.next(), exit_epoch: rng.next() % 3, slashed: rng.chance(1, 4), ..Default::default() });
        m.many.push(Node::from(std::array::from_fn::<u8, 32, _>(|_| rng.next() as u8)));
    }
    m.cp.epoch = rng.next();
    m
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xC09);
    let mut truths: Vec<Truth> = vec![];
    let mut o = Out { w: std::io::BufWriter::new(std::fs::File::create(format!("{}/trace.ndjson", a[3])).unwrap()), n: 0, big: 0 };

    // 1. every antichain of a complete tree of depth 3, in every registration style
    {
        let t = grow(&mut rng, 3, 0);
        let mut tr = Truth::default();
        let obj = Shape(t.clone());
        for mut s in antichains(1, 3) {
            if s.is_empty() {
                continue;
            }
            shuffle(&mut s, &mut rng);
            o.run(&obj, &t, &mut tr, 1, &s, &[], &mut rng, "enum");
        }
        truths.push(tr);
    }
    // 2. random ragged trees
    for k in 0..if thorough { 60 } else { 24 } {
        let t = match k % 4 {
            0 => grow(&mut rng, 5, 0),
            1 => grow(&mut rng, 8, 15),
            2 => grow(&mut rng, 14, 30),
            _ => grow(&mut rng, 4, 20),
        };
        let mut tr = Truth::default();
        let ti = truths.len() + 1;
        let obj = Shape(t.clone());
        for _ in 0..if thorough { 60 } else { 30 } {
            let mut s = vec![];
            let (stop, keep) = ([0, 10, 25, 50][rng.below(4)], [3, 20, 50, 100][rng.below(4)]);
            pick(&t, 1, &mut rng, stop, keep, &mut s);
            s.truncate(120);
            if s.is_empty() {
                continue;
            }
            shuffle(&mut s, &mut rng);
            let k = if rng.chance(1, 3) { rng.below(s.len() + 1) } else { 0 };
            let paths: Vec<Vec<PathElement>> = s[..k].iter().map(|g| gbits(*g).iter().map(|b| PathElement::Index(*b as usize)).collect()).collect();
            o.run(&obj, &t, &mut tr, ti, &s[k..], &paths, &mut rng, "ragged");
            // a request for something the object does not have
            if rng.chance(1, 6) {
                let mut g = s[0];
                while below(&t, g) {
                    g = 2 * g + rng.next() % 2;
                }
                let mut bad: Vec<u64> = s.iter().copied().filter(|x| *x != s[0] || rng.chance(1, 2)).filter(|x| !gbits(g).starts_with(&gbits(*x))).collect();
                bad.push(if rng.chance(1, 5) { 0 } else { 2 * g + rng.next() % 2 });
                o.run(&obj, &t, &mut tr, ti, &bad, &[], &mut rng, "absent");
            }
        }
        truths.push(tr);
    }
    // 3. SSZ objects: containers, packed lists, list lengths, registries of 2^40 entries, padding
    for k in 0..if thorough { 40 } else { 12 } {
        let n = [0, 1, 2, 3, 7, 20, 33][k % 7];
        let m = mixed(&mut rng, n);
        let t = m.tree();
        let mut tr = Truth::default();
        let ti = truths.len() + 1;
        let f = |s: &str| PathElement::Field(s.into());
        let i = PathElement::Index;
        for _ in 0..if thorough { 60 } else { 30 } {
            let mut ps: Vec<Vec<PathElement>> = vec![];
            for _ in 0..1 + rng.below(8) {
                let e = rng.below(n.max(1));
                ps.push(match rng.below(16) {
                    0 => vec![f("a")],
                    1 => vec![f("words"), i(rng.below(37))],
                    2 => vec![f("words"), PathElement::Length],
                    3 => vec![f("v"), i(rng.below(40))],
                    4 => vec![f("bits")],
                    5 => vec![f("one")],
                    6 => vec![f("headers"), i(rng.below(5)), f(["slot", "body_root"][rng.below(2)])],
                    7 => vec![f("headers"), PathElement::Length],
                    8 => vec![f("vals"), i(e), f(["effective_balance", "exit_epoch", "slashed", "activation_eligibility_epoch"][rng.below(4)])],
                    9 => vec![f("vals"), PathElement::Length],
                    10 => vec![f("vals"), i(e), f("public_key"), i([0, 47][rng.below(2)])],
                    11 => vec![f("cp"), f("epoch")],
                    12 => vec![f("many"), i(e)],
                    13 => vec![f("vals"), i(e)],
                    14 => vec![f("bytes"), i(rng.below(96))],
                    _ => vec![f("root")],
                });
            }
            let gs: Vec<u64> = ps.iter().map(|p| Mixed::generalized_index(p).unwrap() as u64).collect();
            let keep = antichain(gs.clone());
            // a missing list element has no tree below it: the request is then for padding
            let ps: Vec<_> = ps.into_iter().zip(&gs).filter(|(_, g)| keep.contains(g)).map(|(p, _)| p).collect();
            let byidx = rng.chance(1, 2);
            if byidx {
                o.run(&m, &t, &mut tr, ti, &keep, &[], &mut rng, "object");
            } else {
                o.run(&m, &t, &mut tr, ti, &[], &ps, &mut rng, "object");
            }
        }
        truths.push(tr);
    }
    // 4. requests so large that the work is divided
    for (d, num) in if thorough { vec![(15, 21_000), (15, 32_768), (15, 30_000)] } else { vec![(15, 21_000)] } {
        let mut leaf = 0u64;
        fn lay(d: usize, leaf: &mut u64) -> Tree {
            if d == 0 {
                let mut h = [0u8; 32];
                h[..8].copy_from_slice(&leaf.to_le_bytes());
                h[31] = 1;
                *leaf += 1;
                return Tree::leaf(h);
            }
            let (a, b) = (lay(d - 1, leaf), lay(d - 1, leaf));
            ssz_rs::__private::container(vec![a, b])
        }
        let t = lay(d, &mut leaf);
        let obj = Shape(t.clone());
        let mut s: Vec<u64> = (0..1u64 << d).map(|i| i + (1 << d)).collect();
        shuffle(&mut s, &mut rng);
        s.truncate(num);
        let mut tr = Truth::default();
        let ti = truths.len() + 1;
        o.run(&obj, &t, &mut tr, ti, &s, &[], &mut rng, "huge");
        tr.h.clear(); // values only: the specification does not hash the huge ones
        truths.push(tr);
    }
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{}/trees.ndjson", a[3])).unwrap());
    for t in &truths {
        assert!(t.h.keys().all(|k| *k < 1 << 30), "DRIVER-ERROR too many tokens");
        writeln!(w, "{}", json!({"keys": t.h.keys().collect::<Vec<_>>(), "vals": t.h.values().collect::<Vec<_>>()})).unwrap();
    }
    println!("{}", json!({"lines": o.n, "trees": truths.len(), "huge": o.big}));
    std::fs::write(format!("{}/stats.json", a[3]), json!({"objects": truths.len(), "requests": o.n, "huge": o.big}).to_string()).unwrap();
}
