//! Steps and link reconstruction of the FFG state machine, and its byte encodings.
use crate::util::*;
use alloy_primitives::B256;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use z_core::{abi, Checkpoint, ConsensusState, Link};

type C = (u64, u32);
type S = (C, C); // (justified, finalized)
fn cp(c: C) -> Checkpoint { Checkpoint::new(c.0.into(), root(c.1)) }
fn valid(s: S) -> bool { s.1 .0 < s.0 .0 || s == ((0, 0), (0, 0)) }
/// Builds any pair of checkpoints, valid or not (the guest deserializes its input).
fn state(s: S) -> ConsensusState {
    if s == ((0, 0), (0, 0)) {
        return ConsensusState::default();
    }
    if valid(s) {
        return ConsensusState::new(cp(s.0), cp(s.1));
    }
    for p in [(s.0, s.1), (s.1, s.0)] {
        let bytes = bincode::serialize(&((p.0 .0, root(p.0 .1)), (p.1 .0, root(p.1 .1)))).unwrap();
        let c: ConsensusState = bincode::deserialize(&bytes).unwrap();
        if c.current_justified_checkpoint() == cp(s.0) && c.finalized_checkpoint() == cp(s.1) {
            return c;
        }
    }
    panic!("cannot build the state {s:?}")
}
fn jc(c: C) -> Value { json!([d(c.0), c.1]) }
fn js(s: S) -> Value { json!([jc(s.0), jc(s.1)]) }
struct Names(BTreeMap<B256, u32>);
impl Names {
    fn cp(&self, c: Checkpoint) -> Value {
        json!([d(c.epoch().into()), self.0.get(&c.root()).copied().unwrap_or(99999)])
    }
    fn st(&self, s: &ConsensusState) -> Value {
        json!([self.cp(s.current_justified_checkpoint()), self.cp(s.finalized_checkpoint())])
    }
}
fn step(o: &mut Out, n: &Names, s: S, l: (C, C)) {
    let cs = state(s);
    let r = caught(|| cs.state_transition(&Link { source: cp(l.0), target: cp(l.1) }));
    let (ok, res) = match &r {
        Some(Ok(x)) => (true, n.st(x)),
        _ => (false, js(s)),
    };
    o.line(json!({"k": "step", "cs": js(s), "src": jc(l.0), "tgt": jc(l.1), "ok": ok, "res": res}));
}
fn link(o: &mut Out, n: &Names, a: S, b: S) {
    let (sa, sb) = (state(a), state(b));
    let r = caught(|| sa.transition_link(&sb));
    let (out, s, t) = match &r {
        Some(Ok(None)) => ("same", jc((0, 0)), jc((0, 0))),
        Some(Ok(Some(l))) => ("link", n.cp(l.source), n.cp(l.target)),
        Some(Err(z_core::ConsensusError::TwoFinality)) => ("two", jc((0, 0)), jc((0, 0))),
        _ => ("invalid", jc((0, 0)), jc((0, 0))),
    };
    o.line(json!({"k": "link", "a": js(a), "b": js(b), "out": out, "s": s, "t": t}));
}
fn epoch(rng: &mut Rng, near: u64) -> u64 {
    match rng.below(8) {
        0 => rng.next(),
        1 => u64::MAX - rng.below(4) as u64,
        2 => rng.below(4) as u64,
        3 => near,
        4 | 5 => near.saturating_add(rng.range(1, 3)),
        6 => near.saturating_sub(rng.range(1, 3)),
        _ => near ^ (1 << rng.below(64)),
    }
}
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut o = Out::new(dir, "trace.ndjson");
    let n = Names((0..8).map(|i| (root(i), i)).collect());
    let m = u64::MAX;
    let epochs: Vec<u64> = if thorough { vec![0, 1, 2, 3, 4, 65535, 65536, m - 3, m - 2, m - 1, m] } else { vec![0, 1, 2, 3, m - 1, m] };
    let cps: Vec<C> = epochs.iter().flat_map(|e| [(*e, 0), (*e, 1)]).collect();
    let states: Vec<S> = cps.iter().flat_map(|a| cps.iter().map(move |b| (*a, *b))).collect();
    for s in &states {
        if !valid(*s) {
            // every entry point must refuse an inconsistent state
            step(&mut o, &n, *s, (s.0, (s.0 .0.saturating_add(1), 1)));
            link(&mut o, &n, *s, *s);
            for b in states.iter().filter(|b| valid(**b)) {
                if rng.chance(1, 12) {
                    link(&mut o, &n, *s, *b);
                    link(&mut o, &n, *b, *s);
                }
            }
            let ok = caught(|| ConsensusState::new(cp(s.0), cp(s.1))).is_some();
            o.line(json!({"k": "new", "cs": js(*s), "ok": ok}));
            continue;
        }
        let ok = caught(|| ConsensusState::new(cp(s.0), cp(s.1))).is_some();
        o.line(json!({"k": "new", "cs": js(*s), "ok": ok}));
        for t in &cps {
            step(&mut o, &n, *s, (s.0, *t));
            for src in &cps {
                if *src != s.0 && (thorough && rng.chance(1, 2) || rng.chance(1, 4)) {
                    step(&mut o, &n, *s, (*src, *t));
                }
            }
        }
        for b in states.iter().filter(|b| valid(**b)) {
            if !thorough || rng.chance(1, 2) {
                link(&mut o, &n, *s, *b);
            }
        }
    }
    // random chains over the whole 64-bit range, with reconstruction of every step taken
    for _ in 0..(if thorough { 6000 } else { 1200 }) {
        let base = match rng.below(4) {
            0 => 0,
            1 => u64::MAX - rng.below(12) as u64,
            2 => rng.next() >> rng.below(64),
            _ => rng.range(1, 500_000),
        };
        let mut s: S = if base == 0 && rng.chance(1, 2) {
            ((0, 0), (0, 0))
        } else {
            let f = base;
            let Some(j) = f.checked_add(rng.range(1, 3)) else { continue };
            ((j, rng.range(0, 3) as u32), (f, rng.range(0, 3) as u32))
        };
        let start = s;
        let mut cs = state(s);
        let (mut links, mut oks, mut res, mut past) = (vec![], vec![], vec![], vec![s]);
        for _ in 0..rng.range(2, 9) {
            let src = match rng.below(10) {
                0 => s.1,
                1 => (s.0 .0, (s.0 .1 + 1) % 4),
                2 => (epoch(&mut rng, s.0 .0), rng.below(4) as u32),
                _ => s.0,
            };
            let tgt = (epoch(&mut rng, s.0 .0), rng.below(4) as u32);
            let r = caught(|| cs.state_transition(&Link { source: cp(src), target: cp(tgt) }));
            links.push(json!([jc(src), jc(tgt)]));
            match r {
                Some(Ok(x)) => {
                    oks.push(true);
                    res.push(n.st(&x));
                    let nm = |c: Checkpoint| (c.epoch().as_u64(), *n.0.get(&c.root()).unwrap_or(&99999));
                    let prev = s;
                    s = (nm(x.current_justified_checkpoint()), nm(x.finalized_checkpoint()));
                    if !valid(s) || s.0 .1 > 8 || s.1 .1 > 8 {
                        break;
                    }
                    link(&mut o, &n, prev, s);
                    past.push(s);
                    cs = x;
                }
                _ => {
                    oks.push(false);
                    res.push(js(s));
                }
            }
        }
        o.line(json!({"k": "chain", "cs": js(start), "links": links, "oks": oks, "res": res}));
        let (a, b) = (*rng.pick(&past), *rng.pick(&past));
        link(&mut o, &n, a, b);
        let f = s.1;
        for b in [((s.0 .0, 3), f), (s.0, (f.0, 3)), ((epoch(&mut rng, s.0 .0), 1), s.0), ((s.0 .0.saturating_add(1), 2), f)] {
            link(&mut o, &n, s, b);
        }
    }
}

/// The bytes a verifier reads from the journal and writes as a state.
pub fn run_abi(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut o = Out::new(dir, "trace.ndjson");
    let words = |b: &[u8]| -> Value {
        // base-2^16 digits of the byte string (an odd tail is marked with a trailing -1)
        let mut v: Vec<i64> = b.chunks(2).filter(|c| c.len() == 2).map(|c| ((c[0] as i64) << 8) | c[1] as i64).collect();
        if b.len() % 2 == 1 {
            v.push(-1);
        }
        json!(v)
    };
    let rr = |rng: &mut Rng| -> B256 {
        let mut b = [0u8; 32];
        match rng.below(4) {
            0 => {}
            1 => b = [0xff; 32],
            _ => {
                for c in b.chunks_mut(8) {
                    c.copy_from_slice(&rng.next().to_be_bytes());
                }
            }
        }
        b.into()
    };
    let ep = |rng: &mut Rng| match rng.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => rng.range(0, 3),
        3 => 1u64 << rng.below(64),
        _ => rng.next() >> rng.below(64),
    };
    type P = (u64, B256);
    let jcp = |c: P| json!([d(c.0), words(c.1.as_slice())]);
    let real = |c: Checkpoint| -> P { (c.epoch().as_u64(), c.root()) };
    let jst = |s: &ConsensusState| json!([jcp(real(s.current_justified_checkpoint())), jcp(real(s.finalized_checkpoint()))]);
    let mk = |rng: &mut Rng| loop {
        let (a, b) = (ep(rng), ep(rng));
        if a > b {
            return ConsensusState::new(Checkpoint::new(a.into(), rr(rng)), Checkpoint::new(b.into(), rr(rng)));
        }
        if rng.chance(1, 8) {
            return ConsensusState::default();
        }
    };
    for _ in 0..(if thorough { 20000 } else { 2500 }) {
        let (a, b) = (mk(&mut rng), mk(&mut rng));
        let slot = ep(&mut rng);
        let e = caught(|| (a.abi_encode(), ConsensusState::abi_encoded_size()));
        let j = caught(|| {
            let j = abi::Journal::new(&a, &b, slot);
            (j.encode(), j.encoded_size())
        });
        let back = e.as_ref().and_then(|e| caught(|| ConsensusState::abi_decode(&e.0).ok())).flatten();
        let (eb, es) = e.clone().unwrap_or_default();
        let (jb, js) = j.unwrap_or_default();
        o.line(json!({"k": "enc", "a": jst(&a), "b": jst(&b), "slot": d(slot), "bytes": words(&eb), "size": es,
            "journal": words(&jb), "jsize": js, "back": back.as_ref().map(|x| jst(x)).unwrap_or(json!([]))}));
        // arbitrary byte strings
        let mut bytes = eb.clone();
        match rng.below(8) {
            0 => bytes.truncate(rng.below(129)),
            1 => bytes.extend((0..rng.below(40)).map(|i| i as u8)),
            2 => {
                // swap the two checkpoints: finalized above justified
                if bytes.len() == 128 { bytes.rotate_left(64) }
            }
            3 => {
                // equal epochs
                if bytes.len() == 128 { bytes.copy_within(0..32, 64) }
            }
            4 => bytes = (0..128).map(|_| if rng.chance(1, 3) { rng.next() as u8 } else { 0 }).collect(),
            5 => bytes = vec![0; rng.pick(&[0usize, 1, 31, 32, 96, 127, 128, 160]).to_owned()],
            6 => {
                // dirty high bits of an epoch word
                if bytes.len() == 128 { let i = rng.below(2) * 64 + rng.below(24); bytes[i] ^= 1 << rng.below(8); }
            }
            _ => {
                if !bytes.is_empty() { let i = rng.below(bytes.len()); bytes[i] ^= 1 << rng.below(8); }
            }
        }
        let r = caught(|| ConsensusState::abi_decode(&bytes));
        let (out, st) = match &r {
            None => ("panic", json!([])),
            Some(Err(_)) => ("err", json!([])),
            Some(Ok(s)) => ("ok", jst(s)),
        };
        o.line(json!({"k": "dec", "bytes": words(&bytes), "len": bytes.len(), "out": out, "st": st}));
    }
}
