//! The host's search along the chain (C17) and its collection of votes (C18).
use crate::sim::*;
use crate::util::*;
use beacon_types::{EthSpec, MainnetEthSpec};
use futures::executor::block_on;
use crate::node::{Mode, Node};
use host::{BeaconClient, ChainReader, HostInputReader, StateProvider, StateProviderError, StateRef};
use serde_json::{json, Value};
use ssz::Encode;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use z_core::InputReader;

struct NoStates<E>(std::marker::PhantomData<E>);
impl<E: EthSpec> StateProvider for NoStates<E> {
    type Spec = E;
    fn state_at_slot(&self, slot: beacon_types::Slot) -> Result<StateRef, StateProviderError> { Err(StateProviderError::NotFound(slot)) }
}
fn jc(c: z_core::Checkpoint, names: &HashMap<[u8; 32], u32>) -> Value { json!([c.epoch().as_u64().min(99999999), names.get(&c.root().0).copied().unwrap_or(999999)]) }

fn observe<E: EthSpec>(chain: &Chain, trusted: C) -> Value {
    chain.requests.set(0);
    judge::<E, _>(chain, chain, trusted, || chain.requests.get())
}
/// The same through the real client and a node on the loopback network.
pub fn remote<E: EthSpec>(chain: &Chain, trusted: C, node: &Node, wrong: Option<(usize, Mode)>) -> (Value, usize) {
    node.clear();
    serve(chain, node);
    node.answers.lock().unwrap().wrong = wrong;
    let client = BeaconClient::builder(node.url.clone()).with_rate_limit(0).build();
    let asked = || node.answers.lock().unwrap().asked.len();
    let v = judge::<E, _>(chain, client, trusted, || asked() as u64);
    (v, asked())
}
fn serve(c: &Chain, node: &Node) {
    let set = |path: String, data: Value| node.set(path, json!({"execution_optimistic": false, "finalized": true, "version": "electra", "data": data}).to_string().into_bytes());
    for s in 0..=c.head {
        let st = c.state(s / c.spe);
        let cp = |c: C| json!({"epoch": c.0.to_string(), "root": root(c.1)});
        set(format!("/eth/v1/beacon/states/{s}/finality_checkpoints"), json!({"previous_justified": cp(st.pj), "current_justified": cp(st.j), "finalized": cp(st.f)}));
        let Some(b) = block(c, s) else { continue };
        let header = json!({"root": root(s as u32 + 1), "canonical": true, "header": c.header(s)});
        set(format!("/eth/v1/beacon/headers/{s}"), header.clone());
        set(format!("/eth/v1/beacon/headers/{}", root(s as u32 + 1)), header);
        set(format!("/eth/v2/beacon/blocks/{s}"), json!({"message": b, "signature": format!("0x{}", "00".repeat(96))}));
    }
}
fn judge<E: EthSpec, R: ChainReader>(chain: &Chain, reader: R, trusted: C, asked: impl Fn() -> u64) -> Value {
    let mut names: HashMap<[u8; 32], u32> = chain.blocks.keys().map(|s| (root(*s as u32 + 1).0, *s as u32 + 1)).collect();
    names.insert([0; 32], 0);
    let ids: HashMap<Vec<u8>, u32> = chain.blocks.values().flatten().map(|v| (ssz_rs::serialize(&v.real).unwrap(), v.id)).collect();
    let t = z_core::Checkpoint::new(trusted.0.into(), root(trusted.1));
    let r = caught(|| block_on(HostInputReader::<E, _, _>::new(E::default_spec(), NoStates::<E>(std::marker::PhantomData), reader, t)));
    match r {
        None => json!({"ok": false, "ever": asked() > 15000, "err": "panic", "cs": [[0, 0], [0, 0]], "atts": []}),
        Some(Err(e)) => json!({"ok": false, "ever": asked() > 15000, "err": format!("{e:?}").chars().take(60).filter(|c| c.is_ascii() && *c != '"' && *c != '\\').collect::<String>(), "cs": [[0, 0], [0, 0]], "atts": []}),
        Some(Ok(r)) => {
            let cs = r.consensus_state().unwrap();
            let atts: Vec<u32> = r.attestations().unwrap().map(|a| a.as_electra().ok().and_then(|a| ids.get(&a.as_ssz_bytes())).copied().unwrap_or(0)).collect();
            json!({"ok": true, "ever": false, "err": "", "cs": [jc(cs.current_justified_checkpoint(), &names), jc(cs.finalized_checkpoint(), &names)], "atts": atts})
        }
    }
}
/// Votes for every epoch's boundary, included anywhere in the window.
pub fn fill(rng: &mut Rng, c: &mut Chain, per: usize, late: usize) {
    let mut id = 0;
    let slots: Vec<u64> = c.blocks.keys().copied().collect();
    for n in 0..=c.head / c.spe {
        let src = c.states[n as usize].j;
        let tgt = (n, c.root_of(n));
        let (lo, hi) = (n * c.spe, (n + 2) * c.spe - 1);
        let open: Vec<u64> = slots.iter().copied().filter(|s| lo < *s && *s <= hi).collect();
        if open.is_empty() { continue; }
        for k in 0..per {
            let (s, t) = match rng.below(8) {
                0 if k > 0 => (src, (n, tgt.1 + 1)),                              // another boundary block
                1 if k > 0 => ((src.0.saturating_sub(1), src.1 + 1), tgt),          // another source
                2 if k > 0 && n > 0 => (src, (n - 1, c.root_of(n - 1))),            // the epoch before
                _ => (src, tgt),
            };
            let at = match (late, rng.below(6)) {
                (0, _) => open[0],
                (1, 0) => *open.last().unwrap(),
                (1, 1) => open[0],
                (1, 2) => *open.iter().find(|s| **s >= lo + c.spe).unwrap_or(&open[0]),
                (2, _) => *open.last().unwrap(),
                _ => *rng.pick(&open),
            };
            // within the inclusion window of its target
            let at = if t.0 < n && at >= lo + c.spe { open[0] } else { at };
            if at >= (t.0 + 2) * c.spe { continue; } // too late for it
            // another aggregate of what has been voted before, told apart only by its signers
            let known: Vec<_> = c.blocks.values().flatten().filter(|v| (v.src, v.tgt) == (s, t) && v.real.data.slot < at).map(|v| v.real.clone()).collect();
            let again = (!known.is_empty() && rng.chance(1, 3)).then(|| rng.pick(&known).clone());
            let b = c.blocks.get_mut(&at).unwrap();
            if b.len() < 8 {
                id += 1;
                if let Some(mut a) = again {
                    match rng.below(3) {
                        0 => { a.committee_bits.set(rng.below(64), true); }
                        1 => { let n = a.aggregation_bits.len(); a.aggregation_bits = (0..n).map(|_| rng.chance(2, 3)).collect(); }
                        _ => {}
                    }
                    a.signature[92..].copy_from_slice(&u32::to_le_bytes(id));
                    b.push(Vote { id, src: s, tgt: t, real: a });
                    continue;
                }
                // a vote is included after its own slot
                let slot = rng.range(t.0 * c.spe, (at - 1).min((t.0 + 1) * c.spe - 1));
                b.push(vote(rng, id, slot, s, t));
            }
        }
    }
}
pub fn chain(rng: &mut Rng, spe: u64, bits: Vec<(bool, bool)>, gaps: usize) -> Chain {
    let n = bits.len() as u64;
    let head = n * spe + rng.range(0, spe - 1);
    let mut blocks = BTreeMap::from([(0, vec![])]);
    let mut empty = 0;
    for e in 0..=n {
        let kind = if gaps == 0 { 0 } else { rng.below(6) };
        // not two empty epochs in a row, so that votes find a block
        let kind = if kind == 5 && empty > 0 { 1 } else { kind };
        empty = (kind == 5) as usize;
        for s in e * spe..(e + 1) * spe {
            let here = match kind {
                0 => true,
                1 => s > e * spe,
                2 => s > e * spe + 2,
                3 => rng.chance(1, 2),
                4 => s == e * spe + spe - 1,
                _ => false,
            };
            if here && s <= head { blocks.entry(s).or_insert(vec![]); }
        }
    }
    let head = head.max(*blocks.keys().last().unwrap());
    let mut c = Chain { spe, base: 0, head, headers: BTreeMap::new(), bits, blocks, states: vec![], fault: None, requests: Cell::new(0) };
    c.derive();
    c
}
fn go(out: &mut Out, c: &Chain, trusted: C, kind: &str) {
    let o = if c.spe == 8 { observe::<ShortSpec>(c, trusted) } else { observe::<MainnetEthSpec>(c, trusted) };
    line(out, c, trusted, kind, c.fault.is_some(), o);
}
fn line(out: &mut Out, c: &Chain, trusted: C, kind: &str, fault: bool, o: Value) {
    let mut v = c.json();
    v["trusted"] = json!(trusted);
    v["out"] = o;
    v["fault"] = json!(fault);
    v["kind"] = json!(kind);
    out.line(v);
}
pub fn finals(c: &Chain) -> Vec<C> {
    let mut v: Vec<C> = c.states.iter().map(|s| s.f).collect();
    v.dedup();
    v
}
pub fn run(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed);
    let mut out = Out::new(dir, "trace.ndjson");
    let mut st: BTreeMap<String, usize> = BTreeMap::new();
    let node = Node::start();
    // every history of the epochs 2.., one vote per epoch at least
    let n = if thorough { 8 } else { 7 };
    for h in 0..1u32 << (2 * (n - 2)) {
        let mut bits = vec![(false, false); n];
        let mut fresh = true;
        for e in 2..n {
            bits[e] = (h >> (2 * (e - 2)) & 1 == 1, h >> (2 * (e - 2) + 1) & 1 == 1);
            // what was reached stays reached; skip the history that repeats another
            if bits[e - 1].1 && !bits[e].0 { fresh = false; }
        }
        if !fresh { continue; }
        let mut c = chain(&mut rng, 8, bits, h as usize % 2);
        fill(&mut rng, &mut c, 2, h as usize / 2 % 4);
        for t in finals(&c) { go(&mut out, &c, t, "all"); *st.entry("exhaustive".into()).or_default() += 1; }
    }
    for i in 0..if thorough { 6000 } else { 900 } {
        let n = rng.range(4, 13) as usize;
        let luck = rng.below(4);
        let mut bits = vec![(false, false); n];
        for e in 1..n {
            let c = luck == 0 || rng.chance(luck + 1, 5);
            let p = bits[e - 1].1 || rng.chance(1, if luck == 0 { 9 } else { 2 });
            bits[e] = (p, c);
        }
        let spe = if i % 8 == 0 { 32 } else { 8 };
        let mut c = chain(&mut rng, spe, bits, 1);
        let per = rng.range(1, 9) as usize;
        let late = rng.below(4);
        fill(&mut rng, &mut c, per, late);
        let f = finals(&c);
        let t = *rng.pick(&f);
        match rng.below(10) {
            0 => { go(&mut out, &c, (t.0, t.1 + 1), "other-root"); *st.entry("other-root".into()).or_default() += 1; }
            1 => { let e = rng.range(1, n as u64); go(&mut out, &c, (e, c.root_of(e)), "any-epoch"); *st.entry("any-epoch".into()).or_default() += 1; }
            2 => {
                c.fault = None;
                go(&mut out, &c, t, "plain");
                let n = c.requests.get();
                c.fault = Some(rng.range(1, n.max(1)));
                go(&mut out, &c, t, "fault");
                *st.entry("fault".into()).or_default() += 1;
            }
            3 | 4 => {
                let far = |w| if c.spe == 8 { remote::<ShortSpec>(&c, t, &node, w) } else { remote::<MainnetEthSpec>(&c, t, &node, w) };
                let (v, n) = far(None);
                line(&mut out, &c, t, "http", false, v);
                for _ in 0..3 {
                    let m = *rng.pick(&[Mode::Broken, Mode::Busy, Mode::Cut, Mode::Closed, Mode::Nonsense]);
                    let (v, _) = far(Some((rng.range(1, n.max(1) as u64) as usize, m)));
                    line(&mut out, &c, t, "http-fault", true, v);
                }
                *st.entry("http".into()).or_default() += 4;
            }
            _ => for t in f { go(&mut out, &c, t, "plain"); *st.entry("plain".into()).or_default() += 1; }
        }
    }
    std::fs::write(format!("{dir}/stats.json"), serde_json::to_string(&st).unwrap()).unwrap();
}
