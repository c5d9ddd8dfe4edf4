//! Two tables of answers behind the cross-checking reader, and what it passes on (C24).
use crate::util::*;
use crate::world::{rc, Att, World, FAR};
use alloy_primitives::B256;
use beacon_types::{Attestation, ChainSpec, Fork, MainnetEthSpec};
use bls::PublicKey;
use host::AssertInputReader;
use safe_arith::ArithError;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use z_core::{ConsensusState, Epoch, InputReader, RandaoMixIndex, Root, ValidatorIndex, ValidatorInfo};

#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no answer") }
}
impl std::error::Error for Refused {}
impl From<ArithError> for Refused {
    fn from(_: ArithError) -> Self { Refused }
}

/// An answer: a number standing for the value, or none. The tables cover every question that is asked.
type Ans = Option<u64>;
type Rec = (usize, u64, u64, bool, u64, u64, u64); // index, key, balance, slashed, eligibility, activation, exit
#[derive(Clone, Default)]
struct Table {
    spec: u64,
    gvr: Ans,
    fork: BTreeMap<u64, Ans>,
    active: BTreeMap<u64, Option<Vec<Rec>>>,
    mix: BTreeMap<(u64, u32), Ans>,
    atts: Option<Vec<u64>>,
    cs: Ans,
    slot: BTreeMap<u64, Ans>,
}
struct Reader {
    spec: ChainSpec,
    active: BTreeMap<u64, Option<Vec<(usize, ValidatorInfo)>>>,
    atts: Option<Vec<Attestation<MainnetEthSpec>>>,
    t: Table,
}
fn spec(n: u64) -> ChainSpec {
    let mut s = ChainSpec::mainnet();
    s.min_seed_lookahead = (1 + n).into();
    s
}
fn fork(n: u64) -> Fork {
    Fork { previous_version: [n as u8 & 1, 0, 0, 0], current_version: [0, (n >> 1) as u8 & 1, 0, 0], epoch: (n >> 2).into() }
}
fn cs(n: u64) -> ConsensusState {
    let c = |e: u64, r: u64| z_core::Checkpoint::from(rc((e, r as u32 + 1)));
    ConsensusState::new(c(9 + (n >> 2 & 1), n & 1), c(7 + (n >> 3 & 1), n >> 1 & 1))
}
/// Zero is an answer too: that there is no such mix.
fn mix(n: u64) -> Option<B256> { if n == 0 { None } else { Some(root(n as u32 + 40)) } }
fn rt(n: u64) -> Root { root(n as u32 + 100) }
fn info(v: &Rec) -> ValidatorInfo {
    ValidatorInfo {
        pubkey: PublicKey::from_seed(v.1), effective_balance: v.2, slashed: v.3,
        activation_eligibility_epoch: v.4.into(), activation_epoch: v.5.into(), exit_epoch: v.6.into(),
    }
}
impl Reader {
    fn new(t: &Table, w: &World) -> Reader {
        // attestations that differ in one field each: slot, root, target, bits, committee
        let att = |n: &u64| {
            let a = Att {
                slot: 320 + (n & 1), bbr: 5 + (n >> 1 & 1) as u32, src: (9, 3), tgt: (10, 4 + (n >> 2 & 1) as u32),
                bits: vec![true, n >> 3 & 1 == 1, true], comm: vec![(n >> 4 & 1) as usize], ..blank()
            };
            w.real::<MainnetEthSpec>(&a)
        };
        Reader {
            spec: spec(t.spec),
            active: t.active.iter().map(|(e, l)| (*e, l.as_ref().map(|l| l.iter().map(|v| (v.0, info(v))).collect()))).collect(),
            atts: t.atts.as_ref().map(|l| l.iter().map(att).collect()),
            t: t.clone(),
        }
    }
}
fn blank() -> Att { Att { slot: 0, index: 0, bbr: 0, src: (0, 0), tgt: (0, 0), bits: vec![], comm: vec![], sig: vec![], garble: 0, base: false } }
impl InputReader for Reader {
    type Error = Refused;
    type Spec = MainnetEthSpec;
    fn chain_spec(&self) -> &ChainSpec { &self.spec }
    fn genesis_validators_root(&self) -> Result<Root, Refused> { self.t.gvr.map(rt).ok_or(Refused) }
    fn fork(&self, e: Epoch) -> Result<Fork, Refused> { self.t.fork[&e.as_u64()].map(fork).ok_or(Refused) }
    fn active_validators(&self, e: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, Refused> {
        Ok(self.active[&e.as_u64()].as_ref().ok_or(Refused)?.iter().map(|(i, v)| (*i, v)))
    }
    fn randao_mix(&self, e: Epoch, i: RandaoMixIndex) -> Result<Option<B256>, Refused> { self.t.mix[&(e.as_u64(), i)].map(mix).ok_or(Refused) }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<MainnetEthSpec>>, Refused> { Ok(self.atts.as_ref().ok_or(Refused)?.iter()) }
    fn consensus_state(&self) -> Result<ConsensusState, Refused> { self.t.cs.map(cs).ok_or(Refused) }
    fn slot_for_block(&self, r: &Root) -> Result<u64, Refused> {
        let n = (0..4).find(|n| rt(*n) == *r).unwrap();
        self.t.slot[&n].ok_or(Refused)
    }
}

fn ans(rng: &mut Rng, n: u64) -> Ans { if rng.chance(1, 25) { None } else { Some(rng.range(0, n)) } }
fn many_or_few(rng: &mut Rng) -> usize { let n = *rng.pick(&[5, 5, 5, 5, 5, 40]); rng.below(n) }
fn recs(rng: &mut Rng) -> Vec<Rec> {
    let mut i = 0;
    (0..many_or_few(rng)).map(|_| {
        i += 1 + rng.below(2);
        (i, rng.range(1, 4), *rng.pick(&[0, 1, 32_000_000_000]), rng.chance(1, 4), *rng.pick(&[0, 5, FAR]), *rng.pick(&[0, 9]), *rng.pick(&[11, 12, FAR]))
    }).collect()
}
const EPOCHS: [u64; 2] = [10, 11];
fn table(rng: &mut Rng) -> Table {
    Table {
        spec: rng.range(0, 1), gvr: ans(rng, 3), cs: ans(rng, 15),
        fork: EPOCHS.iter().map(|e| (*e, ans(rng, 15))).collect(),
        active: EPOCHS.iter().map(|e| (*e, if rng.chance(1, 25) { None } else { Some(recs(rng)) })).collect(),
        mix: EPOCHS.iter().flat_map(|e| [(*e, 7), (*e, 8)]).map(|k| (k, ans(rng, 3))).collect(),
        atts: if rng.chance(1, 25) { None } else { Some((0..many_or_few(rng)).map(|_| rng.range(0, 31)).collect()) },
        slot: (0..4).map(|r| (r, ans(rng, 3))).collect(),
    }
}
/// Another table, often the same, else off in few places.
fn other(rng: &mut Rng, t: &Table) -> Table {
    let mut o = t.clone();
    let new = table(rng);
    for _ in 0..*rng.pick(&[0, 1, 1, 2, 4]) {
        let (e, r, m) = (*rng.pick(&EPOCHS), rng.below(4) as u64, *rng.pick(&[7, 8]));
        match rng.below(10) {
            0 => o.spec ^= 1,
            1 => o.gvr = new.gvr,
            2 => o.cs = o.cs.map(|n| n ^ 1 << rng.below(4)),
            3 => { o.fork.insert(e, o.fork[&e].map(|n| n ^ 1 << rng.below(4))); }
            4 => { o.mix.insert((e, m), new.mix[&(e, m)]); }
            5 => { o.slot.insert(r, new.slot[&r]); }
            6 => if let Some(l) = &mut o.atts { bend(rng, l, |rng, x| *x ^= 1 << rng.below(5), |rng| rng.range(0, 31)) } else { o.atts = new.atts.clone() },
            7 => o.atts = if rng.chance(1, 4) { None } else { o.atts },
            _ => match o.active.get_mut(&e).unwrap() {
                None => { o.active.insert(e, new.active[&e].clone()); }
                Some(l) => bend(rng, l, |rng, v| match rng.below(9) {
                    0 => v.0 += 1,
                    1 => v.1 += 1,
                    2 | 3 => v.2 += 1_000_000_000,
                    4 => v.3 = !v.3,
                    5 => v.4 = v.4.wrapping_add(1),
                    6 => v.5 += 1,
                    _ => v.6 = if v.6 == FAR { 15 } else { FAR },
                }, |rng| (9, rng.range(1, 4), 1, false, 0, 0, FAR)),
            },
        }
    }
    o
}
fn bend<T: Clone>(rng: &mut Rng, l: &mut Vec<T>, change: impl Fn(&mut Rng, &mut T), fresh: impl Fn(&mut Rng) -> T) {
    match rng.below(8) {
        0 => l.push(fresh(rng)),
        1 => { l.pop(); }
        2 if !l.is_empty() => { l.remove(0); }
        3 if l.len() > 1 => { let k = rng.below(l.len() - 1); l.swap(k, k + 1) }
        4 if !l.is_empty() => { let k = rng.below(l.len()); let x = l[k].clone(); l.insert(k, x) }
        5 => l.clear(),
        _ if !l.is_empty() => { let k = rng.below(l.len()); let x = &mut l[k]; change(rng, x) }
        _ => {}
    }
}
fn show(v: &Rec) -> Value { json!([v.0, v.1, d(v.2), v.3, d(v.4), d(v.5), d(v.6)]) }
fn one(a: Ans) -> Value { a.map_or(json!([]), |n| json!([n])) }
fn many(a: Option<Vec<Value>>) -> Value { a.map_or(json!({"ok": false, "items": []}), |l| json!({"ok": true, "items": l})) }
/// What the reader gave: the number whose object this is.
fn named<T: PartialEq>(x: T, n: u64, f: impl Fn(u64) -> T) -> Ans { (0..n).find(|k| f(*k) == x).or(Some(999)) }

pub fn run(seed: u64, thorough: bool, dir: &str) {
    let mut rng = Rng(seed ^ 0xA62EE);
    let mut out = Out::new(dir, "trace.ndjson");
    let w = World::shape::<MainnetEthSpec>(ChainSpec::mainnet());
    let (mut kinds, mut refused) = (BTreeMap::<String, usize>::new(), BTreeMap::<String, usize>::new());
    for _ in 0..if thorough { 8000 } else { 2500 } {
        let a = table(&mut rng);
        let b = other(&mut rng, &a);
        let (ra, rb) = (Reader::new(&a, &w), Reader::new(&b, &w));
        let both = AssertInputReader::new(&ra, &rb);
        let mut line = |k: &str, x: Value, y: Value, got: Value| {
            *kinds.entry(k.into()).or_default() += 1;
            let no = got.as_array().is_some_and(|l| l.is_empty()) || got.get("ok") == Some(&json!(false));
            *refused.entry(k.into()).or_default() += no as usize;
            out.line(json!({"k": k, "a": x, "b": y, "out": got}));
        };
        let ask = |f: &dyn Fn() -> Ans| one(caught(f).flatten());
        line("spec", one(Some(a.spec)), one(Some(b.spec)), ask(&|| named(both.chain_spec().clone(), 2, spec)));
        line("gvr", one(a.gvr), one(b.gvr), ask(&|| both.genesis_validators_root().ok().and_then(|x| named(x, 4, rt))));
        line("cs", one(a.cs), one(b.cs), ask(&|| both.consensus_state().ok().and_then(|x| named(x, 16, cs))));
        for r in 0..4 {
            line("slot", one(a.slot[&r]), one(b.slot[&r]), ask(&|| both.slot_for_block(&rt(r)).ok()));
        }
        for e in EPOCHS {
            line("fork", one(a.fork[&e]), one(b.fork[&e]), ask(&|| both.fork(e.into()).ok().and_then(|x| named(x, 16, fork))));
            for i in [7, 8] {
                let k = (e, i);
                line("mix", one(a.mix[&k]), one(b.mix[&k]), ask(&|| both.randao_mix(e.into(), i).ok().and_then(|x| named(x, 4, mix))));
            }
            let mut got = vec![];
            let end = caught(|| match both.active_validators(e.into()) {
                Err(_) => false,
                Ok(it) => {
                    for (i, v) in it {
                        let key = (1..6).find(|k| PublicKey::from_seed(*k) == v.pubkey).unwrap_or(99);
                        got.push(show(&(i, key, v.effective_balance, v.slashed, v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64(), v.exit_epoch.as_u64())));
                    }
                    true
                }
            }).unwrap_or(false);
            let l = |t: &Table| many(t.active[&e].as_ref().map(|l| l.iter().map(show).collect()));
            line("active", l(&a), l(&b), json!({"ok": end, "items": got}));
        }
        let mut got = vec![];
        let end = caught(|| match both.attestations() {
            Err(_) => false,
            Ok(it) => {
                for x in it {
                    let at = ra.atts.as_ref().and_then(|l| l.iter().position(|y| y == x)).map_or(999, |k| a.atts.as_ref().unwrap()[k]);
                    got.push(json!(at));
                }
                true
            }
        }).unwrap_or(false);
        let l = |t: &Table| many(t.atts.as_ref().map(|l| l.iter().map(|n| json!(n)).collect()));
        line("atts", l(&a), l(&b), json!({"ok": end, "items": got}));
    }
    std::fs::write(format!("{dir}/stats.json"), json!({"questions": kinds, "refused": refused}).to_string()).unwrap();
}
