//! Symbolic worlds for verification: a chain's parameters, registry, randomness and votes.
use crate::util::*;
use alloy_primitives::B256;
use beacon_types::{
    AggregateSignature, Attestation, AttestationBase, AttestationData, AttestationElectra, BitList, BitVector,
    ChainSpec, Domain, EthSpec, ForkName, SecretKey, SignedRoot,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type C = (u64, u32);
pub type S = (C, C); // (justified, finalized)
pub const FAR: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct Val {
    pub key: u32,
    pub bal: u64,
    pub slashed: bool,
    pub aee: u64,
    pub act: u64,
    pub exit: u64,
}
impl Val {
    pub fn active(&self, e: u64) -> bool { self.act <= e && e < self.exit }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Msg {
    pub slot: u64,
    pub index: u64,
    pub bbr: u32,
    pub src: C,
    pub tgt: C,
    pub ver: usize,
    pub gvr: u32,
    pub dom: u32,
}
#[derive(Clone, Debug)]
pub struct Att {
    pub slot: u64,
    pub index: u64,
    pub bbr: u32,
    pub src: C,
    pub tgt: C,
    pub comm: Vec<usize>,
    pub bits: Vec<bool>,
    pub sig: Vec<(u32, Msg)>,
    pub base: bool,
    pub garble: u8,
}
#[derive(Clone)]
pub struct World {
    pub spe: u64,
    pub maxc: usize,
    pub tcs: usize,
    pub ephv: u64,
    pub spec: ChainSpec,
    pub gvr: u32,
    pub vals: Vec<Val>,
    pub mixes: BTreeMap<(u64, u32), u32>,
    pub min: usize,
    pub max: usize,
    pub look: u64,
    pub fac: u64,
    pub quo: u64,
    pub cs: S,
    pub slots: Vec<(u32, u64)>,
    pub atts: Vec<Att>,
}
pub fn rc(c: C) -> beacon_types::Checkpoint { beacon_types::Checkpoint { epoch: c.0.into(), root: root(c.1) } }
pub fn jc(c: C) -> Value { json!([d(c.0), c.1]) }
pub fn js(s: S) -> Value { json!([jc(s.0), jc(s.1)]) }
pub fn mix(tok: u32) -> B256 { sha(&[b"mix", &tok.to_le_bytes()]).into() }

impl World {
    pub fn shape<E: EthSpec>(spec: ChainSpec) -> World {
        World {
            spe: E::slots_per_epoch(),
            maxc: spec.max_committees_per_slot,
            tcs: spec.target_committee_size,
            ephv: E::epochs_per_historical_vector() as u64,
            spec,
            gvr: 900,
            vals: vec![],
            mixes: BTreeMap::new(),
            min: 5,
            max: 6,
            look: 4,
            fac: 85,
            quo: 100,
            cs: ((0, 0), (0, 0)),
            slots: vec![],
            atts: vec![],
        }
    }
    pub fn fork(&self, e: u64) -> usize { self.spec.fork_name_at_epoch(e.into()) as usize }
    pub fn active(&self, e: u64) -> Vec<usize> { (0..self.vals.len()).filter(|i| self.vals[*i].active(e)).collect() }
    pub fn mix_idx(&self, e: u64) -> Option<u32> { e.checked_add(self.ephv).map(|x| ((x - 2) % self.ephv) as u32) }
    pub fn cps(&self, n: usize) -> usize { (n / self.spe as usize / self.tcs).min(self.maxc).max(1) }
    pub fn shuffled(&self, e: u64, tok: u32, active: Vec<usize>) -> Option<Vec<usize>> {
        let seed = sha(&[&1u32.to_le_bytes(), &e.to_le_bytes(), mix(tok).as_slice()]);
        swap_or_not_shuffle::shuffle_list(active, self.spec.shuffle_round_count, &seed, false)
    }
    pub fn order(&self, e: u64) -> Option<Vec<usize>> {
        let tok = *self.mixes.get(&(e, self.mix_idx(e)?))?;
        self.shuffled(e, tok, self.active(e))
    }
    /// committee (slot in epoch, index) -> members
    pub fn committees(&self, e: u64) -> Vec<Vec<Vec<usize>>> {
        let Some(o) = self.order(e) else { return vec![] };
        let (n, cps) = (o.len(), self.cps(o.len()));
        let total = cps * self.spe as usize;
        (0..self.spe as usize)
            .map(|s| (0..cps).map(|c| { let k = s * cps + c; o[n * k / total..n * (k + 1) / total].to_vec() }).collect())
            .collect()
    }
    pub fn msg(&self, a: &Att) -> Msg {
        Msg { slot: a.slot, index: a.index, bbr: a.bbr, src: a.src, tgt: a.tgt, ver: self.fork(a.tgt.0), gvr: self.gvr, dom: 1 }
    }
    pub fn voters(&self, a: &Att) -> Vec<usize> {
        let com = self.committees(a.tgt.0);
        let Some(row) = com.get((a.slot % self.spe) as usize) else { return vec![] };
        let (mut off, mut v) = (0, vec![]);
        for c in &a.comm {
            let Some(m) = row.get(*c) else { continue };
            v.extend(m.iter().enumerate().filter(|(i, _)| a.bits.get(off + i) == Some(&true)).map(|(_, x)| *x));
            off += m.len();
        }
        v
    }
    pub fn sign(&self, a: &mut Att) {
        let m = self.msg(a);
        a.sig = self.voters(a).into_iter().map(|v| (self.vals[v].key, m.clone())).collect();
    }
    /// An honest aggregate of the given voters over the given committees of a slot.
    pub fn attest(&self, com: &[Vec<Vec<usize>>], slot: u64, which: &[usize], voters: &dyn Fn(usize) -> bool, bbr: u32, src: C, tgt: C) -> Option<Att> {
        let row = com.get((slot % self.spe) as usize)?;
        let which: Vec<usize> = which.iter().copied().filter(|c| *c < row.len() && row[*c].iter().any(|v| voters(*v))).collect();
        if which.is_empty() {
            return None;
        }
        let bits = which.iter().flat_map(|c| row[*c].iter().map(|v| voters(*v))).collect();
        let mut a = Att { slot, index: 0, bbr, src, tgt, comm: which.clone(), bits, sig: vec![], base: false, garble: 0 };
        let m = self.msg(&a);
        a.sig = which.iter().flat_map(|c| row[*c].iter().filter(|v| voters(**v))).map(|v| (self.vals[*v].key, m.clone())).collect();
        Some(a)
    }
    pub fn real_sig(&self, a: &Att) -> AggregateSignature {
        match a.garble {
            1 => return AggregateSignature::infinity(),
            2 => return AggregateSignature::empty(),
            _ => {}
        }
        let mut s = AggregateSignature::infinity();
        for (k, m) in &a.sig {
            let data = AttestationData { slot: m.slot.into(), index: m.index, beacon_block_root: root(m.bbr), source: rc(m.src), target: rc(m.tgt) };
            let dom = if m.dom == 1 { Domain::BeaconAttester } else { Domain::BeaconProposer };
            let ver = self.spec.fork_version_for_name(ForkName::ALL[m.ver]);
            let msg = data.signing_root(self.spec.compute_domain(dom, ver, root(m.gvr)));
            s.add_assign(&SecretKey::from_seed(*k as u64).sign(msg));
        }
        s
    }
    pub fn real<E: EthSpec>(&self, a: &Att) -> Attestation<E> {
        let data = AttestationData { slot: a.slot.into(), index: a.index, beacon_block_root: root(a.bbr), source: rc(a.src), target: rc(a.tgt) };
        let signature = self.real_sig(a);
        if a.base {
            let mut aggregation_bits = BitList::with_capacity(a.bits.len()).unwrap();
            a.bits.iter().enumerate().for_each(|(i, b)| aggregation_bits.set(i, *b).unwrap());
            return Attestation::Base(AttestationBase { aggregation_bits, data, signature });
        }
        let mut aggregation_bits = BitList::with_capacity(a.bits.len()).unwrap();
        a.bits.iter().enumerate().for_each(|(i, b)| aggregation_bits.set(i, *b).unwrap());
        let mut committee_bits = BitVector::new();
        a.comm.iter().for_each(|c| committee_bits.set(*c, true).unwrap());
        Attestation::Electra(AttestationElectra { aggregation_bits, data, signature, committee_bits })
    }
    pub fn json(&self) -> Value {
        let mut msgs: Vec<Msg> = self.atts.iter().flat_map(|a| a.sig.iter().map(|s| s.1.clone())).collect();
        msgs.sort();
        msgs.dedup();
        let id = |m: &Msg| msgs.binary_search(m).unwrap() + 1;
        let atts: Vec<Value> = self.atts.iter().map(|a| {
            let mut bag: BTreeMap<(u32, usize), usize> = BTreeMap::new();
            if a.garble == 0 {
                a.sig.iter().for_each(|(k, m)| *bag.entry((*k, id(m))).or_default() += 1);
            }
            json!({"s": d(a.slot), "i": d(a.index), "b": a.bbr, "src": jc(a.src), "tgt": jc(a.tgt), "c": a.comm, "n": a.bits.len(),
                "on": a.bits.iter().enumerate().filter(|x| *x.1).map(|x| x.0 + 1).collect::<Vec<_>>(),
                "sig": bag.iter().map(|((k, m), n)| json!([k, m, n])).collect::<Vec<_>>(), "base": a.base})
        }).collect();
        let mut epochs: Vec<u64> = self.atts.iter().map(|a| a.tgt.0).collect();
        epochs.sort();
        epochs.dedup();
        let mut shuf = vec![];
        for e in epochs {
            let Some(i) = self.mix_idx(e) else { continue };
            let Some(tok) = self.mixes.get(&(e, i)) else { continue };
            if let Some(l) = self.shuffled(e, *tok, self.active(e)) {
                shuf.push(json!({"e": d(e), "m": tok, "list": l.iter().map(|v| v + 1).collect::<Vec<_>>()}));
            }
        }
        json!({
            "spe": self.spe, "maxc": self.maxc, "tcs": self.tcs, "ephv": self.ephv,
            "min": self.min, "max": self.max, "look": d(self.look), "fac": self.fac, "quo": self.quo,
            "forks": (0..8).filter_map(|o| self.spec.fork_epoch(ForkName::ALL[o]).map(|e| json!([o, d(e.as_u64())]))).collect::<Vec<_>>(),
            "incr": d(self.spec.effective_balance_increment),
            "gvr": self.gvr, "cs": js(self.cs),
            "vals": self.vals.iter().map(|v| json!([v.key, d(v.bal), v.slashed, d(v.act), d(v.exit)])).collect::<Vec<_>>(),
            "mixes": self.mixes.iter().map(|((e, i), t)| json!([d(*e), i, t])).collect::<Vec<_>>(),
            "shuf": shuf,
            "msgs": msgs.iter().map(|m| json!([d(m.slot), d(m.index), m.bbr, jc(m.src), jc(m.tgt), m.ver, m.gvr, m.dom])).collect::<Vec<_>>(),
            "atts": atts,
            "slots": self.slots.iter().map(|(r, s)| json!([r, d(*s)])).collect::<Vec<_>>(),
        })
    }
}
