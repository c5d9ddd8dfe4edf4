//! Scenario generation for verification: honest batches and adversarial variations of them.
use crate::util::*;
use crate::world::*;
use beacon_types::{ChainSpec, EthSpec, ForkName};

/// Which way a registry's weights lie against the threshold.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Weight {
    All,
    Random,
    AtLeast, // the least balance reaching the threshold
    Below,   // one unit less
}

/// A chain spec with the given fork schedule.
pub fn schedule(spec: &mut ChainSpec, rng: &mut Rng, base: u64) {
    let electra = match rng.below(6) {
        0 => 0,
        1 => base,
        2 => base + rng.range(1, 4),
        _ => base.saturating_sub(rng.range(1, 5)),
    };
    let deneb = electra.saturating_sub(rng.range(0, 3));
    for f in [ForkName::Altair, ForkName::Bellatrix, ForkName::Capella] {
        spec.set_fork_epoch(f, Some(0u64.into()));
    }
    spec.set_fork_epoch(ForkName::Deneb, Some(deneb.into()));
    spec.set_fork_epoch(ForkName::Electra, Some(electra.into()));
    let fulu = match rng.below(4) {
        0 => None,
        1 => Some(electra),
        _ => Some(electra + rng.range(1, 6)),
    };
    spec.set_fork_epoch(ForkName::Fulu, fulu.map(|e| e.into()));
    if let (Some(f), true) = (fulu, rng.chance(1, 3)) {
        spec.set_fork_epoch(ForkName::Gloas, Some((f + rng.range(0, 4)).into()));
    }
}
pub fn base_epoch(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 1,
        1 => rng.range(2, 6),
        2 => (1u64 << 33) + rng.range(0, 100),
        3 => 65536 * rng.range(1, 9) - rng.range(0, 3),
        _ => rng.range(7, 400),
    }
}
fn balances(rng: &mut Rng, n: usize) -> Vec<u64> {
    let gwei = 1_000_000_000u64;
    match rng.below(6) {
        0 => vec![32 * gwei; n],
        1 => (0..n).map(|_| gwei * rng.range(16, 32)).collect(),
        2 => (0..n).map(|_| if rng.chance(1, 10) { 2048 * gwei } else { 32 * gwei }).collect(),
        3 => (0..n).map(|_| gwei * rng.range(1, 2048)).collect(),
        4 => (0..n).map(|_| rng.range(gwei * 20, gwei * 40)).collect(),
        _ => {
            let top = rng.range(56, 61);
            (0..n).map(|_| (1u64 << top) / n as u64 * rng.range(1, 8)).collect()
        }
    }
}
pub struct Plan {
    pub links: Vec<(C, C)>,
}
/// Registry with validators around the given epoch, most of them active throughout.
pub fn registry(rng: &mut Rng, n: usize, base: u64, steady: bool) -> Vec<Val> {
    let bal = balances(rng, n);
    (0..n)
        .map(|i| {
            let mut v = Val { key: i as u32 + 1, bal: bal[i], slashed: false, aee: 0, act: 0, exit: FAR };
            if steady {
                return v;
            }
            if rng.chance(1, 12) {
                v.slashed = true;
            }
            if rng.chance(1, 10) {
                v.act = base + rng.range(0, 4);
            }
            if rng.chance(1, 10) {
                v.exit = (base + rng.range(0, 4)).max(v.act);
            }
            if rng.chance(1, 40) && i > 0 {
                v.key = i as u32;
            }
            v
        })
        .collect()
}
pub fn mixes(rng: &mut Rng, w: &mut World, base: u64) {
    // every index near the right one holds a different mix, in every epoch's view
    for e in base.saturating_sub(1)..base.saturating_add(9) {
        if let Some(i) = w.mix_idx(e) {
            for o in 0..5u32 {
                let j = (i + 2 + w.ephv as u32 - o) % w.ephv as u32;
                let view = if rng.chance(1, 4) { e as u32 } else { 0 };
                w.mixes.insert((e, j), (j * 16 + view % 16) % 30000 + 1);
            }
        }
    }
}
/// Links from the justified checkpoint that end in a finalization.
pub fn plan(rng: &mut Rng, w: &World) -> Plan {
    let mut links = vec![];
    let mut at = w.cs.0;
    for _ in 0..*rng.pick(&[0usize, 0, 0, 1, 1, 2]) {
        let t = (at.0 + rng.range(2, 3), 20 + rng.range(0, 40) as u32);
        links.push((at, t));
        at = t;
    }
    links.push((at, (at.0 + 1, 20 + rng.range(0, 40) as u32)));
    Plan { links }
}
/// Chooses the voters of a link with the wanted weight, adjusting one balance to hit it exactly.
pub fn voters(rng: &mut Rng, w: &mut World, e: u64, want: Weight, adjust: bool) -> Vec<usize> {
    let mut act = w.active(e);
    rng.shuffle(&mut act);
    match want {
        Weight::All => return act,
        Weight::Random => {
            let k = rng.below(act.len() + 1);
            act.truncate(k);
            return act;
        }
        _ => {}
    }
    let (fac, quo) = (w.fac as u128, w.quo as u128);
    let total = |w: &World| -> u128 { w.active(e).iter().map(|i| w.vals[*i].bal as u128).sum() };
    let mut chosen = vec![];
    let mut sum = 0u128;
    let t = total(w);
    for v in act {
        if sum * quo >= t * fac {
            break;
        }
        chosen.push(v);
        if !w.vals[v].slashed {
            sum += w.vals[v].bal as u128;
        }
    }
    if adjust && fac < quo {
        // the least balance x of the last unslashed voter with (sum' + x) * quo >= (total' + x) * fac
        if let Some(&v) = chosen.iter().rev().find(|v| !w.vals[**v].slashed) {
            let b = w.vals[v].bal as u128;
            let (s, tt) = (sum - b, t - b);
            if tt * fac > s * quo {
                let x = (tt * fac - s * quo).div_ceil(quo - fac);
                let x = if want == Weight::Below { x.saturating_sub(1) } else { x };
                if x < 1 << 61 {
                    w.vals[v].bal = x as u64;
                }
            }
        }
    } else if want == Weight::Below {
        while sum * quo >= t * fac {
            let Some(v) = chosen.pop() else { break };
            if !w.vals[v].slashed {
                sum -= w.vals[v].bal as u128;
            }
        }
    }
    chosen
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    PerSlot,
    PerCommittee,
    Overlap,
    Mixed,
}
/// Aggregates of the given voters for one link, over all slots of the target epoch.
pub fn vote(rng: &mut Rng, w: &World, link: (C, C), who: &[usize], style: Style) -> Vec<Att> {
    let e = link.1 .0;
    let com = w.committees(e);
    let set: std::collections::HashSet<usize> = who.iter().copied().collect();
    let mut out = vec![];
    for s in 0..com.len() {
        let slot = e.wrapping_mul(w.spe).wrapping_add(s as u64);
        let bbr = 300 + rng.range(0, 3) as u32;
        let all: Vec<usize> = (0..com[s].len()).collect();
        let st = if style == Style::Mixed { *rng.pick(&[Style::PerSlot, Style::PerCommittee, Style::Overlap]) } else { style };
        match st {
            Style::PerCommittee => {
                for c in all {
                    out.extend(w.attest(&com, slot, &[c], &|v| set.contains(&v), bbr, link.0, link.1));
                }
            }
            Style::Overlap => {
                let salt = rng.next();
                for k in 0..2u64 {
                    let part = |v: usize| set.contains(&v) && (salt >> (v % 61) & 3 != k);
                    out.extend(w.attest(&com, slot, &all, &part, bbr, link.0, link.1));
                }
            }
            _ => out.extend(w.attest(&com, slot, &all, &|v| set.contains(&v), bbr, link.0, link.1)),
        }
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut out);
    }
    out
}
pub const C03: &[&str] = &["drop-final", "trail", "repeat", "swap", "interleave", "no-slot", "double", "bad-source", "old-source", "empty", "skip-only", "self", "back", "wrong-slot-root", "resplit"];
pub const C04: &[&str] = &["below", "exact", "dup-atts", "split-source", "split-target", "slashed-half", "inactive", "carry", "half", "overlap-below", "small", "slashed-exact", "two-thirds"];
pub const C05: &[&str] = &["sig-missing", "sig-extra", "sig-double", "bbr", "slot-same", "slot-other", "index", "src-root", "tgt-root", "ver-prev", "ver-next", "gvr", "domain", "bits-long", "bits-short", "bits-flip", "extra-committee", "committee-range", "nothing", "empty-committee", "zero-sig", "inf-sig", "swap-sigs", "base", "sig-other-epoch", "drop-committee", "sig-index", "slot-sig-other"];
pub const C06: &[&str] = &["fork-low", "fork-high", "look-exact", "look-over", "fork-edge"];
pub const C14: &[&str] = &["mix-shift", "mix-view", "plain", "early", "count", "count"];

fn set_links(rng: &mut Rng, w: &mut World, links: &[(C, C)], weight: Weight, style: Style) {
    w.atts.clear();
    let n = links.len();
    for (i, l) in links.iter().enumerate() {
        let want = if i + 1 == n || weight == Weight::Below { weight } else { Weight::All };
        let who = voters(rng, w, l.1 .0, want, i + 1 == n);
        // balances may have changed: earlier votes do not depend on them
        let a = vote(rng, w, *l, &who, style);
        w.atts.extend(a);
    }
    w.slots = links.iter().flat_map(|l| [l.0, l.1]).map(|c| (c.1, c.0.wrapping_mul(w.spe).saturating_sub(rng.range(0, 2)))).collect();
    w.slots.sort();
    w.slots.dedup_by_key(|x| x.0);
    w.slots.push((777, 12345));
}
pub fn fresh<E: EthSpec>(rng: &mut Rng, n: usize, steady: bool, early: bool) -> (World, u64) {
    let mut spec = E::default_spec();
    let base = if early { 1 } else { base_epoch(rng) };
    schedule(&mut spec, rng, base);
    let mut w = World::shape::<E>(spec);
    let ths = [(85, 100), (70, 100), (2, 3), (3, 4), (67, 100), (9, 10), (667, 1000)];
    let t = *rng.pick(&ths);
    (w.fac, w.quo) = t;
    w.look = rng.range(3, 9);
    w.min = *rng.pick(&[5usize, 5, 5, 4, 0]);
    w.max = *rng.pick(&[6usize, 6, 7]);
    w.gvr = 900 + rng.range(0, 3) as u32;
    w.vals = registry(rng, n, base, steady);
    w.cs = ((base + rng.range(1, 2), 10), (base, 11));
    if base <= 2 && (early || rng.chance(1, 3)) {
        w.cs = ((0, 0), (0, 0));
    }
    (w, base)
}
/// One verification scenario; returns the world and the property it aims at.
pub fn scenario<E: EthSpec>(rng: &mut Rng, n: usize) -> (World, &'static str, String) {
    let (prop, kinds): (&'static str, &[&str]) = match rng.below(12) {
        0..=2 => ("C03", C03),
        3..=5 => ("C04", C04),
        6..=8 => ("C05", C05),
        9 => ("C06", C06),
        10 => ("C14", C14),
        _ => ("C04", &["plain"]),
    };
    let kind = *rng.pick(kinds);
    scenario_of::<E>(rng, n, prop, kind)
}
pub fn scenario_of<E: EthSpec>(rng: &mut Rng, n: usize, prop: &'static str, kind: &str) -> (World, &'static str, String) {
    let (mut w, base) = fresh::<E>(rng, n, false, kind == "early");
    if prop != "C06" && rng.chance(4, 5) {
        // keep the fork schedule out of the way
        w.min = 0;
        w.max = 7;
    }
    scenario_in(rng, w, base, prop, kind, false)
}
/// A scenario in a given world; `fit` prefers links within the lookahead.
pub fn scenario_in(rng: &mut Rng, mut w: World, base: u64, prop: &'static str, kind: &str, fit: bool) -> (World, &'static str, String) {
    mixes(rng, &mut w, base);
    let p = plan(rng, &w);
    let mut links = p.links;
    while fit && links[links.len() - 1].1 .0 > w.cs.1 .0 + w.look && rng.chance(9, 10) { links = plan(rng, &w).links; }
    if w.cs.0 .0 == 0 && (kind == "early" || rng.chance(1, 2)) {
        // the first link from genesis finalizes nothing new
        let c = (1, 50);
        links = vec![(w.cs.0, c), (c, (2, 51))];
        if rng.chance(1, 3) { links = vec![(w.cs.0, c), (c, (3, 51)), ((3, 51), (4, 52))]; }
    }
    let style = *rng.pick(&[Style::PerSlot, Style::PerCommittee, Style::Overlap, Style::Mixed]);
    let last = links[links.len() - 1];
    let mut weight = *rng.pick(&[Weight::All, Weight::AtLeast, Weight::AtLeast]);
    let mut sink = prop;
    match kind {
        "below" => weight = Weight::Below,
        "exact" => weight = Weight::AtLeast,
        "half" => weight = Weight::Random,
        "small" => w.vals.truncate(rng.range(1, 9) as usize),
        "two-thirds" => {
            // a configuration that asks for less than two thirds must still not accept less
            (w.fac, w.quo) = *rng.pick(&[(1, 2), (6, 10), (66, 100)]);
            weight = *rng.pick(&[Weight::AtLeast, Weight::Random, Weight::All]);
        }
        "slashed-half" | "slashed-exact" => {
            for v in w.vals.iter_mut() {
                v.slashed = rng.chance(1, 4);
            }
            weight = if kind == "slashed-exact" { Weight::AtLeast } else { Weight::Random };
        }
        "inactive" => {
            for v in w.vals.iter_mut() {
                if rng.chance(1, 4) {
                    if rng.chance(1, 2) { v.exit = last.1 .0 + rng.range(0, 1); } else { v.act = last.1 .0 + rng.range(0, 1); }
                }
            }
        }
        // exactly or nearly as many active validators as make one committee more, some of them slashed or without balance
        "count" => {
            let step = w.spe as usize * w.tcs;
            if step <= 64 {
                let want = step * rng.range(2, 4) as usize - rng.below(3);
                while w.active(last.1 .0).len() > want { w.vals.pop(); }
                while w.active(last.1 .0).len() < want {
                    let key = w.vals.iter().map(|v| v.key).max().unwrap_or(0) + 1;
                    w.vals.push(Val { key, bal: w.vals.first().map_or(32_000_000_000, |v| v.bal), slashed: false, aee: 0, act: 0, exit: FAR });
                }
                for v in w.vals.iter_mut() {
                    if rng.chance(1, 30) { v.bal = 0; }
                    if rng.chance(1, 30) { v.slashed = true; }
                }
            }
        }
        "trail" => {
            let t = last.1;
            let far = rng.range(1, 2);
            links.push((t, (t.0 + far, 61)));
        }
        "double" => {
            let t = last.1;
            links.push((t, (t.0 + 1, 62)));
            if rng.chance(1, 2) {
                links.push((links[links.len() - 1].1, (t.0 + 2, 63)));
            }
        }
        "skip-only" => {
            let l = links.len() - 1;
            links[l].1 .0 += rng.range(1, 2);
        }
        "drop-final" => {
            links.pop();
        }
        "bad-source" => {
            let i = rng.below(links.len());
            links[i].0 .1 = 70;
            if i > 0 && rng.chance(1, 2) { links[i - 1].1 .1 = 71; }
        }
        "old-source" => {
            let i = rng.below(links.len());
            links[i].0 = w.cs.1;
        }
        "self" => {
            let i = rng.below(links.len());
            links[i].1 = links[i].0;
        }
        "back" => {
            let i = rng.below(links.len());
            links[i].1 .0 = links[i].0 .0.saturating_sub(rng.range(0, 1));
        }
        "swap" => {
            if links.len() > 1 { links.swap(0, 1); } else { links[0] = (links[0].1, (links[0].1 .0 + 1, 64)); }
        }
        _ => {}
    }
    match kind {
        "fork-low" | "fork-high" | "fork-edge" => {
            let e = rng.pick(&links).1 .0;
            let f = *rng.pick(&[5usize, 6, 7]);
            for g in 1..8 {
                let fe = w.spec.fork_epoch(ForkName::ALL[g]).map(|x| x.as_u64());
                // boundary of fork f exactly at, before or after the target epoch
                let b = match rng.below(3) { 0 => e, 1 => e + 1, _ => e.saturating_sub(1) };
                let ne = if g < f { fe.map(|x| x.min(b)).or(Some(0)) } else if g == f { Some(b) } else { fe.filter(|x| *x >= b && rng.chance(1, 2)) };
                w.spec.set_fork_epoch(ForkName::ALL[g], ne.map(|x| x.into()));
            }
            w.min = *rng.pick(&[4usize, 5, 6]);
            w.max = *rng.pick(&[5usize, 6, 7]);
            if kind == "fork-low" { w.min = f; w.max = 7; }
            if kind == "fork-high" { w.min = 0; w.max = f - 1; }
        }
        "look-exact" | "look-over" => {
            w.min = 0;
            w.max = 7;
            let top = links.iter().map(|l| l.1 .0).max().unwrap_or(0);
            w.look = (top - w.cs.1 .0).saturating_sub((kind == "look-over") as u64);
        }
        _ => {}
    }
    if links.is_empty() {
        w.slots.push((10, 1));
    }
    set_links(rng, &mut w, &links, weight, style);
    let ne = w.atts.len();
    let pick = |rng: &mut Rng| rng.below(ne.max(1));
    let k = pick(rng);
    match kind {
        "plain" | "early" | "exact" | "below" | "half" | "small" => {}
        "empty" => w.atts.clear(),
        "repeat" => {
            let a = w.atts.clone();
            if rng.chance(1, 2) { w.atts.extend(a); } else if ne > 0 { w.atts.insert(0, a[ne - 1].clone()); }
        }
        "interleave" | "resplit" => {
            // votes of the same link, but not next to each other
            if links.len() > 1 {
                rng.shuffle(&mut w.atts);
            } else if ne > 1 {
                let mut other = w.atts[0].clone();
                other.tgt.1 = 65;
                w.sign(&mut other);
                w.atts.insert(1 + rng.below(ne - 1), other);
            }
        }
        "no-slot" => {
            let f = links.last().map(|l| l.0 .1).unwrap_or(0);
            w.slots.retain(|s| s.0 != f);
        }
        "wrong-slot-root" => w.slots.iter_mut().for_each(|s| s.1 = s.1.wrapping_mul(3).wrapping_add(s.0 as u64)),
        "dup-atts" => {
            // half of the voters, counted twice
            set_links(rng, &mut w, &links, Weight::All, Style::PerSlot);
            let l = *links.last().unwrap();
            w.atts.retain(|a| a.tgt != l.1 || (a.slot % w.spe) * 2 < w.spe);
            let a: Vec<Att> = w.atts.iter().filter(|a| a.tgt == l.1).cloned().collect();
            w.atts.extend(a);
        }
        "overlap-below" => {
            let l = *links.last().unwrap();
            let who = voters(rng, &mut w, l.1 .0, Weight::Below, true);
            w.atts.retain(|a| a.tgt != l.1);
            let a = vote(rng, &w, l, &who, Style::Overlap);
            w.atts.extend(a);
        }
        "split-source" | "split-target" => {
            // votes for a different source (or target root) pad the tail
            let l = *links.last().unwrap();
            let who = voters(rng, &mut w, l.1 .0, Weight::All, false);
            let cut = rng.below(who.len() + 1);
            w.atts.retain(|a| a.tgt != l.1);
            let a = vote(rng, &w, l, &who[..cut], style);
            let other = if kind == "split-source" { (if rng.chance(1, 2) { w.cs.1 } else { (l.0 .0, 66) }, l.1) } else { (l.0, (l.1 .0, 67)) };
            let b = vote(rng, &w, other, &who[cut..], style);
            if rng.chance(1, 2) { w.atts.extend(a); w.atts.extend(b); } else { w.atts.extend(b); w.atts.extend(a); }
        }
        "carry" => {
            // supporters of the first link must not count for the second
            if links.len() > 1 {
                let l = *links.last().unwrap();
                w.atts.retain(|a| a.tgt != l.1 || a.slot % w.spe == 0);
            } else {
                w.atts.retain(|a| a.slot % w.spe > 2);
            }
        }
        "mix-shift" => {
            let e = last.1 .0;
            if let Some(i) = w.mix_idx(e) {
                // the table changes after the votes were made
                let o = (i + rng.pick(&[1u32, 2, 63])) % w.ephv as u32;
                let Some(t) = w.mixes.get(&(e, i)).copied() else { return (w, sink, kind.to_string()) };
                w.mixes.insert((e, i), if rng.chance(1, 2) { 29999 } else { t });
                w.mixes.insert((e, o), t);
            }
        }
        "mix-view" => {
            let e = last.1 .0;
            if let Some(i) = w.mix_idx(e) {
                match rng.below(3) {
                    0 => { w.mixes.remove(&(e, i)); }
                    1 => { w.mixes.insert((e, i), 29998); }
                    _ => {}
                }
            }
        }
        _ if ne == 0 => {}
        "sig-missing" => { let s = &mut w.atts[k].sig; let i = rng.below(s.len()); s.remove(i); }
        "sig-extra" => { let m = w.msg(&w.atts[k]); let key = rng.pick(&w.vals).key; w.atts[k].sig.push((key, m)); }
        "sig-double" => { let s = w.atts[k].sig[0].clone(); w.atts[k].sig.push(s); }
        "bbr" => w.atts[k].bbr += 100,
        "slot-same" => { let a = &mut w.atts[k]; a.slot = a.slot ^ (1 << rng.below(3)); if rng.chance(1, 2) { let mut b = a.clone(); w.sign(&mut b); w.atts[k] = b; } }
        "slot-other" => {
            let mut a = w.atts[k].clone();
            a.slot = if rng.chance(1, 2) { a.slot + w.spe } else { a.slot.saturating_sub(w.spe) };
            w.sign(&mut a);
            w.atts[k] = a;
        }
        "index" => { let mut a = w.atts[k].clone(); a.index = *rng.pick(&[1u64, 2, u64::MAX]); if rng.chance(3, 4) { w.sign(&mut a); } w.atts[k] = a; }
        "sig-index" => w.atts[k].sig.iter_mut().for_each(|s| s.1.index = 1),
        "src-root" => w.atts[k].sig.iter_mut().for_each(|s| s.1.src.1 = 68),
        "tgt-root" => w.atts[k].sig.iter_mut().for_each(|s| s.1.tgt.1 = 69),
        "slot-sig-other" => w.atts[k].sig.iter_mut().for_each(|s| s.1.slot ^= 1),
        "ver-prev" => w.atts[k].sig.iter_mut().for_each(|s| s.1.ver = s.1.ver.saturating_sub(1)),
        "ver-next" => w.atts[k].sig.iter_mut().for_each(|s| s.1.ver = (s.1.ver + 1).min(7)),
        "gvr" => w.atts[k].sig.iter_mut().for_each(|s| s.1.gvr = 0),
        "domain" => w.atts[k].sig.iter_mut().for_each(|s| s.1.dom = 0),
        "bits-long" => { let n = rng.range(1, 3); for _ in 0..n { let b = rng.chance(1, 3); w.atts[k].bits.push(b); } }
        "bits-short" => { let a = &mut w.atts[k]; if rng.chance(1, 2) { *a.bits.last_mut().unwrap() = false; let mut b = a.clone(); w.sign(&mut b); w.atts[k] = b; } w.atts[k].bits.pop(); }
        "bits-flip" => { let a = &mut w.atts[k]; let i = rng.below(a.bits.len()); a.bits[i] = !a.bits[i]; if rng.chance(1, 2) { let mut b = a.clone(); w.sign(&mut b); w.atts[k] = b; } }
        "extra-committee" | "empty-committee" => {
            let com = w.committees(w.atts[k].tgt.0);
            let mut a = w.atts[k].clone();
            let row = &com[(a.slot % w.spe) as usize];
            if let Some(c) = (0..row.len()).find(|c| !a.comm.contains(c)) {
                let off: usize = a.comm.iter().filter(|x| **x < c).map(|x| row[*x].len()).sum();
                let z = vec![false; row[c].len()];
                a.bits.splice(off..off, z);
                a.comm.push(c);
                a.comm.sort();
            } else {
                // empty one of its committees instead
                let c = a.comm[0];
                a.bits[..row[c].len()].iter_mut().for_each(|b| *b = false);
                w.sign(&mut a);
            }
            w.atts[k] = a;
        }
        "drop-committee" => { let a = &mut w.atts[k]; a.comm.remove(0); if rng.chance(1, 2) { let mut b = a.clone(); w.sign(&mut b); w.atts[k] = b; } }
        "committee-range" => { let c = w.maxc - 1; let a = &mut w.atts[k]; if !a.comm.contains(&c) { a.comm.push(c); if rng.chance(1, 2) { a.bits.push(true); } } else { a.comm = vec![c]; } }
        "nothing" => { let mut a = w.atts[k].clone(); a.comm.clear(); a.bits.clear(); a.sig.clear(); w.atts.insert(k, a); }
        "zero-sig" => w.atts[k].garble = 2,
        "inf-sig" => w.atts[k].garble = 1,
        "swap-sigs" => { let j = pick(rng); let s = w.atts[j].sig.clone(); w.atts[j].sig = w.atts[k].sig.clone(); w.atts[k].sig = s; }
        "sig-other-epoch" => w.atts[k].sig.iter_mut().for_each(|s| s.1.tgt.0 += 1),
        "base" => w.atts[k].base = true,
        _ => {}
    }
    if kind == "plain" && prop == "C04" { sink = "C04"; }
    (w, sink, kind.to_string())
}
/// A pair of batches from the same state by coalitions that overlap in little weight.
pub fn pair<E: EthSpec>(rng: &mut Rng, n: usize) -> (World, World, String) {
    let (mut w, base) = fresh::<E>(rng, n, true, false);
    w.min = 0;
    w.max = 7;
    w.look = 9;
    mixes(rng, &mut w, base);
    // links of any shape by everyone: whatever finalizes must be accountable
    let free = rng.chance(1, 2);
    let overlap = if free { 3 } else { rng.below(4) }; // quarters of the validators that vote on both sides
    let side = |rng: &mut Rng, w: &World, which: usize| -> (Vec<(C, C)>, Vec<usize>) {
        let links = {
            let mut p = plan(rng, w).links;
            for l in p.iter_mut() {
                // disjoint checkpoint names for the two sides, sometimes a shared one
                if l.1 .1 >= 20 { l.1 .1 = if rng.chance(1, 4) { 45 } else { 20 + which as u32 * 30 }; }
                if l.0 != w.cs.0 { l.0 .1 = 0; }
            }
            let mut at = w.cs.0;
            for l in p.iter_mut() { l.0 = at; at = l.1; }
            p
        };
        let who: Vec<usize> = match overlap {
            0 => (0..w.vals.len()).filter(|v| v % 2 == which).collect(),
            1 => (0..w.vals.len()).filter(|v| if which == 0 { v % 3 != 0 } else { v % 3 != 1 }).collect(),
            2 => (0..w.vals.len()).filter(|v| v % 6 != which).collect(),
            _ => (0..w.vals.len()).collect(),
        };
        (links, who)
    };
    let shape = |rng: &mut Rng, which: usize| -> Vec<(C, C)> {
        let j = w.cs.0;
        let (mut at, mut seen, mut links) = (j, vec![w.cs.1, j], vec![]);
        for k in 0..if rng.chance(2, 3) { 2 } else { rng.range(1, 3) } {
            let e = at.0 + if k == 0 { rng.range(1, 6) } else { rng.range(1, 3) };
            let t = (e, 20 + which as u32 * 30 + links.len() as u32);
            links.push((if rng.chance(1, 8) { *rng.pick(&seen) } else { at }, t));
            seen.push(t);
            at = t;
        }
        links.retain(|l| l.1.0 < l.0.0 + 40 && l.1.0 <= w.cs.1.0 + 9);
        links
    };
    let mut out = vec![];
    let mut label = format!("{}overlap-{overlap}", if free { "free " } else { "" });
    for which in 0..2 {
        let mut v = w.clone();
        let (mut links, who) = side(rng, &w, which);
        if free {
            let l = shape(rng, which);
            if !l.is_empty() { links = l; }
        }
        for l in &links {
            let a = vote(rng, &v, *l, &who, Style::PerSlot);
            v.atts.extend(a);
        }
        v.slots = links.iter().flat_map(|l| [l.0, l.1]).map(|c| (c.1, c.0.wrapping_mul(w.spe))).collect();
        // an adversarial twist that buys weight it does not have
        let twist = if free { "none" } else { *rng.pick(&["none", "none", "dup", "other-source", "bits", "old-source", "unsigned"]) };
        match twist {
            "dup" => { let a = v.atts.clone(); v.atts = a.iter().flat_map(|x| [x.clone(), x.clone()]).collect(); }
            "other-source" => {
                let rest: Vec<usize> = (0..w.vals.len()).filter(|x| !who.contains(x)).collect();
                let l = *links.last().unwrap();
                let a = vote(rng, &v, (w.cs.1, l.1), &rest, Style::PerSlot);
                v.atts.extend(a);
            }
            "bits" => v.atts.iter_mut().for_each(|a| a.bits.iter_mut().for_each(|b| *b = true)),
            "old-source" => {
                // the last link starts at the finalized checkpoint instead
                let l = *links.last().unwrap();
                for a in v.atts.iter_mut().filter(|a| a.tgt == l.1) { a.src = w.cs.1; a.sig.iter_mut().for_each(|s| s.1.src = w.cs.1); }
            }
            "unsigned" => {
                let rest: Vec<usize> = (0..w.vals.len()).filter(|x| !who.contains(x)).collect();
                let l = *links.last().unwrap();
                let mut a = vote(rng, &v, l, &rest, Style::PerSlot);
                a.iter_mut().for_each(|x| x.sig.truncate(1));
                v.atts.extend(a);
            }
            _ => {}
        }
        label += twist;
        out.push(v);
    }
    let b = out.pop().unwrap();
    (out.pop().unwrap(), b, label)
}
