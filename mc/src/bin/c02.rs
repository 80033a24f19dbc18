//! C02: shared iteration and ranges yield exactly the entries in bounds, from both ends, in any interleaving.
use mc::{bounds::*, cfg_dispatch, engine::*, inplace, inplace::Step, ops::*, plans::*, provided, types::*, want, with_cfg};
use palmtree::Iter;
use std::collections::{BTreeMap, HashSet};

fn next<C: Cfg>(it: &mut Iter<'_, Key, Val, C>, back: bool) -> Option<Seen> {
    if back { it.next_back() } else { it.next() }.map(|(k, v)| see(k, v))
}
fn exhausted<C: Cfg>(it: Iter<'_, Key, Val, C>, what: &dyn Fn() -> String) -> Result<(), String> {
    for first in [false, true] {
        let mut it = it.clone();
        for back in [first, !first, !first, first] {
            want!(format!("{} after exhaustion, {}", what(), if first { "from the back first" } else { "from the front first" }), next(&mut it, back), None);
        }
    }
    Ok(())
}
fn shown(e: (&Key, &Val)) -> Seen {
    see(e.0, e.1)
}
/// Every pair of (taken from the front, taken from the back), reached front first and back first, and every
/// interleaving for short ranges.
fn grid<C: Cfg>(it0: Iter<'_, Key, Val, C>, exp: &[Ent], what: &dyn Fn() -> String, t: &mut Tally) -> Result<(), String> {
    let n = exp.len();
    let at = |i: usize| Some(want_seen::<Key, Val>(&exp[i]));
    for back_first in [false, true] {
        let mut it = it0.clone();
        for i in 0..=n {
            let mut jt = it.clone();
            for j in i..n {
                let pos = if back_first { j - i } else { n - 1 - (j - i) };
                want!(format!("{}: {} steps from one end, then step {} from the other", what(), i, j - i), next(&mut jt, !back_first), at(pos));
                t.evals += 1;
            }
            exhausted(jt, what)?;
            if i < n {
                want!(format!("{}: step {} from {}", what(), i, if back_first { "the back" } else { "the front" }), next(&mut it, back_first), at(if back_first { n - 1 - i } else { i }));
            }
        }
    }
    let patterns: Vec<u32> = if n <= 4 { (0..1 << n).collect() } else { vec![0x5555_5555, 0xAAAA_AAAA, 0x3333_3333, 0xF0F0_F0F0] };
    for p in patterns {
        let mut it = it0.clone();
        let (mut lo, mut hi) = (0, n);
        for s in 0..n {
            let back = p >> (s % 32) & 1 == 1;
            let pos = if back {
                hi -= 1;
                hi
            } else {
                lo += 1;
                lo - 1
            };
            want!(format!("{}: pattern {:b} step {}", what(), p, s), next(&mut it, back), at(pos));
        }
        exhausted(it, what)?;
        t.evals += 1;
    }
    Ok(())
}
/// What an iterator prints is what it would yield, at every point on the way.
fn formats<C: Cfg>(it: Iter<'_, Key, Val, C>, exp: &[Ent], what: &dyn Fn() -> String) -> Result<(), String> {
    for back in [false, true] {
        let mut it = it.clone();
        let (mut lo, mut hi) = (0, exp.len());
        loop {
            let m: BTreeMap<Key, Val> = exp[lo..hi].iter().map(|e| (Key::mk(e.k, e.tag), Val(e.v))).collect();
            want!(format!("{} formatted with entries {} to {} to come", what(), lo, hi), format!("{:?}", it), format!("{:?}", m));
            if lo == hi {
                break;
            }
            want!(format!("{}: a step after formatting", what()), next(&mut it, back), Some(want_seen::<Key, Val>(&exp[if back { hi - 1 } else { lo }])));
            if back { hi -= 1 } else { lo += 1 }
        }
        want!(format!("{} formatted when exhausted", what()), (next(&mut it, back), format!("{:?}", it)), (None, "{}".to_string()));
    }
    Ok(())
}

/// Every sequence of steps on one map, which ends with a range.
fn in_place<C: Cfg>(name: &str, which: &str, depth: usize, t: &mut Tally) -> Result<(), String> {
    let (start, keys) = inplace::start::<C>(which);
    use Code::*;
    let mut before = inplace::ops_on(&[insert, remove], &keys);
    before.extend(inplace::some_ranges(&keys, Step::Range));
    before.push(Step::RangeMut(Bd::No, Bd::No, false));
    let last = inplace::all_ranges(&keys, Step::Range);
    inplace::sequences::<C>(name, &start, &keys, depth, &before, &last, t)
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C02";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (10, 4),
            (Tier::Quick, false) => (9, 3),
            (Tier::Thorough, true) => (12, 5),
            (Tier::Thorough, false) => (11, 5),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        v.extend(talls(WIDE, 1));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        inplace::jobs(tier, checked)
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        with_cfg!(w[1], [U4x4 U5x4 Y4x4 S4x4], C => in_place::<C>(name, w[2], w[3].parse().unwrap(), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        contents(s.t, s.m)?;
        let exp: &[Ent] = &s.m.e;
        if exp.len() <= 16 {
            grid(s.t.iter(), exp, &|| "iter()".into(), t)?;
        }
        provided!(s.t.iter(), shown, exp, points(exp.len(), true), || "iter()", t);
        want!("reversed iteration", s.t.iter().rev().map(|(k, v)| see(k, v)).collect::<Vec<_>>(), exp.iter().rev().map(want_seen::<Key, Val>).collect::<Vec<_>>());
        want!("iteration by reference", s.t.into_iter().map(|(k, v)| see(k, v)).collect::<Vec<_>>(), exp.iter().map(want_seen::<Key, Val>).collect::<Vec<_>>());
        let mut slices = HashSet::new();
        each_pair(s.probes, |lo, hi| {
            let (a, b) = slice_of(s.m, lo, hi);
            let exp = &s.m.e[a..b];
            let what = || format!("range{}", show_pair(lo, hi));
            let it = s.t.range((mk::<Key>(lo), mk::<Key>(hi)));
            // the inherited methods once for every run of entries
            if slices.insert((a, b)) {
                provided!(it.clone(), shown, exp, points(exp.len(), false), what, t);
                if exp.len() <= 16 {
                    formats(it.clone(), exp, &what)?;
                }
            }
            if exp.len() <= 16 {
                grid(it, exp, &what, t)
            } else {
                let mut i = 0;
                for (k, v) in it.clone() {
                    if i >= exp.len() {
                        return Err(format!("{} yields a surplus entry {}", what(), k.k()));
                    }
                    want!(what(), see(k, v), want_seen::<Key, Val>(&exp[i]));
                    i += 1;
                }
                want!(format!("length of {}", what()), i, exp.len());
                for (k, v) in it.clone().rev() {
                    if i == 0 {
                        return Err(format!("{} reversed yields a surplus entry {}", what(), k.k()));
                    }
                    i -= 1;
                    want!(format!("{} reversed", what()), see(k, v), want_seen::<Key, Val>(&exp[i]));
                }
                want!(format!("missing from {} reversed", what()), i, 0);
                // alternate, and meet in the middle
                let mut it = it;
                for s in 0..exp.len() {
                    let pos = if s % 2 == 0 { s / 2 } else { exp.len() - 1 - s / 2 };
                    want!(format!("{} alternating, step {}", what(), s), next(&mut it, s % 2 == 1), Some(want_seen::<Key, Val>(&exp[pos])));
                }
                exhausted(it, &what)?;
                t.evals += 3 * exp.len() as u64;
                Ok(())
            }
        })?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
