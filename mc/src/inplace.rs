//! Sequences of steps carried out on one map from its making to its end. (The search for states goes on from clones, which
//! would leave behind whatever a map may remember of how it was used before.)
use crate::{bounds::*, engine::*, ops::*, plans::*, types::*, want};
use std::fmt;

#[derive(Clone, Copy)]
pub enum Step {
    Op(Op),
    /// Every entry in bounds read, from the front or from the back.
    Range(Bd, Bd, bool),
    /// Every entry in bounds written to, from the front or from the back.
    RangeMut(Bd, Bd, bool),
}
impl fmt::Display for Step {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Step::Op(o) => write!(f, "{}", o),
            Step::Range(a, b, back) => write!(f, "range{}{}", show_pair(a, b), if back { ".rev()" } else { "" }),
            Step::RangeMut(a, b, back) => write!(f, "range_mut{}{}", show_pair(a, b), if back { ".rev()" } else { "" }),
        }
    }
}
fn step<C: Cfg>(tr: &mut Tree<Key, Val, C>, m: &mut Model, s: Step) -> Result<(), String> {
    match s {
        Step::Op(o) => apply::<Key, Val, C>(tr, m, o),
        Step::Range(lo, hi, back) => {
            let (mut a, mut b) = slice_of(m, lo, hi);
            let mut it = tr.range((mk::<Key>(lo), mk::<Key>(hi)));
            while a < b {
                let got = if back { it.next_back() } else { it.next() }.map(|(k, v)| see(k, v));
                let at = if back { b - 1 } else { a };
                want!(format!("{}", s), got, Some(want_seen::<Key, Val>(&m.e[at])));
                if back { b -= 1 } else { a += 1 }
            }
            want!(format!("{} after its last entry", s), it.next().map(|(k, v)| see(k, v)), None);
            want!(format!("{} after its last entry, from the back", s), it.next_back().map(|(k, v)| see(k, v)), None);
            Ok(())
        }
        Step::RangeMut(lo, hi, back) => {
            let (mut a, mut b) = slice_of(m, lo, hi);
            let mut it = tr.range_mut((mk::<Key>(lo), mk::<Key>(hi)));
            while a < b {
                let at = if back { b - 1 } else { a };
                let Some((k, v)) = (if back { it.next_back() } else { it.next() }) else { return Err(format!("{} ends before the entry {}", s, m.e[at].k)) };
                want!(format!("{}", s), see(k, v), want_seen::<Key, Val>(&m.e[at]));
                m.ctr += 1;
                v.0 = m.ctr;
                m.e[at].v = m.ctr;
                if back { b -= 1 } else { a += 1 }
            }
            want!(format!("{} after its last entry", s), it.next().map(|(k, v)| see(k, v)), None);
            want!(format!("{} after its last entry, from the back", s), it.next_back().map(|(k, v)| see(k, v)), None);
            Ok(())
        }
    }
}
/// The `which`th of the tall trees, or an empty one, and some keys: at both ends of it and in the middle.
pub fn start<C: Cfg>(which: &str) -> (Vec<Op>, Vec<usize>) {
    match which.parse::<usize>().ok().and_then(|i| seeds(C::B, C::L).into_iter().nth(i)) {
        Some(s) => {
            let k = s.keys.clone();
            (s.ops.clone(), vec![k[0], k[k.len() / 2], k[k.len() - 1]])
        }
        None => (vec![], vec![1, 2, 3]),
    }
}
/// The names of the jobs: configuration, tree and number of steps.
pub fn jobs(tier: Tier, checked: bool) -> Vec<String> {
    let mut v = vec![];
    for c in ["U4x4", "U5x4", "Y4x4", "S4x4"] {
        let d = 3 + (tier == Tier::Thorough && c == "U4x4") as usize;
        if checked || c != "Y4x4" {
            for i in 0..seeds(4, 4).len() {
                v.push(format!("inplace {} {} {}", c, i, d));
            }
        }
        v.push(format!("inplace {} empty {}", c, d + 1));
    }
    v
}
/// Whole ranges and those that begin or end at one of the keys.
pub fn some_ranges(keys: &[usize], f: fn(Bd, Bd, bool) -> Step) -> Vec<Step> {
    let mut v = vec![f(Bd::No, Bd::No, false), f(Bd::No, Bd::No, true)];
    for &k in keys {
        v.push(f(Bd::In(k as u16), Bd::No, false));
        v.push(f(Bd::No, Bd::Ex(k as u16), true));
    }
    v
}
/// Every range between the keys.
pub fn all_ranges(keys: &[usize], f: fn(Bd, Bd, bool) -> Step) -> Vec<Step> {
    let k: Vec<u16> = keys.iter().map(|k| *k as u16).collect();
    let mut v = vec![];
    let _ = each_pair(&k, |a, b| {
        v.push(f(a, b, false));
        v.push(f(a, b, true));
        Ok(())
    });
    v
}
pub fn ops_on(codes: &[Code], keys: &[usize]) -> Vec<Step> {
    codes.iter().flat_map(|c| keys.iter().map(move |k| Step::Op(op(*c, *k, 0)))).collect()
}
/// Every sequence of `depth` steps: the last out of `last`, the others out of `before`.
pub fn sequences<C: Cfg>(name: &str, start: &[Op], keys: &[usize], depth: usize, before: &[Step], last: &[Step], t: &mut Tally) -> Result<(), String> {
    let mut at = vec![0; depth];
    let of = |i: usize| if i + 1 == depth { last } else { before };
    loop {
        let what = |e: String| format!("{}: {} then, on the same map, {}: {}", name, show(start), at.iter().enumerate().map(|(i, s): (usize, &usize)| of(i)[*s].to_string()).collect::<Vec<_>>().join("; "), e);
        let (mut tr, mut m) = build::<Key, Val, C>(start).map_err(what)?;
        for (i, &s) in at.iter().enumerate() {
            step::<C>(&mut tr, &mut m, of(i)[s]).map_err(what)?;
        }
        contents(&tr, &m).map_err(what)?;
        for &k in keys {
            want!(what(format!("get({})", k)), tr.get(&Key { k: k as u16, tag: 0 }).map(|v| v.0), m.get(k as u16).map(|e| e.v));
        }
        t.evals += 1;
        t.transitions += depth as u64;
        let Some(i) = (0..depth).rev().find(|i| at[*i] + 1 < of(*i).len()) else { break };
        at[i] += 1;
        at[i + 1..].fill(0);
    }
    t.count("sequences carried out in place", (0..depth).map(|i| of(i).len() as u64).product());
    t.validated += 1;
    Ok(())
}
