//! C03: mutable iteration visits each entry in bounds exactly once, and writes stick.
use mc::{bounds::*, cfg_dispatch, engine::*, inplace, inplace::Step, ops::*, plans::*, provided, types::*, want, with_cfg};
use palmtree::IterMut;
use std::collections::HashSet;

/// Drives one mutable iterator by a pattern of ends, keeping every reference alive until it has finished, and
/// then writes through all of them.
fn drive<C: Cfg>(mut it: IterMut<'_, Key, Val, C>, m: &mut Model, (a, b): (usize, usize), back: impl Fn(usize) -> bool, end: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    let n = b - a;
    let (mut lo, mut hi) = (a, b);
    let mut held: Vec<(usize, &mut Val)> = Vec::with_capacity(n);
    for s in 0..n {
        let bk = back(s);
        let pos = if bk {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        match if bk { it.next_back() } else { it.next() } {
            None => return Err(format!("{}: nothing at step {} of {}", what(), s, n)),
            Some((k, v)) => {
                want!(format!("{}: step {}", what(), s), see(k, v), want_seen::<Key, Val>(&m.e[pos]));
                held.push((pos, v));
            }
        }
    }
    for bk in [end, !end, end] {
        want!(format!("{} after exhaustion", what()), if bk { it.next_back() } else { it.next() }.map(|(k, v)| see(k, v)), None);
    }
    let mut addr: Vec<usize> = held.iter().map(|(_, v)| *v as *const Val as usize).collect();
    addr.sort_unstable();
    addr.dedup();
    want!(format!("{}: distinct references", what()), addr.len(), n);
    for (pos, v) in held {
        m.ctr += 1;
        v.0 = m.ctr;
        m.e[pos].v = m.ctr;
    }
    Ok(())
}

fn shown(e: (&Key, &mut Val)) -> Seen {
    see(e.0, e.1)
}
/// Every sequence of steps on one map, which ends with a range.
fn in_place<C: Cfg>(name: &str, which: &str, depth: usize, t: &mut Tally) -> Result<(), String> {
    let (start, keys) = inplace::start::<C>(which);
    use Code::*;
    let mut before = inplace::ops_on(&[insert, remove], &keys);
    before.extend(inplace::some_ranges(&keys, Step::RangeMut));
    before.push(Step::Range(Bd::No, Bd::No, false));
    let last = inplace::all_ranges(&keys, Step::RangeMut);
    inplace::sequences::<C>(name, &start, &keys, depth, &before, &last, t)
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C03";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (10, 4),
            (Tier::Quick, false) => (9, 3),
            (Tier::Thorough, true) => (12, 5),
            (Tier::Thorough, false) => (11, 5),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        v.extend(talls(WIDE, 1));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        inplace::jobs(tier, checked)
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        with_cfg!(w[1], [U4x4 U5x4 Y4x4 S4x4], C => in_place::<C>(name, w[2], w[3].parse().unwrap(), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let n = s.m.e.len();
        let mut c = s.t.clone();
        let mut m = s.m.clone();
        // the whole map: every split point, from either end
        let splits = if n <= 16 { n } else { 2 };
        for i in 0..=splits {
            for flip in [false, true] {
                drive(c.iter_mut(), &mut m, (0, n), |s| (s >= i) ^ flip, flip, &|| format!("iter_mut(), {} steps from one end and the rest from the other", i))?;
                contents(&c, &m).map_err(|e| format!("after writing through iter_mut(): {}", e))?;
                t.evals += 1;
            }
        }
        provided!(c.iter_mut(), shown, &m.e, points(n, true), || "iter_mut()", t);
        drive((&mut c).into_iter(), &mut m, (0, n), |_| false, false, &|| "iteration by mutable reference".into())?;
        let mut slices = HashSet::new();
        each_pair(s.probes, |lo, hi| {
            let (a, b) = slice_of(&m, lo, hi);
            let pats: &[u32] = match b - a {
                0 => &[0, 0],
                1 => &[0, 1],
                2 => &[0, 1, 2, 3],
                3 => &[0, 1, 2, 3, 4, 5, 6, 7],
                4..=16 => &[0, !0, 0x5555_5555, 0xAAAA_AAAA, 0x3333_3333],
                _ => &[0x5555_5555],
            };
            let what = || format!("range_mut{}", show_pair(lo, hi));
            if slices.insert((a, b)) {
                provided!(c.range_mut((mk::<Key>(lo), mk::<Key>(hi))), shown, &m.e[a..b], points(b - a, false), what, t);
            }
            for (i, &p) in pats.iter().enumerate() {
                // and past the end, from either side first
                drive(c.range_mut((mk::<Key>(lo), mk::<Key>(hi))), &mut m, (a, b), |s| p >> (s % 32) & 1 == 1, i % 2 == 1, &|| format!("range_mut{} pattern {:b}", show_pair(lo, hi), p))?;
                contents(&c, &m).map_err(|e| format!("after writing through range_mut{}: {}", show_pair(lo, hi), e))?;
                t.evals += 1;
            }
            Ok(())
        })?;
        // later lookups see what was written, and the map this one was cloned from saw nothing
        for &k in s.probes {
            want!(format!("get({}) after writing through iterators", k), c.get(&Key::mk(k, 0)).map(|v| v.0), m.get(k).map(|e| e.v));
        }
        contents(s.t, s.m).map_err(|e| format!("the map a clone of which was written to: {}", e))?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
