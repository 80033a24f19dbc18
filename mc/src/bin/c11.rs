//! C11: misuse is rejected by a panic and leaves the map unharmed.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{PalmTree, StdPalmTree};
use std::cell::Cell;
use std::ops::{Bound, RangeBounds};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
/// Loading this sequence must panic in checked builds exactly when it is not strictly ascending.
fn load<C: Cfg>(keys: &[u16], t: &mut Tally) -> Result<(), String> {
    let bad = keys.windows(2).any(|w| w[0] >= w[1]);
    let r = catch_unwind(AssertUnwindSafe(|| -> Tree<Key, Val, C> { PalmTree::load(keys.iter().enumerate().map(|(i, k)| (Key::mk(*k, i as u32), Val(i as u32)))) }));
    t.evals += 1;
    match r {
        Err(_) => want!(format!("loading {:?} panics", keys), true, bad),
        Ok(tr) => {
            want!(format!("loading {:?} panics", keys), false, bad);
            let m = Model { e: keys.iter().enumerate().map(|(i, k)| Ent { k: *k, tag: i as u32, v: i as u32 }).collect(), ctr: 0 };
            contents(&tr, &m).map_err(|e| format!("after loading {:?}: {}", keys, e))?;
        }
    }
    t.count(if bad { "unordered sequences loaded" } else { "ordered sequences loaded" }, 1);
    Ok(())
}
/// Every sequence of `len` keys out of `width`.
fn sequences<C: Cfg>(len: usize, width: usize, t: &mut Tally) -> Result<(), String> {
    let total = width.pow(len as u32);
    for x in 0..total {
        let mut y = x;
        let keys: Vec<u16> = (0..len)
            .map(|_| {
                let k = y % width;
                y /= width;
                k as u16
            })
            .collect();
        load::<C>(&keys, t)?;
        tick();
    }
    t.states += total as u64;
    t.validated += total as u64;
    Ok(())
}
/// One violation, at every position of an otherwise ascending sequence.
fn positions<C: Cfg>(n: usize, t: &mut Tally) -> Result<(), String> {
    let good: Vec<u16> = (1..=n as u16).map(|i| i * 2).collect();
    load::<C>(&good, t)?;
    for i in 1..n {
        // equal to the one before; lower by one; lower than everything; swapped
        let mut v = good.clone();
        v[i] = v[i - 1];
        load::<C>(&v, t)?;
        v[i] = good[i - 1] - 1;
        load::<C>(&v, t)?;
        v[i] = 0;
        load::<C>(&v, t)?;
        v = good.clone();
        v.swap(i - 1, i);
        load::<C>(&v, t)?;
        tick();
    }
    t.states += 4 * n as u64;
    t.validated += 4 * n as u64;
    Ok(())
}

/// A range that gives other bounds when asked again.
struct Shifty {
    first: (Bound<Key>, Bound<Key>),
    later: (Bound<Key>, Bound<Key>),
    asked: [Cell<bool>; 2],
}
impl Shifty {
    fn new(first: (Bd, Bd), later: (Bd, Bd)) -> Shifty {
        let pair = |p: (Bd, Bd)| (mk::<Key>(p.0), mk::<Key>(p.1));
        Shifty { first: pair(first), later: pair(later), asked: Default::default() }
    }
}
impl RangeBounds<Key> for Shifty {
    fn start_bound(&self) -> Bound<&Key> {
        if self.asked[0].replace(true) { self.later.0.as_ref() } else { self.first.0.as_ref() }
    }
    fn end_bound(&self) -> Bound<&Key> {
        if self.asked[1].replace(true) { self.later.1.as_ref() } else { self.first.1.as_ref() }
    }
}
/// Whatever such a range yields, if anything, must be the map's, and come to an end.
fn shifty<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
    let a = all(s.probes);
    let few: Vec<Bd> = a.iter().copied().step_by(a.len() / 12 + 1).collect();
    let ends = [(Bd::No, Bd::No), (Bd::In(s.probes[0]), Bd::Ex(*s.probes.last().unwrap()))];
    let mut c = s.t.clone();
    let most = s.m.e.len();
    for &lo in &few {
        for &hi in &few {
            for later in ends {
                for (first, later) in [(later, (lo, hi)), ((lo, hi), later)] {
                    let what = || format!("a range that is first {} and then {}", show_pair(first.0, first.1), show_pair(later.0, later.1));
                    let taken = catch_unwind(AssertUnwindSafe(|| {
                        let (mut n, mut strange) = (0, false);
                        for back in [false, true] {
                            let mut i = s.t.range(Shifty::new(first, later));
                            let mut left = most + 2;
                            while let Some((k, v)) = if back { i.next_back() } else { i.next() } {
                                strange |= s.m.get(k.k).map(|e| (e.tag, e.v)) != Some((k.tag, v.0));
                                n += 1;
                                left -= 1;
                                if left == 0 {
                                    return (usize::MAX, strange);
                                }
                            }
                            let mut i = c.range_mut(Shifty::new(first, later));
                            let mut seen: Vec<*mut Val> = Vec::new();
                            while let Some((k, v)) = if back { i.next_back() } else { i.next() } {
                                strange |= s.m.get(k.k).map(|e| (e.tag, e.v)) != Some((k.tag, v.0)) || seen.contains(&(v as *mut Val));
                                seen.push(v);
                                if seen.len() > most {
                                    return (usize::MAX, strange);
                                }
                            }
                        }
                        (n, strange)
                    }));
                    t.evals += 1;
                    if let Ok((n, strange)) = taken {
                        want!(format!("{} ends", what()), n != usize::MAX, true);
                        want!(format!("{} yields what is not in the map, or twice", what()), strange, false);
                    }
                }
            }
        }
    }
    contents(&c, s.m).map_err(|e| format!("after ranges that change: {}", e))
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C11";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (8, 2),
            (Tier::Quick, false) => (8, 2),
            (Tier::Thorough, _) => (10, 4),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        if tier == Tier::Thorough {
            v.extend(talls(WIDE, 1));
        }
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        // without debug assertions, loading is documented not to validate
        if !checked {
            return vec![];
        }
        let mut v = Vec::new();
        let max = if tier == Tier::Quick { 7 } else { 8 };
        for c in ["U4x4", "U5x4", "Y4x4", "S4x4", "T64U"] {
            for len in 0..=max {
                v.push(format!("sequences {} {} {}", c, len, if len > 6 { 4 } else { 5 }));
            }
        }
        for (c, ns) in [("U4x4", [16usize, 64, 65, 300]), ("U5x4", [19, 20, 100, 101]), ("Y4x4", [16, 17, 64, 65]), ("S4x4", [16, 17, 64, 65]), ("T64U", [64, 65, 130, 700])] {
            for n in ns {
                v.push(format!("positions {} {}", c, n));
            }
        }
        if tier == Tier::Thorough {
            v.push("positions T64U 4200".into());
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        match w[0] {
            "sequences" => with_cfg!(w[1], [U4x4 U5x4 S4x4 Y4x4 T64U], C => sequences::<C>(x(2), x(3), t)),
            _ => with_cfg!(w[1], [U4x4 U5x4 S4x4 Y4x4 T64U], C => positions::<C>(x(2), t)),
        }
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let mut c = s.t.clone();
        let before = fingerprint(s.t, s.probes);
        let a = all(s.probes);
        for &lo in &a {
            for &hi in &a {
                let bad = invalid(lo, hi);
                let pair = || (mk::<Key>(lo), mk::<Key>(hi));
                want!(format!("range{} panics", show_pair(lo, hi)), panics(|| s.t.range(pair())), bad);
                want!(format!("range_mut{} panics", show_pair(lo, hi)), panics(|| drop(c.range_mut(pair()))), bad);
                t.evals += 2;
                if bad {
                    t.count("invalid ranges", 1);
                }
            }
        }
        shifty(s, t)?;
        for &k in s.probes {
            let key = Key::mk(k, 0);
            let absent = s.m.get(k).is_none();
            want!(format!("[{}] panics", k), panics(|| s.t[&key].0), absent);
            want!(format!("[{}] = panics", k), panics(|| c[&key] = Val(s.m.get(k).map(|e| e.v).unwrap_or(0))), absent);
            t.evals += 2;
        }
        // the map after all this
        contents(&c, s.m).map_err(|e| format!("after misuse: {}", e))?;
        contents(s.t, s.m).map_err(|e| format!("after misuse: {}", e))?;
        want!("lookups after misuse", fingerprint(&c, s.probes), before);
        let mut m = s.m.clone();
        for &k in s.probes.iter().rev() {
            apply::<Key, Val, C>(&mut c, &mut m, op(Code::insert, k as usize, 0))?;
        }
        apply::<Key, Val, C>(&mut c, &mut m, op(Code::remove_lowest, 0, 0))?;
        contents(&c, &m).map_err(|e| format!("operations after misuse: {}", e))?;
        count_state(s, t);
        Ok(())
    }
}
#[allow(dead_code)]
type Shipped = StdPalmTree<u16, u16>;
fn main() {
    main_for::<P>()
}
