//! Range bounds: every valid and invalid pair over a set of keys.
use crate::{engine::*, ops::*, types::*};
use std::ops::Bound;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bd {
    No,
    In(u16),
    Ex(u16),
}
pub fn mk<K: KT>(b: Bd) -> Bound<K> {
    match b {
        Bd::No => Bound::Unbounded,
        Bd::In(k) => Bound::Included(K::mk(k, 0)),
        Bd::Ex(k) => Bound::Excluded(K::mk(k, 0)),
    }
}
pub fn show_pair(lo: Bd, hi: Bd) -> String {
    format!("({:?}, {:?})", lo, hi)
}
/// Whether the map must reject this pair with a panic.
pub fn invalid(lo: Bd, hi: Bd) -> bool {
    match (lo, hi) {
        (Bd::No, _) | (_, Bd::No) => false,
        (Bd::Ex(a), Bd::Ex(b)) if a == b => true,
        (Bd::In(a) | Bd::Ex(a), Bd::In(b) | Bd::Ex(b)) => a > b,
    }
}
pub fn all(probes: &[u16]) -> Vec<Bd> {
    let mut v = vec![Bd::No];
    for &k in probes {
        v.push(Bd::In(k));
        v.push(Bd::Ex(k));
    }
    v
}
/// Every pair of bounds the map must accept.
pub fn each_pair(probes: &[u16], mut f: impl FnMut(Bd, Bd) -> Result<(), String>) -> Result<(), String> {
    let a = all(probes);
    for &lo in &a {
        for &hi in &a {
            if !invalid(lo, hi) {
                f(lo, hi)?
            }
        }
    }
    Ok(())
}
/// The positions of the entries in bounds.
pub fn slice_of(m: &Model, lo: Bd, hi: Bd) -> (usize, usize) {
    let below = |k: u16| m.e.partition_point(|e| e.k < k);
    let upto = |k: u16| m.e.partition_point(|e| e.k <= k);
    let a = match lo {
        Bd::No => 0,
        Bd::In(k) => below(k),
        Bd::Ex(k) => upto(k),
    };
    let b = match hi {
        Bd::No => m.e.len(),
        Bd::In(k) => upto(k),
        Bd::Ex(k) => below(k),
    };
    (a, b.max(a))
}
/// Records how deep and how full the states were.
pub fn count_state<C: Cfg>(s: &St<C>, t: &mut Tally) {
    if let Some(e) = s.m.e.first() {
        t.count(&format!("states of height {}", height(s.t, e.k)), 1);
    } else {
        t.count("empty states", 1);
    }
}
/// The points within `n` entries at which to split or skip.
pub fn points(n: usize, every: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if every && n <= 16 { (0..=n + 1).collect() } else { vec![0, n / 2, n] };
    v.dedup();
    v
}
/// Every method an iterator inherits, on fresh and on partly consumed iterators over the entries expected.
#[macro_export]
macro_rules! provided {
    ($make:expr, $see:expr, $exp:expr, $points:expr, $what:expr, $t:expr) => {{
        let (exp, see): (&[Ent], _) = ($exp, $see);
        let all: Vec<Seen> = exp.iter().map(want_seen::<Key, Val>).collect();
        let n = all.len();
        let at = |i: usize| all.get(i).copied();
        let back = |i: usize| if i < n { Some(all[n - 1 - i]) } else { None };
        let what = |m: String| format!("{}.{}", ($what)(), m);
        for &i in $points.iter() {
            let rest = n.saturating_sub(i + 2);
            let mut it = $make;
            want!(what(format!("nth({})", i)), it.nth(i).map(see), at(i));
            want!(what(format!("nth({}), then next()", i)), it.next().map(see), at(i + 1));
            let (lo, hi) = it.size_hint();
            want!(what(format!("nth({}), then next(), then size_hint() is {:?} around {}", i, (lo, hi), rest)), lo <= rest && hi.map_or(true, |hi| hi >= rest), true);
            want!(what(format!("nth({}), then next(), then next_back()", i)), it.next_back().map(see), if rest > 0 { back(0) } else { None });
            let mut it = $make;
            want!(what(format!("nth_back({})", i)), it.nth_back(i).map(see), back(i));
            want!(what(format!("nth_back({}), then next_back()", i)), it.next_back().map(see), back(i + 1));
            want!(what(format!("nth_back({}), then next()", i)), it.next().map(see), if rest > 0 { at(0) } else { None });
            let mut it = $make;
            for _ in 0..i {
                it.next();
            }
            want!(what(format!("next() {} times, then last()", i)), it.last().map(see), if i < n { back(0) } else { None });
            let mut it = $make;
            for _ in 0..i {
                it.next_back();
            }
            want!(what(format!("next_back() {} times, then last()", i)), it.last().map(see), back(i));
            let mut it = $make;
            for _ in 0..i {
                it.next_back();
            }
            want!(what(format!("next_back() {} times, then count()", i)), it.count(), n.saturating_sub(i));
            want!(what(format!("skip({}), collected", i)), $make.skip(i).map(see).collect::<Vec<_>>()[..], all[i.min(n)..]);
            want!(what(format!("take({}), collected", i)), $make.take(i).map(see).collect::<Vec<_>>()[..], all[..i.min(n)]);
            want!(what(format!("rev().skip({}).next()", i)), $make.rev().skip(i).next().map(see), back(i));
            want!(what(format!("step_by({}), collected", i + 1)), $make.step_by(i + 1).map(see).collect::<Vec<_>>(), all.iter().copied().step_by(i + 1).collect::<Vec<_>>());
            want!(what(format!("position of entry {}", i)), $make.map(see).position(|x| Some(x) == at(i)), if i < n { Some(i) } else { None });
        }
        want!(what("count()".into()), $make.count(), n);
        want!(what("min()".into()), $make.min().map(see), at(0));
        want!(what("max()".into()), $make.max().map(see), back(0));
        let mut it = $make;
        it.next();
        it.next_back();
        let mut v: Vec<Seen> = vec![];
        it.for_each(|e| v.push(see(e)));
        want!(what("for_each() between the first and the last".into()), v[..], all[1.min(n)..n.saturating_sub(1).max(1.min(n))]);
        v.clear();
        $make.rfold((), |(), e| v.push(see(e)));
        v.reverse();
        want!(what("rfold(), reversed".into()), v[..], all[..]);
        v.clear();
        $make.rev().for_each(|e| v.push(see(e)));
        v.reverse();
        want!(what("rev().for_each(), reversed".into()), v[..], all[..]);
        v.clear();
        v.extend($make.map(see));
        want!(what("extending a list".into()), v[..], all[..]);
        let mut it = $make;
        want!(what("try_fold() stopped at once".into()), it.try_fold(0, |_, e| Err::<u32, Seen>(see(e))).err(), at(0));
        want!(what("try_rfold() stopped at once".into()), it.try_rfold(0, |_, e| Err::<u32, Seen>(see(e))).err(), if n > 1 { back(0) } else { None });
        want!(what("all() false".into()), it.all(|_| false), n <= 2);
        want!(what("next() after all() stopped".into()), it.next().map(see), if n > 3 { at(2) } else { None });
        $t.evals += 8 + 12 * $points.len() as u64;
    }};
}
