//! Filling and emptying maps of any size in every order, with checks after every step.
use crate::{engine::*, types::*, want};
use palmtree::{Entry, PalmTree, TreeConfig};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// A key with room for more than 65536 values, which counts its comparisons and clones.
pub struct NKey(pub u32);
fn cmps() -> u64 {
    TLS.with(|t| t.cmps.get())
}
fn bump() {
    TLS.with(|t| t.cmps.set(t.cmps.get() + 1))
}
impl Clone for NKey {
    fn clone(&self) -> Self {
        TLS.with(|t| t.kclones.set(t.kclones.get() + 1));
        NKey(self.0)
    }
}
impl PartialEq for NKey {
    fn eq(&self, o: &Self) -> bool {
        bump();
        self.0 == o.0
    }
}
impl Eq for NKey {}
impl PartialOrd for NKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for NKey {
    fn cmp(&self, o: &Self) -> Ordering {
        bump();
        self.0.cmp(&o.0)
    }
}
pub type NTree<C> = PalmTree<NKey, Val, C>;

pub const GROWS: &[&str] = &["ascend", "descend", "outside_in", "inside_out", "bitrev", "stride", "rec_ascend", "rec_descend", "rec_inside_out", "rec_bitrev", "entry_ascend", "entry_bitrev", "load", "collect", "append_right", "append_left", "load_then_fill"];
pub const DRAINS: &[&str] = &["lowest", "highest", "ends", "ascend", "descend", "inside_out", "bitrev", "evens_odds", "entry_ascend", "entry_descend", "front", "back", "both"];

/// The i-th of n numbers in a given order.
pub fn order(how: &str, n: usize) -> Vec<usize> {
    match how {
        "descend" => (0..n).rev().collect(),
        "outside_in" => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        "inside_out" => {
            let mut v = order("outside_in", n);
            v.reverse();
            v
        }
        "bitrev" => {
            let bits = usize::BITS - n.max(1).leading_zeros();
            (0..1usize << bits).map(|i| i.reverse_bits() >> (usize::BITS - bits)).filter(|i| *i < n).collect()
        }
        "stride" => {
            let mut s = n * 5 / 13 + 1;
            while gcd(s, n.max(1)) != 1 {
                s += 1
            }
            (0..n).map(|i| i * s % n).collect()
        }
        "evens_odds" => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        _ => (0..n).collect(),
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// Stored keys are odd numbers; even ones are always absent.
pub fn key(i: usize) -> NKey {
    NKey(2 * i as u32 + 1)
}
#[derive(Clone, Copy)]
pub struct Mode {
    /// Compare everything with the model after every step that lands on one of these sizes.
    pub at: fn(usize) -> bool,
    /// Bound the comparisons made by every step, and allow no value to be duplicated.
    pub cost: Option<Cost>,
}
#[derive(Clone, Copy)]
pub struct Cost {
    pub b: usize,
    pub l: usize,
}
fn log2(n: usize) -> u64 {
    (usize::BITS - n.max(1).leading_zeros()) as u64
}
impl Cost {
    /// Levels a tree can have after `n` insertions: every split leaves half a node on either side.
    pub fn levels(&self, n: usize) -> u64 {
        let half = self.b / 2;
        let mut levels = 2;
        let mut reach = 1usize;
        while reach < n.max(1) {
            reach *= half;
            levels += 1;
        }
        levels
    }
    /// Comparisons allowed for one walk from the root to an entry, after `n` insertions altogether.
    pub fn walk(&self, n: usize) -> u64 {
        let levels = self.levels(n);
        // twice what one binary search per level takes, for good measure
        2 * (levels * (log2(self.b) + 1) + log2(self.l) + 1) + 8
    }
}
pub struct Meter {
    pub cmps: u64,
    vclones: u64,
    allocs: i64,
}
impl Meter {
    pub fn start() -> Meter {
        Meter { cmps: cmps(), vclones: TLS.with(|t| t.vclones.get()), allocs: live_allocs() }
    }
    pub fn cmps(&self) -> u64 {
        cmps() - self.cmps
    }
    pub fn vclones(&self) -> u64 {
        TLS.with(|t| t.vclones.get()) - self.vclones
    }
    pub fn allocs(&self) -> i64 {
        live_allocs() - self.allocs
    }
    /// At most `n` comparisons, and no value duplicated.
    pub fn within(&self, what: &dyn Fn() -> String, n: u64, t: &mut Tally) -> Result<(), String> {
        let c = self.cmps();
        t.evals += 1;
        if c > n {
            return Err(format!("{} made {} key comparisons, more than {}", what(), c, n));
        }
        if self.vclones() > 0 {
            return Err(format!("{} duplicated {} values of a map which shares none", what(), self.vclones()));
        }
        Ok(())
    }
}

/// Everything about the map against the model.
pub fn whole<C: TreeConfig<NKey, Val>>(t: &mut NTree<C>, m: &BTreeMap<u32, u32>) -> Result<(), String> {
    tick();
    let mut it = t.iter_mut();
    for (i, (k, v)) in m.iter().enumerate() {
        want!(format!("mutable entry number {}", i), it.next().map(|(k, v)| (k.0, v.0)), Some((*k, *v)));
    }
    want!("a further mutable entry", it.next().map(|(k, v)| (k.0, v.0)), None);
    let mut it = t.iter_mut();
    for (i, (k, v)) in m.iter().rev().enumerate() {
        want!(format!("mutable entry number {} from the back", i), it.next_back().map(|(k, v)| (k.0, v.0)), Some((*k, *v)));
    }
    want!("a further mutable entry from the back", it.next_back().map(|(k, v)| (k.0, v.0)), None);
    // every so many keys in every way there is to get at one
    let step = m.len() / if m.len() < 1000 { 8 } else { 150 } + 1;
    for (k, _) in m.iter().skip(m.len() % step).step_by(step) {
        for k in [k - 1, *k] {
            every_way(t, m, k)?;
        }
    }
    let t = &*t;
    want!("len()", t.len(), m.len());
    want!("is_empty()", t.is_empty(), m.is_empty());
    let mut it = t.iter();
    for (i, (k, v)) in m.iter().enumerate() {
        want!(format!("entry number {}", i), it.next().map(|(k, v)| (k.0, v.0)), Some((*k, *v)));
    }
    want!("a further entry", it.next().map(|(k, v)| (k.0, v.0)), None);
    let mut it = t.iter();
    for (i, (k, v)) in m.iter().rev().enumerate() {
        want!(format!("entry number {} from the back", i), it.next_back().map(|(k, v)| (k.0, v.0)), Some((*k, *v)));
    }
    want!("a further entry from the back", it.next_back().map(|(k, v)| (k.0, v.0)), None);
    for (k, v) in m.iter() {
        want!(format!("get({})", k), t.get(&NKey(*k)).map(|v| v.0), Some(*v));
        want!(format!("get({})", k + 1), t.get(&NKey(k + 1)).map(|v| v.0), None);
    }
    Ok(())
}
/// What surrounds one key, against the model.
fn around<C: TreeConfig<NKey, Val>>(t: &mut NTree<C>, m: &BTreeMap<u32, u32>, k: u32) -> Result<(), String> {
    want!(format!("get_mut({})", k), t.get_mut(&NKey(k)).map(|v| v.0), m.get(&k).copied());
    want!("len()", t.len(), m.len());
    want!(format!("get({})", k), t.get(&NKey(k)).map(|v| v.0), m.get(&k).copied());
    want!(format!("lowest from {}", k), t.range(NKey(k)..).next().map(|(k, v)| (k.0, v.0)), m.range(k..).next().map(|(k, v)| (*k, *v)));
    want!(format!("highest below {}", k), t.range(..NKey(k)).next_back().map(|(k, v)| (k.0, v.0)), m.range(..k).next_back().map(|(k, v)| (*k, *v)));
    Ok(())
}
/// Every way to reach one key and its neighbours.
fn every_way<C: TreeConfig<NKey, Val>>(t: &mut NTree<C>, m: &BTreeMap<u32, u32>, k: u32) -> Result<(), String> {
    use std::ops::Bound::*;
    let have = m.get(&k).copied();
    around(t, m, k)?;
    want!(format!("get_linear({})", k), t.get_linear(&NKey(k)).map(|v| v.0), have);
    let e = match t.entry(NKey(k)) {
        Entry::Occupied(mut e) => Some((e.key().0, e.get().0, e.get_mut().0)),
        Entry::Vacant(_) => None,
    };
    want!(format!("entry({})", k), e, have.map(|v| (k, v, v)));
    if let Some(v) = have {
        want!(format!("[{}]", k), t[&NKey(k)].0, v);
        t[&NKey(k)].0 += 1;
        want!(format!("get({}) after writing", k), t.get(&NKey(k)).map(|v| v.0), Some(v + 1));
        t[&NKey(k)].0 = v;
    }
    let show = |o: Option<(&u32, &u32)>| o.map(|(k, v)| (*k, *v));
    for (lo, hi) in [(Included(k), Unbounded), (Excluded(k), Unbounded), (Unbounded, Included(k)), (Unbounded, Excluded(k)), (Included(k), Included(k + 3)), (Excluded(k), Excluded(k + 4))] {
        let (first, last) = (show(m.range((lo, hi)).next()), show(m.range((lo, hi)).next_back()));
        let r = || (lo.map(NKey), hi.map(NKey));
        want!(format!("first of {:?}", (lo, hi)), t.range(r()).next().map(|(k, v)| (k.0, v.0)), first);
        want!(format!("last of {:?}", (lo, hi)), t.range(r()).next_back().map(|(k, v)| (k.0, v.0)), last);
        want!(format!("first of mutable {:?}", (lo, hi)), t.range_mut(r()).next().map(|(k, v)| (k.0, v.0)), first);
        want!(format!("last of mutable {:?}", (lo, hi)), t.range_mut(r()).next_back().map(|(k, v)| (k.0, v.0)), last);
    }
    Ok(())
}
pub struct Run<'a, C: TreeConfig<NKey, Val>> {
    pub t: NTree<C>,
    pub m: BTreeMap<u32, u32>,
    pub mode: Mode,
    /// Insertions so far.
    pub n: usize,
    pub tally: &'a mut Tally,
    ctr: u32,
}
impl<'a, C: TreeConfig<NKey, Val>> Run<'a, C> {
    pub fn new(mode: Mode, tally: &'a mut Tally) -> Self {
        Run { t: PalmTree::new(), m: BTreeMap::new(), mode, n: 0, tally, ctr: 0 }
    }
    fn after(&mut self, k: u32, what: &dyn Fn() -> String) -> Result<(), String> {
        self.tally.transitions += 1;
        if self.tally.transitions % 64 == 0 {
            tick();
        }
        let r = if (self.mode.at)(self.m.len()) {
            self.tally.states += 1;
            whole(&mut self.t, &self.m)
        } else {
            around(&mut self.t, &self.m, k)
        };
        r.map_err(|e| format!("after {} ({} entries): {}", what(), self.m.len(), e))
    }
    fn spent(&mut self, x: &Meter, insert: bool, what: &dyn Fn() -> String) -> Result<(), String> {
        if let Some(c) = self.mode.cost {
            let w = c.walk(self.n);
            // an insertion which splits nodes walks once more for every node it adds
            let w = if insert { w * (2 + x.allocs().max(0) as u64) } else { w };
            x.within(what, w, self.tally)?;
        }
        Ok(())
    }
    pub fn insert(&mut self, how: &str, i: usize) -> Result<(), String> {
        let k = key(i).0;
        self.ctr += 1;
        self.n += 1;
        let c = self.ctr;
        let what = || format!("{} insertion of {}", how, k);
        let x = Meter::start();
        let got = if how.starts_with("rec") {
            self.t.insert_recursive(key(i), Val(c)).map(|v| v.0)
        } else if how.starts_with("entry") {
            match self.t.entry(key(i)) {
                Entry::Vacant(e) => {
                    let v = e.insert(Val(c - 1));
                    v.0 += 1;
                    None
                }
                Entry::Occupied(mut e) => Some(e.insert(Val(c)).0),
            }
        } else {
            self.t.insert(key(i), Val(c)).map(|v| v.0)
        };
        self.spent(&x, true, &what)?;
        want!(what(), got, self.m.insert(k, c));
        self.after(k, &what)
    }
    pub fn grow(&mut self, how: &str, n: usize) -> Result<(), String> {
        let what = || format!("{} of {}", how, n);
        match how {
            "load" | "collect" | "append_left" | "append_right" => {
                let x = Meter::start();
                let pairs = |v: Vec<usize>| v.into_iter().map(|i| (key(i), Val(i as u32)));
                let half = n / 2;
                let r: NTree<C> = match how {
                    "load" => PalmTree::load(pairs((0..n).collect())),
                    "collect" => pairs(order("bitrev", n)).collect(),
                    "append_left" => {
                        let mut r = PalmTree::load(pairs((half..n).collect()));
                        r.append_left(PalmTree::load(pairs((0..half).collect())));
                        r
                    }
                    _ => {
                        let mut r = PalmTree::load(pairs((0..n).step_by(2).collect()));
                        r.append_right(PalmTree::load(pairs((1..n).step_by(2).collect())));
                        r
                    }
                };
                self.t = r;
                self.n += n;
                if let Some(c) = self.mode.cost {
                    let w = if how == "collect" { n as u64 * 3 * c.walk(n) } else { 8 * n as u64 + 16 };
                    x.within(&what, w, self.tally)?;
                }
                self.m = (0..n).map(|i| (key(i).0, i as u32)).collect();
                self.ctr = n as u32;
                self.tally.transitions += 1;
                self.tally.states += 1;
                whole(&mut self.t, &self.m).map_err(|e| format!("after {}: {}", what(), e))?;
            }
            "load_then_fill" => {
                // every other key by bulk, the rest one at a time
                self.t = PalmTree::load((0..n).step_by(2).map(|i| (key(i), Val(i as u32))));
                self.m = (0..n).step_by(2).map(|i| (key(i).0, i as u32)).collect();
                self.ctr = n as u32;
                self.n += n;
                for i in order("stride", n) {
                    if i % 2 == 1 {
                        self.insert("plain", i)?;
                    }
                }
            }
            _ => {
                let o = how.strip_prefix("rec_").or(how.strip_prefix("entry_")).unwrap_or(how);
                for i in order(o, n) {
                    self.insert(how, i)?;
                }
            }
        }
        Ok(())
    }
    pub fn drain(&mut self, how: &str) -> Result<(), String> {
        let all: Vec<u32> = self.m.keys().copied().collect();
        match how {
            "front" | "back" | "both" => {
                let x = Meter::start();
                let mut it = std::mem::take(&mut self.t).into_iter();
                let mut i = 0;
                while !self.m.is_empty() {
                    want!("remaining length", it.len(), self.m.len());
                    let front = how == "front" || how == "both" && i % 2 == 0;
                    let (got, exp) = if front { (it.next(), self.m.pop_first()) } else { (it.next_back(), self.m.pop_last()) };
                    want!(format!("entry number {} drained ({})", i, how), got.map(|(k, v)| (k.0, v.0)), exp);
                    i += 1;
                    if i % 64 == 0 {
                        tick();
                    }
                }
                want!("a further entry", it.next().map(|(k, _)| k.0), None);
                want!("a further entry from the back", it.next_back().map(|(k, _)| k.0), None);
                if self.mode.cost.is_some() {
                    x.within(&|| format!("draining ({})", how), 8 * i as u64 + 16, self.tally)?;
                }
                self.tally.transitions += i as u64;
            }
            "lowest" | "highest" | "ends" => {
                for i in 0..all.len() {
                    let low = how == "lowest" || how == "ends" && i % 2 == 0;
                    let x = Meter::start();
                    let (got, exp) = if low { (self.t.remove_lowest(), self.m.pop_first()) } else { (self.t.remove_highest(), self.m.pop_last()) };
                    let what = || format!("removing the {}", if low { "lowest" } else { "highest" });
                    self.spent(&x, false, &what)?;
                    want!(what(), got.map(|(k, v)| (k.0, v.0)), exp);
                    let k = exp.unwrap().0;
                    self.after(k, &what)?;
                }
                want!("removing from the empty map", (self.t.remove_lowest().is_none(), self.t.remove_highest().is_none()), (true, true));
            }
            _ => {
                let o = how.strip_prefix("entry_").unwrap_or(how);
                for i in order(o, all.len()) {
                    let k = all[i];
                    let what = || format!("removing {}", k);
                    let x = Meter::start();
                    let got = if o != how {
                        match self.t.entry(NKey(k)) {
                            Entry::Occupied(e) => Some(e.remove_entry()),
                            Entry::Vacant(_) => None,
                        }
                    } else {
                        self.t.remove(&NKey(k))
                    };
                    self.spent(&x, false, &what)?;
                    want!(what(), got.map(|(k, v)| (k.0, v.0)), self.m.remove(&k).map(|v| (k, v)));
                    want!(format!("removing {} again", k), self.t.remove(&NKey(k)).is_none(), true);
                    self.after(k, &what)?;
                }
            }
        }
        whole(&mut self.t, &self.m).map_err(|e| format!("after draining ({}): {}", how, e))
    }
    /// The cost of every kind of access to every n-th key and its absent neighbour.
    pub fn accesses(&mut self, step: usize) -> Result<(), String> {
        let c = self.mode.cost.expect("cost");
        let w = c.walk(self.n);
        let all: Vec<u32> = self.m.keys().copied().step_by(step).collect();
        for k in all.into_iter().flat_map(|k| [k - 1, k, k + 1]) {
            let have = self.m.contains_key(&k);
            tick();
            macro_rules! cost {
                ($what:expr, $n:expr, $e:expr) => {{
                    let x = Meter::start();
                    let r = $e;
                    x.within(&|| format!("{} {}", $what, k), $n, self.tally)?;
                    if r != have {
                        return Err(format!("{} {}: {}", $what, k, r));
                    }
                }};
            }
            cost!("get", w, self.t.get(&NKey(k)).is_some());
            cost!("get_mut", w, self.t.get_mut(&NKey(k)).is_some());
            cost!("entry", w, matches!(self.t.entry(NKey(k)), Entry::Occupied(_)));
            cost!("range from", 2 * w, self.t.range(NKey(k)..).next().map(|e| e.0 .0) == Some(k));
            cost!("range to", 2 * w, self.t.range(..=NKey(k)).next_back().map(|e| e.0 .0) == Some(k));
            cost!("range between", 2 * w, self.t.range((std::ops::Bound::Excluded(NKey(k.wrapping_sub(1).min(k))), std::ops::Bound::Excluded(NKey(k + 1)))).next().is_some_and(|e| e.0 .0 == k && k > 0) == have && have);
            cost!("range_mut from", 2 * w, self.t.range_mut(NKey(k)..).next().map(|e| e.0 .0) == Some(k));
            cost!("range_mut to", 2 * w, self.t.range_mut(..=NKey(k)).next_back().map(|e| e.0 .0) == Some(k));
            if have {
                cost!("overwrite", 2 * w, self.t.insert(NKey(k), Val(self.m[&k])).is_some());
                cost!("recursive overwrite", 2 * w, self.t.insert_recursive(NKey(k), Val(self.m[&k])).is_some());
                cost!("index_mut", 2 * w, self.t[&NKey(k)].0 == self.m[&k]);
            }
        }
        let n = self.m.len() as u64;
        let x = Meter::start();
        want!("entries iterated", self.t.iter().count() as u64, n);
        want!("entries iterated from the back", self.t.iter().rev().count() as u64, n);
        want!("entries iterated mutably", self.t.iter_mut().count() as u64, n);
        x.within(&|| "iterating three times".into(), 12 * n + 16, self.tally)?;
        Ok(())
    }
}
