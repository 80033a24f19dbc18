//! Operations run for their effect on memory alone, with user code that may panic or lie.
use crate::{engine::*, ops::*, types::*};
use palmtree::{Entry, MergeIter, PalmTree};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type LTree<C> = Tree<LKey, LVal, C>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum F {
    get(u16),
    get_linear(u16),
    iter,
    iter_back,
    iter_both,
    range(u16, u16),
    range_back(u16, u16),
    range_ex(u16, u16),
    clone,
    eq,
    insert(u16),
    insert_recursive(u16),
    remove(u16),
    remove_lowest,
    remove_highest,
    entry_insert(u16),
    entry_remove(u16),
    entry_drop(u16),
    entry_into_mut(u16),
    get_mut(u16),
    iter_mut,
    iter_mut_both,
    range_mut(u16, u16),
    range_mut_back(u16, u16),
    /// Ranges whose bounds are named by user code.
    range_named(u16, u16),
    range_mut_named(u16, u16),
    load(u16, u16),
    collect(u16, u16),
    extend(u16, u16),
    append_left(u16, u16),
    append_right(u16, u16),
    merge_left(u16, u16),
    merge_right(u16, u16),
    add(u16, u16),
    add_assign(u16, u16),
    from_std(u16, u16),
    merge_left_iter(u16, u16),
    merge_right_iter(u16, u16),
    /// As above, but going on with the iterator after a panic.
    iter_on(u8),
    iter_mut_on(u8),
    merge_on(u16, u16),
    /// Merging sequences whose production may panic.
    merge_inputs(u16, u16),
    merge_inputs_on(u16, u16),
    consume_on,
    consume,
    consume_both,
}
impl F {
    pub fn reads_only(self) -> bool {
        matches!(self, F::get(_) | F::get_linear(_) | F::iter | F::iter_back | F::iter_both | F::range(..) | F::range_back(..) | F::range_ex(..) | F::range_named(..) | F::clone | F::eq | F::iter_on(_))
    }
}
pub fn menu(probes: &[u16], few: bool) -> Vec<F> {
    use F::*;
    let mut v = vec![iter, iter_back, iter_both, clone, eq, remove_lowest, remove_highest, iter_mut, iter_mut_both];
    v.extend([load(9, 2), collect(6, 3), extend(5, 4), append_left(6, 3), append_right(7, 3), merge_left(3, 5), merge_right(1, 4), append_right(0, 1)]);
    v.extend([add(4, 3), add_assign(3, 4), add_assign(0, 1), from_std(6, 3), merge_left_iter(5, 3), merge_right_iter(6, 2), iter_on(0), iter_on(1), iter_on(2), iter_mut_on(2), merge_on(4, 3), merge_inputs(3, 2), merge_inputs_on(2, 3), consume_on]);
    for (i, &k) in probes.iter().enumerate() {
        v.extend([insert(k), insert_recursive(k), remove(k), entry_insert(k), entry_remove(k)]);
        if !few || i % 3 == 0 {
            v.extend([get(k), get_linear(k), entry_drop(k), entry_into_mut(k), get_mut(k)]);
            let hi = probes[(i + probes.len() / 2).min(probes.len() - 1)];
            v.extend([range(k, hi), range_back(k, hi), range_ex(k, hi.max(k + 1)), range_mut(k, hi), range_mut_back(k, hi)]);
            if i % 2 == 0 {
                v.extend([range_named(k, hi), range_mut_named(k, hi)]);
            }
        }
    }
    v
}
/// Pairs whose production is a call into user code.
fn input(n: u16, d: u16) -> impl Iterator<Item = (LKey, LVal)> {
    (1..=n).map(move |i| {
        call();
        (LKey::mk(i * d, 900_000 + i as u32), LVal::mk(900_000 + i as u32))
    })
}
fn touch(k: &LKey, v: &LVal) {
    see(k, v);
}
/// Bounds that are found by a call into user code.
struct Named(LKey, LKey);
impl std::ops::RangeBounds<LKey> for Named {
    fn start_bound(&self) -> std::ops::Bound<&LKey> {
        call();
        std::ops::Bound::Included(&self.0)
    }
    fn end_bound(&self) -> std::ops::Bound<&LKey> {
        call();
        std::ops::Bound::Included(&self.1)
    }
}
struct Steps {
    left: usize,
    panics: u32,
}
impl Steps {
    fn new(n: usize) -> Steps {
        Steps { left: n * 4 + 200, panics: 0 }
    }
    fn step(&mut self) -> Result<(), String> {
        self.left = self.left.checked_sub(1).ok_or("an iterator does not end")?;
        Ok(())
    }
}
/// Takes a step; a panic in it is no reason to stop using the iterator, unless it keeps panicking.
fn go_on<T>(s: &mut Steps, mut f: impl FnMut() -> Option<T>) -> Result<Option<T>, String> {
    loop {
        match catch_unwind(AssertUnwindSafe(&mut f)) {
            Ok(r) => return Ok(r),
            Err(p) if p.is::<Runaway>() => std::panic::resume_unwind(p),
            Err(_) => {
                s.panics += 1;
                if s.panics > 3 {
                    return Ok(None);
                }
            }
        }
    }
}
fn walk_on<'a>(n: usize, both: u8, mut it: impl DoubleEndedIterator<Item = (&'a LKey, &'a LVal)>) -> Result<(), String> {
    let mut s = Steps::new(n);
    let mut i = 0;
    while let Some((k, v)) = go_on(&mut s, || if both == 1 || both == 2 && i % 2 == 1 { it.next_back() } else { it.next() })? {
        touch(k, v);
        s.step()?;
        i += 1;
    }
    for _ in 0..2 {
        for back in [true, false] {
            if let Some((k, v)) = go_on(&mut s, || if back { it.next_back() } else { it.next() })? {
                touch(k, v)
            }
        }
    }
    Ok(())
}
fn walk_mut_on<'a>(n: usize, mut it: impl DoubleEndedIterator<Item = (&'a LKey, &'a mut LVal)>) -> Result<(), String> {
    let mut s = Steps::new(n);
    let mut seen: HashSet<usize> = HashSet::new();
    let mut i = 0;
    let mut ends = 0;
    while ends < 3 {
        match go_on(&mut s, || if i % 2 == 1 { it.next_back() } else { it.next() })? {
            None => ends += 1,
            Some((k, v)) => {
                touch(k, v);
                if !seen.insert(v as *mut LVal as usize) {
                    return Err("two mutable references to the same value handed out by one iterator".into());
                }
                v.set(779);
                s.step()?;
            }
        }
        i += 1;
    }
    Ok(())
}
fn walk<'a>(n: usize, both: u8, mut it: impl DoubleEndedIterator<Item = (&'a LKey, &'a LVal)>) -> Result<(), String> {
    let mut s = Steps::new(n);
    let mut i = 0;
    while let Some((k, v)) = if both == 1 || both == 2 && i % 2 == 1 { it.next_back() } else { it.next() } {
        touch(k, v);
        s.step()?;
        i += 1;
    }
    Ok(())
}
fn walk_mut<'a>(n: usize, both: u8, mut it: impl DoubleEndedIterator<Item = (&'a LKey, &'a mut LVal)>) -> Result<(), String> {
    let mut s = Steps::new(n);
    let mut seen: HashSet<usize> = HashSet::new();
    let mut keep: Vec<&'a mut LVal> = Vec::new();
    let mut i = 0;
    while let Some((k, v)) = if both == 1 || both == 2 && i % 2 == 1 { it.next_back() } else { it.next() } {
        touch(k, v);
        if !seen.insert(v as *mut LVal as usize) {
            return Err("two mutable references to the same value handed out by one iterator".into());
        }
        v.set(777);
        keep.push(v);
        s.step()?;
        i += 1;
    }
    for v in keep {
        v.set(778)
    }
    Ok(())
}
fn drain<C: Cfg>(t: LTree<C>, both: bool) -> Result<(), String> {
    let mut s = Steps::new(t.len());
    let mut it = t.into_iter();
    let mut i = 0;
    while let Some((k, v)) = if both && i % 2 == 1 { it.next_back() } else { it.next() } {
        touch(&k, &v);
        s.step()?;
        i += 1;
    }
    Ok(())
}
/// Runs one operation, touching everything it hands out.
pub fn raw<C: Cfg>(t: &mut LTree<C>, f: F) -> Result<(), String> {
    let n = t.len();
    let key = |k: u16| LKey::mk(k, 800_000);
    let val = || LVal::mk(800_000);
    match f {
        F::get(k) => {
            t.get(&key(k)).map(|v| v.v());
        }
        F::get_linear(k) => {
            t.get_linear(&key(k)).map(|v| v.v());
        }
        F::iter => walk(n, 0, t.iter())?,
        F::iter_back => walk(n, 1, t.iter())?,
        F::iter_both => walk(n, 2, t.iter())?,
        F::range(a, b) => walk(n, 0, t.range(key(a)..=key(b)))?,
        F::range_back(a, b) => walk(n, 1, t.range(key(a)..key(b)))?,
        F::range_ex(a, b) => walk(n, 2, t.range((std::ops::Bound::Excluded(key(a)), std::ops::Bound::Excluded(key(b)))))?,
        F::clone => drain(t.clone(), true)?,
        F::eq => {
            let o = t.iter().next().map(|(k, _)| LKey::mk(k.k(), 1)).is_some();
            // values of the ledger type are not comparable; compare the keys through the iterators
            t.iter().map(|e| e.0).eq(t.iter().map(|e| e.0));
            t.iter().map(|e| e.0).cmp(t.iter().map(|e| e.0));
            let _ = o;
        }
        F::insert(k) => {
            t.insert(key(k), val()).map(|v| v.v());
        }
        F::insert_recursive(k) => {
            t.insert_recursive(key(k), val()).map(|v| v.v());
        }
        F::remove(k) => {
            t.remove(&key(k)).map(|(k, v)| touch(&k, &v));
        }
        F::remove_lowest => {
            t.remove_lowest().map(|(k, v)| touch(&k, &v));
        }
        F::remove_highest => {
            t.remove_highest().map(|(k, v)| touch(&k, &v));
        }
        F::entry_insert(k) => match t.entry(key(k)) {
            Entry::Vacant(e) => {
                let r = e.insert(val());
                r.set(801_000);
            }
            Entry::Occupied(mut e) => {
                touch(e.key(), e.get());
                e.insert(val()).v();
                e.get_mut().set(802_000);
            }
        },
        F::entry_remove(k) => {
            if let Entry::Occupied(e) = t.entry(key(k)) {
                let (k, v) = e.remove_entry();
                touch(&k, &v);
            }
        }
        F::entry_drop(k) => match t.entry(key(k)) {
            Entry::Vacant(e) => {
                e.key().k();
            }
            Entry::Occupied(e) => touch(e.key(), e.get()),
        },
        F::entry_into_mut(k) => {
            if let Entry::Occupied(e) = t.entry(key(k)) {
                e.into_mut().set(803_000)
            }
        }
        F::get_mut(k) => {
            if let Some(v) = t.get_mut(&key(k)) {
                v.set(804_000)
            }
        }
        F::iter_mut => walk_mut(n, 0, t.iter_mut())?,
        F::iter_mut_both => walk_mut(n, 2, t.iter_mut())?,
        F::range_mut(a, b) => walk_mut(n, 0, t.range_mut(key(a)..=key(b)))?,
        F::range_mut_back(a, b) => walk_mut(n, 1, t.range_mut(key(a)..key(b)))?,
        F::range_named(a, b) => walk(n, 2, t.range(Named(key(a), key(b))))?,
        F::range_mut_named(a, b) => walk_mut(n, 2, t.range_mut(Named(key(a), key(b))))?,
        F::load(a, b) => *t = PalmTree::load(input(a, b)),
        F::collect(a, b) => *t = input(a, b).collect(),
        F::extend(a, b) => t.extend(input(a, b)),
        F::append_left(a, b) => t.append_left(PalmTree::load(input(a, b))),
        F::append_right(a, b) => t.append_right(PalmTree::load(input(a, b))),
        F::merge_left(a, b) => {
            let o = PalmTree::load(input(a, b));
            *t = PalmTree::merge_left(std::mem::take(t), o)
        }
        F::merge_right(a, b) => {
            let o = PalmTree::load(input(a, b));
            *t = PalmTree::merge_right(std::mem::take(t), o)
        }
        F::add(a, b) => *t = std::mem::take(t) + PalmTree::load(input(a, b)),
        F::add_assign(a, b) => *t += PalmTree::load(input(a, b)),
        F::from_std(a, b) => *t = PalmTree::from(input(a, b).collect::<std::collections::BTreeMap<_, _>>()),
        F::merge_left_iter(a, b) => {
            let o = PalmTree::load(input(a, b));
            let n = t.len() + o.len();
            // abandoned before its end
            for (k, v) in PalmTree::merge_left_iter(std::mem::take(t), o).take(n / 2) {
                touch(&k, &v)
            }
        }
        F::merge_right_iter(a, b) => {
            let o = PalmTree::load(input(a, b));
            let mut s = Steps::new(t.len() + o.len());
            for (k, v) in PalmTree::merge_right_iter(std::mem::take(t), o) {
                touch(&k, &v);
                s.step()?;
            }
        }
        F::iter_on(both) => walk_on(n, both, t.iter())?,
        F::iter_mut_on(_) => walk_mut_on(n, t.iter_mut())?,
        F::merge_on(a, b) => {
            let o = PalmTree::load(input(a, b));
            let mut s = Steps::new(t.len() + o.len());
            let mut i = PalmTree::merge_left_iter(std::mem::take(t), o);
            while let Some((k, v)) = go_on(&mut s, || i.next())? {
                touch(&k, &v);
                s.step()?;
            }
        }
        F::merge_inputs(a, b) => {
            for (k, v) in MergeIter::merge(input(a, 2), input(b, 3), |a, b| a.0 > b.0, |a, b| a.0 == b.0) {
                touch(&k, &v)
            }
        }
        F::merge_inputs_on(a, b) => {
            let mut s = Steps::new(a as usize + b as usize);
            let mut i = MergeIter::merge(input(a, 3), input(b, 2), |a, b| a.0 >= b.0, |a, b| a.0 == b.0);
            while let Some((k, v)) = go_on(&mut s, || i.next())? {
                touch(&k, &v);
                s.step()?;
            }
        }
        F::consume_on => {
            let mut s = Steps::new(n);
            let mut it = std::mem::take(t).into_iter();
            let mut i = 0;
            while let Some((k, v)) = go_on(&mut s, || if i % 3 == 2 { it.next_back() } else { it.next() })? {
                touch(&k, &v);
                s.step()?;
                i += 1;
            }
        }
        F::consume => drain(std::mem::take(t), false)?,
        F::consume_both => drain(std::mem::take(t), true)?,
    }
    Ok(())
}
/// Everything one may still want to do with a map after something went wrong, ending with its destruction.
pub fn aftermath<C: Cfg>(mut t: LTree<C>, probes: &[u16], strict: bool) -> Result<(), String> {
    let mut go = |t: &mut LTree<C>, f: F| -> Result<(), String> {
        match catch_unwind(AssertUnwindSafe(|| raw(t, f))) {
            Ok(r) => r.map_err(|e| format!("later, in {:?}: {}", f, e)),
            Err(p) if p.is::<Runaway>() => Err(format!("later, {:?} does not terminate", f)),
            Err(p) if strict => Err(format!("later, {:?} panics: {}", f, panic_text(p))),
            Err(_) => Ok(()),
        }
    };
    use F::*;
    let (lo, mid, hi) = (probes[0], probes[probes.len() / 2], probes[probes.len() - 1]);
    for f in [iter, iter_back, iter_both, clone, range(lo, hi), range_back(lo, mid), range_ex(mid, hi.max(mid + 1)), iter_mut, iter_mut_both, range_mut(mid, hi), range_mut_back(lo, hi)] {
        go(&mut t, f)?;
    }
    for &k in probes {
        go(&mut t, get(k))?;
        go(&mut t, get_linear(k))?;
    }
    for (i, &k) in probes.iter().enumerate() {
        match i % 4 {
            0 => go(&mut t, insert(k))?,
            1 => go(&mut t, remove(k))?,
            2 => go(&mut t, insert_recursive(k))?,
            _ => go(&mut t, entry_insert(k))?,
        }
    }
    let mut c = t.clone();
    for f in [append_right(4, 3), iter, remove_highest, extend(6, 5), consume_both] {
        go(&mut c, f)?;
    }
    drop(c);
    for i in 0..t.len() + 2 {
        go(&mut t, if i % 3 == 2 { remove_highest } else { remove_lowest })?;
    }
    for f in [insert(mid), insert_recursive(lo), insert(hi), entry_remove(mid), iter, iter_mut_both, consume] {
        go(&mut t, f)?;
    }
    Ok(())
}
/// Runs `f` with the fault settings armed; tells how it ended and how many calls it made.
pub enum End {
    Done,
    Injected,
    Other(String),
    Runaway,
    Bad(String),
}
pub fn armed<R>(panic_at: u64, set: impl FnOnce(&Faults), f: impl FnOnce() -> Result<R, String>) -> (End, u64) {
    FAULTS.with(|x| {
        x.calls.set(0);
        x.panic_at.set(panic_at);
        x.lies.set([(u64::MAX, 0); 3]);
        x.tail.set((u64::MAX, 0));
        x.told.set(0);
        x.budget.set(300_000);
        x.drops.set(0);
        x.drop_at.set(u64::MAX);
        set(x);
        x.armed.set(true);
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let n = FAULTS.with(|x| {
        x.armed.set(false);
        x.calls.get()
    });
    let e = match r {
        Ok(Ok(_)) => End::Done,
        Ok(Err(e)) => End::Bad(e),
        Err(p) if p.is::<Injected>() => End::Injected,
        Err(p) if p.is::<Runaway>() => End::Runaway,
        Err(p) => End::Other(panic_text(p)),
    };
    (e, n)
}
