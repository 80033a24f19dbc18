//! C16: comparisons stay logarithmic, and nothing unshared is duplicated.
use mc::{bounds::*, cfg_dispatch, engine::*, faults::F, grow::*, ops::*, pages, plans::*, types::*, want, with_cfg};
use palmtree::{Entry, PalmTree, TreeConfig};
use std::ops::Bound;

/// A tree with the same nodes which shares none of them.
fn alone<C: Cfg>(t: &Tree<Key, Val, C>) -> Tree<Key, Val, C> {
    let mut c = t.clone();
    c.iter_mut();
    c
}
/// Runs one operation on a map of `len` entries and returns how many comparisons it may make, in walks and in steps.
fn run<C: Cfg>(t: &mut Tree<Key, Val, C>, f: F) -> (u64, u64, bool) {
    let key = |k: u16| Key { k, tag: 0 };
    let n = t.len() as u64;
    let mut walks = 1;
    let mut steps = 0;
    let mut grows = false;
    match f {
        F::get(k) => drop(t.get(&key(k))),
        F::get_mut(k) => drop(t.get_mut(&key(k))),
        F::iter => {
            t.iter().count();
            steps = n
        }
        F::iter_back => {
            t.iter().rev().count();
            steps = n
        }
        F::iter_mut => {
            t.iter_mut().map(|e| e.1 .0 += 0).count();
            steps = n
        }
        F::iter_mut_both => {
            let mut it = t.iter_mut();
            while it.next().is_some() && it.next_back().is_some() {}
            steps = n
        }
        F::range(a, b) => {
            t.range(key(a)..=key(b)).next();
            walks = 2
        }
        F::range_back(a, b) => {
            t.range(key(a)..key(b)).next_back();
            walks = 2
        }
        F::range_ex(a, b) => {
            t.range((Bound::Excluded(key(a)), Bound::Excluded(key(b)))).next();
            walks = 2
        }
        F::range_mut(a, b) => {
            t.range_mut(key(a)..=key(b)).next();
            walks = 2
        }
        F::range_mut_back(a, b) => {
            t.range_mut((Bound::Excluded(key(a)), Bound::Included(key(b)))).next_back();
            walks = 2
        }
        F::insert(k) => {
            t.insert(key(k), Val(1));
            grows = true
        }
        F::insert_recursive(k) => {
            t.insert_recursive(key(k), Val(1));
            grows = true
        }
        F::entry_insert(k) => {
            match t.entry(key(k)) {
                Entry::Vacant(e) => drop(e.insert(Val(1))),
                Entry::Occupied(mut e) => drop(e.insert(Val(1))),
            }
            grows = true
        }
        F::entry_remove(k) => {
            if let Entry::Occupied(e) = t.entry(key(k)) {
                e.remove();
            }
        }
        F::entry_into_mut(k) => {
            if let Entry::Occupied(e) = t.entry(key(k)) {
                e.into_mut().0 = 3
            }
        }
        F::remove(k) => drop(t.remove(&key(k))),
        F::remove_lowest => drop(t.remove_lowest()),
        F::remove_highest => drop(t.remove_highest()),
        F::append_left(a, d) => {
            t.append_left(PalmTree::load((1..=a).map(|i| (key(i * d), Val(2)))));
            steps = n + a as u64
        }
        F::append_right(a, d) => {
            t.append_right(PalmTree::load((1..=a).map(|i| (key(i * d), Val(2)))));
            steps = n + a as u64
        }
        F::merge_left(a, d) => {
            let o = PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            *t = PalmTree::merge_left(std::mem::take(t), o);
            steps = n + a as u64
        }
        F::merge_right(a, d) => {
            let o = PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            *t = PalmTree::merge_right(std::mem::take(t), o);
            steps = n + a as u64
        }
        F::add(a, d) => {
            *t = std::mem::take(t) + PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            steps = n + a as u64
        }
        F::add_assign(a, d) => {
            *t += PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            steps = n + a as u64
        }
        F::merge_left_iter(a, d) => {
            let o = PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            PalmTree::merge_left_iter(std::mem::take(t), o).count();
            steps = n + a as u64
        }
        F::merge_right_iter(a, d) => {
            let o = PalmTree::load((1..=a).map(|i| (key(i * d), Val(2))));
            PalmTree::merge_right_iter(std::mem::take(t), o).count();
            steps = n + a as u64
        }
        F::extend(a, d) => {
            t.extend((1..=a).map(|i| (key(i * d), Val(2))));
            walks = a as u64;
            grows = true
        }
        F::collect(a, d) => {
            *t = std::mem::take(t).into_iter().chain((1..=a).map(|i| (key(i * d), Val(2)))).collect();
            walks = n + a as u64;
            grows = true
        }
        F::load(..) => {
            *t = PalmTree::load(std::mem::take(t));
            steps = n
        }
        F::iter_both => {
            let mut it = t.iter();
            while it.next().is_some() && it.next_back().is_some() {}
            steps = n
        }
        F::get_linear(k) => {
            t.get_linear(&key(k));
            steps = n
        }
        F::consume => {
            std::mem::take(t).into_iter().count();
            steps = n
        }
        F::consume_both => {
            let mut it = std::mem::take(t).into_iter();
            while it.next().is_some() && it.next_back().is_some() {}
            steps = n
        }
        F::eq => {
            let _ = (*t == *t, (*t).cmp(t));
            steps = 2 * n
        }
        _ => {
            *t = std::mem::take(t).into_iter().collect::<std::collections::BTreeMap<_, _>>().into();
            // collecting into a standard map sorts; count only what is left
            steps = 40 * n
        }
    }
    (walks, steps, grows)
}
/// An insertion may walk once for every node it adds, and twice more; anything that visits or adds many entries
/// may do as much for each of them.
fn allow(w: u64, walks: u64, steps: u64, grows: bool, x: &Meter) -> u64 {
    let added = if grows || steps > 0 { x.allocs().max(0) as u64 } else { 0 };
    w * (walks * if grows { 2 + added } else { 1 } + 2 * steps + if steps > 0 { added } else { 0 })
}
fn menu16(probes: &[u16], max: u16) -> Vec<F> {
    use F::*;
    let mut v = vec![iter, iter_back, iter_mut, iter_mut_both, remove_lowest, remove_highest, consume, consume_both, eq, clone];
    v.extend([append_left(5, 2), append_right(6, 3), merge_left(4, 3), merge_right(4, 1), append_left(0, 1), append_right(0, 1), append_left(1, 4), append_right(1, 2)]);
    v.extend([add(3, 3), add_assign(4, 2), add_assign(0, 1), add_assign(1, 3), merge_left_iter(3, 2), merge_right_iter(4, 2), extend(5, 2), collect(2, 3), load(0, 0), iter_both]);
    for &k in probes {
        v.extend([get(k), get_linear(k), get_mut(k), insert(k), insert_recursive(k), entry_insert(k), entry_remove(k), entry_into_mut(k), remove(k)]);
        v.extend([range(k, max + 1), range(0, k), range_back(k, max + 1), range_back(0, k), range_ex(k, max + 1), range_mut(k, k), range_mut_back(0, k)]);
    }
    v
}

// ---------------------------------------------------------------- nodes touched

type Small<C> = PalmTree<NKey, Val, C>;
/// How many nodes an operation may touch: so many walks from the root to a leaf, and those for entries visited.
fn path<C: Cfg>(n: usize) -> u64 {
    Cost { b: C::B, l: C::L }.levels(n) + 2
}
fn touching<C: Cfg + TreeConfig<NKey, Val>>(t: &mut Small<C>, made: usize, keys: &[u32], shared: bool, tally: &mut Tally) -> Result<(), String> {
    let p = path::<C>(made + 200);
    let len = t.len();
    let mut check = |what: &str, k: u32, allowed: u64, n: u64| {
        tally.evals += 1;
        tally.transitions += 1;
        tally.count("operations whose nodes were counted", 1);
        if n > allowed {
            return Err(format!("{} {}, on a map of {} entries, touched {} nodes, more than {}", what, k, len, n, allowed));
        }
        Ok(())
    };
    // `once`: one walk; removals and insertions change what is on the way as well
    let (none, once, twice) = (2, 2 * p + 4, 4 * p + 8);
    macro_rules! op {
        ($what:expr, $k:expr, $n:expr, $e:expr) => {{
            let (r, n) = pages::touched(|| $e);
            check($what, $k, $n, n)?;
            r
        }};
    }
    want!("len()", op!("len()", 0, none, t.len()), len);
    op!("is_empty()", 0, none, t.is_empty());
    op!("iter().next()", 0, twice, t.iter().next().map(|e| e.0 .0));
    op!("iter().next_back()", 0, twice, t.iter().next_back().map(|e| e.0 .0));
    op!("iter_mut().next()", 0, twice, t.iter_mut().next().map(|e| e.0 .0));
    op!("iter_mut().next_back()", 0, twice, t.iter_mut().next_back().map(|e| e.0 .0));
    op!("iter().size_hint()", 0, twice, t.iter().size_hint());
    op!("iter().clone().next()", 0, twice, t.iter().clone().next().map(|e| e.0 .0));
    // the nodes of the map and what else there may be on pages of its own
    let all = pages::blocks();
    op!("iter(), to the end", 0, all + twice, t.iter().count());
    op!("iter().rev(), to the end", 0, all + twice, t.iter().rev().count());
    op!("iter_mut(), to the end", 0, all + twice, t.iter_mut().count());
    if shared {
        let c = op!("clone()", 0, none, pages::apart(|| t.clone()));
        op!("dropping a clone", 0, none, drop(c));
    }
    for &k in keys {
        let here = t.get(&NKey(k)).is_some();
        op!("get", k, once, t.get(&NKey(k)).is_some());
        op!("get_linear", k, once, t.get_linear(&NKey(k)).is_some());
        op!("get_mut", k, once, t.get_mut(&NKey(k)).is_some());
        op!("entry", k, once, matches!(t.entry(NKey(k)), Entry::Occupied(_)));
        op!("range from", k, twice, t.range(NKey(k)..).next().map(|e| e.0 .0));
        op!("range above", k, twice, t.range((Bound::Excluded(NKey(k)), Bound::Unbounded)).next().map(|e| e.0 .0));
        op!("range up to", k, twice, t.range(..=NKey(k)).next_back().map(|e| e.0 .0));
        op!("range below", k, twice, t.range(..NKey(k)).next_back().map(|e| e.0 .0));
        op!("end of the range from", k, twice, t.range(NKey(k)..).next_back().map(|e| e.0 .0));
        op!("start of the range below", k, twice, t.range(..NKey(k)).next().map(|e| e.0 .0));
        op!("range_mut from", k, twice, t.range_mut(NKey(k)..).next().map(|e| e.0 .0));
        op!("range_mut below", k, twice, t.range_mut(..NKey(k)).next_back().map(|e| e.0 .0));
        op!("five entries from", k, 2 * twice, t.range(NKey(k)..).take(5).count());
        op!("five entries below", k, 2 * twice, t.range_mut(..NKey(k)).rev().take(5).count());
        op!("a window from", k, 2 * twice, t.range(NKey(k)..NKey(k + 7)).count());
        if here {
            op!("index", k, once, t[&NKey(k)].0);
            op!("overwriting", k, once, t.insert(NKey(k), Val(1)).is_some());
            op!("overwriting (recursively)", k, once, t.insert_recursive(NKey(k), Val(2)).is_some());
            op!("removal", k, twice, t.remove(&NKey(k)).is_some());
            op!("removal of the absent", k, once, t.remove(&NKey(k)).is_some());
            op!("insertion (recursive)", k, twice, t.insert_recursive(NKey(k), Val(1)).is_some());
            op!("removal by entry", k, twice, if let Entry::Occupied(e) = t.entry(NKey(k)) { e.remove_entry().0 .0 } else { 0 });
            op!("insertion by entry", k, twice, if let Entry::Vacant(e) = t.entry(NKey(k)) { e.insert(Val(1)).0 } else { 0 });
        } else {
            op!("insertion", k, twice, t.insert(NKey(k), Val(1)).is_some());
            op!("removal", k, twice, t.remove(&NKey(k)).is_some());
            op!("extending by", k, twice, t.extend(std::iter::once((NKey(k), Val(3)))));
            op!("removal", k, twice, t.remove(&NKey(k)).is_some());
        }
        tick();
    }
    for _ in 0..6.min(len / 2) {
        let e = op!("remove_lowest()", 0, twice, t.remove_lowest()).unwrap();
        let k = e.0 .0;
        op!("insertion of the lowest", k, twice, t.insert(e.0, e.1).is_some());
        op!("remove_lowest()", 0, twice, t.remove_lowest().is_some());
        let e = op!("remove_highest()", 0, twice, t.remove_highest()).unwrap();
        let k = e.0 .0;
        op!("insertion of the highest", k, twice, t.insert(e.0, e.1).is_some());
        op!("remove_highest()", 0, twice, t.remove_highest().is_some());
    }
    tally.states += 1;
    Ok(())
}
fn touch<C: Cfg + TreeConfig<NKey, Val>>(grow: &str, n: usize, t: &mut Tally) -> Result<(), String> {
    pages::reopen();
    let shared = C::NAME.contains('S') || C::NAME.contains('Y');
    let mut made = 0;
    let mut tree: Small<C> = PalmTree::new();
    pages::apart(|| match grow {
        "load" => tree = PalmTree::load((0..n).map(|i| (key(i), Val(0)))),
        "append" => {
            tree = PalmTree::load((0..n / 2).map(|i| (key(i), Val(0))));
            tree.append_right(PalmTree::load((n / 2..n).map(|i| (key(i), Val(0)))));
        }
        _ => {
            for i in order(grow, n) {
                tree.insert(key(i), Val(0));
            }
        }
    });
    made += n;
    let at = |e: String| format!("{} {} {}: {}", C::NAME, grow, n, e);
    let some = |tree: &Small<C>, k: usize| -> Vec<u32> {
        let step = tree.len() / k + 1;
        let mut v: Vec<u32> = tree.iter().step_by(step).map(|e| e.0 .0).flat_map(|k| [k - 1, k, k + 1]).collect();
        v.extend(tree.iter().next_back().map(|e| e.0 .0).into_iter().flat_map(|k| [k - 1, k, k + 1, k + 2]));
        v
    };
    let ks = some(&tree, 40);
    touching::<C>(&mut tree, made, &ks, shared, t).map_err(at)?;
    made += 200;
    // nodes freed here and there, whole subtrees at the end and at the start, single entries left
    for (what, keep) in [("every fourth left", 4), ("every 64th left", 64)] {
        for i in 0..n {
            if i % keep != 1 {
                tree.remove(&key(i));
            }
        }
        let ks = some(&tree, 30);
        touching::<C>(&mut tree, made, &ks, shared, t).map_err(|e| at(format!("{}: {}", what, e)))?;
        made += 200;
    }
    for i in n / 4..n / 2 {
        tree.insert(key(i), Val(1));
        made += 1;
    }
    let ks = some(&tree, 30);
    touching::<C>(&mut tree, made, &ks, shared, t).map_err(|e| at(format!("refilled: {}", e)))?;
    // handing out entries one by one from either end
    let p = path::<C>(made);
    let len = tree.len();
    let (mut it, x) = pages::touched(|| tree.into_iter());
    let mut spent = x;
    let mut most = 4 * p + 8;
    for i in 0..len {
        if spent > most {
            return Err(at(format!("into_iter() and {} entries of {} touched {} nodes, more than {}", i, len, spent, most)));
        }
        let (e, x) = pages::touched(|| if i % 3 == 2 { it.next_back() } else { it.next() });
        want!("an entry", e.is_some(), true);
        spent += x;
        // the leaf, now and then the way to the next one
        most += 4;
        if x > 2 * p + 4 {
            return Err(at(format!("entry {} of {} consumed touched {} nodes, more than {}", i, len, x, 2 * p + 4)));
        }
        t.transitions += 1;
    }
    want!("a further entry", it.next().is_none(), true);
    drop(it);
    pages::reopen();
    t.evals += 1;
    t.validated += 1;
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C16";
    cfg_dispatch!([U4x4 U5x5 U5x4 S4x4 Y4x4 U16x17 U65x63 Y33x32 T64U T64S T64Y]);
    fn plans(tier: Tier, _checked: bool) -> Vec<Plan> {
        let (n, d) = if tier == Tier::Quick { (10, 2) } else { (12, 4) };
        let mut v = vec![];
        for (c, less) in [("U4x4", 0), ("U5x5", 0), ("U5x4", 0), ("Y4x4", 1), ("S4x4", 1)] {
            v.push(closure(c, n - less, 99));
        }
        v.extend(talls(&[("U4x4", 4, 4), ("S4x4", 4, 4), ("Y4x4", 4, 4), ("U5x5", 5, 5), ("U5x4", 5, 4)], d));
        v.extend(talls(&[("U16x17", 16, 17), ("T64U", 64, 64), ("T64S", 64, 64), ("T64Y", 64, 64), ("U65x63", 65, 63), ("Y33x32", 33, 32)], d - 1));
        v
    }
    fn jobs(tier: Tier, _checked: bool) -> Vec<String> {
        let n = if tier == Tier::Quick { 100_000 } else { 1_000_000 };
        let mut v = vec![];
        // first, as whatever fails them may make the rest take very long
        for (c, n) in [("U4x4", 4000), ("Y4x4", 3000), ("S4x4", 3000), ("U5x5", 5000), ("U16x17", 9000), ("T64U", 24_000), ("T64S", 24_000), ("T64Y", 24_000)] {
            for g in ["ascend", "descend", "inside_out", "bitrev", "stride", "load", "append"] {
                v.push(format!("touch {} {} {}", c, g, n * if tier == Tier::Quick { 1 } else { 4 }));
            }
        }
        for c in ["T64U", "T64S", "T64Y", "U65x63", "Y33x32", "U16x17", "U4x4", "U5x5"] {
            for (i, g) in GROWS.iter().enumerate() {
                v.push(format!("cost {} {} {} {}", c, g, DRAINS[i % DRAINS.len()], if i % 4 == 0 { n } else { n / 3 }));
            }
        }
        // nodes so large that anything linear in them stands out
        for (i, c) in ["U1024x4", "U4x1024", "Y1024x1024"].iter().enumerate() {
            for (j, g) in GROWS.iter().enumerate() {
                v.push(format!("cost {} {} {} {}", c, g, DRAINS[(3 * i + j) % DRAINS.len()], n / 5));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        if name.starts_with("touch ") {
            let w: Vec<&str> = name.split(' ').collect();
            t.sample(|| name.to_string());
            return with_cfg!(w[1], [T64U T64S T64Y U4x4 Y4x4 S4x4 U5x5 U16x17], C => touch::<C>(w[2], w[3].parse().unwrap(), t));
        }
        fn go<C: TreeConfig<NKey, Val>>(b: usize, l: usize, grow: &str, drain: &str, n: usize, t: &mut Tally) -> Result<(), String> {
            fn rare(n: usize) -> bool {
                n % 9973 == 0
            }
            let mut r: Run<C> = Run::new(Mode { at: rare, cost: Some(Cost { b, l }) }, t);
            r.grow(grow, n)?;
            r.accesses(n / 300 + 1)?;
            // a hollow tree: every access while 3/4 are gone
            for i in 0..n {
                if i % 4 != 1 {
                    let k = key(i);
                    let x = Meter::start();
                    want!(format!("removing {}", k.0), r.t.remove(&k).map(|e| e.0 .0), r.m.remove(&k.0).map(|_| k.0));
                    x.within(&|| format!("removing {}", k.0), Cost { b, l }.walk(r.n), r.tally)?;
                }
            }
            r.accesses(n / 1000 + 1)?;
            r.drain(drain)?;
            r.tally.validated += 1;
            Ok(())
        }
        let w: Vec<&str> = name.split(' ').collect();
        t.sample(|| name.to_string());
        with_cfg!(w[1], [T64U T64S T64Y U65x63 Y33x32 U16x17 U4x4 U5x5 U1024x4 U4x1024 Y1024x1024], C => go::<C>(C::B, C::L, w[2], w[3], w[4].parse().unwrap(), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let cost = Cost { b: C::B, l: C::L };
        let n = s.m.ctr as usize + s.m.e.len() + 12;
        let w = cost.walk(n);
        let shares = C::NAME.contains('S') || C::NAME.contains('Y');
        let len = s.m.e.len() as u64;
        let max = s.dom.last().copied().unwrap_or(0);
        for f in menu16(s.probes, max) {
            let mut c = alone(s.t);
            let x = Meter::start();
            let (walks, steps, grows) = run(&mut c, f);
            let allowed = allow(w, walks, steps, grows, &x);
            x.within(&|| format!("{:?}", f), allowed, t)?;
            // and once more after a clone has come and gone
            let mut c = alone(s.t);
            let x = Meter::start();
            let d = c.clone();
            if shares {
                want!("values duplicated by clone()", x.vclones(), 0);
                want!("comparisons made by clone()", x.cmps(), 0);
                want!("allocations left by clone()", x.allocs(), 0);
            } else {
                want!("values duplicated by clone()", x.vclones(), len);
            }
            drop(d);
            let x = Meter::start();
            let (walks, steps, grows) = run(&mut c, f);
            let allowed = allow(w, walks, steps, grows, &x);
            x.within(&|| format!("{:?} after a clone was dropped", f), allowed, t)?;
            if shares {
                // working on one of two clones may copy what it holds, but no more than once
                let mut c = alone(s.t);
                let mut d = c.clone();
                let x = Meter::start();
                run(&mut d, f);
                if x.vclones() > len {
                    return Err(format!("{:?} on a clone duplicated {} values of {}", f, x.vclones(), len));
                }
                let reads = matches!(f, F::get(_) | F::get_linear(_) | F::iter_both | F::iter | F::iter_back | F::range(..) | F::range_back(..) | F::range_ex(..) | F::eq);
                if reads && x.vclones() > 0 {
                    return Err(format!("{:?}, which only reads, duplicated {} values", f, x.vclones()));
                }
                // the other one is alone now, or the first one was left alone to begin with
                drop(d);
                let x = Meter::start();
                run(&mut c, f);
                want!(format!("values duplicated by {:?} on a map whose clone is gone", f), x.vclones(), 0);
            }
        }
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
