//! C07: a clone is an independent snapshot under every ownership mode.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{Entry, OwnedIter, PalmTree, TreeConfig};

fn same<K: KT, V: VT, C: TreeConfig<K, V>>(t: &Tree<K, V, C>, m: &Model, probes: &[u16]) -> Result<(), String> {
    contents(t, m)?;
    for &k in probes {
        let key = K::mk(k, 0);
        let exp = m.get(k).map(|e| V::norm(e.v));
        want!(format!("get({})", k), t.get(&key).map(|v| v.v()), exp);
        want!(format!("get_linear({})", k), t.get_linear(&key).map(|v| v.v()), exp);
    }
    let mut n = m.e.len();
    for (k, _) in t.iter().rev() {
        n = n.checked_sub(1).ok_or("reverse iteration yields a surplus entry")?;
        want!("reverse iteration", k.k(), m.e[n].k);
    }
    want!("entries missing from reverse iteration", n, 0);
    Ok(())
}

// ---------------------------------------------------------------- histories over several handles

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Clone(usize, usize),
    Do(usize, Op),
    Drop(usize),
    Consume(usize),
    Step(usize, bool),
    /// Append the second map to the first.
    Append(usize, usize),
    Extend(usize, usize),
    /// Compare two maps' handles by assigning a clone over an existing map.
    Assign(usize, usize),
    /// Mutable iteration over the first map, in the middle of which the second handle is cloned, changed and dropped.
    Amid(usize, usize, u8),
}
enum Handle<C: Cfg> {
    No,
    Map(Tree<LKey, LVal, C>, Model),
    Iter(OwnedIter<LKey, LVal, C>, Vec<Ent>),
}
const H: usize = 3;
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    No,
    Map,
    Iter,
}
fn step_kinds(k: &mut [Kind; H], a: Act) {
    match a {
        Act::Clone(_, j) => k[j] = Kind::Map,
        Act::Drop(i) => k[i] = Kind::No,
        Act::Consume(i) => k[i] = Kind::Iter,
        Act::Append(_, j) | Act::Extend(_, j) => k[j] = Kind::No,
        Act::Amid(_, j, 2) => k[j] = Kind::No,
        _ => {}
    }
}
fn valid(k: &[Kind; H], ops: &[Op]) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..H {
        match k[i] {
            Kind::No => {}
            Kind::Iter => {
                v.push(Act::Step(i, false));
                v.push(Act::Step(i, true));
                v.push(Act::Drop(i));
            }
            Kind::Map => {
                if let Some(j) = k.iter().position(|x| *x == Kind::No) {
                    v.push(Act::Clone(i, j));
                }
                for &o in ops {
                    v.push(Act::Do(i, o));
                }
                v.push(Act::Drop(i));
                v.push(Act::Consume(i));
                for j in 0..H {
                    if j != i && k[j] == Kind::Map {
                        v.push(Act::Append(i, j));
                        v.push(Act::Extend(i, j));
                        v.push(Act::Assign(i, j));
                        for w in 0..4 {
                            v.push(Act::Amid(i, j, w));
                        }
                    }
                }
            }
        }
    }
    v
}
fn write<'a>(it: &mut impl Iterator<Item = (&'a LKey, &'a mut LVal)>, m: &mut Model, upto: usize, at: &mut usize) -> Result<(), String> {
    while *at < upto {
        let (k, v) = it.next().ok_or("iter_mut ends early")?;
        want!("iter_mut with another handle changing", see(k, v), want_seen::<LKey, LVal>(&m.e[*at]));
        m.ctr += 1;
        m.e[*at].v = m.ctr;
        v.set(m.ctr);
        *at += 1;
    }
    Ok(())
}
fn exec<C: Cfg>(seed: &[Op], path: &[Act], probes: &[u16]) -> Result<(), String> {
    use Handle::*;
    ledger_reset();
    let base = live_allocs();
    {
        let (t, m) = build::<LKey, LVal, C>(seed)?;
        let mut h: [Handle<C>; H] = [Map(t, m), No, No];
        for (s, &a) in path.iter().enumerate() {
            match a {
                Act::Clone(i, j) => {
                    let c = match &h[i] {
                        Map(t, m) => Map(t.clone(), Model { e: m.e.clone(), ctr: m.ctr + 1000 * (s as u32 + 1) }),
                        _ => unreachable!(),
                    };
                    h[j] = c;
                }
                Act::Do(i, o) => {
                    if let Map(t, m) = &mut h[i] {
                        note_op(o);
                        apply::<LKey, LVal, C>(t, m, o)?
                    }
                }
                Act::Drop(i) => h[i] = No,
                Act::Consume(i) => {
                    if let Map(t, m) = std::mem::replace(&mut h[i], No) {
                        h[i] = Iter(t.into_iter(), m.e)
                    }
                }
                Act::Step(i, back) => {
                    if let Iter(it, e) = &mut h[i] {
                        let exp = if e.is_empty() {
                            None
                        } else if back {
                            e.pop()
                        } else {
                            Some(e.remove(0))
                        };
                        want!("a step of a consuming iterator", kv(if back { it.next_back() } else { it.next() }), mkv::<LKey, LVal>(exp));
                        want!("remaining length of a consuming iterator", it.len(), e.len());
                    }
                }
                Act::Append(i, j) | Act::Extend(i, j) => {
                    let o = std::mem::replace(&mut h[j], No);
                    if let (Map(t, m), Map(ot, om)) = (&mut h[i], o) {
                        for e in &om.e {
                            match m.pos(e.k) {
                                Ok(p) if matches!(a, Act::Append(..)) => m.e[p] = *e,
                                Ok(p) => m.e[p].v = e.v,
                                Err(p) => m.e.insert(p, *e),
                            }
                        }
                        if matches!(a, Act::Append(..)) {
                            t.append_right(ot)
                        } else {
                            t.extend(ot)
                        }
                    }
                }
                Act::Assign(i, j) => {
                    let c = match &h[j] {
                        Map(t, m) => (t.clone(), Model { e: m.e.clone(), ctr: m.ctr + 1000 * (s as u32 + 1) }),
                        _ => unreachable!(),
                    };
                    if let Map(t, m) = &mut h[i] {
                        t.clone_from(&c.0);
                        *m = c.1;
                    }
                }
                Act::Amid(i, j, w) => {
                    let mut o = std::mem::replace(&mut h[j], No);
                    if let (Map(t, m), Map(ot, om)) = (&mut h[i], &mut o) {
                        let n = m.e.len();
                        let mut at = 0;
                        let mut it = t.iter_mut();
                        write(&mut it, m, n / 2, &mut at)?;
                        let mut extra = None;
                        match w {
                            0 => extra = Some((ot.clone(), om.clone())),
                            1 => {
                                for k in om.e.iter().map(|e| e.k).collect::<Vec<_>>() {
                                    apply::<LKey, LVal, C>(ot, om, op(Code::get_mut, k as usize, 0))?;
                                }
                                apply::<LKey, LVal, C>(ot, om, op(Code::remove_highest, 0, 0))?;
                            }
                            2 => *ot = PalmTree::new(),
                            _ => drop(ot.clone()),
                        }
                        write(&mut it, m, n, &mut at)?;
                        want!("iter_mut at its end", it.next().is_none(), true);
                        if let Some((t, m)) = &extra {
                            same(t, m, probes)?;
                        }
                    }
                    if w != 2 {
                        h[j] = o
                    }
                }
            }
            for (i, x) in h.iter().enumerate() {
                match x {
                    Map(t, m) => same(t, m, probes).map_err(|e| format!("after step {} ({:?}) handle {}: {}", s, a, i, e))?,
                    Iter(it, e) => want!("remaining length of a consuming iterator", it.len(), e.len()),
                    No => {}
                }
            }
            if let Some(e) = ledger_err() {
                return Err(format!("step {} ({:?}): {}", s, a, e));
            }
        }
        // what is left of consuming iterators must still be right
        for x in h {
            if let Iter(it, e) = x {
                let rest: Vec<Seen> = it.map(|(k, v)| see(&k, &v)).collect();
                want!("the rest of a consuming iterator", rest, e.iter().map(want_seen::<LKey, LVal>).collect::<Vec<_>>());
            }
        }
    }
    want!("elements left when all handles are gone", ledger_live(), (0, 0));
    want!("heap blocks left when all handles are gone", live_allocs(), base);
    ledger_err().map_or(Ok(()), Err)
}
fn start(w: usize) -> (Vec<Op>, Vec<u16>) {
    use Code::*;
    match w {
        0 => (vec![op(load, 3, 2)], vec![2, 5, 6]),
        1 => (vec![op(load, 9, 2)], vec![2, 9, 18]),
        2 => (vec![op(load, 22, 2)], vec![8, 9, 44]),
        3 => (vec![op(load, 17, 2), op(drain_lowest, 16, 0)], vec![3, 34, 35]),
        4 => (vec![op(load, 17, 2), op(drain_highest, 17, 0)], vec![1, 2, 3]),
        5 => (vec![], vec![1, 2, 3]),
        6 => (vec![op(ascend, 12, 2), op(remove_range, 5, 12)], vec![4, 14, 24]),
        _ => (vec![op(load, 70, 2)], vec![2, 69, 140]),
    }
}
fn handles<C: Cfg>(w: usize, depth: usize, part: usize, parts: usize, t: &mut Tally) -> Result<(), String> {
    use Code::*;
    let (seed, keys) = start(w);
    let k = |i: usize| keys[i] as usize;
    let ops = [op(insert, k(0), 0), op(insert_recursive, k(1), 0), op(remove, k(2), 0), op(remove_lowest, 0, 0), op(entry_insert, k(1), 0), op(get_mut, k(2), 0)];
    let mut probes: Vec<u16> = vec![0];
    for x in &keys {
        probes.extend([x - 1, *x, x + 1]);
    }
    let mut count = 0usize;
    fn go<C: Cfg>(seed: &[Op], path: &mut Vec<Act>, kinds: [Kind; H], left: usize, ops: &[Op], probes: &[u16], sel: (usize, usize), count: &mut usize, t: &mut Tally) -> Result<(), String> {
        let next = if left == 0 { vec![] } else { valid(&kinds, ops) };
        if next.is_empty() {
            *count += 1;
            if *count % sel.1 != sel.0 {
                return Ok(());
            }
            if *count % 256 < sel.1 {
                tick();
            }
            t.evals += path.len() as u64;
            t.transitions += path.len() as u64;
            t.states += 1;
            t.validated += 1;
            t.sample(|| format!("{} [{}] {:?}", C::NAME, show(seed), path));
            return guard(|| exec::<C>(seed, path, probes)).map_err(|e| format!("{} [{}] {:?}: {}", C::NAME, show(seed), path, e));
        }
        for a in next {
            let mut k = kinds;
            step_kinds(&mut k, a);
            path.push(a);
            go::<C>(seed, path, k, left - 1, ops, probes, sel, count, t)?;
            path.pop();
        }
        Ok(())
    }
    // the first step that matters is a clone
    go::<C>(&seed, &mut vec![Act::Clone(0, 1)], [Kind::Map, Kind::Map, Kind::No], depth, &ops, &probes, (part, parts), &mut count, t)?;
    t.count("histories over several handles", t.states);
    Ok(())
}

// ---------------------------------------------------------------- changes in the midst of an operation on the other side

/// While an operation on one map calls into its elements (compares, copies or destroys one), another handle on
/// the same contents is written to, dropped, cloned, consumed or grown.
fn amidst<C: Cfg>(w: usize, t: &mut Tally) -> Result<(), String> {
    use std::{cell::RefCell, rc::Rc};
    let (seed, keys) = start(w);
    let mut ops = ops_for(&keys);
    ops.extend([op(Code::append_left, 1, 0), op(Code::insert, 1, 0)]);
    let mut probes: Vec<u16> = vec![0];
    for x in &keys {
        probes.extend([x - 1, *x, x + 1]);
    }
    type Slot<C> = Rc<RefCell<Vec<(Tree<LKey, LVal, C>, Model)>>>;
    let one = |o: Op, pre: usize, deed: usize, at: u64| -> Result<u64, String> {
        ledger_reset();
        let base = live_allocs();
        let n = {
            let (mut a, mut am) = build::<LKey, LVal, C>(&seed)?;
            let (b, mut bm) = (a.clone(), am.clone());
            bm.ctr += 100_000;
            if pre == 1 {
                apply::<LKey, LVal, C>(&mut a, &mut am, op(Code::get_mut, keys[0] as usize, 0))?;
            }
            let others: Slot<C> = Rc::new(RefCell::new(vec![(b, bm)]));
            let bad: Rc<RefCell<Option<String>>> = Rc::default();
            let (o2, bad2) = (others.clone(), bad.clone());
            let doing = Box::new(move || {
                let mut o = o2.borrow_mut();
                let change = |t: &mut Tree<LKey, LVal, C>, m: &mut Model, ops: &[Op]| {
                    for p in ops {
                        if let Err(e) = guard(|| apply::<LKey, LVal, C>(t, m, *p)) {
                            bad2.borrow_mut().get_or_insert(e);
                        }
                    }
                };
                match deed {
                    0 => {
                        let (t, m) = &mut o[0];
                        change(t, m, &[op(Code::iter_mut_write, 0, 0), op(Code::remove_highest, 0, 0)])
                    }
                    1 => drop(o.pop()),
                    2 => {
                        let (t, m) = &o[0];
                        let c = (t.clone(), m.clone());
                        o.push(c)
                    }
                    3 => {
                        let (t, m) = o.pop().unwrap();
                        let k = t.len() / 2;
                        let rest: Vec<Seen> = t.into_iter().skip(k).map(|(k, v)| see(&k, &v)).collect();
                        if rest != m.e[k..].iter().map(want_seen::<LKey, LVal>).collect::<Vec<_>>() {
                            bad2.borrow_mut().get_or_insert("a map consumed meanwhile yields something else".into());
                        }
                    }
                    _ => {
                        let (t, m) = &mut o[0];
                        change(t, m, &[op(Code::append_right, 5, 1), op(Code::remove_lowest, 0, 0)])
                    }
                }
            });
            let (r, n) = mc::types::amid(at, doing, || apply::<LKey, LVal, C>(&mut a, &mut am, o));
            r?;
            if let Some(e) = bad.borrow_mut().take() {
                return Err(format!("meanwhile: {}", e));
            }
            same(&a, &am, &probes)?;
            for (t, m) in others.borrow().iter() {
                same(t, m, &probes).map_err(|e| format!("the other map: {}", e))?
            }
            for (t, m) in others.borrow_mut().iter_mut() {
                apply::<LKey, LVal, C>(t, m, op(Code::iter_mut_write, 0, 0))?
            }
            same(&a, &am, &probes)?;
            n
        };
        want!("elements left when all handles are gone", ledger_live(), (0, 0));
        want!("heap blocks left when all handles are gone", live_allocs(), base);
        ledger_err().map_or(Ok(n), Err)
    };
    for &o in &ops {
        note_op(o);
        for pre in 0..2 {
            for deed in 0..5 {
                for at in 0.. {
                    let what = || format!("{} [{}] {}, within call {} into an element the other map is {}", C::NAME, show(&seed), o, at, ["written to", "dropped", "cloned", "consumed", "grown"][deed]);
                    let n = guard(|| one(o, pre, deed, at)).map_err(|e| format!("{}: {}", what(), e))?;
                    t.transitions += 1;
                    t.evals += 1;
                    t.count("changes amid an operation", 1);
                    if at >= n {
                        break;
                    }
                }
                tick();
            }
        }
    }
    t.states += 1;
    Ok(())
}

// ---------------------------------------------------------------- every operation on either side, in every state

fn ops_for(probes: &[u16]) -> Vec<Op> {
    use Code::*;
    let mut v = basic(&probes.iter().map(|k| *k as usize).collect::<Vec<_>>());
    let (lo, hi) = (probes[0] as usize, *probes.last().unwrap() as usize);
    v.extend([op(reload, 0, 0), op(recollect, 0, 0), op(iter_mut_write, 0, 0), op(append_right, 4, 2), op(append_left, 4, 3), op(add_assign, 1, 1), op(consume, 1, 1), op(consume, 99, 0), op(consume, 0, 2)]);
    v.push(op(range_mut_write, lo + (hi - lo) / 3, hi - (hi - lo) / 3));
    for &k in probes {
        for c in [entry_insert, entry_remove, entry_into_mut, entry_get_mut, get_mut, index_mut] {
            v.push(op(c, k as usize, 0));
        }
    }
    v
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C07";
    cfg_dispatch!([U4x4 U5x5 S4x4 Y4x4 S5x5 Y5x4 CS4x4 CU4x4 T64Y T64S]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (8, 3),
            (Tier::Quick, false) => (7, 2),
            (Tier::Thorough, true) => (10, 4),
            (Tier::Thorough, false) => (9, 4),
        };
        let mut v = vec![];
        for c in ["Y4x4", "S4x4", "U4x4", "Y5x4", "S5x5", "CS4x4", "CU4x4"] {
            v.push(closure(c, if c == "Y4x4" { n + 1 } else { n }, 99));
        }
        v.extend(talls(&[("U4x4", 4, 4), ("S4x4", 4, 4), ("Y4x4", 4, 4), ("S5x5", 5, 5), ("Y5x4", 5, 4), ("CS4x4", 4, 4)], d));
        v.extend(talls(&[("T64Y", 64, 64)], 1));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let depth = if tier == Tier::Quick { 2 + checked as usize } else { 4 };
        let mut v = vec![];
        for c in ["S4x4", "Y4x4", "U4x4", "S5x5", "T64Y", "CS4x4"] {
            for w in 0..8 {
                let parts = if depth < 4 { 1 } else { 16 };
                for p in 0..parts {
                    v.push(format!("handles {} {} {} {} {}", c, w, depth, p, parts));
                }
            }
        }
        for c in ["S4x4", "Y4x4", "U4x4", "S5x5", "CS4x4"] {
            for w in 0..8 {
                v.push(format!("amidst {} {}", c, w));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        if w[0] == "amidst" {
            return with_cfg!(w[1], [S4x4 Y4x4 U4x4 S5x5 CS4x4], C => amidst::<C>(x(2), t));
        }
        with_cfg!(w[1], [S4x4 Y4x4 U4x4 S5x5 T64Y CS4x4], C => handles::<C>(x(2), x(3), x(4), x(5), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let print = fingerprint(s.t, s.probes);
        let unchanged = |tr: &Tree<Key, Val, C>, m: &Model, what: &dyn Fn() -> String| -> Result<(), String> {
            contents(tr, m).map_err(|e| format!("{}: {}", what(), e))?;
            want!(format!("lookups in {}", what()), fingerprint(tr, s.probes), print);
            Ok(())
        };
        let ops = ops_for(s.probes);
        let mut m0 = s.m.clone();
        m0.ctr += 1000;
        for (i, &o) in ops.iter().enumerate() {
            // a and b share with s.t; change a, then b; then drop one and change the other again
            let mut a = s.t.clone();
            let mut am = m0.clone();
            let mut b = s.t.clone();
            let mut bm = m0.clone();
            bm.ctr += 1000;
            apply::<Key, Val, C>(&mut a, &mut am, o)?;
            unchanged(s.t, s.m, &|| format!("a map after {} on a clone", o))?;
            unchanged(&b, s.m, &|| format!("a clone after {} on another clone", o))?;
            let c = a.clone();
            let cm = am.clone();
            let o2 = ops[(i * 7 + 3) % ops.len()];
            apply::<Key, Val, C>(&mut b, &mut bm, o2)?;
            contents(&a, &am).map_err(|e| format!("a clone that underwent {}, after {} on another: {}", o, o2, e))?;
            apply::<Key, Val, C>(&mut a, &mut am, o2)?;
            contents(&c, &cm).map_err(|e| format!("a clone of a clone after {}, {} on its original: {}", o, o2, e))?;
            drop(a);
            contents(&c, &cm).map_err(|e| format!("a clone of a clone after its original is dropped: {}", e))?;
            contents(&b, &bm).map_err(|e| format!("a clone that underwent {}: {}", o2, e))?;
            t.evals += 5;
        }
        unchanged(s.t, s.m, &|| "a map after everything done to its clones".into())?;
        // an entry held, but never used to change anything, must not disturb clones either
        for &k in s.probes {
            let mut a = s.t.clone();
            let e = a.entry(Key::mk(k, 5));
            unchanged(s.t, s.m, &|| format!("a map while a clone's entry({}) is held", k))?;
            if let Entry::Occupied(mut e) = e {
                e.get_mut().0 += 77;
                unchanged(s.t, s.m, &|| format!("a map after a clone's entry({}).get_mut()", k))?;
            }
        }
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    quarantine();
    main_for::<P>()
}
