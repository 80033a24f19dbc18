//! C09: the same history gives the same results whatever the node capacity, ownership mode and element layout.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{Entry, PalmTree, PointerKind, Shared, SyncShared, TreeConfig, Unique};

/// Everything that can be seen of a map, against the model.
fn full<K: KT, V: VT, C: TreeConfig<K, V>>(t: &Tree<K, V, C>, m: &Model, probes: &[u16]) -> Result<(), String> {
    contents(t, m)?;
    let exp: Vec<Seen> = m.e.iter().map(want_seen::<K, V>).collect();
    let rev: Vec<Seen> = exp.iter().rev().copied().collect();
    want!("reverse iteration", t.iter().rev().map(|(k, v)| see(k, v)).collect::<Vec<_>>(), rev);
    want!("consuming iteration", t.clone().into_iter().map(|(k, v)| see(&k, &v)).collect::<Vec<_>>(), exp);
    want!("reverse consuming iteration", t.clone().into_iter().rev().map(|(k, v)| see(&k, &v)).collect::<Vec<_>>(), rev);
    let mut c = t.clone();
    want!("mutable iteration", c.iter_mut().map(|(k, v)| see(k, v)).collect::<Vec<_>>(), exp);
    for (i, &k) in probes.iter().enumerate() {
        let key = K::mk(k, 0);
        let e = m.get(k).map(|e| V::norm(e.v));
        want!(format!("get({})", k), t.get(&key).map(|v| v.v()), e);
        want!(format!("get_linear({})", k), t.get_linear(&key).map(|v| v.v()), e);
        want!(format!("get_mut({})", k), c.get_mut(&key).map(|v| v.v()), e);
        let hi = probes[(i * 5 + 3) % probes.len()];
        for (lo, hi) in [(Bd::In(k.min(hi)), Bd::In(hi.max(k))), (Bd::Ex(k), Bd::No), (Bd::No, Bd::Ex(k))] {
            let (a, b) = slice_of(m, lo, hi);
            want!(format!("range{}", show_pair(lo, hi)), t.range((mk::<K>(lo), mk::<K>(hi))).map(|(k, v)| see(k, v)).collect::<Vec<_>>(), exp[a..b].to_vec());
            want!(format!("range_mut{} reversed", show_pair(lo, hi)), c.range_mut((mk::<K>(lo), mk::<K>(hi))).rev().map(|(k, v)| see(k, v)).collect::<Vec<_>>(), exp[a..b].iter().rev().copied().collect::<Vec<_>>());
        }
    }
    Ok(())
}
fn alphabet(keys: &[usize]) -> Vec<Op> {
    use Code::*;
    let mut v = vec![op(remove_lowest, 0, 0), op(remove_highest, 0, 0), op(iter_mut_write, 0, 0), op(replace_by_clone, 0, 0), op(append_right, 3, 7), op(reload, 0, 0)];
    for &k in keys {
        for c in [insert, insert_recursive, remove, entry_insert, entry_remove] {
            v.push(op(c, k, 0))
        }
    }
    v
}
fn histories<K: KT, V: VT, C: TreeConfig<K, V>>(name: &str, b: usize, l: usize, depth: usize, t: &mut Tally) -> Result<(), String> {
    fn go<K: KT, V: VT, C: TreeConfig<K, V>>(tr: &Tree<K, V, C>, m: &Model, h: &mut Vec<Op>, a: &[Op], probes: &[u16], left: usize, t: &mut Tally) -> Result<(), String> {
        t.states += 1;
        t.evals += 1;
        full(tr, m, probes).map_err(|e| format!("after {}: {}", show(h), e))?;
        if left == 0 {
            return Ok(());
        }
        for &o in a {
            h.push(o);
            note_op(o);
            let (mut c, mut cm) = (tr.clone(), m.clone());
            apply::<K, V, C>(&mut c, &mut cm, o).map_err(|e| format!("{}: {}", show(h), e))?;
            t.transitions += 1;
            go(&c, &cm, h, a, probes, left - 1, t)?;
            h.pop();
        }
        Ok(())
    }
    let mut all = seeds(b, l);
    all.push(Seed { ops: vec![], keys: vec![1, 2, 3], max: 3 });
    all.push(Seed { ops: vec![op(Code::load, 1, 1)], keys: vec![1, 2, 3], max: 3 });
    for s in all {
        tick();
        let keys = [s.keys[0], s.keys[s.keys.len() / 2], s.keys[s.keys.len() - 1]];
        let mut probes: Vec<u16> = vec![];
        for k in keys {
            probes.extend([k as u16 - 1, k as u16, k as u16 + 1]);
        }
        let with = |e| format!("{}: {}: {}", name, show(&s.ops), e);
        // once in place, every step in full view
        let mut tr: Tree<K, V, C> = PalmTree::new();
        let mut m = Model::default();
        for &o in s.ops.iter().chain(&alphabet(&keys)).chain(&s.ops) {
            note_op(o);
            apply::<K, V, C>(&mut tr, &mut m, o).map_err(with)?;
            full(&tr, &m, &probes).map_err(|e| with(format!("after {}: {}", o, e)))?;
        }
        t.validated += 1;
        let (tr, m) = build::<K, V, C>(&s.ops).map_err(with)?;
        go(&tr, &m, &mut vec![], &alphabet(&keys), &probes, depth, t).map_err(with)?;
        t.sample(|| format!("{}: {}", name, show(&s.ops)));
    }
    Ok(())
}
/// Keys without a size: a map of at most one entry.
fn unit_keys<C: TreeConfig<(), BoxVal>>(name: &str, depth: usize, t: &mut Tally) -> Result<(), String> {
    type T<C> = PalmTree<(), BoxVal, C>;
    fn go<C: TreeConfig<(), BoxVal>>(tr: &T<C>, m: Option<u32>, h: &mut Vec<usize>, left: usize, t: &mut Tally) -> Result<(), String> {
        t.states += 1;
        t.evals += 1;
        let exp: Vec<u32> = m.into_iter().collect();
        want!("len", tr.len(), exp.len());
        want!("get", tr.get(&()).map(|v| v.v()), m);
        want!("get_linear", tr.get_linear(&()).map(|v| v.v()), m);
        want!("iter", tr.iter().map(|x| x.1.v()).collect::<Vec<_>>(), exp);
        want!("iter from the back", tr.iter().rev().map(|x| x.1.v()).collect::<Vec<_>>(), exp);
        want!("range", tr.range(()..=()).map(|x| x.1.v()).collect::<Vec<_>>(), exp);
        want!("empty range", tr.range(()..()).count(), 0);
        want!("range to", tr.range(..()).count(), 0);
        want!("into_iter", tr.clone().into_iter().map(|x| x.1.v()).collect::<Vec<_>>(), exp);
        if left == 0 {
            return Ok(());
        }
        for o in 0..9 {
            h.push(o);
            t.transitions += 1;
            let mut c = tr.clone();
            let x = h.len() as u32 * 10;
            let n = match o {
                0 => {
                    want!("insert", c.insert((), BoxVal::mk(x)).map(|v| v.v()), m);
                    Some(x)
                }
                1 => {
                    want!("insert_recursive", c.insert_recursive((), BoxVal::mk(x)).map(|v| v.v()), m);
                    Some(x)
                }
                2 => {
                    want!("remove", c.remove(&()).map(|e| e.1.v()), m);
                    None
                }
                3 => {
                    want!("remove_lowest", c.remove_lowest().map(|e| e.1.v()), m);
                    None
                }
                4 => {
                    want!("remove_highest", c.remove_highest().map(|e| e.1.v()), m);
                    None
                }
                5 => match c.entry(()) {
                    Entry::Occupied(e) => {
                        want!("occupied", Some(e.remove().v()), m);
                        None
                    }
                    Entry::Vacant(e) => {
                        want!("vacant", m.is_none(), true);
                        want!("entry insert", e.insert(BoxVal::mk(x)).v(), x);
                        Some(x)
                    }
                },
                6 => {
                    for (_, v) in c.iter_mut() {
                        v.set(x)
                    }
                    m.map(|_| x)
                }
                7 => {
                    c.append_left(PalmTree::load(Some(((), BoxVal::mk(x)))));
                    m.or(Some(x))
                }
                _ => {
                    c = PalmTree::merge_right(c, PalmTree::load(Some(((), BoxVal::mk(x)))));
                    Some(x)
                }
            };
            go(&c, n, h, left - 1, t).map_err(|e| format!("{:?}: {}", h, e))?;
            h.pop();
        }
        Ok(())
    }
    go::<C>(&PalmTree::new(), None, &mut vec![], depth, t).map_err(|e| format!("{} with unit keys: {}", name, e))
}

/// More slots than sixteen bits count.
type Vast = typenum::Sum<typenum::U65536, typenum::U512>;
const VAST: u32 = 66048;
struct VastLeaves<P>(std::marker::PhantomData<P>);
struct VastBranches<P>(std::marker::PhantomData<P>);
impl<K, V, P: PointerKind> TreeConfig<K, V> for VastLeaves<P> {
    type BranchSize = typenum::U4;
    type LeafSize = Vast;
    type PointerKind = P;
}
impl<K, V, P: PointerKind> TreeConfig<K, V> for VastBranches<P> {
    type BranchSize = Vast;
    type LeafSize = typenum::U4;
    type PointerKind = P;
}
/// Maps of `n` even keys in nodes of that many slots, with every operation at every position where a count might overflow.
fn vast<C: TreeConfig<u32, u32>>(how: &str, n: u32, per: u32, t: &mut Tally) -> Result<(), String> {
    let base: Vec<(u32, u32)> = (0..n).map(|i| (i * 2, i)).collect();
    let map: PalmTree<u32, u32, C> = match how {
        "load" => PalmTree::load(base.iter().copied()),
        "ascend" => base.iter().copied().collect(),
        _ => {
            let mut m = PalmTree::new();
            for &(k, v) in &base {
                m.insert_recursive(k, v);
            }
            m
        }
    };
    let mut at: Vec<u32> = vec![0, 1, 2];
    for mid in [1 << 15, VAST / 2, 1 << 16, VAST, VAST / 2 + VAST] {
        at.extend((mid * per - 3..mid * per + 3).filter(|i| *i < n));
    }
    at.extend([n - 3, n - 2, n - 1]);
    at.dedup();
    let check = |what: String, m: &PalmTree<u32, u32, C>, exp: &Vec<(u32, u32)>, i: usize| -> Result<(), String> {
        want!(format!("{}: the length", what), m.len(), exp.len());
        if let Some((got, exp)) = m.iter().map(|(k, v)| (*k, *v)).zip(exp).find(|(a, b)| a != *b) {
            return Err(format!("{}: iteration gave {:?} instead of {:?}", what, got, exp));
        }
        want!(format!("{}: entries iterated over", what), m.iter().count(), exp.len());
        if let Some((got, exp)) = m.iter().rev().map(|(k, v)| (*k, *v)).zip(exp.iter().rev()).find(|(a, b)| a != *b) {
            return Err(format!("{}: iteration from the back gave {:?} instead of {:?}", what, got, exp));
        }
        for &(k, v) in &exp[i.saturating_sub(3)..exp.len().min(i + 4)] {
            want!(format!("{}: get({})", what, k), m.get(&k), Some(&v));
            want!(format!("{}: get_linear({})", what, k), m.get_linear(&k), Some(&v));
            let after = exp.iter().position(|e| e.0 == k).unwrap();
            want!(format!("{}: from {}", what, k), m.range(k..).take(3).map(|e| *e.0).collect::<Vec<_>>(), exp[after..].iter().take(3).map(|e| e.0).collect::<Vec<_>>());
            want!(format!("{}: up to {}", what, k), m.range(..=k).rev().take(3).map(|e| *e.0).collect::<Vec<_>>(), exp[..=after].iter().rev().take(3).map(|e| e.0).collect::<Vec<_>>());
        }
        Ok(())
    };
    check(format!("{} {}", how, n), &map, &base, 0)?;
    want!("consuming", map.clone().into_iter().next_back(), base.last().copied());
    for &i in &at {
        let (k, v) = base[i as usize];
        for o in 0..7 {
            tick();
            let mut m = map.clone();
            let mut exp = base.clone();
            let i = i as usize;
            let what = format!("{} {}, operation {} at {}", how, n, o, k);
            match o {
                0 => {
                    want!(what.clone(), m.insert(k + 1, 7), None);
                    exp.insert(i + 1, (k + 1, 7));
                }
                1 => {
                    want!(what.clone(), m.insert_recursive(k + 1, 7), None);
                    exp.insert(i + 1, (k + 1, 7));
                }
                2 => {
                    want!(what.clone(), m.remove(&k), Some((k, v)));
                    exp.remove(i);
                }
                3 => {
                    match m.entry(k) {
                        Entry::Occupied(e) => want!(what.clone(), e.remove_entry(), (k, v)),
                        Entry::Vacant(_) => return Err(format!("{}: vacant", what)),
                    }
                    exp.remove(i);
                }
                4 => {
                    match m.entry(k + 1) {
                        Entry::Occupied(_) => return Err(format!("{}: occupied", what)),
                        Entry::Vacant(e) => want!(what.clone(), *e.insert(9), 9),
                    }
                    exp.insert(i + 1, (k + 1, 9));
                }
                5 => {
                    *m.get_mut(&k).ok_or("get_mut found nothing")? = 3;
                    exp[i].1 = 3;
                }
                _ => {
                    for (_, v) in m.range_mut(k..k + 5) {
                        *v = 5
                    }
                    for e in exp.iter_mut().skip(i).take(3) {
                        e.1 = 5
                    }
                }
            }
            t.transitions += 1;
            t.evals += exp.len() as u64;
            check(what, &m, &exp, i)?;
            check("the map it was cloned from".into(), &map, &base, i)?;
        }
    }
    t.states += 1;
    t.validated += 1;
    t.count("vast nodes", at.len() as u64);
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C09";
    cfg_dispatch!([CU5x4 CS4x5 S5x5 Y5x4 U4x16 S16x4 Y6x7 U8x9 U16x17]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (9, 3),
            (Tier::Quick, false) => (8, 3),
            (Tier::Thorough, true) => (11, 5),
            (Tier::Thorough, false) => (10, 5),
        };
        let mut v = vec![];
        for c in ["S5x5", "Y5x4", "U4x16", "Y6x7", "CU5x4", "CS4x5"] {
            v.push(closure(c, n, 99));
        }
        v.push(closure("U8x9", n + 4, 99));
        v.extend(talls(&[("S5x5", 5, 5), ("Y5x4", 5, 4), ("U4x16", 4, 16), ("S16x4", 16, 4), ("Y6x7", 6, 7), ("U8x9", 8, 9), ("U16x17", 16, 17)], d));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let d = if tier == Tier::Quick { 1 + checked as usize } else { 3 };
        let mut v = vec![];
        for c in ["T64U", "T64S", "T64Y", "U65x63", "Y33x32", "U16x17", "S10x11", "U8x9", "Y6x7", "S16x4", "U4x16", "U7x7", "U6x6", "Y5x4", "S5x5", "U4x5", "U5x4", "U5x5", "Y4x4", "S4x4", "U4x4", "CU4x4", "CS4x4", "CU5x4", "CS4x5"] {
            for (b, l) in [(4, 4), (5, 5), (7, 8), (64, 64)] {
                v.push(format!("plain {} {} {} {}", c, b, l, if b == 64 { 1 } else { d }));
            }
        }
        // nodes of more children and entries than fit a byte
        for (c, b, l) in [("U256x4", 256, 4), ("Y4x256", 4, 256), ("U300x4", 300, 4), ("S4x300", 4, 300), ("Y130x5", 130, 5)] {
            for (x, y, d) in [(4, 4, d), (b, l, if tier == Tier::Quick { 1 + checked as usize } else { 2 })] {
                v.push(format!("plain {} {} {} {}", c, x, y, d));
            }
        }
        for how in ["load", "ascend", "recursive"] {
            for kind in ["leaves unique", "leaves sync", "branches unique", "branches shared"] {
                for n in if tier == Tier::Quick { [65537, VAST + 1].as_slice() } else { &[65535, 65536, 65537, VAST - 1, VAST, VAST + 1, VAST * 3 / 2 + 1, VAST * 2 + 1] } {
                    if how == "load" || tier == Tier::Thorough || *n == VAST + 1 {
                        v.push(format!("vast {} {} {}", how, kind, n));
                    }
                }
            }
        }
        for l in ["zero", "wide", "align", "align128", "string", "box", "big", "u8", "zero64", "keys128"] {
            for c in ["T64U", "T64S", "T64Y", "U4x4", "S4x4", "Y4x4", "S5x5", "U5x4", "CU4x4", "CS4x5"] {
                for (b, n) in [(4, 4), (5, 5)] {
                    v.push(format!("layout {} {} {} {} {}", c, b, n, d, l));
                }
            }
        }
        // elements of a page and more
        for l in ["huge", "hugeval", "page", "maps", "shared_maps"] {
            for c in ["U4x4", "S4x4", "Y4x4", "CS4x5"] {
                v.push(format!("layout {} 4 4 {} {}", c, d.min(2) - (d > 1) as usize, l));
            }
        }
        for c in ["T64U", "T64S", "T64Y", "U4x4", "S4x4", "Y4x4", "S5x5", "U5x4", "CU4x4", "CS4x5"] {
            v.push(format!("units {} {}", c, 3 + d));
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        match w[0] {
            "plain" => with_cfg!(w[1], [U256x4 Y4x256 U300x4 S4x300 Y130x5 T64U T64S T64Y U65x63 Y33x32 U16x17 S10x11 U8x9 Y6x7 S16x4 U4x16 U7x7 U6x6 Y5x4 S5x5 U4x5 U5x4 U5x5 Y4x4 S4x4 U4x4 CU4x4 CS4x4 CU5x4 CS4x5], C => histories::<PKey, PVal, C>(name, x(2), x(3), x(4), t)),
            "vast" => {
                let n = x(4) as u32;
                match (w[2], w[3]) {
                    ("leaves", "unique") => vast::<VastLeaves<Unique>>(w[1], n, 1, t),
                    ("leaves", _) => vast::<VastLeaves<SyncShared>>(w[1], n, 1, t),
                    (_, "unique") => vast::<VastBranches<Unique>>(w[1], n * 4, 4, t),
                    _ => vast::<VastBranches<Shared>>(w[1], n * 4, 4, t),
                }
            }
            "units" => with_cfg!(w[1], [T64U T64S T64Y U4x4 S4x4 Y4x4 S5x5 U5x4 CU4x4 CS4x5], C => unit_keys::<C>(name, x(2), t)),
            _ => with_cfg!(w[1], [T64U T64S T64Y U4x4 S4x4 Y4x4 S5x5 U5x4 CU4x4 CS4x5], C => {
                let (b, l, d) = (x(2), x(3), x(4));
                match w[5] {
                    "zero" => histories::<U16Key, NoVal, C>(name, b, l, d, t),
                    "wide" => histories::<WideKey, WideVal, C>(name, b, l, d, t),
                    "align" => histories::<Al32Key, Al64Val, C>(name, b, l, d, t),
                    "align128" => histories::<Al128Key, Al128Val, C>(name, b, l, d, t),
                    "string" => histories::<StrKey, StrVal, C>(name, b, l, d, t),
                    "box" => histories::<BoxKey, BoxVal, C>(name, b, l, d, t),
                    "big" => histories::<BigKey, BigVal, C>(name, b, l, d, t),
                    "huge" => histories::<HugeKey, HugeVal, C>(name, b, l, d, t),
                    "hugeval" => histories::<U16Key, HugeVal, C>(name, b, l, d, t),
                    "maps" => histories::<MapKey<Unique>, MapVal<Shared>, C>(name, b, l, d, t),
                    "shared_maps" => histories::<MapKey<Shared>, MapVal<Unique>, C>(name, b, l, d, t),
                    "page" => histories::<PageKey, U8Val, C>(name, b, l, d, t),
                    "u8" => histories::<U16Key, U8Val, C>(name, b, l, d, t),
                    "zero64" => histories::<U16Key, NoVal64, C>(name, b, l, d, t),
                    _ => histories::<Al128Key, NoVal, C>(name, b, l, d, t),
                }
            }),
        }
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        full(s.t, s.m, s.probes)?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
