//! C10: comparison, hashing and formatting depend only on the contents, and agree with the standard library's map.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{PalmTree, StdPalmTree};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
type Std = BTreeMap<u16, u32>;

/// Two trees against what the standard library says about maps with their contents.
fn pair<C: Cfg>(a: &Tree<Key, Val, C>, sa: &BTreeMap<Key, Val>, b: &Tree<Key, Val, C>, sb: &BTreeMap<Key, Val>, t: &mut Tally) -> Result<(), String> {
    t.evals += 1;
    want!("==", a == b, sa == sb);
    want!("!=", a != b, sa != sb);
    want!("cmp", a.cmp(b), sa.cmp(sb));
    want!("partial_cmp", a.partial_cmp(b), sa.partial_cmp(sb));
    want!("<", a < b, sa < sb);
    want!(">=", a >= b, sa >= sb);
    if sa == sb {
        want!("hashes of equal maps agree", hash_of(a) == hash_of(b), true);
    }
    Ok(())
}
/// Gives every entry a value that is a function of its key.
fn normal<C: Cfg>(t: &mut Tree<Key, Val, C>, f: impl Fn(u16) -> u32) -> BTreeMap<Key, Val> {
    for (k, v) in t.iter_mut() {
        v.0 = f(k.k)
    }
    t.iter().map(|(k, v)| (Key::mk(k.k, k.tag), Val(v.0))).collect()
}
fn pairs<C: Cfg>(n: usize, part: usize, parts: usize, t: &mut Tally) -> Result<(), String> {
    let mut p = closure(C::NAME, n, 99);
    p.check = false;
    let all = collect::<C>(&p, t)?;
    let mut v: Vec<(Tree<Key, Val, C>, BTreeMap<Key, Val>, Vec<Op>)> = Vec::new();
    for (mut tr, m, h) in all {
        let std = normal(&mut tr, |k| k as u32);
        want!("contents", std.iter().map(|(k, _)| k.k).collect::<Vec<_>>(), m.e.iter().map(|e| e.k).collect::<Vec<_>>());
        v.push((tr, std, h));
    }
    if part == 0 {
        t.validated += v.len() as u64;
    } else {
        t.states = 0;
        t.transitions = 0;
    }
    // one tree per set of keys to compare everything with, and all the trees of one set with each other
    let mut groups: BTreeMap<Vec<u16>, Vec<usize>> = BTreeMap::new();
    for (i, x) in v.iter().enumerate() {
        groups.entry(x.1.keys().map(|k| k.k).collect()).or_default().push(i);
    }
    let reps: Vec<usize> = groups.values().map(|g| *g.last().unwrap()).collect();
    for g in groups.values() {
        for &i in g {
            if i % parts != part {
                continue;
            }
            tick();
            for &j in g.iter().chain(&reps) {
                pair(&v[i].0, &v[i].1, &v[j].0, &v[j].1, t).map_err(|e| format!("{} | versus {}: {}", show(&v[i].2), show(&v[j].2), e))?;
            }
            // a map that differs in one value
            let rep = reps.iter().find(|r| v[**r].1 == v[i].1).unwrap();
            let keys: Vec<Key> = v[i].1.keys().cloned().collect();
            for k in &keys {
                for d in [-1i64, 1] {
                    let mut o = v[*rep].0.clone();
                    let mut so: BTreeMap<Key, Val> = v[*rep].1.clone();
                    let x = (so[k].0 as i64 + d) as u32;
                    o[k] = Val(x);
                    so.insert(k.clone(), Val(x));
                    pair(&v[i].0, &v[i].1, &o, &so, t).map_err(|e| format!("{} | with another value for {}: {}", show(&v[i].2), k.k, e))?;
                    pair(&o, &so, &v[i].0, &v[i].1, t).map_err(|e| format!("{} | with another value for {}: {}", show(&v[i].2), k.k, e))?;
                }
            }
        }
    }
    Ok(())
}
/// Values that are not equal to themselves, or not ordered: every pair of maps over three keys and four floats.
fn floats(t: &mut Tally) -> Result<(), String> {
    let vals = [None, Some(0.0f64), Some(-0.0), Some(f64::NAN), Some(1.0)];
    let mut maps = Vec::new();
    for i in 0..125usize {
        let mut s: BTreeMap<u16, f64> = BTreeMap::new();
        for (k, d) in [1, 5, 25].iter().enumerate() {
            if let Some(v) = vals[i / d % 5] {
                s.insert(k as u16, v);
            }
        }
        let p: StdPalmTree<u16, f64> = s.iter().map(|(k, v)| (*k, *v)).collect();
        maps.push((p, s));
    }
    for (p, s) in &maps {
        want!("{:?} of a map of floats", format!("{:?}", p), format!("{:?}", s));
        for (q, r) in &maps {
            want!(format!("{:?} == {:?}", s, r), p == q, s == r);
            want!(format!("partial_cmp of {:?} and {:?}", s, r), p.partial_cmp(q), s.partial_cmp(r));
            want!(format!("{:?} <= {:?}", s, r), p <= q, s <= r);
            t.evals += 1;
        }
    }
    t.validated += maps.len() as u64;
    t.states += maps.len() as u64;
    Ok(())
}
/// The i-th map over `n` keys whose values are absent or one of `vals`.
fn nth_map(mut i: usize, n: usize, vals: usize) -> Vec<(u16, u16)> {
    let mut v = vec![];
    for k in 0..n as u16 {
        let x = i % (vals + 1);
        i /= vals + 1;
        if x > 0 {
            v.push((k, x as u16))
        }
    }
    v
}
/// The same map, come about in different ways.
fn made<C: palmtree::TreeConfig<u16, u16>>(v: &[(u16, u16)], how: usize) -> PalmTree<u16, u16, C> {
    match how % 5 {
        0 => PalmTree::load(v.iter().copied()),
        1 => v.iter().copied().collect(),
        2 => v.iter().rev().copied().collect(),
        3 => {
            // what is left of a larger one
            let mut m: PalmTree<u16, u16, C> = PalmTree::load((0..30).map(|k| (k, 9)));
            for k in 0..30 {
                match v.iter().find(|e| e.0 == k) {
                    Some(e) => m[&k] = e.1,
                    None => drop(m.remove(&k)),
                }
            }
            m
        }
        _ => {
            let (a, b) = v.split_at(v.len() / 2);
            let mut m: PalmTree<u16, u16, C> = PalmTree::load(a.iter().copied());
            m += PalmTree::load(b.iter().copied());
            m
        }
    }
}
/// Every pair of small maps which may differ in any of their keys and values.
fn valued<C: palmtree::TreeConfig<u16, u16>>(n: usize, vals: usize, t: &mut Tally) -> Result<(), String> {
    let all: Vec<_> = (0..(vals + 1).pow(n as u32)).map(|i| nth_map(i, n, vals)).collect();
    let stds: Vec<BTreeMap<u16, u16>> = all.iter().map(|v| v.iter().copied().collect()).collect();
    let maps: Vec<Vec<PalmTree<u16, u16, C>>> = all.iter().map(|v| (0..5).map(|how| made(v, how)).collect()).collect();
    for (i, a) in stds.iter().enumerate() {
        tick();
        for how in 0..5 {
            want!("{:?}", format!("{:?}", maps[i][how]), format!("{:?}", a));
            want!("hash", hash_of(&maps[i][how]), hash_of(&maps[i][0]));
        }
        for (j, b) in stds.iter().enumerate() {
            let (x, y) = (&maps[i][(i + j) % 5], &maps[j][(i / 3 + j * 2) % 5]);
            let what = |s: &str| format!("{} of {:?} (made the {}th way) and {:?} (made the {}th way)", s, a, (i + j) % 5, b, (i / 3 + j * 2) % 5);
            if (x == y) != (a == b) || (x != y) != (a != b) {
                return Err(what("the wrong answer to =="));
            }
            if x.cmp(y) != a.cmp(b) || x.partial_cmp(y) != a.partial_cmp(b) {
                return Err(what("the wrong ordering"));
            }
            if ((x < y), (x <= y), (x > y), (x >= y)) != ((a < b), (a <= b), (a > b), (a >= b)) {
                return Err(what("the wrong answer to <, <=, > or >="));
            }
            t.evals += 1;
        }
        if i % 97 == 0 {
            t.sample(|| format!("{:?}", a));
        }
    }
    t.states += all.len() as u64 * 5;
    t.validated += all.len() as u64;
    Ok(())
}
/// Elements with fields of their own, under every kind of format.
fn formats<C>(n: usize, t: &mut Tally) -> Result<(), String>
where
    C: palmtree::TreeConfig<u16, (i32, Option<f64>)> + palmtree::TreeConfig<(u16, u16), Vec<i32>> + palmtree::TreeConfig<u16, PalmTree<u16, (i32, Option<f64>), C>>,
{
    fn same<A: std::fmt::Debug, B: std::fmt::Debug>(a: &A, b: &B) -> Result<(), String> {
        want!("{:?}", format!("{:?}", a), format!("{:?}", b));
        want!("{:#?}", format!("{:#?}", a), format!("{:#?}", b));
        want!("{:7?}", format!("{:7?}", a), format!("{:7?}", b));
        want!("{:<5?}", format!("{:<5?}", a), format!("{:<5?}", b));
        want!("{:x?}", format!("{:x?}", a), format!("{:x?}", b));
        want!("{:#X?}", format!("{:#X?}", a), format!("{:#X?}", b));
        want!("{:+.2?}", format!("{:+.2?}", a), format!("{:+.2?}", b));
        want!("{:#06?}", format!("{:#06?}", a), format!("{:#06?}", b));
        Ok(())
    }
    fn shapes<V: Clone, K: Ord + Clone, C: palmtree::TreeConfig<K, V>>(s: &BTreeMap<K, V>) -> Vec<PalmTree<K, V, C>> {
        let pairs = || s.iter().map(|(k, v)| (k.clone(), v.clone()));
        let mut thin: PalmTree<K, V, C> = pairs().rev().collect();
        thin.extend(pairs());
        vec![PalmTree::load(pairs()), pairs().collect(), pairs().rev().collect(), thin]
    }
    for len in 0..=n {
        let a: BTreeMap<u16, (i32, Option<f64>)> = (0..len).map(|i| (i as u16 * 3, (i as i32 - 5, if i % 3 == 0 { None } else { Some(i as f64 / 7.0) }))).collect();
        let b: BTreeMap<(u16, u16), Vec<i32>> = (0..len).map(|i| ((i as u16 / 3, i as u16), (0..i as i32 % 4).map(|x| x - 1).collect())).collect();
        let mut inner = vec![];
        for m in shapes::<_, _, C>(&a) {
            same(&m, &a)?;
            same(&m.iter(), &a)?;
            inner.push(m);
            t.evals += 16;
        }
        for m in shapes::<_, _, C>(&b) {
            same(&m, &b)?;
            t.evals += 8;
        }
        // maps of maps
        let outer: BTreeMap<u16, PalmTree<u16, (i32, Option<f64>), C>> = inner.into_iter().enumerate().map(|(i, m)| (i as u16, m)).collect();
        let std: BTreeMap<u16, BTreeMap<u16, (i32, Option<f64>)>> = (0..4).map(|i| (i, a.clone())).collect();
        for m in shapes::<_, _, C>(&outer) {
            same(&m, &std)?;
            want!("a map of maps equals itself made otherwise", m == PalmTree::load(outer.iter().map(|(k, v)| (3 - *k, v.clone())).rev()), true);
            t.evals += 9;
        }
        tick();
    }
    t.states += 12 * (n as u64 + 1);
    t.validated += n as u64 + 1;
    Ok(())
}
/// Large maps, equal and different at one position.
fn large(n: usize, t: &mut Tally) -> Result<(), String> {
    let std: Std = (0..n).map(|i| (i as u16 * 2, i as u32)).collect();
    let loaded: StdPalmTree<u16, u32> = PalmTree::load(std.iter().map(|(k, v)| (*k, *v)));
    let inserted: StdPalmTree<u16, u32> = std.iter().rev().map(|(k, v)| (*k, *v)).collect();
    let mut holey: StdPalmTree<u16, u32> = PalmTree::load((0..2 * n as u16).map(|k| (k, k as u32 / 2)));
    for i in 0..n {
        holey.remove(&(i as u16 * 2 + 1));
    }
    let maps = [&loaded, &inserted, &holey];
    for a in maps {
        want!("{:?}", format!("{:?}", a) == format!("{:?}", std), true);
        for b in maps {
            want!("== of large equal maps", a == b, true);
            want!("cmp of large equal maps", a.cmp(b), std::cmp::Ordering::Equal);
            want!("hash of large equal maps", hash_of(a) == hash_of(b), true);
        }
        for i in 0..n {
            let k = i as u16 * 2;
            let mut o = loaded.clone();
            let mut so = std.clone();
            if i % 3 == 0 {
                o.remove(&k);
                so.remove(&k);
            } else {
                o.insert(k + (i % 3 - 1) as u16, 70_000);
                so.insert(k + (i % 3 - 1) as u16, 70_000);
            }
            want!(format!("== with a difference at {}", k), *a == o, false);
            want!(format!("cmp with a difference at {}", k), a.cmp(&o), std.cmp(&so));
            t.evals += 2;
        }
    }
    t.states += 3;
    t.validated += 3;
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C10";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (10, 4),
            (Tier::Quick, false) => (9, 3),
            (Tier::Thorough, true) => (12, 6),
            (Tier::Thorough, false) => (11, 5),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let (n, parts) = match (tier, checked) {
            (Tier::Quick, true) => (8, 8),
            (Tier::Quick, false) => (7, 4),
            (Tier::Thorough, _) => (9, 64),
        };
        let mut v = vec!["floats".to_string()];
        for (c, n, parts) in [("U4x4", n, parts), ("U5x4", n - 1, 2), ("Y4x4", n - 1, 2), ("S4x4", n - 1, 2), ("U7x7", n, 2)] {
            for p in 0..parts {
                v.push(format!("pairs {} {} {} {}", c, n, p, parts));
            }
        }
        let m = if tier == Tier::Quick { 6 } else { 7 };
        for (c, n, vals) in [("U4x4", m, 2), ("U4x5", m, 2), ("U5x4", m - 1, 3), ("S4x4", m - 1, 2), ("Y4x4", m - 1, 2), ("T64U", m - 1, 2)] {
            v.push(format!("valued {} {} {}", c, n, vals));
        }
        for c in ["U4x4", "U5x5", "S4x4", "Y4x4", "T64U"] {
            v.push(format!("formats {} {}", c, if c == "T64U" { 140 } else { 40 }));
        }
        for n in [1, 63, 64, 65, 300] {
            v.push(format!("large {}", n));
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        match w[0] {
            "floats" => floats(t),
            "large" => large(x(1), t),
            "valued" => with_cfg!(w[1], [U4x4 U4x5 U5x4 S4x4 Y4x4 T64U], C => valued::<C>(x(2), x(3), t)),
            "formats" => with_cfg!(w[1], [U4x4 U5x5 S4x4 Y4x4 T64U], C => formats::<C>(x(2), t)),
            _ => with_cfg!(w[1], [U4x4 U5x4 S4x4 Y4x4 U7x7], C => pairs::<C>(x(2), x(3), x(4), t)),
        }
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let std: BTreeMap<Key, Val> = s.m.e.iter().map(|e| (Key::mk(e.k, e.tag), Val(e.v))).collect();
        // another map with the same contents and no history
        let fresh: Tree<Key, Val, C> = PalmTree::load(s.m.e.iter().map(|e| (Key::mk(e.k, e.tag), Val(e.v))));
        pair(s.t, &std, &fresh, &std, t)?;
        pair(&fresh, &std, s.t, &std, t)?;
        pair(s.t, &std, &s.t.clone(), &std, t)?;
        want!("{:?}", format!("{:?}", s.t), format!("{:?}", std));
        want!("{:#?}", format!("{:#?}", s.t), format!("{:#?}", std));
        want!("{:?} of an iterator", format!("{:?}", s.t.iter()), format!("{:?}", std));
        let mut it = s.t.iter();
        if it.next().is_some() && it.next_back().is_some() {
            let mid: BTreeMap<Key, Val> = s.m.e[1..s.m.e.len() - 1].iter().map(|e| (Key::mk(e.k, e.tag), Val(e.v))).collect();
            want!("{:?} of a partly consumed iterator", format!("{:?}", it), format!("{:?}", mid));
        }
        // every map that differs in one place
        for (i, e) in s.m.e.iter().enumerate().take(24) {
            let (mut o, mut so) = (fresh.clone(), std.clone());
            o.remove(&Key::mk(e.k, 0));
            so.remove(&Key::mk(e.k, 0));
            pair(s.t, &std, &o, &so, t).map_err(|x| format!("without entry {}: {}", i, x))?;
            pair(&o, &so, s.t, &std, t).map_err(|x| format!("without entry {}: {}", i, x))?;
            o.insert(Key::mk(e.k, 0), Val(e.v ^ 1));
            so.insert(Key::mk(e.k, 0), Val(e.v ^ 1));
            pair(s.t, &std, &o, &so, t).map_err(|x| format!("with another value in entry {}: {}", i, x))?;
        }
        for &k in s.probes {
            if s.m.get(k).is_none() {
                let (mut o, mut so) = (fresh.clone(), std.clone());
                o.insert(Key::mk(k, 0), Val(0));
                so.insert(Key::mk(k, 0), Val(0));
                pair(s.t, &std, &o, &so, t).map_err(|x| format!("with {} added: {}", k, x))?;
            }
        }
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
