//! C05: bulk loading, merging and appending build exactly the right map, and a usable one.
use mc::{cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{MergeIter, PalmTree, TreeConfig};
use std::collections::{BTreeMap, HashSet};

type KTree<C> = Tree<Key, Val, C>;
type Prs<K, V> = Vec<(K, V)>;

fn build_from<K: KT, V: VT, C: TreeConfig<K, V>>(h: &[Op], ctr: u32) -> Result<(Tree<K, V, C>, Model), String> {
    let mut t = PalmTree::new();
    let mut m = Model { e: vec![], ctr };
    for &o in h {
        apply::<K, V, C>(&mut t, &mut m, o)?;
    }
    Ok((t, m))
}
/// The union, keys and values of the preferred side on duplicates.
fn union(a: &Model, b: &Model, right: bool) -> Model {
    let mut m = a.clone();
    m.ctr += b.ctr;
    for e in &b.e {
        match m.pos(e.k) {
            Ok(i) => {
                if right {
                    m.e[i] = *e
                }
            }
            Err(i) => m.e.insert(i, *e),
        }
    }
    m
}
/// As if the pairs were inserted one by one: stored keys stay.
fn extended(a: &Model, b: &Model) -> Model {
    let mut m = a.clone();
    m.ctr += b.ctr;
    for e in &b.e {
        m.insert(e.k, e.tag, e.v);
    }
    m
}
/// Has the right contents, and behaves from here on: every operation sequence of the alphabet to the depth.
struct Use<'a> {
    dom: &'a [u16],
    alphabet: &'a [Op],
    depth: usize,
    seen: HashSet<u128>,
}
impl Use<'_> {
    fn check<C: Cfg>(&mut self, tr: KTree<C>, m: &Model, t: &mut Tally) -> Result<(), String> {
        t.evals += 1;
        contents(&tr, m)?;
        if !self.seen.insert(fingerprint(&tr, self.dom)) {
            return Ok(());
        }
        t.validated += 1;
        for &k in self.dom {
            want!(format!("get({}) of the result", k), tr.get(&Key::mk(k, 0)).map(|v| v.0), m.get(k).map(|e| e.v));
        }
        want!("the result reversed", tr.iter().rev().map(|(k, _)| k.k).collect::<Vec<_>>(), m.e.iter().rev().map(|e| e.k).collect::<Vec<_>>());
        want!("the result consumed from the back", tr.clone().into_iter().rev().map(|(k, _)| k.k).collect::<Vec<_>>(), m.e.iter().rev().map(|e| e.k).collect::<Vec<_>>());
        let mut layer = vec![(tr, m.clone(), vec![])];
        for _ in 0..self.depth {
            let mut next = Vec::new();
            for (tr, m, h) in &layer {
                for &o in self.alphabet {
                    let (mut c, mut cm) = (tr.clone(), m.clone());
                    apply_checked::<C>(&mut c, &mut cm, o).map_err(|e| format!("later, after {}{}: {}", show(h), o, e))?;
                    t.transitions += 1;
                    if self.seen.insert(fingerprint(&c, self.dom)) {
                        let mut h2: Vec<Op> = h.clone();
                        h2.push(o);
                        next.push((c, cm, h2));
                    }
                }
            }
            t.states += layer.len() as u64;
            layer = next;
        }
        t.states += layer.len() as u64;
        Ok(())
    }
}
fn load_pairs<C: Cfg>(it: impl Iterator<Item = (Key, Val)>) -> KTree<C> {
    PalmTree::load(it)
}
/// Every way to join two maps.
fn join<C: Cfg>(a: &(KTree<C>, Model), b: &(KTree<C>, Model), u: &mut Use, t: &mut Tally) -> Result<(), String> {
    let (l, r) = (union(&a.1, &b.1, false), union(&a.1, &b.1, true));
    let x = || a.0.clone();
    let y = || b.0.clone();
    u.check(PalmTree::merge_left(x(), y()), &l, t).map_err(|e| format!("merge_left: {}", e))?;
    u.check(PalmTree::merge_right(x(), y()), &r, t).map_err(|e| format!("merge_right: {}", e))?;
    u.check(x() + y(), &r, t).map_err(|e| format!("+: {}", e))?;
    for (what, m) in [("append_left", &l), ("append_right", &r), ("+=", &r), ("extend", &extended(&a.1, &b.1))] {
        let mut z = x();
        match what {
            "append_left" => z.append_left(y()),
            "append_right" => z.append_right(y()),
            "+=" => z += y(),
            _ => z.extend(y()),
        }
        u.check(z, m, t).map_err(|e| format!("{}: {}", what, e))?;
    }
    for left in [true, false] {
        let m = if left { &l } else { &r };
        let mut it: Box<dyn Iterator<Item = (Key, Val)>> = if left { Box::new(PalmTree::merge_left_iter(x(), y())) } else { Box::new(PalmTree::merge_right_iter(x(), y())) };
        for (i, e) in m.e.iter().enumerate() {
            want!(format!("entry {} of merge_{}_iter", i, if left { "left" } else { "right" }), kv(it.next()), Some(want_seen::<Key, Val>(e)));
        }
        for _ in 0..3 {
            want!("a merging iterator after its end", kv(it.next()), None);
        }
        t.evals += 1;
    }
    contents(&a.0, &a.1).map_err(|e| format!("the left map itself: {}", e))?;
    contents(&b.0, &b.1).map_err(|e| format!("the right map itself: {}", e))
}
/// The ways that copy from a borrowed map, also of another configuration.
fn join_ref<C: Cfg, D: Cfg>(ha: &[Op], hb: &[Op], t: &mut Tally) -> Result<(), String> {
    let (a, am) = build_from::<PKey, PVal, C>(ha, 0)?;
    let (b, bm) = build_from::<PKey, PVal, D>(hb, 5000)?;
    let r = union(&am, &bm, true);
    let follow = |mut z: Tree<PKey, PVal, C>, m: &Model, what: &str| -> Result<(), String> {
        contents(&z, m).map_err(|e| format!("{}: {}", what, e))?;
        let mut m = m.clone();
        for e in m.e.clone() {
            want!(format!("{}, then get({})", what, e.k), z.get(&PKey::mk(e.k, 0)).map(|v| v.0), Some(e.v));
        }
        for e in m.e.clone() {
            apply::<PKey, PVal, C>(&mut z, &mut m, op(Code::insert, e.k as usize + 1, 0)).map_err(|x| format!("{}, then: {}", what, x))?;
            apply::<PKey, PVal, C>(&mut z, &mut m, op(Code::remove, e.k as usize, 0)).map_err(|x| format!("{}, then: {}", what, x))?;
        }
        contents(&z, &m).map_err(|e| format!("{}, then insertions and removals: {}", what, e))
    };
    follow(a.clone() + &b, &r, "+ &")?;
    let mut z = a.clone();
    z += &b;
    follow(z, &r, "+= &")?;
    let mut z = a.clone();
    z.extend(b.iter());
    follow(z, &extended(&am, &bm), "extend by references")?;
    contents(&b, &bm).map_err(|e| format!("the borrowed map: {}", e))?;
    contents(&a, &am).map_err(|e| format!("the original of the left map: {}", e))?;
    t.evals += 3;
    Ok(())
}
fn small<C: Cfg>(n: usize) -> Result<Vec<Vec<Op>>, String> {
    Ok(collect::<C>(&closure(C::NAME, n, 99), &mut Tally::default())?.into_iter().map(|x| x.2).collect())
}
fn pairs<C: Cfg, D: Cfg>(n: usize, part: usize, parts: usize, depth: usize, t: &mut Tally) -> Result<(), String> {
    let hs = small::<C>(n)?;
    let dom: Vec<u16> = (0..=n as u16 + 1).collect();
    let alphabet = basic(&(1..=n).collect::<Vec<_>>());
    let mut u = Use { dom: &dom, alphabet: &alphabet, depth, seen: HashSet::new() };
    let bs = hs.iter().map(|h| build_from::<Key, Val, C>(h, 5000)).collect::<Result<Vec<_>, _>>()?;
    for (i, ha) in hs.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        tick();
        let a = build_from::<Key, Val, C>(ha, 0)?;
        for (hb, b) in hs.iter().zip(&bs) {
            let with = |e| format!("{} | with {}: {}", show(ha), show(hb), e);
            join(&a, b, &mut u, t).map_err(with)?;
            join_ref::<C, D>(ha, hb, t).map_err(with)?;
            t.count("pairs of states", 1);
        }
    }
    Ok(())
}
fn tall<C: Cfg, D: Cfg>(i: usize, t: &mut Tally) -> Result<(), String> {
    let mut all: Vec<Vec<Op>> = seeds(C::B, C::L).into_iter().map(|s| s.ops).collect();
    let s = seeds(C::B, C::L)[i].clone();
    for (n, k) in [(1, 1), (1, s.max / 2), (C::L, 3), (C::B * C::L, 3), (C::B * C::L + 1, 1), (3, s.max)] {
        if n * k < 60000 {
            all.push(vec![op(Code::load, n, k)]);
        }
    }
    let alphabet = basic(&s.keys);
    let a = build_from::<Key, Val, C>(&s.ops, 0)?;
    for hb in &all {
        tick();
        let b = build_from::<Key, Val, C>(hb, 5000)?;
        let top = b.1.e.last().map_or(0, |e| e.k).max(s.max as u16) + 2;
        let dom: Vec<u16> = (0..top).collect();
        let mut u = Use { dom: &dom, alphabet: &alphabet, depth: 1, seen: HashSet::new() };
        let with = |e| format!("{} | with {}: {}", show(&s.ops), show(hb), e);
        join(&a, &b, &mut u, t).map_err(with)?;
        join(&b, &a, &mut u, t).map_err(with)?;
        join_ref::<C, D>(&s.ops, hb, t).map_err(with)?;
        join_ref::<C, D>(hb, &s.ops, t).map_err(with)?;
        t.count("pairs of tall trees", 1);
    }
    Ok(())
}
/// Loading n entries, for every n; and what happens to the loaded map next.
fn loads<C: Cfg>(from: usize, upto: usize, depth: usize, t: &mut Tally) -> Result<(), String> {
    for n in from..=upto {
        tick();
        let m = Model { e: (1..=n as u16).map(|i| Ent { k: 2 * i, tag: i as u32, v: i as u32 + 7 }).collect(), ctr: 50_000 };
        let prs = || m.e.iter().map(|e| (Key::mk(e.k, e.tag), Val(e.v)));
        let dom: Vec<u16> = (0..2 * n as u16 + 3).collect();
        let mut keys = vec![1, 2, 3, n / 2 * 2, n / 2 * 2 + 1, n, n + 1, 2 * n, 2 * n + 1, (2 * n).saturating_sub(1), 2 * C::L, 2 * C::L + 1];
        keys.retain(|k| *k > 0 && *k < 2 * n + 2);
        keys.sort_unstable();
        keys.dedup();
        let alphabet = basic(&keys);
        let mut u = Use { dom: &dom, alphabet: &alphabet, depth, seen: HashSet::new() };
        let with = |w: &'static str| move |e| format!("{} of {} entries: {}", w, n, e);
        u.check(load_pairs::<C>(prs()), &m, t).map_err(with("load"))?;
        u.check(load_pairs::<C>(prs().filter(|_| true)), &m, t).map_err(with("load (unknown length)"))?;
        let back: Prs<Key, Val> = prs().collect();
        u.check(load_pairs::<C>(back.into_iter()), &m, t).map_err(with("load"))?;
        let std: BTreeMap<Key, Val> = prs().collect();
        u.check(KTree::<C>::from(std), &m, t).map_err(with("from a standard map"))?;
        u.check(prs().collect::<KTree<C>>(), &m, t).map_err(with("collect ascending"))?;
        u.check(prs().rev().collect::<KTree<C>>(), &m, t).map_err(with("collect descending"))?;
        u.check(load_pairs::<C>(load_pairs::<C>(prs()).into_iter()), &m, t).map_err(with("load from a consumed map"))?;
        t.count("loaded sizes", 1);
    }
    Ok(())
}
/// Every sequence of up to `len` pairs over `n` keys, collected, and extended onto different maps.
fn sequences<C: Cfg>(n: usize, len: usize, first: usize, t: &mut Tally) -> Result<(), String> {
    let bases = [vec![], vec![op(Code::load, n, 2)], vec![op(Code::load, 3, 1), op(Code::drain_lowest, 3, 0)], vec![op(Code::load, 17, 2), op(Code::remove_range, 1, 30)]];
    let bases = bases.iter().map(|h| build_from::<Key, Val, C>(h, 5000)).collect::<Result<Vec<_>, _>>()?;
    let dom: Vec<u16> = (0..40).collect();
    let alphabet = basic(&(1..=n).collect::<Vec<_>>());
    let mut u = Use { dom: &dom, alphabet: &alphabet, depth: 1, seen: HashSet::new() };
    let total: usize = n.pow(len as u32 - 1);
    for c in 0..total {
        if c % 64 == 0 {
            tick();
        }
        let mut x = c;
        let mut seq = vec![first as u16];
        for _ in 1..len {
            seq.push((x % n) as u16 + 1);
            x /= n;
        }
        for b in &bases {
            let mut m = b.1.clone();
            let mut prs = Vec::new();
            for (i, &k) in seq.iter().enumerate() {
                prs.push((Key::mk(k, 100 + i as u32), Val(200 + i as u32)));
                m.insert(k, 100 + i as u32, 200 + i as u32);
            }
            let mut z = b.0.clone();
            let with = |e| format!("sequence {:?} on {} entries: {}", seq, b.1.e.len(), e);
            if b.1.e.is_empty() {
                u.check(prs.iter().cloned().collect::<KTree<C>>(), &m, t).map_err(with)?;
            }
            z.extend(prs);
            u.check(z, &m, t).map_err(with)?;
        }
        t.count("sequences", 1);
    }
    Ok(())
}
/// Longer sequences with repeated keys: `n` pairs over fewer than `n` keys, in every rotation pattern.
fn streams<C: Cfg>(from: usize, upto: usize, t: &mut Tally) -> Result<(), String> {
    let hs = [vec![], vec![op(Code::load, 21, 3)], vec![op(Code::load, 3 * C::L, 1), op(Code::remove_range, 2, C::L)]];
    let bases = hs.iter().map(|h| build_from::<Key, Val, C>(h, 5000)).collect::<Result<Vec<_>, _>>()?;
    let pbases = hs.iter().map(|h| build_from::<PKey, PVal, C>(h, 5000)).collect::<Result<Vec<_>, _>>()?;
    for n in from..=upto {
        let mut mods = vec![1, 2, n / 5 + 1, n / 3 + 1, n / 2 + 1, n.saturating_sub(1).max(1), n.max(1), 2 * n + 1];
        mods.sort_unstable();
        mods.dedup();
        for &m in &mods {
            let mut steps = vec![0, 1, m - 1, m / 2, m / 3 + 1, m * 5 / 13 + 1];
            steps.retain(|s| *s < m || m == 1);
            steps.sort_unstable();
            steps.dedup();
            for &step in &steps {
                tick();
                // a rotation, the same going to and fro, and every key twice in a row
                for shape in 0..3 {
                    let at = |i: usize| match shape {
                        0 => i * step % m,
                        1 if i / m % 2 == 1 => m - 1 - i * step % m,
                        1 => i * step % m,
                        _ => i / 2 * step % m,
                    } as u16 + 1;
                    let seq: Vec<u16> = (0..n).map(at).collect();
                    for ((b, p), h) in bases.iter().zip(&pbases).zip(&hs) {
                        let mut m = b.1.clone();
                        for (i, &k) in seq.iter().enumerate() {
                            m.insert(k, 100 + i as u32, 9000 + i as u32);
                        }
                        let with = |w: &'static str| {
                            let seq = &seq;
                            move |e| format!("{} of {:?} on [{}]: {}", w, seq, show(h), e)
                        };
                        let prs = || seq.iter().enumerate().map(|(i, &k)| (Key::mk(k, 100 + i as u32), Val(9000 + i as u32)));
                        let see_all = |z: &KTree<C>| -> Result<(), String> {
                            contents(z, &m)?;
                            for e in &m.e {
                                want!(format!("get({})", e.k), z.get(&Key::mk(e.k, 0)).map(|v| v.0), Some(e.v));
                            }
                            Ok(())
                        };
                        if b.1.e.is_empty() {
                            see_all(&prs().collect::<KTree<C>>()).map_err(with("collecting"))?;
                            see_all(&prs().collect::<Vec<_>>().into_iter().collect::<KTree<C>>()).map_err(with("collecting a vector"))?;
                            see_all(&prs().filter(|_| true).collect::<KTree<C>>()).map_err(with("collecting an unknown length"))?;
                            t.evals += 3;
                        }
                        let mut z = b.0.clone();
                        z.extend(prs());
                        see_all(&z).map_err(with("extending"))?;
                        let mut z = b.0.clone();
                        z.extend(prs().filter(|_| true));
                        see_all(&z).map_err(with("extending by an unknown length"))?;
                        let refs: Vec<(PKey, PVal)> = seq.iter().enumerate().map(|(i, &k)| (PKey::mk(k, 100 + i as u32), PVal(9000 + i as u32))).collect();
                        let mut z = p.0.clone();
                        z.extend(refs.iter().map(|(k, v)| (k, v)));
                        contents(&z, &m).map_err(with("extending by references"))?;
                        t.evals += 3;
                        t.transitions += 3 * n as u64;
                    }
                    t.count("longer sequences", 1);
                }
            }
        }
    }
    Ok(())
}
/// Every order in which n keys can be collected (by Heap's method).
fn orders<C: Cfg>(n: usize, t: &mut Tally) -> Result<(), String> {
    let dom: Vec<u16> = (0..n as u16 + 2).collect();
    let alphabet = basic(&(1..=n).collect::<Vec<_>>());
    let mut u = Use { dom: &dom, alphabet: &alphabet, depth: 1, seen: HashSet::new() };
    let mut p: Vec<u16> = (1..=n as u16).collect();
    let mut c = vec![0usize; n];
    let mut go = |p: &[u16]| {
        let mut m = Model::default();
        for (i, &k) in p.iter().enumerate() {
            m.insert(k, i as u32, i as u32);
        }
        let tr: KTree<C> = p.iter().enumerate().map(|(i, &k)| (Key::mk(k, i as u32), Val(i as u32))).collect();
        t.count("orders", 1);
        u.check(tr, &m, t).map_err(|e| format!("collected in order {:?}: {}", p, e))
    };
    go(&p)?;
    let mut i = 0;
    let mut steps = 0u64;
    while i < n {
        if c[i] < i {
            p.swap(if i % 2 == 0 { 0 } else { c[i] }, i);
            go(&p)?;
            steps += 1;
            if steps % 256 == 0 {
                tick();
            }
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
    Ok(())
}
/// The merging iterator itself, over every pair of ascending sequences of up to n keys, plain and from maps.
fn merging<C: Cfg>(n: usize, t: &mut Tally) -> Result<(), String> {
    type Pr = (u16, u32);
    let pick = |set: usize, side: u32| -> Vec<Pr> { (0..n).filter(|i| set >> i & 1 == 1).map(|i| (i as u16 + 1, side + i as u32)).collect() };
    for left in 0..1usize << n {
        tick();
        let a = pick(left, 100);
        let x: KTree<C> = load_pairs(a.iter().map(|p| (Key::mk(p.0, 0), Val(p.1))));
        for right in 0..1usize << n {
            let b = pick(right, 200);
            let y: KTree<C> = load_pairs(b.iter().map(|p| (Key::mk(p.0, 0), Val(p.1))));
            for biased in [false, true] {
                let mut want: BTreeMap<u16, u32> = a.iter().copied().collect();
                for p in &b {
                    if biased {
                        want.insert(p.0, p.1);
                    } else {
                        want.entry(p.0).or_insert(p.1);
                    }
                }
                let mut want: Vec<Option<Pr>> = want.into_iter().map(Some).collect();
                want.extend([None, None]);
                let with = |w: &str, got: Vec<Option<Pr>>| match got == want {
                    true => Ok(()),
                    false => Err(format!("MergeIter over {} {:?} and {:?}, {}-biased, gave {:?}", w, a, b, if biased { "right" } else { "left" }, got)),
                };
                let total = want.len();
                let mut it = MergeIter::merge(a.iter().copied(), b.iter().copied(), |l: &Pr, r: &Pr| if biased { l.0 >= r.0 } else { l.0 > r.0 }, |l: &Pr, r: &Pr| l.0 == r.0);
                with("sequences", (0..total).map(|_| it.next()).collect())?;
                type Rf<'a> = (&'a Key, &'a Val);
                let mut it = MergeIter::merge(x.iter(), y.iter(), |l: &Rf, r: &Rf| if biased { l.0 >= r.0 } else { l.0 > r.0 }, |l: &Rf, r: &Rf| l.0 == r.0);
                with("iterators of", (0..total).map(|_| it.next().map(|(k, v)| (k.k, v.0))).collect())?;
                let from = Key::mk(2, 0);
                let mut it = MergeIter::merge(x.range(from.clone()..), y.range(..from.clone()), |l: &Rf, r: &Rf| l.0 > r.0, |l: &Rf, r: &Rf| l.0 == r.0);
                let got: Vec<_> = (0..total).map(|_| it.next().map(|(k, v)| (k.k, v.0))).collect();
                let mut parts: Vec<Pr> = b.iter().copied().filter(|p| p.0 < 2).chain(a.iter().copied().filter(|p| p.0 >= 2)).collect();
                parts.sort_unstable();
                let mut parts: Vec<_> = parts.into_iter().map(Some).collect();
                parts.resize(total, None);
                want!(format!("MergeIter over the upper part of {:?} and the lower part of {:?}", a, b), got, parts);
                t.evals += 3;
            }
            t.transitions += 1;
        }
        t.count("merged sequences", 1 << n);
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C05";
    cfg_dispatch!([U4x4]);
    fn plans(_: Tier, _: bool) -> Vec<Plan> {
        vec![]
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let mut v = vec![];
        let quick = tier == Tier::Quick;
        let (n, parts, depth) = if quick { (6 - !checked as usize, 16, 2) } else { (7, 128, 3) };
        for (c, d, less) in [("U4x4", "U5x5", 0), ("U5x5", "S4x4", 0), ("U5x4", "T64U", 1), ("S4x4", "Y4x4", 1), ("Y4x4", "U4x4", 1)] {
            for p in 0..parts {
                v.push(format!("pairs {} {} {} {} {} {}", c, d, n - less, p, parts, depth));
            }
        }
        for (c, d) in [("U4x4", "U5x4"), ("U5x5", "U4x4"), ("U5x4", "U4x5"), ("U4x5", "S4x4"), ("S4x4", "U4x4"), ("Y4x4", "U5x5")] {
            for i in 0..13 {
                v.push(format!("tall {} {} {}", c, d, i));
            }
        }
        for c in ["U4x4", "U5x5", "U4x5", "U5x4", "S4x4", "Y4x4", "U7x7"] {
            let top = if quick { 180 } else { 420 };
            for i in (0..=top).step_by(20) {
                v.push(format!("loads {} {} {} {}", c, i, i + 19, if quick { 1 } else { 2 }));
            }
        }
        for c in ["U4x4", "U5x5", "S4x4"] {
            v.push(format!("merging {} {}", c, if quick { 7 } else { 9 }));
        }
        for c in ["U4x4", "U5x5", "S4x4", "U7x7", "T64U"] {
            let top = if quick { 150 } else { 420 };
            for i in (0..=top).step_by(10) {
                v.push(format!("streams {} {} {}", c, i, i + 9));
            }
        }
        for (a, b) in [(0, 3), (62, 66), (126, 130), (4094, 4098), (4158, 4162), (8190, 8194)] {
            v.push(format!("loads T64U {} {} 1", a, b));
        }
        for c in ["U4x4", "U5x5", "Y4x4"] {
            for f in 1..=5 {
                for len in 1..=(if quick { 6 } else { 8 }) {
                    v.push(format!("sequences {} 5 {} {}", c, len, f));
                }
            }
            for n in 1..=(if quick { 7 } else { 9 }) {
                v.push(format!("orders {} {}", c, n));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        macro_rules! two {
            ($f:ident, $($args:expr),*) => {
                with_cfg!(w[1], [U4x4 U5x5 U5x4 U4x5 S4x4 Y4x4], C => match w[2] {
                    "U5x5" => $f::<C, U5x5>($($args),*),
                    "U5x4" => $f::<C, U5x4>($($args),*),
                    "U4x5" => $f::<C, U4x5>($($args),*),
                    "S4x4" => $f::<C, S4x4>($($args),*),
                    "Y4x4" => $f::<C, Y4x4>($($args),*),
                    "T64U" => $f::<C, T64U>($($args),*),
                    _ => $f::<C, U4x4>($($args),*),
                })
            };
        }
        match w[0] {
            "pairs" => two!(pairs, x(3), x(4), x(5), x(6), t),
            "tall" => two!(tall, x(3), t),
            "loads" => with_cfg!(w[1], [U4x4 U5x5 U5x4 U4x5 S4x4 Y4x4 U7x7 T64U], C => loads::<C>(x(2), x(3), x(4), t)),
            "streams" => with_cfg!(w[1], [U4x4 U5x5 S4x4 U7x7 T64U], C => streams::<C>(x(2), x(3), t)),
            "merging" => with_cfg!(w[1], [U4x4 U5x5 S4x4], C => merging::<C>(x(2), t)),
            "sequences" => with_cfg!(w[1], [U4x4 U5x5 Y4x4], C => sequences::<C>(x(2), x(3), x(4), t)),
            _ => with_cfg!(w[1], [U4x4 U5x5 Y4x4], C => orders::<C>(x(2), t)),
        }
    }
    fn state<C: Cfg>(_: &St<C>, _: &mut Tally) -> Result<(), String> {
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
