//! C17: the memory a map holds is in proportion to its contents, and reading needs none.
use mc::{cfg_dispatch, engine::*, grow::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{Entry, PalmTree, TreeConfig};
use std::hash::{Hash, Hasher};

/// How much memory maps of a configuration may hold, in bytes.
#[derive(Clone, Copy)]
struct Room {
    cost: Cost,
    /// What a map of one entry holds: a node of either kind, so no node is larger.
    one: i64,
    leaf: i64,
}
impl Room {
    fn new<K: Ord + Clone + 'static, V: Clone + 'static, C: TreeConfig<K, V>>(b: usize, l: usize, k: impl Fn(usize) -> K, v: V) -> Room {
        let before = live_bytes();
        let mut t: PalmTree<K, V, C> = PalmTree::new();
        t.insert(k(0), v.clone());
        let one = live_bytes() - before;
        drop(t);
        // what a map grows by at least, when it grows
        let mut leaf = one;
        for how in 0..4 {
            let before = live_bytes();
            let mut t: PalmTree<K, V, C> = PalmTree::new();
            let mut last = one;
            for i in 0..3 * l {
                match how {
                    0 => drop(t.insert(k(i), v.clone())),
                    1 => drop(t.insert(k(3 * l - i), v.clone())),
                    2 => drop(t.insert_recursive(k(i), v.clone())),
                    _ => t = PalmTree::load((0..=i).map(|i| (k(i), v.clone()))),
                }
                let now = live_bytes() - before;
                if now > last {
                    leaf = leaf.min(now - last);
                }
                last = now;
            }
        }
        // whatever this tells is believed only as far as it makes sense
        Room { cost: Cost { b, l }, one, leaf: leaf.clamp((l * std::mem::size_of::<(K, V)>()) as i64, one) }
    }
    /// Any map of `len` entries, `n` insertions having been made: no node without an entry below it.
    fn any(&self, len: usize, n: usize) -> i64 {
        self.one * (1 + len as i64 * self.cost.levels(n) as i64)
    }
    /// Nodes at least half full, except for one or `edges` on each level, and half as much again.
    fn half_full(&self, len: usize, n: usize, edges: usize) -> i64 {
        let mut level = len.div_ceil(self.cost.l / 2);
        let leaves = level as i64 * self.leaf;
        let mut branches = 0;
        while level > 1 {
            level /= self.cost.b / 2;
            branches += level as i64;
        }
        (leaves + branches * (self.one - self.leaf)) * 3 / 2 + (edges as i64 * self.cost.levels(n) as i64 + 1) * self.one
    }
    /// The memory a position in the tree may take, or a few of them, or the output of a formatter.
    fn path(&self, n: usize) -> i64 {
        1024 + 256 * self.cost.levels(n) as i64
    }
}
fn at_most(what: &dyn Fn() -> String, got: i64, most: i64, t: &mut Tally) -> Result<(), String> {
    t.evals += 1;
    if got > most {
        return Err(format!("{}: {} bytes, more than {}", what(), got, most));
    }
    Ok(())
}
/// What this map alone holds.
fn held<T>(t: T) -> i64 {
    let before = live_bytes();
    drop(t);
    before - live_bytes()
}

// ---------------------------------------------------------------- growing and draining, measured after every step

fn grown<C: TreeConfig<NKey, Val>>(how: &str, order_of: &[usize], n: usize) -> NTree<C> {
    let mut t: NTree<C>;
    let pairs = |v: std::ops::Range<usize>, step: usize| v.step_by(step).map(|i| (key(i), Val(i as u32)));
    match how {
        "load" => return PalmTree::load(pairs(0..n, 1)),
        "collect" => return order_of.iter().map(|i| (key(*i), Val(0))).collect(),
        "append_left" => {
            t = PalmTree::load(pairs(n / 2..n, 1));
            t.append_left(PalmTree::load(pairs(0..n / 2, 1)))
        }
        "append_right" => {
            t = PalmTree::load(pairs(0..n, 2));
            t.append_right(PalmTree::load(pairs(1..n, 2)))
        }
        "extend" => {
            t = PalmTree::load(pairs(0..n, 2));
            t.extend(pairs(1..n, 2))
        }
        _ => unreachable!(),
    }
    t
}
const STEPWISE: &[&str] = &["ascend", "descend", "outside_in", "inside_out", "bitrev", "stride", "rec_ascend", "rec_descend", "rec_outside_in", "rec_inside_out", "rec_bitrev", "rec_stride", "entry_ascend", "entry_descend", "entry_inside_out", "entry_bitrev", "load_then_fill"];
const BULK: &[&str] = &["load", "collect", "append_left", "append_right", "extend"];
fn put<C: TreeConfig<NKey, Val>>(t: &mut NTree<C>, how: &str, i: usize) {
    if how.starts_with("rec") {
        t.insert_recursive(key(i), Val(0));
    } else if how.starts_with("entry") {
        match t.entry(key(i)) {
            Entry::Vacant(e) => e.insert(Val(0)).0 = 1,
            Entry::Occupied(mut e) => drop(e.insert(Val(2))),
        }
    } else {
        t.insert(key(i), Val(0));
    }
}
fn sorted(how: &str) -> &str {
    how.split_once('_').filter(|x| matches!(x.0, "rec" | "entry")).map_or(how, |x| x.1)
}
/// Grows a map in one way, measured after every step, then empties it in one way.
fn fill<C: TreeConfig<NKey, Val>>(room: Room, how: &str, n: usize, drains: &[&str], t: &mut Tally) -> Result<(), String> {
    let o = order(if how == "load_then_fill" { "stride" } else if how == "collect" { "bitrev" } else { sorted(how) }, n);
    for (i, drain) in drains.iter().enumerate() {
        let base = live_bytes();
        let mut m: NTree<C>;
        if STEPWISE.contains(&how) {
            m = PalmTree::new();
            let mut len = 0;
            let mut o = o.clone();
            let own = (o.capacity() * std::mem::size_of::<usize>()) as i64;
            if how == "load_then_fill" {
                m = PalmTree::load((0..n).step_by(2).map(|i| (key(i), Val(i as u32))));
                len = m.len();
                o.retain(|i| i % 2 == 1);
            }
            for k in &o {
                put(&mut m, how, *k);
                len += 1;
                t.transitions += 1;
                if i == 0 {
                    at_most(&|| format!("{} entries by {}", len, how), live_bytes() - base - own, room.half_full(len, len, 1), t)?;
                }
            }
        } else {
            m = grown::<C>(how, &o, n);
            t.transitions += n as u64;
            at_most(&|| format!("{} entries by {}", n, how), live_bytes() - base, room.half_full(n, n, 2), t)?;
        }
        want!("entries", m.len(), n);
        // overwriting and looking changes nothing
        let full = live_bytes() - base;
        for k in (0..n).step_by(n / 50 + 1) {
            put(&mut m, how, k);
            m.get_mut(&key(k)).map(|v| v.0 = 1);
            if let Entry::Occupied(mut e) = m.entry(key(k)) {
                e.insert(Val(3));
            }
            drop(m.entry(NKey(2 * k as u32)));
            m.remove(&NKey(2 * k as u32));
        }
        want!(format!("bytes held after overwriting some of {} entries by {}", n, how), live_bytes() - base, full);
        let d = order(sorted(drain), n);
        let own = (d.capacity() * std::mem::size_of::<usize>()) as i64;
        let left = |m: &NTree<C>, t: &mut Tally| -> Result<(), String> {
            t.states += 1;
            let len = m.len();
            let most = if len == 0 { room.one } else { room.any(len, n).min(full + room.one) };
            at_most(&|| format!("{} entries left of {} by {}, drained by {}", len, n, how, drain), live_bytes() - base - own, most, t)
        };
        for (i, k) in d.iter().enumerate() {
            let gone = match *drain {
                "lowest" => m.remove_lowest().is_some(),
                "highest" => m.remove_highest().is_some(),
                "ends" if i % 2 == 0 => m.remove_lowest().is_some(),
                "ends" => m.remove_highest().is_some(),
                d if d.starts_with("entry") => match m.entry(key(*k)) {
                    Entry::Occupied(e) => {
                        e.remove_entry();
                        true
                    }
                    _ => false,
                },
                _ => m.remove(&key(*k)).is_some(),
            };
            want!("removed", gone, true);
            t.transitions += 1;
            // a queue's end: what has been drained from one side must be gone
            if matches!(*drain, "lowest" | "highest" | "ends" | "ascend" | "descend" | "entry_ascend" | "entry_descend") {
                at_most(&|| format!("{} entries left of {} by {}, drained by {}", m.len(), n, how, drain), live_bytes() - base - own, room.half_full(m.len(), n, 2), t)?;
            }
            left(&m, t)?;
        }
        want!("entries left", m.len(), 0);
        // fill it again: an emptied map is as good as a new one
        for k in 0..n.min(64) {
            put(&mut m, how, k);
        }
        at_most(&|| format!("{} entries after {} by {} were drained by {}", n.min(64), n, how, drain), live_bytes() - base - own, room.half_full(n.min(64), n, 2), t)?;
        drop(m);
        want!(format!("bytes held after a map of {} by {} is gone", n, how), live_bytes() - base - own, 0);
        tick();
    }
    Ok(())
}
const ENDS: &[&str] = &["lowest", "highest", "ends", "ascend", "descend", "inside_out", "bitrev", "stride", "evens_odds", "entry_ascend", "entry_descend", "entry_stride"];

/// A window of entries that moves: memory must not grow with how far it has moved.
fn queue<C: TreeConfig<NKey, Val>>(room: Room, w: usize, rounds: usize, t: &mut Tally) -> Result<(), String> {
    for how in ["up", "down", "up_rec", "down_rec", "up_entry", "down_entry", "middle", "churn", "stack", "refill"] {
        let base = live_bytes();
        let far = w * rounds + 1;
        let mut m: NTree<C> = PalmTree::load((far..far + w).map(|i| (key(i), Val(0))));
        let kind = how.split_once('_').map_or("plain", |x| x.1);
        for i in 0..w * rounds {
            match how.split('_').next().unwrap() {
                "up" => {
                    put(&mut m, kind, far + w + i);
                    m.remove_lowest();
                }
                "down" => {
                    put(&mut m, kind, far - 1 - i);
                    m.remove_highest();
                }
                "middle" => {
                    // comes in at the top, goes by key from the bottom
                    put(&mut m, kind, far + w + i);
                    want!("removed", m.remove(&key(far + i)).is_some(), true);
                }
                "churn" => {
                    // in between all the others, one at a time
                    let k = NKey(2 * (far + i * 7 % w) as u32);
                    m.insert(k.clone(), Val(0));
                    want!("removed", m.remove(&k).is_some(), true);
                }
                "stack" => {
                    let top = far + w;
                    if i / w % 2 == 0 {
                        put(&mut m, kind, top + i % w)
                    } else {
                        m.remove_highest();
                    }
                }
                _ => {
                    // emptied and filled, over and over
                    if i % w == 0 {
                        while m.remove_lowest().is_some() {}
                        at_most(&|| format!("a map of {} filled and emptied {} times", w, i / w), live_bytes() - base, room.one, t)?;
                    }
                    put(&mut m, ["plain", "rec", "entry"][i / w % 3], far + i % w)
                }
            }
            t.transitions += 2;
            // what one insertion and one removal each could leave half full, and the edges
            at_most(&|| format!("{} entries ({}) after {} steps", m.len(), how, i), live_bytes() - base, room.half_full(m.len().max(w) + 1, far, 4), t)?;
            if i % 256 == 0 {
                tick();
            }
        }
        drop(m);
        want!("bytes held after the map is gone", live_bytes() - base, 0);
    }
    t.states += 1;
    Ok(())
}

// ---------------------------------------------------------------- transient memory

struct Null(u64);
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 += b.len() as u64
    }
}
fn transient<C: TreeConfig<Key, Val>>(room: Room, shared: bool, n: usize, t: &mut Tally) -> Result<(), String> {
    use std::fmt::Write;
    let pairs = |r: std::ops::Range<usize>| r.map(|i| (Key { k: 2 * i as u16 + 1, tag: 0 }, Val(i as u32)));
    let path = room.path(n);
    let full = |n: usize| room.half_full(n, n, 2);
    let grow = |from_bulk: bool| -> Tree<Key, Val, C> {
        if from_bulk {
            PalmTree::load(pairs(0..n))
        } else {
            let mut m = PalmTree::new();
            for (k, v) in pairs(0..n) {
                m.insert(k, v);
            }
            m
        }
    };
    macro_rules! none {
        ($what:expr, $extra:expr, $e:expr) => {{
            let (_, peak, left) = peak_of(|| drop($e));
            at_most(&|| format!("{} in a map of {}, meanwhile", $what, n), peak, path + $extra, t)?;
            want!(format!("{} in a map of {}: bytes left behind", $what, n), left, 0);
        }};
    }
    // consuming things needs no more than they hold already
    macro_rules! uses {
        ($what:expr, $c:ident, $e:expr) => {{
            let (_, peak, _) = peak_of(|| {
                let $c = $c;
                drop($e)
            });
            at_most(&|| format!("{} in a map of {}, meanwhile", $what, n), peak, path, t)?;
        }};
    }
    for bulk in [true, false] {
        let base = live_bytes();
        let mut m = grow(bulk);
        let own = live_bytes() - base;
        let other = grow(!bulk);
        for i in 0..=n {
            for k in [2 * i as u16, 2 * i as u16 + 1] {
                let k = Key { k, tag: 0 };
                none!("get", 0, m.get(&k).is_some());
                none!("get_linear", 0, m.get_linear(&k).is_some());
                none!("get_mut", 0, m.get_mut(&k).is_some());
                none!("entry", 0, m.entry(k.clone()));
                none!("range from", 0, m.range(k.clone()..).next().is_some());
                none!("range to", 0, m.range(..k.clone()).next_back().is_some());
                none!("range_mut from", 0, m.range_mut(k.clone()..).next().is_some());
                none!("range_mut to", 0, m.range_mut(..=k).next_back().is_some());
            }
        }
        none!("iter", 0, m.iter().count());
        none!("iter from the back", 0, m.iter().rev().count());
        none!("two iterators", path, m.iter().zip(m.iter().clone().rev()).count());
        none!("iter_mut", 0, m.iter_mut().count());
        none!("iter_mut from the back", 0, m.iter_mut().rev().count());
        none!("range", 0, m.range(Key { k: 0, tag: 0 }..).count());
        none!("==", path, m == other);
        none!("cmp", path, m.cmp(&other));
        none!("partial_cmp", path, m.partial_cmp(&other));
        none!("hashing", 0, m.hash(&mut Sum(0)));
        none!("formatting", 0, write!(Null(0), "{:?}", m));
        none!("formatting at length", 0, write!(Null(0), "{:#?}", m));
        none!("formatting an iterator", path, write!(Null(0), "{:?}", m.iter()));
        none!("len", 0, (m.len(), m.is_empty()));
        want!("bytes held after reading", live_bytes() - base - held(other), own);
        // a clone, and another: none for shared nodes, as much again for others
        let clone = |x: &Tree<Key, Val, C>| x.clone();
        let (c, peak, _) = peak_of(|| clone(&m));
        at_most(&|| format!("cloning a map of {}", n), peak, if shared { path } else { own + path }, t)?;
        if shared && n > 0 {
            let (d, peak, _) = peak_of(|| clone(&c));
            at_most(&|| format!("cloning a clone of a map of {}", n), peak, path, t)?;
            drop(d);
            // reading through a clone copies nothing
            none!("get in a clone", 0, c.get(&Key { k: 1, tag: 0 }).is_some());
            none!("iter in a clone", 0, c.iter().count());
            none!("== of clones", path, c == m);
            // writing copies it at most once
            let mut c = c;
            let (_, peak, _) = peak_of(|| drop(c.insert(Key { k: 1, tag: 0 }, Val(9))));
            at_most(&|| format!("a write to a clone of a map of {}", n), peak, own + 2 * room.one + path, t)?;
            none!("a second write to a clone", 0, c.insert(Key { k: 1, tag: 0 }, Val(9)));
            none!("a write to the other side", 0, m.insert(Key { k: 1, tag: 0 }, Val(8)));
            drop(c);
        } else {
            drop(c);
        }
        want!("bytes held after clones have come and gone", live_bytes() - base, own);
        // consuming: entries move out, nothing is copied
        let c = grow(bulk);
        uses!("into_iter", c, c.into_iter().count());
        let c = grow(bulk);
        uses!("into_iter from the back", c, c.into_iter().rev().count());
        let mut it = grow(bulk).into_iter();
        for _ in 0..n / 2 {
            it.next();
        }
        uses!("abandoning an iterator", it, drop(it));
        // building from a stream holds what it builds, merging what it reads besides
        let (_, peak, _) = peak_of(|| grow(true));
        at_most(&|| format!("loading {}", n), peak, full(n) + 4 * room.one + path, t)?;
        for h in 0..4 {
            let (a, b) = (n * h / 4, n / 2);
            let (l, r): (Tree<Key, Val, C>, Tree<Key, Val, C>) = (PalmTree::load(pairs(0..a)), PalmTree::load(pairs(b..n)));
            let (c, peak, _) = peak_of(|| match h {
                0 => PalmTree::merge_left(l, r),
                1 => PalmTree::merge_right(l, r),
                2 => {
                    let mut l = l;
                    l.append_left(r);
                    l
                }
                _ => {
                    let mut l = l;
                    l.append_right(r);
                    l
                }
            });
            at_most(&|| format!("merging {} and {}", a, n - b), peak, full(n) + 4 * room.one + 2 * path, t)?;
            at_most(&|| format!("what merging {} and {} gives", a, n - b), held(c), full(n), t)?;
        }
        drop(m);
        want!("bytes held at the end", live_bytes() - base, 0);
        t.transitions += 16 * n as u64;
        tick();
    }
    t.states += 1;
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C17";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 CU4x4 CS4x4 U4x16 S16x4 U16x17 T64U T64Y]);
    fn plans(tier: Tier, _: bool) -> Vec<Plan> {
        let (n, d) = if tier == Tier::Quick { (10, 3) } else { (12, 5) };
        let mut v = closures(n);
        v.push(closure("CS4x4", n - 2, 99));
        v.push(closure("CU4x4", n - 2, 99));
        v.extend(talls(MIXED, d));
        v.extend(talls(&[("U4x16", 4, 16), ("S16x4", 16, 4)], d - 1));
        v.extend(talls(&[("U16x17", 16, 17), ("T64U", 64, 64), ("T64Y", 64, 64)], d - 2));
        v
    }
    fn jobs(tier: Tier, _: bool) -> Vec<String> {
        let quick = tier == Tier::Quick;
        let mut v = vec![];
        for c in ["U4x4", "U5x5", "U4x5", "U5x4", "S4x4", "Y4x4", "U16x17", "U65x63", "T64U", "T64S", "T64Y", "U300x4", "S4x300", "CU4x4", "CS4x4"] {
            for g in STEPWISE.iter().chain(BULK) {
                v.push(format!("sizes {} {} {}", c, g, if quick { 90 } else { 240 }));
                v.push(format!("fill {} {} {}", c, g, if quick { 6000 } else { 60_000 }));
            }
            for w in if quick { vec![1, 2, 3, 5, 8, 13, 31, 70, 150, 700] } else { (1..80).chain([150, 300, 700, 5000]).collect() } {
                v.push(format!("queue {} {} {}", c, w, if w > 500 { 12 } else { 40 }));
            }
            for n in if quick { vec![0, 1, 5, 20, 64, 65, 300, 1500] } else { (0..130).chain([300, 1000, 3000, 8000]).collect() } {
                v.push(format!("transient {} {}", c, n));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        t.sample(|| name.to_string());
        with_cfg!(w[1], [U4x4 U5x5 U4x5 U5x4 S4x4 Y4x4 U16x17 U65x63 T64U T64S T64Y U300x4 S4x300 CU4x4 CS4x4], C => {
            let room = Room::new::<NKey, Val, C>(C::B, C::L, key, Val(0));
            match w[0] {
                "sizes" => (0..=x(3)).try_for_each(|n| fill::<C>(room, w[2], n, ENDS, t)),
                "fill" => {
                    let i = STEPWISE.iter().chain(BULK).position(|g| *g == w[2]).unwrap();
                    fill::<C>(room, w[2], x(3), &[ENDS[i % ENDS.len()], ENDS[(i + 5) % ENDS.len()]], t)
                }
                "queue" => queue::<C>(room, x(2), x(3), t),
                _ => transient::<C>(Room::new::<Key, Val, C>(C::B, C::L, |i| Key { k: i as u16, tag: 0 }, Val(0)), C::SHARED, x(2), t),
            }?;
            t.validated += 1;
            Ok(())
        })
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        use Code::*;
        let room = Room::new::<Key, Val, C>(C::B, C::L, |i| Key { k: i as u16, tag: 0 }, Val(0));
        let (len, n) = (s.m.e.len(), s.m.ctr as usize + s.m.e.len());
        let tree = || build::<Key, Val, C>(s.hist).map(|x| x.0);
        let own = held(tree()?);
        let most = if len == 0 { room.one } else { room.any(len, n) };
        at_most(&|| format!("a map of {} entries", len), own, most, t)?;
        if s.hist.iter().all(|o| matches!(o.c, insert | insert_recursive | entry_insert | load | ascend | descend | shuffle)) {
            at_most(&|| format!("a map of {} entries, none removed", len), own, room.half_full(len, n, 2), t)?;
        }
        // every operation on a map of one's own or on a clone gives back in the end what it took
        let base = live_bytes();
        let m = tree()?;
        let c = m.clone();
        let with = live_bytes() - base - own;
        at_most(&|| "a clone".into(), with, if C::SHARED { 0 } else { own }, t)?;
        drop(m);
        want!("bytes held by a clone whose original is gone", live_bytes() - base, own.min(with + own));
        let mut c = c;
        while c.remove_lowest().is_some() {}
        at_most(&|| "a clone that has been emptied".into(), live_bytes() - base, room.one, t)?;
        c.insert(Key { k: 1, tag: 0 }, Val(0));
        at_most(&|| "a clone that has been emptied and got an entry".into(), live_bytes() - base, room.one, t)?;
        drop(c);
        want!("bytes held when all are gone", live_bytes() - base, 0);
        // emptying from the other end, and by key
        let mut m = tree()?;
        while m.remove_highest().is_some() {}
        at_most(&|| "a map emptied from the top".into(), held(m), room.one, t)?;
        let mut m = tree()?;
        for e in &s.m.e {
            m.remove(&Key { k: e.k, tag: 0 });
        }
        at_most(&|| "a map emptied by key".into(), held(m), room.one, t)?;
        t.count(if len == 0 { "empty states" } else { "states with entries" }, 1);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
