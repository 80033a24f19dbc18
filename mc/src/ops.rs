//! Operations, the reference model, and the one function that applies both and compares.
use crate::types::*;
use palmtree::{Entry, PalmTree, TreeConfig};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ent {
    pub k: u16,
    pub tag: u32,
    pub v: u32,
}
/// The reference: a sorted list of entries. Deliberately boring.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub e: Vec<Ent>,
    pub ctr: u32,
}
impl Model {
    pub fn pos(&self, k: u16) -> Result<usize, usize> {
        let mut i = 0;
        // linear for small models, skipping ahead for large ones
        if self.e.len() > 32 {
            i = self.e.partition_point(|e| e.k < k);
        }
        while i < self.e.len() && self.e[i].k < k {
            i += 1;
        }
        if i < self.e.len() && self.e[i].k == k {
            Ok(i)
        } else {
            Err(i)
        }
    }
    pub fn get(&self, k: u16) -> Option<&Ent> {
        self.pos(k).ok().map(|i| &self.e[i])
    }
    pub fn fresh(&mut self) -> u32 {
        self.ctr += 1;
        self.ctr
    }
    /// Overwrites keep the stored key, like the standard library's maps.
    pub fn insert(&mut self, k: u16, tag: u32, v: u32) -> Option<u32> {
        match self.pos(k) {
            Ok(i) => Some(std::mem::replace(&mut self.e[i].v, v)),
            Err(i) => {
                self.e.insert(i, Ent { k, tag, v });
                None
            }
        }
    }
    pub fn remove(&mut self, k: u16) -> Option<Ent> {
        self.pos(k).ok().map(|i| self.e.remove(i))
    }
}

macro_rules! codes {
    ($($c:ident)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[allow(non_camel_case_types)]
        pub enum Code { $($c),* }
        impl Code {
            pub const ALL: &'static [Code] = &[$(Code::$c),*];
            pub fn name(self) -> &'static str { match self { $(Code::$c => stringify!($c)),* } }
        }
    };
}
codes! {
    insert remove insert_recursive remove_lowest remove_highest
    entry_insert entry_remove entry_peek entry_into_mut entry_get_mut get_mut index_mut
    load ascend descend shuffle remove_range remove_range_desc drain_lowest drain_highest
    reload recollect replace_by_clone iter_mut_write range_mut_write
    append_right append_left add_assign consume
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Op {
    pub c: Code,
    pub a: u16,
    pub b: u16,
}
pub fn op(c: Code, a: usize, b: usize) -> Op {
    Op { c, a: a as u16, b: b as u16 }
}
impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {} {}", self.c.name(), self.a, self.b)
    }
}
impl Op {
    pub fn parse(s: &str) -> Option<Op> {
        let mut w = s.split_whitespace();
        let n = w.next()?;
        let c = *Code::ALL.iter().find(|c| c.name() == n)?;
        let a = w.next().unwrap_or("0").parse().ok()?;
        let b = w.next().unwrap_or("0").parse().ok()?;
        Some(Op { c, a, b })
    }
}

#[macro_export]
macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        match (&$got, &$exp) {
            (g, e) => {
                if *g != *e {
                    return Err(format!("{}: got {:?}, expected {:?}", $what, g, e));
                }
            }
        }
    }};
}

pub type Tree<K, V, C> = PalmTree<K, V, C>;

fn ins<K: KT, V: VT, C: TreeConfig<K, V>>(t: &mut Tree<K, V, C>, m: &mut Model, k: u16) -> Result<(), String> {
    let x = m.fresh();
    let got = t.insert(K::mk(k, x), V::mk(x)).map(|v| v.v());
    want!(format!("insert({})", k), got, m.insert(k, x, x).map(V::norm));
    Ok(())
}
/// What can be seen of an entry.
pub type Seen = (u16, Option<u32>, u32);
pub fn see<K: KT, V: VT>(k: &K, v: &V) -> Seen {
    (k.k(), k.tag(), v.v())
}
pub fn kv<K: KT, V: VT>(r: Option<(K, V)>) -> Option<Seen> {
    r.map(|(k, v)| see(&k, &v))
}
/// What should be seen of an entry, through these element types.
pub fn want_seen<K: KT, V: VT>(e: &Ent) -> Seen {
    (e.k, K::mk(e.k, e.tag).tag(), V::norm(e.v))
}
pub fn mkv<K: KT, V: VT>(e: Option<Ent>) -> Option<Seen> {
    e.map(|e| want_seen::<K, V>(&e))
}
/// The i-th of n keys in an order that fills from the middle outwards, alternating sides.
fn shuffled(i: usize, n: usize) -> usize {
    let mid = n / 2;
    if i % 2 == 0 {
        (mid + i / 2) % n
    } else {
        (mid + n - 1 - i / 2) % n
    }
}

/// Applies `o` to the real tree and to the model and compares everything the operation returns.
pub fn apply<K: KT, V: VT, C: TreeConfig<K, V>>(t: &mut Tree<K, V, C>, m: &mut Model, o: Op) -> Result<(), String> {
    let (a, b) = (o.a, o.b);
    match o.c {
        Code::insert => ins(t, m, a)?,
        Code::insert_recursive => {
            let x = m.fresh();
            let got = t.insert_recursive(K::mk(a, x), V::mk(x)).map(|v| v.v());
            want!(format!("insert_recursive({})", a), got, m.insert(a, x, x).map(V::norm));
        }
        Code::remove => {
            let got = kv(t.remove(&K::mk(a, 0)));
            want!(format!("remove({})", a), got, mkv::<K, V>(m.remove(a)));
        }
        Code::remove_lowest => {
            let got = kv(t.remove_lowest());
            let e = if m.e.is_empty() { None } else { Some(m.e.remove(0)) };
            want!("remove_lowest()", got, mkv::<K, V>(e));
        }
        Code::remove_highest => {
            let got = kv(t.remove_highest());
            want!("remove_highest()", got, mkv::<K, V>(m.e.pop()));
        }
        Code::entry_insert => {
            let x = m.fresh();
            match t.entry(K::mk(a, x)) {
                Entry::Vacant(e) => {
                    want!(format!("entry({}) is vacant", a), true, m.get(a).is_none());
                    want!(format!("key of vacant entry({})", a), (e.key().k(), e.key().tag()), (a, K::mk(a, x).tag()));
                    let r = e.insert(V::mk(x));
                    want!(format!("value behind the reference returned by vacant entry({}).insert", a), r.v(), V::norm(x));
                    // write through the returned reference
                    let y = m.fresh();
                    r.set(y);
                    m.insert(a, x, y);
                }
                Entry::Occupied(mut e) => {
                    let cur = *m.get(a).ok_or_else(|| format!("entry({}) is occupied but the key is absent", a))?;
                    want!(format!("key of occupied entry({})", a), (e.key().k(), e.key().tag()), (a, K::mk(a, cur.tag).tag()));
                    want!(format!("occupied entry({}).insert", a), e.insert(V::mk(x)).v(), V::norm(cur.v));
                    want!(format!("occupied entry({}).get after insert", a), e.get().v(), V::norm(x));
                    m.insert(a, 0, x);
                }
            }
        }
        Code::entry_remove => match t.entry(K::mk(a, 0)) {
            Entry::Vacant(e) => {
                want!(format!("entry({}) is vacant", a), true, m.get(a).is_none());
                want!(format!("into_key of vacant entry({})", a), e.into_key().k(), a);
            }
            Entry::Occupied(e) => {
                let cur = m.remove(a).ok_or_else(|| format!("entry({}) is occupied but the key is absent", a))?;
                if b == 0 {
                    let (k, v) = e.remove_entry();
                    want!(format!("occupied entry({}).remove_entry", a), see(&k, &v), want_seen::<K, V>(&cur));
                } else {
                    want!(format!("occupied entry({}).remove", a), e.remove().v(), V::norm(cur.v));
                }
            }
        },
        Code::entry_peek => match t.entry(K::mk(a, 7)) {
            Entry::Vacant(e) => {
                want!(format!("entry({}) is vacant", a), true, m.get(a).is_none());
                want!(format!("key of vacant entry({})", a), e.key().k(), a);
            }
            Entry::Occupied(e) => {
                let cur = m.get(a).ok_or_else(|| format!("entry({}) is occupied but the key is absent", a))?;
                want!(format!("key and value of occupied entry({})", a), see(e.key(), e.get()), want_seen::<K, V>(cur));
            }
        },
        Code::entry_into_mut | Code::entry_get_mut => {
            let x = m.fresh();
            match t.entry(K::mk(a, 7)) {
                Entry::Vacant(_) => want!(format!("entry({}) is vacant", a), true, m.get(a).is_none()),
                Entry::Occupied(mut e) => {
                    let cur = *m.get(a).ok_or_else(|| format!("entry({}) is occupied but the key is absent", a))?;
                    if o.c == Code::entry_into_mut {
                        let r = e.into_mut();
                        want!(format!("occupied entry({}).into_mut", a), r.v(), V::norm(cur.v));
                        r.set(x);
                    } else {
                        want!(format!("occupied entry({}).get_mut", a), e.get_mut().v(), V::norm(cur.v));
                        e.get_mut().set(x);
                        want!(format!("occupied entry({}).get after a write through get_mut", a), e.get().v(), V::norm(x));
                    }
                    m.insert(a, 0, x);
                }
            }
        }
        Code::get_mut => {
            let x = m.fresh();
            match t.get_mut(&K::mk(a, 0)) {
                None => want!(format!("get_mut({}) finds nothing", a), true, m.get(a).is_none()),
                Some(r) => {
                    let cur = *m.get(a).ok_or_else(|| format!("get_mut({}) found something but the key is absent", a))?;
                    want!(format!("get_mut({})", a), r.v(), V::norm(cur.v));
                    r.set(x);
                    m.insert(a, 0, x);
                }
            }
        }
        Code::index_mut => {
            if let Some(cur) = m.get(a).copied() {
                let x = m.fresh();
                let k = K::mk(a, 0);
                want!(format!("index_mut [{}]", a), t[&k].v(), V::norm(cur.v));
                t[&k] = V::mk(x);
                m.insert(a, 0, x);
            }
        }
        Code::load => {
            let mut e = Vec::with_capacity(a as usize);
            for i in 1..=a {
                let x = m.fresh();
                e.push(Ent { k: i * b, tag: x, v: x });
            }
            *t = PalmTree::load(e.iter().map(|e| (K::mk(e.k, e.tag), V::mk(e.v))));
            m.e = e;
        }
        Code::ascend => {
            for i in 1..=a {
                ins(t, m, i * b)?;
            }
        }
        Code::descend => {
            for i in (1..=a).rev() {
                ins(t, m, i * b)?;
            }
        }
        Code::shuffle => {
            for i in 0..a as usize {
                ins(t, m, (shuffled(i, a as usize) as u16 + 1) * b)?;
            }
        }
        Code::remove_range => {
            for k in a..=b {
                apply(t, m, op(Code::remove, k as usize, 0))?;
            }
        }
        Code::remove_range_desc => {
            for k in (a..=b).rev() {
                apply(t, m, op(Code::remove, k as usize, 0))?;
            }
        }
        Code::drain_lowest => {
            for _ in 0..a {
                apply(t, m, op(Code::remove_lowest, 0, 0))?;
            }
        }
        Code::drain_highest => {
            for _ in 0..a {
                apply(t, m, op(Code::remove_highest, 0, 0))?;
            }
        }
        Code::reload => {
            let old = std::mem::take(t);
            *t = PalmTree::load(old);
        }
        Code::recollect => {
            let old = std::mem::take(t);
            *t = old.into_iter().collect();
        }
        Code::replace_by_clone => {
            let c = t.clone();
            *t = c;
        }
        Code::iter_mut_write => {
            let mut i = 0;
            for (k, v) in t.iter_mut() {
                if i >= m.e.len() {
                    return Err(format!("iter_mut yields a surplus entry {}", k.k()));
                }
                want!("entry yielded by iter_mut", see(k, v), want_seen::<K, V>(&m.e[i]));
                m.ctr += 1;
                m.e[i].v = m.ctr;
                v.set(m.ctr);
                i += 1;
            }
            want!("number of entries yielded by iter_mut", i, m.e.len());
        }
        Code::range_mut_write => {
            let mut i = m.e.partition_point(|e| e.k < a);
            for (k, v) in t.range_mut(K::mk(a, 0)..=K::mk(b, 0)) {
                if i >= m.e.len() || m.e[i].k > b {
                    return Err(format!("range_mut({}..={}) yields a surplus entry {}", a, b, k.k()));
                }
                want!("entry yielded by range_mut", see(k, v), want_seen::<K, V>(&m.e[i]));
                m.ctr += 1;
                m.e[i].v = m.ctr;
                v.set(m.ctr);
                i += 1;
            }
            want!("end of range_mut", i, m.e.partition_point(|e| e.k <= b));
        }
        // join with a freshly loaded tree holding a keys, every b-th
        Code::append_right | Code::append_left | Code::add_assign => {
            let mut other = Vec::new();
            for i in 1..=a {
                let x = m.fresh();
                other.push(Ent { k: i * b, tag: x, v: x });
            }
            let ot: Tree<K, V, C> = PalmTree::load(other.iter().map(|e| (K::mk(e.k, e.tag), V::mk(e.v))));
            match o.c {
                Code::append_right => t.append_right(ot),
                Code::append_left => t.append_left(ot),
                _ => *t += ot,
            }
            let right_wins = o.c != Code::append_left;
            for e in other {
                match m.pos(e.k) {
                    Ok(i) => {
                        if right_wins {
                            m.e[i] = e
                        }
                    }
                    Err(i) => m.e.insert(i, e),
                }
            }
        }
        // consume: a entries from the front, b from the back, drop the rest
        Code::consume => {
            let n = m.e.len();
            let mut it = std::mem::take(t).into_iter();
            for i in 0..a as usize {
                let e = if i < n { Some(m.e[i]) } else { None };
                want!("next() of a consuming iterator", kv(it.next()), mkv::<K, V>(e));
            }
            let left = n.saturating_sub(a as usize);
            for i in 0..b as usize {
                let e = if i < left { Some(m.e[n - 1 - i]) } else { None };
                want!("next_back() of a consuming iterator", kv(it.next_back()), mkv::<K, V>(e));
            }
            want!("remaining length of a consuming iterator", it.len(), left.saturating_sub(b as usize));
            drop(it);
            m.e.clear();
        }
    }
    want!(format!("len() after {}", o), t.len(), m.e.len());
    Ok(())
}

/// Full structural fingerprint of a tree through its public linear lookup: the sequence of keys it
/// compares against, for every key of the domain, lists every node's keys and child boundaries.
pub fn fingerprint<C: TreeConfig<Key, Val>>(t: &Tree<Key, Val, C>, dom: &[u16]) -> u128 {
    TLS.with(|s| {
        s.h0.set(t.len() as u64);
        s.h1.set(!(t.len() as u64));
        s.trace.set(true);
    });
    for &k in dom {
        let hit = t.get_linear(&Key { k, tag: 0 }).is_some();
        TLS.with(|s| s.h0.set(mix(s.h0.get(), hit as u64 + 77)));
    }
    TLS.with(|s| {
        s.trace.set(false);
        ((s.h0.get() as u128) << 64) | s.h1.get() as u128
    })
}
/// Compares the whole contents by forward iteration; cheap sanity check used everywhere.
pub fn contents<K: KT, V: VT, C: TreeConfig<K, V>>(t: &Tree<K, V, C>, m: &Model) -> Result<(), String> {
    let mut i = 0;
    for (k, v) in t.iter() {
        if i >= m.e.len() {
            return Err(format!("iteration yields a surplus entry {}", k.k()));
        }
        let e = m.e[i];
        want!(format!("entry number {} of the map", i), see(k, v), want_seen::<K, V>(&e));
        i += 1;
    }
    want!("number of entries iterated", i, m.e.len());
    want!("len()", t.len(), m.e.len());
    want!("is_empty()", t.is_empty(), m.e.is_empty());
    Ok(())
}
/// Number of branch levels above the leaf holding `k`, which must be present: a linear lookup stops once per level.
pub fn height<C: TreeConfig<Key, Val>>(t: &Tree<Key, Val, C>, k: u16) -> u64 {
    let h = TLS.with(|t| t.hits.get());
    t.get_linear(&Key { k, tag: 0 });
    TLS.with(|t| t.hits.get()) - h
}
