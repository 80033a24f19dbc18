//! Runs tasks given in a file under an interpreter that checks every access to memory.
//!
//! Nothing is compared with anything here: other explorers do that. What counts is that the interpreter reaches the
//! end. Usage: memory FILE FIRST. Prints `at N` before task N and `done N` after it.
#![allow(dropping_copy_types)]
use palmtree::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::ops::Bound::{self, *};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use typenum::{U16, U17, U4, U5};

macro_rules! configs {
    ($($n:ident $b:ty, $l:ty, $p:ty;)*) => {
        $(pub struct $n;
        impl<K, V> TreeConfig<K, V> for $n {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = $p;
        })*
        fn dispatch(w: &[&str]) {
            match w[1] {
                $(stringify!($n) => task::<$n>(w),)*
                c => panic!("no configuration {}", c),
            }
        }
    };
}
configs! {
    U4x4 U4, U4, Unique;
    U5x5 U5, U5, Unique;
    U4x5 U4, U5, Unique;
    U5x4 U5, U4, Unique;
    U16x17 U16, U17, Unique;
    S4x4 U4, U4, Shared;
    S5x4 U5, U4, Shared;
    Y4x4 U4, U4, SyncShared;
    Y5x5 U5, U5, SyncShared;
}

thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// At which call what happens: nothing, a panic, or a false answer.
    static AT: Cell<usize> = const { Cell::new(usize::MAX) };
    static HOW: Cell<u8> = const { Cell::new(0) };
    static DROPS: Cell<usize> = const { Cell::new(0) };
    static DROP_AT: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn call() -> bool {
    CALLS.with(|c| {
        let n = c.get();
        c.set(n + 1);
        if n > 100 {
            panic!("no end");
        }
        AT.with(|a| a.get()) == n
    })
}

trait Elem: Clone + 'static {
    fn mk(n: u16) -> Self;
    fn look(&self) -> u16;
    fn set(&mut self, n: u16) {
        *self = Self::mk(n)
    }
}
impl Elem for u16 {
    fn mk(n: u16) -> u16 {
        n
    }
    fn look(&self) -> u16 {
        *self
    }
}
impl Elem for () {
    fn mk(_: u16) {}
    fn look(&self) -> u16 {
        0
    }
}
impl Elem for Box<u16> {
    fn mk(n: u16) -> Self {
        Box::new(n)
    }
    fn look(&self) -> u16 {
        **self
    }
    fn set(&mut self, n: u16) {
        **self = n
    }
}
impl Elem for String {
    fn mk(n: u16) -> Self {
        "x".repeat(1 + n as usize % 3)
    }
    fn look(&self) -> u16 {
        self.as_bytes()[0] as u16
    }
    fn set(&mut self, _: u16) {
        self.push('y')
    }
}
/// Aligned more than anything around it.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(64))]
struct Al(u16);
impl Elem for Al {
    fn mk(n: u16) -> Self {
        Al(n)
    }
    fn look(&self) -> u16 {
        self.0
    }
}
/// Not every pattern of bits is one.
impl Elem for (bool, char) {
    fn mk(n: u16) -> Self {
        (n % 2 == 1, char::from(b'a' + (n % 26) as u8))
    }
    fn look(&self) -> u16 {
        self.0 as u16 + self.1 as u16
    }
}
/// Larger than anything around it.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Wide([u16; 23], Box<u16>);
impl Elem for Wide {
    fn mk(n: u16) -> Self {
        Wide([n; 23], Box::new(n))
    }
    fn look(&self) -> u16 {
        self.0[22].max(*self.1)
    }
}
/// Panics in or lies from comparisons, panics while being cloned or destroyed.
#[derive(Debug)]
struct Odd(Box<u16>);
impl Elem for Odd {
    fn mk(n: u16) -> Self {
        Odd(Box::new(n))
    }
    fn look(&self) -> u16 {
        *self.0
    }
}
impl Clone for Odd {
    fn clone(&self) -> Self {
        if call() && HOW.with(|h| h.get()) == 0 {
            panic!("clone")
        }
        Odd(self.0.clone())
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        let n = DROPS.with(|d| d.replace(d.get() + 1));
        if DROP_AT.with(|a| a.get()) == n && !std::thread::panicking() {
            panic!("drop")
        }
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Self) -> Ordering {
        let truth = self.0.cmp(&o.0);
        if call() {
            match HOW.with(|h| h.get()) {
                0 => panic!("cmp"),
                1 => return if truth == Ordering::Less { Ordering::Greater } else { Ordering::Less },
                _ => return if truth == Ordering::Equal { Ordering::Greater } else { Ordering::Equal },
            }
        }
        truth
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Odd {}
impl Hash for Odd {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

struct Nowhere;
impl Hasher for Nowhere {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

trait Key: Elem + Ord + Hash + std::fmt::Debug {}
impl<T: Elem + Ord + Hash + std::fmt::Debug> Key for T {}
type M<K, V, C> = PalmTree<K, V, C>;

fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// One operation of a history or a menu: a name and up to two numbers.
fn apply<K: Key, V: Key, C: TreeConfig<K, V>>(m: &mut M<K, V, C>, o: &str) {
    let mut w = o.split(' ');
    let name = w.next().unwrap();
    let a: u16 = w.next().map_or(0, |x| x.parse().unwrap());
    let b: u16 = w.next().map_or(0, |x| x.parse().unwrap());
    let pairs = |from: u16, to: u16| (from..to).map(|i| (K::mk(i), V::mk(i)));
    match name {
        "insert" => drop(m.insert(K::mk(a), V::mk(a))),
        "insert_recursive" => drop(m.insert_recursive(K::mk(a), V::mk(a))),
        "remove" => drop(m.remove(&K::mk(a))),
        "remove_lowest" => drop(m.remove_lowest()),
        "remove_highest" => drop(m.remove_highest()),
        "load" => *m = M::load((1..=a).map(|i| (K::mk(i * b.max(1)), V::mk(i)))),
        "ascend" => (1..=a).for_each(|i| drop(m.insert(K::mk(i * b.max(1)), V::mk(i)))),
        "descend" => (1..=a).rev().for_each(|i| drop(m.insert(K::mk(i * b.max(1)), V::mk(i)))),
        "remove_range" => (a..=b).for_each(|i| drop(m.remove(&K::mk(i)))),
        "remove_range_desc" => (a..=b).rev().for_each(|i| drop(m.remove(&K::mk(i)))),
        "drain_lowest" => (0..a).for_each(|_| drop(m.remove_lowest())),
        "drain_highest" => (0..a).for_each(|_| drop(m.remove_highest())),
        "get" => drop((m.get(&K::mk(a)).map(|v| v.look()), m.get_linear(&K::mk(a)).map(|v| v.look()))),
        "get_mut" => drop(m.get_mut(&K::mk(a)).map(|v| v.set(3))),
        "index" => drop(m[&K::mk(a)].look()),
        "index_mut" => m[&K::mk(a)].set(4),
        "entry_insert" => match m.entry(K::mk(a)) {
            Entry::Vacant(e) => {
                e.key().look();
                e.insert(V::mk(a)).set(5)
            }
            Entry::Occupied(mut e) => drop(e.insert(V::mk(a))),
        },
        "entry_remove" => match m.entry(K::mk(a)) {
            Entry::Vacant(e) => drop(e.into_key()),
            Entry::Occupied(e) => drop(e.remove_entry()),
        },
        "entry_write" => match m.entry(K::mk(a)) {
            Entry::Vacant(e) => drop(e),
            Entry::Occupied(mut e) => {
                drop((e.key().look(), e.get().look()));
                e.get_mut().set(6);
                e.into_mut().set(7)
            }
        },
        // iteration with `a` steps from the front and then `b` from the back, and on to the end
        "iter" => {
            let mut i = m.iter();
            (0..a).for_each(|_| drop(i.next().map(|(k, v)| k.look() + v.look())));
            (0..b).for_each(|_| drop(i.next_back().map(|(k, v)| k.look() + v.look())));
            i.clone().for_each(|(k, v)| drop(k.look() + v.look()));
            i.rev().for_each(|(k, v)| drop(k.look() + v.look()))
        }
        "iter_mut" => {
            let mut i = m.iter_mut();
            let mut kept: Vec<&mut V> = vec![];
            (0..a).for_each(|_| kept.extend(i.next().map(|(_, v)| v)));
            (0..b).for_each(|_| kept.extend(i.next_back().map(|(_, v)| v)));
            kept.extend(i.map(|(_, v)| v));
            kept.iter_mut().for_each(|v| v.set(8))
        }
        "into_iter" => {
            let mut i = std::mem::take(m).into_iter();
            (0..a).for_each(|_| drop(i.next()));
            (0..b).for_each(|_| drop(i.next_back()));
        }
        "into_all" => drop(std::mem::take(m).into_iter().map(|(k, v)| k.look() + v.look()).count()),
        "range_from" | "range_to" | "range_mut_from" | "range_mut_to" => {
            let k = K::mk(a);
            let x = if b == 0 { Included(&k) } else { Excluded(&k) };
            let r: (Bound<&K>, Bound<&K>) = if name.ends_with("from") { (x, Unbounded) } else { (Unbounded, x) };
            if name.starts_with("range_mut") {
                m.range_mut(r).for_each(|(_, v)| v.set(9));
                m.range_mut(r).rev().for_each(|(_, v)| v.set(9))
            } else {
                drop(m.range(r).map(|(k, v)| k.look() + v.look()).count());
                drop(m.range(r).rev().map(|(k, v)| k.look() + v.look()).count())
            }
        }
        "range" => {
            let (x, y) = (K::mk(a), K::mk(b));
            drop(m.range((Excluded(&x), Included(&y))).count());
            m.range_mut((Included(&x), Excluded(&y))).rev().for_each(|(_, v)| v.set(9))
        }
        "compare" => {
            let n = m.clone();
            drop((*m == n, Ord::cmp(&*m, &n), PartialOrd::partial_cmp(&*m, &n)));
            m.hash(&mut Nowhere);
            // takes long
            if m.len() < 4 {
                let _ = write!(Nowhere, "{:?}", m);
            }
        }
        "clone_change" => {
            let mut n = m.clone();
            n.insert(K::mk(a), V::mk(a));
            m.remove(&K::mk(b));
            drop(n.iter().count());
            drop(std::mem::replace(m, n))
        }
        "append_right" => m.append_right(M::load(pairs(a, a + b))),
        "append_left" => m.append_left(M::load(pairs(a, a + b))),
        "add" => *m += M::load(pairs(a, a + b)),
        "extend" => m.extend(pairs(a, a + b)),
        "merge" => *m = M::merge_left(std::mem::take(m), M::load(pairs(a, a + b))),
        "merge_some" => drop(M::merge_right_iter(std::mem::take(m), M::load(pairs(a, a + b))).take(3).count()),
        "forget" => {
            std::mem::forget(m.iter_mut());
            std::mem::forget(m.entry(K::mk(a)));
            m.range_mut(..).next().map(|(_, v)| v.set(1));
        }
        _ => panic!("no operation {}", o),
    }
}
fn build<K: Key, V: Key, C: TreeConfig<K, V>>(hist: &str) -> M<K, V, C> {
    let mut m = M::new();
    for o in hist.split(';').map(str::trim).filter(|o| !o.is_empty()) {
        apply(&mut m, o);
    }
    m
}
fn after<K: Key, V: Key, C: TreeConfig<K, V>>(mut m: M<K, V, C>) {
    drop(m.iter().map(|(k, v)| k.look() + v.look()).count());
    apply(&mut m, "insert 3");
    apply(&mut m, "remove_lowest");
    apply(&mut m, "into_iter 1 1");
}
/// Every operation of the menu on a copy of the state; where a copy takes long, what changes no key on the state itself.
fn state<K: Key, V: Key, C: TreeConfig<K, V>>(config: &str, hist: &str, menu: &str) {
    let Some(mut m) = quiet(|| build::<K, V, C>(hist)) else { return };
    for o in menu.split(';').map(str::trim) {
        let name = o.split(' ').next().unwrap();
        let keeps = name.starts_with("range") || ["get", "get_mut", "index", "index_mut", "iter", "iter_mut", "entry_write", "compare", "forget"].contains(&name);
        if config.starts_with('U') && keeps {
            quiet(|| apply(&mut m, o));
            continue;
        }
        quiet(|| {
            let mut n = m.clone();
            apply(&mut n, o);
            // changed and then used: each step must leave something sound
            drop(n.iter().map(|(k, v)| k.look() + v.look()).count());
        });
    }
}
/// Every operation with every call into user code panicking or answering falsely, and what comes afterwards.
fn faults<V: Key, C: TreeConfig<Odd, V>>(kind: &str, hist: &str, menu: &str) {
    for o in menu.split(';').map(str::trim) {
        let hows: &[u8] = match kind {
            "lie" => &[1, 2],
            _ => &[0],
        };
        for &how in hows {
            for at in 0.. {
                let mut m = build::<Odd, V, C>(hist);
                let hold = m.clone();
                CALLS.with(|c| c.set(0));
                DROPS.with(|d| d.set(0));
                HOW.with(|h| h.set(how));
                if kind == "drop" {
                    DROP_AT.with(|a| a.set(at));
                } else {
                    AT.with(|a| a.set(at));
                }
                quiet(|| apply(&mut m, o));
                let reached = if kind == "drop" { DROPS.with(|d| d.get()) } else { CALLS.with(|c| c.get()) } > at;
                AT.with(|a| a.set(usize::MAX));
                DROP_AT.with(|a| a.set(usize::MAX));
                CALLS.with(|c| c.set(0));
                quiet(|| after(m));
                CALLS.with(|c| c.set(0));
                quiet(|| drop(hold));
                if !reached {
                    break;
                }
            }
        }
    }
}
static TURN: AtomicUsize = AtomicUsize::new(0);
/// What threads do with handles on the same contents, in the given order. Whose turn it is, is passed on without
/// synchronising anything: if the map doesn't order what its clones do, nothing does.
fn threads<V: Key + Send + Sync, C: TreeConfig<u16, V>>(hist: &str, order: &str, progs: &str)
where
    PalmTree<u16, V, C>: Send + Sync,
{
    let first: M<u16, V, C> = build(hist);
    let progs: Vec<&str> = progs.split('/').map(str::trim).collect();
    let shared = order.starts_with('&');
    let order: Vec<usize> = order.trim_start_matches('&').bytes().map(|b| (b - b'0') as usize).collect();
    TURN.store(0, Relaxed);
    let turns = |me: usize| order.iter().enumerate().filter(move |(_, w)| **w == me).map(|(i, _)| i);
    let wait = |i: usize| {
        while TURN.load(Relaxed) != i {
            std::thread::yield_now()
        }
    };
    if shared {
        std::thread::scope(|s| {
            for (i, p) in progs.iter().enumerate() {
                let (turns, wait, lent) = (&turns, &wait, &first);
                s.spawn(move || {
                    let mut mine = None;
                    let mut ops = p.split(';').map(str::trim);
                    for t in turns(i) {
                        wait(t);
                        match ops.next() {
                            Some("clone") => mine = Some(lent.clone()),
                            Some("look") => drop(lent.iter().map(|(k, v)| k.look() + v.look()).count()),
                            Some(o) => quiet(|| apply(mine.get_or_insert_with(|| lent.clone()), o)).unwrap_or(()),
                            None => drop(mine.take()),
                        }
                        TURN.store(t + 1, Relaxed);
                    }
                });
            }
        });
        return;
    }
    let mut handles: Vec<M<u16, V, C>> = progs.iter().skip(1).map(|_| first.clone()).collect();
    handles.insert(0, first);
    std::thread::scope(|s| {
        for (i, (p, h)) in progs.iter().zip(handles).enumerate() {
            let (turns, wait) = (&turns, &wait);
            s.spawn(move || {
                let mut mine = Some(h);
                let mut ops = p.split(';').map(str::trim);
                for t in turns(i) {
                    wait(t);
                    match ops.next() {
                        Some(o) => quiet(|| apply(mine.as_mut().unwrap(), o)).unwrap_or(()),
                        None => drop(mine.take()),
                    }
                    TURN.store(t + 1, Relaxed);
                }
            });
        }
    });
}
fn task<C>(w: &[&str])
where
    C: TreeConfig<u16, Box<u16>> + TreeConfig<Box<u16>, String> + TreeConfig<Al, ()> + TreeConfig<u16, Wide> + TreeConfig<(bool, char), Al> + TreeConfig<(), ()> + TreeConfig<Odd, Box<u16>> + TreeConfig<u16, u16>,
{
    match w[0] {
        "state" => match w[2] {
            "plain" => state::<u16, Box<u16>, C>(w[1], w[3], w[4]),
            "heap" => state::<Box<u16>, String, C>(w[1], w[3], w[4]),
            "aligned" => state::<Al, (), C>(w[1], w[3], w[4]),
            "picky" => state::<(bool, char), Al, C>(w[1], w[3], w[4]),
            "wide" => state::<u16, Wide, C>(w[1], w[3], w[4]),
            "nothing" => state::<(), (), C>(w[1], w[3], w[4]),
            x => panic!("no elements {}", x),
        },
        "panic" | "lie" | "drop" => faults::<Box<u16>, C>(w[0], w[3], w[4]),
        x => panic!("no task {}", x),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let Some(file) = a.get(1) else { return };
    let first: usize = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let text = std::fs::read_to_string(file).expect("tasks");
    let mut out = std::io::stdout();
    for (i, line) in text.lines().enumerate().skip(first) {
        writeln!(out, "at {}", i).and_then(|_| out.flush()).unwrap();
        let w: Vec<&str> = line.split('|').map(str::trim).collect();
        if w[0] == "threads" {
            match w[1] {
                "Y4x4" => threads::<Box<u16>, Y4x4>(w[2], w[3], w[4]),
                _ => threads::<u16, Y5x5>(w[2], w[3], w[4]),
            }
        } else {
            dispatch(&w);
        }
        writeln!(out, "done {}", i).and_then(|_| out.flush()).unwrap();
    }
}
