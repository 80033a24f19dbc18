//! C13: maps cross threads only when their contents may, and threads see isolated snapshots.
use mc::{cfg_dispatch, engine::*, ops::*, sched, sched::*, types::*, want, with_cfg};
use palmtree::{Entry, Iter, IterMut, OwnedIter, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

// ---------------------------------------------------------------- which types may cross

/// An element of no content which may cross threads as `T` may.
struct E<T>(PhantomData<T>);
impl<T> Clone for E<T> {
    fn clone(&self) -> Self {
        E(PhantomData)
    }
}
impl<T> PartialEq for E<T> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<T> Eq for E<T> {}
impl<T> PartialOrd for E<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for E<T> {
    fn cmp(&self, _: &Self) -> Ordering {
        Ordering::Equal
    }
}
type Both = E<u32>;
type Neither = E<Rc<()>>;
type SendOnly = E<Cell<u32>>;
type SyncOnly = E<MutexGuard<'static, ()>>;

/// Inherent constants, where their bounds hold, hide the trait's.
struct Probe<T: ?Sized>(PhantomData<T>);
trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Not for Probe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
macro_rules! crossing {
    ($t:ty) => {
        (Probe::<$t>::SEND, Probe::<$t>::SYNC)
    };
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Mode {
    Unique,
    Shared,
    SyncShared,
}
struct Row {
    mode: Mode,
    cfg: &'static str,
    elements: String,
    k: (bool, bool),
    v: (bool, bool),
    map: (bool, bool),
    iter: (bool, bool),
    iter_mut: (bool, bool),
    owned: (bool, bool),
    entry: (bool, bool),
}
macro_rules! row {
    ($v:ident, $m:ident, $c:ty, $kt:ident, $vt:ident) => {
        $v.push(Row {
            mode: Mode::$m,
            cfg: stringify!($c),
            elements: format!("keys that are {}, values that are {}", stringify!($kt), stringify!($vt)),
            k: crossing!($kt),
            v: crossing!($vt),
            map: crossing!(PalmTree<$kt, $vt, $c>),
            iter: crossing!(Iter<'static, $kt, $vt, $c>),
            iter_mut: crossing!(IterMut<'static, $kt, $vt, $c>),
            owned: crossing!(OwnedIter<$kt, $vt, $c>),
            entry: crossing!(Entry<'static, $kt, $vt, $c>),
        })
    };
}
macro_rules! values {
    ($v:ident, $m:ident, $c:ty, $kt:ident) => {
        row!($v, $m, $c, $kt, Both);
        row!($v, $m, $c, $kt, Neither);
        row!($v, $m, $c, $kt, SendOnly);
        row!($v, $m, $c, $kt, SyncOnly);
    };
}
macro_rules! matrix {
    ($v:ident, $($m:ident $c:ty;)*) => { $(
        values!($v, $m, $c, Both);
        values!($v, $m, $c, Neither);
        values!($v, $m, $c, SendOnly);
        values!($v, $m, $c, SyncOnly);
    )* };
}
fn types(t: &mut Tally) -> Result<(), String> {
    want!("element kinds as assumed", [crossing!(Both), crossing!(Neither), crossing!(SendOnly), crossing!(SyncOnly)], [(true, true), (false, false), (true, false), (false, true)]);
    let mut rows = vec![];
    matrix! { rows, Unique Tree64<Unique>; Shared Tree64<Shared>; SyncShared Tree64<SyncShared>; Unique U4x4; Shared S4x4; SyncShared Y4x4; Unique U16x17; SyncShared Y33x32; }
    for r in &rows {
        let (send, sync) = (r.k.0 && r.v.0, r.k.1 && r.v.1);
        let map = match r.mode {
            Mode::Unique => (send, sync),
            Mode::Shared => (false, false),
            Mode::SyncShared => (send && sync, send && sync),
        };
        let what = |x: &str| format!("whether {} of {} with {} may be (sent to, shared with) other threads", x, r.cfg, r.elements);
        want!(what("a map"), r.map, map);
        // iterators and entries need not cross threads, but must not where that would be unsound
        for (x, got, limit) in [("an Iter", r.iter, (sync, sync)), ("an IterMut", r.iter_mut, (map.0, sync)), ("an OwnedIter", r.owned, map), ("an Entry", r.entry, map)] {
            want!(what(x), (got.0 & limit.0, got.1 & limit.1), got);
        }
        t.evals += 5;
        t.states += 1;
        t.count("type combinations", 1);
    }
    t.sample(|| format!("type matrix of {} rows", rows.len()));
    Ok(())
}

// ---------------------------------------------------------------- scenarios

/// One step of a thread, on the map it owns or on one it shares with the others by reference.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Do(Op),
    Get(u16),
    Scan,
    Back,
    Range(u16, u16),
    /// Clone, and drop the clone.
    Clone,
    /// Clone, modify the clone, look at the original.
    Fork(u16),
    /// Clone, give the clone up and go on with it, dropping the original.
    Drop,
    SGet(u16),
    SScan,
    SBack,
    SRange(u16, u16),
    /// Continue with a clone of the shared map.
    SClone,
    SEq,
}
impl std::fmt::Display for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Act::Do(o) => write!(f, "{}", o),
            a => write!(f, "{:?}", a),
        }
    }
}
type STree<C> = Tree<SKey, SVal, C>;

fn looked_up<C: TreeConfig<SKey, SVal>>(t: &STree<C>, m: &Model, k: u16) -> Result<(), String> {
    let key = SKey::mk(k, 0);
    want!(format!("get({})", k), t.get(&key).map(|v| v.v()), m.get(k).map(|e| e.v));
    Ok(())
}
fn ranged<C: TreeConfig<SKey, SVal>>(t: &STree<C>, m: &Model, lo: u16, hi: u16) -> Result<(), String> {
    let a = m.e.partition_point(|e| e.k < lo);
    let b = m.e.partition_point(|e| e.k <= hi);
    let mut i = a;
    for (k, v) in t.range(SKey::mk(lo, 0)..=SKey::mk(hi, 0)) {
        want!("an entry in range", Some(see(k, v)), m.e[..b].get(i).map(want_seen::<SKey, SVal>));
        i += 1;
    }
    want!("end of the range", i, b);
    Ok(())
}
fn backwards<C: TreeConfig<SKey, SVal>>(t: &STree<C>, m: &Model) -> Result<(), String> {
    let mut i = m.e.len();
    let mut it = t.iter();
    while let Some((k, v)) = it.next_back() {
        if i == 0 {
            return Err("a surplus entry from the back".into());
        }
        i -= 1;
        want!("an entry from the back", see(k, v), want_seen::<SKey, SVal>(&m.e[i]));
    }
    want!("entries missing from the back", i, 0);
    Ok(())
}
struct Hand<'a, C: TreeConfig<SKey, SVal>> {
    own: Option<STree<C>>,
    m: Model,
    shared: Option<(&'a STree<C>, &'a Model)>,
}
fn act<C: TreeConfig<SKey, SVal>>(h: &mut Hand<C>, a: Act) -> Result<(), String> {
    let own = h.own.as_mut().expect("a map of its own");
    let sh = h.shared;
    match a {
        Act::Do(o) => apply::<SKey, SVal, C>(own, &mut h.m, o)?,
        Act::Get(k) => looked_up(own, &h.m, k)?,
        Act::Scan => contents(own, &h.m)?,
        Act::Back => backwards(own, &h.m)?,
        Act::Range(lo, hi) => ranged(own, &h.m, lo, hi)?,
        Act::Clone => drop(own.clone()),
        Act::Fork(k) => {
            let mut c = own.clone();
            c.insert(SKey::mk(k, 1), SVal::mk(1));
            c.remove_lowest();
            drop(c);
            contents(own, &h.m)?;
        }
        Act::Drop => {
            let c = own.clone();
            *own = c;
        }
        Act::SGet(k) => looked_up(sh.unwrap().0, sh.unwrap().1, k)?,
        Act::SScan => contents(sh.unwrap().0, sh.unwrap().1)?,
        Act::SBack => backwards(sh.unwrap().0, sh.unwrap().1)?,
        Act::SRange(lo, hi) => ranged(sh.unwrap().0, sh.unwrap().1, lo, hi)?,
        Act::SClone => {
            let (t, m) = sh.unwrap();
            h.m = quiet(|| reserve(m));
            *own = t.clone();
        }
        Act::SEq => {
            let (t, m) = sh.unwrap();
            let same = h.m.e.len() == m.e.len() && h.m.e.iter().zip(&m.e).all(|(a, b)| (a.k, a.v) == (b.k, b.v));
            want!("whether a thread's own map equals the shared one", *own == *t, same);
        }
    }
    Ok(())
}
fn reserve(m: &Model) -> Model {
    let mut c = m.clone();
    c.e.reserve(64);
    c
}
/// How the threads come by their maps.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Start {
    /// Clones; the original stays with the one who made them.
    Keep,
    /// Clones, and the original for the first.
    Give,
    /// A map of their own without relation to the others, and a shared one by reference.
    Share,
}
fn scenario<C: TreeConfig<SKey, SVal>>(base: &[Op], start: Start, scripts: &[&[Act]], go: Go) -> Result<(), String> {
    let mut m = Model::default();
    m.e.reserve(64);
    let mut t: STree<C> = PalmTree::new();
    let (r, blocks) = blocks_of(|| base.iter().try_for_each(|o| apply(&mut t, &mut m, *o)));
    r?;
    // the threads end before this function does
    let (rt, rm): (&STree<C>, &Model) = unsafe { (&*(&t as *const _), &*(&m as *const _)) };
    let hand = |i: usize| match start {
        Start::Share => Hand { own: Some(PalmTree::new()), m: Model::default(), shared: Some((rt, rm)) },
        Start::Give if i == 0 => Hand { own: None, m: reserve(&m), shared: None },
        _ => Hand { own: Some(t.clone()), m: reserve(&m), shared: None },
    };
    let hands: Vec<RefCell<Option<Hand<C>>>> = (0..scripts.len()).map(|i| RefCell::new(Some(hand(i)))).collect();
    if scripts.len() == 1 {
        declare_shared(&blocks)
    }
    let mut kept = None;
    match start {
        Start::Keep => kept = Some(t),
        Start::Give => hands[0].borrow_mut().as_mut().unwrap().own = Some(t),
        Start::Share => {
            all(&hands, scripts, go)?;
            release_shared();
            return contents(&t, &m);
        }
    }
    all(&hands, scripts, go)?;
    release_shared();
    if let Some(t) = kept {
        contents(&t, &m).map_err(|e| format!("the original the clones were made of: {}", e))?;
    }
    Ok(())
}
fn all<C: TreeConfig<SKey, SVal>>(hands: &[RefCell<Option<Hand<C>>>], scripts: &[&[Act]], go: Go) -> Result<(), String> {
    let run = |i: usize| -> Result<(), String> {
        let mut h = hands[i].borrow_mut().take().unwrap();
        play(&mut h, scripts[i])
    };
    let bodies: [Body; 3] = [&|| run(0), &|| run(1), &|| run(2)];
    go(&bodies[..scripts.len()])
}
fn play<C: TreeConfig<SKey, SVal>>(h: &mut Hand<C>, script: &[Act]) -> Result<(), String> {
    for a in script {
        act(h, *a).map_err(|e| format!("{}: {}", a, e))?;
        at_point();
    }
    let end = || contents(h.own.as_ref().unwrap(), &h.m);
    if stepping() { quiet(end) } else { end() }.map_err(|e| format!("at the end: {}", e))?;
    h.own = None;
    Ok(())
}
fn bases() -> Vec<Vec<Op>> {
    use Code::*;
    ["load 1 2", "load 4 2", "load 5 2", "load 17 2", "ascend 18 2", "load 9 2; remove_range 9 17", "shuffle 20 2", "load 65 2", "load 17 2; drain_lowest 16 0"]
        .iter()
        .map(|s| parse_ops(s))
        .chain([vec![op(insert, 2, 0)], vec![]])
        .collect()
}
fn model_of(base: &[Op]) -> Model {
    let mut t: Tree<Key, Val, U4x4> = PalmTree::new();
    let mut m = Model::default();
    for o in base {
        apply::<Key, Val, U4x4>(&mut t, &mut m, *o).expect("base");
    }
    m
}
/// What a thread may do to its own map.
fn menu(base: &[Op]) -> Vec<Act> {
    use Code::*;
    let m = model_of(base);
    let n = m.e.len();
    let mid = m.e.get(n / 2).map_or(2, |e| e.k);
    let top = m.e.last().map_or(2, |e| e.k);
    let o = |c, a: u16, b: u16| Act::Do(op(c, a as usize, b as usize));
    let mut v = vec![
        o(insert, mid, 0),
        o(insert, mid + 1, 0),
        o(remove, mid, 0),
        o(get_mut, mid, 0),
        Act::Scan,
        Act::Clone,
        o(insert, top + 1, 0),
        o(remove_lowest, 0, 0),
        o(remove_highest, 0, 0),
        o(consume, 1, 1),
        o(insert_recursive, mid + 1, 0),
        o(entry_insert, mid + 1, 0),
        o(entry_remove, mid, 0),
        o(iter_mut_write, 0, 0),
        o(range_mut_write, mid, top),
        Act::Get(mid),
        Act::Fork(mid + 1),
        Act::Drop,
        o(append_right, 2, 3),
        o(entry_insert, mid, 0),
        o(index_mut, top, 0),
        o(entry_get_mut, 2, 0),
        o(reload, 0, 0),
        o(recollect, 0, 0),
        Act::Back,
        Act::Range(2, mid),
        o(insert, 1, 0),
        o(remove, top, 0),
        o(append_left, 1, 2),
        o(consume, 0, 0),
    ];
    v.dedup();
    v
}
/// What a thread may do to a map it only has a reference to.
fn readers(base: &[Op]) -> Vec<Act> {
    let m = model_of(base);
    let mid = m.e.get(m.e.len() / 2).map_or(2, |e| e.k);
    let top = m.e.last().map_or(2, |e| e.k);
    vec![Act::SGet(mid), Act::SClone, Act::SScan, Act::SRange(2, mid), Act::SGet(mid + 1), Act::SBack, Act::SEq, Act::SGet(top), Act::SRange(mid, top + 1)]
}
fn run<C: TreeConfig<SKey, SVal>>(s: &Sched, base: &[Op], start: Start, scripts: &[&[Act]], bound: usize, t: &mut Tally) -> Result<(), String> {
    let mut c = Count::default();
    let r = schedules(s, bound, &mut c, &mut |go| scenario::<C>(base, start, scripts, go));
    t.states += 1;
    t.evals += c.schedules;
    t.validated += c.schedules;
    t.transitions += c.points;
    t.count("schedules", c.schedules);
    r.map_err(|e| format!("{} [{}]", e, told(base, start, scripts)))
}
fn told(base: &[Op], start: Start, scripts: &[&[Act]]) -> String {
    let s: Vec<String> = scripts.iter().map(|s| s.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("; ")).collect();
    format!("map: {}; {:?}; threads: {}", show(base), start, s.join(" || "))
}
fn steps<C: TreeConfig<SKey, SVal>>(s: &Sched, base: &[Op], start: Start, scripts: &[&[Act]], times: usize, t: &mut Tally) -> Result<(), String> {
    for who in 0..2 {
        let mut c = Count::default();
        let r = stepwise(s, who, times, &mut c, &mut |go| scenario::<C>(base, start, scripts, go));
        t.states += 1;
        t.evals += c.schedules;
        t.validated += c.schedules;
        t.transitions += c.schedules;
        t.count("schedules with a preemption between two instructions", c.schedules);
        r.map_err(|e| format!("{} [{}]", e, told(base, start, scripts)))?;
    }
    Ok(())
}
/// What a thread does to a map it shares must not write to the shared nodes, other than through atomic instructions.
fn watched<C: TreeConfig<SKey, SVal>>(s: &Sched, base: &[Op], start: Start, script: &[Act], t: &mut Tally) -> Result<(), String> {
    let mut c = Count::default();
    let r = watch(s, &mut c, &mut |go| scenario::<C>(base, start, &[script], go));
    t.states += 1;
    t.evals += c.points;
    t.validated += 1;
    t.transitions += c.points;
    t.count("instructions watched for writes to shared memory", c.points);
    t.count("atomic writes to shared memory seen", c.atomics);
    r.map_err(|e| format!("{} [{}]", e, told(base, start, &[script])))
}
/// Not an enumeration: shows that reference counts are kept by atomic instructions, which the enumerations take for granted.
fn free_run<C: TreeConfig<SKey, SVal>>(n: usize, t: &mut Tally) -> Result<(), String> {
    let base = parse_ops("load 17 2");
    sched::with(0, |s| {
        let mut m = Model::default();
        let mut map: STree<C> = PalmTree::new();
        for o in &base {
            apply(&mut map, &mut m, *o)?;
        }
        struct Share<T>(T);
        unsafe impl<T> Sync for Share<T> {}
        unsafe impl<T> Send for Share<T> {}
        let (slot, shared) = (my_slot(), Share((&map, &m)));
        let (s, shared) = (Share(s), &shared);
        let s = &s;
        let r: Result<(), String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|id| {
                    sc.spawn(move || {
                        adopt_slot(slot);
                        sched::join(s.0);
                        let (map, m) = shared.0;
                        guard(|| {
                            for i in 0..n {
                                let a = map.clone();
                                let mut b = a.clone();
                                drop(a);
                                if i % 16 == id {
                                    tick();
                                    let mut mb = m.clone();
                                    apply(&mut b, &mut mb, op(Code::insert, 2 + (i / 16) % 34, 0))?;
                                    apply(&mut b, &mut mb, op(Code::remove, 2 * ((i / 16) % 17), 0))?;
                                    contents(&b, &mb)?;
                                }
                            }
                            Ok(())
                        })
                    })
                })
                .collect();
            let mut r = Ok(());
            for h in hs {
                r = r.and(h.join().map_err(|_| "a thread died".to_string())?);
            }
            r
        });
        r?;
        contents(&map, &m)?;
        drop(map);
        s.0.births.verdict()
    })?;
    t.count("iterations of the free run", 4 * n as u64);
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C13";
    cfg_dispatch!([U4x4]);
    fn plans(_: Tier, _: bool) -> Vec<Plan> {
        vec![]
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let quick = tier == Tier::Quick;
        let mut v = vec!["types".to_string(), format!("free {}", if quick { 300_000 } else { 3_000_000 })];
        let nb = bases().len();
        let all = 30;
        // two threads, one step each: every pair of steps
        for b in 0..nb {
            for i in 0..all {
                for start in ["keep", "give"] {
                    let few = if b == 7 && quick { 4 } else { all };
                    if i < few {
                        v.push(format!("pair Y4x4 {} {} {} {} {}", b, start, if quick || b == 7 { 1 } else { 2 }, i, few));
                    }
                    if i < 9 && (b < 2 || !quick && b != 7) {
                        v.push(format!("pair Y4x4 {} {} {} {} 9", b, start, if quick { 2 } else { 2 + (b < 3) as usize }, i));
                    }
                }
            }
        }
        for i in 0..6 {
            v.push(format!("pair U4x4 3 keep 1 {} 6", i));
            v.push(format!("pair T64Y 3 give 1 {} {}", i, if quick { 6 } else { 30 }));
            v.push(format!("pair Y5x4 6 give 1 {} {}", i, if quick { 6 } else { 30 }));
        }
        // two threads, two steps each; three threads, one step each
        let bound = if quick { 1 } else { 2 };
        for b in [1, 2, 3, 5] {
            for i in 0..(if quick { 4 } else { 9 }) {
                v.push(format!("seqs Y4x4 {} give {} {} {}", b, bound, i, if quick { 4 } else { 9 }));
                v.push(format!("triples Y4x4 {} give {} {} {}", b, bound, i, if quick { 4 } else { 9 }));
            }
        }
        // maps shared by reference
        for c in ["Y4x4", "U4x4", "T64Y"] {
            for b in 0..nb {
                if b != 7 && (c != "T64Y" || b == 6) {
                    for i in 0..9 {
                        v.push(format!("reads {} {} share {} {} 9", c, b, if quick && b > 4 { 1 } else { 2 }, i));
                    }
                }
            }
        }
        for c in ["Y4x4", "U4x4"] {
            for i in 0..3 {
                v.push(format!("readers {} 3 share {} {} 3", c, bound, i));
                v.push(format!("forks {} 3 share {} {} {}", c, bound, i, if quick { 6 } else { 30 }));
            }
        }
        // writes to shared memory, after every instruction
        for b in (0..nb).filter(|b| !quick || !checked && *b != 7) {
            v.push(format!("watch Y4x4 {} keep {} 0 30", b, (!quick) as usize));
            for c in ["Y4x4", "U4x4", "T64Y", "Y5x4"].into_iter().take(if quick { 2 } else { 4 }) {
                v.push(format!("watch {} {} share {} 0 9", c, b, (!quick) as usize));
            }
        }
        // a preemption between any two instructions
        let n = match (quick, checked) {
            (true, true) => 0,
            (true, false) => 4,
            _ => 8,
        };
        for (b, start) in [(1, "give"), (3, "keep"), (1, "keep"), (3, "give")].into_iter().take(if quick { 2 } else { 4 }) {
            for i in 0..n {
                v.push(format!("steps Y4x4 {} {} {} {} {}", b, start, if quick { 1 } else { 1000 }, i, n));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let num = |i: usize| -> usize { w[i].parse().unwrap() };
        t.sample(|| name.to_string());
        match w[0] {
            "types" => return types(t),
            "free" => return free_run::<Y4x4>(num(1), t),
            _ => {}
        }
        let base = &bases()[num(2)];
        let start = match w[3] {
            "keep" => Start::Keep,
            "give" => Start::Give,
            _ => Start::Share,
        };
        let (bound, i) = (num(4), num(5));
        let own = menu(base);
        let n = num(6).min(own.len());
        if i >= own.len() {
            return Ok(());
        }
        let reads = readers(base);
        with_cfg!(w[1], [Y4x4 U4x4 Y5x4 T64Y], C => match w[0] {
            "pair" => sched::with(2, |s| own[..n].iter().try_for_each(|b| run::<C>(s, base, start, &[&[own[i]], &[*b]], bound, t))),
            "seqs" => sched::with(2, |s| {
                for a in &own[..n] {
                    for b in &own[..n] {
                        own[..n].iter().try_for_each(|c| run::<C>(s, base, start, &[&[own[i], *a], &[*b, *c]], bound, t))?;
                    }
                }
                Ok(())
            }),
            "triples" => sched::with(3, |s| {
                for a in &own[..n] {
                    own[..n].iter().try_for_each(|b| run::<C>(s, base, start, &[&[own[i]], &[*a], &[*b]], bound, t))?;
                }
                Ok(())
            }),
            "reads" => sched::with(2, |s| reads[..n].iter().try_for_each(|b| run::<C>(s, base, start, &[&[reads[i]], &[*b]], bound, t))),
            "readers" => sched::with(3, |s| {
                for a in &reads[..n] {
                    reads[..n].iter().try_for_each(|b| run::<C>(s, base, start, &[&[reads[i]], &[*a], &[*b]], bound, t))?;
                }
                Ok(())
            }),
            "forks" => sched::with(2, |s| own[..n].iter().try_for_each(|b| run::<C>(s, base, start, &[&[reads[i]], &[Act::SClone, *b, Act::SEq]], bound, t))),
            "watch" | "steps" if !can_step() => {
                t.count("not done: this machine cannot stop threads between instructions", 1);
                Ok(())
            }
            "watch" => sched::with(1, |s| {
                let list = if start == Start::Share { &reads } else { &own };
                for a in list {
                    watched::<C>(s, base, start, &[*a], t)?;
                    if bound > 0 {
                        list.iter().try_for_each(|b| watched::<C>(s, base, start, &[*a, *b], t))?;
                    }
                }
                Ok(())
            }),
            "steps" => {
                let pick = [1, 3, 5, 29, 2, 0, 7, 9].map(|x| own[x % own.len()]);
                sched::with(2, |s| pick[..n].iter().try_for_each(|b| steps::<C>(s, base, start, &[&[pick[i]], &[*b]], bound, t)))
            }
            _ => Err(format!("no job called {}", name)),
        })
    }
    fn state<C: Cfg>(s: &St<C>, _: &mut Tally) -> Result<(), String> {
        contents(s.t, s.m)
    }
}
fn main() {
    main_for::<P>()
}
