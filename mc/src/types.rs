//! Element types and tree configurations used by the harness.
use palmtree::{PointerKind, Shared, SyncShared, Tree64, TreeConfig, Unique};
use std::alloc::Layout;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// A key: ordered by `k` alone; `tag` tells otherwise equal keys apart.
pub trait KT: Ord + Clone + 'static {
    fn mk(k: u16, tag: u32) -> Self;
    fn k(&self) -> u16;
    /// `None` for types which have no room for a tag.
    fn tag(&self) -> Option<u32>;
}
pub trait VT: Clone + 'static {
    fn mk(v: u32) -> Self;
    fn v(&self) -> u32;
    fn set(&mut self, v: u32) {
        *self = Self::mk(v)
    }
    /// What `mk(v).v()` gives: types smaller than u32 lose something.
    fn norm(v: u32) -> u32 {
        v
    }
}

// ---------------------------------------------------------------- plain instrumented types

pub struct Tls {
    pub trace: Cell<bool>,
    pub h0: Cell<u64>,
    pub h1: Cell<u64>,
    pub cmps: Cell<u64>,
    pub hits: Cell<u64>,
    pub vclones: Cell<u64>,
    pub kclones: Cell<u64>,
}
thread_local! {
    pub static TLS: Tls = const { Tls { trace: Cell::new(false), h0: Cell::new(0), h1: Cell::new(0), cmps: Cell::new(0), hits: Cell::new(0), vclones: Cell::new(0), kclones: Cell::new(0) } };
}
#[inline]
pub fn mix(a: u64, x: u64) -> u64 {
    (a ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}
#[inline]
fn note(kind: u64, a: u16, b: u16) {
    TLS.with(|t| {
        t.cmps.set(t.cmps.get() + 1);
        t.hits.set(t.hits.get() + (kind == 2 && a <= b) as u64);
        if t.trace.get() {
            let x = (kind << 32) | ((a as u64) << 16) | b as u64;
            t.h0.set(mix(t.h0.get(), x));
            t.h1.set(mix(t.h1.get().rotate_left(17), x ^ 0x5851_F42D_4C95_7F2D));
        }
    })
}

pub struct Key {
    pub k: u16,
    pub tag: u32,
}
impl Clone for Key {
    #[inline]
    fn clone(&self) -> Self {
        TLS.with(|t| t.kclones.set(t.kclones.get() + 1));
        Key { k: self.k, tag: self.tag }
    }
}
impl KT for Key {
    fn mk(k: u16, tag: u32) -> Self {
        Key { k, tag }
    }
    fn k(&self) -> u16 {
        self.k
    }
    fn tag(&self) -> Option<u32> {
        Some(self.tag)
    }
}
impl PartialEq for Key {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        note(1, self.k, o.k);
        self.k == o.k
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    #[inline]
    fn cmp(&self, o: &Self) -> Ordering {
        note(2, self.k, o.k);
        self.k.cmp(&o.k)
    }
}
impl fmt::Debug for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}", self.k)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.k.hash(h)
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val(pub u32);
impl Clone for Val {
    #[inline]
    fn clone(&self) -> Self {
        TLS.with(|t| t.vclones.set(t.vclones.get() + 1));
        Val(self.0)
    }
}
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "V{}", self.0)
    }
}
impl VT for Val {
    fn mk(v: u32) -> Self {
        Val(v)
    }
    fn v(&self) -> u32 {
        self.0
    }
    fn set(&mut self, v: u32) {
        self.0 = v
    }
}

/// Copyable elements, for the operations that want them.
#[derive(Clone, Copy, Debug)]
pub struct PKey {
    pub k: u16,
    pub tag: u32,
}
impl KT for PKey {
    fn mk(k: u16, tag: u32) -> Self {
        PKey { k, tag }
    }
    fn k(&self) -> u16 {
        self.k
    }
    fn tag(&self) -> Option<u32> {
        Some(self.tag)
    }
}
impl PartialEq for PKey {
    fn eq(&self, o: &Self) -> bool {
        self.k == o.k
    }
}
impl Eq for PKey {}
impl PartialOrd for PKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for PKey {
    fn cmp(&self, o: &Self) -> Ordering {
        self.k.cmp(&o.k)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PVal(pub u32);
impl VT for PVal {
    fn mk(v: u32) -> Self {
        PVal(v)
    }
    fn v(&self) -> u32 {
        self.0
    }
}

// ---------------------------------------------------------------- life-cycle ledger types

const DEAD: u8 = 2;
const LIVE: u8 = 1;
const MAGIC: u32 = 0x7A3C_91E5;

#[derive(Default)]
pub struct Ledger {
    pub state: Vec<u8>, // per instance id
    pub live_k: usize,
    pub live_v: usize,
    pub made: u64,
    pub err: Option<String>,
}
pub struct Faults {
    pub calls: Cell<u64>,
    pub panic_at: Cell<u64>,    // call index at which to panic; u64::MAX: never
    pub lies: Cell<[(u64, i8); 3]>, // comparison call index -> answer offset (1 or 2: the other two answers)
    /// From this comparison on every answer is a lie: 1, 2 shift the answer, 3 4 5 always say less, equal, greater.
    pub tail: Cell<(u64, i8)>,
    /// Answers given so far which were not the true one.
    pub told: Cell<u64>,
    pub armed: Cell<bool>,
    pub budget: Cell<u64>, // calls left before the execution counts as not terminating
    /// Elements destroyed so far while armed, and which one's destruction panics.
    pub drops: Cell<u64>,
    pub drop_at: Cell<u64>,
}
/// Payload of an injected panic.
pub struct Injected;
/// Payload of a panic raised because an operation made absurdly many calls.
pub struct Runaway;
thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    pub static FAULTS: Faults = const { Faults { calls: Cell::new(0), panic_at: Cell::new(u64::MAX), lies: Cell::new([(u64::MAX,0);3]), tail: Cell::new((u64::MAX, 0)), told: Cell::new(0), armed: Cell::new(false), budget: Cell::new(u64::MAX), drops: Cell::new(0), drop_at: Cell::new(u64::MAX) } };
}
pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.clear();
        l.state.reserve(64);
        l.live_k = 0;
        l.live_v = 0;
        l.made = 0;
        l.err = None;
    });
}
pub fn ledger_err() -> Option<String> {
    LEDGER.with(|l| l.borrow().err.clone())
}
pub fn ledger_live() -> (usize, usize) {
    LEDGER.with(|l| {
        let l = l.borrow();
        (l.live_k, l.live_v)
    })
}
fn birth(is_key: bool) -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.push(LIVE);
        l.made += 1;
        if is_key {
            l.live_k += 1
        } else {
            l.live_v += 1
        }
        (l.state.len() - 1) as u32
    })
}
fn check(is_key: bool, id: u32, magic: u32, what: &str) -> bool {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let kind = if is_key { "key" } else { "value" };
        let want = MAGIC ^ id ^ (is_key as u32);
        let e = if magic != want || id as usize >= l.state.len() {
            Some(format!("{} of something that is not a {} (stray memory)", what, kind))
        } else if l.state[id as usize] != LIVE {
            Some(format!("{} of a {} already destroyed", what, kind))
        } else {
            None
        };
        match e {
            Some(e) => {
                if l.err.is_none() {
                    l.err = Some(e);
                }
                false
            }
            None => true,
        }
    })
}
fn death(is_key: bool, id: u32, magic: u32) {
    if check(is_key, id, magic, "destruction") {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state[id as usize] = DEAD;
            if is_key {
                l.live_k -= 1
            } else {
                l.live_v -= 1
            }
        })
    }
}
/// Counts calls into elements, destruction included, and has something done in the midst of one of them.
pub struct Amid {
    pub on: Cell<bool>,
    pub seen: Cell<u64>,
    pub at: Cell<u64>,
}
thread_local! {
    pub static AMID: Amid = const { Amid { on: Cell::new(false), seen: Cell::new(0), at: Cell::new(0) } };
    static DEED: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
/// Runs `f` with `deed` done within the `at`th call into an element; tells how many calls there were.
pub fn amid<R>(at: u64, deed: Box<dyn FnOnce()>, f: impl FnOnce() -> R) -> (R, u64) {
    DEED.with(|d| *d.borrow_mut() = Some(deed));
    AMID.with(|a| {
        a.seen.set(0);
        a.at.set(at);
        a.on.set(true);
    });
    let r = f();
    let n = AMID.with(|a| {
        a.on.set(false);
        a.seen.get()
    });
    drop(DEED.with(|d| d.borrow_mut().take()));
    (r, n)
}
#[inline]
fn event() {
    let _ = AMID.try_with(|a| {
        if a.on.get() {
            let i = a.seen.get();
            a.seen.set(i + 1);
            if i == a.at.get() {
                a.on.set(false);
                let deed = DEED.with(|d| d.borrow_mut().take());
                if let Some(d) = deed {
                    d()
                }
                a.on.set(true);
            }
        }
    });
}
/// Every call from the map into the element types passes here.
pub fn call() -> u64 {
    event();
    FAULTS.with(|f| {
        if !f.armed.get() {
            return u64::MAX - 1;
        }
        let i = f.calls.get();
        f.calls.set(i + 1);
        if i == f.panic_at.get() {
            std::panic::panic_any(Injected);
        }
        if f.budget.get() == 0 {
            f.armed.set(false);
            std::panic::panic_any(Runaway);
        }
        f.budget.set(f.budget.get() - 1);
        i
    })
}
/// An element has been destroyed, which may be the time to panic; but not while unwinding, where that aborts.
fn dropped() {
    event();
    // no value is left of a thread that is going down
    let _ = FAULTS.try_with(|f| {
        if f.armed.get() && f.drop_at.get() != u64::MAX && !std::thread::panicking() {
            let i = f.drops.get();
            f.drops.set(i + 1);
            if i == f.drop_at.get() {
                std::panic::panic_any(Injected);
            }
        }
    });
}
fn lie(i: u64, honest: Ordering) -> Ordering {
    let of = |n: i8| match n {
        -1 => Ordering::Less,
        0 => Ordering::Equal,
        _ => Ordering::Greater,
    };
    FAULTS.with(|f| {
        if !f.armed.get() {
            return honest;
        }
        let mut answer = honest;
        match f.tail.get() {
            (at, how) if i >= at => match how {
                1 | 2 => answer = of((honest as i8 + 1 + how) % 3 - 1),
                _ => answer = of(how - 4),
            },
            _ => {}
        }
        for (at, off) in f.lies.get() {
            if at == i {
                answer = of((honest as i8 + 1 + off) % 3 - 1);
            }
        }
        f.told.set(f.told.get() + (answer != honest) as u64);
        answer
    })
}

pub struct LKey {
    k: u16,
    tag: u32,
    id: u32,
    magic: u32,
}
impl LKey {
    fn ok(&self, what: &str) -> bool {
        check(true, self.id, self.magic, what)
    }
}
impl KT for LKey {
    fn mk(k: u16, tag: u32) -> Self {
        let id = birth(true);
        LKey { k, tag, id, magic: MAGIC ^ id ^ 1 }
    }
    fn k(&self) -> u16 {
        self.ok("use");
        self.k
    }
    fn tag(&self) -> Option<u32> {
        self.ok("use");
        Some(self.tag)
    }
}
impl Clone for LKey {
    fn clone(&self) -> Self {
        self.ok("clone");
        call();
        LKey::mk(self.k, self.tag)
    }
}
impl Drop for LKey {
    fn drop(&mut self) {
        death(true, self.id, self.magic);
        dropped()
    }
}
impl PartialEq for LKey {
    fn eq(&self, o: &Self) -> bool {
        self.ok("comparison");
        o.ok("comparison");
        let i = call();
        lie(i, self.k.cmp(&o.k)) == Ordering::Equal
    }
}
impl Eq for LKey {}
impl PartialOrd for LKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for LKey {
    fn cmp(&self, o: &Self) -> Ordering {
        self.ok("comparison");
        o.ok("comparison");
        let i = call();
        lie(i, self.k.cmp(&o.k))
    }
}
impl fmt::Debug for LKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}", self.k)
    }
}

pub struct LVal {
    v: u32,
    id: u32,
    magic: u32,
}
impl VT for LVal {
    fn mk(v: u32) -> Self {
        let id = birth(false);
        LVal { v, id, magic: MAGIC ^ id }
    }
    fn v(&self) -> u32 {
        check(false, self.id, self.magic, "use");
        self.v
    }
    fn set(&mut self, v: u32) {
        check(false, self.id, self.magic, "use");
        self.v = v
    }
}
impl Clone for LVal {
    fn clone(&self) -> Self {
        check(false, self.id, self.magic, "clone");
        call();
        LVal::mk(self.v)
    }
}
impl Drop for LVal {
    fn drop(&mut self) {
        death(false, self.id, self.magic);
        dropped()
    }
}

// ---------------------------------------------------------------- element layouts

fn aligned<T>(x: &T) {
    assert!(std::hint::black_box(x as *const T as usize) % std::mem::align_of::<T>() == 0, "a reference to a misaligned element");
}
/// Keys and values of other sizes and alignments.
macro_rules! keys {
    ($($(#[$a:meta])* $n:ident($t:ty), $mk:expr, $k:expr, $tag:expr;)*) => { $(
        $(#[$a])*
        #[derive(Clone, Debug)]
        pub struct $n(pub $t);
        impl KT for $n {
            fn mk(k: u16, tag: u32) -> Self {
                let f: fn(u16, u32) -> $t = $mk;
                $n(f(k, tag))
            }
            fn k(&self) -> u16 {
                let f: fn(&$t) -> u16 = $k;
                aligned(self);
                f(&self.0)
            }
            fn tag(&self) -> Option<u32> {
                let f: fn(&$t) -> Option<u32> = $tag;
                f(&self.0)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.k() == o.k()
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> Ordering {
                self.k().cmp(&o.k())
            }
        }
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.k().hash(h)
            }
        }
    )* };
}
keys! {
    BoxKey(Box<(u16, u32)>), |k, t| Box::new((k, t)), |x| x.0, |x| Some(x.1);
    StrKey(String), |k, t| format!("key number {:05} with tag {}", k, t), |x| x[11..16].parse().unwrap(), |x| Some(x[26..].parse().unwrap());
    U16Key(u16), |k, _| k, |x| *x, |_| None;
    WideKey(u128), |k, t| ((k as u128) << 100) | t as u128, |x| (*x >> 100) as u16, |x| Some(*x as u32);
    #[repr(align(32))] Al32Key((u16, u32)), |k, t| (k, t), |x| x.0, |x| Some(x.1);
    #[repr(align(128))] Al128Key((u16, u32)), |k, t| (k, t), |x| x.0, |x| Some(x.1);
    HugeKey([u32; 1100]), |k, t| { let mut a = [k as u32; 1100]; a[1099] = t; a }, |x| { assert!(x[..1099].iter().step_by(157).all(|y| *y == x[0]), "a torn key"); x[0] as u16 }, |x| Some(x[1099]);
    #[repr(align(4096))] PageKey((u16, u32)), |k, t| (k, t), |x| x.0, |x| Some(x.1);
    BigKey([u32; 19]), |k, t| { let mut a = [k as u32; 19]; a[18] = t; a }, |x| { assert!(x[..18].iter().all(|y| *y == x[0]), "a torn key"); x[0] as u16 }, |x| Some(x[18]);
}
macro_rules! vals {
    ($($(#[$a:meta])* $n:ident($t:ty), $mk:expr, $v:expr, $norm:expr;)*) => { $(
        $(#[$a])*
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub $t);
        impl VT for $n {
            fn mk(v: u32) -> Self {
                let f: fn(u32) -> $t = $mk;
                $n(f(v))
            }
            fn v(&self) -> u32 {
                let f: fn(&$t) -> u32 = $v;
                aligned(self);
                f(&self.0)
            }
            fn norm(v: u32) -> u32 {
                let f: fn(u32) -> u32 = $norm;
                f(v)
            }
        }
    )* };
}
vals! {
    BoxVal(Box<u32>), |v| Box::new(v), |x| **x, |v| v;
    StrVal(String), |v| format!("value {}", v), |x| x[6..].parse().unwrap(), |v| v;
    NoVal(()), |_| (), |_| 0, |_| 0;
    U8Val(u8), |v| v as u8, |x| *x as u32, |v| v as u8 as u32;
    WideVal(u128), |v| (v as u128) << 90, |x| (*x >> 90) as u32, |v| v;
    #[repr(align(64))] Al64Val(u32), |v| v, |x| *x, |v| v;
    #[repr(align(128))] Al128Val(u8), |v| v as u8, |x| *x as u32, |v| v as u8 as u32;
    #[repr(align(64))] NoVal64(()), |_| (), |_| 0, |_| 0;
    HugeVal([u32; 1300]), |v| [v; 1300], |x| { assert!(x.iter().step_by(99).all(|y| *y == x[0]), "a torn value"); x[1299] }, |v| v;
    BigVal([u64; 37]), |v| [v as u64; 37], |x| { assert!(x.iter().all(|y| *y == x[0]), "a torn value"); x[0] as u32 }, |v| v;
}

/// Nodes of four, shared or not, for maps within maps.
pub struct Inner<P>(std::marker::PhantomData<P>);
impl<K, V, P: palmtree::PointerKind> palmtree::TreeConfig<K, V> for Inner<P> {
    type BranchSize = typenum::U4;
    type LeafSize = typenum::U4;
    type PointerKind = P;
}
/// A map as the key of a map: ordered, compared and hashed as maps are.
#[derive(Debug)]
pub struct MapKey<P: palmtree::PointerKind + 'static>(palmtree::PalmTree<u16, u16, Inner<P>>, u32);
impl<P: palmtree::PointerKind> Clone for MapKey<P> {
    fn clone(&self) -> Self {
        MapKey(self.0.clone(), self.1)
    }
}
impl<P: palmtree::PointerKind> KT for MapKey<P> {
    fn mk(k: u16, tag: u32) -> Self {
        // a prefix says nothing about the order, so that the comparison has to go on into the second leaf
        MapKey((0..4).map(|i| (i, 7)).chain([(4, k / 50), (9, k % 50)]).chain((0..k % 3).map(|i| (10 + i, i))).collect(), tag)
    }
    fn k(&self) -> u16 {
        let k = self.0[&4] * 50 + self.0.range(5..).next().map_or(0, |e| *e.1);
        assert!(self.0.len() == 6 + (k % 3) as usize, "a map within a map has changed");
        k
    }
    fn tag(&self) -> Option<u32> {
        Some(self.1)
    }
}
impl<P: palmtree::PointerKind> PartialEq for MapKey<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P: palmtree::PointerKind> Eq for MapKey<P> {}
impl<P: palmtree::PointerKind> PartialOrd for MapKey<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: palmtree::PointerKind> Ord for MapKey<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P: palmtree::PointerKind> Hash for MapKey<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
/// A map as the value of a map.
pub struct MapVal<P: palmtree::PointerKind + 'static>(palmtree::PalmTree<u32, u32, Inner<P>>);
impl<P: palmtree::PointerKind> Clone for MapVal<P> {
    fn clone(&self) -> Self {
        MapVal(self.0.clone())
    }
}
impl<P: palmtree::PointerKind> VT for MapVal<P> {
    fn mk(v: u32) -> Self {
        MapVal(palmtree::PalmTree::load((0..=v % 7).map(|i| (i, v))))
    }
    fn v(&self) -> u32 {
        let v = self.0[&0];
        assert!(self.0.len() as u32 == v % 7 + 1 && self.0.iter().all(|e| *e.1 == v), "a map within a map has changed");
        v
    }
    /// In place.
    fn set(&mut self, v: u32) {
        self.0.extend((0..=v % 7).map(|i| (i, v)));
        while self.0.len() as u32 > v % 7 + 1 {
            self.0.remove_highest();
        }
    }
}

// ---------------------------------------------------------------- a pointer kind of the user's own

/// A kind of pointer which trusts nobody: every access has to be as a type of the layout the node was made with,
/// before the node is released, and the pointer must be the one handed out for it. It is three words wide, so
/// nobody can take it for a bare address, and its nodes begin elsewhere than those of the library's kinds do.
pub struct Chk<const SHARED: bool> {
    node: *mut ChkHead,
    serial: u64,
    seal: u64,
}
struct ChkHead {
    magic: u64,
    serial: u64,
    refs: usize,
    what: Layout,
}
#[repr(C)]
struct ChkNode<A> {
    head: ChkHead,
    value: A,
}
const CHK: u64 = 0x6E6F_6465_5F6F_6B21;
thread_local! {
    static CHK_SERIAL: Cell<u64> = const { Cell::new(1) };
}
impl<const SHARED: bool> Chk<SHARED> {
    fn over<A>(node: *mut ChkNode<A>, serial: u64) -> Self {
        Chk { node: node.cast(), serial, seal: CHK ^ serial ^ node as u64 }
    }
    unsafe fn node<A>(&self) -> *mut ChkNode<A> {
        if self.seal != CHK ^ self.serial ^ self.node as u64 {
            crate::engine::heap_fault("use of a node pointer that is none");
        }
        let h = &*self.node;
        if h.magic != CHK ^ self.serial || h.serial != self.serial || h.refs == 0 {
            crate::engine::heap_fault("use of a node already released");
        }
        if h.what != Layout::new::<A>() {
            crate::engine::heap_fault("use of a node as one of another type");
        }
        if h.refs > 1 && !SHARED {
            crate::engine::heap_fault("two owners of a node that is not shared");
        }
        self.node.cast()
    }
    unsafe fn let_go<A>(&mut self) {
        let n = self.node::<A>();
        self.seal = 0;
        (*n).head.refs -= 1;
        if (*n).head.refs == 0 {
            (*n).head.magic = 0;
            // the memory goes even if a destructor panics, as with Box
            let b: Box<std::mem::ManuallyDrop<ChkNode<A>>> = Box::from_raw(n.cast());
            struct Late<A>(Box<std::mem::ManuallyDrop<ChkNode<A>>>);
            impl<A> Drop for Late<A> {
                fn drop(&mut self) {
                    unsafe { std::ptr::drop_in_place(&mut self.0.value) }
                }
            }
            drop(Late(b));
        }
    }
}
impl<const SHARED: bool> PointerKind for Chk<SHARED> {
    unsafe fn new<A>(value: A) -> Self {
        let serial = CHK_SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        let head = ChkHead { magic: CHK ^ serial, serial, refs: 1, what: Layout::new::<A>() };
        Self::over(Box::into_raw(Box::new(ChkNode { head, value })), serial)
    }
    unsafe fn into_raw<A>(self) -> std::ptr::NonNull<A> {
        std::ptr::NonNull::from(&mut (*self.node::<A>()).value)
    }
    unsafe fn from_raw<A>(ptr: std::ptr::NonNull<A>) -> Self {
        let node = ptr.as_ptr().cast::<u8>().sub(std::mem::offset_of!(ChkNode<A>, value)).cast::<ChkNode<A>>();
        let p = Self::over(node, (*node).head.serial);
        p.node::<A>();
        p
    }
    unsafe fn deref<A>(&self) -> &A {
        &(*self.node::<A>()).value
    }
    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        let n = self.node::<A>();
        if SHARED && (*n).head.refs > 1 {
            let own = Self::new((*n).value.clone());
            std::mem::replace(self, own).let_go::<A>();
        }
        &mut (*self.node::<A>()).value
    }
    unsafe fn drop_ptr<A>(&mut self) {
        self.let_go::<A>()
    }
    unsafe fn clone<A: Clone>(&self) -> Self {
        let n = self.node::<A>();
        if SHARED {
            (*n).head.refs += 1;
            Self::over(n, self.serial)
        } else {
            Self::new((*n).value.clone())
        }
    }
}

// ---------------------------------------------------------------- configurations

pub trait Cfg: TreeConfig<Key, Val> + TreeConfig<LKey, LVal> + TreeConfig<PKey, PVal> + 'static {
    const NAME: &'static str;
    /// Whether trees of this kind may be handed to other threads by the explorer.
    const SEND: bool;
    /// Whether clones share their nodes.
    const SHARED: bool;
    const B: usize;
    const L: usize;
}
const fn shared_kind(name: &str) -> bool {
    match name.as_bytes() {
        [b'S' | b'Y', ..] | [b'C', b'S', ..] | [.., b'S' | b'Y'] => true,
        _ => false,
    }
}
macro_rules! cfgs {
    ($($n:ident $b:ident $l:ident $p:ty, $send:expr;)*) => {
        $(
            #[derive(Debug, Clone, Copy)]
            pub struct $n;
            impl<K, V> TreeConfig<K, V> for $n {
                type BranchSize = typenum::$b;
                type LeafSize = typenum::$l;
                type PointerKind = $p;
            }
            impl Cfg for $n {
                const NAME: &'static str = stringify!($n);
                const SEND: bool = $send;
                const SHARED: bool = shared_kind(stringify!($n));
                const B: usize = <typenum::$b as typenum::Unsigned>::USIZE;
                const L: usize = <typenum::$l as typenum::Unsigned>::USIZE;
            }
        )*
    };
}
cfgs! {
    U4x4 U4 U4 Unique, true;
    S4x4 U4 U4 Shared, false;
    Y4x4 U4 U4 SyncShared, true;
    U5x5 U5 U5 Unique, true;
    U4x5 U4 U5 Unique, true;
    U5x4 U5 U4 Unique, true;
    S5x5 U5 U5 Shared, false;
    Y5x4 U5 U4 SyncShared, true;
    U6x6 U6 U6 Unique, true;
    U7x7 U7 U7 Unique, true;
    U4x16 U4 U16 Unique, true;
    S16x4 U16 U4 Shared, false;
    Y6x7 U6 U7 SyncShared, true;
    U8x9 U8 U9 Unique, true;
    S10x11 U10 U11 Shared, false;
    U16x17 U16 U17 Unique, true;
    Y33x32 U33 U32 SyncShared, true;
    U65x63 U65 U63 Unique, true;
    U300x4 U300 U4 Unique, true;
    S4x300 U4 U300 Shared, false;
    U256x4 U256 U4 Unique, true;
    Y4x256 U4 U256 SyncShared, true;
    Y130x5 U130 U5 SyncShared, true;
    U1024x4 U1024 U4 Unique, true;
    U4x1024 U4 U1024 Unique, true;
    Y1024x1024 U1024 U1024 SyncShared, true;
    CU4x4 U4 U4 Chk<false>, false;
    CS4x4 U4 U4 Chk<true>, false;
    CU5x4 U5 U4 Chk<false>, false;
    CS4x5 U4 U5 Chk<true>, false;
}
macro_rules! t64 {
    ($($n:ident $p:ty, $send:expr;)*) => { $(
        pub type $n = Tree64<$p>;
        impl Cfg for $n {
            const NAME: &'static str = stringify!($n);
            const SEND: bool = $send;
                const SHARED: bool = shared_kind(stringify!($n));
            const B: usize = 64;
            const L: usize = 64;
        }
    )* };
}
t64! { T64U Unique, true; T64S Shared, false; T64Y SyncShared, true; }

/// Calls `$body` with `$C` bound to the configuration called `$name`, one of those listed.
#[macro_export]
macro_rules! with_cfg {
    ($name:expr, [$($n:ident)*], $C:ident => $body:expr) => {
        match $name {
            $( stringify!($n) => { type $C = $crate::types::$n; $body } )*
            other => panic!("no configuration called {}", other),
        }
    };
}
