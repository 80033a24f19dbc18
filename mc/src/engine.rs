//! The explorer: breadth-first enumeration of every tree reachable within a plan's bounds, crash and
//! hang capture, replay, minimisation and reporting.
use crate::{ops::*, types::*};
use palmtree::PalmTree;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ---------------------------------------------------------------- allocator

/// Fills memory with recognisable rubbish when it is handed out and when it is given back, puts a canary
/// behind every block, counts live allocations per thread, and (on request) keeps freed blocks back for a
/// while to see whether anybody writes to them.
pub struct Poison;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0x5A;
const CANARY: usize = 16;
const FILL: usize = 16384;
const RING: usize = 192;
struct Ring {
    blocks: [(*mut u8, usize, usize); RING],
    next: usize,
}
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static HELD: UnsafeCell<Ring> = const { UnsafeCell::new(Ring { blocks: [(std::ptr::null_mut(), 0, 0); RING], next: 0 }) };
}
thread_local! {
    static HEAP_HOOK: Cell<Option<fn(bool)>> = const { Cell::new(None) };
    static BLOCKS: Cell<*mut Vec<(usize, usize)>> = const { Cell::new(std::ptr::null_mut()) };
}
/// The heap blocks this thread allocated in `f` and did not release in it.
pub fn blocks_of<R>(f: impl FnOnce() -> R) -> (R, Vec<(usize, usize)>) {
    let mut v = Vec::with_capacity(1 << 12);
    BLOCKS.with(|b| b.set(&mut v));
    let r = f();
    BLOCKS.with(|b| b.set(std::ptr::null_mut()));
    (r, v)
}
/// Calls `f` before (true) and after (false) every allocation and release on this thread.
pub fn heap_hook(f: Option<fn(bool)>) {
    HEAP_HOOK.with(|h| h.set(f))
}
static QUARANTINE: AtomicBool = AtomicBool::new(false);
/// Keep freed blocks back from now on.
pub fn quarantine() {
    QUARANTINE.store(true, SeqCst);
}
pub fn live_allocs() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn live_bytes() -> i64 {
    BYTES.with(|l| l.get())
}
/// How many more bytes than at the start this thread ever held in `f`, and how many more it holds after it.
pub fn peak_of<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    let b = live_bytes();
    PEAK.with(|p| p.set(b));
    let r = f();
    (r, PEAK.with(|p| p.get()) - b, live_bytes() - b)
}
pub(crate) fn heap_fault(why: &str) -> ! {
    unsafe {
        let i = my_slot();
        dump(&SLOT[i], why);
        libc::_exit(70);
    }
}
unsafe fn all(p: *const u8, n: usize, x: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|b| *b == x)
}
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match HEAP_HOOK.try_with(|h| h.get()) {
            Ok(Some(f)) => {
                f(true);
                let p = self.take(l);
                f(false);
                p
            }
            _ => self.take(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match HEAP_HOOK.try_with(|h| h.get()) {
            Ok(Some(f)) => {
                f(true);
                self.give(p, l);
                f(false);
            }
            _ => self.give(p, l),
        }
    }
}
impl Poison {
    unsafe fn take(&self, l: Layout) -> *mut u8 {
        let p = crate::pages::take(l.size() + CANARY, l.align()).unwrap_or_else(|| System.alloc(Layout::from_size_align_unchecked(l.size() + CANARY, l.align())));
        if !p.is_null() {
            std::ptr::write_bytes(p, FRESH, l.size().min(FILL));
            std::ptr::write_bytes(p.add(l.size()), FRESH ^ FREED, CANARY);
            let _ = LIVE.try_with(|c| c.set(c.get() + 1));
            let _ = BYTES.try_with(|c| {
                c.set(c.get() + l.size() as i64);
                let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
            });
            let _ = BLOCKS.try_with(|b| {
                if let Some(v) = b.get().as_mut().filter(|v| v.len() < v.capacity()) {
                    v.push((p as usize, l.size()))
                }
            });
        }
        p
    }
    unsafe fn give(&self, p: *mut u8, l: Layout) {
        if !all(p.add(l.size()), CANARY, FRESH ^ FREED) {
            heap_fault("a write past the end of a heap block");
        }
        std::ptr::write_bytes(p, FREED, l.size().min(FILL));
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|b| {
            if let Some(v) = b.get().as_mut() {
                v.retain(|x| x.0 != p as usize)
            }
        });
        if crate::pages::give(p, l.size() + CANARY) {
            return;
        }
        let mut out = (p, l.size(), l.align());
        if QUARANTINE.load(Relaxed) && l.size() <= 4096 {
            let _ = HELD.try_with(|h| {
                let h = &mut *h.get();
                std::mem::swap(&mut out, &mut h.blocks[h.next]);
                h.next = (h.next + 1) % RING;
            });
            if out.0.is_null() {
                return;
            }
            if out.1 <= 4096 && !all(out.0, out.1, FREED) {
                heap_fault("a write to a heap block already freed");
            }
        }
        System.dealloc(out.0, Layout::from_size_align_unchecked(out.1 + CANARY, out.2))
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;

// ---------------------------------------------------------------- what is running, for crashes and hangs

const SLOTS: usize = 128;
const BUF: usize = 16384;
struct Slot {
    busy: AtomicBool,
    seq: AtomicU64,
    len: AtomicUsize,
    op: AtomicU64,
    buf: UnsafeCell<[u8; BUF]>,
}
unsafe impl Sync for Slot {}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { busy: AtomicBool::new(false), seq: AtomicU64::new(0), len: AtomicUsize::new(0), op: AtomicU64::new(u64::MAX), buf: UnsafeCell::new([0; BUF]) };
static SLOT: [Slot; SLOTS] = [SLOT0; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static mut CRASH_FILE: [u8; 512] = [0; 512];
thread_local! {
    static SLOT_ID: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// This thread's slot.
pub fn my_slot() -> usize {
    SLOT_ID.try_with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS)
        }
        s.get()
    }).unwrap_or(0)
}
/// Crashes of this thread are reported under another thread's job.
pub fn adopt_slot(i: usize) {
    SLOT_ID.with(|s| s.set(i))
}
pub fn begin(desc: &str) {
    let i = my_slot();
    let s = &SLOT[i];
    let n = desc.len().min(BUF);
    s.len.store(0, SeqCst);
    unsafe { std::ptr::copy_nonoverlapping(desc.as_ptr(), s.buf.get() as *mut u8, n) };
    s.op.store(u64::MAX, Relaxed);
    s.len.store(n, SeqCst);
    s.seq.fetch_add(1, Relaxed);
    s.busy.store(true, SeqCst);
}
pub fn note_op(o: Op) {
    let i = my_slot();
    let s = &SLOT[i];
    s.op.store(((o.c as u64) << 32) | ((o.a as u64) << 16) | o.b as u64, Relaxed);
    s.seq.fetch_add(1, Relaxed);
}
/// Tells the watchdog that a long step is making progress.
pub fn tick() {
    let i = my_slot();
    SLOT[i].seq.fetch_add(1, Relaxed);
}
pub fn finish() {
    SLOT[my_slot()].busy.store(false, SeqCst)
}
unsafe fn dump(slot: &Slot, why: &str) {
    let p = std::ptr::addr_of!(CRASH_FILE) as *const libc::c_char;
    let fd = libc::open(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
    if fd < 0 {
        return;
    }
    let w = |b: &[u8]| {
        libc::write(fd, b.as_ptr() as *const _, b.len());
    };
    w(std::slice::from_raw_parts(slot.buf.get() as *const u8, slot.len.load(SeqCst)));
    let o = slot.op.load(SeqCst);
    if o != u64::MAX {
        w(b"op ");
        w(Code::ALL[(o >> 32) as usize].name().as_bytes());
        for x in [(o >> 16) & 0xffff, o & 0xffff] {
            let mut d = [b' '; 6];
            let mut x = x;
            for i in (1..6).rev() {
                d[i] = b'0' + (x % 10) as u8;
                x /= 10;
            }
            w(&d);
        }
        w(b"\n");
    }
    w(b"why ");
    w(why.as_bytes());
    w(b"\n");
    libc::close(fd);
}
pub(crate) extern "C" fn on_signal(sig: libc::c_int) {
    unsafe {
        let i = my_slot();
        let why = match sig {
            libc::SIGSEGV => "the process died: invalid memory access (SIGSEGV)",
            libc::SIGBUS => "the process died: invalid memory access (SIGBUS)",
            libc::SIGILL => "the process died: illegal instruction (SIGILL)",
            _ => "the process died: abort (SIGABRT: memory corruption, a panic while panicking, or memory exhausted)",
        };
        dump(&SLOT[i], why);
        libc::_exit(70);
    }
}
/// Seconds without progress in one step before it counts as not terminating.
pub const HANG_SECS: u64 = 45;
pub fn arm(crash_file: &str) {
    unsafe {
        let b = crash_file.as_bytes();
        assert!(b.len() < 511);
        std::ptr::copy_nonoverlapping(b.as_ptr(), std::ptr::addr_of_mut!(CRASH_FILE) as *mut u8, b.len());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            for (i, s) in SLOT.iter().enumerate() {
                if s.busy.load(SeqCst) && s.seq.load(SeqCst) == last[i].0 {
                    last[i].1 += 1;
                    if last[i].1 >= HANG_SECS {
                        unsafe {
                            dump(s, "no progress: the operation does not terminate");
                            libc::_exit(71);
                        }
                    }
                } else {
                    last[i] = (s.seq.load(SeqCst), 0);
                }
            }
        }
    });
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.is::<Injected>() {
        "an injected panic escaped".into()
    } else if p.is::<Runaway>() {
        "makes an unbounded number of calls into the element types".into()
    } else {
        "something".into()
    };
    s.replace('\n', " ")
}
/// Runs `f`, turning a panic into a failure.
pub fn guard<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", panic_text(p))),
    }
}

// ---------------------------------------------------------------- counting

#[derive(Default, Clone)]
pub struct Tally {
    pub states: u64,
    pub transitions: u64,
    pub evals: u64,
    pub validated: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Digests of observed outcomes, to report how many distinct ones there were.
    pub outcomes: HashSet<u64>,
}
impl Tally {
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = s();
            if !self.samples.contains(&s) {
                self.samples.push(s)
            }
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(h);
        }
    }
    pub fn add(&mut self, o: Tally) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.evals += o.evals;
        self.validated += o.validated;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 && !self.samples.contains(&s) {
                self.samples.push(s)
            }
        }
        self.outcomes.extend(o.outcomes);
    }
}

// ---------------------------------------------------------------- histories

pub struct Link {
    pub op: Op,
    pub prev: Hist,
}
pub type Hist = Option<Arc<Link>>;
pub fn hist_vec(h: &Hist) -> Vec<Op> {
    let mut v = Vec::new();
    let mut p = h;
    while let Some(l) = p {
        v.push(l.op);
        p = &l.prev;
    }
    v.reverse();
    v
}
pub fn show(h: &[Op]) -> String {
    h.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
}
pub fn parse_ops(s: &str) -> Vec<Op> {
    s.split(';').filter(|x| !x.trim().is_empty()).map(|x| Op::parse(x).unwrap_or_else(|| panic!("bad operation {:?}", x))).collect()
}

// ---------------------------------------------------------------- plans and states

#[derive(Clone)]
pub struct Plan {
    pub cfg: &'static str,
    pub label: String,
    pub seed: Vec<Op>,
    pub alphabet: Vec<Op>,
    /// Every key that can occur, plus the neighbours.
    pub dom: Vec<u16>,
    /// The keys state checks use.
    pub probes: Vec<u16>,
    pub depth: usize,
    /// Check states (run the property's state check) only; `false` expands without it.
    pub check: bool,
    /// Rebuild every n-th state from scratch without clones, and compare.
    pub validate: usize,
}
pub struct St<'a, C: Cfg> {
    pub t: &'a Tree<Key, Val, C>,
    pub m: &'a Model,
    pub hist: &'a [Op],
    pub dom: &'a [u16],
    pub probes: &'a [u16],
}
pub struct Node<C: Cfg> {
    pub t: Tree<Key, Val, C>,
    pub m: Model,
    pub hist: Hist,
}
/// Trees move between the explorer's threads only for configurations with `SEND`.
struct Mv<T>(T);
unsafe impl<T> Send for Mv<T> {}
unsafe impl<T> Sync for Mv<T> {}

#[derive(Clone, Debug)]
pub struct Failure {
    pub cfg: String,
    pub hist: Vec<Op>,
    pub op: Option<Op>,
    pub job: Option<String>,
    pub dom: Vec<u16>,
    pub probes: Vec<u16>,
    pub msg: String,
}
/// `0-5,9` for 0 1 2 3 4 5 9.
pub fn list(v: &[u16]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
            j += 1
        }
        if !s.is_empty() {
            s.push(',')
        }
        if j > i {
            let _ = write!(s, "{}-{}", v[i], v[j]);
        } else {
            let _ = write!(s, "{}", v[i]);
        }
        i = j + 1;
    }
    s
}
pub fn unlist(s: &str) -> Vec<u16> {
    let mut v = Vec::new();
    for p in s.split(',') {
        let mut e = p.trim().split('-').filter_map(|x| x.parse::<u16>().ok());
        if let Some(a) = e.next() {
            v.extend(a..=e.next().unwrap_or(a))
        }
    }
    v
}
impl Failure {
    pub fn to_text(&self, prop: &str, profile: &str) -> String {
        let mut s = format!("property {}\nprofile {}\n", prop, profile);
        match &self.job {
            Some(j) => {
                let _ = writeln!(s, "job {}", j);
            }
            None => {
                let _ = writeln!(s, "cfg {}\ndom {}\nprobes {}\nhist {}", self.cfg, list(&self.dom), list(&self.probes), show(&self.hist));
                if let Some(o) = self.op {
                    let _ = writeln!(s, "op {}", o);
                }
            }
        }
        let _ = writeln!(s, "why {}", self.msg.replace('\n', " "));
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Ctx {
    /// (i, n): check only every n-th state, starting from the i-th.
    pub shard: (usize, usize),
    pub tier: Tier,
    pub checked: bool,
    pub threads: usize,
    pub header: String,
    pub tally: Arc<Mutex<Tally>>,
    pub plans: Arc<Mutex<Vec<String>>>,
}

pub trait Prop: 'static {
    const ID: &'static str;
    /// Closures whose trees cannot change threads are explored this many times over, each checking its share.
    const SHARDS: usize = 1;
    fn plans(tier: Tier, checked: bool) -> Vec<Plan>;
    fn jobs(_tier: Tier, _checked: bool) -> Vec<String> {
        Vec::new()
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String>;
    fn job(name: &str, _t: &mut Tally) -> Result<(), String> {
        Err(format!("no job called {}", name))
    }
    fn run_plan(plan: &Plan, ctx: &Ctx) -> Result<(), Failure>;
    fn is_send(cfg: &str) -> bool;
    fn replay(cfg: &str, hist: &[Op], op: Option<Op>, dom: &[u16], probes: &[u16]) -> Result<(), String>;
}
#[macro_export]
macro_rules! cfg_dispatch {
    ([$($n:ident)*]) => {
        fn run_plan(plan: &$crate::engine::Plan, ctx: &$crate::engine::Ctx) -> Result<(), $crate::engine::Failure> {
            $crate::with_cfg!(plan.cfg, [$($n)*], C => $crate::engine::explore::<Self, C>(plan, ctx))
        }
        fn is_send(cfg: &str) -> bool {
            use $crate::types::Cfg;
            $crate::with_cfg!(cfg, [$($n)*], C => C::SEND)
        }
        fn replay(cfg: &str, hist: &[$crate::ops::Op], op: Option<$crate::ops::Op>, dom: &[u16], probes: &[u16]) -> Result<(), String> {
            $crate::with_cfg!(cfg, [$($n)*], C => $crate::engine::replay_state::<Self, C>(hist, op, dom, probes))
        }
    };
}

// ---------------------------------------------------------------- exploration

/// Distinguishes emptied trees by the height they had, which no lookup can see.
fn height1<C: Cfg>(t: &Tree<Key, Val, C>, m: &Model) -> u64 {
    m.e.first().map(|e| height(t, e.k)).unwrap_or(0)
}
pub fn state_fp<C: Cfg>(t: &Tree<Key, Val, C>, m: &Model, dom: &[u16], before: (&Tree<Key, Val, C>, &Model)) -> u128 {
    if m.e.is_empty() && !before.1.e.is_empty() {
        return 0xE0 + height1(before.0, before.1) as u128;
    }
    fingerprint(t, dom)
}
pub fn apply_checked<C: Cfg>(t: &mut Tree<Key, Val, C>, m: &mut Model, o: Op) -> Result<(), String> {
    guard(|| {
        apply::<Key, Val, C>(t, m, o)?;
        contents(t, m).map_err(|e| format!("after {}: {}", o, e))
    })
}
pub fn build<K: KT, V: VT, C: palmtree::TreeConfig<K, V>>(h: &[Op]) -> Result<(Tree<K, V, C>, Model), String> {
    let mut t = PalmTree::new();
    let mut m = Model::default();
    for &o in h {
        apply::<K, V, C>(&mut t, &mut m, o)?;
    }
    Ok((t, m))
}
fn desc<P: Prop, C: Cfg>(ctx: &Ctx, plan: &Plan, hist: &[Op]) -> String {
    let mut s = String::with_capacity(256);
    let _ = write!(s, "property {}\n{}cfg {}\ndom {}\nprobes {}\nhist ", P::ID, ctx.header, C::NAME, list(&plan.dom), list(&plan.probes));
    for o in hist {
        let _ = write!(s, "{}; ", o);
    }
    s.push('\n');
    s
}
struct Chunk<C: Cfg> {
    new: Vec<(u128, Node<C>)>,
    tally: Tally,
    fail: Option<Failure>,
}

fn work<P: Prop + ?Sized, C: Cfg>(plan: &Plan, ctx: &Ctx, nodes: &[Node<C>], expand: bool, seen: &HashSet<u128>, first: usize) -> Chunk<C>
where
    P: Sized,
{
    let mut out = Chunk { new: Vec::new(), tally: Tally::default(), fail: None };
    let mut local: HashSet<u128> = HashSet::new();
    for (i, n) in nodes.iter().enumerate() {
        let mine = (first + i) % ctx.shard.1 == ctx.shard.0;
        let mut hist = plan.seed.clone();
        hist.extend(hist_vec(&n.hist));
        begin(&desc::<P, C>(ctx, plan, &hist));
        let fail = |op: Option<Op>, msg: String| Some(Failure { cfg: C::NAME.into(), hist: hist.clone(), op, job: None, dom: plan.dom.clone(), probes: plan.probes.clone(), msg });
        if mine && plan.validate > 0 && (first + i) % plan.validate == 0 {
            let r = guard(|| {
                let (t, m) = build::<Key, Val, C>(&hist)?;
                contents(&t, &m)?;
                if fingerprint(&t, &plan.dom) != fingerprint(&n.t, &plan.dom) {
                    return Err("a tree reached through clones differs in shape from the same history without clones".into());
                }
                Ok(())
            });
            if let Err(e) = r {
                out.fail = fail(None, e);
                break;
            }
            out.tally.validated += 1;
        }
        out.tally.states += mine as u64;
        if mine && plan.check {
            let s = St { t: &n.t, m: &n.m, hist: &hist, dom: &plan.dom, probes: &plan.probes };
            let t = &mut out.tally;
            if let Err(e) = guard(|| P::state::<C>(&s, t)) {
                out.fail = fail(None, e);
                break;
            }
            if (first + i) % 977 == 5 {
                out.tally.sample(|| format!("{}: {} -> {} entries", C::NAME, show(&hist), n.m.e.len()));
            }
        }
        if expand {
            for &o in &plan.alphabet {
                note_op(o);
                let mut t = n.t.clone();
                let mut m = n.m.clone();
                if let Err(e) = apply_checked::<C>(&mut t, &mut m, o) {
                    out.fail = fail(Some(o), e);
                    break;
                }
                out.tally.transitions += mine as u64;
                let fp = state_fp(&t, &m, &plan.dom, (&n.t, &n.m));
                if !seen.contains(&fp) && local.insert(fp) {
                    out.new.push((fp, Node { t, m, hist: Some(Arc::new(Link { op: o, prev: n.hist.clone() })) }));
                }
            }
            if out.fail.is_some() {
                break;
            }
        }
    }
    finish();
    out
}

/// Plans are explored one after another by all threads, or else many at a time by one thread each.
fn parallel(plan: &Plan, send: bool) -> bool {
    send && plan.seed.is_empty()
}
pub struct Explored<C: Cfg> {
    pub nodes: Vec<Node<C>>,
    pub closed: bool,
}
/// Breadth first over the real trees. `keep`: return all the states.
pub fn bfs<P: Prop, C: Cfg>(plan: &Plan, ctx: &Ctx, keep: bool) -> Result<Explored<C>, Failure> {
    let threads = if parallel(plan, C::SEND) { ctx.threads } else { 1 };
    let fail0 = |msg| Failure { cfg: C::NAME.into(), hist: plan.seed.clone(), op: None, job: None, dom: plan.dom.clone(), probes: plan.probes.clone(), msg };
    begin(&desc::<P, C>(ctx, plan, &plan.seed));
    let (t, m) = guard(|| build::<Key, Val, C>(&plan.seed)).map_err(fail0)?;
    finish();
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(fingerprint(&t, &plan.dom));
    let mut frontier = vec![Node { t, m, hist: None }];
    let mut kept: Vec<Node<C>> = Vec::new();
    let mut depth = 0;
    let (mut total, mut steps) = (0, 0);
    let mut tally = Tally::default();
    let mut closed = false;
    loop {
        let expand = depth < plan.depth;
        let size = (frontier.len() / (threads * 8)).clamp(1, 256);
        let chunks = frontier.len().div_ceil(size);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let results: Vec<Mutex<Option<Mv<Chunk<C>>>>> = (0..chunks).map(|_| Mutex::new(None)).collect();
        let fr = Mv(&frontier[..]);
        let base = total;
        let run = || {
            let fr = &fr;
            loop {
                let c = next.fetch_add(1, SeqCst);
                if c >= chunks || stop.load(SeqCst) {
                    break;
                }
                let lo = c * size;
                let hi = (lo + size).min(fr.0.len());
                let r = work::<P, C>(plan, ctx, &fr.0[lo..hi], expand, &seen, base + lo);
                if r.fail.is_some() {
                    stop.store(true, SeqCst);
                }
                *results[c].lock().unwrap() = Some(Mv(r));
            }
        };
        if threads == 1 || chunks == 1 {
            run();
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads).map(|_| s.spawn(run)).collect();
                for h in hs {
                    h.join().expect("explorer thread");
                }
            });
        }
        total += frontier.len();
        steps += if expand { frontier.len() * plan.alphabet.len() } else { 0 };
        let mut new = Vec::new();
        for r in results {
            if let Some(Mv(r)) = r.into_inner().unwrap() {
                tally.add(r.tally);
                if let Some(f) = r.fail {
                    ctx.tally.lock().unwrap().add(tally);
                    return Err(f);
                }
                for (fp, n) in r.new {
                    if seen.insert(fp) {
                        new.push(n)
                    }
                }
            }
        }
        let old = std::mem::replace(&mut frontier, new);
        if keep {
            kept.extend(old);
        }
        if !expand {
            break;
        }
        if frontier.is_empty() {
            closed = true;
            break;
        }
        depth += 1;
    }
    if ctx.shard.0 == 0 {
        ctx.plans.lock().unwrap().push(format!(
            "{{\"label\": {:?}, \"cfg\": {:?}, \"states\": {}, \"transitions\": {}, \"depth\": {}, \"alphabet\": {}, \"closed\": {}}}",
            plan.label,
            C::NAME,
            total,
            steps,
            depth,
            plan.alphabet.len(),
            closed
        ));
    }
    ctx.tally.lock().unwrap().add(tally);
    Ok(Explored { nodes: kept, closed })
}
pub fn explore<P: Prop, C: Cfg>(plan: &Plan, ctx: &Ctx) -> Result<(), Failure> {
    bfs::<P, C>(plan, ctx, false).map(|_| ())
}

/// Single-threaded exploration for jobs that combine several states; checks nothing but agreement with the model.
pub fn collect<C: Cfg>(plan: &Plan, t: &mut Tally) -> Result<Vec<(Tree<Key, Val, C>, Model, Vec<Op>)>, String> {
    let mut seen: HashSet<u128> = HashSet::new();
    let (t0, m0) = build::<Key, Val, C>(&plan.seed)?;
    seen.insert(fingerprint(&t0, &plan.dom));
    let mut all = vec![(t0, m0, plan.seed.clone())];
    let (mut lo, mut depth) = (0, 0);
    while lo < all.len() && depth < plan.depth {
        let hi = all.len();
        for i in lo..hi {
            for &o in &plan.alphabet {
                let (mut tr, mut m) = (all[i].0.clone(), all[i].1.clone());
                apply_checked::<C>(&mut tr, &mut m, o).map_err(|e| format!("{} | then {}: {}", show(&all[i].2), o, e))?;
                t.transitions += 1;
                if seen.insert(state_fp(&tr, &m, &plan.dom, (&all[i].0, &all[i].1))) {
                    let mut h = all[i].2.clone();
                    h.push(o);
                    all.push((tr, m, h));
                }
            }
        }
        lo = hi;
        depth += 1;
    }
    t.states += all.len() as u64;
    Ok(all)
}

/// Replays one history, first in place, then through a clone at every step, with the property's check at the end.
pub fn replay_state<P: Prop, C: Cfg>(hist: &[Op], op: Option<Op>, dom: &[u16], probes: &[u16]) -> Result<(), String> {
    let mut full = hist.to_vec();
    full.extend(op);
    let mut tally = Tally::default();
    let mut first: Option<u128> = None;
    for clones in [false, true] {
        let mut t: Tree<Key, Val, C> = PalmTree::new();
        let mut m = Model::default();
        for (i, &o) in full.iter().enumerate() {
            if clones {
                let c = t.clone();
                t = c;
            }
            apply_checked::<C>(&mut t, &mut m, o)?;
            // the state check runs where exploration ran it: on the state before the last operation, and after it
            if i + 1 >= hist.len() {
                guard(|| P::state::<C>(&St { t: &t, m: &m, hist: &full[..=i], dom, probes }, &mut tally))?;
            }
        }
        if full.is_empty() {
            guard(|| P::state::<C>(&St { t: &t, m: &m, hist: &full, dom, probes }, &mut tally))?;
        }
        let fp = fingerprint(&t, dom);
        if *first.get_or_insert(fp) != fp {
            return Err("a tree reached through clones differs in shape from the same history without clones".into());
        }
    }
    Ok(())
}

fn minimise<P: Prop>(f: &Failure) -> Failure {
    let mut best = f.clone();
    if best.job.is_some() {
        return best;
    }
    let t0 = Instant::now();
    let tryit = |hist: &[Op], op: Option<Op>| -> Option<String> {
        if t0.elapsed().as_secs() > 10 {
            return None;
        }
        begin(&Failure { hist: hist.to_vec(), op, msg: "found while minimising".into(), ..f.clone() }.to_text(P::ID, "?"));
        let r = P::replay(&f.cfg, hist, op, &f.dom, &f.probes).err();
        finish();
        r
    };
    match tryit(&best.hist, best.op) {
        None => return best,
        Some(e) => best.msg = e,
    }
    if let Some(o) = best.op.take() {
        best.hist.push(o)
    }
    let mut i = 0;
    while i < best.hist.len() {
        let mut h = best.hist.clone();
        h.remove(i);
        if let Some(e) = tryit(&h, None) {
            best.hist = h;
            best.msg = e;
        } else {
            i += 1
        }
    }
    best
}

// ---------------------------------------------------------------- command line

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `BIN run quick|thorough OUT.json FAIL.txt CRASH.txt` or `BIN replay FILE` or `BIN job NAME`.
pub fn main_for<P: Prop>() -> ! {
    let a: Vec<String> = std::env::args().collect();
    let checked = cfg!(debug_assertions);
    let profile = if checked { "checked" } else { "plain" };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
            arm(&a[5]);
            run_all::<P>(tier, checked, profile, &a[3], &a[4])
        }
        Some("job") => {
            arm("/dev/null");
            let t0 = Instant::now();
            let mut t = Tally::default();
            let r = guard(|| P::job(&a[2], &mut t));
            println!("{:?} in {:?}; states {} transitions {} evals {} {:?}", r, t0.elapsed(), t.states, t.transitions, t.evals, t.counters);
            r.is_err() as i32
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |w: &str| text.lines().find_map(|l| l.strip_prefix(w).and_then(|r| r.strip_prefix(' ').or(if r.is_empty() { Some("") } else { None })));
            arm(a.get(3).map(|s| s.as_str()).unwrap_or("/dev/null"));
            begin(&text);
            let r = if let Some(j) = get("job") {
                guard(|| P::job(j, &mut Tally::default()))
            } else {
                let hist = parse_ops(get("hist").unwrap_or(""));
                let op = get("op").and_then(Op::parse);
                P::replay(get("cfg").expect("cfg"), &hist, op, &unlist(get("dom").unwrap_or("")), &unlist(get("probes").unwrap_or("")))
            };
            match r {
                Ok(()) => {
                    println!("replay: property {} holds on this history ({})", P::ID, profile);
                    0
                }
                Err(e) => {
                    println!("replay: property {} is broken ({}): {}", P::ID, profile, e);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: run TIER OUT FAIL CRASH | replay FILE | job NAME");
            2
        }
    };
    std::process::exit(code)
}

fn run_all<P: Prop>(tier: Tier, checked: bool, profile: &str, out: &str, fail_file: &str) -> i32 {
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    let ctx = Ctx { shard: (0, 1), tier, checked, threads, header: format!("profile {}\n", profile), tally: Arc::default(), plans: Arc::default() };
    let plans = P::plans(tier, checked);
    let jobs = P::jobs(tier, checked);
    let mut failure: Option<Failure> = None;
    let verbose = std::env::var_os("MC_VERBOSE").is_some();
    for p in plans.iter().filter(|p| parallel(p, P::is_send(p.cfg))) {
        let t1 = Instant::now();
        if let Err(f) = P::run_plan(p, &ctx) {
            failure = Some(f);
            break;
        }
        if verbose {
            eprintln!("{:?} {}", t1.elapsed(), ctx.plans.lock().unwrap().last().unwrap());
        }
    }
    if failure.is_none() {
        enum Task<'a> {
            Plan(&'a Plan, usize, usize),
            Job(&'a str),
        }
        let mut seeded: Vec<&Plan> = plans.iter().filter(|p| !p.seed.is_empty()).collect();
        seeded.sort_by_key(|p| std::cmp::Reverse(p.dom.len()));
        let mut tasks: Vec<Task> = vec![];
        for p in plans.iter().filter(|p| p.seed.is_empty() && !P::is_send(p.cfg)) {
            tasks.extend((0..P::SHARDS).map(|i| Task::Plan(p, i, P::SHARDS)));
        }
        tasks.extend(jobs.iter().map(|j| Task::Job(j)));
        tasks.extend(seeded.into_iter().map(|p| Task::Plan(p, 0, 1)));
        let next = AtomicUsize::new(0);
        let fails: Mutex<BTreeMap<usize, Failure>> = Mutex::default();
        let done = AtomicUsize::new(0);
        let (fails, done, next, tasks) = (&fails, &done, &next, &tasks);
        let ctx = &ctx;
        let workers = threads.min(tasks.len());
        std::thread::scope(|s| {
            // What else is under way when something has failed may take for ever, if what failed is how long things take.
            s.spawn(move || {
                let mut since: Option<Instant> = None;
                while done.load(SeqCst) < workers {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    if since.is_none() && !fails.lock().unwrap().is_empty() {
                        since = Some(Instant::now());
                    }
                    if since.map_or(false, |t| t.elapsed().as_secs() >= 60) {
                        let f = fails.lock().unwrap();
                        let f = f.values().next().unwrap();
                        std::fs::write(fail_file, f.to_text(P::ID, profile)).expect("failure file");
                        std::process::exit(1);
                    }
                }
            });
            for _ in 0..workers {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= tasks.len() || !fails.lock().unwrap().is_empty() {
                        done.fetch_add(1, SeqCst);
                        break;
                    }
                    let t1 = Instant::now();
                    let r = match &tasks[i] {
                        Task::Plan(p, i, n) => P::run_plan(p, &Ctx { shard: (*i, *n), tier, checked, threads: 1, header: ctx.header.clone(), tally: ctx.tally.clone(), plans: ctx.plans.clone() }),
                        Task::Job(j) => {
                            begin(&format!("property {}\n{}job {}\n", P::ID, ctx.header, j));
                            let mut t = Tally::default();
                            let r = guard(|| P::job(j, &mut t));
                            ctx.tally.lock().unwrap().add(t);
                            finish();
                            r.map_err(|msg| Failure { cfg: String::new(), hist: vec![], op: None, job: Some(j.to_string()), dom: vec![], probes: vec![], msg })
                        }
                    };
                    if verbose {
                        eprintln!(
                            "{:?} {}",
                            t1.elapsed(),
                            match &tasks[i] {
                                Task::Plan(p, ..) => p.label.as_str(),
                                Task::Job(j) => j,
                            }
                        );
                    }
                    if let Err(f) = r {
                        fails.lock().unwrap().insert(i, f);
                    }
                })
                .expect("thread");
            }
        });
        failure = std::mem::take(&mut *fails.lock().unwrap()).into_values().next();
    }
    let failure = failure.map(|f| minimise::<P>(&f));
    if let Some(f) = &failure {
        std::fs::write(fail_file, f.to_text(P::ID, profile)).expect("failure file");
    }
    let t = std::mem::take(&mut *ctx.tally.lock().unwrap());
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for job in &jobs {
        *kinds.entry(job.split(' ').take(2).collect::<Vec<_>>().join(" ")).or_default() += 1;
    }
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"property\": {}, \"profile\": {}, \"wall_s\": {:.2}, \"states\": {}, \"transitions\": {}, \"evaluations\": {}, \"validated\": {}, \"outcomes\": {}, \"jobs\": {}, \"job_kinds\": {{{}}}, \"plans\": [{}], \"counters\": {{{}}}, \"samples\": [{}], \"failure\": {}}}",
        esc(P::ID),
        esc(profile),
        t0.elapsed().as_secs_f64(),
        t.states,
        t.transitions,
        t.evals,
        t.validated,
        t.outcomes.len(),
        jobs.len(),
        kinds.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        ctx.plans.lock().unwrap().join(", "),
        t.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        t.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        failure.as_ref().map(|f| esc(&f.msg)).unwrap_or("null".into())
    );
    std::fs::write(out, j).expect("stats file");
    failure.is_some() as i32
}
