//! A scheduler under which real threads run one at a time, and the enumeration of its schedules.
//!
//! A thread may lose control wherever it enters user code (comparing, cloning or destroying an element), asks
//! the allocator for memory or returns some, or stands between two operations. All schedules with a bounded
//! number of such preemptions are enumerated, depth first. In step mode, one preemption is placed at every
//! single machine instruction instead, using the processor's trap flag.
use crate::engine::*;
use crate::types::*;
use std::cell::{Cell, UnsafeCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Mutex, Once};

const CTRL: usize = 3;
const MAX_POINTS: usize = 1 << 16;
const IDS: usize = 1 << 13;

#[derive(Clone, Copy)]
struct Pt {
    /// The thread that was running, or 255.
    cur: u8,
    enabled: u8,
    chosen: u8,
}
pub type Body<'a> = &'a dyn Fn() -> Result<(), String>;
struct Core {
    bodies: [Option<Body<'static>>; 3],
    enabled: u8,
    prefix: Vec<u8>,
    trace: Vec<Pt>,
    /// Preempt this thread in the window after this call, at this instruction.
    target: Option<(u8, u32, u32)>,
    fired: bool,
    /// Where every instruction of the target thread is, by window, when the target is instruction 0.
    places: Vec<(u32, u32, usize)>,
    /// Memory only atomic instructions may write to, and its contents.
    shared: Vec<(usize, usize, Vec<u8>)>,
    atomics: u64,
    steps: u64,
    late: bool,
    err: Option<String>,
    balance: i64,
    calls: [u32; 3],
}
/// Who is alive.
pub struct Births {
    state: Vec<AtomicU8>,
    next: AtomicUsize,
    live: AtomicI64,
    err: Mutex<Option<String>>,
}
pub struct Sched {
    /// Per thread, the controller last: 1 go on, 2 end.
    turn: [AtomicI32; 4],
    core: UnsafeCell<Core>,
    pub births: Births,
    slot: usize,
    cpu: usize,
}
unsafe impl Sync for Sched {}

struct Me {
    sched: Cell<*const Sched>,
    id: Cell<u8>,
    /// Whether calls are preemption points at the moment.
    on: Cell<bool>,
    count: Cell<u32>,
    pending: Cell<bool>,
    stepping: Cell<bool>,
    steps: Cell<u32>,
    /// The instruction executed last.
    last: Cell<usize>,
}
thread_local! {
    static ME: Me = const { Me { sched: Cell::new(std::ptr::null()), id: Cell::new(0), on: Cell::new(false), count: Cell::new(0), pending: Cell::new(false), stepping: Cell::new(false), steps: Cell::new(0), last: Cell::new(0) } };
}
fn futex(a: &AtomicI32, op: libc::c_int, v: i32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const AtomicI32, op | libc::FUTEX_PRIVATE_FLAG, v, std::ptr::null::<libc::timespec>());
    }
}
#[cfg(target_arch = "x86_64")]
#[inline(always)]
fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn trap_flag(_: bool) {}

impl Sched {
    #[allow(clippy::mut_from_ref)]
    fn core(&self) -> &mut Core {
        unsafe { &mut *self.core.get() }
    }
    fn pass(&self, to: usize) {
        self.turn[to].store(1, SeqCst);
        futex(&self.turn[to], libc::FUTEX_WAKE, 1);
    }
    fn quit(&self) {
        for t in &self.turn[..CTRL] {
            t.store(2, SeqCst);
            futex(t, libc::FUTEX_WAKE, 1);
        }
    }
    /// Waits for this thread's turn; false: to end.
    fn wait(&self, id: usize) -> bool {
        loop {
            match self.turn[id].load(SeqCst) {
                0 => futex(&self.turn[id], libc::FUTEX_WAIT, 0),
                1 => {
                    self.turn[id].store(0, SeqCst);
                    return true;
                }
                _ => return false,
            }
        }
    }
    /// Decides who runs next; `cur` 255: nobody is running.
    fn decide(&self, cur: u8) -> u8 {
        let c = self.core();
        let n = c.trace.len();
        let running = cur != 255 && c.enabled & (1 << cur) != 0;
        let mut to = if running { cur } else { c.enabled.trailing_zeros() as u8 };
        if let Some(&p) = c.prefix.get(n) {
            if c.enabled & (1 << p) != 0 {
                to = p
            }
        }
        if n >= MAX_POINTS {
            c.late = true;
        } else if !c.late {
            c.trace.push(Pt { cur: if running { cur } else { 255 }, enabled: c.enabled, chosen: to });
        }
        to
    }
    fn worker(&self, id: u8) {
        adopt_slot(self.slot);
        pin(Some(self.cpu));
        ME.with(|m| {
            m.sched.set(self);
            m.id.set(id);
        });
        while self.wait(id as usize) {
            let body = self.core().bodies[id as usize].expect("body");
            let base = live_allocs();
            ME.with(|m| {
                m.count.set(0);
                m.pending.set(false);
            });
            let r = guard(|| {
                loud(|| {
                    at_point();
                    body()
                })
            });
            let c = self.core();
            match r {
                Ok(()) => c.balance += live_allocs() - base,
                Err(e) => {
                    if c.err.is_none() {
                        c.err = Some(format!("thread {}: {}", id, e))
                    }
                }
            }
            c.calls[id as usize] = ME.with(|m| m.count.get());
            c.enabled &= !(1 << id);
            if c.enabled == 0 {
                self.pass(CTRL);
            } else {
                let to = self.decide(255);
                self.pass(to as usize);
            }
        }
    }
    /// Runs the bodies to their ends under the current schedule.
    fn go(&self, bodies: &[Body]) -> Result<(), String> {
        let c = self.core();
        c.enabled = (1 << bodies.len()) - 1;
        for (i, b) in bodies.iter().enumerate() {
            // the bodies outlive the run, which ends before this function does
            c.bodies[i] = Some(unsafe { std::mem::transmute::<Body<'_>, Body<'static>>(*b) });
        }
        let first = self.decide(255);
        self.pass(first as usize);
        self.wait(CTRL);
        let c = self.core();
        c.bodies = [None; 3];
        if let Some(e) = c.err.take() {
            return Err(e);
        }
        if c.late {
            return Err("makes an unbounded number of calls".into());
        }
        Ok(())
    }
    /// Looks for writes to shared memory by the instruction at this place; 0: by anything.
    fn written(&self, at: usize) {
        let c = self.core();
        for (p, n, old) in &mut c.shared {
            let now = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
            if now != &old[..] {
                if at != 0 && (atomic(at) || unlocks(old, now)) {
                    c.atomics += 1;
                } else if c.err.is_none() {
                    let i = (0..*n).find(|i| now[*i] != old[*i]).unwrap_or(0);
                    c.err = Some(switch(false, || format!("writes, not atomically, to byte {} of a heap block of {} bytes that other threads may be using", i, n)));
                }
                old.copy_from_slice(now);
            }
        }
    }
    fn reset(&self) {
        let c = self.core();
        c.trace.clear();
        c.fired = false;
        c.late = false;
        c.err = None;
        c.balance = 0;
        c.calls = [0; 3];
        self.births.reset();
    }
    fn schedule(&self) -> String {
        let c = self.core();
        let mut s = String::new();
        if let Some((t, w, i)) = c.target {
            return format!("thread {} stopped {} instructions after its call number {} while the other runs to its end", t, i, w);
        }
        let mut from = 0;
        for i in 1..=c.trace.len() {
            if i == c.trace.len() || c.trace[i].chosen != c.trace[from].chosen {
                s += &format!("{}thread {} for {} points", if from == 0 { "" } else { ", " }, c.trace[from].chosen, i - from);
                from = i;
            }
        }
        s
    }
}
/// Whether all that changed is one word from its greatest value to one: how `Arc::get_mut`, having locked the
/// count of weak pointers by an atomic instruction, releases it.
fn unlocks(old: &[u8], now: &[u8]) -> bool {
    let mut changed = old.chunks(8).zip(now.chunks(8)).filter(|(a, b)| a != b);
    changed.next().map_or(false, |(a, b)| a == [0xFF; 8] && b == 1u64.to_ne_bytes()) && changed.next().is_none()
}
impl Births {
    fn reset(&self) {
        let n = self.next.swap(0, SeqCst).min(IDS);
        for s in &self.state[..n] {
            s.store(0, Relaxed);
        }
        self.live.store(0, SeqCst);
        *self.err.lock().unwrap() = None;
    }
    pub fn verdict(&self) -> Result<(), String> {
        if let Some(e) = self.err.lock().unwrap().take() {
            return Err(e);
        }
        match self.live.load(SeqCst) {
            0 => Ok(()),
            n => Err(format!("{} elements are left when everything is gone", n)),
        }
    }
    fn bad(&self, e: &str) {
        switch(false, || {
            let mut g = self.err.lock().unwrap();
            if g.is_none() {
                *g = Some(e.to_string())
            }
        })
    }
}
/// Ties this thread to one processor, or to all it had.
fn pin(cpu: Option<usize>) {
    unsafe {
        static INIT: Once = Once::new();
        static mut ALL: libc::cpu_set_t = unsafe { std::mem::zeroed() };
        let all = std::ptr::addr_of_mut!(ALL);
        INIT.call_once(|| {
            libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), all);
        });
        let mut set = *all;
        if let Some(c) = cpu {
            let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &*all)).collect();
            if !cpus.is_empty() {
                libc::CPU_ZERO(&mut set);
                libc::CPU_SET(cpus[c % cpus.len()], &mut set);
            }
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
/// Every call into user code or the allocator from a controlled thread.
#[inline(never)]
fn point() {
    ME.with(|m| {
        if !m.on.get() {
            return;
        }
        if m.stepping.get() {
            trap_flag(false);
            m.stepping.set(false);
        }
        m.on.set(false);
        let n = m.count.get();
        m.count.set(n + 1);
        let s = unsafe { &*m.sched.get() };
        let id = m.id.get();
        match s.core().target {
            Some((t, w, _)) => {
                if t == id && (w == n || w == u32::MAX) {
                    m.pending.set(true)
                }
            }
            None => {
                let to = s.decide(id);
                if to != id {
                    s.pass(to as usize);
                    s.wait(id as usize);
                }
            }
        }
        m.on.set(true);
    })
}
#[inline(always)]
fn resume() {
    ME.with(|m| {
        if m.pending.get() && m.on.get() {
            m.pending.set(false);
            m.steps.set(0);
            m.last.set(0);
            unsafe { &*m.sched.get() }.written(0);
            m.stepping.set(true);
            trap_flag(true);
        }
    })
}
/// A place where this thread may be preempted.
pub fn at_point() {
    point();
    resume();
}
fn heap(before: bool) {
    if before {
        point()
    } else {
        resume()
    }
}
/// Whether the instruction there has a lock prefix or is an exchange.
fn atomic(at: usize) -> bool {
    let mut p = at as *const u8;
    let mut locked = false;
    loop {
        match unsafe { *p } {
            0xF0 => locked = true,
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x40..=0x4F => {}
            op => return locked || op == 0x86 || op == 0x87,
        }
        p = unsafe { p.add(1) };
    }
}
#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    ME.with(|m| unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let at = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let flags = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if !m.stepping.get() {
            *flags &= !0x100;
            return;
        }
        m.steps.set(m.steps.get() + 1);
        let s = &*m.sched.get();
        let c = s.core();
        c.steps += 1;
        s.written(m.last.replace(at));
        if c.target.is_some_and(|t| t.1 == u32::MAX) && c.places.len() < MAX_POINTS {
            c.places.push((m.count.get() - 1, m.steps.get(), at));
        }
        if c.target.is_some_and(|t| t.2 == m.steps.get()) {
            *flags &= !0x100;
            m.stepping.set(false);
            c.fired = true;
            let other = c.enabled & !(1 << m.id.get());
            if other != 0 {
                let on = m.on.replace(false);
                s.pass(other.trailing_zeros() as usize);
                s.wait(m.id.get() as usize);
                m.on.set(on);
            }
        }
    })
}
/// Calls become preemption points while `f` runs, if this is a controlled thread.
fn loud<R>(f: impl FnOnce() -> R) -> R {
    switch(true, f)
}
/// No preemption while `f` runs.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let r = switch(false, f);
    if stepping() {
        at_point();
    }
    r
}
fn switch<R>(to: bool, f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            set(self.0);
        }
    }
    fn set(on: bool) {
        ME.with(|m| {
            if m.stepping.get() {
                trap_flag(false);
                m.stepping.set(false);
            }
            m.on.set(on);
        });
        heap_hook(if on { Some(heap) } else { None });
    }
    let _b = Back(ME.with(|m| m.on.get()));
    set(to);
    f()
}

/// Starts the workers, runs `f`, ends them.
pub fn with<R>(threads: usize, f: impl FnOnce(&Sched) -> R) -> R {
    static INIT: Once = Once::new();
    INIT.call_once(|| unsafe {
        #[cfg(target_arch = "x86_64")]
        {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_trap as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
            a.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        }
    });
    let core = Core { bodies: [None; 3], enabled: 0, prefix: vec![], trace: Vec::with_capacity(MAX_POINTS), target: None, fired: false, places: Vec::with_capacity(MAX_POINTS), shared: vec![], atomics: 0, steps: 0, late: false, err: None, balance: 0, calls: [0; 3] };
    let births = Births { state: (0..IDS).map(|_| AtomicU8::new(0)).collect(), next: AtomicUsize::new(0), live: AtomicI64::new(0), err: Mutex::new(None) };
    let slot = my_slot();
    let s = Sched { turn: Default::default(), core: UnsafeCell::new(core), births, slot, cpu: slot };
    pin(Some(slot));
    ME.with(|m| m.sched.set(&s));
    let r = std::thread::scope(|sc| {
        struct End<'a>(&'a Sched);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                self.0.quit()
            }
        }
        let _end = End(&s);
        for id in 0..threads {
            let s = &s;
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || s.worker(id as u8)).expect("thread");
        }
        f(&s)
    });
    ME.with(|m| m.sched.set(std::ptr::null()));
    pin(None);
    r
}
/// What a scenario runs its threads with.
pub type Go<'a> = &'a mut dyn FnMut(&[Body]) -> Result<(), String>;
#[derive(Default)]
pub struct Count {
    pub schedules: u64,
    pub points: u64,
    pub atomics: u64,
}
fn once(s: &Sched, run: &mut dyn FnMut(Go) -> Result<(), String>) -> Result<(), String> {
    tick();
    s.reset();
    let base = live_allocs();
    let r = guard(|| run(&mut |b| s.go(b)));
    let r = r.and_then(|()| s.births.verdict()).and_then(|()| match live_allocs() - base + s.core().balance {
        0 => Ok(()),
        n => Err(format!("{} heap blocks are left when everything is gone", n)),
    });
    r.map_err(|e| format!("{} [schedule: {}]", e, s.schedule()))
}
/// Every schedule of `run`'s threads with at most `bound` preemptions.
pub fn schedules(s: &Sched, bound: usize, c: &mut Count, run: &mut dyn FnMut(Go) -> Result<(), String>) -> Result<(), String> {
    s.core().prefix.clear();
    s.core().target = None;
    loop {
        once(s, run)?;
        c.schedules += 1;
        let t = &s.core().trace;
        c.points += t.len() as u64;
        // the last point with an alternative not yet taken
        let mut spent: usize = t.iter().filter(|p| p.cur != 255 && p.chosen != p.cur).count();
        let mut next = None;
        for i in (0..t.len()).rev() {
            let p = t[i];
            let preempting = p.cur != 255;
            if preempting && p.chosen != p.cur {
                spent -= 1;
            }
            // the order of choices: whoever was running, then the others from the lowest
            let order = |x: u8| if preempting && x == p.cur { 0 } else { x + 1 };
            let alt = (0..3u8).filter(|x| p.enabled & (1 << x) != 0 && order(*x) > order(p.chosen)).min_by_key(|x| order(*x));
            if let Some(a) = alt {
                if !preempting || spent < bound {
                    next = Some((i, a));
                    break;
                }
            }
        }
        match next {
            None => return Ok(()),
            Some((i, a)) => {
                let mut p: Vec<u8> = t[..i].iter().map(|p| p.chosen).collect();
                p.push(a);
                s.core().prefix = p;
            }
        }
    }
}
/// Thread `who` is stopped at each of its machine instructions in turn (the first `times` times it gets to
/// that instruction) while the other runs to its end.
pub fn stepwise(s: &Sched, who: u8, times: usize, c: &mut Count, run: &mut dyn FnMut(Go) -> Result<(), String>) -> Result<(), String> {
    s.core().prefix = vec![who];
    s.core().places.clear();
    s.core().target = Some((who, u32::MAX, 0));
    let mut r = once(s, run);
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let places = s.core().places.clone();
    for (w, i, at) in places {
        let n = seen.entry(at).or_insert(0);
        *n += 1;
        if *n > times || r.is_err() {
            continue;
        }
        s.core().target = Some((who, w, i));
        r = once(s, run);
        c.schedules += s.core().fired as u64;
        c.points += 1;
    }
    s.core().target = None;
    r
}
/// One thread runs alone, and after every one of its instructions the memory that `run` declares shared is compared.
pub fn watch(s: &Sched, c: &mut Count, run: &mut dyn FnMut(Go) -> Result<(), String>) -> Result<(), String> {
    s.core().prefix.clear();
    s.core().target = Some((0, u32::MAX, 0));
    s.core().places.clear();
    s.core().steps = 0;
    s.core().atomics = 0;
    let r = once(s, run);
    s.core().target = None;
    s.core().shared.clear();
    c.schedules += 1;
    c.points += s.core().steps;
    c.atomics += s.core().atomics;
    r
}
/// From now on only atomic instructions may write there.
pub fn declare_shared(b: &[(usize, usize)]) {
    ME.with(|m| {
        let c = unsafe { &*m.sched.get() }.core();
        c.shared = b.iter().map(|(p, n)| (*p, *n, unsafe { std::slice::from_raw_parts(*p as *const u8, *n) }.to_vec())).collect();
    })
}
/// Not any more.
pub fn release_shared() {
    declare_shared(&[])
}
/// Whether schedules place a preemption between instructions at the moment.
pub fn stepping() -> bool {
    ME.with(|m| !m.sched.get().is_null() && unsafe { (*m.sched.get()).core().target.is_some() })
}
/// Whether this machine can stop a thread at every instruction.
pub fn can_step() -> bool {
    let mut c = Count::default();
    with(2, |s| {
        let x = Cell::new(0u64);
        let x = &x;
        let a = || {
            at_point();
            for i in 0..50 {
                x.set(std::hint::black_box(i) + x.get());
            }
            at_point();
            Ok(())
        };
        stepwise(s, 0, usize::MAX, &mut c, &mut |go| go(&[&a, &a])).is_ok() && c.schedules > 100
    })
}

// ---------------------------------------------------------------- elements

const MAGIC: u32 = 0x3B9D_0F57;
fn births<R>(f: impl FnOnce(&Births) -> R) -> Option<R> {
    ME.with(|m| {
        let s = m.sched.get();
        if s.is_null() {
            None
        } else {
            Some(f(unsafe { &(*s).births }))
        }
    })
}
/// The threads of a free run share its ledger.
pub fn join(s: &Sched) {
    pin(None);
    ME.with(|m| m.sched.set(s))
}
fn born() -> u32 {
    births(|b| {
        let id = b.next.fetch_add(1, Relaxed);
        b.live.fetch_add(1, Relaxed);
        if id < IDS {
            b.state[id].store(1, Relaxed);
        }
        id.min(u32::MAX as usize) as u32
    })
    .expect("a scheduler")
}
fn check(id: u32, magic: u32, kind: u32, what: &str) -> bool {
    births(|b| {
        if magic != MAGIC ^ id ^ kind {
            b.bad(&format!("{} of something that is not an element (stray memory)", what));
            false
        } else if (id as usize) < IDS && b.state[id as usize].load(Relaxed) != 1 {
            b.bad(&format!("{} of an element already destroyed", what));
            false
        } else {
            true
        }
    })
    .unwrap_or(true)
}
fn died(id: u32, magic: u32, kind: u32) {
    if check(id, magic, kind, "destruction") {
        births(|b| {
            if (id as usize) < IDS {
                b.state[id as usize].store(2, Relaxed);
            }
            b.live.fetch_sub(1, Relaxed);
        });
    }
}
pub struct SKey {
    k: u16,
    tag: u32,
    id: u32,
    magic: u32,
}
impl KT for SKey {
    fn mk(k: u16, tag: u32) -> Self {
        let id = born();
        SKey { k, tag, id, magic: MAGIC ^ id ^ 1 }
    }
    fn k(&self) -> u16 {
        check(self.id, self.magic, 1, "use");
        self.k
    }
    fn tag(&self) -> Option<u32> {
        check(self.id, self.magic, 1, "use");
        Some(self.tag)
    }
}
impl Clone for SKey {
    fn clone(&self) -> Self {
        at_point();
        check(self.id, self.magic, 1, "cloning");
        SKey::mk(self.k, self.tag)
    }
}
impl Drop for SKey {
    fn drop(&mut self) {
        at_point();
        died(self.id, self.magic, 1);
        self.magic = 0;
    }
}
impl PartialEq for SKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for SKey {}
impl PartialOrd for SKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SKey {
    fn cmp(&self, o: &Self) -> Ordering {
        at_point();
        check(self.id, self.magic, 1, "comparison");
        check(o.id, o.magic, 1, "comparison");
        self.k.cmp(&o.k)
    }
}
pub struct SVal {
    v: u32,
    id: u32,
    magic: u32,
}
impl VT for SVal {
    fn mk(v: u32) -> Self {
        let id = born();
        SVal { v, id, magic: MAGIC ^ id ^ 2 }
    }
    fn v(&self) -> u32 {
        check(self.id, self.magic, 2, "use");
        self.v
    }
    fn set(&mut self, v: u32) {
        check(self.id, self.magic, 2, "use");
        self.v = v
    }
}
impl Clone for SVal {
    fn clone(&self) -> Self {
        at_point();
        check(self.id, self.magic, 2, "cloning");
        SVal::mk(self.v)
    }
}
impl Drop for SVal {
    fn drop(&mut self) {
        at_point();
        died(self.id, self.magic, 2);
        self.magic = 0;
    }
}
impl PartialEq for SVal {
    fn eq(&self, o: &Self) -> bool {
        self.v() == o.v()
    }
}
