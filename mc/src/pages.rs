//! Which nodes of a map an operation touches. While the arena is on, every heap block of this thread gets pages
//! of its own; before an operation all of them are made inaccessible, and each one it reaches for is counted and
//! opened again by the fault handler. The count is exact and depends on nothing but the operation.
use crate::engine::on_signal;
use std::cell::{Cell, UnsafeCell};
use std::mem::ManuallyDrop;
use std::sync::Once;

const PAGE: usize = 4096;
/// Reserved for each thread; only what is used takes memory.
const SPAN: usize = 512 << 20;
const KINDS: usize = 9;
const OPEN: usize = 1024;
pub struct Arena {
    base: Cell<usize>,
    used: Cell<usize>,
    on: Cell<bool>,
    shut: Cell<bool>,
    touched: Cell<u64>,
    /// The pages open at present, while all others are shut; none if that is more than are listed.
    open: UnsafeCell<[usize; OPEN]>,
    opened: Cell<usize>,
    /// For each number of pages, the blocks free.
    free: UnsafeCell<ManuallyDrop<[Vec<usize>; KINDS]>>,
}
thread_local! {
    static ARENA: Arena = const { Arena { base: Cell::new(0), used: Cell::new(0), on: Cell::new(false), shut: Cell::new(false), touched: Cell::new(0), open: UnsafeCell::new([0; OPEN]), opened: Cell::new(OPEN + 1), free: UnsafeCell::new(ManuallyDrop::new([const { Vec::new() }; KINDS])) } };
}
impl Arena {
    unsafe fn unlock(&self, at: usize, n: usize) -> bool {
        for i in 0..n {
            let k = self.opened.get().min(OPEN);
            if k < OPEN {
                (*self.open.get())[k] = at + i * PAGE
            }
            self.opened.set(k + 1);
        }
        libc::mprotect(at as *mut _, n * PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0
    }
    unsafe fn lock(&self) {
        if self.opened.get() > OPEN {
            libc::mprotect(self.base.get() as *mut _, self.used.get().max(PAGE), libc::PROT_NONE);
        } else {
            for at in &(&*self.open.get())[..self.opened.get()] {
                libc::mprotect(*at as *mut _, PAGE, libc::PROT_NONE);
            }
        }
        self.opened.set(0);
        self.shut.set(true);
    }
}
extern "C" fn on_fault(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let at = (*info).si_addr() as usize;
        let mine = ARENA.try_with(|a| {
            if a.shut.get() && a.base.get() <= at && at < a.base.get() + a.used.get() {
                a.touched.set(a.touched.get() + 1);
                a.unlock(at & !(PAGE - 1), 1)
            } else {
                false
            }
        });
        if mine != Ok(true) {
            on_signal(sig)
        }
    }
}
fn pages(size: usize) -> usize {
    size.div_ceil(PAGE).max(1)
}
/// A block with pages of its own, if that is asked for on this thread.
pub(crate) unsafe fn take(size: usize, align: usize) -> Option<*mut u8> {
    ARENA
        .try_with(|a| {
            let n = pages(size);
            if !a.on.get() || n >= KINDS || align > PAGE {
                return None;
            }
            a.on.set(false);
            let p = (&mut **a.free.get())[n].pop().unwrap_or_else(|| {
                let p = a.base.get() + a.used.get();
                a.used.set(a.used.get() + n * PAGE);
                p
            });
            a.on.set(true);
            if a.used.get() > SPAN {
                return None;
            }
            // what an operation takes for itself it may touch
            a.unlock(p, n);
            Some(p as *mut u8)
        })
        .ok()
        .flatten()
}
/// Whether the block was one of the arena's, and is free now.
pub(crate) unsafe fn give(p: *mut u8, size: usize) -> bool {
    ARENA
        .try_with(|a| {
            let at = p as usize;
            if a.base.get() == 0 || at < a.base.get() || at >= a.base.get() + SPAN {
                return false;
            }
            let on = a.on.replace(false);
            (&mut **a.free.get())[pages(size)].push(at);
            a.on.set(on);
            true
        })
        .unwrap_or(false)
}
/// Has `f` run with blocks on pages of their own.
pub fn apart<R>(f: impl FnOnce() -> R) -> R {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut s: libc::sigaction = std::mem::zeroed();
        s.sa_sigaction = on_fault as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        s.sa_flags = libc::SA_ONSTACK | libc::SA_SIGINFO;
        libc::sigaction(libc::SIGSEGV, &s, std::ptr::null_mut());
    });
    ARENA.with(|a| unsafe {
        if a.base.get() == 0 {
            let p = libc::mmap(std::ptr::null_mut(), SPAN + PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED, "no room for the arena");
            a.base.set(p as usize);
        }
        a.on.set(true)
    });
    let r = f();
    ARENA.with(|a| a.on.set(false));
    r
}
/// How many pages, out of those there are, `f` touches.
pub fn touched<R>(f: impl FnOnce() -> R) -> (R, u64) {
    ARENA.with(|a| unsafe {
        a.lock();
        a.touched.set(0);
    });
    let r = apart(f);
    (r, ARENA.with(|a| a.touched.get()))
}
/// How many blocks of the arena are in use.
pub fn blocks() -> u64 {
    ARENA.with(|a| {
        let free: usize = unsafe { (**a.free.get()).iter().enumerate().map(|(n, v)| n * v.len()).sum() };
        (a.used.get() / PAGE - free) as u64
    })
}
/// Opens everything, and starts afresh.
pub fn reopen() {
    ARENA.with(|a| {
        a.on.set(false);
        a.opened.set(OPEN + 1);
        if a.shut.replace(false) {
            unsafe { libc::mprotect(a.base.get() as *mut _, a.used.get().max(PAGE), libc::PROT_READ | libc::PROT_WRITE) };
        }
    })
}
