//! Tags every allocation made inside the library, to notice leaks and double frees. Freed memory is
//! poisoned and not used again before the run is over, so that its use has the same effect every time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::{Acquire, Relaxed, Release}};

pub struct Tagged;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static DOUBLE: AtomicU64 = AtomicU64::new(0);
pub static RUN: AtomicU64 = AtomicU64::new(0);
thread_local! { static IN_LIB: Cell<bool> = const { Cell::new(false) }; }

pub fn in_lib(on: bool) -> bool {
    IN_LIB.try_with(|c| c.replace(on)).unwrap_or(false)
}

const LIB: u64 = 0x11b_a110c_11b_a110c;
const OTHER: u64 = 0x0_7e57_a110c_7e57;
const FREED: u64 = 0xdead_dead_dead_dead;

// layout: [pad][run: u64][magic: u64][user data]
fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Tagged {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let Ok(big) = Layout::from_size_align(l.size() + h, h) else { return std::ptr::null_mut() };
        let p = System.alloc(big);
        if p.is_null() { return p; }
        let u = p.add(h);
        let lib = IN_LIB.try_with(|c| c.get()).unwrap_or(false);
        *(u as *mut u64).sub(1) = if lib { LIB } else { OTHER };
        *(u as *mut u64).sub(2) = RUN.load(Relaxed);
        if lib { LIVE.fetch_add(1, Relaxed); }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let m = (u as *mut u64).sub(1);
        match *m {
            LIB => { if *(u as *mut u64).sub(2) == RUN.load(Relaxed) { LIVE.fetch_sub(1, Relaxed); } }
            OTHER => {}
            _ => { DOUBLE.fetch_add(1, Relaxed); return; }
        }
        *m = FREED;
        if keep(u, &l) { return; }
        let h = head(&l);
        System.dealloc(u.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

// ---------------------------------------------------------------- freed memory
const MANY: usize = 16384;
const POISON: u8 = 0xd7;
struct Kept(std::cell::UnsafeCell<([(*mut u8, Layout); MANY], usize)>);
unsafe impl Sync for Kept {}
static KEPT: Kept = Kept(std::cell::UnsafeCell::new(([(std::ptr::null_mut(), Layout::new::<u8>()); MANY], 0)));
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
fn locked<T>(f: impl FnOnce(&mut ([(*mut u8, Layout); MANY], usize)) -> T) -> T {
    while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() { std::thread::yield_now(); }
    let r = f(unsafe { &mut *KEPT.0.get() });
    LOCK.store(false, Release);
    r
}
unsafe fn keep(u: *mut u8, l: &Layout) -> bool {
    if !ON.load(Relaxed) || l.size() > 4096 { return false; }
    locked(|k| {
        if k.1 == MANY { return false; }
        u.write_bytes(POISON, l.size());
        k.0[k.1] = (u, *l);
        k.1 += 1;
        true
    })
}
pub fn start() { ON.store(true, Relaxed); }
/// Gives back what was freed during the run. How many of these were written to since?
pub fn end() -> u64 {
    ON.store(false, Relaxed);
    locked(|k| {
        let mut bad = 0;
        for (u, l) in &k.0[..k.1] {
            unsafe {
                if std::slice::from_raw_parts(*u, l.size()).iter().any(|&b| b != POISON) || *(*u as *const u64).sub(1) != FREED { bad += 1; }
                let h = head(l);
                System.dealloc(u.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
            }
        }
        k.1 = 0;
        bad
    })
}
