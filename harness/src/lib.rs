//! Thin, oracle-free adapter between the simulator (JavaScript) and wasmtimer's public API.
//! Every export performs exactly one API call and reports what it observed.
//! Instants cross the boundary as nanoseconds relative to the instant of `init`.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

mod record;

use futures::Stream;
use wasm_bindgen::prelude::*;
use wasmtimer::std::{Instant, SystemTime};
use wasmtimer::tokio as t;
use wasmtimer::tokio_util::delay_queue::Key;
use wasmtimer::tokio_util::DelayQueue;

#[wasm_bindgen]
extern "C" {
    #[wasm_bindgen(js_name = "__sim_wake")]
    fn sim_wake(id: u32);
    #[wasm_bindgen(js_name = "__sim_waker_gone")]
    fn sim_waker_gone(id: u32);
    #[wasm_bindgen(js_name = "__sim_panic")]
    fn sim_panic(msg: &str);
}

// ---------------------------------------------------------------- allocation accounting
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_N: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            LIVE_N.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        LIVE_N.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[no_mangle]
pub extern "C" fn live_bytes() -> f64 {
    LIVE.load(Relaxed) as f64
}
#[no_mangle]
pub extern "C" fn live_allocs() -> f64 {
    LIVE_N.load(Relaxed) as f64
}

// ---------------------------------------------------------------- wakers
struct W {
    id: u32,
    silent: bool,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        sim_wake(self.id)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        sim_wake(self.id)
    }
}
impl Drop for W {
    fn drop(&mut self) {
        if !self.silent {
            sim_waker_gone(self.id)
        }
    }
}

// ---------------------------------------------------------------- inner futures for timeout
#[derive(Default)]
struct Man {
    ready: Option<u32>,
    done: bool,
    waker: Option<Waker>,
    polls: u32,
    polls_after_done: u32,
    drops: u32,
}
struct Manual(usize);
impl Future for Manual {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i64> {
        // the previous waker is dropped last: it might act
        let mut old = None;
        MAN.with(|m| {
            let mut m = m.borrow_mut();
            let s = &mut m[self.0];
            s.polls += 1;
            if s.done {
                s.polls_after_done += 1;
            }
            match s.ready {
                Some(v) => {
                    s.done = true;
                    Poll::Ready(v as i64)
                }
                None => {
                    old = s.waker.replace(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}
impl Drop for Manual {
    fn drop(&mut self) {
        let w = MAN.with(|m| {
            let mut m = m.borrow_mut();
            m[self.0].drops += 1;
            m[self.0].waker.take()
        });
        drop(w)
    }
}
enum Inner {
    Manual(Manual),
    Sleep(t::Sleep),
    Nested(Box<t::Timeout<Inner>>),
}
const SLEPT: i64 = 1 << 40;
const NESTED_ERR: i64 = 1 << 41;
impl Future for Inner {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i64> {
        match self.get_mut() {
            Inner::Manual(m) => Pin::new(m).poll(cx),
            Inner::Sleep(s) => Pin::new(s).poll(cx).map(|_| SLEPT),
            Inner::Nested(n) => Pin::new(n).poll(cx).map(|r| match r {
                Ok(v) => v,
                Err(_) => NESTED_ERR,
            }),
        }
    }
}

// ---------------------------------------------------------------- delay queue payload
#[derive(Debug)]
struct Val(u32);
impl Drop for Val {
    fn drop(&mut self) {
        VAL.with(|v| v.borrow_mut()[self.0 as usize].drops += 1)
    }
}
struct ValInfo {
    key: Option<Key>,
    drops: u32,
}

enum Obj {
    Sleep(t::Sleep),
    Interval(t::Interval),
    Timeout(t::Timeout<Inner>),
    Queue(Box<DelayQueue<Val>>),
}

thread_local! {
    static OBJ: RefCell<Vec<Option<Obj>>> = const { RefCell::new(Vec::new()) };
    static MAN: RefCell<Vec<Man>> = const { RefCell::new(Vec::new()) };
    static VAL: RefCell<Vec<ValInfo>> = const { RefCell::new(Vec::new()) };
    static WAKERS: RefCell<Vec<Option<Arc<W>>>> = const { RefCell::new(Vec::new()) };
    static INST: RefCell<Vec<Instant>> = const { RefCell::new(Vec::new()) };
    static SYS: RefCell<Vec<SystemTime>> = const { RefCell::new(Vec::new()) };
}
static mut BASE: Option<Instant> = None;
static mut OUT: [i64; 4] = [0; 4];
static mut BUF: [u8; 256] = [0; 256];

fn base() -> Instant {
    unsafe { BASE.unwrap() }
}
fn to_ns(i: Instant) -> i64 {
    match i.checked_duration_since(base()) {
        Some(d) => d.as_nanos() as i64,
        None => -(base().checked_duration_since(i).unwrap().as_nanos() as i64),
    }
}
fn from_ns(off: i64) -> Instant {
    if off >= 0 {
        base() + Duration::from_nanos(off as u64)
    } else {
        base() - Duration::from_nanos(off.unsigned_abs())
    }
}
fn dur(ns: i64) -> Duration {
    Duration::from_nanos(ns as u64)
}
fn put(o: Obj) -> u32 {
    OBJ.with(|t| {
        let mut t = t.borrow_mut();
        t.push(Some(o));
        t.len() as u32 - 1
    })
}
fn take(id: u32) -> Option<Obj> {
    OBJ.with(|t| t.borrow_mut()[id as usize].take())
}
fn back(id: u32, o: Obj) {
    OBJ.with(|t| t.borrow_mut()[id as usize] = Some(o))
}
fn waker(id: u32) -> Waker {
    let a = WAKERS.with(|w| {
        let mut w = w.borrow_mut();
        while w.len() <= id as usize {
            w.push(None);
        }
        if w[id as usize].is_none() {
            w[id as usize] = Some(Arc::new(W { id, silent: false }));
        }
        w[id as usize].clone().unwrap()
    });
    Waker::from(a)
}
/// Sentinel: the object is in use by an outer call (re-entrant use) or gone.
const BUSY: i64 = i64::MIN + 7;
const PENDING: i64 = i64::MIN;

macro_rules! with {
    ($id:expr, $variant:ident, $x:ident, $e:expr) => {{
        match take($id) {
            Some(Obj::$variant(mut $x)) => {
                let r = $e;
                back($id, Obj::$variant($x));
                r
            }
            Some(o) => {
                back($id, o);
                return BUSY;
            }
            None => return BUSY,
        }
    }};
}

/// Is the object in use by a call further out?
#[no_mangle]
pub extern "C" fn obj_busy(id: u32) -> u32 {
    OBJ.with(|t| t.borrow()[id as usize].is_none()) as u32
}
/// The length of what the object shows for debugging, in both forms.
#[no_mangle]
pub extern "C" fn obj_debug(id: u32) -> u32 {
    let Some(o) = take(id) else { return 0 };
    let n = match &o {
        Obj::Sleep(s) => format!("{s:?}{s:#?}").len(),
        Obj::Interval(i) => format!("{i:?}{i:#?}").len(),
        Obj::Queue(q) => format!("{q:?}{q:#?}").len(),
        Obj::Timeout(_) => 0,
    };
    back(id, o);
    n as u32
}

// ---------------------------------------------------------------- lifecycle
#[no_mangle]
pub extern "C" fn init() {
    std::panic::set_hook(Box::new(|i| sim_panic(&i.to_string())));
    unsafe { BASE = Some(Instant::now()) };
}
#[no_mangle]
pub extern "C" fn has_testutil() -> i32 {
    cfg!(feature = "testutil") as i32
}
#[no_mangle]
pub extern "C" fn has_debug() -> i32 {
    cfg!(debug_assertions) as i32
}
/// Pre-sizes the adapter's own tables so that they do not show up in `live_bytes`.
#[no_mangle]
pub extern "C" fn reserve_tables(n: u32) {
    let n = n as usize;
    OBJ.with(|t| t.borrow_mut().reserve(n));
    MAN.with(|t| t.borrow_mut().reserve(n));
    VAL.with(|t| t.borrow_mut().reserve(n));
    WAKERS.with(|t| t.borrow_mut().reserve(n));
}
#[no_mangle]
pub extern "C" fn out(i: u32) -> i64 {
    unsafe { OUT[i as usize] }
}
/// Drops whatever object lives at `id`.
#[no_mangle]
pub extern "C" fn obj_drop(id: u32) -> i64 {
    match take(id) {
        Some(o) => {
            drop(o);
            0
        }
        None => BUSY,
    }
}
/// Number of clones of the waker held outside the adapter.
#[no_mangle]
pub extern "C" fn waker_refs(id: u32) -> i32 {
    WAKERS.with(|w| match w.borrow().get(id as usize) {
        Some(Some(a)) => Arc::strong_count(a) as i32 - 1,
        _ => -1,
    })
}
/// Gives up the adapter's own reference, so the library may hold the last one.
#[no_mangle]
pub extern "C" fn waker_release(id: u32) {
    let a = WAKERS.with(|w| w.borrow_mut().get_mut(id as usize).and_then(|x| x.take()));
    drop(a)
}
#[no_mangle]
pub extern "C" fn wake_now(id: u32) {
    waker(id).wake()
}

// ---------------------------------------------------------------- clock
#[no_mangle]
pub extern "C" fn now_ns() -> i64 {
    to_ns(Instant::now())
}
#[no_mangle]
pub extern "C" fn inst_take() -> u32 {
    let n = Instant::now();
    INST.with(|v| {
        v.borrow_mut().push(n);
        v.borrow().len() as u32 - 1
    })
}
#[no_mangle]
pub extern "C" fn inst_ns(a: u32) -> i64 {
    INST.with(|v| to_ns(v.borrow()[a as usize]))
}
#[no_mangle]
pub extern "C" fn inst_elapsed(a: u32) -> i64 {
    INST.with(|v| v.borrow()[a as usize].elapsed().as_nanos() as i64)
}
/// kind 0 duration_since, 1 operator, 2 saturating, 3 checked (None => -1), 4 ordering
#[no_mangle]
pub extern "C" fn inst_diff(a: u32, b: u32, kind: u32) -> i64 {
    INST.with(|v| {
        let v = v.borrow();
        let (a, b) = (v[a as usize], v[b as usize]);
        match kind {
            0 => a.duration_since(b).as_nanos() as i64,
            1 => (a - b).as_nanos() as i64,
            2 => a.saturating_duration_since(b).as_nanos() as i64,
            3 => a.checked_duration_since(b).map(|d| d.as_nanos() as i64).unwrap_or(-1),
            _ => match a.partial_cmp(&b).unwrap() {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => (a == b) as i64 - 1,
                std::cmp::Ordering::Greater => 1,
            },
        }
    })
}
/// Raw value of the reading against the origin of the host clock.
#[no_mangle]
pub extern "C" fn inst_shift(a: u32, ns: i64, kind: u32) -> i64 {
    INST.with(|v| {
        let mut i = v.borrow()[a as usize];
        match kind {
            0 => i += dur(ns),
            1 => i -= dur(ns),
            2 => i = i.checked_add(dur(ns)).unwrap(),
            3 => match i.checked_sub(dur(ns)) {
                Some(x) => i = x,
                None => return PENDING,
            },
            // against the largest Duration: `ns` less than it is added
            5 => match i.checked_add(Duration::MAX - dur(ns)) {
                Some(x) => i = x - (Duration::MAX - dur(ns)),
                None => return PENDING,
            },
            6 => match i.checked_sub(Duration::MAX - dur(ns)) {
                Some(x) => i = x,
                None => return PENDING,
            },
            _ => i = i + dur(ns),
        }
        to_ns(i)
    })
}

#[cfg(feature = "testutil")]
mod testutil {
    use super::*;
    #[no_mangle]
    pub extern "C" fn tu_pause() {
        t::pause()
    }
    #[no_mangle]
    pub extern "C" fn tu_resume() {
        t::resume()
    }
    /// further than an `Instant` can reach
    #[no_mangle]
    pub extern "C" fn tu_advance_beyond(less: i64) {
        let mut f = Box::pin(t::advance(Duration::MAX - dur(less)));
        let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
    }
    /// 0 when `advance` completed within one poll
    #[no_mangle]
    pub extern "C" fn tu_advance(ns: i64) -> i32 {
        let mut f = Box::pin(t::advance(dur(ns)));
        let w = Waker::noop();
        for i in 0..100 {
            if f.as_mut().poll(&mut Context::from_waker(w)).is_ready() {
                return i;
            }
        }
        -1
    }
}

// ---------------------------------------------------------------- sleep
#[no_mangle]
pub extern "C" fn sleep_new(ns: i64) -> u32 {
    let s = t::sleep(dur(ns));
    put(Obj::Sleep(s))
}
#[no_mangle]
pub extern "C" fn sleep_until(off: i64) -> u32 {
    let s = t::sleep_until(from_ns(off));
    put(Obj::Sleep(s))
}
#[no_mangle]
pub extern "C" fn sleep_poll(id: u32, w: u32) -> i64 {
    let wk = waker(w);
    with!(id, Sleep, s, {
        match Pin::new(&mut s).poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(()) => 1,
            Poll::Pending => 0,
        }
    })
}
#[no_mangle]
pub extern "C" fn sleep_is_elapsed(id: u32) -> i64 {
    OBJ.with(|t| match t.borrow()[id as usize] {
        Some(Obj::Sleep(ref s)) => s.is_elapsed() as i64,
        _ => BUSY,
    })
}
#[no_mangle]
pub extern "C" fn sleep_deadline(id: u32) -> i64 {
    OBJ.with(|t| match t.borrow()[id as usize] {
        Some(Obj::Sleep(ref s)) => to_ns(s.deadline()),
        _ => BUSY,
    })
}
#[no_mangle]
pub extern "C" fn sleep_reset(id: u32, off: i64) -> i64 {
    with!(id, Sleep, s, {
        Pin::new(&mut s).reset(from_ns(off));
        0
    })
}

// ---------------------------------------------------------------- interval
#[no_mangle]
pub extern "C" fn interval_new(period: i64) -> u32 {
    put(Obj::Interval(t::interval(dur(period))))
}
#[no_mangle]
pub extern "C" fn interval_at(off: i64, period: i64) -> u32 {
    put(Obj::Interval(t::interval_at(from_ns(off), dur(period))))
}
#[no_mangle]
pub extern "C" fn interval_poll(id: u32, w: u32) -> i64 {
    let wk = waker(w);
    with!(id, Interval, s, {
        match s.poll_tick(&mut Context::from_waker(&wk)) {
            Poll::Ready(i) => to_ns(i),
            Poll::Pending => PENDING,
        }
    })
}
/// Creates a `tick()` future, polls it `polls` times, and drops it.
#[no_mangle]
pub extern "C" fn interval_tick(id: u32, w: u32, polls: u32) -> i64 {
    let wk = waker(w);
    with!(id, Interval, s, {
        let mut r = PENDING;
        {
            let mut f = Box::pin(s.tick());
            for _ in 0..polls {
                if let Poll::Ready(i) = f.as_mut().poll(&mut Context::from_waker(&wk)) {
                    r = to_ns(i);
                    break;
                }
            }
        }
        r
    })
}
#[no_mangle]
pub extern "C" fn interval_reset(id: u32) -> i64 {
    with!(id, Interval, s, {
        s.reset();
        0
    })
}
#[no_mangle]
pub extern "C" fn interval_set(id: u32, b: u32) -> i64 {
    with!(id, Interval, s, {
        s.set_missed_tick_behavior(match b {
            0 => t::MissedTickBehavior::Burst,
            1 => t::MissedTickBehavior::Delay,
            _ => t::MissedTickBehavior::Skip,
        });
        0
    })
}
#[no_mangle]
pub extern "C" fn interval_get(id: u32) -> i64 {
    with!(id, Interval, s, {
        let _ = &mut s;
        match s.missed_tick_behavior() {
            t::MissedTickBehavior::Burst => 0,
            t::MissedTickBehavior::Delay => 1,
            t::MissedTickBehavior::Skip => 2,
        }
    })
}
#[no_mangle]
pub extern "C" fn interval_period(id: u32) -> i64 {
    with!(id, Interval, s, {
        let _ = &mut s;
        s.period().as_nanos() as i64
    })
}

// ---------------------------------------------------------------- timeout
#[no_mangle]
pub extern "C" fn manual_new() -> u32 {
    MAN.with(|m| {
        m.borrow_mut().push(Man::default());
        m.borrow().len() as u32 - 1
    })
}
#[no_mangle]
pub extern "C" fn manual_complete(id: u32, v: u32) {
    let w = MAN.with(|m| {
        let mut m = m.borrow_mut();
        m[id as usize].ready = Some(v);
        m[id as usize].waker.take()
    });
    if let Some(w) = w {
        w.wake()
    }
}
/// kind 0 polls, 1 polls after completion, 2 drops
#[no_mangle]
pub extern "C" fn manual_stat(id: u32, kind: u32) -> i32 {
    MAN.with(|m| {
        let m = m.borrow();
        let s = &m[id as usize];
        (match kind {
            0 => s.polls,
            1 => s.polls_after_done,
            _ => s.drops,
        }) as i32
    })
}
fn mk_inner(kind: u32, a: i64) -> Option<Inner> {
    Some(match kind {
        0 => Inner::Manual(Manual(a as usize)),
        1 => Inner::Sleep(t::sleep(dur(a))),
        _ => match take(a as u32) {
            Some(Obj::Timeout(x)) => Inner::Nested(Box::new(x)),
            Some(o) => {
                back(a as u32, o);
                return None;
            }
            None => return None,
        },
    })
}
/// kind 0 manual future `a`, 1 sleep of `a` ns, 2 the timeout object `a`
#[no_mangle]
pub extern "C" fn timeout_new(ns: i64, kind: u32, a: i64) -> u32 {
    match mk_inner(kind, a) {
        Some(i) => put(Obj::Timeout(t::timeout(dur(ns), i))),
        None => u32::MAX,
    }
}
#[no_mangle]
pub extern "C" fn timeout_at(off: i64, kind: u32, a: i64) -> u32 {
    match mk_inner(kind, a) {
        Some(i) => put(Obj::Timeout(t::timeout_at(from_ns(off), i))),
        None => u32::MAX,
    }
}
/// PENDING, -1 for Elapsed, else the value
#[no_mangle]
pub extern "C" fn timeout_poll(id: u32, w: u32) -> i64 {
    let wk = waker(w);
    with!(id, Timeout, s, {
        match Pin::new(&mut s).poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(Ok(v)) => v,
            Poll::Ready(Err(e)) => {
                let io: std::io::Error = e.into();
                if io.kind() == std::io::ErrorKind::TimedOut {
                    -1
                } else {
                    -2
                }
            }
            Poll::Pending => PENDING,
        }
    })
}
/// Identity of the inner manual future seen through get_ref / get_mut (-1 otherwise).
#[no_mangle]
pub extern "C" fn timeout_inner(id: u32, how: u32) -> i64 {
    with!(id, Timeout, s, {
        let r: &Inner = if how == 0 { s.get_ref() } else { s.get_mut() };
        match r {
            Inner::Manual(m) => m.0 as i64,
            _ => -1,
        }
    })
}
/// Consumes the timeout; returns the inner future's poll result, then drops it.
#[no_mangle]
pub extern "C" fn timeout_into_inner(id: u32, w: u32, poll: u32) -> i64 {
    let wk = waker(w);
    match take(id) {
        Some(Obj::Timeout(x)) => {
            let mut inner = x.into_inner();
            if poll == 0 {
                return PENDING;
            }
            match Pin::new(&mut inner).poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(v) => v,
                Poll::Pending => PENDING,
            }
        }
        Some(o) => {
            back(id, o);
            BUSY
        }
        None => BUSY,
    }
}

// ---------------------------------------------------------------- delay queue
fn val_new() -> u32 {
    VAL.with(|v| {
        v.borrow_mut().push(ValInfo { key: None, drops: 0 });
        v.borrow().len() as u32 - 1
    })
}
fn val_key(v: u32) -> Option<Key> {
    VAL.with(|t| t.borrow()[v as usize].key)
}
#[no_mangle]
pub extern "C" fn val_drops(v: u32) -> i32 {
    VAL.with(|t| t.borrow()[v as usize].drops as i32)
}
#[no_mangle]
pub extern "C" fn key_eq(a: u32, b: u32) -> i32 {
    (val_key(a) == val_key(b)) as i32
}
#[no_mangle]
pub extern "C" fn dq_new(cap: u32) -> u32 {
    put(Obj::Queue(Box::new(match cap {
        0 => DelayQueue::new(),
        1 => DelayQueue::default(),
        n => DelayQueue::with_capacity(n as usize),
    })))
}
/// how 0: insert(value, duration ns); 1: insert_at(value, instant ns). Returns the value's id.
#[no_mangle]
pub extern "C" fn dq_insert(q: u32, how: u32, ns: i64) -> i64 {
    let v = val_new();
    with!(q, Queue, x, {
        let k = if how == 0 {
            x.insert(Val(v), dur(ns))
        } else {
            x.insert_at(Val(v), from_ns(ns))
        };
        VAL.with(|t| t.borrow_mut()[v as usize].key = Some(k));
        v as i64
    })
}
fn report(e: wasmtimer::tokio_util::delay_queue::Expired<Val>) -> i64 {
    let mut e = e;
    let v = e.get_ref().0;
    let same = e.get_mut().0 == v;
    unsafe {
        OUT[0] = to_ns(e.deadline());
        OUT[1] = (Some(e.key()) == val_key(v)) as i64;
        OUT[2] = same as i64;
    }
    let x = e.into_inner();
    let r = x.0 as i64;
    drop(x);
    r
}
/// PENDING, -1 for None, else the value id; out(0) deadline, out(1) key matches.
#[no_mangle]
pub extern "C" fn dq_poll(q: u32, w: u32, how: u32) -> i64 {
    let wk = waker(w);
    let r = with!(q, Queue, x, {
        let mut cx = Context::from_waker(&wk);
        if how == 0 {
            x.poll_expired(&mut cx)
        } else {
            Pin::new(&mut *x).poll_next(&mut cx)
        }
    });
    match r {
        Poll::Pending => PENDING,
        Poll::Ready(None) => -1,
        Poll::Ready(Some(e)) => report(e),
    }
}
#[no_mangle]
pub extern "C" fn dq_remove(q: u32, v: u32) -> i64 {
    let k = val_key(v).unwrap();
    let e = with!(q, Queue, x, x.remove(&k));
    report(e)
}
/// -1 when try_remove returned None
#[no_mangle]
pub extern "C" fn dq_try_remove(q: u32, v: u32) -> i64 {
    let k = val_key(v).unwrap();
    match with!(q, Queue, x, x.try_remove(&k)) {
        Some(e) => report(e),
        None => -1,
    }
}
#[no_mangle]
pub extern "C" fn dq_reset(q: u32, v: u32, how: u32, ns: i64) -> i64 {
    let k = val_key(v).unwrap();
    with!(q, Queue, x, {
        if how == 0 {
            x.reset(&k, dur(ns))
        } else {
            x.reset_at(&k, from_ns(ns))
        }
        0
    })
}
#[no_mangle]
pub extern "C" fn dq_len(q: u32) -> i64 {
    with!(q, Queue, x, {
        let _ = &mut x;
        let n = x.len() as i64;
        if x.is_empty() != (n == 0) || x.capacity() < n as usize {
            -5
        } else {
            n
        }
    })
}
/// 0 clear, 1 compact, 2 shrink_to_fit, 3.. reserve(n-3)
#[no_mangle]
pub extern "C" fn dq_admin(q: u32, what: u32) -> i64 {
    with!(q, Queue, x, {
        match what {
            0 => x.clear(),
            1 => x.compact(),
            2 => x.shrink_to_fit(),
            n => x.reserve(n as usize - 3),
        }
        0
    })
}

// ---------------------------------------------------------------- system time
#[no_mangle]
pub extern "C" fn sys_now() -> u32 {
    let n = SystemTime::now();
    sys_push(n)
}
fn sys_push(n: SystemTime) -> u32 {
    SYS.with(|v| {
        v.borrow_mut().push(n);
        v.borrow().len() as u32 - 1
    })
}
fn sys(a: u32) -> SystemTime {
    SYS.with(|v| v.borrow()[a as usize])
}
fn res(r: Result<Duration, wasmtimer::std::SystemTimeError>) -> i64 {
    match r {
        Ok(d) => {
            unsafe { OUT[0] = d.as_nanos() as i64 };
            1
        }
        Err(e) => {
            unsafe { OUT[0] = e.duration().as_nanos() as i64 };
            0
        }
    }
}
/// 1 Ok / 0 Err; out(0) duration in ns
#[no_mangle]
pub extern "C" fn sys_since(a: u32, b: u32) -> i64 {
    res(sys(a).duration_since(sys(b)))
}
#[no_mangle]
pub extern "C" fn sys_elapsed(a: u32) -> i64 {
    res(sys(a).elapsed())
}
#[no_mangle]
pub extern "C" fn sys_epoch(a: u32) -> i64 {
    res(sys(a).duration_since(SystemTime::UNIX_EPOCH))
}
#[no_mangle]
pub extern "C" fn sys_cmp(a: u32, b: u32) -> i64 {
    let (a, b) = (sys(a), sys(b));
    match a.cmp(&b) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => (a == b) as i64 - 1,
        std::cmp::Ordering::Greater => 1,
    }
}
#[no_mangle]
pub extern "C" fn sys_shift(a: u32, ns: i64, kind: u32) -> u32 {
    let mut x = sys(a);
    let d = dur(ns);
    match kind {
        0 => x += d,
        1 => x -= d,
        2 => x = x.checked_add(d).unwrap(),
        3 => x = x.checked_sub(d).unwrap(),
        4 => x = x + d,
        _ => x = x - d,
    }
    sys_push(x)
}
/// Writes JSON into the shared buffer; returns its length, or -1 if serialisation failed.
#[no_mangle]
pub extern "C" fn sys_save(a: u32) -> i32 {
    match serde_json::to_string(&sys(a)) {
        Ok(s) => {
            let b = s.as_bytes();
            unsafe { BUF[..b.len()].copy_from_slice(b) };
            b.len() as i32
        }
        Err(_) => -1,
    }
}
#[no_mangle]
pub extern "C" fn buf_ptr() -> *const u8 {
    unsafe { BUF.as_ptr() }
}
/// Reads JSON back from the shared buffer; u32::MAX on error.
#[no_mangle]
pub extern "C" fn sys_load(len: u32) -> u32 {
    match unsafe { serde_json::from_slice::<SystemTime>(&BUF[..len as usize]) } {
        Ok(s) => sys_push(s),
        Err(_) => u32::MAX,
    }
}
/// Through the strict record format; -1 if it cannot be written, -2 if it cannot be read back.
#[no_mangle]
pub extern "C" fn sys_record(a: u32, form: u32) -> i32 {
    match record::round_trip(sys(a), form) {
        None => -1,
        Some(None) => -2,
        Some(Some(t)) => sys_push(t) as i32,
    }
}
