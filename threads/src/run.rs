//! One simulated execution: programs, oracle, quiescence.
use crate::alloc;
use crate::sched::*;
use futures::task::{waker, ArcWake};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock, Weak};
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, sleep, sleep_until, timeout, Interval, Sleep, Timeout};
use wasmtimer::tokio_util::{delay_queue::Key, DelayQueue};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(usize, u64),      // sleep for so many us
    Until(usize, i64),    // sleep until now + us
    Interval(usize, u64), // with this period
    Timeout(usize, u64, u64), // around a sleep
    Queue(usize, u64),    // a delay queue with one entry
    Insert(usize, u64),   // another entry
    Remove(usize, u64),   // one of the entries
    Poll(usize, bool),    // with a fresh waker?
    Reset(usize, i64),
    Drop(usize),
    Elapsed(usize),
    Now,
    Callback(bool),       // run the next callback of the host; forced: wait for it
    Pass(u64),            // time passes
    Pause, Resume, Advance(u64),
    /// poll with a fresh waker that performs an operation itself: when it wakes, or when it is dropped
    Hook(usize, bool, Box<Op>),
}
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub prop: String,
    pub init: bool,
    pub pause_end: bool,
    pub jit: Vec<u64>,
    /// before the threads start
    pub setup: Vec<Op>,
    pub programs: Vec<Vec<Op>>,
    pub sched: Schedule,
    /// how schedules are searched: seed and strategy
    pub search: Option<(u64, u8)>,
}
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub hash: u64, pub steps: u32, pub switches: u64, pub completions: u64, pub ops: u64, pub now: u64,
    pub rec: Schedule, pub log: Vec<String>, pub aborted: bool,
    pub faults: BTreeMap<&'static str, u64>, pub probes: BTreeMap<&'static str, u64>,
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::Interval(i, d) => format!("I{i}:{d}"), Op::Timeout(i, d, e) => format!("T{i}:{d}:{e}"), Op::Queue(i, d) => format!("Q{i}:{d}"),
            Op::Insert(i, d) => format!("+{i}:{d}"), Op::Remove(i, k) => format!("-{i}:{k}"),
            Op::New(i, d) => format!("n{i}:{d}"), Op::Until(i, d) => format!("u{i}:{d}"),
            Op::Poll(i, false) => format!("p{i}"), Op::Poll(i, true) => format!("q{i}"),
            Op::Reset(i, d) => format!("r{i}:{d}"), Op::Drop(i) => format!("d{i}"), Op::Elapsed(i) => format!("e{i}"),
            Op::Now => "N".into(), Op::Callback(false) => "c".into(), Op::Callback(true) => "f".into(),
            Op::Pass(d) => format!("t{d}"), Op::Pause => "P".into(), Op::Resume => "R".into(), Op::Advance(d) => format!("A{d}"),
            Op::Hook(i, drop, o) => format!("{}{i}={}", if *drop { 'x' } else { 'w' }, o.text()),
        }
    }
    fn parse(s: &str) -> Op {
        let (k, r) = s.split_at(1);
        if k == "w" || k == "x" {
            let (i, o) = r.split_once('=').unwrap();
            return Op::Hook(i.parse().unwrap(), k == "x", Box::new(Op::parse(o)));
        }
        let mut n = r.split(':');
        let mut v = || n.next().unwrap().parse::<i64>().unwrap();
        match k {
            "I" => Op::Interval(v() as usize, v() as u64), "T" => Op::Timeout(v() as usize, v() as u64, v() as u64), "Q" => Op::Queue(v() as usize, v() as u64),
            "+" => Op::Insert(v() as usize, v() as u64), "-" => Op::Remove(v() as usize, v() as u64),
            "n" => Op::New(v() as usize, v() as u64), "u" => Op::Until(v() as usize, v()),
            "p" => Op::Poll(v() as usize, false), "q" => Op::Poll(v() as usize, true),
            "r" => Op::Reset(v() as usize, v()), "d" => Op::Drop(v() as usize), "e" => Op::Elapsed(v() as usize),
            "N" => Op::Now, "c" => Op::Callback(false), "f" => Op::Callback(true), "t" => Op::Pass(v() as u64),
            "P" => Op::Pause, "R" => Op::Resume, "A" => Op::Advance(v() as u64), _ => panic!("bad op {s}"),
        }
    }
}
impl Trace {
    pub fn text(&self) -> String {
        let mut s = format!("prop {}\ninit {}\npause_end {}\njit {}\n", self.prop, self.init as u8, self.pause_end as u8, self.jit.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        for (k, p) in std::iter::once(&self.setup).chain(&self.programs).enumerate() {
            s += if k == 0 { "setup" } else { "thread" };
            for o in p {
                s += " ";
                s += &o.text();
            }
            s += "\n";
        }
        if let Some((a, b)) = self.search { s += &format!("search {a} {b}\n"); }
        s += "sched";
        for (n, c) in &self.sched { s += &match c { Choice::Switch(t) => format!(" {n}>{t}"), Choice::Tick(u) => format!(" {n}+{u}") }; }
        s + "\n"
    }
    pub fn parse(text: &str) -> Trace {
        let mut t = Trace::default();
        for l in text.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("prop") => t.prop = w.next().unwrap().into(),
                Some("init") => t.init = w.next() == Some("1"),
                Some("pause_end") => t.pause_end = w.next() == Some("1"),
                Some("jit") => t.jit = w.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
                Some("setup") => t.setup = w.map(Op::parse).collect(),
                Some("thread") => t.programs.push(w.map(Op::parse).collect()),
                Some("search") => t.search = Some((w.next().unwrap().parse().unwrap(), w.next().unwrap().parse().unwrap())),
                Some("sched") => t.sched = w.map(|s| match s.split_once('>') {
                    Some((a, b)) => (a.parse().unwrap(), Choice::Switch(b.parse().unwrap())),
                    None => { let (a, b) = s.split_once('+').unwrap(); (a.parse().unwrap(), Choice::Tick(b.parse().unwrap())) }
                }).collect(),
                _ => {}
            }
        }
        t
    }
    /// Replaces a searched schedule by the one that was found.
    pub fn fix(&mut self, o: &Outcome) { self.sched = o.rec.clone(); self.search = None; }
}

struct Task { woken: AtomicBool, id: usize }
impl ArcWake for Task {
    fn wake_by_ref(me: &Arc<Self>) {
        me.woken.store(true, SeqCst);
        let lib = alloc::in_lib(false);
        if let Some(r) = outside() { r.st.lock().unwrap().log(|| format!("  wake the task of sleep {}", me.id)); }
        alloc::in_lib(lib);
    }
}

/// A waker that uses the timers itself.
struct Hook { task: Arc<Task>, op: Mutex<Option<Op>>, on_drop: bool, world: Weak<World>, run: Arc<Run> }
impl Hook {
    fn act(&self) {
        let Some(op) = self.op.lock().unwrap().take() else { return };
        let Some(w) = self.world.upgrade() else { return };
        let lib = alloc::in_lib(false);
        self.run.st.lock().unwrap().log(|| format!("  a waker of sleep {} {}:", self.task.id, if self.on_drop { "is dropped" } else { "is woken" }));
        w.probe(if self.on_drop { "waker_acts_when_dropped" } else { "waker_acts" });
        if let Err((k, m)) = w.op(&self.run, &op, 8) { self.run.fail(&k, m); stop(); }
        alloc::in_lib(lib);
    }
}
impl ArcWake for Hook {
    fn wake_by_ref(me: &Arc<Self>) {
        Task::wake_by_ref(&me.task);
        if !me.on_drop { me.act(); }
    }
}
impl Drop for Hook { fn drop(&mut self) { if self.on_drop { self.act(); } } }

enum Obj {
    Sleep(Pin<Box<Sleep>>),
    /// and the period; no tick was returned yet
    Interval(Box<Interval>, u64, bool),
    /// and the deadlines of the timeout and of what is within
    Timeout(Pin<Box<Timeout<Sleep>>>, u64, u64),
    /// and the entries, with their deadlines and values
    Queue(Box<DelayQueue<u64>>, Vec<(Key, u64, u64)>),
}
/// `deadline`: the next time at which it is ready; `done`: it was (for a queue: it is empty)
struct Sl { id: usize, obj: Obj, deadline: u64, task: Option<Arc<Task>>, pending: bool, done: bool }
impl Sl {
    fn sleep(&mut self) -> Option<&mut Pin<Box<Sleep>>> { match &mut self.obj { Obj::Sleep(s) => Some(s), _ => None } }
    /// The wheel of a queue might need a callback for each of its levels, even when all of them are due.
    fn slack(&self, latency: u64) -> u64 { if let Obj::Queue(..) = self.obj { 7 * latency } else { 0 } }
    /// when nothing of it is left to wait for
    fn last(&self) -> u64 { if let Obj::Queue(_, v) = &self.obj { v.iter().map(|e| e.1).max().unwrap_or(0) } else { self.deadline } }
    /// The first entry, or the next one: the host has to call back once for each of them.
    fn next_entry(&mut self, now: u64) {
        if let Obj::Queue(_, v) = &self.obj { self.deadline = v.iter().map(|e| e.1).min().unwrap_or(0).max(now); self.done = false; }
    }
}

// Whether sleeps may be moved and shared is checked, not assumed: `shareable` finds out without failing to compile.
unsafe impl Send for Sl {}
unsafe impl Sync for Sl {}
trait No { const SEND: bool = false; const SYNC: bool = false; }
struct ProbeSend<T>(std::marker::PhantomData<T>);
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> No for ProbeSend<T> {}
impl<T> No for ProbeSync<T> {}
impl<T: Send> ProbeSend<T> { const SEND: bool = true; }
impl<T: Sync> ProbeSync<T> { const SYNC: bool = true; }
fn shareable() -> Result<(), (String, String)> {
    for (name, send, sync) in [
        ("Sleep", ProbeSend::<Sleep>::SEND, ProbeSync::<Sleep>::SYNC),
        ("Interval", ProbeSend::<Interval>::SEND, ProbeSync::<Interval>::SYNC),
        ("Timeout", ProbeSend::<Timeout<Sleep>>::SEND, ProbeSync::<Timeout<Sleep>>::SYNC),
        ("DelayQueue", ProbeSend::<DelayQueue<u64>>::SEND, ProbeSync::<DelayQueue<u64>>::SYNC),
    ] {
        if !send { return Err(("send".into(), format!("a {name} cannot be sent to another thread"))); }
        if !sync { return Err(("send".into(), format!("a {name} cannot be shared between threads"))); }
    }
    Ok(())
}

struct World {
    slots: Mutex<Vec<Option<Sl>>>,
    tasks: Mutex<Vec<Arc<Task>>>,
    completions: AtomicU64,
    ops: AtomicU64,
    max_now: AtomicU64,
    clock: Mutex<Model>,
    probes: Mutex<BTreeMap<&'static str, u64>>,
}
/// upper bound of what the clock shows
struct Model { running: bool, base: u64, from: u64 }
impl Model {
    fn at(&self, now: u64) -> u64 { self.base + if self.running { now - self.from } else { 0 } }
}

static ZERO: OnceLock<Instant> = OnceLock::new();
pub fn calibrate() {
    ZERO.get_or_init(Instant::now);
    wasmtimer::sim::forget_globals();
}
fn us(i: Instant) -> u64 { i.duration_since(*ZERO.get().unwrap()).as_micros() as u64 }
fn abs(u: u64) -> Instant { *ZERO.get().unwrap() + Duration::from_micros(u) }

fn lib<T>(f: impl FnOnce() -> T) -> T {
    let old = alloc::in_lib(true);
    let r = f();
    alloc::in_lib(old);
    r
}

impl World {
    fn probe(&self, k: &'static str) { *self.probes.lock().unwrap().entry(k).or_insert(0) += 1; }
    fn take(&self, i: usize) -> Option<Sl> { self.slots.lock().unwrap().get_mut(i).and_then(|s| s.take()) }
    fn put(&self, s: Sl) {
        let mut v = self.slots.lock().unwrap();
        let i = s.id;
        while v.len() <= i { v.push(None); }
        v[i] = Some(s);
    }
    fn clock(&self, now: u64) -> u64 { self.clock.lock().unwrap().at(now) }
    fn complete(&self, run: &Arc<Run>, s: &mut Sl, how: &str) -> Result<(), (String, String)> {
        let now = run.st.lock().unwrap().now;
        let c = self.clock(now);
        if c < s.deadline {
            return Err(("early".into(), format!("sleep {} {how} at {c} us, before its deadline {} us", s.id, s.deadline)));
        }
        if !s.done { self.completions.fetch_add(1, SeqCst); s.done = true; }
        Ok(())
    }
    fn op(self: &Arc<Self>, run: &Arc<Run>, op: &Op, me: usize) -> Result<(), (String, String)> {
        run.st.lock().unwrap().busy += 1;
        let r = self.op1(run, op, me);
        run.st.lock().unwrap().busy -= 1;
        r
    }
    fn op1(self: &Arc<Self>, run: &Arc<Run>, op: &Op, me: usize) -> Result<(), (String, String)> {
        { let mut st = run.st.lock().unwrap(); st.log(|| format!("{op:?}")); st.mix(0x77 + me as u64); }
        self.ops.fetch_add(1, SeqCst);
        match op {
            Op::New(i, _) | Op::Until(i, _) => {
                let before = self.clock(run.st.lock().unwrap().now);
                let (s, want) = match op {
                    Op::New(_, d) => (lib(|| Box::pin(sleep(Duration::from_micros(*d)))), None),
                    Op::Until(_, d) => { let at = (before as i64 + d).max(0) as u64; (lib(|| Box::pin(sleep_until(abs(at)))), Some(at)) }
                    _ => unreachable!(),
                };
                let deadline = us(s.deadline());
                if want.is_some_and(|w| w != deadline) { return Err(("deadline".into(), format!("sleep_until({want:?}) has deadline {deadline}"))); }
                self.put(Sl { id: *i, obj: Obj::Sleep(s), deadline, task: None, pending: false, done: false });
            }
            Op::Interval(i, d) => {
                let d = (*d).max(1000);
                let n = lib(|| Box::new(interval(Duration::from_micros(d))));
                let deadline = self.clock(run.st.lock().unwrap().now);
                self.put(Sl { id: *i, obj: Obj::Interval(n, d, true), deadline, task: None, pending: false, done: false });
            }
            Op::Timeout(i, d, inner) => {
                let s = lib(|| sleep(Duration::from_micros(*inner)));
                let e = us(s.deadline());
                let low = e - inner;
                let n = lib(|| Box::pin(timeout(Duration::from_micros(*d), s)));
                // its deadline is not to be seen: somewhere in between
                let high = self.clock(run.st.lock().unwrap().now) + d;
                self.put(Sl { id: *i, obj: Obj::Timeout(n, low + d, e), deadline: high.min(e), task: None, pending: false, done: false });
            }
            Op::Queue(i, d) => {
                let mut q = lib(|| Box::new(DelayQueue::new()));
                let at = self.clock(run.st.lock().unwrap().now) + d;
                let value = self.ops.load(SeqCst);
                let k = lib(|| q.insert_at(value, abs(at)));
                self.put(Sl { id: *i, obj: Obj::Queue(q, vec![(k, at, value)]), deadline: at, task: None, pending: false, done: false });
            }
            Op::Insert(i, d) => {
                let Some(mut s) = self.take(*i) else { self.probe("skipped"); return Ok(()) };
                if let Obj::Queue(q, v) = &mut s.obj {
                    let at = self.clock(run.st.lock().unwrap().now) + d;
                    let value = self.ops.load(SeqCst);
                    v.push((lib(|| q.insert_at(value, abs(at))), at, value));
                    s.next_entry(self.clock(run.st.lock().unwrap().now));
                    self.probe("insert");
                }
                self.put(s);
            }
            Op::Remove(i, k) => {
                let Some(mut s) = self.take(*i) else { self.probe("skipped"); return Ok(()) };
                if let Obj::Queue(q, v) = &mut s.obj {
                    if !v.is_empty() {
                        let (key, at, value) = v.remove(*k as usize % v.len());
                        let got = lib(|| q.remove(&key).into_inner());
                        if got != value { return Err(("queue".into(), format!("queue {i}: the entry for {at} us was to be removed, got another one"))); }
                        s.next_entry(self.clock(run.st.lock().unwrap().now));
                        self.probe("remove");
                    }
                }
                self.put(s);
            }
            Op::Poll(i, _) | Op::Hook(i, ..) => {
                let fresh = *op != Op::Poll(*i, false);
                let Some(mut s) = self.take(*i) else { self.probe("skipped"); return Ok(()) };
                let task = match &s.task { Some(t) if !fresh => t.clone(), _ => { let t = Arc::new(Task { woken: AtomicBool::new(false), id: *i }); self.tasks.lock().unwrap().push(t.clone()); t } };
                task.woken.store(false, SeqCst);
                s.task = Some(task.clone());
                let w = match op {
                    Op::Hook(_, on_drop, o) => waker(Arc::new(Hook { task, op: Mutex::new(Some((**o).clone())), on_drop: *on_drop, world: Arc::downgrade(self), run: run.clone() })),
                    _ => waker(task),
                };
                let cx = &mut Context::from_waker(&w);
                match &mut s.obj {
                    Obj::Sleep(o) => {
                        let r = lib(|| o.as_mut().poll(cx));
                        s.pending = r.is_pending();
                        if r.is_ready() { self.complete(run, &mut s, "completed")?; self.probe("ready"); }
                        else if s.done { return Err(("sticky".into(), format!("sleep {i} is pending again"))); }
                    }
                    Obj::Interval(o, period, first) => {
                        let r = lib(|| o.poll_tick(cx));
                        s.pending = r.is_pending();
                        if let Poll::Ready(at) = r {
                            let at = us(at);
                            let c = self.clock(run.st.lock().unwrap().now);
                            if at > c { return Err(("early".into(), format!("interval {i} ticked for {at} us, the clock has not reached that: {c} us"))); }
                            if *first && at > s.deadline || !*first && at != s.deadline { return Err(("tick".into(), format!("interval {i} ticked for {at} us instead of {} us", s.deadline))); }
                            *first = false;
                            s.deadline = at + *period;
                            s.done = true;
                            self.completions.fetch_add(1, SeqCst);
                            self.probe("tick");
                        }
                    }
                    Obj::Timeout(o, d, e) => {
                        let r = lib(|| o.as_mut().poll(cx));
                        s.pending = r.is_pending();
                        if let Poll::Ready(r) = r {
                            let c = self.clock(run.st.lock().unwrap().now);
                            let at = if r.is_ok() { *e } else { *d };
                            if c < at { return Err(("early".into(), format!("timeout {i} resolved to {} at {c} us, not possible before {at} us", if r.is_ok() { "Ok" } else { "Err" }))); }
                            self.completions.fetch_add(1, SeqCst);
                            self.probe(if r.is_ok() { "timeout_ok" } else { "timeout_elapsed" });
                            lib(|| drop(s.obj));
                            return Ok(());
                        }
                    }
                    Obj::Queue(o, v) => {
                        let r = lib(|| o.poll_expired(cx));
                        s.pending = r.is_pending();
                        match r {
                            Poll::Pending => {}
                            Poll::Ready(None) => {
                                if !v.is_empty() { return Err(("queue".into(), format!("queue {i} claims to be empty, but has {} entries", v.len()))); }
                                s.done = true;
                            }
                            Poll::Ready(Some(x)) => {
                                let value = lib(|| x.into_inner());
                                let Some(k) = v.iter().position(|e| e.2 == value) else { return Err(("queue".into(), format!("queue {i} yielded an entry that it does not have"))) };
                                let at = v[k].1;
                                let c = self.clock(run.st.lock().unwrap().now);
                                if c < at { return Err(("early".into(), format!("queue {i} yielded the entry for {at} us at {c} us"))); }
                                v.remove(k);
                                s.next_entry(self.clock(run.st.lock().unwrap().now));
                                self.completions.fetch_add(1, SeqCst);
                                self.probe("expired");
                            }
                        }
                    }
                }
                self.put(s);
            }
            Op::Reset(i, d) => {
                let Some(mut s) = self.take(*i) else { self.probe("skipped"); return Ok(()) };
                let at = (self.clock(run.st.lock().unwrap().now) as i64 + d).max(0) as u64;
                match &mut s.obj {
                    Obj::Sleep(o) => {
                        if s.done { self.probe("reset_after_completion"); }
                        lib(|| o.as_mut().reset(abs(at)));
                        s.deadline = at;
                        s.done = false;
                        if us(o.deadline()) != at { return Err(("deadline".into(), format!("sleep {i} reset to {at} has deadline {}", us(o.deadline())))); }
                        if o.is_elapsed() { self.complete(run, &mut s, "was complete right after its reset")?; }
                    }
                    Obj::Queue(q, v) if !v.is_empty() => {
                        let n = v.len();
                        let e = &mut v[at as usize / 1000 % n];
                        lib(|| q.reset_at(&e.0, abs(at)));
                        e.1 = at;
                        s.next_entry(self.clock(run.st.lock().unwrap().now));
                        self.probe("reset_entry");
                    }
                    _ => {}
                }
                self.put(s);
            }
            Op::Elapsed(i) => {
                let Some(mut s) = self.take(*i) else { self.probe("skipped"); return Ok(()) };
                let was = s.done;
                let Some(o) = s.sleep() else { self.put(s); return Ok(()) };
                if lib(|| o.is_elapsed()) { self.complete(run, &mut s, "is_elapsed")?; }
                else if was { return Err(("sticky".into(), format!("sleep {i} is not elapsed any more"))); }
                self.put(s);
            }
            Op::Drop(i) => { if let Some(s) = self.take(*i) { lib(|| drop(s.obj)); self.probe("dropped"); } }
            Op::Now => {
                let lower = self.max_now.load(SeqCst);
                let v = us(lib(Instant::now));
                let now = run.st.lock().unwrap().now;
                let upper = self.clock(now);
                if v < lower { return Err(("clock-backwards".into(), format!("Instant::now is {v} us, after it was {lower} us before"))); }
                if v > upper { return Err(("clock".into(), format!("Instant::now is {v} us, the clock has not reached that: {upper} us"))); }
                self.max_now.fetch_max(v, SeqCst);
            }
            Op::Callback(force) => {
                let f = {
                    let mut st = run.st.lock().unwrap();
                    let now = st.now;
                    match st.queue.iter().enumerate().min_by_key(|(_, c)| (c.due, c.id)).map(|(k, c)| (k, c.due)) {
                        // while another thread is within a call, only a short time passes
                        Some((k, due)) if due <= now || (*force && (st.busy == 1 || due <= now + 20_000)) => {
                            st.now = now.max(due);
                            if st.busy > 1 { st.stalls += st.now - now; }
                            let c = st.queue.remove(k);
                            st.log(|| format!("callback #{}", c.id));
                            Some(c.f)
                        }
                        _ => None,
                    }
                };
                if let Some(f) = f { self.probe("callback"); lib(f); }
            }
            Op::Pass(d) => { let mut st = run.st.lock().unwrap(); st.now += d; if st.busy > 1 { st.stalls += d; } st.mix(*d); st.fault("thread_stalled"); }
            Op::Pause | Op::Resume | Op::Advance(_) => self.clock_op(run, op)?,
        }
        Ok(())
    }
    #[cfg(not(feature = "testutil"))]
    fn clock_op(&self, _: &Arc<Run>, _: &Op) -> Result<(), (String, String)> { Ok(()) }
    #[cfg(feature = "testutil")]
    fn clock_op(&self, run: &Arc<Run>, op: &Op) -> Result<(), (String, String)> {
        use wasmtimer::tokio as tu;
        let now = || run.st.lock().unwrap().now;
        let running = self.clock.lock().unwrap().running;
        match op {
            Op::Pause if running => {
                self.probe("pause");
                lib(tu::pause);
                let n = now();
                let mut m = self.clock.lock().unwrap();
                m.base = m.at(n);
                m.running = false;
            }
            Op::Resume if !running => {
                self.probe("resume");
                { let n = now(); let mut m = self.clock.lock().unwrap(); m.from = n; m.running = true; }
                lib(tu::resume);
            }
            Op::Advance(d) if !running => {
                self.probe("advance");
                self.clock.lock().unwrap().base += d;
                lib(|| futures::executor_block(tu::advance(Duration::from_micros(*d))));
            }
            _ => {}
        }
        Ok(())
    }
    /// The threads have ended. Polls what was woken; is everything complete?
    fn check_all(self: &Arc<Self>, run: &Arc<Run>) -> Result<bool, (String, String)> {
        let mut all = true;
        loop {
            let woken = self.slots.lock().unwrap().iter_mut().flatten()
                .find(|s| !matches!(s.obj, Obj::Sleep(_)) && !s.done && (!s.pending || s.task.as_ref().unwrap().woken.load(SeqCst))).map(|s| s.id);
            match woken { Some(i) => self.op(run, &Op::Poll(i, false), 9)?, None => break }
        }
        for s in self.slots.lock().unwrap().iter_mut().flatten() {
            if s.sleep().is_none() {
                all &= s.done;
            } else if s.sleep().unwrap().is_elapsed() {
                self.complete(run, s, "is_elapsed")?;
                let t = s.task.as_ref();
                if s.pending && !t.unwrap().woken.load(SeqCst) { return Err(("lost-wake".into(), format!("sleep {} is elapsed, but the task that polled it last was not woken", s.id))); }
            } else {
                if s.done { return Err(("sticky".into(), format!("sleep {} is not elapsed any more", s.id))); }
                all = false;
            }
        }
        Ok(all)
    }
    /// The threads have ended; the host is responsive from now on.
    fn quiesce(self: &Arc<Self>, run: &Arc<Run>, t: &Trace) -> Result<(), (String, String)> {
        let host = |limit: u64| -> bool {
            let f = {
                let mut st = run.st.lock().unwrap();
                match st.queue.iter().enumerate().min_by_key(|(_, c)| (c.due, c.id)).map(|(k, c)| (k, c.due)) {
                    Some((k, due)) if due <= limit => { st.now = st.now.max(due); let c = st.queue.remove(k); st.log(|| format!("callback #{}", c.id)); Some(c.f) }
                    _ => None,
                }
            };
            match f { Some(f) => { lib(f); true } None => false }
        };
        let start = run.st.lock().unwrap().now;
        for s in self.slots.lock().unwrap().iter_mut().flatten() { if s.sleep().is_none() { s.done = false; } }
        let l0 = t.jit.iter().max().copied().unwrap_or(0) + 2000;
        self.op(run, &Op::Now, 9)?;
        if t.pause_end {
            self.clock_op(run, &Op::Pause)?;
            let c = self.clock(start);
            let d = self.slots.lock().unwrap().iter().flatten().map(|s| s.last().saturating_sub(c)).max().unwrap_or(0);
            // the clock might be behind the model, which counts all the time during which it was being paused
            let stalls = run.st.lock().unwrap().stalls;
            self.clock_op(run, &Op::Advance((d + stalls) / 1000 * 1000 + 3000))?;
            self.op(run, &Op::Now, 9)?;
            let mut n = 0;
            while host(start + 2 * l0 + 10_000 + stalls) { n += 1; if n > 10_000 { return Err(("spin".into(), "10000 callbacks without time passing".into())); } self.check_all(run)?; }
            self.check_all(run)?;
            // a waker might have reset one to a later deadline
            let c = self.clock(start) - stalls;
            let bad: Vec<_> = self.slots.lock().unwrap().iter().flatten().filter(|s| !s.done && s.deadline + s.slack(1000) / 7 <= c).map(|s| s.id).collect();
            if !bad.is_empty() {
                return Err(("advance-missed".into(), format!("the paused clock was advanced past every deadline, but sleeps {bad:?} are not complete")));
            }
        }
        self.clock_op(run, &Op::Resume)?;
        let start = run.st.lock().unwrap().now;
        // From here on the clock is known exactly: what passed while it was being paused might not count.
        {
            let (v, stalls) = (us(lib(Instant::now)), run.st.lock().unwrap().stalls);
            let mut m = self.clock.lock().unwrap();
            let most = m.at(start);
            if v > most || v + stalls < most { return Err(("clock".into(), format!("Instant::now is {v} us, expected {most} us, at most {stalls} us less"))); }
            m.base = v;
            m.from = start;
        }
        let bound = 2 * l0 + 4000 + run.st.lock().unwrap().stalls;
        let mut n = 0;
        while !self.check_all(run)? {
            let now = run.st.lock().unwrap().now;
            let c = self.clock(now);
            // everything due for longer than the bound?
            let next = self.slots.lock().unwrap().iter().flatten().filter(|s| !s.done).map(|s| (start + s.deadline.saturating_sub(c - (now - start))).max(start) + bound + s.slack(l0)).min().unwrap();
            n += 1;
            if n > 20_000 { return Err(("spin".into(), "20000 callbacks".into())); }
            if !host(next) {
                let bad: Vec<_> = self.slots.lock().unwrap().iter().flatten().filter(|s| !s.done).map(|s| (s.id, s.deadline)).collect();
                return Err(("late".into(), format!("at {} us: sleeps (and deadlines) {bad:?} are not complete in time, at most {bound} us after they were due", next)));
            }
        }
        // nothing is held any more
        loop {
            let n = self.slots.lock().unwrap().len();
            for i in 0..n { if let Some(s) = self.take(i) { lib(|| drop(s.obj)); } }
            let now = run.st.lock().unwrap().now;
            while host(now + bound) {}
            // a waker might have created another one
            if self.slots.lock().unwrap().iter().all(|s| s.is_none()) { break; }
        }
        for t in self.tasks.lock().unwrap().iter() {
            if Arc::strong_count(t) > 1 { return Err(("leak".into(), format!("every sleep was dropped and the host has run, but a waker of the task of sleep {} is still held", t.id))); }
        }
        Ok(())
    }
}

mod futures {
    /// Polls a future that is always ready.
    #[cfg(feature = "testutil")]
    pub fn executor_block<F: std::future::Future>(f: F) {
        let mut f = std::pin::pin!(f);
        let w = ::futures::task::noop_waker();
        assert!(f.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_ready());
    }
    pub use ::futures::task;
}

/// Every run has a new thread for what happens before and after the simulated ones: nothing that the
/// library might keep per thread reaches the next run.
pub fn execute(t: &Trace, verbose: bool) -> Outcome {
    std::thread::scope(|s| s.spawn(|| execute_here(t, verbose)).join().expect("the simulator panicked"))
}

fn execute_here(t: &Trace, verbose: bool) -> Outcome {
    alloc::RUN.fetch_add(1, SeqCst);
    alloc::LIVE.store(0, SeqCst);
    alloc::start();
    wasmtimer::sim::forget_globals();
    let double0 = alloc::DOUBLE.load(SeqCst);
    let n = t.programs.len();
    let policy = match t.search {
        None => Policy::Fixed(t.sched.clone(), 0),
        Some((seed, k)) => {
            let mut r = Rng(seed);
            r.next();
            let pt = [0.0, 0.0, 0.02, 0.1][r.below(4) as usize];
            match k {
                0 => Policy::Random(r, 0.5, pt),
                1 => Policy::Random(r, 0.2, pt),
                2 => Policy::Random(r, 0.06, pt),
                _ => {
                    let prio = (0..n).map(|_| 1000 + r.below(1000) as i64).collect();
                    let ops: usize = t.programs.iter().map(|p| p.len()).sum();
                    let len = (ops as u64 * r.pick(&[3, 6, 14])).max(10);
                    let changes = (0..k as u64 - 1).map(|_| 1 + r.below(len) as u32).collect();
                    Policy::Pct(r, prio, changes, pt)
                }
            }
        }
    };
    let run = Run::new(n, policy, t.jit.clone(), verbose);
    set_outside(Some(run.clone()));
    let w = Arc::new(World {
        slots: Mutex::new(vec![]), tasks: Mutex::new(vec![]), completions: AtomicU64::new(0), ops: AtomicU64::new(0), max_now: AtomicU64::new(0),
        clock: Mutex::new(Model { running: true, base: 1_000_000, from: 1_000_000 }), probes: Mutex::new(BTreeMap::new()),
    });
    let main = |f: &mut dyn FnMut() -> Result<(), (String, String)>| -> Result<(), (String, String)> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => { alloc::in_lib(false); Err(match run.st.lock().unwrap().violation.take() { Some(v) => v, None => ("panic".into(), last_panic()) }) }
        }
    };
    let mut res = if t.prop == "C21" { shareable() } else { Ok(()) };
    if t.init && res.is_ok() {
        res = main(&mut || {
            lib(|| drop(sleep(Duration::from_secs(1))));
            for _ in 0..3 {
                let f = { let mut st = run.st.lock().unwrap(); if st.queue.is_empty() { None } else { let c = st.queue.remove(0); st.now = st.now.max(c.due); Some(c.f) } };
                if let Some(f) = f { lib(f); }
            }
            Ok(())
        });
    }
    for o in &t.setup {
        if res.is_ok() { res = main(&mut || w.op(&run, o, 7)); }
    }
    let mut aborted = false;
    if res.is_ok() {
        let handles: Vec<_> = (0..n).map(|i| {
            let (run, w, prog) = (run.clone(), w.clone(), t.programs[i].clone());
            std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                thread_body(run, i, |run, me| {
                    for o in &prog {
                        if let Err((k, m)) = w.op(run, o, me) { run.fail(&k, m); park_forever(); }
                    }
                })
            }).unwrap()
        }).collect();
        match run.drive() {
            Drive::Ended => { if run.st.lock().unwrap().violation.is_none() { for h in handles { let _ = h.join(); } } }
            Drive::Freed => aborted = true,   // not controlled any more: judges nothing
            Drive::Stuck => res = Err(("hang".into(), "a call into the library does not return".into())),
        }
        if let (Some(v), false) = (run.st.lock().unwrap().violation.clone(), aborted) { res = Err(v); }
    }
    if res.is_ok() && !aborted {
        res = main(&mut || w.quiesce(&run, t));
        // teardown: the host forgets its callbacks, the program its globals
        if res.is_ok() {
            res = main(&mut || {
                let q = std::mem::take(&mut run.st.lock().unwrap().queue);
                drop(q);
                wasmtimer::sim::forget_globals();
                let live = alloc::LIVE.load(SeqCst);
                if t.init && live > 0 { return Err(("leak".into(), format!("{live} allocations of the library are left after everything was dropped"))); }
                Ok(())
            });
        }
        if alloc::DOUBLE.load(SeqCst) != double0 { res = Err(("double-free".into(), "memory of the library was freed twice".into())); }
    }
    let late = alloc::end();
    if late > 0 && !aborted { res = Err(("use-after-free".into(), format!("{late} blocks of memory were written to after they had been freed"))); }
    set_outside(None);
    let mut st = run.st.lock().unwrap();
    if let Err((k, m)) = &res { st.log(|| format!("!! {k}: {m}")); }
    let probes = w.probes.lock().unwrap().clone();
    Outcome {
        violation: res.err(), hash: st.hash, steps: st.step, switches: st.switches, completions: w.completions.load(SeqCst), ops: w.ops.load(SeqCst),
        now: st.now, rec: st.rec.clone(), log: st.log.take().unwrap_or_default(), aborted, faults: st.faults.clone(), probes,
    }
}

#[allow(dead_code)]
fn unused(_: Poll<()>) {}
