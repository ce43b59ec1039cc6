//! The scheduler: one thread runs at a time, and every decision is recorded.
use crate::alloc;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

pub struct Sim;
pub static SIM: Sim = Sim;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn chance(&mut self, p: f64) -> bool { (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < p }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}
pub fn hash3(a: u64, b: u64, c: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0xd6e8_feb8_6659_fd93) ^ b.rotate_left(24).wrapping_mul(0xa076_1d64_78bd_642f) ^ c.rotate_left(47));
    r.next();
    r.next()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th { Ready, Blocked(usize), Done }

/// A decision that differs from the default (the current thread continues, else the lowest one).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Choice { Switch(u8), Tick(u64) }
pub type Schedule = Vec<(u32, Choice)>;

pub enum Policy {
    Fixed(Schedule, usize),
    /// switch with this probability at every point
    Random(Rng, f64, f64),
    /// random priorities, lowered at random points
    Pct(Rng, Vec<i64>, Vec<u32>, f64),
}

pub struct Cb { pub due: u64, pub id: u64, pub f: Box<dyn FnOnce() + Send> }

pub struct St {
    th: Vec<Th>,
    pub cur: usize,
    pub step: u32,
    pub now: u64,
    policy: Policy,
    pub rec: Schedule,
    pub switches: u64,
    pub queue: Vec<Cb>,
    pub seq: u64,
    pub hash: u64,
    pub violation: Option<(String, String)>,
    pub done: bool,
    pub log: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub jit: Vec<u64>,
    /// time that passed while a thread was within a call into the library
    pub stalls: u64,
    pub busy: usize,
}
impl St {
    pub fn mix(&mut self, v: u64) { self.hash = (self.hash ^ v).wrapping_mul(0x1000_0000_01b3).rotate_left(5); }
    pub fn fault(&mut self, k: &'static str) { *self.faults.entry(k).or_insert(0) += 1; }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let (n, s, c) = (self.now, self.step, self.cur);
        if let Some(l) = &mut self.log { l.push(format!("[{n} us, step {s}, thread {c}] {}", f())); }
    }
}

struct Gate { open: Mutex<bool>, cv: Condvar }
impl Gate {
    fn new() -> Gate { Gate { open: Mutex::new(false), cv: Condvar::new() } }
    fn open(&self) { *self.open.lock().unwrap() = true; self.cv.notify_one(); }
    fn pass(&self) { let mut g = self.open.lock().unwrap(); while !*g { g = self.cv.wait(g).unwrap(); } *g = false; }
}

pub struct Run {
    pub st: Mutex<St>,
    gates: Vec<Gate>,
    main: (Mutex<bool>, Condvar),
    pub free: AtomicBool,
    pub progress: AtomicU32,
    pub finished: AtomicU64,
}

const MAX_STEPS: u32 = 60_000;

thread_local! { static CUR: RefCell<Option<(Arc<Run>, usize)>> = const { RefCell::new(None) }; }
static PANIC: Mutex<String> = Mutex::new(String::new());
/// simulated time and host for code that runs outside of the threads (set-up and the final checks)
static OUTSIDE: Mutex<Option<Arc<Run>>> = Mutex::new(None);

pub fn note_panic(s: String) { *PANIC.lock().unwrap() = s; }
pub fn last_panic() -> String { std::mem::take(&mut *PANIC.lock().unwrap()) }
pub fn set_outside(r: Option<Arc<Run>>) { *OUTSIDE.lock().unwrap() = r; }
fn cur() -> Option<(Arc<Run>, usize)> { CUR.try_with(|c| c.borrow().clone()).ok().flatten() }
pub fn outside() -> Option<Arc<Run>> { OUTSIDE.lock().unwrap().clone() }

impl Run {
    pub fn new(n: usize, policy: Policy, jit: Vec<u64>, verbose: bool) -> Arc<Run> {
        Arc::new(Run {
            st: Mutex::new(St {
                th: vec![Th::Ready; n], cur: 0, step: 0, now: 1_000_000, policy, rec: vec![], switches: 0, queue: vec![], seq: 0,
                hash: 0xcbf2_9ce4_8422_2325, violation: None, done: false, log: verbose.then(Vec::new), faults: BTreeMap::new(), jit, stalls: 0, busy: 0,
            }),
            gates: (0..n).map(|_| Gate::new()).collect(),
            main: (Mutex::new(false), Condvar::new()),
            free: AtomicBool::new(false),
            progress: AtomicU32::new(0),
            finished: AtomicU64::new(0),
        })
    }
    fn signal_main(&self) { *self.main.0.lock().unwrap() = true; self.main.1.notify_one(); }
    /// Main thread: starts the run; false if it made no progress for a while.
    pub fn drive(self: &Arc<Run>) -> Drive {
        let first = { let mut st = self.st.lock().unwrap(); let n = st.th.len(); let f = choose(&mut st, None).unwrap_or(0); let _ = n; st.cur = f; f };
        self.gates[first].open();
        let mut last = (u32::MAX, 0);
        loop {
            let g = self.main.0.lock().unwrap();
            let (g, _) = if *g { (g, ()) } else { let (g, _t) = self.main.1.wait_timeout(g, std::time::Duration::from_millis(1000)).unwrap(); (g, ()) };
            if *g { return if self.free.load(SeqCst) { Drive::Freed } else { Drive::Ended }; }
            drop(g);
            let p = self.progress.load(SeqCst);
            if p == last.0 { last.1 += 1; } else { last = (p, 0); }
            // the running thread waits for something that the simulator doesn't know, maybe for a parked thread
            if last.1 == 3 {
                self.free.store(true, SeqCst);
                for g in &self.gates { g.open(); }
            }
            if last.1 == 10 { return Drive::Stuck; }
        }
    }
    /// Ends the run with a violation; the calling thread never continues.
    pub fn fail(&self, kind: &str, msg: String) {
        let mut st = self.st.lock().unwrap();
        if st.violation.is_none() { st.log(|| format!("!! {kind}: {msg}")); st.violation = Some((kind.into(), msg)); }
        st.done = true;
        drop(st);
        self.signal_main();
    }
}
pub enum Drive { Ended, Freed, Stuck }

/// After `fail`: ends what runs, within a thread or outside of them.
pub fn stop() -> ! {
    if cur().is_some() { park_forever(); }
    panic!("stopped");
}
pub fn park_forever() -> ! { loop { std::thread::park(); } }

/// Picks the thread that continues. None: nobody can.
fn choose(st: &mut St, me: Option<usize>) -> Option<usize> {
    let ready: Vec<usize> = (0..st.th.len()).filter(|&i| st.th[i] == Th::Ready).collect();
    if ready.is_empty() { return None; }
    let default = me.filter(|i| st.th[*i] == Th::Ready).unwrap_or(ready[0]);
    let step = st.step;
    let mut tick = 0;
    let want = match &mut st.policy {
        Policy::Fixed(s, pos) => {
            let mut w = default;
            while *pos < s.len() && s[*pos].0 <= step {
                if s[*pos].0 == step {
                    match s[*pos].1 { Choice::Switch(t) => w = t as usize, Choice::Tick(us) => tick = us }
                }
                *pos += 1;
            }
            if ready.contains(&w) { w } else { default }
        }
        Policy::Random(r, p, pt) => {
            if r.chance(*pt) { tick = r.pick(&[125, 125, 1000, 2000, 50_000]); }
            if r.chance(*p) || me.is_none() || st.th[me.unwrap()] != Th::Ready { r.pick(&ready) } else { default }
        }
        Policy::Pct(r, prio, changes, pt) => {
            if r.chance(*pt) { tick = r.pick(&[125, 125, 1000, 2000, 50_000]); }
            if let Some(k) = changes.iter().position(|&c| c == step) { if let Some(m) = me { prio[m] = -(k as i64) - 1; } }
            *ready.iter().max_by_key(|&&i| prio[i]).unwrap()
        }
    };
    if tick > 0 {
        st.now += tick;
        st.stalls += tick;
        st.rec.push((step, Choice::Tick(tick)));
        st.fault(if tick >= 50_000 { "thread_stalled_for_long" } else { "time_passes_between_operations" });
        st.mix(tick);
    }
    if want != default { st.rec.push((step, Choice::Switch(want as u8))); }
    Some(want)
}

fn reschedule(run: &Arc<Run>, me: usize, block: Option<usize>) {
    if run.free.load(SeqCst) {
        if block.is_some() { std::thread::yield_now(); }
        return;
    }
    let lib = alloc::in_lib(false);
    let next = {
        let mut st = run.st.lock().unwrap();
        if st.done { drop(st); park_forever(); }
        st.step += 1;
        run.progress.store(st.step, SeqCst);
        if st.step > MAX_STEPS {
            drop(st);
            run.fail("hang", format!("{MAX_STEPS} operations on shared state without an end"));
            park_forever();
        }
        if let Some(a) = block { st.th[me] = Th::Blocked(a); }
        match choose(&mut st, Some(me)) {
            Some(n) => {
                if n != me { st.switches += 1; st.cur = n; }
                let h = (st.step as u64) << 8 | n as u64;
                if n != me { st.mix(h); }
                n
            }
            None => {
                let n = st.th.iter().filter(|t| matches!(t, Th::Blocked(_))).count();
                drop(st);
                run.fail("deadlock", format!("{n} threads wait for locks, and no other thread is left"));
                park_forever();
            }
        }
    };
    if next != me {
        run.gates[next].open();
        run.gates[me].pass();
    }
    alloc::in_lib(lib);
}

impl wasmtimer::sim::Simulator for Sim {
    fn point(&self) {
        if std::thread::panicking() { return; }
        if let Some((run, me)) = cur() { reschedule(&run, me, None); }
    }
    fn blocked(&self, address: usize) {
        match cur() {
            Some((run, me)) if !std::thread::panicking() => reschedule(&run, me, Some(address)),
            // outside of the threads nobody can release a lock
            _ => {
                if let Some(run) = outside() { run.fail("deadlock", "a lock is held although no thread runs".into()); }
                panic!("a lock is held although no thread runs");
            }
        }
    }
    fn released(&self, address: usize) {
        if let Some((run, _)) = cur() {
            let mut st = run.st.lock().unwrap();
            for t in st.th.iter_mut() { if *t == Th::Blocked(address) { *t = Th::Ready; } }
        }
    }
    fn performance_now(&self) -> f64 {
        let run = cur().map(|c| c.0).or_else(outside);
        match run { Some(r) => r.st.lock().unwrap().now as f64 / 1000.0, None => 0.0 }
    }
    fn set_timeout(&self, f: Box<dyn FnOnce() + Send>, delay: i32) {
        let Some(run) = cur().map(|c| c.0).or_else(outside) else { return };
        let lib = alloc::in_lib(false);
        let mut st = run.st.lock().unwrap();
        st.seq += 1;
        let id = st.seq;
        if delay < 0 { st.violation.get_or_insert(("bad-timeout".into(), format!("setTimeout delay {delay}"))); }
        let j = if st.jit.is_empty() { 0 } else { st.jit[id as usize % st.jit.len()] };
        if j > 0 { st.fault("callback_late"); }
        let due = st.now + delay.max(1) as u64 * 1000 + j;
        st.mix(due);
        st.log(|| format!("  setTimeout {delay} -> #{id} due {due}"));
        st.queue.push(Cb { due, id, f });
        drop(st);
        alloc::in_lib(lib);
    }
}

/// Body of a simulated thread.
pub fn thread_body(run: Arc<Run>, me: usize, f: impl FnOnce(&Arc<Run>, usize)) {
    run.gates[me].pass();
    CUR.with(|c| *c.borrow_mut() = Some((run.clone(), me)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&run, me)));
    alloc::in_lib(false);
    CUR.with(|c| *c.borrow_mut() = None);
    if r.is_err() {
        run.fail("panic", last_panic());
        return;
    }
    if run.free.load(SeqCst) {
        if run.finished.fetch_add(1, SeqCst) + 1 == run.gates.len() as u64 { run.signal_main(); }
        return;
    }
    run.finished.fetch_add(1, SeqCst);
    let mut st = run.st.lock().unwrap();
    if st.done { return; }
    st.th[me] = Th::Done;
    if st.th.iter().all(|t| *t == Th::Done) {
        drop(st);
        run.signal_main();
        return;
    }
    st.step += 1;
    match choose(&mut st, None) {
        Some(n) => { st.cur = n; drop(st); run.gates[n].open(); }
        None => { drop(st); run.fail("deadlock", "every remaining thread waits for a lock".into()); }
    }
}
