// How much each check runs, and what it says about itself.
const ALL = ['dev', 'tu', 'rel', 'turel'], TU = ['tu', 'turel'];
const q = (quick, variants = ALL) => ({ quick: quick * 5, thorough: quick * 200, variants });
export const PLAN = {
  C01: q(16000), C02: q(22000), C03: q(16000), C04: q(18000), C05: q(10000), C06: q(24000),
  C07: q(8000), C08: q(14000), C09: q(26000), C10: q(24000, TU), C11: q(20000, TU), C12: q(12000, TU),
  C13: q(20000), C14: q(20000), C15: q(20000), C16: q(34000), C17: q(20000), C18: q(26000), C19: q(26000),
  C20: q(20000), C23: q(11000), C24: q(8000),
};
export const RULE = (p) => 'Each run is generated from hash(seed, property, index): a random host (clock resolution, minimum and jittered timeout delays, early callbacks, throttling, ...), a random subset of operations and a random sequence of operations, host progress and faults; '
  + 'then faults stop and everything outstanding has to complete. A run is non-trivial if at least one fault fired and at least one completion, tick, yielded entry or checked value was judged.';
export const REAL = ['all of wasmtimer (Instant, SystemTime, Timer, Sleep, Interval, Timeout, DelayQueue, test clock) compiled to wasm32-unknown-unknown with its shipped wasm-bindgen glue', 'wasm-bindgen, js-sys, futures, parking_lot, slab'];
export const STUB = ['JavaScript host: performance.now, setTimeout, clearTimeout, Date (simulated)', 'task executor and wakers (simulated)', 'inner futures of timeouts (scripted)'];
export const ASSUMPTIONS = [
  'the host calls every requested callback exactly once and never before its delay is over by more than 1 ms',
  'host latency is bounded by what the run configures; bounds on lateness are two such latencies plus 2 ms',
  'one program instance has one thread (properties C21 and C22 cover threads)',
];

// ---------------------------------------------------------------- thread schedules (native build)
export const THREAD_PLAN = { C21: { quick: 280000, thorough: 11000000 }, C22: { quick: 300000, thorough: 12000000 } };
export const THREAD_RULE = 'Each run is generated from hash(seed, property, index): two to four threads with random programs over shared sleeps (create, poll, reset, drop, read the clock, run the callbacks of the host, pause/advance/resume), and a random schedule (uniform or priority based) that decides at every atomic operation and lock which thread continues, and where time passes; '
  + 'then the host is responsive and everything has to complete, and be freed. A run counts as distinct by its schedule if at least one switch and one completion happened.';
export const THREAD_REAL = ['Instant, Timer, Sleep, ArcList, heap, global timer and test clock of wasmtimer, native build with --cfg wasmtimer_sim (atomics and locks announce every operation)'];
export const THREAD_STUB = ['JavaScript host: performance.now, setTimeout (simulated)', 'wakers (simulated)', 'futures::task::AtomicWaker is real, but each of its operations is one step', 'OS scheduler: real threads of which exactly one is released at a time'];
export const THREAD_ASSUMPTIONS = [
  'threads interleave between atomic operations and locks, sequentially consistent: no weak memory effects',
  'time that passes while a thread is stalled within a call counts towards the allowed lateness',
  'every thread shares the clock and the timeouts of one host',
];
