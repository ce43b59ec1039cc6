// The simulated JavaScript host: one clock, one timer queue, one wall clock, all driven by the run's trace.
// Host time `t` is in integer microseconds. The library reads `performance.now()` (t + perf offset, at the
// configured resolution) and gets callbacks at the moments the fault model decides.
import { HOSTS } from './inst.mjs';

export const MAX_DELAY = 2147483647;

export class Hang extends Error { }

export class Host {
  constructor(cfg) {
    this.t = 0;                               // true host time, us
    this.perfOff = cfg.perf0 ?? 1000000;      // performance.now() origin, us
    this.res = cfg.res ?? 1;                  // resolution of performance.now(), us
    this.frac = cfg.frac ?? 0;                // 1: sub-microsecond digits in performance.now()
    this.tick = cfg.tick ?? 0;                // us that pass on every reading
    this.clamp = cfg.clamp ?? 1;              // minimum delay, ms
    this.nest = cfg.nest ?? 0;                // minimum delay (ms) from the 5th nested timeout on
    this.throttle = cfg.throttle ?? 0;        // background tab: callbacks only on multiples of this, ms
    this.jit = cfg.jit ?? [];                 // extra delay of the n-th timeout request, us (cyclic)
    this.early = cfg.early ?? [];             // how early the n-th timeout may fire, us (cyclic, < 1 ms)
    this.kind = HOSTS[cfg.hk ?? 0];           // browser, worker, node, ...
    this.illegal = null;
    this.wall = cfg.wall0 ?? 1700000000000;   // Date.now() at t = 0, ms
    this.cost = cfg.cost ?? 0;                // us that pass between callbacks
    this.q = [];
    this.seq = 0;
    this.run = 0;                             // responsive host time, us
    this.faults = {};
    this.reads = 0;                           // clock readings in the current call into the library
    this.requests = 0;
    this.bad = null;
    this.depth = 0;                           // nesting level of the running callback
    this.delivered = 0;
    this.log = null;
    this.onTime = () => { };
  }
  fault(k, n = 1) { this.faults[k] = (this.faults[k] ?? 0) + n; }
  perfUs() { return this.t + this.perfOff; }
  /// what performance.now() shows now, without side effects, in ms
  perfPeek() {
    const u = this.perfUs();
    if (this.res > 1) return Math.floor(u / this.res) * this.res / 1000;
    return this.frac ? (u + (1 + (u * 7 + 3) % 8) / 10) / 1000 : u / 1000;
  }
  /// what Instant::now() should show on the running clock, us
  clockUs() { return Math.trunc(this.perfPeek() * 1000); }
  perfNow() {
    if (++this.reads > 200000) throw new Hang('clock read 200000 times within one call');
    if (this.tick && this.started) { this.move(this.tick, true); this.fault('clock_moves_during_call'); }
    return this.perfPeek();
  }
  dateNow() { return Math.floor(this.wall + this.t / 1000); }
  move(us, responsive) {
    const before = this.t;
    this.t += us;
    if (responsive) this.run += us;
    this.onTime(before, this.t, responsive);
  }
  setTimeout(cb, ms) {
    const id = ++this.seq;
    if (++this.reads > 200000) throw new Hang('200000 host requests within one call');
    if (typeof cb !== 'function') this.bad ??= `callback is ${typeof cb}`;
    if (typeof ms !== 'number' || !Number.isInteger(ms) || ms < 0 || ms > MAX_DELAY) {
      this.bad ??= `setTimeout delay ${String(ms)}`;
      ms = 1;
    }
    this.requests++;
    let d = Math.max(ms, this.clamp, this.depth >= 5 ? this.nest : 0) * 1000;
    if (ms < this.clamp) this.fault('delay_clamped');
    else if (this.depth >= 5 && ms < this.nest) this.fault('delay_clamped_nested');
    const j = this.jit.length ? this.jit[id % this.jit.length] : 0;
    if (j) { d += j; this.fault('callback_late'); }
    const e = this.early.length ? this.early[id % this.early.length] : 0;
    if (e && d > e) { d -= e; this.fault('callback_early'); }
    if (d < 10) d = 10;
    let due = this.t + d;
    if (this.throttle) {
      const q = this.throttle * 1000, r = Math.ceil(due / q) * q;
      if (r !== due) { this.fault('callback_throttled'); due = r; }
    }
    const ent = { due, id, cb, depth: this.depth + 1, ms, at: this.t };
    // insertion into a list sorted by (due, id); lists are short
    let i = this.q.length;
    while (i > 0 && this.q[i - 1].due > due) i--;
    if (i !== this.q.length) this.fault('callback_reordered');
    this.q.splice(i, 0, ent);
    if (this.log) this.log(`setTimeout ${ms} -> #${id} due ${due}`);
    if (!this.kind.objects) return id;
    // Node.js: an object, and the program ends once none of those outstanding keeps it alive
    return { id, [Symbol.toPrimitive]() { return id; }, unref() { ent.unref = true; return this; }, ref() { ent.unref = false; return this; }, hasRef() { return !ent.unref; } };
  }
  clearTimeout(id) {
    const n = typeof id === 'object' && id ? id.id : id;
    const i = this.q.findIndex((e) => e.id === n);
    if (i >= 0) this.q.splice(i, 1);
  }
}
