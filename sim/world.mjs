// One simulated run: executes a trace of operations and host events against a fresh program instance and
// judges every observation against small reference models. All model instants are ns relative to `init`.
import { Host, Hang } from './host.mjs';
import { instantiate } from './inst.mjs';

const PENDING = -(2n ** 63n), BUSY = PENDING + 7n;
export const SLEPT = 1099511627776, NESTED_ERR = 2199023255552;
const MS = 1e6;

/// offsets of a crowd: ['...', n, base, unit, order, seed]
function spread([, n, base, unit, order, seed]) {
  if (order === 1) return (i) => base + i * unit;
  if (order === 2) return (i) => base + (n - i) * unit;
  if (order === 3) return (i) => base + (i % (1 + seed % 7)) * unit;
  let x = seed >>> 0;
  return () => { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; return base + (x >>> 8) % n * unit; };
}

export class Violation extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
export class Abort extends Error { }
/// the run ends here, with nothing wrong
class Stop extends Error { }

export class World {
  /// report: (kind) => bool, which kinds of violation this property's check reports
  constructor(variants, trace, report, verbose) {
    this.cfg = trace.cfg;
    this.steps = trace.steps;
    this.variants = variants;
    this.report = report;
    this.h = 0x811c9dc5;
    this.ev = 0;
    this.maxEvents = this.cfg.maxEvents ?? 4000;
    this.lines = verbose ? [] : null;
    this.probes = {};
    this.completions = 0;
    this.ops = 0;
    this.violation = null;
    this.hookDepth = 0;
    this.S = []; this.I = []; this.T = []; this.Q = []; this.M = [];
    this.wk = new Map();          // waker id -> object
    this.nextW = 1;
    this.ready = [];
    this.ctx = 0;
    this.lastOpRun = 0;
    this.skew = 0;
    this.quietAt = 0; this.quietN = 0;
    this.live = [];
  }
  // ------------------------------------------------------------------ plumbing
  log(s) { if (this.lines) this.lines.push(`[${this.host?.t ?? 0}] ${s}`); }
  mix(...v) { for (const a of v) { this.h = Math.imul(this.h ^ (a | 0) ^ ((a / 4294967296) | 0), 0x01000193) >>> 0; } }
  probe(k, n = 1) { this.probes[k] = (this.probes[k] ?? 0) + n; }
  viol(kind, msg) {
    if (this.violation) throw this.violation;
    const v = new Violation(kind, msg);
    this.log(`!! ${kind}: ${msg}`);
    if (!this.report(kind)) throw new Abort(kind);
    this.violation = v;
    throw v;
  }
  boot() {
    const c = this.cfg;
    this.host = new Host(c);
    if (this.lines) this.host.log = (s) => this.log('  host: ' + s);
    this.host.onTime = (a, b, resp) => this.timeMoved(resp);
    this.panicMsg = null;
    this.start();
    this.L = this.bound();
    this.L0 = this.L; this.switchRun = Infinity;
  }
  start() {
    this.x = instantiate(this.variants[this.cfg.variant], this.host, {
      wake: (id) => this.onWake(id), gone: (id) => this.onGone(id), panic: (m) => { this.panicMsg ??= m; this.log('panic: ' + m); },
    });
    this.host.started = false;
    this.x.init();
    this.baseUs = this.host.clockUs();
    this.host.started = true;
    this.host.reads = 0;
    this.paused = false;
    this.mBase = 0; this.mFrom = this.baseUs;       // clock model: mBase(ns) + host time since mFrom(us)
    this.tu = this.x.has_testutil() === 1;
  }
  /// Host callback latency, us: what a live timer may be late by: two round trips (the request for one that was armed,
  /// and the one after a callback that came early), plus 2 ms for the whole milliseconds of host timeouts.
  bound() {
    const h = this.host, mx = (a) => a.reduce((p, q) => Math.max(p, q), 0);
    return 2 * (Math.max(h.clamp, h.nest, h.throttle) * 1000 + mx(h.jit) + h.res + h.cost + 20) + 2000 + 400 * h.tick + this.skew;
  }
  mclk() {
    if (this.paused) return this.mBase;
    const us = this.host.clockUs() - this.mFrom;
    return this.mBase + (this.tu ? Math.max(0, us) : us) * 1000;
  }
  /// the clock that Instant::now reads, without letting time pass
  clk() {
    const h = this.host, s = h.started; h.started = false;
    const v = Number(this.x.now_ns()); h.started = s; return v;
  }
  timers() { return this.live; }
  timeMoved(responsive) {
    const c = this.mclk();
    for (const o of this.live) for (const d of o.dl) if (d.run === null && d.at <= c) {
      d.run = responsive ? Math.max(this.host.run - (c - d.at) / 1000, d.armRun) : this.host.run;
    }
  }
  mkdl(at) { const c = this.mclk(); return { at, armRun: this.host.run, run: at <= c ? this.host.run : null, back: 0 }; }
  lateBy(d) { return d.run === null ? -1 : this.host.run - d.run - d.back; }
  lim(d) { return d.run !== null && d.run >= this.switchRun ? this.L : this.L0; }
  must(d, k = 1) { return d.run !== null && this.host.run - d.run > k * this.lim(d); }
  // ------------------------------------------------------------------ wakers
  newWaker(o) { const id = this.nextW++; this.wk.set(id, o); o.w = id; return id; }
  onWake(id) {
    const o = this.wk.get(id);
    this.mix(11, id, this.host.t);
    this.log(`  wake #${id}${o ? ' ' + o.name : ''}`);
    if (!o) return;
    if (o.gone && o !== this.dropping) this.viol('wake-after-drop', `${o.name} was dropped, but its waker #${id} was woken`);
    if (id === o.w) {
      o.woken = true; o.wokenAt = this.host.run;
      if (o.kind === 's' && o.pend) {
        if (!this.hookDepth && !this.cfg.hooks) {
          const d = o.dl[0].at;
          if (d < this.lastWakeD) this.viol('order', `${o.name} (deadline ${d}) was woken after a sleep with deadline ${this.lastWakeD} in the same callback`);
          this.lastWakeD = d;
          this.ctxWakes++;
          const c = Math.max(this.clk(), o.maxClk);
          if (c < d) this.viol('early', `${o.name} was woken at ${c}, before its deadline ${d}`);
        }
      }
      if (this.cfg.exec !== 0 && !o.queued) { o.queued = true; this.ready.push(o); }
    }
    if (o.hook && id === o.w) { const h = o.hook; o.hook = null; this.runHook(h, 'wake'); }
  }
  onGone(id) {
    const h = this.goneHooks?.get(id);
    if (h) { this.goneHooks.delete(id); this.runHook(h, 'waker drop'); }
  }
  runHook(ops, why) {
    if (this.hookDepth > 3 || this.ending) return;
    this.hookDepth++;
    this.probe('reentrant_calls');
    this.host.fault('reentrant_waker');
    this.log(`  reentrant ops in ${why}`);
    try { for (const s of ops) this.op(s); } finally { this.hookDepth--; }
  }
  // ------------------------------------------------------------------ running the host
  enter() { this.ctx++; this.lastWakeD = -Infinity; this.ctxWakes = 0; this.host.reads = 0; }
  deliver() {
    const e = this.host.q[0], h = this.host;
    if (e.unref && !this.paused && h.q.every((c) => c.unref)) {
      const far = this.mclk() + this.L0 * 1000, o = this.live.find((o) => o.pend && o.dl.some((d) => d.at > far));
      if (o) this.viol('host-exit', `no outstanding timeout keeps the program alive, although ${o.name} is being waited for`);
    }
    h.q.shift();
    if (e.due > h.t) h.move(e.due - h.t, true);
    const before = h.requests;
    this.log(`callback #${e.id}`);
    this.mix(7, h.t);
    this.enter();
    h.depth = e.depth; h.delivered++;
    e.cb();
    h.depth = 0;
    if (h.cost) h.move(h.cost, true);
    if (this.cfg.spinCheck) this.spin(h.requests - before);
    this.after();
    if (++this.ev > this.maxEvents) { this.probe('event_cap'); throw new Abort('events'); }
  }
  /// Requests for callbacks made while nothing is near must stay rare.
  spin(n) {
    const h = this.host, c = this.mclk(), near = (this.L0 + 20000) * 1000;
    if (this.lastOpRun !== this.quietOp || this.live.some((o) => o.dl.some((d) => Math.abs(d.at - c) < near))) {
      this.quietOp = this.lastOpRun; this.quietAt = h.t; this.quietN = 0; return;
    }
    this.quietN += n;
    const lim = 40 + 12 * (h.t - this.quietAt) / 1e6;
    if (this.quietN > lim) this.viol('spin', `${this.quietN} host timeouts requested within ${h.t - this.quietAt} us while no deadline was within ${near / MS} ms`);
  }
  /// Lets the host run for `us`, delivering what falls due.
  runFor(us) {
    const h = this.host, end = h.t + us;
    let idle = 0;
    while (h.q.length && h.q[0].due <= end) {
      // nothing is armed: let the host suspend the program for most of the time
      if (end - h.t > 60e6 && !this.armed()) { if (++idle > 60) { idle = 0; h.fault('suspend'); h.move(end - h.t - 20e6, false); } } else idle = 0;
      this.deliver();
    }
    if (h.t < end) { h.move(end - h.t, true); this.after(); }
  }
  armed() {
    const c = this.mclk();
    return this.live.some((o) => o.kind === 's' ? !o.el : !o.resolved && !(o.woken && this.cfg.exec !== 1) && o.dl.some((d) => d.at > c || d.run === null || this.host.run - d.run < 2 * this.L0));
  }
  after() {
    this.observe();
    if (this.cfg.exec === 1) this.drainReady();
  }
  drainReady() {
    let n = 0;
    while (this.ready.length) {
      if (++n > 3000) { this.probe('ready_cap'); return; }
      const o = this.ready.shift();
      o.queued = false;
      if (o.gone) continue;
      this.enter();
      this.pollObj(o, false);
      this.observe();
    }
  }
  pollObj(o, fresh) {
    switch (o.kind) {
      case 's': if (!o.done) this.pollSleep(o, fresh); break;
      case 'i': this.pollInterval(o, fresh); break;
      case 't': if (!o.resolved) this.pollTimeout(o, fresh); break;
      case 'q': this.pollQueue(o, fresh); break;
    }
  }
  // ------------------------------------------------------------------ global observation after every event
  observe() {
    if (this.hookDepth) return;
    const h = this.host;
    if (h.bad) this.viol('bad-timeout', h.bad);
    if (h.illegal) this.viol('host-call', `${h.illegal} (host kind ${h.kind.name})`);
    let maxNew = -Infinity, who = null;
    for (const s of this.S) {
      const e = this.x.sleep_is_elapsed(s.id);
      if (e === BUSY) continue;
      const d = s.dl[0];
      if (e === 1n) {
        if (!s.el) {
          s.el = true;
          this.completions++;
          this.mix(1, s.n, h.t);
          this.log(`  ${s.name} is elapsed`);
          const c = Math.max(this.clk(), s.maxClk);
          if (c < d.at) this.viol(s.resets ? 'early-reset' : 'early', `${s.name} elapsed at ${c}, deadline ${d.at}`);
          if (s.pend && !s.woken) this.viol('lost-wake', `${s.name} completed but waker #${s.w} of its last poll was not woken`);
          if (this.must(d) && !this.paused) this.viol('late', `${s.name} completed ${this.lateBy(d)} us after it was due, bound ${this.lim(d)}`);
          if (this.lateBy(d) > 0) this.probe('late_us_max', Math.max(0, this.lateBy(d) - (this.probes.late_us_max ?? 0)));
          if (s.armCtx < this.ctx && d.at > maxNew) { maxNew = d.at; who = s; }
        }
      } else {
        if (s.el) this.viol('sticky', `${s.name} was elapsed and is not any more, without a reset`);
        if (s.done) this.viol('sticky', `${s.name} completed when polled but is_elapsed is false`);
        if (this.paused) {
          if (this.settled() && d.at <= this.mclk() && !this.cfg.hooks) this.viol('advance-missed', `${s.name} deadline ${d.at} reached on the paused clock ${this.mclk()}, not complete`);
        } else if (this.must(d)) this.viol('late', `${s.name} still not complete ${this.lateBy(d)} us after it was due (deadline ${d.at}), bound ${this.lim(d)}`);
      }
    }
    if (who) for (const s of this.S) {
      if (!s.el && s.armCtx < this.ctx && s.dl[0].at < maxNew && !this.cfg.hooks) this.viol('order', `${who.name} (deadline ${maxNew}) completed while ${s.name} (deadline ${s.dl[0].at}) did not`);
    }
    if (this.ctxWakes > 1) this.probe('multi_wake_callbacks');
    for (const o of this.I) if (!this.paused && o.pend && !o.woken && this.must(o.dl[0]))
      this.viol('i-lost-wake', `${o.name} tick due ${o.dl[0].at} passed ${this.lateBy(o.dl[0])} us ago, its task was not woken`);
    for (const o of this.T) if (!this.paused && o.pend && !o.woken) for (const d of o.dl) if (this.must(d))
      this.viol('t-lost-wake', `${o.name} deadline ${d.at} passed ${this.lateBy(d)} us ago, its task was not woken`);
    for (const q of this.Q) this.queueLive(q);
    if (this.cfg.pendCap) {
      const n = h.q.length;
      if (n > (this.maxPend ?? 0)) { this.maxPend = n; this.probes.pending_max = Math.max(this.probes.pending_max ?? 0, n); }
      if (n > this.cfg.pendCap + this.recentOps()) this.viol('many-timeouts', `${n} host timeouts outstanding after ${this.ops} operations`);
    }
  }
  recentOps() { return this.opTimes ? this.opTimes.filter((r) => this.host.run - r <= this.L0).length : 0; }
  /// On the paused clock: has the host, responsive since, had time to run the callbacks it owed?
  settled() { return this.paused && !this.hookDepth && (this.pauseSettled || this.host.run - this.pauseRun > this.L0); }
  // ------------------------------------------------------------------ operations
  pick(list, k) {
    if (this.hookDepth && (list === this.I || list === this.T || list === this.Q)) list = list.filter((o) => !this.x.obj_busy(o.id));
    return list.length ? list[((k % list.length) + list.length) % list.length] : null;
  }
  /// would time pass the point up to which double precision numbers of ns in whole us are exact?
  far(us) { return !this.cfg.long && this.mclk() + us * 1000 > 8e15; }
  step(s) {
    this.enter();
    this.op(s);
    this.after();
  }
  off(rel) {           // absolute instant from an offset to now, kept representable
    return Math.max(this.clk() + rel, ((this.cfg.res ?? 1) - (this.cfg.perf0 ?? 1000000)) * 1000 + 10000);
  }
  touched() { this.lastOpRun = this.host.run; this.opTimes?.push(this.host.run); this.ops++; }
  op(s) {
    const h = this.host;
    this.log(JSON.stringify(s));
    this.mix(3, h.t);
    switch (s[0]) {
      // sleeps
      case 's': return this.addSleep(() => this.x.sleep_new(BigInt(s[1])), s[1], null);
      case 'su': { const o = this.off(s[1]); return this.addSleep(() => this.x.sleep_until(BigInt(o)), 0, o); }
      case 'sx': { const b = this.pick(this.S, s[1]); if (!b) return; const o = Math.max(this.off(-1e15), b.dl[0].at + s[2]); return this.addSleep(() => this.x.sleep_until(BigInt(o)), 0, o); }
      case 'p': { const o = this.pick(this.S, s[1]); if (o) this.pollSleep(o, s[2]); return; }
      case 'r': { const o = this.pick(this.S, s[1]); if (o) this.resetSleep(o, this.off(s[2])); return; }
      case 'rd': { const o = this.pick(this.S, s[1]); if (o) this.resetSleep(o, Math.max(this.off(-1e15), o.dl[0].at + s[2])); return; }
      case 'd': { const o = this.pick(this.S, s[1]); if (o) this.dropObj(o, this.S); return; }
      // crowds: many operations within one step
      case 'crowd': { // [n, base, unit, order, seed, share polled of 4]
        const g = spread(s);
        for (let i = 0; i < s[1]; i++) { const a = this.off(g(i)); const o = this.addSleep(() => this.x.sleep_until(BigInt(a)), 0, a); if (i % 4 < s[6]) this.pollSleep(o, false); }
        this.probe('crowd_sleeps', s[1]); return;
      }
      case 'cull': { // [first, stride, n]: drops
        for (let i = 0; i < s[3] && this.S.length; i++) this.dropObj(this.pick(this.S, s[1] + i * s[2]), this.S);
        this.probe('crowd_drops'); return;
      }
      case 'move': { // [n, base, unit, order, seed, first, stride]: resets
        const g = spread(s);
        for (let i = 0; i < s[1] && this.S.length; i++) { const o = this.pick(this.S, s[6] + i * s[7]); this.resetSleep(o, this.off(g(i))); if (i & 1) this.pollSleep(o, false); }
        this.probe('crowd_resets'); return;
      }
      case 'qcrowd': { const q = this.pick(this.Q, s[6]), g = spread(s); if (q) for (let i = 0; i < s[1]; i++) this.qInsertAt(q, this.off(g(i))); this.probe('crowd_inserts'); return; }
      case 'qmove': { const q = this.pick(this.Q, s[6]), g = spread(s); if (q) for (let i = 0; i < s[1]; i++) this.qReset(q, s[7] * i, 1, g(i)); return; }
      case 'qcull': { const q = this.pick(this.Q, s[1]); if (q) for (let i = 0; i < s[3]; i++) this.qRemove(q, i & 1, s[2] * i); return; }
      case 'wr': { const o = this.pick(this.S, s[1]); if (o && o.w) this.x.waker_release(o.w); return; }
      case 'hook': { const o = this.pick(s[1] % 4 ? this.S : [...this.I, ...this.T, ...this.Q, ...this.S], s[1] >> 2); if (o) o.hook = s[2]; return; }
      case 'gone': {   // give up our own reference, so that the library drops the last one
        const o = this.pick(s[1] % 4 ? this.S : [...this.I, ...this.T, ...this.S], s[1] >> 2);
        if (o && o.w && o.pend) { (this.goneHooks ??= new Map()).set(o.w, s[2]); this.x.waker_release(o.w); }
        return;
      }
      // intervals
      case 'i': {
        this.touched();
        const rel = s[2], a = rel === null ? this.clk() : this.off(rel);
        const id = rel === null ? this.x.interval_new(BigInt(s[1])) : this.x.interval_at(BigInt(a), BigInt(s[1]));
        const o = { kind: 'i', id, n: id, name: `interval${id}`, dl: [this.mkdl(a)], period: s[1], beh: 0, pend: false, woken: false, ticks: 0, start: a };
        this.newWaker(o); this.I.push(o); this.live.push(o);
        if (Number(this.x.interval_get(id)) !== 0) this.viol('i-beh', 'default missed tick behaviour is not Burst');
        return;
      }
      case 'ip': { const o = this.pick(this.I, s[1]); if (o) this.pollInterval(o, s[2]); return; }
      case 'it': { const o = this.pick(this.I, s[1]); if (o) this.pollInterval(o, 0, s[2]); return; }
      case 'ir': {
        const o = this.pick(this.I, s[1]); if (!o) return;
        this.touched(); this.x.interval_reset(o.id);
        o.dl = [this.mkdl(this.clk() + o.period)]; o.pend = false; o.burst = false;
        this.probe('interval_reset');
        return;
      }
      case 'ib': {
        const o = this.pick(this.I, s[1]); if (!o) return;
        this.x.interval_set(o.id, s[2]); o.beh = s[2]; this.probe('behaviour_' + s[2]);
        if (Number(this.x.interval_get(o.id)) !== s[2]) this.viol('i-beh', 'missed_tick_behavior does not return what was set');
        return;
      }
      case 'id': { const o = this.pick(this.I, s[1]); if (o) this.dropObj(o, this.I); return; }
      // timeouts
      case 't': return this.addTimeout(s);
      case 'tp': { const o = this.pick(this.T, s[1]); if (o && !o.resolved) this.pollTimeout(o, s[2]); return; }
      case 'tc': {
        const m = this.pick(this.M.filter((m) => !m.ready), s[1]); if (!m) return;
        m.ready = true; m.v = this.M.indexOf(m) + 100; this.probe('inner_completed');
        this.x.manual_complete(m.id, m.v);
        for (const o of this.T) if (o.pend && !o.woken && o.mans.includes(m) && m.polled) this.viol('t-lost-wake', `inner future of ${o.name} completed but its task was not woken`);
        return;
      }
      case 'td': { const o = this.pick(this.T, s[1]); if (o) this.dropTimeout(o); return; }
      case 'ti': { const o = this.pick(this.T, s[1]); if (o) this.intoInner(o, s[2]); return; }
      // delay queues
      case 'q': {
        if (this.cfg.keepQueue && this.Q.length) return;
        const id = this.x.dq_new(s[1]);
        const o = { kind: 'q', id, n: id, name: `queue${id}`, dl: [], ents: new Map(), gone_: [], wait: null, inserts: 0, start: this.clk(), lastRun: this.host.run };
        this.newWaker(o); this.Q.push(o); this.live.push(o);
        return;
      }
      case 'qi': { const q = this.pick(this.Q, s[1]); if (q) this.qInsert(q, s[2], s[3]); return; }
      case 'qb': { // insert at an exact age of the queue (ms) plus ns
        const q = this.pick(this.Q, s[1]); if (q) this.qInsertAt(q, q.start + s[2] * MS + s[3]); return; }
      case 'qp': { const q = this.pick(this.Q, s[1]); if (q) this.pollQueue(q, s[2], s[3]); return; }
      case 'qr': case 'qx': { const q = this.pick(this.Q, s[1]); if (q) this.qRemove(q, s[0] === 'qx', s[2]); return; }
      case 'qstale': { const q = this.pick(this.Q, s[1]); if (q) this.qStale(q, s[2]); return; }
      case 'qs': { const q = this.pick(this.Q, s[1]); if (q) this.qReset(q, s[2], s[3], s[4]); return; }
      case 'qgone': { const q = this.pick(this.Q, s[1]); if (q) this.qGoneKey(q, s[2], s[3]); return; }
      case 'qbig': { const q = this.pick(this.Q, s[1]); if (q) this.qBeyond(q, s[2], s[3], s[4]); return; }
      case 'qa': { const q = this.pick(this.Q, s[1]); if (q) this.qAdmin(q, s[2]); return; }
      case 'qd': { const q = this.pick(this.Q, s[1]); if (q) this.dropQueue(q); return; }
      // executor
      case 'x': return this.drainReady();
      // host
      case 'run': return this.far(s[1]) ? undefined : this.runFor(s[1]);
      case 'next': { for (let i = 0; i < s[1] && h.q.length && !this.far(h.q[0].due - h.t); i++) this.deliver(); return; }
      case 'stall': h.fault('stall'); h.move(s[1], false); return;
      case 'jump': if (this.far(s[1])) return; h.fault('clock_jump_forward'); h.move(s[1], false); return;
      case 'skew': h.fault('clock_skew_forward'); h.perfOff += s[1]; this.skew += s[1]; this.L0 += s[1]; this.timeMoved(false); return;
      case 'back': {
        if (h.perfUs() <= s[1] + 100000) return;
        const c = this.clk();
        for (const o of this.live) if (o.kind === 's') o.maxClk = Math.max(o.maxClk, c);
        h.fault('clock_step_back'); h.perfOff -= s[1];
        for (const o of this.live) for (const d of o.dl) d.run = d.at <= this.mclk() ? this.host.run : null;
        return;
      }
      case 'wall': h.fault(s[1] < 0 ? 'wall_step_back' : 'wall_step_forward'); h.wall += s[1]; return;
      case 'dbg': { const o = this.pick([...this.S, ...this.I, ...this.Q], s[1]); if (o) { this.x.obj_debug(o.id); this.probe('debug_output'); } return; }
      // test clock
      case 'mis': if (this.tu) this.misuse(s[1], s[2]); return;
      case 'pause': if (this.tu && !this.paused && !this.own) this.doPause(); return;
      case 'resume': if (this.tu && this.paused && !this.own) this.doResume(); return;
      case 'adv': if (this.tu && this.paused && !this.own && !this.far(s[1] / 1000)) this.doAdvance(s[1]); return;
      case 'now': return this.chkClock();
      default: return this.op2(s);
    }
  }
  // ------------------------------------------------------------------ sleeps
  addSleep(mk, dur, abs) {
    this.touched();
    const lo = this.clk();
    const id = mk();
    const hi = this.clk();
    const D = Number(this.x.sleep_deadline(id));
    if (abs === null ? D < lo + dur || D > hi + dur : D !== abs)
      this.viol('deadline', `new sleep reports deadline ${D}, expected ${abs ?? lo + dur}`);
    const o = { kind: 's', id, n: id, name: `sleep${id}`, dl: [this.mkdl(D)], armCtx: this.ctx, el: false, pend: false, woken: false,
      done: false, resets: 0, maxClk: -Infinity };
    this.newWaker(o);
    this.S.push(o); this.live.push(o);
    return o;
  }
  pollSleep(o, fresh) {
    const oldW = o.w, oldWoken = o.woken;
    if (fresh) this.newWaker(o);
    o.woken = false;
    const r = this.x.sleep_poll(o.id, o.w);
    if (r === BUSY) { o.w = oldW; o.woken = oldWoken; return; }
    if (r === 1n) {
      const c = Math.max(this.clk(), o.maxClk), d = o.dl[0];
      if (c < d.at) this.viol(o.resets ? 'early-reset' : 'early', `${o.name} ready at ${c}, deadline ${d.at}`);
      o.done = true; o.pend = false;
      if (this.cfg.dropDone && !this.hookDepth && this.S.includes(o)) this.dropObj(o, this.S);
    } else {
      if (o.el || o.done) this.viol('sticky', `${o.name} had completed, but polling it returned Pending`);
      o.pend = true;
    }
    this.mix(2, o.n, Number(r));
  }
  resetSleep(o, at) {
    this.touched();
    const was = o.el, old = { ...o };
    // the paused clock completes timers within the call
    o.dl = [this.mkdl(at)]; o.armCtx = this.ctx; o.resets++; o.done = false; o.pend = false; o.el = false; o.maxClk = -Infinity;
    if (this.x.sleep_reset(o.id, BigInt(at)) === BUSY) return void Object.assign(o, { dl: old.dl, armCtx: old.armCtx, resets: old.resets, done: old.done, pend: old.pend, el: old.el, maxClk: old.maxClk });
    this.probe(was ? 'reset_after_completion' : 'reset_before_completion');
    const D = Number(this.x.sleep_deadline(o.id));
    if (D !== at) this.viol('deadline-reset', `${o.name} reports deadline ${D} after reset to ${at}`);
    if (this.x.sleep_is_elapsed(o.id) === 1n && this.clk() < at) this.viol('early-reset', `${o.name} is elapsed right after reset to ${at}, clock ${this.clk()}`);
  }
  forget(o, list) { let i = list.indexOf(o); if (i >= 0) list.splice(i, 1); i = this.live.indexOf(o); if (i >= 0) this.live.splice(i, 1); }
  dropObj(o, list) {
    this.touched();
    if (this.hookDepth && o.kind === 's' && this.x.sleep_is_elapsed(o.id) === BUSY) return;
    o.hook = null;
    const dead = o.dl[0] && o.dl[0].at <= this.mclk();
    this.probe(o.el ? 'drop_completed' : dead ? 'drop_due' : 'drop_waiting');
    o.gone = true;
    this.forget(o, list);
    this.x.obj_drop(o.id);
  }
  // ------------------------------------------------------------------ intervals
  pollInterval(o, fresh, viaTick) {
    if (fresh) this.newWaker(o);
    const now = this.clk(), d = o.dl[0];
    const r = viaTick ? this.x.interval_tick(o.id, o.w, viaTick) : this.x.interval_poll(o.id, o.w);
    if (r === PENDING) {
      if (!this.paused && this.must(d)) this.viol('i-late', `${o.name} tick due ${d.at} still pending ${this.lateBy(d)} us later`);
      if (this.settled() && d.at <= now) this.viol('i-late', `${o.name} tick due ${d.at} pending on the paused clock ${now}`);
      o.pend = !viaTick; o.woken = false;
      if (viaTick) this.probe('tick_future_abandoned');
      return;
    }
    const v = Number(r);
    this.completions++;
    this.mix(4, o.n, v);
    this.log(`  ${o.name} tick ${v}`);
    if (v !== d.at) this.viol('i-schedule', `${o.name} tick ${o.ticks} returned ${v}, expected ${d.at}`);
    if (now < d.at) this.viol('i-early', `${o.name} ticked at ${now}, due ${d.at}`);
    o.ticks++;
    let next = d.at + o.period;
    if (now > d.at + 5 * MS) {
      this.probe('late_tick_' + o.beh);
      if (o.beh === 1) next = now + o.period;
      else if (o.beh === 2) next = now + o.period - ((now - d.at) % o.period);
    } else if (now > d.at) this.probe('slightly_late_tick_' + o.beh);
    o.dl = [this.mkdl(next)];
    o.pend = false;
    this.touched();
    if (Number(this.x.interval_period(o.id)) !== o.period) this.viol('i-schedule', 'period changed');
    if (this.cfg.exec === 1 && !o.queued) { o.queued = true; this.ready.push(o); }
  }
  // ------------------------------------------------------------------ timeouts
  addTimeout(s) { // ['t', rel, kind, arg, abs]
    this.touched();
    const kind = s[2], rel = s[1];
    let inner, arg = s[3], mans = [];
    if (kind === 0) {
      const m = { id: this.x.manual_new(), ready: false, polled: false, drops: 0 };
      this.M.push(m); inner = { kind: 0, m }; arg = m.id; mans = [m];
    } else if (kind === 2) {
      const t = this.pick(this.T.filter((t) => !t.resolved && !t.polled), arg);
      if (!t) return;
      inner = { kind: 2, node: t.node }; arg = t.id; mans = t.mans;
      this.forget(t, this.T); t.gone = true;
    }
    const now = this.clk();
    const abs = s[4] ? this.off(rel) : null;
    const id = abs !== null ? this.x.timeout_at(BigInt(abs), kind, BigInt(arg)) : this.x.timeout_new(BigInt(Math.max(0, rel)), kind, BigInt(arg));
    if (id === 0xffffffff) throw new Error('timeout construction');
    if (kind === 1) inner = { kind: 1, d: this.mkdl(now + arg) };
    const node = { d: this.mkdl(abs ?? now + Math.max(0, rel)), inner };
    const o = { kind: 't', id, n: id, name: `timeout${id}`, node, mans, dl: this.tdl(node), pend: false, woken: false, resolved: false, polled: false };
    this.newWaker(o); this.T.push(o); this.live.push(o);
    if (kind === 0 && Number(this.x.timeout_inner(id, this.ops & 1)) !== arg) this.viol('t-inner', 'get_ref/get_mut give another future');
  }
  tdl(n) { return [n.d, ...(n.inner.kind === 1 ? [n.inner.d] : n.inner.kind === 2 ? this.tdl(n.inner.node) : [])]; }
  /// possible results of polling a timeout now
  tAllowed(n, top, c) {
    let vals = [], pend = true;
    const must = (d) => this.paused ? this.settled() && d.at <= c : this.must(d);
    if (n.inner.kind === 0) { if (n.inner.m.ready) { vals.push(n.inner.m.v); pend = false; } }
    else if (n.inner.kind === 1) { if (c >= n.inner.d.at) vals.push(SLEPT); if (must(n.inner.d)) pend = false; }
    else { const a = this.tAllowed(n.inner.node, false, c); vals = a.vals; pend = a.pend; }
    if (pend) {
      if (c >= n.d.at) vals.push(top ? -1 : NESTED_ERR);
      if (must(n.d)) pend = false;
    }
    return { vals, pend };
  }
  pollTimeout(o, fresh) {
    if (fresh) this.newWaker(o);
    const before = o.mans.map((m) => this.x.manual_stat(m.id, 0));
    const c = this.clk(), al = this.tAllowed(o.node, true, c);
    const r = this.x.timeout_poll(o.id, o.w);
    o.polled = true;
    o.mans.forEach((m, i) => {
      m.polled = true;
      const n = this.x.manual_stat(m.id, 0) - before[i];
      if (n > 1 || this.x.manual_stat(m.id, 1) > 0) this.viol('t-inner', `inner future of ${o.name} polled ${n} times in one poll, ${this.x.manual_stat(m.id, 1)} after completion`);
      if (this.x.manual_stat(m.id, 2) > 0 && !m.ready && r === PENDING) this.viol('t-inner', `inner future of ${o.name} dropped while pending`);
    });
    if (r === PENDING) {
      if (!al.pend) this.viol('t-late', `${o.name} is pending at ${c}, expected one of ${al.vals}`);
      o.pend = true; o.woken = false;
      return;
    }
    const v = Number(r);
    this.log(`  ${o.name} -> ${v}`);
    this.completions++; this.mix(5, o.n, v);
    this.probe(v === -1 ? 'timeout_elapsed' : v === SLEPT ? 'timeout_inner_slept' : v === NESTED_ERR ? 'timeout_nested_elapsed' : 'timeout_ok');
    if (!al.vals.includes(v)) this.viol('t-outcome', `${o.name} resolved to ${v} at ${c}, allowed ${al.vals}${al.pend ? ' or pending' : ''}`);
    if (!al.pend || al.vals.length > 1) this.probe('timeout_contended');
    o.resolved = true; o.pend = false;
    if (this.cfg.dropDone) this.dropTimeout(o);
  }
  dropTimeout(o) {
    this.touched();
    o.gone = true; this.forget(o, this.T);
    const outer = this.dropping;
    this.dropping = o;      // on the paused clock, dropping one of its sleeps can wake the other one
    this.x.obj_drop(o.id);
    this.dropping = outer;
    this.chkDropped(o);
  }
  chkDropped(o) {
    for (const m of o.mans) {
      const n = this.x.manual_stat(m.id, 2);
      if (n !== 1) this.viol('t-inner', `inner future of dropped ${o.name} was dropped ${n} times`);
    }
  }
  intoInner(o, poll) {
    this.touched();
    o.gone = !poll; this.forget(o, this.T);
    const okPoll = poll && !o.resolved;
    const r = this.x.timeout_into_inner(o.id, o.w, okPoll ? 1 : 0);
    o.gone = true;
    if (okPoll && o.node.inner.kind === 0) {
      const m = o.node.inner.m;
      if (m.ready ? Number(r) !== m.v : r !== PENDING) this.viol('t-inner', `into_inner of ${o.name} gave ${r}`);
    }
    this.chkDropped(o);
  }
  // ------------------------------------------------------------------ delay queues
  /// the latest deadline the queue supports: 2^36 - 1 ms after the last expiry it has processed
  qTop(q) { return q.start + ((q.base ?? 0) + 2 ** 36 - 1) * MS; }
  qRefresh(q) { q.dl = [...q.ents.values()].map((e) => e.d); }
  qLen(q) {
    const n = Number(this.x.dq_len(q.id));
    if (n !== q.ents.size) this.viol('q-len', `${q.name}: len ${n}, ${q.ents.size} entries inside`);
  }
  ent(v, at, c) { return { v, lo: at, hi: Math.max(at, c) + MS, d: this.mkdl(at + 999999), arm: this.host.run }; }
  qInsert(q, how, rel) { if (how === 0) this.qInsertAt(q, null, Math.max(0, rel)); else this.qInsertAt(q, this.off(rel)); }
  qInsertAt(q, at, rel) {
    if (at !== null && at < this.off(-1e15)) at = this.off(-1e15);
    this.touched();
    const c = this.clk(), top = this.qTop(q);
    if (c > top) return;
    if (at === null) rel = Math.min(rel, Math.floor((top - c) / MS) * MS); else at = Math.min(at, top);
    const v = Number(at === null ? this.x.dq_insert(q.id, 0, BigInt(rel)) : this.x.dq_insert(q.id, 1, BigInt(at)));
    if (at === null) at = c + rel;
    if (at <= c) this.probe('dq_insert_past');
    for (const e of q.ents.values()) if (this.x.key_eq(e.v, v)) this.viol('q-key', `${q.name}: insert returned a key that is in use`);
    q.ents.set(v, this.ent(v, at, c));
    q.inserts++; q.changed = this.host.run;
    this.qRefresh(q); this.qLen(q);
    this.log(`  value ${v} at ${at}`);
  }
  qWaitChanged(q) { q.changed = this.host.run; }
  outCheck(q, e, v, what) {
    if (v !== e.v) this.viol('q-wrong', `${q.name}: ${what} of value ${e.v} gave value ${v}`);
    const rep = Number(this.x.out(0));
    if (rep < e.lo || rep >= e.hi) this.viol('q-deadline', `${q.name}: ${what} reports deadline ${rep} for value ${v}, requested ${e.lo} (upper ${e.hi})`);
    if (this.x.out(1) !== 1n) this.viol('q-key', `${q.name}: ${what} of value ${v} reports another key`);
    if (this.x.val_drops(v) !== 1) this.viol('q-once', `${q.name}: value ${v} dropped ${this.x.val_drops(v)} times`);
  }
  left(q, v) { q.ents.delete(v); q.gone_.push({ v, at: q.inserts }); if (q.gone_.length > 40) q.gone_.shift(); this.qRefresh(q); }
  pollQueue(q, fresh, how = 0) {
    if (fresh) this.newWaker(q);
    this.touched();
    const c = this.clk();
    q.woken = false;
    const r = this.x.dq_poll(q.id, q.w, how);
    if (!q.polled) { q.polled = true; q.lastRun = this.host.run; }
    if (r === PENDING) {
      if (q.ents.size === 0) this.viol('q-pending-empty', `${q.name} is empty but polling it returned Pending`);
      q.wait = { none: false, since: this.host.run };
      this.mix(8, q.n);
      return;
    }
    const v = Number(r);
    if (v === -1) {
      if (q.ents.size !== 0) this.viol('q-none', `${q.name} returned None with ${q.ents.size} entries inside`);
      q.wait = { none: true, since: this.host.run };
      q.base = Math.max(q.base ?? 0, q.lastOut ?? 0);
      this.probe('dq_none');
      return;
    }
    q.wait = null;
    this.completions++;
    this.mix(6, q.n, v);
    this.log(`  ${q.name} yields ${v}`);
    const e = q.ents.get(v);
    if (!e) this.viol('q-once', `${q.name} yielded value ${v}, which is not inside`);
    if (c < e.lo) this.viol('q-early', `${q.name} yielded value ${v} at ${c}, deadline ${e.lo}`);
    for (const o of q.ents.values()) if (o !== e && o.hi <= e.lo) this.viol('q-order', `${q.name} yielded value ${v} (deadline ${e.lo}) while value ${o.v} (deadline ${o.lo}) was inside`);
    this.outCheck(q, e, v, 'poll');
    q.lastOut = Math.floor((Number(this.x.out(0)) - q.start) / MS);
    q.base = Math.max(q.base ?? 0, q.lastOut - 130);
    if (q.start < c) this.probe('dq_age_log64_' + Math.floor(Math.log2((c - q.start) / MS + 1) / 6));
    this.left(q, v); this.qLen(q);
    q.lastRun = this.host.run;
    if (this.cfg.exec === 1 && !q.queued) { q.queued = true; this.ready.push(q); }
  }
  qPick(q, k) { const a = [...q.ents.values()]; return a.length ? a[((k % a.length) + a.length) % a.length] : null; }
  qRemove(q, tr, k) {
    const e = this.qPick(q, k); if (!e) return;
    this.touched();
    const v = Number(tr ? this.x.dq_try_remove(q.id, e.v) : this.x.dq_remove(q.id, e.v));
    if (tr && v === -1) this.viol('q-wrong', `${q.name}: try_remove of value ${e.v}, still inside, returned None`);
    this.outCheck(q, e, v, 'remove');
    this.left(q, e.v); this.qLen(q); this.qWaitChanged(q);
    this.probe(q.ents.size ? 'dq_remove' : 'dq_remove_last');
  }
  qStale(q, k) {
    const a = q.gone_.filter((g) => g.at === q.inserts);
    if (!a.length) return;
    const g = a[((k % a.length) + a.length) % a.length];
    const v = Number(this.x.dq_try_remove(q.id, g.v));
    this.probe('dq_try_remove_stale');
    if (v !== -1) this.viol('q-stale', `${q.name}: try_remove with the key of value ${g.v}, which has left, returned value ${v}`);
    this.qLen(q);
  }
  qReset(q, k, how, rel) {
    const e = this.qPick(q, k); if (!e) return;
    this.touched();
    const c = this.clk();
    let at;
    const top = this.qTop(q);
    if (c > top) return;
    if (how === 0) { rel = Math.min(Math.max(0, rel), Math.floor((top - c) / MS) * MS); at = c + rel; this.x.dq_reset(q.id, e.v, 0, BigInt(rel)); }
    else { at = Math.min(top, how === 2 ? Math.max(this.off(-1e15), e.lo + rel) : this.off(rel)); this.x.dq_reset(q.id, e.v, 1, BigInt(at)); }
    if (at <= c) this.probe('dq_reset_past');
    q.ents.set(e.v, this.ent(e.v, at, c));
    this.qRefresh(q); this.qLen(q); this.qWaitChanged(q);
  }
  /// removing or resetting with the key of an entry that has left: a panic
  qGoneKey(q, k, how) {
    const a = q.gone_.filter((g) => g.at === q.inserts);
    if (!a.length) return;
    const g = a[((k % a.length) + a.length) % a.length], what = how ? 'reset' : 'remove';
    let v;
    try { v = how ? this.x.dq_reset(q.id, g.v, 0, 1000000n) : this.x.dq_remove(q.id, g.v); } catch (x) {
      if (!(x instanceof WebAssembly.RuntimeError)) throw x;
      this.completions++; this.probe('dq_gone_key_' + what);
      throw new Stop();
    }
    this.viol('q-stale', `${q.name}: ${what} with the key of value ${g.v}, which has left, returned ${how ? 'normally' : 'value ' + v}`);
  }
  /// a deadline beyond the range: refused by a panic, or kept
  qBeyond(q, how, k, more) {
    const e = this.qPick(q, k), c = this.clk(), rel = (2 ** 36 + more) * MS, at = c + rel;
    if (how >= 2 && !e) return;
    this.touched();
    let v;
    try {
      v = how < 2 ? Number(this.x.dq_insert(q.id, how, BigInt(how ? at : rel))) : (this.x.dq_reset(q.id, e.v, how - 2, BigInt(how === 3 ? at : rel)), e.v);
    } catch (x) {
      if (!(x instanceof WebAssembly.RuntimeError)) throw x;
      this.completions++; this.probe('dq_beyond_range_refused');
      throw new Stop();
    }
    q.ents.set(v, this.ent(v, at, c));
    if (how < 2) q.inserts++;
    this.qRefresh(q); this.qLen(q); this.qWaitChanged(q);
  }
  qAdmin(q, what) {
    this.touched();
    if (what === 0) {
      const all = [...q.ents.keys()];
      this.x.dq_admin(q.id, 0);
      for (const v of all) {
        if (this.x.val_drops(v) !== 1) this.viol('q-once', `${q.name}: clear dropped value ${v} ${this.x.val_drops(v)} times`);
        this.left(q, v);
      }
      this.qWaitChanged(q);
      this.probe('dq_clear');
    } else { this.x.dq_admin(q.id, what); this.probe(what === 1 ? 'dq_compact' : 'dq_capacity'); }
    this.qLen(q);
  }
  dropQueue(q) {
    this.touched();
    q.gone = true; this.forget(q, this.Q);
    const all = [...q.ents.keys()];
    this.x.obj_drop(q.id);
    for (const v of all) if (this.x.val_drops(v) !== 1) this.viol('q-once', `dropping ${q.name} dropped value ${v} ${this.x.val_drops(v)} times`);
    for (const g of q.gone_) if (this.x.val_drops(g.v) !== 1) this.viol('q-once', `value ${g.v} dropped ${this.x.val_drops(g.v)} times`);
  }
  queueLive(q) {
    if (this.paused && !this.settled()) return;
    const w = q.wait;
    const waiting = w && !q.woken;
    const since = (r) => this.host.run - Math.max(r, w ? w.since : 0, q.changed ?? 0);
    if (waiting && w.none && q.ents.size && since(0) > this.L0) this.viol('q-lost-wake', `${q.name}: told None, an entry was inserted, but its task was not woken`);
    if (waiting && !w.none && !q.ents.size && since(0) > this.L0) this.viol('q-lost-wake', `${q.name}: emptied while its task was waiting, which was not woken`);
    let due = Infinity, n = 0;
    for (const e of q.ents.values()) if (e.d.run !== null) { n++; due = Math.min(due, e.d.run); }
    if (!n) return;
    const lim = due >= this.switchRun ? this.L : this.L0;
    if (waiting && !w.none && since(due) > 8 * lim + 1000) this.viol('q-lost-wake', `${q.name}: its earliest deadline passed ${since(due)} us ago, its waiting task was not woken`);
    if (this.cfg.exec === 1 && (w || q.queued)) {
      const base = Math.max(due, q.changed ?? 0, q.lastRun);
      if (this.host.run - base > (q.ents.size + 8) * lim + 1000) this.viol('q-late', `${q.name}: an entry due ${this.host.run - base} us ago has not come out`);
    }
  }
  // ------------------------------------------------------------------ test clock
  doPause() {
    const c = this.mclk();
    this.mBase = c; this.paused = true; this.pauseRun = this.host.run;
    this.pauseSettled = this.host.run - this.lastOpRun > this.L0 && !this.stalled;
    this.x.tu_pause();
    this.probe(this.pauseSettled ? 'pause_settled' : 'pause_unsettled');
    this.chkClock();
  }
  doResume() {
    this.x.tu_resume();
    this.paused = false; this.mFrom = this.host.clockUs();
    for (const o of this.live) for (const d of o.dl) if (d.run !== null) d.run = this.host.run;
    for (const o of this.live) o.resumedAt = this.host.run;
    this.lastOpRun = this.host.run;
    this.probe('resume');
    this.chkClock();
  }
  doAdvance(ns) {
    this.mBase += ns;
    this.timeMoved(false);
    const r = this.x.tu_advance(BigInt(ns));
    if (r < 0) this.viol('advance', 'advance did not complete when polled 100 times');
    this.probe('advance');
    this.chkClock();
  }
  /// pause on the paused, resume or advance on the running clock, advance beyond what an Instant can hold: a panic, and nothing changes
  misuse(k, ns) {
    const x = this.x, at = this.baseUs * 1000 + this.mBase, beyond = this.paused && k && at > 0, what = beyond ? 'advance beyond the range' : this.paused ? 'pause' : k ? 'advance' : 'resume';
    let refused = false;
    try { if (beyond) x.tu_advance_beyond(BigInt(Math.floor(Math.min(ns, at / 2)))); else if (this.paused) x.tu_pause(); else if (k) x.tu_advance(BigInt(ns)); else x.tu_resume(); } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      refused = true; this.panicMsg = null;
    }
    if (!refused) this.viol('clock', `${what} did not panic although the clock was ${this.paused ? 'paused' : 'running'}`);
    this.probe('misuse_' + what);
    this.completions++;
    this.chkClock();
  }
  chkClock() {
    const c = this.clk(), m = this.mclk();
    if (c !== m && !this.cfg.tick && this.report('clock')) this.viol('clock', `Instant::now is ${c}, expected ${m}${this.paused ? ' (paused)' : ''}`);
  }
  // ------------------------------------------------------------------ instants and wall-clock times
  eq(kind, what, got, want) { if (got !== want) this.viol(kind, `${what} is ${got}, expected ${want}`); this.completions++; }
  op2(s) {
    const x = this.x, h = this.host, IN = (this.IN ??= []), SY = (this.SY ??= []);
    switch (s[0]) {
      case 'ia': {
        const want = this.tu ? this.mclk() : (h.clockUs() - this.baseUs) * 1000;
        const id = x.inst_take(), ns = Number(x.inst_ns(id));
        this.eq('instant', 'Instant::now', ns, want);
        IN.push({ id, ns });
        this.mix(21, ns);
        return;
      }
      case 'ie': {
        const a = this.pick(IN, s[1]); if (!a) return;
        const cur = this.tu ? this.mclk() : (h.clockUs() - this.baseUs) * 1000;
        if (cur < a.ns) this.probe('elapsed_of_future_instant');
        return this.eq('instant', `elapsed of ${a.ns}`, Number(x.inst_elapsed(a.id)), Math.max(0, cur - a.ns));
      }
      case 'id2': {
        const a = this.pick(IN, s[1]), b = this.pick(IN, s[2]); if (!a) return;
        const k = s[3], d = a.ns - b.ns, r = Number(x.inst_diff(a.id, b.id, k));
        if (d < 0) this.probe('negative_difference');
        return this.eq('instant', `difference (kind ${k}) of ${a.ns} and ${b.ns}`, r, k < 3 ? Math.max(0, d) : k === 3 ? (d < 0 ? -1 : d) : Math.sign(d));
      }
      case 'ish': {
        const a = this.pick(IN, s[1]); if (!a) return;
        const abs = BigInt(this.baseUs) * 1000n + BigInt(a.ns), d = s[2], k = s[3], sub = k === 1 || k === 3;
        if (k === 1 && abs < d) return;
        if (k >= 5) {
          // the largest Duration less d fits on top of this instant exactly if d reaches up to it
          const fits = k === 5 && s[4] >= 0, e = abs + BigInt(s[4]);
          if (e < 0n || abs === 0n && k === 6) return;
          this.probe('edge_of_range');
          return this.eq('instant', `${k === 5 ? 'checked_add' : 'checked_sub'} of the largest Duration less ${e} at ${abs}`, x.inst_shift(a.id, e, k), fits ? BigInt(a.ns) : PENDING);
        }
        const r = x.inst_shift(a.id, BigInt(d), k);
        if (k === 3 && abs < d) return this.eq('instant', 'checked_sub below the origin', r, PENDING);
        return this.eq('instant', `${a.ns} ${sub ? '-' : '+'} ${d}`, Number(r), sub ? a.ns - d : a.ns + d);
      }
      case 'sn': {
        const ms = h.dateNow(), id = x.sys_now();
        SY.push({ id, ms });
        this.chkSys(id, ms, 'SystemTime::now');
        this.mix(22, ms);
        return;
      }
      case 'sd': {
        const a = this.pick(SY, s[1]), b = this.pick(SY, s[2]); if (!a) return;
        return this.chkRes(x.sys_since(a.id, b.id), a.ms - b.ms, `duration_since of ${a.ms} and ${b.ms}`);
      }
      case 'se': {
        const a = this.pick(SY, s[1]); if (!a) return;
        return this.chkRes(x.sys_elapsed(a.id), h.dateNow() - a.ms, `elapsed of ${a.ms} at ${h.dateNow()}`);
      }
      case 'so': {
        const a = this.pick(SY, s[1]), b = this.pick(SY, s[1] + 1); if (!a) return;
        return this.eq('systime', `comparison of ${a.ms} and ${b.ms}`, Number(x.sys_cmp(a.id, b.id)), Math.sign(a.ms - b.ms));
      }
      case 'ss': {
        const a = this.pick(SY, s[1]); if (!a) return;
        const ms = a.ms + (s[3] % 2 ? -s[2] : s[2]) / MS, id = x.sys_shift(a.id, BigInt(s[2]), s[3]);
        SY.push({ id, ms });
        return this.chkSys(id, ms, `shifted ${a.ms}`);
      }
      case 'sv': {
        const a = this.pick(SY, s[1]); if (!a) return;
        const n = x.sys_save(a.id);
        if (a.ms < 0) {
          this.probe('save_before_epoch');
          this.eq('systime', 'writing a record of a time before the epoch', x.sys_record(a.id, 0), -1);
          return this.eq('systime', 'serialising a time before the epoch', n, -1);
        }
        if (n < 0) this.viol('systime', `serialising ${a.ms} failed`);
        const text = new TextDecoder().decode(new Uint8Array(x.memory.buffer, x.buf_ptr(), n));
        (this.saved ??= []).push({ text, ms: a.ms });
        this.loadSys(text, a);
        const id = x.sys_record(a.id, s[1] % 3);
        if (id < 0) this.viol('systime', `a record of ${a.ms} cannot be ${id === -1 ? 'written' : 'read back'} (form ${s[1] % 3})`);
        this.chkSys(id, a.ms, `record of ${a.ms} read back (form ${s[1] % 3})`);
        return;
      }
      case 'sz': {
        const a = this.pick(this.saved ?? [], s[1]); if (!a) return;
        const sec = Math.floor(a.ms / 1000), ns = (a.ms - sec * 1000) * MS, k = s[3];
        const F = (...f) => '{' + f.map(([n, v]) => `"${n}":${v}`).join(',') + '}';
        const S = 'secs_since_epoch', N = 'nanos_since_epoch', big = '18446744073709551615';
        const same = {
          seq: `[${sec},${ns}]`, swapped: F([N, ns], [S, sec]),
          carried: sec > k % 4 ? F([S, sec - 1 - k % 4], [N, ns + (1 + k % 4) * 1e9]).replace(/:(\d+)}/, (m, v) => v < 2 ** 32 ? m : ':bad}') : 'bad',
        };
        const refused = {
          torn: a.text.slice(0, k % a.text.length), short0: '[]', short1: `[${sec}]`, long: `[${sec},${ns},0]`,
          nosecs: F([N, ns]), nonanos: F([S, sec]), empty: '{}', dupsecs: F([S, sec], [N, ns], [S, sec]), dupnanos: F([N, ns], [S, sec], [N, ns]),
          unknown: F([S, sec], [N, ns], ['zone', 0]), misnamed: F([S, sec], ['nanos', ns]),
          over: F([S, big], [N, 1e9]), overseq: `[${big},${4e9}]`, over2: F([N, 2e9], [S, '18446744073709551614']),
          wide: F([S, '18446744073709551616'], [N, 0]), widenanos: F([S, sec], [N, 4294967296]),
          negative: F([S, -1 - sec], [N, ns]), negnanos: F([S, sec], [N, -1]), text: F([S, `"${sec}"`], [N, ns]), nul: 'null', twice: a.text + a.text, fraction: F([S, sec + '.5'], [N, ns]),
        };
        const names = [...Object.keys(same), ...Object.keys(refused)], name = names[s[2] % names.length];
        if (s[2] % (names.length + 1) === names.length) { // one byte changed: any answer but a crash
          const i = k % a.text.length, c = String.fromCharCode(32 + (k >>> 8) % 95);
          this.probe('flipped_byte'); this.rawLoad(a.text.slice(0, i) + c + a.text.slice(i + 1));
          return;
        }
        if (name === 'torn' && this.rawLoad(F([S, big], [N, k % 2 ? 999999999 : 0])) === 0xffffffff) this.viol('systime', 'the largest record in range was refused');
        if (name in same) {
          if (same[name].includes('bad')) return;
          this.probe('record_' + name);
          return this.loadSys(same[name], { ms: a.ms });
        }
        h.fault('damaged_record'); this.probe('damaged_record');
        if (this.rawLoad(refused[name]) !== 0xffffffff) this.viol('systime', `a damaged record was accepted: ${refused[name]}`);
        this.completions++;
        return;
      }
      case 'crash': {
        this.probe('restarts'); h.fault('crash_restart');
        h.q = [];
        this.S = []; this.I = []; this.T = []; this.Q = []; this.M = []; this.live = []; this.wk = new Map(); this.ready = [];
        this.SY = []; this.IN = [];
        this.start();
        for (const s of this.saved ?? []) this.SY.push({ id: this.loadSys(s.text, s), ms: s.ms });
        return;
      }
      default: throw new Error('unknown step ' + s[0]);
    }
  }
  chkRes(ok, diff, what) {
    if (diff < 0) this.probe('wall_went_back');
    this.eq('systime', what + ' (ok)', Number(ok), diff >= 0 ? 1 : 0);
    this.eq('systime', what, this.x.out(0), BigInt(Math.abs(diff)) * 1000000n);
  }
  chkSys(id, ms, what) { this.chkRes(this.x.sys_epoch(id), ms, what); }
  rawLoad(text) {
    const b = new TextEncoder().encode(text);
    new Uint8Array(this.x.memory.buffer, this.x.buf_ptr(), b.length).set(b);
    return this.x.sys_load(b.length) >>> 0;
  }
  loadSys(text, a) {
    const id = this.rawLoad(text);
    if (id === 0xffffffff) this.viol('systime', `reading back ${text} failed`);
    this.chkSys(id, a.ms, `read back ${text}`);
    if (a.id !== undefined) {
      this.eq('systime', 'comparison with the value read back', Number(this.x.sys_cmp(a.id, id)), 0);
    }
    return id;
  }
  // ------------------------------------------------------------------ churn
  leakRun() {
    const m = [], x = this.x, h = this.host, N = this.cfg.cycles;
    x.reserve_tables(40000);
    const grows = (i, j) => [['bytes', 6], ['allocs', 1], ['pend', 1]].filter(([k, u]) => m[j][k] - m[i][k] >= u * N * (j - i)).map(([k]) => k);
    // three blocks; when something grew, ten more, to tell a leak from a
    // collection that was still settling at its final capacity
    for (let block = 0; block < 13; block++) {
      if (block === 3 && !grows(0, 2).length) break;
      for (let i = 0; i < N; i++) {
        this.opTimes = null;
        const w0 = this.nextW;
        for (const s of this.steps) this.step(s);
        if (this.paused) this.step(['resume']);
        for (const s of this.S) if (s.el && !s.resets && s.w) {
          const n = x.waker_refs(s.w);
          if (n > 0) this.viol('leak', `${s.name} has completed but ${n} clones of its waker are still held`);
        }
        for (const s of [...this.S]) { this.enter(); this.dropObj(s, this.S); }
        for (const s of [...this.I]) { this.enter(); this.dropObj(s, this.I); }
        for (const s of [...this.T]) { this.enter(); this.dropTimeout(s); }
        // a queue that lives on must not remember the entries it once had
        for (const q of [...this.Q]) {
          this.enter();
          if (this.cfg.keepQueue && q === this.Q[0]) { for (let k = 0; q.ents.size; k += 7) this.qRemove(q, k & 1, k); this.probe('queue_kept'); } else this.dropQueue(q);
        }
        for (const m of this.M) if (m.ready === false) { m.ready = true; }
        this.M = [];
        this.runFor(2 * this.L0 + 10);
        const left = this.keptW ?? [];
        this.keptW = [];
        for (let w = w0; w < this.nextW; w++) left.push(w);
        for (const w of left) {
          if (this.Q.some((q) => q.w === w)) { this.keptW.push(w); continue; }
          const n = x.waker_refs(w);
          if (n > 0) this.viol('leak', `everything was dropped and the host has run, but ${n} clones of waker #${w} are still held`);
          x.waker_release(w); this.wk.delete(w);
        }
        for (const o of this.ready) o.queued = false;
        this.ready = [];
        this.completions++;
      }
      // let the host run everything it owes
      let far = h.t; for (const e of h.q) far = Math.max(far, e.due);
      this.runFor(far - h.t + this.L0);
      m.push({ bytes: x.live_bytes(), allocs: x.live_allocs(), pend: h.q.length });
      this.log(`block ${block}: ${JSON.stringify(m[block])}`);
    }
    this.mix(m[2].bytes, m[2].allocs);
    if (m.length > 3) {
      const k = grows(0, 6).find((k) => grows(6, 12).includes(k));
      if (k) this.viol('leak', `${k} grow with every repetition of the workload: ${m.map((q) => q[k])} after each ${N} repetitions`);
    }
    if (m[2].pend > 64) this.viol('leak', `${m[2].pend} host callbacks pending after the host ran what it owed`);
  }
  // ------------------------------------------------------------------ whole run
  guarded(f) {
    try { f(); return null; } catch (e) {
      if (this.violation) return this.violation;
      if (e instanceof Stop) return null;
      if (e instanceof Abort) { this.aborted = e.message; return null; }
      if (e instanceof Hang) return this.late('hang', e.message);
      if (this.host.illegal) return this.late('host-call', `${this.host.illegal} (host kind ${this.host.kind.name})`);
      if (e instanceof TypeError && !this.panicMsg && /wasm|imports|__wbg/.test(String(e.stack).split('\n').slice(1, 4).join())) return this.late('host-call', `${e.message} (host kind ${this.host.kind.name})`);
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError || this.panicMsg) return this.late('panic', this.panicMsg ?? String(e));
      throw e;
    }
  }
  late(kind, msg) {
    if (!this.report(kind)) { this.aborted = kind; return null; }
    this.log(`!! ${kind}: ${msg}`);
    return (this.violation = new Violation(kind, msg));
  }
  /// faults stop; everything still live must complete
  quiesce() {
    const h = this.host;
    if (this.paused) this.step(['resume']);
    // poll what is not being waited on, so that its wake-up is checked too
    for (const s of [...this.S]) if (!s.done && !s.pend) { this.enter(); this.pollSleep(s, false); this.observe(); }
    for (const o of [...this.I]) if (!o.pend && this.cfg.exec !== 1) { this.enter(); this.pollInterval(o, 0); this.observe(); }
    for (const o of [...this.T]) if (!o.pend && !o.resolved) { this.enter(); this.pollTimeout(o, 0); this.observe(); }
    for (const q of [...this.Q]) if (!q.wait) { this.enter(); this.pollQueue(q, 0); this.observe(); }
    h.jit = []; h.early = []; h.throttle = 0; h.tick = 0;
    for (const e of h.q) e.due = Math.max(h.t, Math.min(e.due, e.at + Math.max(e.ms, h.clamp, h.nest, 0.01) * 1000));
    h.q.sort((a, b) => a.due - b.due || a.id - b.id);
    this.runFor(this.L0 + 10);
    this.L = this.bound(); this.switchRun = h.run;
    const horizon = this.cfg.horizon ?? Infinity;     // us of host time to wait for at most
    for (let round = 0; round < 400; round++) {
      let next = Infinity;
      const c = this.mclk();
      if (round === 3) for (const o of [...this.I]) { this.enter(); this.dropObj(o, this.I); this.observe(); }
      for (const s of this.S) if (!s.el) next = Math.min(next, s.dl[0].at);
      for (const o of this.T) if (!o.resolved) for (const d of o.dl) if (d.at > c) next = Math.min(next, d.at);
      for (const o of this.I) if (round < 3 && o.dl[0].at > c) next = Math.min(next, o.dl[0].at);
      for (const q of this.Q) for (const e of q.ents.values()) next = Math.min(next, e.d.at);
      if (next === Infinity) break;
      const wait = Math.max(0, Math.ceil((next - c) / 1000));
      if (wait > horizon) break;
      if (this.far(wait)) { if (!this.I.length) break; for (const o of [...this.I]) { this.enter(); this.dropObj(o, this.I); } }
      this.runFor(wait + this.L + 100);
      for (const q of this.Q) if (this.cfg.exec !== 1 && (!q.wait || q.woken)) { this.enter(); let n = q.ents.size + 1; while (n-- && !q.gone) { this.pollQueue(q, 0); if (q.wait) break; } this.observe(); }
      if (this.Q.length) this.runFor(9 * this.L);
    }
  }
  run() {
    this.violation = this.guarded(() => {
      this.boot();
      if (this.cfg.leak) return this.leakRun();
      if (this.cfg.pendCap) this.opTimes = [];
      for (let i = 0; i < this.steps.length; i++) { this.onStep?.(i); this.step(this.steps[i]); }
      this.onStep?.(this.steps.length);
      if (!this.cfg.noQuiesce) this.quiesce();
      this.finish();
    });
    return this;
  }
  finish() {
    this.ending = true;
    if (this.cfg.dropAll) {
      for (const s of [...this.S]) { this.enter(); this.dropObj(s, this.S); }
      for (const s of [...this.I]) { this.enter(); this.dropObj(s, this.I); }
      for (const s of [...this.T]) { this.enter(); this.dropTimeout(s); }
      for (const q of [...this.Q]) { this.enter(); this.dropQueue(q); }
      this.runFor(this.L0 * 2 + 10);
    }
  }
}
// While one of these runs, no waker sets the clock: what they return depends on it.
for (const k of ['pollInterval', 'pollTimeout', 'pollQueue', 'dropTimeout', 'dropQueue', 'qRemove', 'qReset', 'qAdmin', 'qInsert', 'qInsertAt', 'intoInner', 'addTimeout']) {
  const f = World.prototype[k];
  World.prototype[k] = function (...a) { this.own = (this.own ?? 0) + 1; try { return f.apply(this, a); } finally { this.own--; } };
}
