// Generators: (property, rng) -> {cfg, steps}. A trace is plain data; running it needs no randomness.
import { Rng, hash32 } from './prng.mjs';

const US = 1e3, MS = 1e6, S = 1e9, MIN = 60 * S, H = 3600 * S, DAY = 24 * H;
const I32MS = 2147483647;

// ---------------------------------------------------------------- host configurations (swarm)
export function hostCfg(r, o = {}) {
  const c = { variant: r.w(o.variants ?? [[5, 'dev'], [4, 'tu'], [2, 'rel'], [1, 'turel']]) };
  c.perf0 = r.pick([1000000, 20000, 123456789, 5000000001, r.range(20000, 1e10)]);
  if (r.chance(0.1)) c.perf0 = r.pick([2 ** 31, 2 ** 32, 2 ** 36]) * 1000 - r.pick([0, 1, 1000, r.range(0, 5e6), r.range(0, 3e8)]);   // up for weeks
  c.hk = r.below(6);
  c.clamp = r.w([[3, 1], [2, 0], [1, 4]]);
  if (r.chance(o.faultFree ?? 0.2)) return c;
  if (r.chance(0.3)) c.nest = 4;
  if (r.chance(0.25)) c.res = r.pick([5, 20, 100, 1000, 1000, 16667, 100000]);
  else if (r.chance(0.3)) c.frac = 1;
  if (!o.noTick && r.chance(0.2)) c.tick = r.pick([1, 7, 40]);
  if (r.chance(0.2)) c.cost = r.pick([3, 50, 700]);
  if (!o.noThrottle && r.chance(0.07)) c.throttle = r.pick([1000, 1000, 100, 60000]);
  if (r.chance(0.55)) {
    const n = r.range(1, 12), big = r.w([[4, 300], [3, 3000], [2, 40000], [1, 400000]]);
    c.jit = Array.from({ length: n }, () => (r.chance(0.5) ? 0 : r.range(0, big)));
  }
  if (r.chance(0.5)) {
    const n = r.range(1, 8);
    c.early = Array.from({ length: n }, () => (r.chance(0.4) ? 0 : r.range(1, 999)));
  }
  return c;
}

// ---------------------------------------------------------------- durations
/// scale: 0 few ms, 1 up to seconds, 2 up to hours, 3 days to months
export function dur(r, scale) { const d = Math.max(0, dur0(r, scale)); return scale < 3 ? d : Math.round(d / US) * US; }
function dur0(r, scale) {
  switch (r.below(8)) {
    case 0: return r.pick([0, 1, 999, 1000, 1001, 999999, MS, MS + 1, 1500 * US, 2 * MS, 5 * MS, 4999999]);
    case 1: return r.range(0, 3000) * US;
    case 2: return r.range(0, 20) * MS;
  }
  const top = [20 * MS, 3 * S, 3 * H, 80 * DAY][r.chance(0.75) ? scale : r.below(scale + 1)];
  switch (r.below(5)) {
    case 0: return r.range(0, Math.floor(top / MS)) * MS;
    case 1: return Math.floor(r.range(0, Math.floor(top / US)) * US);
    case 2: if (scale === 3) return (I32MS + r.pick([-2, -1, 0, 1, 2, 1000])) * MS * r.pick([1, 1, 2, 3]); // falls through
    case 3: { const k = Math.floor(r.f() * Math.log2(top / MS + 1)); return (2 ** k + r.pick([-1, 0, 0, 1])) * MS + r.pick([0, 0, 1, -1, 500 * US]); }
    default: return Math.floor(r.f() * r.f() * top / US) * US;
  }
}
export function rel(r, scale) {
  const x = r.below(12);
  if (x === 0) return 0;
  if (x === 1) return -dur(r, Math.min(scale, 1));
  if (x === 2) return r.pick(scale < 3 ? [1, -1, 1000, -1000, MS, -MS] : [1000, -1000, MS, -MS]);
  return dur(r, scale);
}
export function runUs(r, scale) {
  switch (r.below(6)) {
    case 0: return r.pick([0, 1, 10, 999, 1000, 1001, 5000]);
    case 1: return r.range(1, 3000);
    case 2: return r.range(1, 30) * 1000;
  }
  return Math.floor(dur(r, scale) / US * r.f());
}

// ---------------------------------------------------------------- step generation
const P = {
  s: (r, c) => ['s', dur(r, c.scale)],
  su: (r, c) => ['su', rel(r, c.scale)],
  sx: (r, c) => ['sx', r.below(64), r.pick([0, 0, ...(c.scale < 3 ? [1, -1] : []), 1000, -1000, MS, -MS, 500 * US, 3 * MS])],
  p: (r) => ['p', r.below(64), r.chance(0.25) ? 1 : 0],
  r: (r, c) => ['r', r.below(64), rel(r, c.scale)],
  rd: (r, c) => ['rd', r.below(64), r.pick([0, ...(c.scale < 3 ? [1, -1] : []), MS, -MS, 5 * MS, -5 * MS, 100 * MS, -100 * MS])],
  d: (r) => ['d', r.below(64)],
  i: (r, c) => ['i', Math.max(c.minPeriod ?? MS / 2, dur(r, Math.min(c.scale, 2))), r.chance(0.5) ? null : rel(r, Math.min(c.scale, 1))],
  ip: (r) => ['ip', r.below(16), r.chance(0.2) ? 1 : 0],
  it: (r) => ['it', r.below(16), r.range(1, 2)],
  ir: (r) => ['ir', r.below(16)],
  ib: (r) => ['ib', r.below(16), r.below(3)],
  id: (r) => ['id', r.below(16)],
  t: (r, c) => { const k = r.w([[4, 0], [3, 1], [2, 2]]); return ['t', rel(r, c.scale), k, k === 1 ? dur(r, c.scale) : r.below(16), r.below(2)]; },
  tp: (r) => ['tp', r.below(16), r.chance(0.25) ? 1 : 0],
  tc: (r) => ['tc', r.below(16)],
  td: (r) => ['td', r.below(16)],
  ti: (r) => ['ti', r.below(16), r.below(2)],
  q: (r) => ['q', r.pick([0, 1, 2, 5])],
  qi: (r, c) => { const how = r.below(2); return ['qi', r.below(8), how, how ? rel(r, c.scale) : dur(r, c.scale)]; },
  qp: (r) => ['qp', r.below(8), r.chance(0.2) ? 1 : 0, r.below(2)],
  qr: (r) => ['qr', r.below(8), r.below(64)],
  qx: (r) => ['qx', r.below(8), r.below(64)],
  qstale: (r) => ['qstale', r.below(8), r.below(64)],
  qgone: (r) => ['qgone', r.below(8), r.below(64), r.below(2)],
  qs: (r, c) => { const how = r.below(3); return ['qs', r.below(8), r.below(64), how, how === 0 ? dur(r, c.scale) : how === 1 ? rel(r, c.scale) : r.pick([0, 1, -1, MS, -MS, 10 * MS, -10 * MS, -S, S, 64 * MS])]; },
  qa: (r) => ['qa', r.below(8), r.w([[2, 0], [5, 1], [2, 2], [1, 5]])],
  qd: (r) => ['qd', r.below(8)],
  x: () => ['x'],
  dbg: (r) => ['dbg', r.below(256)],
  mis: (r, c) => ['mis', r.below(2), dur(r, c.scale)],
  run: (r, c) => ['run', runUs(r, c.scale)],
  next: (r) => ['next', r.range(1, 4)],
  stall: (r, c) => ['stall', r.pick([500, 5000, 80000, Math.floor(dur(r, Math.min(1, c.scale)) / US)])],
  jump: (r, c) => ['jump', Math.floor(dur(r, Math.max(1, c.scale)) / US)],
  skew: (r) => ['skew', r.pick([100, 3000, 50000, 700000])],
  back: (r) => ['back', r.pick([1, 500, 3000, 100000, 5000000])],
  wall: (r) => ['wall', r.pick([-1, 1]) * r.pick([1, 500, 3600000, 86400000 * 365])],
  pause: () => ['pause'],
  resume: () => ['resume'],
  adv: (r, c) => ['adv', dur(r, c.scale)],
  hook: (r, c) => ['hook', r.below(64), hookOps(r, c)],
  gone: (r, c) => ['gone', r.below(64), hookOps(r, c)],
};
const HOOKED = [[1, 'i'], [3, 'ip'], [1, 'ir'], [1, 'id'], [1.5, 't'], [2, 'tp'], [1, 'tc'], [1, 'td'], [0.5, 'q'], [3, 'qi'], [3, 'qp'], [2, 'qr'], [2, 'qs'], [0.5, 'qa'], [0.3, 'qd']];
function hookOps(r, c) {
  const n = r.range(1, 3), a = [];
  for (let i = 0; i < n; i++) a.push(P[r.w(c.plain || r.chance(0.7) ? [[4, 's'], [3, 'su'], [2, 'sx'], [4, 'p'], [3, 'r'], [2, 'rd'], [3, 'd'], [1, 'hook'], [1.5, 'adv'], [0.5, 'pause'], [0.5, 'resume']] : HOOKED)](r, c));
  return a;
}
export function steps(r, c, weights, n) {
  const w = Object.entries(weights).map(([k, v]) => [v, k]);
  const out = [];
  for (let i = 0; i < n; i++) {
    const k = r.w(w);
    out.push(P[k](r, c));
    if ((k === 's' || k === 'su' || k === 'sx' || k === 'r' || k === 'rd') && r.chance(c.autopoll ?? 0.7)) out.push(['p', k === 'r' || k === 'rd' ? out[out.length - 1][1] : -1, 0]);
    if (k === 'i' && r.chance(0.8)) out.push(['ip', -1, 0]);
    if (k === 't' && r.chance(0.7)) out.push(['tp', -1, 0]);
    if (k === 'q') { for (let j = r.range(0, 4); j > 0; j--) out.push(P.qi(r, c)); out.push(['qp', -1, 0, 0]); }
  }
  return out;
}

const HOSTW = { run: 14, next: 6, stall: 1.5 };
function mk(r, o) {
  const scale = r.w(o.scales ?? [[3, 0], [5, 1], [2, 2], [1, 3]]);
  const cfg = hostCfg(r, o.host);
  cfg.exec = r.w(o.exec ?? [[3, 0], [4, 1], [2, 2]]);
  if (r.chance(0.4)) cfg.dropDone = 1;
  const c = { scale, autopoll: r.pick([0.3, 0.8, 1]) };
  Object.assign(c, o.ctx ?? {});
  // swarm: every run uses a random subset of the optional operations
  const w = { ...HOSTW, dbg: 0.2, ...o.ops };
  for (const k of Object.keys(w)) if (!(o.keep ?? []).includes(k) && !(k in HOSTW) && r.chance(0.25)) delete w[k];
  if (cfg.exec === 2) w.x = 6;
  if (o.hooks && r.chance(o.hooks)) { w.hook = 5; w.gone = 1.5; cfg.hooks = 1; }   // wakers that use the library
  if (w.back) for (const k of Object.keys(w)) if (/^[itq]/.test(k)) delete w[k];
  if (cfg.tick) for (const k of Object.keys(w)) if (/^[itq]/.test(k)) delete w[k];
  if (cfg.tick || w.back) c.plain = 1;
  const n = r.w([[3, 8], [4, 25], [3, 60], [1, 120]]);
  const st = (o.prefix ? o.prefix(r, c, cfg) : []).concat(steps(r, c, w, r.range(Math.ceil(n / 2), n)));
  if (o.crowd && r.chance(o.crowdShare ?? 0.012)) { st.length = Math.min(st.length, r.below(12)); crowds(r, c, st, o.crowd, o.crowdMax, w); if (st.some((x) => x[0].endsWith('crowd') && x[1] > 3000)) cfg.maxEvents = 20000; if (cfg.exec === 2) st.push(['x']); }
  Object.assign(cfg, o.cfg ?? {});
  return { cfg, steps: st };
}
const SL = { s: 8, su: 5, sx: 4, p: 6 };
const many = (n) => (r, c) => { // a crowd of sleeps that come and go
  const out = [], k = r.range(1, n);
  for (let i = 0; i < k; i++) { out.push(P.s(r, c)); if (r.chance(0.6)) out.push(['p', -1, 0]); if (r.chance(0.3)) out.push(P.next(r)); if (r.chance(0.4)) out.push(['d', r.below(64)]); }
  return out;
};
/// far sleeps armed one by one, so that many host callbacks are requested for far instants
const staircase = (r) => {
  const out = [];
  if (r.chance(0.4)) { // each about half as far as the one before
    let d = 2 ** r.range(12, 36) * MS;
    const f = r.pick([0.5, 0.5, 0.7, 0.3]), w = r.pick([1500, 2500, 4000, 20000]), keep = r.chance(0.7);
    for (; d > 12 * MS; d = Math.floor(d * f / US) * US) {
      out.push(['s', d], ['run', w]);
      if (!keep || r.chance(0.1)) out.push(['d', -1]);
    }
    return out;
  }
  const k = r.range(2, 45), unit = r.pick([S, 10 * S, MIN, H]), down = r.chance(0.7);
  for (let i = 0; i < k; i++) {
    out.push(['s', unit * (down ? 2 * k - i : k + i)]);
    if (r.chance(0.8)) out.push(['run', r.pick([0, 10, 2000, 5000, 20000])]);
    if (r.chance(0.3)) out.push(['d', -1]);
  }
  return out;
};

/// many operations at once, among a few single ones
function crowds(r, c, st, kinds, max = 3000, w = {}) {
  const args = () => {
    const n = max < 3000 ? r.w([[8, r.range(60, max)], [1, max]]) : r.w([[60, r.range(60, 300)], [36, r.range(300, 700)], [12, r.range(1000, max)], [1, r.range(3000, 9000)]]);
    const unit = r.pick([0, ...(c.scale < 3 ? [1] : []), 1000, 40 * US, MS, MS, 7 * MS, ...(c.scale > 0 ? [64 * MS, S] : [])]);
    return [n, rel(r, Math.min(2, c.scale)), unit, r.below(4), r.below(1 << 30)];
  };
  const put = (...ss) => { st.splice(r.below(st.length + 1), 0, ...ss); };
  if (kinds.includes('s')) {
    for (let i = r.w([[4, 1], [1, 2]]); i--;) put(['crowd', ...args(), r.below(5)], ...(r.chance(0.5) ? [P.run(r, c)] : []));
    if (r.chance(0.5)) { const n = r.range(50, 900); st.push(['move', Math.min(max, n), ...args().slice(1), r.below(64), r.pick([0, 1, 1, 3, 7])]); }
    if (r.chance(0.5)) st.push(['cull', r.below(64), r.pick([0, 0, 1, 2, 5]), Math.min(max, r.range(50, 1500))]);
  }
  if (kinds.includes('q')) {
    st.unshift(['q', 0], ['qp', -1, 0, 0]);
    put(['qcrowd', ...args(), 0], ['qp', 0, 0, 0]);
    if (r.chance(0.4)) { const n = r.range(50, 300); st.push(['qmove', Math.min(max, n), ...args().slice(1), 0, r.pick([0, 1, 2, 5])]); }
    if (r.chance(0.4)) st.push(['qcull', 0, r.pick([0, 1, 3]), Math.min(max, r.range(50, 800))]);
    if (w.qstale) for (let i = r.below(4); i--;) { st.push(['qa', 0, 1], ['qcull', 0, r.pick([0, 1, 3]), r.range(1, 40)], ['qa', 0, 1]); for (let j = 6; j--;) st.push(P.qstale(r)); if (r.chance(0.5)) st.push(['qcrowd', r.range(1, 30), ...args().slice(1), 0]); }
  }
  if (w.adv) { put(['pause'], P.adv(r, c)); st.push(P.run(r, c), P.adv(r, c), P.adv(r, c), P.resume()); }
  st.push(P.run(r, c), P.next(r), P.stall(r, c), P.run(r, c));
}

const G = {
  C01: (r) => mk(r, { hooks: 0.08, crowd: 's', ops: { ...SL, r: 4, rd: 3, d: 2, i: 0.7, jump: 0.7, skew: 0.4, back: 0.8, wall: 0.4 }, prefix: r.chance(0.1) ? many(20) : null }),
  C02: (r) => mk(r, { hooks: 0.08, crowd: 's', ops: { ...SL, r: 4, rd: 3, d: 4, i: 0.7, ip: 0.5, q: 0.4, qi: 0.6, jump: 0.5, skew: 0.3, back: 0.4 }, prefix: r.w([[3, null], [1, many(60)], [1, staircase]]) }),
  C03: (r) => mk(r, { hooks: 0.08, crowd: 's', ops: { ...SL, r: 9, rd: 8, d: 1, jump: 0.4 }, keep: ['r', 'rd'] }),
  C04: (r) => mk(r, { hooks: 0.08, crowd: 'sq', ops: { ...SL, r: 2, rd: 1, d: 9, i: 2, ip: 2, id: 2, t: 2, tp: 2, tc: 0.7, td: 2, q: 1, qi: 3, qp: 2, qd: 1 }, keep: ['d'], host: { noTick: true }, prefix: r.chance(0.2) ? many(40) : null }),
  C05: (r) => mk(r, { crowd: 's', scales: [[1, 0], [2, 1], [3, 2], [4, 3]], ops: { ...SL, r: 3, rd: 2, d: 3, i: 0.4, t: 0.5, q: 0.3, qi: 0.5, qp: 0.3 }, host: { noTick: true, noThrottle: true }, ctx: { minPeriod: 2 * S }, exec: [[1, 0]],
    prefix: r.w([[2, null], [1, many(60)], [1, staircase]]), cfg: { spinCheck: 1, pendCap: 64 } }),
  C06: (r) => mk(r, { crowd: 's', ops: { ...SL, r: 4, rd: 3, d: 2, stall: 4, jump: 1 }, prefix: r.chance(0.4) ? many(30) : null, exec: [[2, 0], [1, 1]] }),
  C07: (r) => mk(r, { hooks: 0.08, scales: [[3, 0], [4, 1], [1, 2]], ops: { i: 5, ip: 8, it: 4, id: 1, s: 2, d: 1, stall: 3, jump: 0.5 }, keep: ['i', 'ip'], host: { noTick: true } }),
  C08: (r) => mk(r, { hooks: 0.08, scales: [[3, 0], [4, 1], [1, 2]], ops: { i: 5, ip: 8, it: 2, ib: 5, ir: 3, id: 1, s: 1, d: 1, stall: 6, jump: 0.5 }, keep: ['i', 'ip', 'ib', 'stall'], host: { noTick: true } }),
  C09: (r) => mk(r, { hooks: 0.08, ops: { t: 8, tp: 9, tc: 5, td: 2, ti: 2, s: 1, d: 1, stall: 2, jump: 0.3 }, keep: ['t', 'tp'], host: { noTick: true } }),
  C10: (r) => mk(r, { ops: { pause: 6, resume: 5, adv: 6, mis: 2, s: 1, p: 1, now: 4, jump: 1, ia: 2, ie: 3, id2: 1 }, keep: ['pause', 'resume', 'adv'], host: { variants: [[3, 'tu'], [1, 'turel']], noTick: true } }),
  C11: (r) => mk(r, { hooks: 0.08, crowd: 's', ops: { ...SL, r: 4, rd: 3, d: 2, i: 1, ip: 2, t: 1, tp: 1, pause: 3, adv: 9, resume: 1 }, keep: ['adv', 'pause'], host: { variants: [[3, 'tu'], [1, 'turel']], noTick: true },
    prefix: r.chance(0.5) ? (r, c) => [P.s(r, c), ['run', 3000000], ['pause']] : null }),
  C12: (r) => mk(r, { hooks: 0.08, crowd: 's', ops: { ...SL, r: 4, rd: 3, d: 2, i: 1, ip: 1, t: 1, tp: 1, q: 0.5, qi: 1, pause: 5, adv: 5, resume: 5, mis: 0.4 }, keep: ['adv', 'pause', 'resume'], host: { variants: [[3, 'tu'], [1, 'turel']], noTick: true },
    prefix: r.w([[3, null], [1, staircase]]) }),
  C13: (r) => mk(r, { hooks: 0.08, crowd: 'q', scales: [[3, 0], [4, 1], [1, 2]], ops: { q: 3, qi: 10, qp: 9, qr: 4, qx: 3, qstale: 1, qs: 5, qa: 2, qd: 0.7, pause: 0.3, resume: 0.5, adv: 0.6 }, keep: ['q', 'qi', 'qp'], host: { noTick: true }, cfg: { dropAll: 1 } }),
  C14: (r) => mk(r, { hooks: 0.08, crowd: 'q', scales: [[4, 0], [4, 1], [1, 2]], ops: { q: 3, qi: 12, qp: 9, qr: 2, qx: 1, qs: 7, qa: 1, stall: 2, pause: 0.3, resume: 0.5, adv: 0.6 }, keep: ['q', 'qi', 'qp'], host: { noTick: true } }),
  C15: (r) => mk(r, { hooks: 0.08, crowd: 'q', scales: [[3, 0], [4, 1], [1, 2]], ops: { q: 3, qi: 8, qp: 6, qr: 5, qx: 3, qs: 8, qa: 1.5 }, keep: ['q', 'qi', 'qp'], host: { noTick: true }, exec: [[2, 0], [5, 1], [1, 2]] }),
  C16: (r) => mk(r, { hooks: 0.08, crowd: 'q', scales: [[4, 0], [4, 1]], ops: { q: 2, qi: 12, qp: 7, qr: 5, qx: 4, qstale: 5, qgone: 0.4, qs: 6, qa: 7 }, keep: ['q', 'qi', 'qa'], host: { noTick: true }, cfg: { dropAll: 1 } }),
  C17: (r) => longQueue(r),
  C18: (r) => clockRun(r),
  C19: (r) => sysRun(r),
  C20: (r) => { const t = mk(r, { ops: { ...SL, r: 4, rd: 3, d: 2, hook: 9, gone: 6, i: 0.7, ip: 1.5, t: 0.7, tp: 1, tc: 0.5, q: 0.5, qi: 1.5, qp: 1, qr: 0.7, pause: 1.5, adv: 4, resume: 1 }, keep: ['hook', 'gone'], prefix: r.chance(0.3) ? (r, c) => [['pause'], P.s(r, c), ['p', -1, 0]] : null, host: { variants: [[2, 'dev'], [5, 'tu'], [1, 'rel'], [2, 'turel']] } }); t.cfg.hooks = 1; return t; },
  C23: (r) => leakRun(r),
  C24: (r) => anyHost(r),
};
P.now = () => ['now'];
P.crash = () => ['crash'];
P.sz = (r) => ['sz', r.below(64), r.below(26), r.below(1 << 20)];
P.ss = (r, c) => ['ss', r.below(64), Math.floor(dur(r, c.scale) / MS) * MS, r.below(6)];
P.sv = (r) => ['sv', r.below(64)];
P.so = (r) => ['so', r.below(64)];
P.se = (r) => ['se', r.below(64)];
P.sd = (r) => ['sd', r.below(64), r.below(64)];
P.sn = () => ['sn'];
P.ish = (r, c) => ['ish', r.below(64), dur(r, c.scale), r.below(7), r.pick([0, -1, 1, 1000, -1000, r.range(-1e9, 1e9)])];
P.id2 = (r) => ['id2', r.below(64), r.below(64), r.below(5)];
P.ie = (r) => ['ie', r.below(64)];
P.ia = () => ['ia'];

// ---------------------------------------------------------------- C17: horizons and ages
const MAXMS = 2 ** 36 - 1;
function longQueue(r) {
  const cfg = hostCfg(r, { noTick: true, noThrottle: true, variants: [[4, 'dev'], [3, 'tu'], [2, 'rel']] });
  delete cfg.cost;
  cfg.exec = 1; cfg.maxEvents = 6000; cfg.long = 1;
  const st = [['q', 0]];
  // bring the queue to an age near a power-of-64 boundary (or beyond the maximum), being polled on the way
  const lvl = r.range(1, 6), unit = 64 ** lvl;
  let age = Math.max(0, Math.round(unit * r.pick([1, 1, 1, 2, 3, 63, r.range(1, 63)]) + r.pick([-1, 0, 1, -2, 5, -64, r.range(-100, 100), -r.below(unit)])));
  if (r.chance(0.1)) age = 2 ** 32 * r.pick([1, 1, 2, 5]) + r.pick([-1, 0, 1, -60, -64, 64, r.range(-200, 200)]);
  if (lvl === 6) age = Math.max(0, Math.round(unit * r.pick([1, 1, 2, 3]) + r.pick([-1, 0, 1, -5, 5, -64, -4096, -(64 ** 5), r.range(-1e6, 1e6)])));
  const legs = r.range(1, 3);
  let cur = 0;
  for (let i = 1; i <= legs && age > 0; i++) {
    const to = i === legs ? age : Math.floor(age * r.f());
    if (to <= cur) continue;
    for (let left = to - cur; left > 0;) {
      const d = Math.min(left, MAXMS - r.below(3));
      st.push(['qb', 0, cur + d, 0], ['qp', 0, 0, 0], ['run', d * 1000 + 20000]);
      cur += d; left -= d;
    }
  }
  const ds = () => {
    const l = r.range(0, 6), u = 64 ** l;
    let d = Math.round(r.pick([u, u * r.range(1, 63), u * 64 - 1]) + r.pick([0, 0, 1, -1, 2, r.range(-70, 70)]));
    return Math.max(0, Math.min(MAXMS - 1, d));
  };
  const n = r.range(1, 7);
  for (let i = 0; i < n; i++) {
    st.push(r.chance(0.3) ? ['qb', 0, age + ds(), r.pick([0, 0, 1, 500000, 999999])] : ['qi', 0, 0, ds() * MS]);
    if (r.chance(0.5)) st.push(['qp', 0, 0, 0]);
    if (r.chance(0.2)) st.push(['qs', 0, r.below(8), 0, ds() * MS]);
    if (r.chance(0.15)) st.push(['qr', 0, r.below(8)]);
    if (r.chance(0.08)) st.push(['qa', 0, 0]);
    if (r.chance(0.3)) st.push(['run', r.chance(0.5) ? runUs(r, 1) : ds() * 1000]);
    if (r.chance(0.1)) st.push(['jump', ds() * 1000]);
  }
  st.push(['qp', 0, 0, 0]);
  if (r.chance(0.06)) {
    st.push(['qbig', 0, r.below(4), r.below(8), r.pick([0, 0, 1, 63, 64 ** 3, 2 ** 36 - 1, 2 ** 36, r.below(2 ** 36)])]);
    for (let i = r.below(4); i--;) st.push(['run', r.pick([1, 1000, 64 ** r.range(1, 6), 2 ** 36]) * 1000 + r.below(3) * 1000], ['qp', 0, 0, 0]);
  }
  // several operations before the task that was woken is polled
  if (r.chance(0.25)) {
    cfg.exec = 2;
    return { cfg, steps: st.flatMap((s) => s[0] === 'run' || r.chance(0.2) ? [s, ['x']] : [s]) };
  }
  return { cfg, steps: st };
}

// ---------------------------------------------------------------- C18: host clock
function clockRun(r) {
  const cfg = hostCfg(r, {});
  delete cfg.res; cfg.frac = 1; cfg.tick = 0; cfg.exec = 1; cfg.instants = 1;
  const scale = r.below(4), c = { scale, autopoll: 1 };
  const nobck = cfg.variant.startsWith('tu');
  const st = [['ia'], ...steps(r, c, { ia: 8, ie: 6, id2: 8, ish: 2, s: 3, p: 2, run: 8, next: 2, jump: 2, stall: 1, wall: 5, ...(nobck ? {} : { back: 2 }) }, r.range(8, 60))];
  return { cfg, steps: st };
}
// ---------------------------------------------------------------- C19: wall clock, restarts
function sysRun(r) {
  const cfg = hostCfg(r, {});
  cfg.wall0 = r.pick([1700000000000, 0, 1, 1000, 9000000000000, r.range(0, 4e12), r.range(0, 5000)]);
  cfg.exec = 1; cfg.noQuiesce = 1; cfg.sys = 1;
  const c = { scale: r.below(4), autopoll: 1 };
  const st = [['sn'], ...steps(r, c, { sn: 8, sd: 8, se: 5, so: 2, sv: 4, sz: 4, ss: 2, crash: 2.5, run: 5, jump: 2, wall: 6, s: 1 }, r.range(8, 50))];
  return { cfg, steps: st };
}
// ---------------------------------------------------------------- C24: the same on every kind of host
function anyHost(r) {
  const t = mk(r, { ops: { ...SL, r: 2, rd: 2, d: 2, i: 2, ip: 3, ir: 0.5, ib: 1, id: 0.5, t: 2, tp: 2, tc: 1, td: 0.5, q: 1, qi: 3, qp: 2, qr: 1, qs: 1, qa: 0.5, pause: 0.5, adv: 1, resume: 0.5, stall: 1, ia: 2, ie: 1, sn: 2, sd: 1, se: 1, wall: 1 }, host: { noTick: true } });
  t.cfg.instants = 1;
  t.cfg.hk2 = (t.cfg.hk + 1 + r.below(5)) % 6;
  return t;
}
// ---------------------------------------------------------------- C23: churn
function leakRun(r) {
  const t = mk(r, { crowd: 'sq', crowdMax: 120, scales: [[3, 0], [4, 1], [1, 2]], ops: { ...SL, r: 3, rd: 2, d: 5, i: 2, ip: 2, id: 2, t: 2, tp: 2, tc: 1, td: 2, ti: 0.7, q: 1, qi: 3, qp: 2, qr: 1, qs: 1, qa: 1, qd: 1, pause: 0.7, adv: 1, resume: 0.7 }, host: { noTick: true, noThrottle: true },
    ctx: { minPeriod: 20 * MS } });
  t.cfg.leak = 1;
  t.cfg.cycles = r.pick([6, 8, 10]);
  t.steps = t.steps.slice(0, 40);
  if (t.steps.some((s) => s[0] === 'q') && r.chance(0.5)) t.cfg.keepQueue = 1;
  return t;
}

export function generate(prop, seed, index) {
  const r = new Rng(hash32('wasmtimer-sim', seed, prop, index));
  r.u32();
  const t = G[prop](r);
  t.prop = prop; t.seed = seed; t.index = index;
  return t;
}
export const PROPS = Object.keys(G);

const PH = ['panic', 'hang', 'host-call'];
const SK = ['early', 'early-reset', 'deadline', 'deadline-reset', 'late', 'lost-wake', 'sticky'];
const IK = ['i-schedule', 'i-early', 'i-late', 'i-lost-wake', 'i-beh'];
const TK = ['t-lost-wake', 't-late', 't-outcome', 't-inner'];
const QL = ['q-lost-wake', 'q-late'];
export const KINDS = {
  C01: ['early', 'early-reset', 'deadline'],
  C02: ['late', 'lost-wake'],
  C03: ['early-reset', 'sticky', 'deadline-reset', 'late', 'lost-wake'],
  C04: ['wake-after-drop', 'late', 'lost-wake', 'early', 'sticky', 'deadline', ...IK, ...TK, ...QL],
  C05: ['bad-timeout', 'spin', 'many-timeouts'],
  C06: ['order'],
  C07: IK, C08: IK, C09: TK,
  C10: ['clock', 'advance', 'instant'],
  C11: ['advance-missed', 'advance', 'lost-wake', 'early', 'early-reset', 'i-early', 'i-late', 't-late', 't-outcome'],
  C12: [...SK, ...IK, ...TK, ...QL, 'advance-missed', 'clock'],
  C13: ['q-once', 'q-len', 'q-none', 'q-pending-empty', 'q-wrong', 'q-key'],
  C14: ['q-early', 'q-order', 'q-deadline'],
  C15: QL,
  C16: ['q-key', 'q-wrong', 'q-stale', 'q-len'],
  C17: ['q-early', 'q-late', 'q-lost-wake', 'q-none', 'q-pending-empty', 'q-deadline', 'q-order', 'q-once'],
  C18: ['instant', 'early', 'late', 'lost-wake', 'deadline', 'clock'],
  C19: ['systime'],
  C20: [...SK, ...IK, ...TK, ...QL, 'q-once', 'q-early', 'q-none', 'wake-after-drop', 'advance-missed', 'advance', 'clock'],
  C23: ['leak'],
  C24: ['host-differs', 'host-exit'],
};
for (const k of Object.keys(KINDS)) KINDS[k] = new Set([...KINDS[k], ...PH]);
