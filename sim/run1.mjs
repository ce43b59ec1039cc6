// Runs one trace and gives back everything that is worth knowing about the run.
import { World } from './world.mjs';
import { KINDS } from './gen.mjs';

export function runTrace(variants, trace, opts = {}) {
  const kinds = opts.kinds ?? KINDS[trace.prop];
  const w = new World(variants, trace, (k) => kinds.has(k), opts.verbose);
  if (opts.onStep) w.onStep = opts.onStep;
  w.run();
  if (trace.cfg.hk2 === undefined || w.violation) return w;
  // the same on another kind of host
  const o = new World(variants, { ...trace, cfg: { ...trace.cfg, hk: trace.cfg.hk2 } }, (k) => kinds.has(k), opts.verbose);
  o.run();
  w.probe(`${w.host.kind.name} and ${o.host.kind.name}`);
  w.host.fault('other_host_kind');
  if (o.violation) return o;
  const sum = (q) => JSON.stringify([q.h, q.completions, q.host.t, q.host.seq, q.aborted ?? null]);
  if (sum(o) !== sum(w)) w.violation = w.late('host-differs', `the run differs between a ${w.host.kind.name} and a ${o.host.kind.name} host: ${sum(w)}, ${sum(o)}`);
  return w;
}

/// Delta debugging: fewer steps, a plainer host, smaller numbers; the class of violation stays the same.
export function minimise(variants, trace, kind, budgetMs) {
  const kinds = new Set([kind]), t0 = Date.now();
  let tries = 0;
  const fails = (t) => { tries++; const w = runTrace(variants, t, { kinds }); return !!w.violation && w.violation.kind === kind; };
  const late = () => Date.now() - t0 > budgetMs;
  let cur = trace;
  const accept = (t) => { if (late() || !fails(t)) return false; cur = t; return true; };
  for (let again = true; again && !late();) {
    again = false;
    for (let n = Math.max(1, cur.steps.length >> 1); n >= 1; n >>= 1)
      for (let j = cur.steps.length - n; j >= 0; j -= n)
        if (cur.steps.length >= n && accept({ ...cur, steps: cur.steps.filter((_, k) => k < j || k >= j + n) })) again = true;
    for (const k of Object.keys(cur.cfg)) {
      if (['variant', 'exec', 'hk', 'hk2', 'maxEvents', 'long', 'hooks', 'leak', 'cycles', 'spinCheck', 'pendCap', 'instants', 'sys', 'noQuiesce', 'dropAll'].includes(k)) continue;
      const cfg = { ...cur.cfg };
      delete cfg[k];
      if (accept({ ...cur, cfg })) again = true;
      else if (Array.isArray(cur.cfg[k]) && cur.cfg[k].length > 1)
        for (let j = cur.cfg[k].length - 1; j >= 0; j--) { const a = cur.cfg[k].map((v, i) => (i === j ? 0 : v)); if (cur.cfg[k][j] !== 0 && accept({ ...cur, cfg: { ...cur.cfg, [k]: a } })) again = true; }
    }
    // simpler variants first
    for (const v of ['dev', 'tu']) if (cur.cfg.variant !== v && variants[v] && accept({ ...cur, cfg: { ...cur.cfg, variant: v } })) { again = true; break; } else if (cur.cfg.variant === v) break;
    for (let i = 0; i < cur.steps.length; i++) for (let j = 1; j < cur.steps[i].length; j++) {
      const v = cur.steps[i][j];
      if (Array.isArray(v)) {       // operations inside a waker
        for (let n = v.length - 1; n >= 0; n--) {
          const steps = cur.steps.slice(); steps[i] = steps[i].slice(); steps[i][j] = cur.steps[i][j].filter((_, k) => k !== n);
          if (accept({ ...cur, steps })) again = true;
        }
        continue;
      }
      if (typeof v !== 'number' || v === 0) continue;
      const sign = Math.sign(v), a = Math.abs(v);
      for (const c of [0, 1e6, 1e9, 10 ** Math.floor(Math.log10(a)), Math.floor(a / 1e6) * 1e6, Math.floor(a / 1e3) * 1e3, Math.floor(a / 2)]) {
        if (c >= a || (c === 1e9 && a < 2e9) || (cur.steps[i][0] === 'i' && j === 1 && c < 5e5)) continue;   // an interval's period stays positive
        const steps = cur.steps.slice(); steps[i] = steps[i].slice(); steps[i][j] = sign * c;
        if (accept({ ...cur, steps })) { again = true; break; }
      }
    }
  }
  return { trace: cur, tries };
}
