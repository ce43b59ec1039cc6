import { parentPort, workerData } from 'node:worker_threads';
import { loadVariant } from './inst.mjs';
import { generate } from './gen.mjs';
import { runTrace } from './run1.mjs';

const { prop, seed, total, build, names, shared, slot, deadline, seeds } = workerData;
const V = {};
for (const n of names) V[n] = loadVariant(`${build}/${n}`);
// shared: [0] next index, [1] lowest violating index, then per worker [index, step, beat]
const S = new Int32Array(shared), B = 4 + 4 * slot;
const out = { runs: 0, comp: 0, ops: 0, events: 0, simUs: 0, faults: {}, probes: {}, aborted: {}, hashes: [], samples: [], variants: {}, readsMax: 0 };
const add = (t, f) => { for (const k in f) t[k] = /_max$/.test(k) ? Math.max(t[k] ?? 0, f[k]) : (t[k] ?? 0) + f[k]; };
try {
  for (;;) {
    const i = Atomics.add(S, 0, 1);
    if (i >= total || i > Atomics.load(S, 1) || Date.now() > deadline) break;
    Atomics.store(S, B + 1, 0); Atomics.add(S, B + 2, 1); Atomics.store(S, B, i + 1);
    const t = generate(prop, seed, i);
    if (!V[t.cfg.variant]) t.cfg.variant = names.find((n) => n.startsWith(t.cfg.variant.startsWith('tu') ? 'tu' : 'd')) ?? names[0];
    const w = runTrace(V, t, { onStep: (n) => Atomics.store(S, B + 1, n) });
    Atomics.store(S, B, 0);
    out.runs++; out.comp += w.completions; out.ops += w.ops; out.events += w.host.delivered; out.simUs += w.host.t;
    out.variants[t.cfg.variant] = (out.variants[t.cfg.variant] ?? 0) + 1;
    add(out.faults, w.host.faults); add(out.probes, w.probes);
    if (w.aborted) out.aborted[w.aborted] = (out.aborted[w.aborted] ?? 0) + 1;
    if (Object.keys(w.host.faults).length && w.completions) out.hashes.push(w.h);
    if (i < 2 || (i < 400 && w.completions && out.samples.length < 1)) out.samples.push({ index: i, cfg: t.cfg, steps: t.steps.slice(0, 12), steps_total: t.steps.length, host_us: w.host.t, callbacks: w.host.delivered, completions: w.completions });
    if (w.violation) {
      for (;;) { const m = Atomics.load(S, 1); if (m <= i || Atomics.compareExchange(S, 1, m, i) === m) break; }
      parentPort.postMessage({ violation: { index: i, kind: w.violation.kind, message: w.violation.message, variant: t.cfg.variant } });
    }
  }
  parentPort.postMessage({ done: out });
} catch (e) {
  parentPort.postMessage({ error: `index ${Atomics.load(S, B) - 1}: ${e.stack}` });
}
