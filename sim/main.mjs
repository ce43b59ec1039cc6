// Entry point of the checks: main.mjs PROP --tier quick|thorough --seed N   |   main.mjs --replay FILE
import fs from 'node:fs';
import path from 'node:path';
import { Worker } from 'node:worker_threads';
import { spawnSync } from 'node:child_process';
import { fileURLToPath } from 'node:url';
import { loadVariant } from './inst.mjs';
import { generate, KINDS } from './gen.mjs';
import { runTrace, minimise } from './run1.mjs';
import { PLAN, ASSUMPTIONS, RULE, REAL, STUB } from './plan.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url)), VERIF = path.dirname(HERE);
const args = process.argv.slice(2);
const opt = (k, d) => { const i = args.indexOf('--' + k); return i >= 0 ? args[i + 1] : d; };
const build = opt('build', `${VERIF}/build`);
const HANG_S = 60;

function load(names) { const V = {}; for (const n of names) V[n] = loadVariant(`${build}/${n}`); return V; }

if (opt('replay')) {
  const r = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
  const w = runTrace(load([r.trace.cfg.variant]), r.trace, { kinds: r.any ? undefined : new Set([r.kind]), verbose: true });
  if (!args.includes('--quiet')) for (const l of w.lines) console.log(l);
  const v = w.violation;
  console.log(JSON.stringify({ reproduced: !!v, kind: v?.kind, message: v?.message, hash: w.h >>> 0 }));
  if (v) console.log(`VIOLATION property=${r.property} replay=${opt('replay')}`);
  process.exit(v ? 1 : 0);
}

const prop = args[0], tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
const seed = Number(opt('seed', process.env.VERIF_SEED ?? 1)) | 0;
const plan = PLAN[prop];
const total = Number(opt('runs', plan[tier]));
const workers = Number(opt('workers', Math.min(8, Math.max(1, (await import('node:os')).availableParallelism()))));
const names = opt('variants', '').split(',').filter(Boolean);
const variants = names.length ? names : plan.variants;
const wall = Number(opt('wall', tier === 'quick' ? 240 : 3000));
const t0 = Date.now();
console.log(`seed ${seed}: ${prop} ${tier}, up to ${total} runs of variants ${variants.join(' ')} on ${workers} workers`);

const shared = new SharedArrayBuffer(4 * (4 + 4 * workers)), S = new Int32Array(shared);
S[1] = 0x7fffffff;
const acc = { runs: 0, comp: 0, ops: 0, events: 0, simUs: 0, faults: {}, probes: {}, aborted: {}, variants: {} };
const hashes = new Set(), samples = [], violations = [];
let failed = null;
const add = (t, f) => { for (const k in f) t[k] = /_max$/.test(k) ? Math.max(t[k] ?? 0, f[k]) : (t[k] ?? 0) + f[k]; };
const live = new Set();
await new Promise((resolve) => {
  const end = (w) => { live.delete(w); if (!live.size) resolve(); };
  for (let k = 0; k < workers; k++) {
    const w = new Worker(`${HERE}/worker.mjs`, { workerData: { prop, seed, total, build, names: variants, shared, slot: k, deadline: t0 + wall * 1000 } });
    w.slot = k; live.add(w);
    w.on('message', (m) => {
      if (m.violation) violations.push(m.violation);
      if (m.error) { failed ??= m.error; end(w); }
      if (m.done) {
        const d = m.done;
        for (const f of ['runs', 'comp', 'ops', 'events', 'simUs']) acc[f] += d[f];
        for (const f of ['faults', 'probes', 'aborted', 'variants']) add(acc[f], d[f]);
        for (const h of d.hashes) hashes.add(h);
        samples.push(...d.samples);
        end(w);
      }
    });
    w.on('error', (e) => { failed ??= String(e.stack ?? e); end(w); });
    w.on('exit', () => end(w));
  }
  // a run that makes no progress at all is a violation of its own
  const beats = new Map();
  const iv = setInterval(() => {
    if (!live.size) return clearInterval(iv);
    for (const w of live) {
      const B = 4 + 4 * w.slot, idx = Atomics.load(S, B), key = idx + ':' + Atomics.load(S, B + 1) + ':' + Atomics.load(S, B + 2);
      const b = beats.get(w);
      if (!idx || !b || b.key !== key) { beats.set(w, { key, at: Date.now() }); continue; }
      if (Date.now() - b.at > HANG_S * 1000) {
        violations.push({ index: idx - 1, kind: 'hang', message: `a call into the library has not returned after ${HANG_S} s`, hang: true, step: Atomics.load(S, B + 1) });
        Atomics.store(S, 1, Math.min(Atomics.load(S, 1), idx - 1));
        w.terminate(); end(w);
      }
    }
  }, 500);
  iv.unref?.();
});
if (failed) { console.error(`harness error: ${failed}`); process.exit(3); }

let rc = 0;
violations.sort((a, b) => a.index - b.index);
if (violations.length) {
  const v = violations[0], full = generate(prop, seed, v.index);
  if (!variants.includes(full.cfg.variant)) full.cfg.variant = v.variant ?? variants[0];
  fs.mkdirSync(`${VERIF}/replays`, { recursive: true });
  const file = `${VERIF}/replays/${prop}-${seed}-${v.index}.json`;
  let trace = full, tries = 0, log, message = v.message, hash = 0;
  if (v.hang) trace = { ...full, steps: full.steps.slice(0, v.step + 1) };
  else {
    const V = load(variants);
    ({ trace, tries } = minimise(V, full, v.kind, tier === 'quick' ? 30000 : 120000));
    const w = runTrace(V, trace, { kinds: new Set([v.kind]), verbose: true });
    log = w.lines; message = w.violation.message; hash = w.h >>> 0;
  }
  fs.writeFileSync(file, JSON.stringify({ property: prop, kind: v.kind, message, seed, index: v.index, hash, steps_before: full.steps.length, minimiser_runs: tries, trace, log }, null, 1));
  // the file must reproduce the violation in a fresh process
  const p = spawnSync(process.execPath, [fileURLToPath(import.meta.url), '--replay', file, '--quiet', '--build', build], { encoding: 'utf8', timeout: v.hang ? HANG_S * 1000 : 120000 });
  let same = false;
  if (v.hang) same = p.error?.code === 'ETIMEDOUT' || p.status === 1;
  else { try { const r = JSON.parse(p.stdout.trim().split('\n')[0]); same = r.reproduced && r.kind === v.kind && r.message === message && r.hash === hash; } catch { } }
  if (!same) { console.error(`harness error: ${file} does not reproduce: ${p.stdout} ${p.stderr}`); process.exit(3); }
  console.log(`${v.kind}: ${message}`);
  for (const s of trace.steps) console.log('  ' + JSON.stringify(s));
  console.log(`  host ${JSON.stringify(trace.cfg)}`);
  console.log(`found at seed ${seed} index ${v.index} (${full.steps.length} steps, minimised to ${trace.steps.length} in ${tries} runs); reproduced from the file in a fresh process`);
  console.log(`VIOLATION property=${prop} replay=${file}`);
  rc = 1;
}
const secs = (Date.now() - t0) / 1000;
samples.sort((a, b) => a.index - b.index);
const ev = {
  property: prop, tier, seed, level: 'exploration',
  coverage: {
    evaluations: acc.runs, distinct_nontrivial: hashes.size, rule: RULE(prop),
    samples: samples.slice(0, 3),
    planned_runs: total, runs_per_hour: Math.round(acc.runs / secs * 3600), simulated_seconds: Math.round(acc.simUs / 1e6),
    operations: acc.ops, host_callbacks_delivered: acc.events, completions_judged: acc.comp,
    faults_injected: acc.faults, situations_reached: acc.probes, runs_cut_short: acc.aborted, runs_per_variant: acc.variants,
    interleaving_measure: 'distinct 32-bit hashes over every operation, host callback, wake-up and completion with its host time, of the runs in which at least one fault fired and at least one completion was judged',
    real_code: REAL, stubs: STUB,
  },
  assumptions: ASSUMPTIONS, wall_s: secs, violations: rc,
};
fs.mkdirSync(`${VERIF}/evidence`, { recursive: true });
fs.writeFileSync(`${VERIF}/evidence/${prop}.json`, JSON.stringify(ev, null, 1) + '\n');
console.log(`${acc.runs} runs, ${hashes.size} distinct, ${(acc.simUs / 3.6e9).toFixed(1)} h simulated, ${secs.toFixed(1)} s`);
process.exit(rc);
