// Entry point of the checks on thread schedules: threads.mjs PROP --tier quick|thorough --seed N   |   --replay FILE
// Searches, minimises and reports; the simulation itself is the native program /verif/threads.
import fs from 'node:fs';
import path from 'node:path';
import { spawn, spawnSync } from 'node:child_process';
import { fileURLToPath } from 'node:url';
import { THREAD_PLAN as PLAN, THREAD_ASSUMPTIONS, THREAD_RULE, THREAD_REAL, THREAD_STUB } from './plan.mjs';

const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const args = process.argv.slice(2);
const opt = (k, d) => { const i = args.indexOf('--' + k); return i >= 0 ? args[i + 1] : d; };
const bin = (v) => `${VERIF}/target/${v}/debug/simthreads`;
const TMP = fs.mkdtempSync(`${VERIF}/build/thr-`);
process.on('exit', () => fs.rmSync(TMP, { recursive: true, force: true }));
const last = (s) => { try { return JSON.parse(s.trim().split('\n').at(-1)); } catch { return null; } };

/// one trace in a process of its own; a process that dies is a violation, too
function run(variant, trace) {
  const f = `${TMP}/trace`;
  fs.writeFileSync(f, trace.join('\n') + '\n');
  const p = spawnSync(bin(variant), ['run', f], { encoding: 'utf8', timeout: 60000, killSignal: 'SIGKILL' });
  if (p.error?.code === 'ETIMEDOUT') return { kind: 'hang', message: 'the run does not end', hash: 0, log: [] };
  if (p.signal) return { kind: 'crash', message: `the process was ended by ${p.signal}: ${p.stderr.slice(-300)}`, hash: 0, log: [] };
  const r = last(p.stdout);
  if (!r && p.status === 101) return { kind: 'crash', message: `the process panicked: ${p.stderr.slice(-300)}`, hash: 0, log: [] };
  if (!r) throw new Error(`no result: ${p.stdout} ${p.stderr}`);
  return r;
}

if (opt('replay')) {
  const r = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
  const o = run(r.variant, r.trace);
  if (!args.includes('--quiet')) for (const l of o.log) console.log(l);
  console.log(JSON.stringify({ reproduced: o.kind === r.kind, kind: o.kind, message: o.message, hash: o.hash }));
  if (o.kind) console.log(`VIOLATION property=${r.property} replay=${opt('replay')}`);
  process.exit(o.kind ? 1 : 0);
}

const prop = args[0], tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
const seed = Number(opt('seed', process.env.VERIF_SEED ?? 1)) | 0;
const total = Number(opt('runs', PLAN[prop][tier])), wall = Number(opt('wall', tier === 'quick' ? 150 : 3000));
const variants = opt('variants', 'thr,thrt').split(','), workers = Number(opt('workers', 8));
console.log(`seed ${seed}: ${prop} ${tier}, up to ${total} runs of each of ${variants.join(' ')} on ${workers} processes each`);

const t0 = Date.now(), jobs = [];
for (const v of variants) for (let k = 0; k < workers; k++) jobs.push(new Promise((ok) => {
  const progress = `${TMP}/${v}-${k}`;
  const p = spawn(bin(v), ['search', prop, seed, k, workers, total, wall * 1000].map(String), { env: { ...process.env, SIM_PROGRESS: progress }, stdio: ['ignore', 'pipe', 'pipe'] });
  let out = '', err = '';
  p.stdout.on('data', (d) => out += d);
  p.stderr.on('data', (d) => err = (err + d).slice(-500));
  const kill = setTimeout(() => p.kill('SIGKILL'), (wall + 60) * 1000);
  p.on('exit', (code, signal) => { clearTimeout(kill); setTimeout(() => {
    let at = 0;
    try { at = Number(fs.readFileSync(progress, 'utf8')); } catch { }
    ok({ v, code, signal, err, at, lines: out.trim().split('\n').filter(Boolean).map((l) => JSON.parse(l)) });
  }, 50); });
}));
const done = await Promise.all(jobs);

const acc = { runs: 0, points: 0, switches: 0, completions: 0, ops: 0, sim_us: 0, nontrivial: 0, aborted: 0, faults: {}, probes: {}, variants: {} };
const hashes = new Set(), samples = [], bad = [];
for (const d of done) {
  for (const l of d.lines) {
    if (l.violation) { bad.push({ ...l.violation, variant: d.v }); continue; }
    for (const k of ['runs', 'points', 'switches', 'completions', 'ops', 'sim_us', 'nontrivial', 'aborted']) acc[k] += l[k];
    for (const k of ['faults', 'probes']) for (const n in l[k]) acc[k][n] = (acc[k][n] ?? 0) + l[k][n];
    acc.variants[d.v] = (acc.variants[d.v] ?? 0) + l.runs;
    for (const h of l.hashes) hashes.add(h);
    samples.push(...l.samples.map((s) => ({ variant: d.v, ...s })));
  }
  if (d.signal || d.code === 101) bad.push({ index: d.at, kind: d.signal === 'SIGKILL' ? 'hang' : 'crash', variant: d.v, own: true });
  else if (d.code) { console.error(`harness error: ${d.err}`); process.exit(3); }
}
let rc = 0;
if (bad.length) {
  bad.sort((a, b) => a.index - b.index || a.variant.localeCompare(b.variant));
  // after memory was corrupted, not everything reproduces
  for (const v of bad.slice(0, 4)) {
    const full = v.own ? spawnSync(bin(v.variant), ['gen', prop, String(seed), String(v.index)], { encoding: 'utf8' }).stdout.trim().split('\n') : v.trace;
    let trace = full, tries = 0, r;
    const budget = tier === 'quick' ? 25000 : 120000, m0 = Date.now();
    // every attempt needs a process of its own: drop operations anywhere, then switches
    const outside = () => {
      r = run(v.variant, trace);
      v.kind = r.kind || v.kind;
      for (let i = 0; v.kind !== 'hang' && i < trace.length; i++) if (/^(setup|thread|sched)/.test(trace[i])) for (let k = trace[i].split(' ').length - 1; k > 0 && Date.now() - m0 < budget; k--) {
        const w = trace[i].split(' '); w.splice(k, 1);
        const c = trace.with(i, w.join(' ')); tries++;
        const q = run(v.variant, c);
        if (q.kind === v.kind) { trace = c; r = q; }
      }
    };
    if (v.own) outside();
    else {
      fs.writeFileSync(`${TMP}/trace`, trace.join('\n') + '\n');
      const p = spawnSync(bin(v.variant), ['minimise', `${TMP}/trace`, v.kind, String(budget)], { encoding: 'utf8', timeout: budget + 120000, killSignal: 'SIGKILL' });
      const q = last(p.stdout ?? '');
      if (q && q.kind === v.kind) { trace = q.trace; tries = Number(p.stdout.split('\n')[0].split(' ')[1]); r = run(v.variant, trace); }
      if (r?.kind !== v.kind) { trace = full; outside(); }
    }
    fs.mkdirSync(`${VERIF}/replays`, { recursive: true });
    const file = `${VERIF}/replays/${prop}-${seed}-${v.index}.json`;
    fs.writeFileSync(file, JSON.stringify({ property: prop, variant: v.variant, kind: v.kind, message: r.message, seed, index: v.index, hash: r.hash, minimiser_runs: tries, trace, log: r.log }, null, 1));
    const again = JSON.parse(fs.readFileSync(file, 'utf8')), q = run(again.variant, again.trace);
    if (r.kind !== v.kind || q.kind !== v.kind || q.hash !== r.hash) { console.error(`harness error: ${file} does not reproduce: ${JSON.stringify([v, r, q])}`); rc = 3; continue; }
    console.log(`${v.kind}: ${r.message}`);
    for (const s of trace) console.log('  ' + s);
    for (const s of r.log) console.log('    ' + s);
    console.log(`found at seed ${seed} index ${v.index} of ${v.variant} (minimised in ${tries} runs); reproduced from the file in a fresh process`);
    console.log(`VIOLATION property=${prop} replay=${file}`);
    rc = 1;
    break;
  }
  if (rc === 3) process.exit(3);
}
const secs = (Date.now() - t0) / 1000;
samples.sort((a, b) => a.index - b.index);
const ev = {
  property: prop, tier, seed, level: 'exploration',
  coverage: {
    evaluations: acc.runs, distinct_nontrivial: hashes.size, rule: THREAD_RULE, samples: samples.slice(0, 3),
    planned_runs: total * variants.length, runs_per_hour: Math.round(acc.runs / secs * 3600), simulated_seconds: Math.round(acc.sim_us / 1e6),
    operations: acc.ops, scheduling_points: acc.points, thread_switches: acc.switches, completions_judged: acc.completions,
    runs_with_switches_and_completions: acc.nontrivial, runs_cut_short: acc.aborted, faults_injected: { thread_preempted: acc.switches, ...acc.faults }, situations_reached: acc.probes, runs_per_variant: acc.variants,
    interleaving_measure: 'distinct 64-bit hashes over every switch (with its scheduling point), every delay and every host request, of the runs with at least one switch between threads and one completion',
    real_code: THREAD_REAL, stubs: THREAD_STUB,
  },
  assumptions: THREAD_ASSUMPTIONS, wall_s: secs, violations: rc,
};
fs.mkdirSync(`${VERIF}/evidence`, { recursive: true });
fs.writeFileSync(`${VERIF}/evidence/${prop}.json`, JSON.stringify(ev, null, 1) + '\n');
console.log(`${acc.runs} runs, ${hashes.size} distinct schedules, ${acc.switches} switches, ${(acc.sim_us / 3.6e9).toFixed(1)} h simulated, ${secs.toFixed(1)} s`);
process.exit(rc);
