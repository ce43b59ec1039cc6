// Is a seed one exactly repeatable execution? node tools/selftest.mjs [runs per property] [build directory]
// Wasm: the same indices in ascending and in descending order, in separate processes, compared run by run.
// Threads: the same indices in one process and spread over five, compared by their sums and the set of histories.
import { spawnSync } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import { fileURLToPath } from 'node:url';
import path from 'node:path';
const SELF = fileURLToPath(import.meta.url), VERIF = path.dirname(path.dirname(SELF));
const { loadVariant } = await import(`${VERIF}/sim/inst.mjs`);
const { generate, PROPS } = await import(`${VERIF}/sim/gen.mjs`);
const { runTrace } = await import(`${VERIF}/sim/run1.mjs`);
if (process.argv[2] === '--list') {
  const [, , , prop, n, down, build] = process.argv, V = {};
  for (const k of ['dev', 'tu', 'rel', 'turel']) V[k] = loadVariant(`${build}/${k}`);
  const out = [];
  for (let k = 0; k < +n; k++) {
    const i = down === '1' ? n - 1 - k : k, t = generate(prop, 4242, i), w = runTrace(V, t);
    out[i] = `${w.h} ${w.completions} ${w.ops} ${w.host.t} ${w.host.seq} ${w.aborted ?? ''} ${w.violation?.message ?? ''} ${JSON.stringify(w.probes)} ${createHash('md5').update(JSON.stringify(t)).digest('hex')}`;
  }
  console.log(out.join('\n'));
  process.exit(0);
}
const N = +(process.argv[2] ?? 1000), build = process.argv[3] ?? `${VERIF}/build`;
for (const a of [['tools/build.sh', build, 'dev', 'tu', 'rel', 'turel'], ['tools/build_threads.sh', 'thr', 'thrt']]) if (spawnSync('bash', a, { cwd: VERIF, stdio: 'inherit' }).status) process.exit(2);
let bad = 0;
for (const p of PROPS) {
  const [a, b] = [0, 1].map((d) => spawnSync(process.execPath, [SELF, '--list', p, N, d, build], { encoding: 'utf8', maxBuffer: 1 << 30 }).stdout.split('\n'));
  const at = a.findIndex((x, i) => x !== b[i]), ok = at < 0 && a.length === N + 1;
  console.log(p, ok ? `${N} runs, the same twice` : `DIFFERENT at ${at}:\n  ${a[at]}\n  ${b[at]}`);
  if (!ok) bad++;
}
for (const v of ['thr', 'thrt']) for (const p of ['C21', 'C22']) {
  const bin = `${VERIF}/target/${v}/debug/simthreads`;
  if (!fs.existsSync(bin)) { console.log(p, v, 'not built'); continue; }
  const sum = (step) => {
    const s = {}, h = new Set();
    for (let k = 0; k < step; k++) {
      const r = JSON.parse(spawnSync(bin, ['search', p, 4242, k, step, 10 * N, 600000].map(String), { encoding: 'utf8', maxBuffer: 1 << 30 }).stdout.trim().split('\n').at(-1));
      for (const f of ['runs', 'points', 'switches', 'completions', 'ops', 'sim_us', 'nontrivial', 'aborted']) s[f] = (s[f] ?? 0) + r[f];
      for (const x of r.hashes) h.add(x);
    }
    return JSON.stringify(s) + ' ' + createHash('md5').update([...h].sort().join()).digest('hex');
  };
  const a = sum(1), b = sum(5);
  console.log(p, v, a === b ? `${10 * N} runs, the same twice` : `DIFFERENT:\n  ${a}\n  ${b}`);
  if (a !== b) bad++;
}
process.exit(bad ? 1 : 0);
