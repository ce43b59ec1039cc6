// Loads the shipped wasm build of wasmtimer (inside the thin adapter /verif/harness) into a fake
// JavaScript host. Every call creates a fresh, isolated program instance.
import fs from 'node:fs';

const PARAMS = ['globalThis', 'self', 'window', 'global', 'document', 'location', 'process', 'require',
  'performance', 'setTimeout', 'clearTimeout', 'setInterval', 'queueMicrotask', 'crypto', 'console',
  'Date', 'FinalizationRegistry', 'Function', '__sim_wake', '__sim_waker_gone', '__sim_panic'];

export function loadVariant(dir) {
  const glue = fs.readFileSync(`${dir}/simharness.js`, 'utf8');
  const module = new WebAssembly.Module(fs.readFileSync(`${dir}/simharness_bg.wasm`));
  const factory = new Function(...PARAMS, `${glue}\n; return wasm_bindgen;`);
  return { module, factory };
}

/// The kinds of JavaScript host: the names of the global object, and what setTimeout returns.
export const HOSTS = [
  { name: 'window', names: ['globalThis', 'self', 'window'], document: true },
  { name: 'worker', names: ['globalThis', 'self'] },
  { name: 'node', names: ['globalThis', 'global'], objects: true },
  { name: 'window without globalThis', names: ['self', 'window'], document: true },
  { name: 'node without globalThis', names: ['global'], objects: true },
  { name: 'shell', names: ['globalThis'] },
];

/// The global object. As in real hosts, its functions insist on the object they belong to.
function makeGlobal(host, kind, FakeDate) {
  const illegal = (what) => { host.illegal ??= `${what} was called on another object`; throw new TypeError('Illegal invocation'); };
  const perf = new (class Performance { now() { if (this !== perf) illegal('performance.now'); return host.perfNow(); } })();
  class Global {
    get performance() { if (this !== g && this !== undefined) illegal('the getter of performance'); return perf; }
    setTimeout(cb, ms) { if (this !== g && this !== undefined) illegal('setTimeout'); return host.setTimeout(cb, ms); }
    clearTimeout(id) { if (this !== g && this !== undefined) illegal('clearTimeout'); host.clearTimeout(id); }
  }
  const g = new Global();
  Object.assign(g, { Date: FakeDate, Object, Array, Error, Math, Number });
  for (const n of kind.names) g[n] = g;
  const now = () => host.perfNow() / 1e3, bigint = () => BigInt(Math.round(host.perfNow() * 1e6));
  if (kind.objects) g.process = { versions: { node: '22.0.0' }, env: {}, uptime: now, hrtime: Object.assign(() => [Math.floor(now()), Math.floor(now() % 1 * 1e9)], { bigint }) };
  if (kind.document) g.document = { currentScript: null, hidden: false, visibilityState: 'visible', hasFocus: () => true };
  return g;
}

/// host: the simulated host; sink: {wake, gone, panic}
export function instantiate(variant, host, sink) {
  const FakeDate = class Date { static now() { return host.dateNow(); } getTime() { return host.dateNow(); } };
  const kind = host.kind, g = makeGlobal(host, kind, FakeDate), named = (n) => kind.names.includes(n) ? g : undefined;
  const wb = variant.factory(named('globalThis'), named('self'), named('window'), named('global'), g.document, undefined, g.process, undefined,
    g.performance, g.setTimeout, g.clearTimeout, undefined, undefined, undefined, undefined,
    FakeDate, undefined, undefined, sink.wake, sink.gone, sink.panic);
  const x = wb.initSync({ module: variant.module });
  return x;
}
