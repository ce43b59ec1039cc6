// One integer decides everything: splitmix-style 32-bit generator, seeded from (seed, property, index).
export function hash32(...parts) {
  let h = 0x811c9dc5 >>> 0;
  for (const p of parts) {
    const s = String(p);
    for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) >>> 0; }
    h ^= 0x9e37; h = Math.imul(h, 0x01000193) >>> 0;
  }
  h ^= h >>> 16; h = Math.imul(h, 0x7feb352d) >>> 0; h ^= h >>> 15; h = Math.imul(h, 0x846ca68b) >>> 0; h ^= h >>> 16;
  return h >>> 0;
}
export class Rng {
  constructor(seed) { this.s = seed >>> 0; }
  u32() {
    this.s = (this.s + 0x9e3779b9) >>> 0;
    let z = this.s;
    z ^= z >>> 16; z = Math.imul(z, 0x21f0aaad) >>> 0; z ^= z >>> 15; z = Math.imul(z, 0x735a2d97) >>> 0; z ^= z >>> 15;
    return z >>> 0;
  }
  f() { return (this.u32() * 2097152 + (this.u32() >>> 11)) / 9007199254740992; }
  below(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + Math.floor(this.f() * (b - a + 1)); }
  chance(p) { return this.f() < p; }
  pick(a) { return a[this.below(a.length)]; }
  /// weighted pick from [[w, v], ...]
  w(a) { let t = 0; for (const x of a) t += x[0]; let r = this.f() * t; for (const x of a) { r -= x[0]; if (r < 0) return x[1]; } return a[a.length - 1][1]; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.below(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}
