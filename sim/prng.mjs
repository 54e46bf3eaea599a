// The one source of randomness. Every choice of a run is drawn from a Rng that
// was made from VERIF_SEED and the names of the things being decided.
export class Rng {
  constructor(...parts) {
    // xmur3-style hash of the parts into four words, then sfc32.
    let h = 1779033703;
    const s = parts.join('|');
    for (let i = 0; i < s.length; i++) {
      h = Math.imul(h ^ s.charCodeAt(i), 3432918353);
      h = (h << 13) | (h >>> 19);
    }
    const w = () => {
      h = Math.imul(h ^ (h >>> 16), 2246822507);
      h = Math.imul(h ^ (h >>> 13), 3266489909);
      return (h ^= h >>> 16) >>> 0;
    };
    this.a = w(); this.b = w(); this.c = w(); this.d = w();
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  u64() { return (BigInt(this.u32()) << 32n) | BigInt(this.u32()); }
  float() { return this.u32() / 4294967296; }
  int(n) { return n <= 1 ? 0 : Math.floor(this.float() * n); } // [0,n)
  range(a, b) { return a + this.int(b - a + 1); } // [a,b]
  chance(p) { return this.float() < p; }
  pick(xs) { return xs[this.int(xs.length)]; }
  weighted(pairs) { // [[weight, value]...]
    let t = 0;
    for (const [w] of pairs) t += w;
    let x = this.float() * t;
    for (const [w, v] of pairs) if ((x -= w) < 0) return v;
    return pairs[pairs.length - 1][1];
  }
  shuffle(xs) {
    for (let i = xs.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [xs[i], xs[j]] = [xs[j], xs[i]];
    }
    return xs;
  }
  sample(xs, n) { return this.shuffle(xs.slice()).slice(0, n); }
  bytes(buf) {
    for (let i = 0; i < buf.length; i++) buf[i] = this.u32() >>> 24;
    return buf;
  }
}
export function hash32(s) {
  let h = 2166136261;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619);
  return (h >>> 0).toString(16).padStart(8, '0');
}
