// Cases for the library harness (go/libsim), one generator per property.
import { Rng } from './prng.mjs';
import { Gen, genStyle, textOf, genSize, HEADS } from './gen.mjs';
import { damage, soup, cat } from './damage.mjs';

const enc = new TextEncoder();
export const b64 = (u8) => Buffer.from(u8).toString('base64');
export const unb64 = (s) => new Uint8Array(Buffer.from(s || '', 'base64'));
const NTRANS = 9, NSTYLE = 11, ALLOPTS = 8;
const OVNAMES = ['foo', 'bar', 'let', 'defn', 'if', 'x/y', 'str/join', '->', 'GET', 'select', 'a.b/c', 'k/go', 'korma.core/select', 'clojure.string/join', 'when', '+', 'clojure.string/foo', 'case', 'clojure.core/foo', 'clojure.core/let', 'join', 'clojure.core/when', 'y', 'FOO', ':foo'];

export function genCfg(rng) {
  const c = {};
  if (rng.chance(0.2)) c.indent = 1;
  if (rng.chance(0.15)) c.niltr = true;
  else {
    c.tr = {};
    const mode = rng.int(4);
    for (let i = 0; i < NTRANS; i++) {
      if (mode === 0) continue; // defaults only
      if (mode === 1) c.tr[i] = true;
      else if (rng.chance(0.6)) c.tr[i] = rng.chance(0.5);
    }
  }
  if (rng.chance(0.35)) { c.ov = {}; for (const n of rng.sample(OVNAMES, rng.range(0, 5))) c.ov[n] = rng.int(NSTYLE); }
  if (rng.chance(0.25)) { c.tf = {}; for (const n of rng.sample(OVNAMES, rng.range(0, 4))) c.tf[n] = rng.int(2); }
  return c;
}

export function genProgram(rng, size, tweak) {
  const style = genStyle(rng);
  if (tweak) tweak(style, rng);
  const g = new Gen(rng, style);
  const pieces = g.program(size ?? genSize(rng));
  return { pieces, bytes: enc.encode(textOf(pieces)) };
}

// A source: mostly a program, sometimes damaged, sometimes soup.
function genSource(rng, pDamage = 0.2, size, tweak) {
  if (rng.chance(0.06)) return soup(rng);
  let b = genProgram(rng, size, tweak).bytes;
  if (rng.chance(pDamage)) {
    const n = rng.range(1, 2);
    for (let i = 0; i < n; i++) b = damage(rng, b, undefined).bytes;
  }
  return b;
}

// Forms nested deep or repeated often, so that work that grows faster than the
// input shows.
const NEST = [['(', ')'], ['[', ']'], ['{:a ', '}'], ['#{', '}'], ['#?(:clj ', ')'], ['#?@(:clj ', ')'], ["'", ''], ["'(", ')'], ['[`', ']'], ['(@', ')'], ['(^:a ', ')'], ['(#_', ')'], ['@', ''], ['`', ''], ['~', ''], ['~@', ''], ['^:a ', ' x'], ['#_', ''], ['#_ #_', ' x'], ['#=(', ')'], ['#foo [', ']'], ['#:a{:b ', '}'], ['#(', ')'],
  ['(let [a ', '] a)'], ['(let [a b]\n', ')'], ['(for [x y :let [a ', ']] x)'], ['(letfn [(f [x] ', ')] f)'], ['(if a\n', ' b)'], ['(if ', ' a\nb)'], ['(if a ', '\nb)'], ['(cond a\n', ')'], ['(condp = x\n1 ', ')'], ['(case x\n1 ', ')'], ['(defn f\n[x] ', '\n)'], ['(defn f [x]\n', ')'], ['(defmethod f\n:a\n[x] ', ')'], ['(deftype A [x] (m [y] ', '))'], ['(reify A (m [y] ', '))'], ['(ns a (:require [b ', ']))'], ['(ns a "doc\n" ', ')'], ['(def a "doc\nmore" ', ')'], ['(defn a "doc\n  more\n" ', ')'], ['"s\nt" (a\n', ')'], ['(comment ', ')'],
  ['(\n\n\n', '\n\n\n)'], ['(; c\n', '; c\n)'], ['(foo "a\n b" ', ')'], ['(do\r', '\r)']];
export function nested(rng) {
  const tpl = [...NEST, ...Array.from({ length: 10 }, () => { const h = rng.pick(HEADS); return rng.pick([[`(${h} `, ')'], [`(${h} a `, ')'], [`(${h} a\n`, ')'], [`(${h} [a] `, ' b)'], [`(${h} a b `, ' c)']]); }), ['(-> ', ')'], ['(-> a ', ')'], ['(cond-> a b ', ')'], ['(some-> a\n', ')'], ['(->> a ', ')'], ['(foo ', ')'], ['(x/y ', ')'], ['(let a ', ')']];
  const pick = () => rng.pick(tpl);
  const n = rng.weighted([[5, 1], [3, 2], [2, 3]]), ts = Array.from({ length: n }, pick);
  if (rng.chance(0.25)) { const unit = ts.map(([o, c]) => o + rng.pick(['a', '"s"', '1', '']) + c).join(rng.pick([' ', '\n', '\n\n'])); return enc.encode(Array(Math.min(rng.weighted([[3, rng.range(50, 400)], [1, rng.range(400, 3000)]]), Math.ceil(40000 / (unit.length + 1)))).fill(unit).join(rng.pick([' ', '\n', '\n\n\n']))); }
  if (rng.chance(0.45)) return manyRequires(rng);
  const d = Math.min(rng.weighted([[5, rng.range(12, 60)], [1, rng.range(100, 1000)], [0.6, rng.range(1000, 4000)]]), Math.ceil(30000 * n / ts.reduce((a, [o, e]) => a + o.length + e.length, 0))); // the output may be as long as the square of this
  let o = '', c = '';
  for (let i = 0; i < d; i++) { const t = ts[i % n]; o += t[0]; c = t[1] + c; }
  return enc.encode(o + rng.pick(['x', '"s"', '', '; c\n']) + (rng.chance(0.9) ? c : ''));
}
// A namespace declaration with very many clauses, and uses of them.
function manyRequires(rng) {
  const large = rng.chance(0.4), n = large ? rng.range(1000, 3000) : rng.range(50, 600), kinds = rng.sample(['[lib :only [a#]]', '[lib# :only [a# b#]]', '[lib# :as l#]', '[lib# :refer [a# b#]]', 'lib#', '[lib#]', '[lib :refer [a#]]', '(lib [x#] [y# :as z#])', '[lib# :as l#] ; c', '(:import lib.C#)', '"lib#"', '[lib# :refer :all]', '[lib :refer [a#] :as l]', '[lib :refer [a#] :as l#]'], large ? rng.range(1, 2) : rng.range(1, 3));
  const cl = (k) => Array.from({ length: n }, (_, i) => rng.pick(k).replace(/#/g, rng.chance(0.9) ? i : i >> 1)).join(rng.pick([' ', '\n', '\n\n']));
  const keys = [':require', ':use', ':import', ':require-macros', ':require', ':use'], key1 = rng.pick(keys), key = () => (large ? key1 : rng.pick(keys));
  const m = rng.weighted([[3, 1], [1, 2], [1, n]]);
  let t = '(ns foo';
  if (m === n) t += Array.from({ length: Math.min(n, 200) }, (_, i) => `\n(${key()} ${rng.pick(kinds).replace(/#/g, i)})`).join('');
  else for (let j = 0; j < m; j++) t += `\n(${key()} ${cl(kinds)})`;
  t += ')\n';
  for (let i = 0; i < n; i++) if (rng.chance(0.5)) t += rng.pick([`(l${i}/x a${i})`, `b${i}`, `(lib${i}/y)`, `(z${i}/f)\n`]) + ' ';
  return enc.encode(t);
}
const CHUNK = [[1], [2], [3], [1, 2], [0, 1], [0, 0, 1, 5], [7], [4095], [4096], [4097], [4094, 1, 1], [4093, 1, 1, 1], [2047, 3], [511], [13, 0, 200], [1, 4096], [5000]];
function genChunks(rng, src) {
  const r = rng.int(10);
  if (r < 4) return rng.pick(CHUNK);
  if (r < 6) { const n = rng.range(1, 8); return Array.from({ length: n }, () => rng.int(rng.pick([3, 9, 70, 4200]))).concat([1]); }
  if (r < 8 && src.length > 1) { // one split at an interesting place
    const p = splitPoint(rng, src); return [Math.max(1, p), 100000];
  }
  if (r < 9) { // up to 40 empty reads in a row, then something
    return [...Array(rng.range(1, 40)).fill(0), rng.range(1, 64)];
  }
  return [];
}
// inside a character, at a token edge, or anywhere
function splitPoint(rng, src) {
  const c = [];
  const lo = rng.int(src.length), hi = Math.min(src.length, lo + 200);
  for (let i = lo; i < hi; i++) if (src[i] >= 0x80 || (i && /[\s"\\#'`~@^;()[\]{}]/.test(String.fromCharCode(src[i]) + String.fromCharCode(src[i - 1])))) c.push(i);
  return c.length && rng.chance(0.85) ? rng.pick(c) : rng.int(src.length + 1);
}
const AFTER = [')', ']', '}', '"', ' x', '\n', ' (a', ' 1', ')))', '\n; c\n', '\\', '#', 'abc', '\u00e9'];
function genPlan(rng, src) {
  const p = { chunks: genChunks(rng, src) };
  if (rng.chance(0.4)) p.eofdata = true;
  if (rng.chance(0.5)) p.after = b64(enc.encode(rng.pick(AFTER)));
  if (rng.chance(0.25)) p.scribble = true;
  if (rng.chance(0.3)) p.wrap = rng.range(1, 24);
  if (rng.chance(0.04)) p.slow = rng.pick([1, 31, 3600]);
  return p;
}
function genFailPlan(rng, src) {
  const p = genPlan(rng, src);
  delete p.after; delete p.eofdata;
  p.fail = true;
  p.failat = rng.chance(0.1) ? src.length : rng.chance(0.1) ? 0 : splitPoint(rng, src);
  p.withdata = rng.chance(0.5);
  p.once = rng.chance(0.3);
  p.ekind = rng.weighted([[4, 0], [3, 1], [1.5, 2], [1, 4], [0.7, 5], [9, rng.range(6, 23)]]);
  if (p.wrap > 18) p.wrap -= 9;
  if (p.wrap > 9) p.wrap = p.wrap > 14 ? p.wrap : p.wrap - 9;
  if (rng.chance(0.1)) { p.endless = true; p.once = false; p.withdata = false; }
  return p;
}
function genWPlan(rng, outLen) {
  const p = {};
  if (rng.chance(0.92)) {
    p.fail = true;
    p.failat = rng.weighted([[3, rng.int(outLen + 2)], [1, 0], [1, Math.max(0, outLen - rng.int(3))], [1, 4096 * rng.int(1 + Math.ceil(outLen / 4096)) + rng.int(3) - 1]]);
    if (p.failat < 0) p.failat = 0;
    if (rng.chance(0.35)) { delete p.failat; p.fromend = rng.weighted([[3, 1], [1, 2], [1, rng.range(1, 40)], [1, 4096 + rng.int(3) - 1]]); }
    p.shape = rng.int(6);
    p.ekind = rng.chance(0.5) ? rng.int(3) : rng.int(24);
    // bufio and WriteString go on after a short write without an error
    if (rng.chance(0.3)) { p.wrap = rng.range(1, 7); if (p.shape === 1 || p.shape === 4) p.wrap = rng.pick([2, 7]); }
    if (rng.chance(0.03)) p.slow = rng.pick([1, 31, 3600]);
  } else if (rng.chance(0.8)) p.wrap = rng.range(1, 10);
  return p;
}
const nsTweak = (s, r) => { if (r.chance(0.7)) s.ns = true; };

// Sources beyond the sizes where buffers, limits and counters of common widths
// end: one token that long, or ever so many short ones.
export function huge(rng, max = 150000, size) {
  const n = size || rng.weighted([[4, 65536 + rng.range(-3, 3)], [2, rng.range(65540, 90000)], [2, 131072 + rng.range(-3, 40)], [2, rng.range(30000, 150000)], [1, rng.range(262144, 270000)], [1.5, 1048576 + rng.range(1, 20000)]]);
  const m = Math.min(n, max), some = () => textOf(new Gen(rng, genStyle(rng)).program(rng.range(5, 200)));
  const unit = rng.pick(['a\n', ';; c\n', ':k "v"\n', '(a b)\n', '\n', ' ', '[a\n b]\n\n', 'x ', '"s" ', '\\a ', '#_a b\n', ', ', '1\n\n\n', "'q ", '(defn f\n[x]\n  x)\n', ';\n']);
  const mid = rng.chance(0.55) ? unit.repeat(Math.ceil(m / unit.length)) : rng.pick([() => ';' + 'c'.repeat(m) + '\n', () => ';' + ' c'.repeat(m >> 1) + '\n', () => '"' + 's'.repeat(m) + '"', () => '"' + 's\n'.repeat(m >> 1) + '"', () => '"' + '\\n'.repeat(m >> 1) + '"', () => 'y'.repeat(m), () => ':' + 'k'.repeat(m), () => '1' + '0'.repeat(m), () => '#"' + '.'.repeat(m) + '"', () => '(a ' + 'b '.repeat(m >> 1) + ')', () => '[' + 'b\n'.repeat(m >> 1) + ']', () => '"' + '\u00e9'.repeat(m >> 1) + '"'])();
  return enc.encode((rng.chance(0.5) ? some() + '\n' : '') + mid + (rng.chance(0.6) ? '\n' + some() : ''));
}

export const libGen = {
  deliver(rng, deep) {
    const src = rng.chance(0.002) ? huge(rng) : genSource(rng, 0.35);
    const n = deep ? 10 : 7;
    return { kind: 'deliver', src: b64(src), opts: rng.int(ALLOPTS), cfg: genCfg(rng), plans: Array.from({ length: n }, () => genPlan(rng, src)), ...(src.length <= 700 && rng.chance(0.25) ? { sweep: true } : {}) };
  },
  rfail(rng, deep) {
    const src = genSource(rng, 0.15);
    const n = deep ? 16 : 10;
    return { kind: 'rfail', src: b64(src), opts: rng.int(ALLOPTS), cfg: {}, plans: Array.from({ length: n }, () => genFailPlan(rng, src)), ...(src.length <= 400 && rng.chance(0.25) ? { sweep: true } : {}) };
  },
  damage(rng) {
    const a = genProgram(rng, undefined, nsTweak);
    const c = { kind: 'damage', cfg: {}, opts: rng.int(ALLOPTS), allopts: rng.chance(0.4), cfgs: [genCfg(rng), genCfg(rng)] };
    const r = rng.float();
    if (r < 0.05) c.src = b64(soup(rng));
    else if (r < 0.052) c.src = b64(huge(rng));
    else if (r < 0.08) c.src = b64(nested(rng));
    else if (r < 0.1) { // nesting
      const o = rng.pick(['(', '[', '{', '#{', '\'', '@', '#(', '^', '#_ ', '`', '~', '#?(', '#foo ', '(a ', '{:a ', '~@', '#=']), d = rng.range(10, 400);
      c.src = b64(enc.encode(o.repeat(d) + (rng.chance(0.5) ? 'x' : '') + (rng.chance(0.3) ? (o.includes('(') ? ')' : o.includes('[') ? ']' : '}').repeat(d) : '')));
    } else if (r < 0.32) { // cut inside a delimited form
      const ks = a.pieces.map((p, i) => [p, i]).filter(([p]) => p.k === 'delim' && p.t.length > 1);
      if (ks.length) {
        const [p, i] = rng.pick(ks);
        const full = enc.encode(p.t);
        const before = enc.encode(textOf(a.pieces.slice(0, i)));
        const cutp = 1 + (rng.chance(0.6) ? splitPoint(rng, full.slice(1)) : rng.int(full.length - 1));
        c.src = b64(cat(before, full.slice(0, Math.min(cutp, full.length - 1))));
        c.mustfail = true;
      } else c.src = b64(a.bytes);
    } else {
      const other = rng.chance(0.5) ? genProgram(rng).bytes : undefined;
      let b = a.bytes;
      const n = rng.weighted([[0.5, 0], [6, 1], [3, 2], [2, 4]]);
      for (let i = 0; i < n; i++) b = damage(rng, b, other).bytes;
      c.src = b64(b);
    }
    return c;
  },
  stop(rng, deep) {
    const deepSrc = rng.chance(0.35), src = rng.chance(0.003) ? huge(rng) : deepSrc ? nested(rng) : genSource(rng, 0.5);
    const n = deep ? 10 : 6;
    const plans = Array.from({ length: n }, () => (rng.chance(0.6) ? genPlan(rng, src) : genFailPlan(rng, src)));
    const cfg = genCfg(rng);
    if (deepSrc && rng.chance(0.6)) { delete cfg.niltr; cfg.tr = {}; for (let i = 0; i < NTRANS; i++) if (rng.chance(0.85)) cfg.tr[i] = true; }
    return { kind: 'stop', src: b64(src), opts: deepSrc && rng.chance(0.6) ? 1 : rng.int(ALLOPTS), cfg, plans, wplans: plans.map(() => genWPlan(rng, src.length)),
      seed: rng.u32(), prob: rng.pick([0, 0.001, 0.02, Math.min(1, 100 / (src.length + 1))]) };
  },
  wfail(rng, deep) {
    const src = rng.chance(0.003) ? huge(rng) : genProgram(rng).bytes;
    const n = deep ? 24 : 14;
    return { kind: 'wfail', src: b64(src), opts: rng.chance(0.8) ? 1 : rng.int(ALLOPTS), cfg: genCfg(rng), wplans: Array.from({ length: n }, () => genWPlan(rng, src.length)), ...(src.length <= 700 && rng.chance(0.15) ? { sweep: true } : {}), ...(rng.chance(0.15) ? { pad: rng.pick([1, 2, 2, 3]) } : {}) };
  },
  determ(rng, deep) {
    const src = genSource(rng, 0.1, rng.range(50, 1500), (s, r) => { if (r.chance(0.85)) s.ns = true; });
    const cfg = genCfg(rng);
    const m = rng.int(5); // all transforms; all but the sort; the rest by chance
    if (m < 3) { cfg.niltr = false; cfg.tr = {}; for (let i = 0; i < NTRANS; i++) cfg.tr[i] = true; if (m > 0) cfg.tr[0] = false; if (m > 1) cfg.tr[rng.range(1, NTRANS - 1)] = false; }
    return { kind: 'determ', src: b64(src), opts: rng.chance(0.85) ? 1 : rng.int(ALLOPTS), cfg, runs: deep ? 10 : 6, seed: rng.u32(), prob: rng.pick([0, 0.01, 0.2]) };
  },
  tasks(rng, deep) {
    const n = rng.range(2, deep ? 6 : 4);
    const cfgs = Array.from({ length: rng.range(1, 2) }, () => genCfg(rng));
    const shared = rng.chance(0.7);
    const same = rng.chance(0.2) ? genSource(rng, 0.1, rng.range(20, 400), nsTweak) : null;
    const tasks = Array.from({ length: n }, () => {
      const src = same || genSource(rng, 0.1, rng.range(20, 700), nsTweak);
      const plan = rng.chance(0.6) ? {} : rng.chance(0.7) ? genPlan(rng, src) : genFailPlan(rng, src);
      delete plan.endless;
      return { src: b64(src), opts: rng.chance(0.8) ? 1 : rng.int(ALLOPTS), cfg: rng.int(cfgs.length), plan };
    });
    return { kind: 'tasks', tasks, cfgs, cfg: {}, shared, seed: rng.u32(), prob: rng.pick([0.002, 0.01, 0.05, 0.2, 0.5, 1]) };
  },
  history(rng, deep) {
    const n = rng.range(2, deep ? 6 : 4);
    const cfg = genCfg(rng);
    const tasks = Array.from({ length: n }, () => {
      const src = genSource(rng, 0.1, rng.range(10, 500), nsTweak);
      const plan = rng.chance(0.7) ? {} : rng.chance(0.5) ? genPlan(rng, src) : genFailPlan(rng, src);
      delete plan.endless;
      return { src: b64(src), opts: rng.chance(0.9) ? 1 : rng.int(ALLOPTS), cfg: 0, plan };
    });
    return { kind: 'history', tasks, cfg };
  },
  faithful(rng) {
    const ns = rng.chance(0.35); // with the transforms that rearrange namespace declarations
    let b = genProgram(rng, rng.chance(0.7) ? rng.range(20, 300) : undefined, ns ? nsTweak : undefined).bytes;
    const n = rng.weighted([[1, 0], [6, 1], [3, 2], [1, 4]]);
    const other = rng.chance(0.3) ? genProgram(rng, 200).bytes : undefined;
    for (let i = 0; i < n; i++) b = damage(rng, b, other, rng.chance(0.5) ? ['flip', 'overwrite', 'insert', 'invalid', 'drop', 'dup'] : undefined).bytes;
    if (rng.chance(0.003)) b = huge(rng, 2e6);
    return { kind: 'faithful', src: b64(b), cfg: genCfg(rng), opts: 1, ...(ns ? { ns } : {}) };
  },
};

// ---- shrinking one case: yields smaller cases.
function* shrinkBytes(u8) {
  const n = u8.length;
  for (let k = Math.ceil(n / 2); k >= 1; k = k > 16 ? Math.floor(k / 2) : k - (k > 8 ? 4 : k > 2 ? 2 : 1)) {
    for (let p = 0; p < n; p += k) yield cat(u8.slice(0, p), u8.slice(Math.min(n, p + k)));
    if (k === 1) break;
  }
}
function* shrinkList(xs) {
  for (let k = Math.ceil(xs.length / 2); k >= 1; k = Math.floor(k / 2)) {
    for (let p = 0; p < xs.length; p += k) { const y = xs.slice(0, p).concat(xs.slice(p + k)); if (y.length < xs.length) yield y; }
  }
}
function* shrinkCfg(c) {
  for (const f of ['ov', 'tf', 'indent', 'niltr']) if (c[f]) { const d = { ...c }; delete d[f]; yield d; }
  if (c.tr) for (const k of Object.keys(c.tr)) { const d = { ...c, tr: { ...c.tr } }; delete d.tr[k]; yield d; }
  for (const f of ['ov', 'tf']) if (c[f]) for (const k of Object.keys(c[f])) { const d = { ...c, [f]: { ...c[f] } }; delete d[f][k]; yield d; }
}
export function* shrinkLib(c) {
  for (const f of ['plans', 'wplans', 'cfgs', 'tasks']) if (c[f] && c[f].length > 1) {
    if (c.kind === 'stop' && f !== 'plans') continue;
    if (c.kind === 'tasks' && f === 'cfgs') continue;
    for (const y of shrinkList(c[f])) { if (!y.length) continue; const d = { ...c, [f]: y }; if (c.kind === 'stop') d.wplans = (c.wplans || []).filter((_, i) => y.includes(c.plans[i])); yield d; }
  }
  if (c.sweep) yield { ...c, sweep: undefined };
  if (c.pad) yield { ...c, pad: undefined };
  if (c.allopts) yield { ...c, allopts: false };
  if (c.src !== undefined && !c.mustfail) for (const y of shrinkBytes(unb64(c.src))) yield { ...c, src: b64(y) };
  if (c.src !== undefined && c.mustfail) { const u = unb64(c.src); for (let k = Math.ceil(u.length / 2); k >= 1; k = Math.floor(k / 2)) void k; }
  if (c.tasks) for (let i = 0; i < c.tasks.length; i++) {
    for (const y of shrinkBytes(unb64(c.tasks[i].src))) { const t = c.tasks.slice(); t[i] = { ...t[i], src: b64(y) }; yield { ...c, tasks: t }; }
    if (Object.keys(c.tasks[i].plan).length) { const t = c.tasks.slice(); t[i] = { ...t[i], plan: {} }; yield { ...c, tasks: t }; }
  }
  if (c.plans) for (let i = 0; i < c.plans.length; i++) {
    const p = c.plans[i];
    const rep = (q) => { const ps = c.plans.slice(); ps[i] = q; return { ...c, plans: ps }; };
    for (const f of ['after', 'scribble', 'eofdata', 'once', 'withdata', 'ekind', 'wrap', 'slow']) if (p[f]) { const q = { ...p }; delete q[f]; yield rep(q); }
    if (p.chunks && p.chunks.length) { yield rep({ ...p, chunks: [] }); for (const y of shrinkList(p.chunks)) if (y.some((x) => x > 0)) yield rep({ ...p, chunks: y }); }
    if (p.failat > 0) { yield rep({ ...p, failat: p.failat >> 1 }); yield rep({ ...p, failat: p.failat - 1 }); }
  }
  if (c.wplans) for (let i = 0; i < c.wplans.length; i++) {
    const p = c.wplans[i];
    for (const f of ['wrap', 'slow', 'ekind']) if (p[f]) { const ps = c.wplans.slice(); ps[i] = { ...p, [f]: undefined }; yield { ...c, wplans: ps }; }
    if (p.failat > 0) for (const v of [p.failat >> 1, p.failat - 1]) { const ps = c.wplans.slice(); ps[i] = { ...p, failat: v }; yield { ...c, wplans: ps }; }
  }
  if (c.cfg && c.kind !== 'tasks') for (const y of shrinkCfg(c.cfg)) yield { ...c, cfg: y };
  if (c.cfgs) for (let i = 0; i < c.cfgs.length; i++) for (const y of shrinkCfg(c.cfgs[i])) { const q = c.cfgs.slice(); q[i] = y; yield { ...c, cfgs: q }; }
  if (c.runs > 2) yield { ...c, runs: c.runs >> 1 };
  if (c.prob > 0 && c.kind !== 'tasks') yield { ...c, prob: 0 };
}
