// Scenarios for the cljfmt command: worlds, command lines, the reference model
// of what a run must do, and the choice of faults.
import path from 'node:path';
import { createHash } from 'node:crypto';
import { Rng, hash32 } from './prng.mjs';
import { E, ERRNAME, FS } from './kernel.mjs';
import { runProcess } from './wasi.mjs';
import { genProgram, huge } from './libcases.mjs';
import { damage } from './damage.mjs';
import { readConfig } from './config.mjs';

const enc = new TextEncoder();
export const b64 = (u8) => Buffer.from(u8).toString('base64');
export const sha = (u8) => createHash('sha1').update(u8).digest('base64');
export const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0;
const bytesOf = (e) => new Uint8Array(Buffer.from(e.b64 ?? '', 'base64'));

export const TRANS = ['sort-import-require', 'enforce-ns-style', 'remove-trailing-newlines', 'fix-defn-arglist-newline', 'fix-defmethod-dispatch-val-newline', 'remove-extra-blank-lines', 'fix-if-newline-consistency', 'use-to-require', 'remove-unused-requires'];

// ---- contents. A pool keeps the number of distinct sources, and so of
// reference runs, small.
const POOL = 160;
const poolCache = new Map();
export function content(ctx, k, kind) {
  const key = k + kind;
  let c = poolCache.get(key);
  if (c) return c;
  const rng = new Rng('content', ctx.seed, k, kind);
  switch (kind) {
    case 'dirty': {
      const p = genProgram(rng, rng.weighted([[5, rng.range(5, 150)], [3, rng.range(150, 900)], [1.5, rng.range(900, 4600)]]), (s) => { s.messy = true; s.bom = false; });
      c = p.bytes; break;
    }
    case 'big': {
      if (k % 12 >= 10) { c = huge(rng); break; }
      const p = genProgram(rng, 1500, (s) => { s.longTokens = false; s.bom = false; }).bytes;
      const n = rng.range(5, 40); c = new Uint8Array(Buffer.concat(Array(n).fill(Buffer.concat([p, Buffer.from('\n')])))); break;
    }
    case 'bad': {
      let b = genProgram(rng, rng.range(5, 400)).bytes;
      b = rng.chance(0.5) ? damage(rng, b).bytes : new Uint8Array(Buffer.concat([b, Buffer.from(rng.pick([')', ' (', ' "', ' [a', ' {:a', '\\', ' #"', ' ~', ' (a]']))]));
      c = b; break;
    }
    case 'mega': c = huge(rng, 2e6, 1048577 + rng.int(30000)); break;
    case 'empty': c = new Uint8Array(0); break;
    case 'blank': c = enc.encode(rng.pick(['\n', ' ', '\n\n\n', ';; only a comment\n', ';c', ','])); break;
    default: throw new Error(kind);
  }
  if (poolCache.size > 4000) poolCache.clear();
  poolCache.set(key, c);
  return c;
}
export function pickContent(ctx, rng, mix) {
  const kind = rng.weighted(mix || [[9, 'dirty'], [5, 'clean'], [1.2, 'bad'], [0.5, 'empty'], [0.6, 'blank'], [0.7, 'big'], [0.02, 'mega']]);
  const k = rng.int(kind === 'mega' ? 2 : kind === 'big' ? 12 : POOL);
  if (kind !== 'clean') return content(ctx, k, kind);
  const c = content(ctx, k, 'dirty');
  const r = expected(ctx, c, DEFCFG);
  if (!r.ok) return c;
  const r2 = expected(ctx, r.out, DEFCFG); // mostly a fixed point
  return r2.ok ? r2.out : r.out;
}

// Which non-zero status a failure has is cljfmt's own affair; but 2 and a stack
// trace is how the Go runtime ends a program that crashed.
export const crashed = (res) => res.exit === 2 && /^(panic: |fatal error: |runtime: |goroutine \d+ \[)/m.test(res.stderr);

// ---- what formatting a source gives: a run of cljfmt on standard input that
// nothing disturbs, with the same flags and configuration.
export const DEFCFG = { flags: [], config: null };
const expCache = new Map();
export function expected(ctx, bytes, cfg) {
  const key = sha(bytes) + '|' + cfg.flags.join(' ') + '|' + (cfg.config === null ? '' : sha(cfg.config));
  let r = expCache.get(key);
  if (r) return r;
  const world = [{ path: '/home', type: 'd' }, { path: '/work', type: 'd' }];
  const args = [...cfg.flags];
  if (cfg.config !== null) { world.push({ path: '/work/cfg', type: 'f', b64: b64(cfg.config) }); args.unshift('-c', '/work/cfg'); }
  const res = runProcess({ module: ctx.modules.cli, fs: FS.fromWorld(world), args, cwd: '/work', env: { HOME: '/home' }, stdin: bytes, seed: 1, entropy: 1, stepLimit: 3e7 + 400 * bytes.length });
  if (res.hang || res.trap || res.overflow || crashed(res)) r = { ok: false, broken: true, err: res.stderr || res.hang || res.trap };
  else if (res.exit === 0) r = { ok: true, out: new Uint8Array(res.stdout) };
  else r = { ok: false, err: res.stderr };
  ctx.aux = (ctx.aux || 0) + 1;
  if (expCache.size > 30000) expCache.clear();
  expCache.set(key, r);
  return r;
}

// ---- worlds
const EXT = ['.clj', '.clj', '.clj', '.clj', '.cljs', '.cljc', '.edn'];
const OTHER = ['.txt', '', '.CLJ', '.clj.bak', '.cljx', '.clj~', '.java', '.orig', '.tmp'];
const BASES = ['a', 'b', 'c', 'core', 'main', 'util', 'z', 'A', 'x.y', 'with space', 'é', '日本', '1', '-dash', 'a-b', 'a_b', '~'];
const ODDBASES = ['a%d', '100%', '%s%n', '*', 'a*b', '[x]', 'a?', '$HOME', 'a\\b', 'a:b', '"q"', 'a;b', '#a#', ' lead', 'trail ', 'a.', 'a..b', 'a.clj', 'a.edn', '=', '-w', '--', 'a\tb', '\u0001', '\u00e9', 'e\u0301', 'K', '\u212a', '<stdin>'];
export function genWorld(ctx, rng, o = {}) {
  const w = [];
  const dirs = ['/work'];
  const used = new Set();
  const nd = o.dirs ?? rng.int(5);
  for (let i = 0; i < nd; i++) {
    const d = rng.pick(dirs) + '/' + rng.pick(['src', 'd', 'e', '.hidden', 'dir.clj', 'empty', 'a', 'test', 'x y', 'a.b', 'zz']);
    if (used.has(d) || d.split('/').length > 6) continue;
    used.add(d); dirs.push(d);
    w.push({ path: d, type: 'd', mode: o.modes && rng.chance(0.06) ? rng.pick([0o700, 0o555, 0o500, 0o000, 0o300]) : 0o755 });
  }
  const files = [];
  const nf = o.files ?? rng.range(1, 8);
  const pool = rng.chance(0.12) ? Array.from({ length: rng.range(1, 2) }, () => pickContent(ctx, rng, o.mix)) : null; // copies of one file
  for (let i = 0; i < nf; i++) {
    let name = rng.pick(rng.chance(0.08) ? ODDBASES : BASES) + (rng.chance(o.otherExt ?? 0.15) ? rng.pick(OTHER) : rng.pick(EXT));
    if (rng.chance(o.hidden ?? 0.06)) name = rng.pick(['.', '..', '.#']) + name;
    if (rng.chance(0.02)) name = '.clj';
    if (rng.chance(0.02)) name = 'n'.repeat(rng.pick([240, 247, 251])) + '.clj';
    const p = rng.pick(dirs) + '/' + name;
    if (used.has(p)) continue;
    used.add(p); files.push(p);
    w.push({ path: p, type: 'f', b64: b64(pool ? rng.pick(pool) : pickContent(ctx, rng, o.mix)), mode: rng.weighted([[8, 0o644], [2, 0o600], [2, 0o755], [1, 0o664], [1, 0o640], [o.modes ? 0.7 : 0, rng.pick([0o444, 0o400, 0o200, 0o000])]]) });
  }
  if (o.crowd && rng.chance(o.crowd)) { // many files in one directory, or a long way down to one
    const put = (p, c) => { if (!used.has(p)) { used.add(p); files.push(p); w.push({ path: p, type: 'f', b64: b64(c), mode: 0o644 }); } };
    const few = Array.from({ length: 4 }, () => pickContent(ctx, rng, [[3, 'dirty'], [2, 'clean']]));
    if (rng.chance(0.6)) {
      const d = rng.pick(dirs), n = rng.weighted([[3, rng.range(20, 100)], [4, rng.range(101, 300)], [1, rng.range(300, 700)]]);
      for (let i = 0; i < n; i++) put(d + '/' + rng.pick(['f', 'g', 'a', 'x']) + i + rng.weighted([[12, '.clj'], [2, '.cljs'], [1, '.txt']]), rng.pick(few));
    } else {
      let d = '/work/deep';
      const n = rng.weighted([[3, rng.range(8, 40)], [1, rng.range(40, 120)]]);
      for (let i = 0; i < n; i++) {
        w.push({ path: d, type: 'd', mode: 0o755 }); used.add(d);
        if (i === n - 1 || rng.chance(0.1)) put(d + '/' + rng.pick(BASES) + '.clj', rng.pick(few));
        d += '/' + rng.pick(['d', 'e', 'x y', 'dd.clj', 'n'.repeat(10)]);
      }
      dirs.push('/work/deep');
    }
  }
  if (o.links !== 0) {
    const nl = rng.chance(o.links ?? 0.4) ? rng.range(1, 3) : 0;
    for (let i = 0; i < nl; i++) {
      const p = rng.pick(dirs) + '/' + rng.pick(['l1', 'l2', 'link', 'ln']) + rng.pick(['', '.clj', '.clj', '.txt', '.edn']);
      if (used.has(p)) continue;
      const kind = rng.weighted([[4, 'file'], [3, 'hard'], [2, 'dir'], [o.badLinks ?? 0.5, 'dangling'], [o.badLinks ?? 0.3, 'loop']]);
      if ((kind === 'file' || kind === 'hard') && !files.length) continue;
      used.add(p);
      if (kind === 'hard') w.push({ path: p, type: 'hard', target: rng.pick(files) });
      else {
        const abs = kind === 'file' ? rng.pick(files) : kind === 'dir' ? rng.pick(dirs) : kind === 'loop' ? p : '/work/nowhere';
        w.push({ path: p, type: 'l', mode: 0o777, target: rng.chance(0.5) ? abs : path.posix.relative(path.posix.dirname(p), abs) || '.' });
      }
    }
  }
  return { entries: w, dirs, files };
}

// A tree in which a certain number of things go wrong, should all be tried: the
// system keeps only eight bits of an exit status.
function manyFailures(rng) {
  const n = 256 * rng.weighted([[5, 1], [1, 2]]), kind = rng.pick(['broken', 'broken', 'dangling', 'unreadable', 'missing']);
  const entries = [], paths = kind === 'missing' ? [] : ['many'];
  if (kind !== 'missing') entries.push({ path: '/work/many', type: 'd', mode: 0o755 });
  for (let i = 0; i < n; i++) {
    const name = 'f' + i + '.clj', p = '/work/many/' + name;
    if (kind === 'missing') paths.push(name);
    else if (kind === 'dangling') entries.push({ path: p, type: 'l', mode: 0o777, target: 'nowhere' });
    else entries.push({ path: p, type: 'f', b64: b64(enc.encode(kind === 'broken' ? '(a' : '(a)\n')), mode: kind === 'unreadable' ? 0 : 0o644 });
  }
  return { entries, dirs: ['/work', '/work/many'], files: [], paths };
}

function cfgFlags(rng) {
  const fl = [];
  const n = rng.weighted([[5, 0], [2, 1], [1, 3]]);
  for (let i = 0; i < n; i++) fl.push((rng.chance(0.6) ? '--enable-transform' : '--disable-transform') + (rng.chance(0.5) ? '=' : ' '), rng.pick(TRANS));
  const out = [];
  for (let i = 0; i < fl.length; i += 2) { if (fl[i].endsWith('=')) out.push(fl[i] + fl[i + 1]); else out.push(fl[i].trim(), fl[i + 1]); }
  return out;
}

export function genBehav(rng) {
  const b = { dirOrder: rng.pick(['sorted', 'reverse', 'shuffle', 'shuffle']) };
  if (rng.chance(0.4)) b.dirBatch = rng.range(1, 4);
  if (rng.chance(0.4)) b.dots = true;
  if (rng.chance(0.3)) b.dtUnknown = true;
  if (rng.chance(0.3)) b.readMax = rng.pick([1, 3, 17, 100, 512, 5000]);
  if (rng.chance(0.3)) b.writeMax = rng.pick([1, 3, 17, 100, 512, 5000]);
  if (rng.chance(0.3)) b.tick = rng.pick([1e3, 1e6, 1e9, 6e10, 36e11]); // how long each call takes
  if (rng.chance(0.2)) b.epoch = rng.pick([0, 1, 946684799, 1709164800, 1735689599, 4102444800, 7258118400]);
  if (rng.chance(0.15)) b.jumps = true;
  return b;
}

// scenario: {world, args, flags, paths, list, write, config, stdin, behav, seed, entropy, sched}
export function genScenario(ctx, rng, o = {}) {
  const W = o.many && rng.chance(o.many) ? manyFailures(rng) : genWorld(ctx, rng, o);
  const sc = { world: [{ path: '/work', type: 'd' }, { path: '/home', type: 'd' }, ...W.entries], flags: o.noflags ? [] : cfgFlags(rng), paths: [], list: false, write: false, config: null, stdin: null,
    behav: genBehav(rng), seed: rng.u32(), entropy: rng.u32(), sched: rng.chance(0.5) ? { seed: rng.u32(), prob: rng.pick([0.001, 0.02, 0.2]) } : { seed: 0, prob: 0 } };
  if (rng.chance(0.25)) { sc.env = genEnv(rng); if (sc.env.TMPDIR === '/tmp') sc.world.push({ path: '/tmp', type: 'd' }); }
  if (rng.chance(0.3)) sc.style = rng.range(1, 1e9);
  if (rng.chance(0.3)) for (const e of sc.world) e.mtime = rng.pick(AGES);
  const mode = rng.weighted(o.modeMix || [[4, 'out'], [3, 'l'], [5, 'w'], [2, 'lw'], [2, 'stdin']]);
  if (mode.includes('l')) sc.list = true;
  if (mode.includes('w')) sc.write = true;
  if (rng.chance(o.config ?? 0.2)) {
    sc.config = { path: rng.pick(['/home/.cljfmt', '/home/my.cfg', '/home/env.cfg']), b64: b64(enc.encode(rng.pick(CONFIGS))) };
    if (rng.chance(0.1)) sc.config.path = '/home/.cljfmt';
    if (o.copyExt && rng.chance(0.6)) sc.config.b64 = b64(enc.encode(`{:extensions [".clj" ".cljs" ".cljc" ${rng.sample(['".orig"', '".tmp"', '".bak"', '".old"', '".backup"', '".swp"', '".save"', '".new"', '".clj~"', '""'], rng.range(6, 10)).join(' ')}]}`));
  }
  if (mode === 'stdin') { sc.list = false; sc.stdin = b64(pickContent(ctx, rng, o.mix)); sc.write = rng.chance(o.stdinw ?? 0); return sc; }
  if (W.paths) { sc.paths = W.paths; return sc; }
  const np = rng.weighted(o.np || [[6, 1], [3, 2], [2, 3], [1, 5], [0.15, 40]]);
  const links = W.entries.filter((e) => e.type === 'l').map((e) => e.path);
  for (let i = 0; i < np; i++) {
    let p = rng.weighted([[W.files.length ? (o.fileArg ?? 4) : 0, 'file'], [o.dirArg ?? 4, 'dir'], [links.length ? 1.5 : 0, 'link'], [o.missing ?? 0.3, 'missing']]);
    p = p === 'file' ? rng.pick(W.files) : p === 'dir' ? rng.pick(W.dirs) : p === 'link' ? rng.pick(links) : '/work/' + rng.pick(['nope', 'nope.clj', 'd/nope.clj', 'nope/', '']);
    if (p === '/work/') { sc.paths.push(''); continue; }
    const isDir = W.dirs.includes(p);
    if (rng.chance(0.7)) { // relative to /work
      const rel = path.posix.relative('/work', p);
      p = rel === '' ? '.' : rel;
      if (p[0] === '-' || rng.chance(0.1)) p = './' + p;
    }
    if (isDir && rng.chance(0.15)) p += rng.pick(['/', '/', '//', '/.', '/./']);
    else if (!isDir && rng.chance(0.03)) p += '/';
    else if (rng.chance(0.04)) p = rng.pick(['.//', '/work/./', '../work/', '/work/../work/']) + path.posix.relative('/work', absOf(p));
    sc.paths.push(p);
  }
  return sc;
}
export const CONFIGS = ['{}', '{:extensions [".clj"]}', '{:extensions (".txt" ".edn") :indent-overrides ["foo" :list-body ["bar" "x/y"] :let]}', '{:indent-overrides [("defn" "let") :normal "when" :cond0] :thread-first-overrides ["foo" :cond-> "bar" :normal]}',
  ';; config\n{\n :indent-overrides\n [["GET" "POST"] :list-body\n  "case" :list, "if" :cond2]\n :extensions [".clj" ".cljs" ".CLJ"]}\n', '{:thread-first-overrides ["k/go" :normal]}', '', '; nothing\n',
  '{:extensions ["clj" ".in.clj" ".bak"]}', '{:extensions [""]}', '{:extensions []}', '{:extensions [".clj.bak" ".y.clj" "."]}', '{:extensions [".clj" "" "a" "*"]}', '{:extensions [".clj" ".edn" ".orig" ".tmp" ".bak"]}'];

export function argsOf(sc) {
  // flags in groups; style: other ways to say the same
  const g = [], rng = sc.style ? new Rng('args', sc.style) : null;
  const flag = (name, value) => {
    const dash = rng && rng.chance(0.5) ? '--' : '-';
    if (value === undefined) return [dash + name + (rng && rng.chance(0.3) ? '=' + rng.pick(['true', '1', 't', 'TRUE']) : '')];
    return rng && rng.chance(0.5) ? [`${dash}${name}=${value}`] : [dash + name, value];
  };
  if (sc.config && sc.config.path === '/home/my.cfg') g.push([...(rng && rng.chance(0.2) ? flag('c', '/home/other.cfg') : []), ...flag('c', sc.config.path)]); // the last one counts
  g.push(sc.flags);
  for (const [on, name] of [[sc.list, 'l'], [sc.write, 'w']]) {
    if (on) g.push([...(rng && rng.chance(0.2) ? rng.pick([[`-${name}`], [`-${name}=false`]]) : []), ...flag(name)]);
    else if (rng && rng.chance(0.15)) g.push(rng.pick([[`-${name}=false`], [`-${name}`, `--${name}=0`]]));
  }
  if (rng) rng.shuffle(g);
  return [...g.flat(), ...(rng && sc.paths.length && rng.chance(0.3) ? ['--'] : []), ...sc.paths];
}
export function genEnv(rng) {
  const e = {};
  for (const [k, vs] of Object.entries({ TZ: ['UTC', 'Asia/Tokyo', ''], LANG: ['C', 'tr_TR.UTF-8', 'de_DE'], LC_ALL: ['C', 'POSIX'], TMPDIR: ['/tmp', '/nowhere', '/work', ''], USER: ['root', 'x'], TERM: ['dumb', 'xterm'], COLUMNS: ['20', '0'], EDITOR: ['vi'], NO_COLOR: ['1'], CI: ['true'], DEBUG: ['1'], VERBOSE: ['1'], CLJFMT_DEBUG: ['1'] })) if (rng.chance(0.15)) e[k] = rng.pick(vs);
  return e;
}
export function envOf(sc) {
  const e = { HOME: '/home', ...sc.env };
  if (sc.config && sc.config.path === '/home/env.cfg') e.CLJFMT_CONFIG_PATH = sc.config.path;
  return e;
}
export function worldOf(sc) {
  if (!sc.config) return sc.world;
  const c = sc.config, f = { path: c.path, type: 'f', b64: c.b64, mode: c.mode };
  return [...sc.world, ...(c.is === 'dir' ? [{ path: c.path, type: 'd' }] : c.is === 'dangling' ? [{ path: c.path, type: 'l', target: '/home/none' }] : c.is === 'link' ? [{ ...f, path: '/home/real.cfg' }, { path: c.path, type: 'l', target: 'real.cfg' }] : [f])];
}
export const cfgOf = (sc) => ({ flags: sc.flags, config: sc.config ? bytesOf({ b64: sc.config.as ?? sc.config.b64 }) : null });

// far more than formatting takes (some 50 steps a byte)
const stepsFor = (sc) => 3e7 + 1000 * (sc.paths.length + 1) * sc.world.reduce((a, e) => a + (e.b64 ? e.b64.length : 0), sc.stdin ? sc.stdin.length : 0);

const AGES = [0, 1, 1e9, 1699999999, 1700000001, 1.7e9, 1.8e9, 4e9];
// runCli runs a scenario once. v: {faults, events, crash, capacity, fs, onMutate}
export function runCli(ctx, sc, v = {}) {
  const fs = v.fs || FS.fromWorld(worldOf(sc), v.age !== undefined ? { ino: v.age % 10007, age: (p) => AGES[hash32(v.age + p) % AGES.length] } : {});
  if (v.capacity !== undefined) fs.capacity = fs.used() + v.capacity; else fs.capacity = Infinity;
  const res = runProcess({ module: ctx.modules.cli, fs, args: argsOf(sc), cwd: '/work', env: v.env ? { ...envOf(sc), ...v.env } : envOf(sc), stdin: sc.stdin ? bytesOf({ b64: sc.stdin }) : new Uint8Array(0),
    seed: sc.seed, entropy: v.entropy ?? sc.entropy, sched: v.sched || sc.sched, behav: v.behav || sc.behav, stepLimit: stepsFor(sc), faults: v.faults, events: v.events, crash: v.crash, onMutate: v.onMutate, edges: ctx.edges });
  fs.capacity = Infinity;
  ctx.runs = (ctx.runs || 0) + 1;
  ctx.simNs = (ctx.simNs || 0) + res.clockNs;
  ctx.sys = (ctx.sys || 0) + res.nsys;
  for (const [k, n] of Object.entries(res.fired)) ctx.fired[k] = (ctx.fired[k] || 0) + n;
  if (v.capacity !== undefined) ctx.fired['disk full set'] = (ctx.fired['disk full set'] || 0) + 1;
  let h = 0; // the shape of the run: which calls on what, and how they ended
  for (const r of res.trace) { h = (Math.imul(h, 31) + r.op.length * 7 + (r.op.charCodeAt(0) | 0) + (r.e | 0) * 131 + (r.path ? r.path.length : 0)) | 0; }
  ctx.shapes.add(h + ':' + res.exit);
  return { res, fs };
}

// ---- the reference model of a run that nothing disturbs.
// It yields the units of work in order: {path, ino, in, out, ok, why} and what
// the run leaves behind. Errors end the run (cont: go on after them).
export function exts(ctx, sc) {
  const def = ['.clj', '.cljs', '.cljc', '.edn'];
  if (!sc.config) return def;
  const r = readConfig(Buffer.from(sc.config.as ?? sc.config.b64, 'base64').toString('utf8'));
  return r.ext || def;
}
const absOf = (p) => (p.startsWith('/') ? p : p === '' ? '/no such directory/' : '/work/' + p);
const goExt = (name) => { const i = name.lastIndexOf('.'); return i < 0 ? '' : name.slice(i); };

// hide: an entry that walks do not see, as [path, how many sights of it before]
export function model(ctx, sc, cont = false, fs0, hide = []) {
  hide = hide.map((h) => [...h]);
  const fs = fs0 ? fs0.clone() : FS.fromWorld(worldOf(sc));
  const X = new Set(exts(ctx, sc));
  const cfg = cfgOf(sc);
  const m = { units: [], stdout: [], lines: [], errors: 0, fs, broken: false, inScope: new Set(), dirsRead: [] };
  class Stop extends Error {}
  const fail = (u) => { m.errors++; m.units.push(u); if (!cont) throw new Stop(); };
  const file = (p) => {
    const r = fs.resolve(absOf(p), true);
    const u = { path: p, clean: path.posix.normalize(absOf(p)) };
    if (r.err || !r.node) return fail({ ...u, why: 'missing' });
    if (r.node.type === 'd') return fail({ ...u, why: 'directory' });
    if (!(r.node.mode & 0o400)) return fail({ ...u, ino: r.node.id, why: 'unreadable' });
    u.ino = r.node.id; u.in = r.node.data;
    m.inScope.add(u.ino);
    const e = expected(ctx, u.in, cfg);
    if (e.broken) m.broken = true;
    if (!e.ok) return fail({ ...u, why: 'refused' });
    u.out = e.out; u.ok = true; u.differs = !eq(u.in, u.out);
    if (u.differs && sc.list) m.lines.push(u.clean);
    if (u.differs && sc.write) {
      if (!(r.node.mode & 0o200)) return fail({ ...u, why: 'unwritable' });
      u.sealed = [fs.resolve(path.posix.dirname(absOf(p)), true).node, r.dir].some((d) => d && (d.mode & 0o300) !== 0o300); // no file can be put beside it
      r.node.data = u.out;
    }
    if (!sc.list && !sc.write) m.stdout.push(u.out);
    m.units.push(u);
  };
  const walk = (p) => {
    const r = fs.resolve(absOf(p), true);
    if (!(r.node.mode & 0o400)) return fail({ path: p, clean: path.posix.normalize(absOf(p)), why: 'unreadable directory' });
    m.dirsRead.push(path.posix.normalize(absOf(p)));
    for (const name of [...r.node.entries.keys()].sort((a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b)))) {
      const q = path.posix.join(p, name);
      if (hide.some((h) => h[0] === path.posix.normalize(absOf(q)) && h[1]-- === 0)) continue;
      const n = fs.resolve(absOf(q), false);
      if (n.err) { fail({ path: q, clean: path.posix.normalize(absOf(q)), why: 'unsearchable' }); continue; }
      if (n.node.type === 'd') { walk(q); continue; }
      if (name.startsWith('.') || !X.has(goExt(name))) continue;
      file(q);
    }
  };
  try {
    if (sc.stdin !== null && !sc.paths.length) {
      if (sc.write) { fail({ path: '<stdin>', why: 'cannot be rewritten' }); throw new Stop(); }
      const e = expected(ctx, bytesOf({ b64: sc.stdin }), cfg);
      if (e.broken) m.broken = true;
      if (e.ok) { m.stdout.push(e.out); m.units.push({ path: '<stdin>', ok: true, in: bytesOf({ b64: sc.stdin }), out: e.out }); } else fail({ path: '<stdin>', why: 'refused' });
    } else for (const p of sc.paths) {
      const r = fs.resolve(absOf(p), true);
      if (r.err || !r.node) { fail({ path: p, clean: path.posix.normalize(absOf(p)), why: 'missing' }); continue; }
      if (r.node.type === 'd') walk(p); else file(p);
    }
  } catch (e) { if (!(e instanceof Stop)) throw e; }
  m.exit = m.errors ? 1 : 0;
  m.out = Buffer.concat(m.stdout);
  return m;
}

// ---- faults
const KINDS = {
  open: ['ACCES', 'NOENT', 'MFILE', 'NFILE', 'IO', 'NOMEM'], openc: ['ACCES', 'NOSPC', 'MFILE', 'IO', 'DQUOT', 'ROFS', 'EXIST'],
  read: ['IO', 'IO', 'STALE'], write: ['IO', 'NOSPC', 'DQUOT', 'FBIG'], close: ['IO', 'NOSPC', 'DQUOT'], fsync: ['IO', 'NOSPC', 'DQUOT'],
  readdir: ['IO', 'NOENT', 'STALE'], stat: ['IO', 'ACCES', 'NOENT', 'NOMEM'], lstat: ['IO', 'ACCES', 'NOENT'], fstat: ['IO', 'STALE'],
  ftruncate: ['IO', 'FBIG', 'NOSPC'], rename: ['IO', 'ACCES', 'NOSPC'], unlink: ['IO', 'ACCES', 'BUSY'], chmod: ['PERM', 'IO'], fchmod: ['PERM', 'IO'], link: ['IO', 'NOSPC', 'PERM'], mkdir: ['NOSPC', 'ACCES'],
  readlink: ['IO', 'ACCES'], symlink: ['NOSPC'], rmdir: ['IO'], pread: ['IO'], pwrite: ['IO', 'NOSPC'],
};
const INTR_OK = new Set(['open', 'read', 'write', 'stat', 'lstat', 'fstat', 'fsync', 'ftruncate', 'unlink', 'rename', 'pread', 'pwrite']);
// a fault the system lets the program retry
export const transparent = (f, op) => f.short !== undefined || (f.e === E.INTR && INTR_OK.has(op));

export function faultFor(rng, rec, o = {}) {
  if (o.transparent || rng.chance(o.pTransparent ?? 0.15)) {
    if ((rec.op === 'read' || rec.op === 'write' || rec.op === 'pread' || rec.op === 'pwrite') && rng.chance(0.6)) return { op: rec.op, path: rec.path, k: rec.k, short: rng.pick([0, 0.3, 0.5, 0.9]) };
    if (INTR_OK.has(rec.op)) return { op: rec.op, path: rec.path, k: rec.k, e: E.INTR };
    if (o.transparent) return null;
  }
  let ks = KINDS[rec.op];
  if (rec.op === 'open' && /[wct]/.test(rec.detail || '')) ks = KINDS.openc;
  if (!ks) return null;
  return { op: rec.op, path: rec.path, k: rec.k, e: E[rng.pick(ks)] };
}
const opWeight = { open: 3, read: 3, write: 4, close: 1, fsync: 3, readdir: 3, stat: 2, lstat: 2, fstat: 2, ftruncate: 4, rename: 4, unlink: 3, chmod: 2, fchmod: 2, link: 3, pwrite: 4, mkdir: 2, readlink: 2 };
export function pickSite(rng, trace, filter, from = 0) {
  const sites = trace.filter((r) => r.op !== 'stderr' && r.n >= from && opWeight[r.op] && (!filter || filter(r)));
  if (!sites.length) return null;
  // by kind of call first, so that rare calls are not drowned by frequent ones
  const ops = [...new Set(sites.map((r) => r.op))];
  const op = rng.weighted(ops.map((x) => [opWeight[x], x]));
  return rng.pick(sites.filter((r) => r.op === op));
}

// ---- what a run left behind, against what was there and what was to be.
export function describeFault(f) { return `${f.op} ${f.path} (call ${f.k + 1}): ${f.short !== undefined ? 'short' : ERRNAME[f.e]}`; }
export const errLines = (res) => res.stderr.split('\n').filter((l) => l.startsWith('cljfmt:') && !/^cljfmt: warning: /.test(l) && l.trim().length > 8);

// sameTree compares two file systems: names, kinds, modes, links, contents.
export function diffTrees(got, want, ignore) {
  const a = got.list(), b = want.list();
  for (const [p, n] of b) {
    const g = a.get(p);
    if (!g) return `${p} is gone`;
    if (g.type !== n.type) return `${p} changed its kind from ${n.type} to ${g.type}`;
    if (g.mode !== n.mode) return `${p} has mode ${g.mode.toString(8)}, not ${n.mode.toString(8)}`;
    if (n.type === 'l' && g.target !== n.target) return `${p} links to ${g.target}, not ${n.target}`;
    if (n.type === 'f' && !eq(g.data, n.data)) return `${p} has other contents than it should (${g.data.length} bytes, not ${n.data.length}: ${clipText(g.data)} for ${clipText(n.data)})`;
  }
  for (const p of a.keys()) if (!b.has(p) && !(ignore && ignore(p, a.get(p)))) return `${p} was left behind`;
  // hard links: the same names share one file
  const ga = groups(a), gb = groups(b);
  for (const [p, k] of gb) if (ga.get(p) !== k) return `${p} is no longer the same file as ${k}`;
  return null;
}
function groups(l) { const first = new Map(), g = new Map(); for (const [p, n] of l) if (n.type === 'f') { if (!first.has(n.ino)) first.set(n.ino, p); g.set(p, first.get(n.ino)); } return g; }
export const clipText = (u8) => JSON.stringify(Buffer.from(u8).toString('utf8').slice(0, 60));

// ---- shrinking a scenario
export function* shrinkScenario(sc) {
  for (let k = sc.world.length >> 1; k >= 1; k >>= 1) for (let i = 2; i < sc.world.length; i += k) yield { ...sc, world: [...sc.world.slice(0, i), ...sc.world.slice(i + k)] };
  for (let i = 0; i < sc.paths.length; i++) if (sc.paths.length > 1) yield { ...sc, paths: sc.paths.filter((_, j) => j !== i) };
  if (sc.flags.length) yield { ...sc, flags: [] };
  if (sc.config && !sc.keepConfig) yield { ...sc, config: null };
  if (sc.env) yield { ...sc, env: undefined };
  if (sc.style) yield { ...sc, style: 0 };
  if (sc.world.some((e) => e.mtime)) yield { ...sc, world: sc.world.map((e) => ({ ...e, mtime: undefined })) };
  for (const f of ['dirBatch', 'dots', 'dtUnknown', 'readMax', 'writeMax', 'tick', 'epoch', 'jumps']) if (sc.behav[f]) { const b = { ...sc.behav }; delete b[f]; yield { ...sc, behav: b }; }
  if (sc.behav.dirOrder !== 'sorted') yield { ...sc, behav: { ...sc.behav, dirOrder: 'sorted' } };
  if (sc.sched.prob) yield { ...sc, sched: { seed: 0, prob: 0 } };
  if (sc.list && sc.write) { yield { ...sc, list: false }; }
  for (let i = 2; i < sc.world.length; i++) {
    const e = sc.world[i];
    if (e.type !== 'f' || !e.b64) continue;
    const u = Buffer.from(e.b64, 'base64');
    for (const t of ['( a)\n', 'a', '(']) if (u.length > t.length) { const w = sc.world.slice(); w[i] = { ...e, b64: Buffer.from(t).toString('base64') }; yield { ...sc, world: w }; }
    if (u.length > 1) for (const v of [u.subarray(0, u.length >> 1), u.subarray(u.length >> 1)]) { const w = sc.world.slice(); w[i] = { ...e, b64: v.toString('base64') }; yield { ...sc, world: w }; }
  }
  if (sc.stdin) { const u = Buffer.from(sc.stdin, 'base64'); if (u.length > 5) yield { ...sc, stdin: Buffer.from('( a)\n').toString('base64') }; if (u.length > 1) for (const v of [u.subarray(0, u.length >> 1), u.subarray(u.length >> 1)]) yield { ...sc, stdin: v.toString('base64') }; }
}
