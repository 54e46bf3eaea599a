// The properties: how a job makes its cases, runs them and judges them.
import path from 'node:path';
import { Rng, hash32 } from './prng.mjs';
import { E, ERRNAME, FS } from './kernel.mjs';
import { runProcess, traceText } from './wasi.mjs';
import { libGen, shrinkLib, genProgram, huge } from './libcases.mjs';
import { runLib, runRace } from './lib.mjs';
import { damage } from './damage.mjs';
import { HEADS } from './gen.mjs';
import * as C from './cli.mjs';
import { readConfig, canonical, nearMiss, STYLES, TF } from './config.mjs';

const enc = new TextEncoder();
const clip = (s, n = 400) => (s.length > n ? s.slice(0, n) + '...' : s);
class Viol extends Error { constructor(cls, msg, extra) { super(msg); this.cls = cls; this.extra = extra; } }
const fail = (cls, msg, extra) => { throw new Viol(cls, msg, extra); };

// ---------------------------------------------------------------- library
// A case is {engine, cases}: the cases one instance is given, in order.
function runBatch(ctx, cs, opt) {
  if (cs.engine === 'race') return runRace(ctx.raceBin, cs.cases);
  return runLib(ctx.modules.lib, cs.cases, { entropy: opt?.entropy ?? cs.entropy ?? 1, edges: ctx.edges, behav: opt?.behav });
}
// what is left of a case when nothing disturbs it
function baseline(c) {
  switch (c.kind) {
    case 'deliver': return [{ ...c, plans: [] }];
    case 'wfail': return [{ ...c, wplans: [] }];
    case 'tasks': case 'history': return c.tasks.map((t) => ({ ...c, kind: 'tasks', tasks: [t], prob: 0 }));
  }
  return null;
}
const MUST_LIVE = new Set(['rfail', 'damage', 'stop']); // an instance that dies breaks the property
function runLibCase(ctx, cs) {
  let rest = cs.cases, off = 0;
  const out = [];
  while (rest.length) {
    const r = runBatch(ctx, { ...cs, cases: rest });
    for (const x of r.results) {
      account(ctx, rest[x.i], x);
      out.push(x);
      if (x.viol) fail(x.class, x.viol, { i: off + x.i });
    }
    ctx.runs = (ctx.runs || 0) + r.results.length;
    if (!r.dead) break;
    const i = r.dead.i, c = rest[i];
    if (!c) throw new Error('library harness died after its last case: ' + r.dead.text);
    if (r.dead.how === 'timeout') throw new Error('library harness: time limit');
    if (r.dead.how === 'race') fail('race', clip(r.dead.text, 2500), { i: off + i });
    if (r.dead.how === 'stack') bump(ctx, 'skipped: host stack');
    else if (MUST_LIVE.has(c.kind)) fail(r.dead.how, `the process ended (${r.dead.how}): ${clip(r.dead.text, 1200)}`, { i: off + i });
    else {
      const base = baseline(c);
      if (base === null || base.some((b) => runBatch(ctx, { ...cs, cases: [b] }).dead)) bump(ctx, 'skipped: the input alone ends the process');
      else fail(r.dead.how, `the process ended (${r.dead.how}), which the same inputs do not cause alone: ${clip(r.dead.text, 1200)}`, { i: off + i });
    }
    for (let k = 0; k <= i; k++) out.push(null);
    rest = rest.slice(i + 1); off += i + 1;
  }
  if (cs.prop === 'C07' && cs.engine !== 'race') freshUses(ctx, cs, out);
  if (cs.cases[0]?.kind === 'determ') { // the same in another process with other entropy
    const r = runBatch(ctx, cs, { entropy: 777 + (cs.entropy || 1), behav: { tick: 1e9, epoch: 86400 * 366 * (cs.entropy || 1), jumps: true } });
    for (const x of r.results) {
      const y = out.find((o) => o && o.i === x.i);
      bump(ctx, 'repeats in another process');
      if (y && !x.viol && !r.dead && out.length === cs.cases.length && x.out !== y.out) fail('nondeterminism', `another process, given other random numbers, formats the same input to another result (${y.out}, ${x.out})`, { i: x.i });
    }
  }
}
// Some uses once more, alone in a process of their own: what earlier uses left
// behind in a process would also show in a use alone in the same process.
function freshUses(ctx, cs, out) {
  const picks = [];
  cs.cases.forEach((c, i) => c.tasks.forEach((_, j) => picks.push([i, j])));
  let rng = new Rng('fresh', ctx.seed, hash32(JSON.stringify(cs.cases)));
  const last = cs.cases.length - 1;
  const chosen = cs.cases.length <= 2 ? picks : [...rng.sample(picks, 3), ...picks.filter((p) => p[0] === last)];
  for (const [i, j] of chosen) {
    const c = cs.cases[i], had = out[i] && out[i].out ? out[i].out.trim().split(' ')[j] : undefined;
    if (!had) continue;
    const t = c.tasks[j], cfg = c.kind === 'history' ? c.cfg : c.cfgs[t.cfg];
    const r = runLib(ctx.modules.lib, [{ kind: 'tasks', cfg: {}, cfgs: [cfg], tasks: [{ ...t, cfg: 0 }], seed: 0, prob: 0 }], { entropy: 5, edges: ctx.edges });
    bump(ctx, 'uses alone in a fresh process');
    if (r.dead || r.results[0].viol) continue;
    if (r.results[0].out.trim() !== had) fail('interference', `use ${j} of case ${i} gave another result (${had}) than alone in a fresh process (${r.results[0].out.trim()})`, { i });
  }
}
function bump(ctx, k, n = 1) { ctx.stats[k] = k.startsWith('max ') ? Math.max(ctx.stats[k] || 0, n) : (ctx.stats[k] || 0) + n; }
function account(ctx, c, x) {
  for (const [k, v] of Object.entries(x.stats || {})) bump(ctx, k, v);
  ctx.steps = (ctx.steps || 0) + x.steps;
  if (x.stats && x.stats.switches) ctx.schedules.add(x.hash);
  if (nontrivial(c, x)) ctx.distinct.add(hash32(JSON.stringify(c)));
}
function nontrivial(c, x) {
  const len = c.src ? c.src.length : 8;
  switch (c.kind) {
    case 'deliver': return len > 8 && (x.stats.reads || 0) > 3;
    case 'rfail': return (x.stats['read failure'] || 0) + (x.stats['one-off read failure'] || 0) + (x.stats['endless empty reads'] || 0) > 0;
    case 'damage': return len > 4;
    case 'stop': return (x.stats.reads || 0) > 1;
    case 'wfail': return x.ok && (x.stats['writer did not fail'] || 0) < c.wplans.length;
    case 'determ': return x.ok;
    case 'tasks': return (x.stats.switches || 0) > 0;
    case 'history': return (x.stats['successive uses'] || 0) > 1;
    case 'faithful': return x.ok && (x.stats.reproduced || 0) > 0;
  }
  return true;
}
const isCommand = (c) => c.engine === 'cli' || c.engine === 'exec';
function libProp(id, o) {
  return {
    id, targets: o.targets || ['lib'], jobs: o.jobs, rule: o.rule, real: o.real, stub: o.stub,
    gen(ctx, i, deep) {
      if (o.alt) { const a = o.alt(ctx, i, deep); if (a) return a; }
      const rng = new Rng(id, ctx.seed, i);
      const kinds = o.kinds, kind = kinds[i % kinds.length];
      const [k, engine] = Array.isArray(kind) ? kind : [kind, 'wasm'];
      const n = o.batch || 12;
      return { prop: id, engine, entropy: 1 + (i % 1000), cases: Array.from({ length: n }, (_, j) => libGen[k](new Rng(id, ctx.seed, i, j), deep)) };
    },
    run(ctx, c) { if (isCommand(c)) return o.runAlt(ctx, c); runLibCase(ctx, c); },
    // smaller cases, given where the violation was
    *shrink(c, extra) {
      if (isCommand(c)) { yield* o.shrinkAlt(c, extra); return; }
      if (c.cases.length > 1) {
        const i = extra?.i ?? 0;
        yield { ...c, cases: [c.cases[i]] };
        if (i + 1 < c.cases.length) yield { ...c, cases: c.cases.slice(0, i + 1) };
        for (let k = c.cases.length >> 1; k >= 1; k >>= 1) for (let p = 0; p < c.cases.length; p += k) { const y = [...c.cases.slice(0, p), ...c.cases.slice(p + k)]; if (y.length) yield { ...c, cases: y }; }
      }
      const last = c.cases.length - 1;
      for (const y of shrinkLib(c.cases[last])) yield { ...c, cases: [...c.cases.slice(0, last), y] };
    },
    describe(c) {
      if (isCommand(c)) return describeCli(c);
      return c.cases.map((x) => describeLib(x)).join('\n');
    },
    sample(c) { return isCommand(c) ? describeCli(c) : describeLib(c.cases[0]); },
  };
}
const txt = (b) => JSON.stringify(Buffer.from(b || '', 'base64').toString('latin1'));
export function describeLib(c) {
  const l = [`kind ${c.kind}; options ${c.allopts ? 'all' : c.opts}; configuration ${JSON.stringify(c.cfg)}`];
  if (c.src !== undefined) l.push('source (latin-1): ' + clip(txt(c.src), 1500));
  for (const p of (c.plans || []).slice(0, 6)) l.push('reader: ' + JSON.stringify({ ...p, after: p.after && Buffer.from(p.after, 'base64').toString() }));
  for (const p of (c.wplans || []).slice(0, 6)) l.push('writer: ' + JSON.stringify(p));
  for (const q of c.cfgs || []) l.push('configuration: ' + JSON.stringify(q));
  for (const t of c.tasks || []) l.push(`use: options ${t.opts}, configuration ${t.cfg}, reader ${JSON.stringify(t.plan)}, source ${clip(txt(t.src), 600)}`);
  if (c.prob !== undefined) l.push(`scheduler: seed ${c.seed}, switch probability ${c.prob}`);
  return l.join('\n');
}

// ---------------------------------------------------------------- commands
export function describeCli(c) {
  const s = c.sc;
  const l = [c.engine === 'exec' ? `${c.cmd} ${c.mode === 'stdin' ? 'on standard input' : c.mode + ' ' + c.file} ${(c.flags || []).join(' ')}` : `cljfmt ${C.argsOf(s).join(' ')}`];
  if (s) {
    l.push('behaviour: ' + JSON.stringify(s.behav) + ' scheduler ' + JSON.stringify(s.sched) + ' seed ' + s.seed);
    for (const e of C.worldOf(s).slice(0, 40)) l.push(`  ${e.path} ${e.type} ${e.mode !== undefined ? e.mode.toString(8) : ''} ${e.target ? '-> ' + e.target : ''} ${e.b64 !== undefined ? clip(txt(e.b64), 200) : ''}`);
    if (s.stdin) l.push('stdin: ' + clip(txt(s.stdin), 400));
  }
  if (c.src) l.push('source: ' + clip(txt(c.src), 400));
  for (const x of (c.srcs || []).slice(0, 3)) l.push('source: ' + clip(txt(x.src), 400));
  for (const v of (c.variants || []).slice(0, 8)) l.push('disturbance: ' + describeVariant(v));
  return l.join('\n');
}
export function describeVariant(v) {
  const p = [];
  for (const f of v.faults || []) p.push(C.describeFault(f));
  for (const e of v.events || []) p.push(`at ${e.op} ${e.at} (call ${e.k + 1}): ${e.ev} ${e.path}`);
  if (v.capacity !== undefined) p.push(`disk full after ${v.capacity} more bytes`);
  if (v.crash) p.push(`${v.power ? 'power loss' : 'kill'} at ${v.crash.op} ${v.crash.path} (call ${v.crash.k + 1})${v.crash.part !== undefined ? ', ' + v.crash.part + ' of the write done' : ''}${v.power ? ' [' + v.power + ']' : ''}`);
  if (v.image) p.push(`power-loss image ${v.image.style} #${v.image.at}`);
  if (v.damage) p.push('damage: ' + v.damage);
  if (v.history) p.push(v.history.map(describeVariant).join('; then '));
  if (v.entropy !== undefined) p.push('entropy ' + v.entropy);
  return p.join(', ') || 'none';
}
const note = (c, res) => ({ trace: traceText(res), stderr: clip(res.stderr, 1000), exit: res.exit });

function lastFaults(res) { return res.trace.filter((r) => r.fault).map((r) => `${r.op} ${r.path}: ${r.fault}`).join(', ') || 'nothing'; }
const ended = (res) => (res.hang ? 'did not end (' + res.hang + ')' : res.trap ? 'trapped (' + res.trap + ')' : res.overflow ? 'overflowed the stack' : C.crashed(res) ? `ended with status ${res.exit} (${clip(res.stderr, 300)})` : null);

// lines of -l, as absolute clean paths
const listed = (res) => res.stdout.toString('utf8').split('\n').slice(0, -1).map((p) => path.posix.normalize(p.startsWith('/') ? p : '/work/' + p));
// stdoutIs says how standard output differs from what model m wants, or null.
function stdoutDiff(sc, res, m) {
  if (sc.list) {
    const got = listed(res), t = res.stdout.toString('utf8');
    if (t.length && !t.endsWith('\n')) return 'the listing ends inside a line';
    if (got.length !== m.lines.length || got.some((p, i) => p !== m.lines[i])) return `listed ${JSON.stringify(got)}, not ${JSON.stringify(m.lines)}`;
    return null;
  }
  if (Buffer.compare(res.stdout, m.out) !== 0) return `standard output has ${res.stdout.length} bytes (${C.clipText(res.stdout)}), not the ${m.out.length} bytes (${C.clipText(m.out)}) of the complete result`;
  return null;
}
// undisturbed compares a run that nothing (but what is transparent) disturbed
// with the model; after an error going on or stopping are both right.
function undisturbed(ctx, sc, res, fs, what) {
  const e = ended(res);
  const ms = models(ctx, sc);
  if (ms.broken) { bump(ctx, 'skipped: an input alone breaks the process'); return false; }
  if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
  const m = ms.stop;
  if (m.exit === 0 && res.exit !== 0 && m.units.some((u) => u.sealed) && C.errLines(res).length) { bump(ctx, 'refused to rewrite without room for a copy'); return false; }
  if (m.exit === 0 && res.exit !== 0) fail('spurious', `${what}: exit status ${res.exit} (${clip(res.stderr, 200)}), though nothing stands in the way`, note(sc, res));
  if (m.exit !== 0 && res.exit === 0) fail('status', `${what}: exit status 0, though ${JSON.stringify(m.units.filter((u) => !u.ok).map((u) => u.path + ' ' + u.why))}`, note(sc, res));
  if (m.exit !== 0 && !C.errLines(res).length) fail('message', `${what}: exit status ${res.exit} without a message`, note(sc, res));
  if (res.exit !== 0 && [...m.units, ...ms.cont.units].some((u) => u.sealed)) return false;
  const d1 = stdoutDiff(sc, res, ms.stop) || C.diffTrees(fs, ms.stop.fs);
  if (d1 && (m.exit === 0 || stdoutDiff(sc, res, ms.cont) || C.diffTrees(fs, ms.cont.fs))) fail('effects', `${what}: ${d1}`, note(sc, res));
  return true;
}
const modelCache = new WeakMap();
function models(ctx, sc) {
  let r = modelCache.get(sc);
  if (r) return r;
  const stop = C.model(ctx, sc), cont = stop.exit ? C.model(ctx, sc, true) : stop;
  r = { stop, cont, broken: stop.broken || cont.broken };
  modelCache.set(sc, r);
  return r;
}
const opaque = (v, res) => (v.faults || []).some((f) => !C.transparent(f, f.op) && res.trace.some((r) => r.op === f.op && r.path === f.path && r.k === f.k)) || (v.capacity !== undefined && res.trace.some((r) => r.fault === 'full'));

// whether the configuration could not be opened, so that cljfmt goes on without
const passedOver = (sc, res) => sc.config && res.trace.some((r) => r.op === 'open' && r.path === sc.config.path && r.e && r.e !== E.INTR);

// the scenario that a run turned out to be
const eff = (sc, res) => (passedOver(sc, res) ? without(sc) : sc);
const withoutCache = new WeakMap();
const without = (sc) => { let s = withoutCache.get(sc); if (!s) { s = { ...sc, config: { ...sc.config, as: '' } }; withoutCache.set(sc, s); } return s; };

// disturb draws the disturbances of a scenario: each fault is aimed at a call
// the run with the faults so far makes.
function* disturb(ctx, sc, base, rng, n, o = {}) {
  for (let i = 0; i < n; i++) {
    if (o.capacity && rng.chance(o.capacity)) { yield { capacity: rng.weighted([[2, 0], [4, rng.int(600)], [2, rng.int(6000)]]) }; continue; }
    const v = { faults: [] };
    const count = o.single ? 1 : rng.weighted([[6, 1], [2, 2], [1, 3]]);
    let trace = base.trace, from = 0;
    for (let k = 0; k < count; k++) {
      const site = C.pickSite(rng, trace, o.filter, from);
      if (!site) break;
      const f = C.faultFor(rng, site, o);
      if (!f) continue;
      v.faults.push(f);
      if (k + 1 < count) { const r = C.runCli(ctx, sc, v); trace = r.res.trace; from = site.n + 1; }
    }
    if (v.faults.length) yield v;
  }
}
function shrinkVariant(v) {
  const out = [];
  if (v.faults && v.faults.length > 1) for (let i = 0; i < v.faults.length; i++) out.push({ ...v, faults: v.faults.filter((_, j) => j !== i) });
  if (v.events && v.events.length > 1) for (let i = 0; i < v.events.length; i++) out.push({ ...v, events: v.events.filter((_, j) => j !== i) });
  if (v.capacity > 0) out.push({ ...v, capacity: v.capacity >> 1 }, { ...v, capacity: v.capacity - 1 });
  if (v.history) for (let i = 0; i < v.history.length; i++) { if (v.history.length > 1) out.push({ ...v, history: v.history.filter((_, j) => j !== i) }); for (const w of shrinkVariant(v.history[i])) { const h = v.history.slice(); h[i] = w; out.push({ ...v, history: h }); } }
  return out;
}
function* shrinkCli(c) {
  const vs = c.variants;
  if (vs && vs.length) {
    if (vs.length > 1) for (const v of vs) yield { ...c, variants: [v] };
    for (let i = 0; i < vs.length; i++) for (const w of shrinkVariant(vs[i])) { const q = vs.slice(); q[i] = w; yield { ...c, variants: q }; }
    if (vs.length === 1) yield { ...c, variants: [] };
  }
  if (c.sc) for (const s of C.shrinkScenario(c.sc)) yield { ...c, sc: s };
}
const cliRule = 'A case is a generated directory tree, command line and environment (directory order and batching, transfer sizes, schedule) and up to some disturbances aimed at system calls its undisturbed run makes. Non-trivial: at least one input is processed and a disturbance fires. Distinct: by hash of the scenario and disturbance.';
function cliProp(id, o) {
  return {
    id, targets: o.targets || ['cli'], jobs: o.jobs, rule: o.rule || cliRule, real: 'cljfmt, format and parse packages and the Go runtime and standard library, compiled to wasm', stub: 'kernel: file system, descriptors, directory order, clock, entropy, standard streams',
    gen(ctx, i, deep) {
      const rng = new Rng(id, ctx.seed, i);
      const c = { prop: id, engine: 'cli', sc: o.scenario(ctx, rng, deep), n: deep ? o.n[1] : o.n[0], vseed: i };
      if (c.sc && rng.chance(0.3)) c.sc.behav.fdLimit = rng.range(14, 24);
      return c;
    },
    run(ctx, c) {
      const one = (v, f) => {
        ctx.seen = (ctx.seen || 0) + 1;
        try { f(); } catch (e) { if (e instanceof Viol) { e.extra = { ...(e.extra || {}), variants: v ? [v] : [] }; } throw e; }
        ctx.distinct.add(hash32(JSON.stringify([c.sc && C.argsOf(c.sc), c.sc && c.sc.seed, v])));
      };
      o.run(ctx, c, one);
    },
    *shrink(c, extra) { if (!c.variants && extra && extra.variants) { yield { ...c, variants: extra.variants }; } yield* shrinkCli(c); },
    describe: describeCli, sample: describeCli,
  };
}
const variantsOf = (ctx, c, draw) => c.variants ? c.variants : draw(new Rng('variants', ctx.seed, c.prop, c.vseed));

// C09: the exit status.
function c09(ctx, c, one) {
  const { sc } = c;
  let base;
  one(null, () => { const r = C.runCli(ctx, sc); base = r.res; c.go = undisturbed(ctx, sc, r.res, r.fs, 'undisturbed'); });
  if (!c.go) return;
  const ms = models(ctx, sc);
  for (const v of variantsOf(ctx, c, (rng) => disturb(ctx, sc, base, rng, c.n, { capacity: sc.write ? 0.12 : 0, pTransparent: 0.25 }))) one(v, () => {
    const { res, fs } = C.runCli(ctx, sc, v);
    const what = 'with ' + lastFaults(res);
    const e = ended(res);
    if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
    if (!opaque(v, res)) { bump(ctx, 'only transparent disturbances'); undisturbed(ctx, sc, res, fs, what); return; }
    if (res.exit !== 0) {
      if (!C.errLines(res).length) fail('message', `${what}: exit status ${res.exit} without saying what went wrong (${JSON.stringify(clip(res.stderr, 200))})`, note(sc, res));
      bump(ctx, 'failures reported');
      return;
    }
    const em = models(ctx, eff(sc, res));
    if (em.broken) return;
    if (passedOver(sc, res)) bump(ctx, 'configuration passed over');
    const d = em.stop.exit !== 0 ? 'a path cannot be processed' : stdoutDiff(sc, res, em.stop) || C.diffTrees(fs, em.stop.fs);
    if (d && !goneEarly(ctx, eff(sc, res), res, fs)) fail('status', `${what}: exit status 0, but ${d}`, note(sc, res));
    bump(ctx, 'harmless faults');
  });
}

// C14: all or nothing on standard output.
function c14(ctx, c, one) {
  const { sc } = c;
  const ms = models(ctx, sc);
  if (ms.broken) return;
  const tree = FS.fromWorld(C.worldOf(sc)), stdinLen = sc.stdin ? Buffer.from(sc.stdin, 'base64').length : 0;
  const judge = (v, res, what) => {
    const ms = models(ctx, eff(sc, res));
    if (ms.broken) return;
    const outFault = res.trace.some((r) => r.op === 'write' && r.path === 'stdout' && r.fault && r.e) || v.crash;
    const units = ms.stop.units.filter((u) => u.ok);
    const full = Buffer.concat(units.map((u) => u.out));
    const got = res.stdout;
    const starts = []; let at = 0;
    for (const u of units) { starts.push(at); at += u.out.length; }
    if (got.length <= full.length && Buffer.compare(got, full.subarray(0, got.length)) === 0) {
      if (!outFault && got.length !== full.length && !starts.includes(got.length)) fail('partial', `${what}: standard output ends inside the result of an input (${got.length} bytes of ${full.length})`, note(sc, res));
      // each byte only after its input has been read to the end
      let done = 0, off = 0;
      const size = new Map();
      for (const r of res.trace) {
        if (r.op === 'read' && (r.path === 'stdin' || (r.fd !== undefined && r.path !== (sc.config && sc.config.path)))) {
          const k = r.path + ':' + r.fd;
          const x = size.get(k) || { got: 0, all: r.path === 'stdin' ? stdinLen : tree.resolve(r.path, true).node?.data?.length ?? Infinity };
          size.set(k, x);
          if (r.e === 0) x.got += r.got;
          if (r.e === 0 && (r.got === 0 || x.got >= x.all) && !x.eof) { done++; x.eof = true; }
        }
        if (r.op === 'close') size.delete(r.path + ':' + r.fd);
        if (r.op === 'write' && r.path === 'stdout' && r.got > 0) {
          const end = off + r.got;
          let i = 0; while (i + 1 < starts.length && starts[i + 1] < end) i++;
          // zero-length results in front do not matter
          const need = units.slice(0, i + 1).length;
          const had = units.slice(0, i + 1).filter((u) => u.in !== undefined).length;
          if (done < Math.min(need, had)) fail('early', `${what}: result ${i + 1} was being written when only ${done} inputs had been read to their end`, note(sc, res));
          off = end;
        }
      }
      return;
    }
    // going on after an input that failed: whole results, in order
    let p = 0;
    for (const u of ms.cont.units) if (u.ok && u.out.length && got.length - p >= u.out.length && Buffer.compare(got.subarray(p, p + u.out.length), Buffer.from(u.out)) === 0) p += u.out.length;
    if (p === got.length) return;
    fail('mixed', `${what}: standard output is not made of whole results of the inputs in order: ${C.clipText(got)}... against ${C.clipText(full)}...`, note(sc, res));
  };
  let base;
  one(null, () => { const r = C.runCli(ctx, sc); base = r.res; judge({}, r.res, 'undisturbed'); if (Buffer.compare(r.res.stdout, ms.stop.out) && Buffer.compare(r.res.stdout, ms.cont.out)) fail('missing', `undisturbed: ${stdoutDiff(sc, r.res, ms.stop)}`, note(sc, r.res)); });
  for (const v of variantsOf(ctx, c, (rng) => c14variants(ctx, sc, base, rng, c.n))) one(v, () => {
    const { res } = C.runCli(ctx, sc, v);
    judge(v, res, 'with ' + (v.crash ? describeVariant(v) : lastFaults(res)));
  });
}
function* c14variants(ctx, sc, base, rng, n) {
  const k = Math.ceil(n * 0.8);
  yield* disturb(ctx, sc, base, rng, k, { filter: (r) => r.op !== 'close' && r.op !== 'fstat' });
  const outs = base.trace.filter((r) => r.op === 'write' && r.path === 'stdout');
  for (let i = k; i < n; i++) {
    const r = outs.length && rng.chance(0.6) ? rng.pick(outs) : C.pickSite(rng, base.trace);
    if (r) yield { crash: { op: r.op, path: r.path, k: r.k, ...(r.op === 'write' ? { part: rng.pick([0, 0.5, 0.9]) } : {}) } };
  }
}

// C10: only the files whose formatting changes.
const MUTOPS = new Set(['write', 'pwrite', 'ftruncate', 'rename', 'unlink', 'mkdir', 'rmdir', 'link', 'symlink', 'chmod', 'fchmod']);
function c10(ctx, c, one) {
  const { sc } = c;
  const ms = models(ctx, sc);
  if (ms.broken) return;
  const before = FS.fromWorld(C.worldOf(sc));
  const byIno = new Map();
  for (const [p, n] of before.list()) { if (!byIno.has(n.ino)) byIno.set(n.ino, []); byIno.get(n.ino).push(p); }
  const allowed = (ms) => {
    const x = { touch: new Set(), dirs: new Set(), rewritten: [...ms.cont.units, ...ms.stop.units].filter((u) => u.differs && sc.write) };
    for (const u of x.rewritten) {
      x.touch.add(u.ino);
      const r = before.resolve(u.clean, true), l = before.resolve(path.posix.dirname(u.clean), true);
      if (r.dir) x.dirs.add(r.dir.id);
      if (l.node) x.dirs.add(l.node.id);
    }
    return x;
  };
  const allowed0 = allowed(ms);
  const origInos = new Set([...before.list().values()].map((n) => n.ino));
  const dirOf = (fs, p) => { const r = fs.resolve(path.posix.dirname(p.startsWith('/') ? p : '/' + p), true); return r.node ? r.node.id : -1; };
  const judge = (v, res, fs, what) => {
    const em = models(ctx, eff(sc, res));
    if (em.broken) return;
    const { touch: mayTouch, dirs: mayDirs, rewritten } = em === ms ? allowed0 : allowed(em);
    // calls
    for (const r of res.trace) {
      const wOpen = r.op === 'open' && /[wct]/.test(r.detail || '');
      if (!wOpen && !MUTOPS.has(r.op)) continue;
      if (r.op === 'write' && (r.path === 'stdout' || r.path === 'stderr')) continue;
      if (!sc.write) fail('mutation', `${what}: without -w, ${r.op} ${r.path}`, note(sc, res));
      if (r.ino !== undefined && origInos.has(r.ino) && !mayTouch.has(r.ino)) fail('mutation', `${what}: ${r.op} ${r.path}, a file whose formatting does not change`, note(sc, res));
      if (wOpen && r.created && !mayDirs.has(dirOf(before, r.path))) fail('mutation', `${what}: created ${r.path}, which is not beside a file that is rewritten`, note(sc, res));
    }
    // what is left
    const a = fs.list(), b = before.list();
    for (const [p, n] of b) {
      const g = a.get(p);
      if (!g) fail('lost', `${what}: ${p} is gone`, note(sc, res));
      if (g.type !== n.type || g.mode !== n.mode || g.target !== n.target) fail('identity', `${what}: ${p} was ${n.type} ${n.mode.toString(8)} ${n.target}, is ${g.type} ${g.mode.toString(8)} ${g.target}`, note(sc, res));
      if (n.type === 'f' && !C.eq(g.data, n.data) && !mayTouch.has(n.ino)) fail('contents', `${what}: ${p} was changed`, note(sc, res));
    }
    for (const [ino, ps] of byIno) if (ps.length > 1 && a.get(ps[0]).type === 'f') for (const p of ps) if (a.get(p).ino !== a.get(ps[0]).ino) fail('identity', `${what}: ${p} and ${ps[0]} were one file and no longer are`, note(sc, res));
    const extra = [...a.keys()].filter((p) => !b.has(p));
    const wrecked = v.faults || v.capacity !== undefined;
    for (const p of extra) {
      if (!sc.write) fail('extra', `${what}: ${p} was created without -w`, note(sc, res));
      if (!wrecked || !mayDirs.has(dirOf(fs, p))) fail('extra', `${what}: ${p} was left behind`, note(sc, res));
    }
    if (rewritten.length && res.exit === 0 && !wrecked) for (const u of rewritten) if (C.eq(fs.resolve(u.clean, true).node.data, u.in) && C.diffTrees(fs, em.stop.fs)) fail('unchanged', `${what}: ${u.clean} was not rewritten`, note(sc, res));
  };
  let base;
  one(null, () => { const r = C.runCli(ctx, sc); base = r.res; if (!ended(r.res)) judge({}, r.res, r.fs, 'undisturbed'); });
  for (const v of variantsOf(ctx, c, (rng) => disturb(ctx, sc, base, rng, c.n, { capacity: sc.write ? 0.15 : 0 }))) one(v, () => {
    const { res, fs } = C.runCli(ctx, sc, v);
    judge(v, res, fs, 'with ' + lastFaults(res));
  });
}

// C11: directory walks.
function c11(ctx, c, one) {
  const { sc } = c;
  const ms = models(ctx, sc);
  if (ms.broken) return;
  const before = FS.fromWorld(C.worldOf(sc));
  const scopeOf = (m) => new Set([...m.cont.units, ...m.stop.units].filter((u) => u.ino !== undefined).map((u) => u.ino));
  const scope0 = scopeOf(ms);
  const cfgIno = sc.config ? before.resolve(sc.config.path, true).node?.id : -1;
  const files = new Set([...before.list().values()].filter((n) => n.type === 'f').map((n) => n.ino));
  const judgeOpens = (res, what) => {
    const scope = passedOver(sc, res) ? scopeOf(models(ctx, eff(sc, res))) : scope0; // other extensions may apply
    for (const r of res.trace) if (r.op === 'open' && r.ino !== undefined && files.has(r.ino) && !scope.has(r.ino) && r.ino !== cfgIno) fail('scope', `${what}: ${r.path} was opened, which is not among the files to handle`, note(sc, res));
  };
  let base;
  one(null, () => {
    const r = C.runCli(ctx, sc); base = r.res;
    c.go = undisturbed(ctx, sc, r.res, r.fs, 'undisturbed');
    if (c.go) judgeOpens(r.res, 'undisturbed');
  });
  if (!c.go) return;
  for (const v of variantsOf(ctx, c, (rng) => c11variants(ctx, sc, base, rng, c.n, before, ms))) one(v, () => {
    const { res, fs } = C.runCli(ctx, { ...sc, seed: v.seed ?? sc.seed }, v.behav ? { ...v, behav: v.behav } : v);
    const what = 'with ' + (v.events || v.behav ? describeVariant(v) + JSON.stringify(v.behav || '') : lastFaults(res));
    const e = ended(res);
    if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
    if (v.behav) { bump(ctx, 'same tree, other directory order'); undisturbed(ctx, sc, res, fs, what); judgeOpens(res, what); return; }
    if (v.events) { judgeEvents(ctx, sc, ms, v, res, fs, what); return; }
    judgeOpens(res, what);
    if (!opaque(v, res)) { undisturbed(ctx, sc, res, fs, what); return; }
    if (res.exit !== 0) { if (!C.errLines(res).length) fail('message', `${what}: exit status ${res.exit} without a message`, note(sc, res)); bump(ctx, 'failures reported'); return; }
    const em = models(ctx, eff(sc, res));
    if (em.broken) return;
    const d = em.stop.exit !== 0 ? 'a path cannot be processed' : stdoutDiff(sc, res, em.stop) || C.diffTrees(fs, em.stop.fs);
    if (d && !goneEarly(ctx, eff(sc, res), res, fs)) fail('skipped', `${what}: exit status 0, but ${d}`, note(sc, res));
  });
}
// An entry that is gone when it is first looked at may count as not there:
// listings that come with attributes (Readdir) leave such entries out.
function goneEarly(ctx, sc, res, fs) {
  const gone = [...new Set(res.trace.filter((r) => r.op === 'lstat' && r.fault && r.e === E.NOENT).map((r) => path.posix.normalize(r.path)))];
  if (!gone.length || gone.length > 2) return false;
  const sights = [0, 1, 2, 3]; // in which of several walks
  for (const hide of sights.flatMap((i) => (gone.length > 1 ? sights.map((j) => [[gone[0], i], [gone[1], j]]) : [[[gone[0], i]]]))) {
    const m = C.model(ctx, sc, false, undefined, hide);
    if (m.exit === 0 && !stdoutDiff(sc, res, m) && !C.diffTrees(fs, m.fs)) { bump(ctx, 'entries gone when first looked at'); return true; }
  }
  return false;
}
function judgeEvents(ctx, sc, ms, v, res, fs, what) {
  const ev = v.events[0];
  const at = res.trace.find((r) => r.event);
  if (!at) { bump(ctx, 'event without effect'); return; }
  bump(ctx, 'events: ' + ev.ev);
  if (res.exit !== 0) { if (!C.errLines(res).length) fail('message', `${what}: exit status ${res.exit} without a message`, note(sc, res)); return; }
  const strip = (f) => { const g = f.clone(); const r = g.resolve(ev.path, false); if (r.node && r.dir) g.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); return g; };
  const same = (m) => !stdoutDiff(sc, res, m) && (ev.ev === 'chmod' ? !C.diffTrees(withMode(fs, ev.path, ms.stop.fs), m.fs) : !C.diffTrees(strip(fs), strip(m.fs)));
  if (ms.stop.exit === 0 && same(ms.stop)) return; // handled before, or not concerned
  if (ev.ev === 'chmod') fail('skipped', `${what}: exit status 0, but the file that became unreadable was not handled`, note(sc, res));
  const fs2 = FS.fromWorld(C.worldOf(sc));
  if (ev.ev === 'create') {
    const r = fs2.resolve(ev.path, false);
    if (r.dir && !r.node) { const node = fs2.newInode('f', ev.mode ?? 0o644); node.data = new Uint8Array(Buffer.from(ev.b64 || '', 'base64')); fs2.do({ op: 'link', dir: r.dir, name: r.name, node }); }
  } else { const r = fs2.resolve(ev.path, false); if (r.node && r.dir) fs2.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); }
  const m2 = C.model(ctx, sc, false, fs2);
  if (m2.exit !== 0) fail('status', `${what}: exit status 0, though a path cannot be processed`, note(sc, res));
  if (!same(m2)) fail('effects', `${what}: neither the result with the entry nor the one without it: ${stdoutDiff(sc, res, m2) || C.diffTrees(strip(fs), strip(m2.fs))}`, note(sc, res));
  if (ev.ev === 'create') return;
  // handled as if it had never been there: then nobody may have seen more of it than its name
  if (res.trace.some((r) => r.n >= at.n && r.op === 'lstat' && r.e === E.NOENT && path.posix.normalize(r.path) === ev.path) && !res.trace.some((r) => r.n < at.n && r.op !== 'readdir' && path.posix.normalize(r.path) === ev.path)) { bump(ctx, 'entries gone when first looked at'); return; }
  const parent = path.posix.dirname(ev.path);
  const before = FS.fromWorld(C.worldOf(sc));
  const pid = before.resolve(parent, true).node?.id;
  for (const r of res.trace) {
    if (r.n >= at.n) break;
    if (r.op === 'readdir' && before.resolve(r.path, true).node?.id === pid) fail('skipped', `${what}: exit status 0, but an entry that had been listed was skipped silently`, note(sc, res));
  }
}
function withMode(fs, p, ref) { const g = fs.clone(); const a = g.resolve(p, false), b = ref.resolve(p, false); if (a.node && b.node) a.node.mode = b.node.mode; return g; }
function* c11variants(ctx, sc, base, rng, n, before, ms) {
  const k = Math.max(1, Math.floor(n * 0.25));
  for (let i = 0; i < k; i++) yield { behav: C.genBehav(rng), seed: rng.u32() };
  yield* disturb(ctx, sc, base, rng, k * 2, { filter: (r) => r.op !== 'write' && r.op !== 'close' && r.op !== 'fsync' });
  const linked = new Set([...before.list().values()].filter((x) => x.type === 'f' && x.nlink > 1).map((x) => x.ino));
  const plain = sc.world.filter((e) => (e.type === 'f' || e.type === 'd') && e.path.startsWith('/work/'));
  const targets = plain.filter((e) => { const r = before.resolve(e.path, false); return r.node && !linked.has(r.node.id); });
  const hasLinks = sc.world.some((e) => e.type === 'l');
  for (let i = 3 * k; i < n; i++) {
    const site = C.pickSite(rng, base.trace, (r) => r.op !== 'write' && r.op !== 'stderr');
    // one walk only, so that an entry is listed before the event or after it
    if (!site || !targets.length || hasLinks || sc.paths.length !== 1 || !ms.stop.dirsRead.length) break;
    const t = rng.pick(targets);
    const kind = t.type === 'd' ? 'rmtree' : rng.weighted([[5, 'unlink'], [2, 'chmod'], [2, 'create']]);
    const ev = { op: site.op, at: site.path, k: site.k, ev: kind, path: t.path };
    if (kind === 'chmod') ev.mode = 0;
    if (kind === 'create') { ev.path = path.posix.dirname(t.path) + '/' + rng.pick(['new.clj', 'aa.clj', 'zzz.cljs', 'new.txt']); ev.b64 = C.b64(C.content(ctx, rng.int(40), 'dirty')); }
    if (kind === 'create' && before.resolve(ev.path, false).node) continue;
    yield { events: [ev] };
  }
}

// C06 for the command: other entropy, schedule, transfer sizes.
// Half of the scenarios have a configuration whose overrides speak of the same
// names in several spellings, and sources that use those names.
function c06scenario(ctx, rng) {
  const sc = C.genScenario(ctx, rng, { modes: true, ...(rng.chance(0.5) ? { mix: [[3, 'dirty'], [2, 'clean'], [1, 'bad']] } : {}) });
  if (!rng.chance(0.6)) return sc;
  const base = rng.sample([...HEADS, 'join', 'union', 'x', 'y'], rng.weighted([[3, 1], [2, 2], [2, 4]]));
  const spell = (n) => { const t = n.split('/').pop(); return rng.weighted([[4, n], [2, t], [2, 'clojure.core/' + t], [1, 'cljs.core/' + t], [1, rng.pick(['str', 'set', 'x', 'k', 'a', 'clojure.string', 'korma.core', 'a.b', 'user']) + '/' + t], [0.7, t.toUpperCase()], [0.7, ':' + t], [0.5, ' ' + t], [0.5, t + ' '], [0.3, '*'], [0.3, t.slice(0, 2) + '*'], [0.3, "'" + t], [0.3, t + '.'], [0.3, '.' + t]]); };
  const over = (styles, n) => '[' + Array.from({ length: n }, () => { const k = rng.range(1, 3); return `[${Array.from({ length: k }, () => `"${spell(rng.pick(base))}"`).join(' ')}] ${rng.pick(styles)}`; }).join(' ') + ']';
  const parts = [];
  if (rng.chance(0.9)) parts.push(':indent-overrides ' + over(STYLES, rng.range(1, 8)));
  if (rng.chance(0.6)) parts.push(':thread-first-overrides ' + over(TF, rng.range(1, 6)));
  if (rng.chance(0.3)) parts.push(':extensions [".clj" ".cljs" ".CLJ" ".txt"]');
  sc.config = { path: rng.pick(['/home/.cljfmt', '/home/my.cfg', '/home/env.cfg']), b64: C.b64(enc.encode('{' + parts.join('\n ') + '}\n')) };
  const use = () => { // forms whose layout shows the style of their head
    const h = rng.chance(0.7) ? rng.pick(base) : spell(rng.pick(base)).trim().replace(/^'/, '');
    const arg = () => rng.pick(['a', '[b c]', '[b\nc]', '(d\ne)', '"s"', ':k', '(f [x]\ny)', '{:a\n1}']);
    if (rng.chance(0.3)) { // perhaps a threading form by an override
      const step = () => `(${rng.pick(['if', 'case', 'let', 'condp', 'cond', 'defn', 'for', 'foo', 'when'])} ${arg()}\n${arg()}\n${arg()}\n${arg()})`;
      return `(${h} z${Array.from({ length: rng.range(1, 5) }, () => rng.pick([' ', '\n']) + step()).join('')})`;
    }
    let t = '(' + h;
    for (let i = rng.range(1, 6); i > 0; i--) t += rng.pick([' ', '\n', '\n', '\n    ']) + arg();
    t += ')';
    return rng.chance(0.4) ? `(${rng.pick(['->', 'cond->', 'some->', '->>'])} z${rng.pick([' ', '\n'])}${t}\n${t})` : t;
  };
  const src = () => (rng.chance(0.3) ? '(ns a (:require [clojure.string :as str :refer [join]] [korma.core :as k]))\n' : '') + Array.from({ length: rng.range(1, 6) }, use).join('\n') + '\n';
  if (sc.stdin !== null) sc.stdin = C.b64(enc.encode(src()));
  else for (const e of sc.world) if (e.type === 'f' && /\.(clj[sc]?|edn|txt|CLJ)$/.test(e.path) && rng.chance(0.8)) e.b64 = C.b64(enc.encode(src()));
  return sc;
}
function c06cli(ctx, c, one) {
  const { sc } = c;
  const first = C.runCli(ctx, sc);
  if (first.res.trap || first.res.overflow || first.res.hang) return;
  const vs = variantsOf(ctx, c, (rng) => Array.from({ length: c.n }, () => ({ entropy: rng.u32(), behav: C.genBehav(rng), age: rng.chance(0.7) ? rng.u32() : undefined, env: rng.chance(0.5) ? C.genEnv(rng) : undefined, sched: { seed: rng.u32(), prob: rng.pick([0, 0.01, 0.3]) } })));
  for (const v of vs) one(v, () => {
    const r = C.runCli(ctx, sc, v);
    bump(ctx, 'repeats of commands');
    const a = first.res, b = r.res;
    if (a.exit !== b.exit) fail('nondeterminism', `exit status ${a.exit}, then ${b.exit}`, note(sc, b));
    if (Buffer.compare(a.stdout, b.stdout)) fail('nondeterminism', `standard output differs between two runs: ${C.clipText(a.stdout)} and ${C.clipText(b.stdout)}`, note(sc, b));
    const plain = (t) => t.replace(/\d{3,}/g, '#'); // names of temporary files may be random
    if (!C.crashed(a) && plain(a.stderr) !== plain(b.stderr)) fail('nondeterminism', `standard error differs between two runs: ${clip(a.stderr, 200)} and ${clip(b.stderr, 200)}`, note(sc, b));
    const d = C.diffTrees(r.fs, first.fs);
    if (d) fail('nondeterminism', `the files differ after two runs: ${d}`, note(sc, b));
  });
}

// C08: nothing is lost at any instant.
function rewrites(ctx, sc, ms) {
  // ino -> {versions, paths}
  const byIno = new Map();
  for (const u of ms.cont.units) if (u.ok && u.differs) {
    let x = byIno.get(u.ino);
    if (!x) byIno.set(u.ino, (x = { versions: [u.in], paths: [], name: u.clean }));
    x.versions.push(u.out);
    if (!x.paths.includes(u.clean)) x.paths.push(u.clean);
  }
  return byIno;
}
function lossIn(fs, rw) {
  for (const x of rw.values()) {
    let ok = false;
    for (const p of x.paths) {
      const r = fs.resolve(p, true);
      if (r.node && r.node.type === 'f' && x.versions.some((d) => C.eq(d, r.node.data))) { ok = true; break; }
      const l = fs.resolve(path.posix.dirname(p), true);
      for (const d of [r.dir, l.node]) if (d && d.type === 'd') for (const n of d.entries.values()) if (n.type === 'f' && x.versions.some((v) => C.eq(v, n.data))) ok = true;
      if (ok) break;
    }
    if (!ok) { const r = fs.resolve(x.paths[0], true); return `${x.paths[0]} has neither its old nor its new contents (${r.node ? r.node.data.length + ' bytes ' + C.clipText(r.node.data) : 'it is gone'}), and no complete copy lies beside it`; }
  }
  return null;
}
function c08(ctx, c, one) {
  const { sc } = c;
  const ms = models(ctx, sc);
  if (ms.broken) return;
  const rw = rewrites(ctx, sc, ms);
  if (!rw.size) { bump(ctx, 'scenarios without a rewrite'); return; }
  const check = (v, seed) => {
    const rng = new Rng('images', ctx.seed, c.vseed, seed);
    let count = 0;
    let writes = 0;
    return (fs, info) => {
      const k = count++;
      // of very many small writes, a sample
      if (info.rec.op === 'write' && ++writes > 12 && !rng.chance(12 / writes)) return;
      const where = `at ${info.rec.op} ${info.rec.path} (call ${info.rec.k + 1})`;
      bump(ctx, 'kill points');
      if (info.inflight) { // killed inside a write: any part of it may have happened
        const { node, off, data } = info.inflight;
        const old = node.data;
        for (const part of [0.01, 0.5, 0.99]) {
          const q = Math.floor(data.length * part);
          const nd = new Uint8Array(Math.max(old.length, off + q)); nd.set(old); nd.set(data.subarray(0, q), off);
          node.data = nd;
          const l = lossIn(fs, rw);
          node.data = old;
          if (l) fail('kill', `killed ${where}, ${q} of ${data.length} bytes written: ${l}`, { at: k });
        }
      } else {
        const l = lossIn(fs, rw);
        if (l) fail('kill', `killed after ${info.rec.op} ${info.rec.path} (call ${info.rec.k + 1}): ${l}`, { at: k });
      }
      for (const style of ['min', 'max', 'other', 'torn']) {
        if (style === 'other' && rng.chance(0.5)) continue;
        bump(ctx, 'power-loss images');
        const l = lossIn(fs.powerImage(rng, style), rw);
        if (l) fail('power', `power lost ${where} (${style} image): ${l}`, { at: k });
      }
    };
  };
  const small = sc.world.length < 60;
  let base;
  one(null, () => { const r = C.runCli(ctx, sc, { onMutate: small ? check({}, 0) : undefined }); base = r.res; });
  let j = 0;
  for (const v of variantsOf(ctx, c, (rng) => disturb(ctx, sc, base, rng, c.n, { single: true, pTransparent: 0.1, capacity: 0.15, filter: (r) => r.path !== 'stdout' && r.path !== sc.config?.path && (rng.chance(0.15) || !['stat', 'lstat', 'read', 'readdir'].includes(r.op)) }))) one(v, () => {
    const { res, fs } = C.runCli(ctx, sc, { ...v, onMutate: check(v, ++j) });
    const e = ended(res);
    const what = 'with ' + lastFaults(res);
    if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
    for (const x of rw.values()) {
      const r = fs.resolve(x.paths[0], true);
      if (!r.node) fail('lost', `${what}: ${x.paths[0]} is gone after the run`, note(sc, res));
      if (!x.versions.some((d) => C.eq(d, r.node.data))) fail('torn', `${what}: ${x.paths[0]} ended up with neither its old nor its new contents (${r.node.data.length} bytes: ${C.clipText(r.node.data)})`, note(sc, res));
    }
    const b = FS.fromWorld(C.worldOf(sc)).list();
    const removal = (v.faults || []).some((f) => f.op === 'unlink');
    for (const p of fs.list().keys()) if (!b.has(p) && !removal) fail('copy', `${what}: ${p} was left behind though the process was not killed`, note(sc, res));
    bump(ctx, 'single disturbances survived');
  });
}

// C13: a clean re-run.
function c13(ctx, c, one) {
  const { sc } = c;
  const ms = models(ctx, sc);
  if (ms.broken) return;
  const rw = rewrites(ctx, sc, ms);
  // the new contents must be a fixed point, else a second run goes on formatting
  for (const x of rw.values()) for (const n of x.versions.slice(1)) { const e = C.expected(ctx, n, C.cfgOf(sc)); if (!e.ok || !C.eq(e.out, n)) { bump(ctx, 'skipped: no fixed point'); return; } }
  const orig = FS.fromWorld(C.worldOf(sc));
  const names = new Set(orig.list().keys());
  const base = C.runCli(ctx, sc).res;
  const judge = (v) => {
    let fs = FS.fromWorld(C.worldOf(sc));
    for (const step of v.history) {
      const r = C.runCli(ctx, sc, { ...step, fs: fs.clone() });
      fs = r.fs;
      if (passedOver(sc, r.res)) { bump(ctx, 'skipped: configuration passed over'); return; } // it formatted otherwise, and said so
      if (step.power && r.res.crashed) { fs = r.fs.powerImage(new Rng('image', step.pseed), step.power); bump(ctx, 'power losses'); } else if (r.res.crashed) bump(ctx, 'kills');
      fs = fs.clone(); fs.capacity = Infinity;
    }
    const what = 'after ' + describeVariant(v);
    // put torn files back from the copies beside them
    for (const x of rw.values()) {
      const p = x.paths[0], r = fs.resolve(p, true);
      if (r.node && x.versions.some((d) => C.eq(d, r.node.data))) continue;
      const l = fs.resolve(path.posix.dirname(p), true);
      for (const d of [r.dir, l.node]) {
        if (!d || d.type !== 'd') continue;
        const hit = [...d.entries].find(([nm, n]) => n.type === 'f' && n !== r.node && x.versions.some((z) => C.eq(z, n.data)));
        if (hit && r.node) { r.node.data = hit[1].data; bump(ctx, 'torn files put back'); break; }
      }
    }
    fs = fs.clone();
    const copies = [...fs.list()].filter(([p]) => !names.has(p));
    if (copies.length) bump(ctx, 'copies lying about');
    const r = C.runCli(ctx, { ...sc, seed: sc.seed + 1 }, { fs, entropy: (sc.entropy + 1) >>> 0 });
    const e = ended(r.res);
    if (e) fail('ended', `${what}, the clean run ${e}`, note(sc, r.res));
    if (!r.res.exit !== !ms.stop.exit) fail('status', `${what}, the clean run ends with status ${r.res.exit}: ${clip(r.res.stderr, 300)}`, note(sc, r.res));
    const inos = new Set(copies.map(([, n]) => n.ino));
    for (const q of r.res.trace) if (q.op === 'open' && inos.has(q.ino)) fail('copy-read', `${what}, the clean run opened the left-over copy ${q.path}`, note(sc, r.res));
    const left = r.fs.list();
    for (const [p] of left) if (!names.has(p) && !copies.some(([q]) => q === p)) fail('extra', `${what}, the clean run left ${p} behind`, note(sc, r.res));
    const d = C.diffTrees(r.fs, ms.stop.fs, (p) => !names.has(p));
    if (d && (ms.stop.exit === 0 || C.diffTrees(r.fs, ms.cont.fs, (p) => !names.has(p)))) fail('recovery', `${what}, the clean run does not reach the undisturbed result: ${d}`, note(sc, r.res));
  };
  for (const v of variantsOf(ctx, c, (rng) => c13variants(ctx, sc, base, rng, c.n))) one(v, () => judge(v));
}
function* c13variants(ctx, sc, base, rng, n) {
  for (let i = 0; i < n; i++) {
    const steps = rng.weighted([[5, 1], [3, 2], [1, 3]]);
    const history = [];
    let fs = FS.fromWorld(C.worldOf(sc)), trace = base.trace;
    for (let s = 0; s < steps; s++) {
      let v;
      if (rng.chance(0.65)) {
        const site = C.pickSite(rng, trace, (r) => rng.chance(0.1) || /[wct]/.test(r.op === 'open' ? r.detail : '') || MUTOPS.has(r.op) || r.op === 'fsync' || r.op === 'close');
        if (!site) break;
        v = { crash: { op: site.op, path: site.path, k: site.k } };
        if (site.op === 'write') v.crash.part = rng.pick([0, 0.1, 0.5, 0.99, 1]);
        if (rng.chance(0.5)) { v.power = rng.pick(['min', 'max', 'other', 'torn']); v.pseed = rng.u32(); }
      } else v = [...disturb(ctx, sc, { trace }, rng, 1, { capacity: 0.2 })][0];
      if (!v) break;
      history.push(v);
      if (s + 1 < steps) {
        const r = C.runCli(ctx, sc, { ...v, fs: fs.clone() });
        fs = v.power && r.res.crashed ? r.fs.powerImage(new Rng('image', v.pseed), v.power).clone() : r.fs.clone();
        trace = C.runCli(ctx, sc, { fs: fs.clone() }).res.trace;
      }
    }
    if (history.length) yield { history };
  }
}

// C12: the configuration.
function genConfigText(rng) {
  const names = ['foo', 'bar', 'let', 'defn', 'if', 'x/y', 'str/join', '->', 'GET', 'when', 'case', 'k/go', 'korma.core/select'];
  const ws = () => rng.weighted([[6, ' '], [2, '\n'], [1, ', '], [1, '  '], [0.7, ' ; note }\n'], [0.3, ';" \n']]);
  const open = () => rng.pick(['()', '[]']);
  const over = (styles) => {
    const o = open(); let t = o[0];
    const n = rng.weighted([[20, rng.range(0, 4)], [1, rng.range(50, 400)]]);
    for (let i = 0; i < n; i++) {
      if (i) t += ws();
      if (rng.chance(0.6)) t += `"${rng.pick(names)}"`; else { const q = open(); t += q[0] + rng.sample(names, rng.range(0, 3)).map((x) => `"${x}"`).join(ws()) + q[1]; }
      t += ws() + rng.pick(styles);
    }
    return t + o[1];
  };
  const keys = rng.sample([0, 1, 2], rng.range(1, 3));
  // sometimes larger than any buffer: by comments, white space or entries
  const bulk = () => rng.weighted([[30, ''], [1, ' '.repeat(rng.pick([1000, 4090, 5000, 9000]))], [1, '; long\n'.repeat(rng.pick([80, 600, 1300]))], [0.3, ' '.repeat(66000)]]);
  let t = (rng.chance(0.2) ? '; my config\n' : '') + bulk();
  t += '{' + (rng.chance(0.3) ? ws() : '');
  keys.forEach((k, i) => {
    if (i) t += ws() + bulk();
    if (k === 0) { const o = open(); t += ':extensions' + ws() + o[0] + rng.sample(['.clj', '.cljs', '.edn', '.txt', '', '.CLJ', '.cljx'], rng.range(1, 4)).map((x) => `"${x}"`).join(ws()) + o[1]; } else if (k === 1) t += ':indent-overrides' + ws() + over(STYLES); else t += ':thread-first-overrides' + ws() + over(TF);
  });
  t += (rng.chance(0.3) ? ws() : '') + '}' + rng.pick(['\n', '', '\n\n', ' ; end']);
  return t;
}
const damageText = (rng, t) => Buffer.from(damage(rng, enc.encode(t), undefined, rng.chance(0.45) ? ['truncate', 'cut-token'] : ['drop', 'dup', 'overwrite', 'insert', 'swap', 'flip', 'zero', 'invalid'])
  .bytes);
const plainly = (s, r) => ({ ...s, config: { ...s.config, b64: C.b64(enc.encode(canonical(r))) } });
function c12(ctx, c, one) {
  const { sc } = c;
  const before = FS.fromWorld(C.worldOf(sc));
  const srcs = new Set([...before.list()].filter(([p, n]) => n.type === 'f' && p.startsWith('/work/') && p !== sc.config.path).map(([, n]) => n.ino));
  const untouched = (res, fs, s, what) => {
    if (res.stdout.length) fail('printed', `${what}: ${res.stdout.length} bytes were printed all the same`, note(sc, res));
    for (const r of res.trace) if ((r.op === 'open' && srcs.has(r.ino)) || (r.op === 'read' && r.path === 'stdin')) fail('read', `${what}: ${r.path} was read all the same`, note(sc, res));
    const d = C.diffTrees(fs, FS.fromWorld(C.worldOf(s)));
    if (d) fail('wrote', `${what}: ${d}`, note(sc, res));
  };
  const named = (res, s) => res.stderr.split('\n').some((l) => l.startsWith('cljfmt:') && l.includes(s.config.path) && !/^cljfmt: warning: /.test(l));
  const refused = (res, fs, s, what) => {
    if (res.exit === 0) fail('accepted', `${what}: exit status 0`, note(sc, res));
    if (!named(res, s)) fail('message', `${what}: exit status ${res.exit}, but no message names the file: ${JSON.stringify(clip(res.stderr, 200))}`, note(sc, res));
    untouched(res, fs, s, what);
  };
  const judgeText = (v, res, fs, s, what) => {
    if (models(ctx, s).broken) { bump(ctx, 'skipped: an input alone breaks the process'); return; }
    const e = ended(res);
    if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
    const r = readConfig(Buffer.from(s.config.b64, 'base64').toString('utf8'));
    bump(ctx, 'configurations ' + r.kind);
    if (r.kind === 'invalid') refused(res, fs, s, what + ` (${r.why})`);
    else if (r.kind === 'ok') { // as if the same settings had been written another way
      const s2 = plainly(s, r);
      const m = models(ctx, s2).stop;
      if (m.broken) return;
      if (!res.exit !== !m.exit) fail('settings', `${what}: exit status ${res.exit}, not ${m.exit} as with the same settings written in another way (${clip(res.stderr, 200)})`, note(sc, res));
      const tree = m.fs.clone(); const q = tree.resolve(s.config.path, true); if (q.node) q.node.data = new Uint8Array(Buffer.from(s.config.b64, 'base64'));
      const d = stdoutDiff(s, res, m) || C.diffTrees(fs, tree);
      if (d && m.exit === 0) fail('settings', `${what}: not the result that the same settings give, written in another way: ${d}`, note(sc, res));
    } else if (res.exit !== 0 && named(res, s)) untouched(res, fs, s, what);
  };
  let base, baseFs;
  one(null, () => { const r = C.runCli(ctx, sc); base = r.res; baseFs = r.fs; judgeText({}, r.res, r.fs, sc, 'undamaged'); });
  const draw = function* (rng) {
    for (let i = 0; i < c.n; i++) {
      if (rng.chance(0.3)) { yield { damage: JSON.stringify(Buffer.from(nearMiss(rng, Buffer.from(sc.config.b64, 'base64').toString())).toString('latin1')) }; continue; }
      if (rng.chance(0.06)) { yield { is: rng.pick(['dir', 'dangling', 'link']) }; continue; }
      if (rng.chance(0.5)) { yield { damage: JSON.stringify(damageText(rng, Buffer.from(sc.config.b64, 'base64').toString()).toString('latin1')) }; continue; }
      if (rng.chance(0.1)) { yield { mode: 0 }; continue; }
      yield* disturb(ctx, sc, base, rng, 1, { filter: (r) => r.path === sc.config.path, pTransparent: 0.3 });
    }
  };
  for (const v of variantsOf(ctx, c, draw)) one(v, () => {
    if (v.damage !== undefined) {
      const s = { ...sc, config: { ...sc.config, b64: Buffer.from(JSON.parse(v.damage), 'latin1').toString('base64') } };
      const { res, fs } = C.runCli(ctx, s);
      bump(ctx, 'damaged configurations');
      judgeText(v, res, fs, s, `configuration ${v.damage}`);
      return;
    }
    if (v.is) bump(ctx, 'configuration is a ' + v.is);
    if (v.is === 'link') {
      const s = { ...sc, config: { ...sc.config, is: v.is } };
      const { res, fs } = C.runCli(ctx, s);
      const e = ended(res);
      if (e) { if (!models(ctx, sc).broken) fail('ended', `with the configuration behind a link: the run ${e}`, note(sc, res)); return; }
      const t = fs.clone(), h = t.resolve('/home', true).node;
      h.entries.set(sc.config.path.slice(6), h.entries.get('real.cfg')); h.entries.delete('real.cfg');
      const d = !res.exit !== !base.exit ? `exit status ${res.exit}, not ${base.exit}` : (Buffer.compare(res.stdout, base.stdout) !== 0 && 'other output') || C.diffTrees(t, baseFs);
      if (d) fail('settings', `with the configuration behind a link: not the result of the same file at that place: ${d}`, note(sc, res));
      return;
    }
    const s = v.mode !== undefined ? { ...sc, config: { ...sc.config, mode: v.mode } } : v.is ? { ...sc, config: { ...sc.config, is: v.is } } : sc;
    const { res, fs } = C.runCli(ctx, s, v.is ? {} : v);
    const what = v.is ? 'with a configuration that is a ' + v.is : 'with ' + (v.mode !== undefined ? 'an unreadable configuration' : lastFaults(res));
    const e = ended(res);
    if (e) fail('ended', `${what}: the run ${e}`, note(sc, res));
    if (v.mode === undefined && !v.is && !opaque(v, res)) { judgeText(v, res, fs, s, what); return; }
    if (v.is === 'dir') { refused(res, fs, s, what); return; }
    const f = res.trace.find((r) => r.path === s.config.path && r.e && r.e !== E.INTR);
    if (!f || f.op === 'close' || f.op === 'fstat' || f.op === 'stat') { const rc = readConfig(Buffer.from(s.config.b64, 'base64').toString('utf8')); if (res.exit !== 0 && rc.kind === 'ok' && models(ctx, plainly(s, rc)).stop.exit === 0) { if (!named(res, s)) fail('message', `${what}: no message names the configuration`, note(sc, res)); untouched(res, fs, s, what); } else judgeText(v, res, fs, s, what); return; }
    if (f.op === 'open') { // passed over, with a warning; never in part
      bump(ctx, 'configuration cannot be opened');
      if (res.exit !== 0 && named(res, s)) { untouched(res, fs, s, what); return; }
      const silent = f.e === E.NOENT && s.config.path !== '/home/my.cfg';
      if (!silent && !res.stderr.split('\n').some((l) => l.startsWith('cljfmt:') && l.includes(s.config.path))) fail('warning', `${what}: the configuration was passed over without a word`, note(sc, res));
      const s2 = { ...s, config: { ...s.config, b64: C.b64(enc.encode('')) } };
      const m = models(ctx, s2).stop;
      if (m.broken) return;
      const tree = m.fs.clone(); const q = tree.resolve(s.config.path, true); if (q.node) { q.node.data = new Uint8Array(Buffer.from(s.config.b64, 'base64')); q.node.mode = s.config.mode ?? 0o644; }
      const d = !res.exit !== !m.exit ? `exit status ${res.exit}, not ${m.exit}` : stdoutDiff(s, res, m) || C.diffTrees(fs, tree);
      if (d && m.exit === 0) fail('part', `${what}: the result is not the one without a configuration: ${d}`, note(sc, res));
      return;
    }
    bump(ctx, 'configuration cannot be read');
    refused(res, fs, s, what);
  });
}
function c12scenario(ctx, rng) {
  const sc = C.genScenario(ctx, rng, { config: 0, modes: false, missing: 0, badLinks: 0, links: 0.1, otherExt: 0.35, mix: [[9, 'dirty'], [4, 'clean']], files: rng.range(1, 5), modeMix: [[4, 'out'], [3, 'l'], [5, 'w'], [1, 'stdin']] });
  sc.config = { path: rng.pick(['/home/.cljfmt', '/home/my.cfg', '/home/env.cfg']), b64: C.b64(enc.encode(genConfigText(rng))) };
  sc.keepConfig = true;
  return sc;
}

// ---- library properties by way of the commands
// exec runs one of the commands on one source: {cmd, src, mode, flags, behav,
// seed}; mode: 'stdin', 'out', 'w' or 'config' (the source is the configuration).
function exec(ctx, c, v = {}) {
  const fs = FS.fromWorld([{ path: '/work', type: 'd' }, ...(c.mode === 'stdin' ? [] : [{ path: c.file, type: 'f', b64: c.src }])]);
  const args = c.cmd === 'example' ? [c.file] : c.mode === 'config' ? ['-c', c.file] : [...(c.flags || []), ...(c.mode === 'w' ? ['-w'] : []), ...(c.mode === 'stdin' ? [] : [c.file])];
  const stdin = c.mode === 'stdin' ? new Uint8Array(Buffer.from(c.src, 'base64')) : enc.encode('( a)');
  const res = runProcess({ module: ctx.modules[c.cmd], fs, args, cwd: '/work', env: {}, seed: v.seed ?? c.seed, entropy: v.seed ?? 1, behav: v.behav || c.behav, sched: v.sched, faults: v.faults, edges: ctx.edges, stdin,
    stepLimit: 3e7 + 30000 * c.src.length });
  ctx.runs = (ctx.runs || 0) + 1; ctx.simNs = (ctx.simNs || 0) + res.clockNs; ctx.sys = (ctx.sys || 0) + res.nsys;
  for (const [k, n] of Object.entries(res.fired)) ctx.fired[k] = (ctx.fired[k] || 0) + n;
  ctx.distinct.add(hash32(c.cmd + c.mode + c.src + JSON.stringify(v)));
  return { res, fs };
}
function endedBadly(res) {
  if (res.hang) return 'does not end: ' + res.hang;
  if (res.overflow) return null; // the host's stack, not the program's
  if (res.trap) return 'breaks down: ' + res.trap;
  if (C.crashed(res)) return `crashes (exit status ${res.exit}): ` + clip(res.stderr, 500);
  return null;
}
const execCase = (prop, ctx, i, c) => { const rng = new Rng(prop + 'x', ctx.seed, i); return { prop, engine: 'exec', file: '/work/a.clj', vseed: i, behav: C.genBehav(rng), seed: rng.u32(), ...c(rng) }; };

// C01: the command gets its file or standard input in other pieces.
function c01alt(ctx, i) {
  if (i % 8 !== 7) return null;
  return execCase('C01', ctx, i, (rng) => ({ cmd: rng.pick(['example', 'example', 'cli']), mode: rng.pick(['stdin', 'out']), src: rng.chance(0.2) ? C.b64(C.content(ctx, rng.int(12), 'big')) : libGen.deliver(rng).src, n: 6 }));
}
const undated = (t) => t.replace(/^\d{4}\/\d\d\/\d\d \d\d:\d\d:\d\d /gm, ''); // the example logs the time
function c01run(ctx, c) {
  if (c.cmd === 'example') c = { ...c, mode: 'out' };
  const base = exec(ctx, c, { behav: { dirOrder: 'sorted' } }).res;
  const vs = variantsOf(ctx, c, (rng) => Array.from({ length: c.n }, () => ({ behav: { ...C.genBehav(rng), readMax: rng.pick([1, 2, 3, 7, 17, 100, 511, 512, 513, 4095, 4096, 5000]) }, seed: rng.u32() })));
  for (const v of vs) {
    const { res } = exec(ctx, c, v);
    bump(ctx, 'runs of a command');
    if (res.exit !== base.exit || Buffer.compare(res.stdout, base.stdout) || undated(res.stderr) !== undated(base.stderr)) {
      fail('delivery-command', `${c.cmd}, its input arriving in pieces of up to ${v.behav.readMax} bytes: exit status ${res.exit}, ${res.stdout.length} bytes, ${clip(res.stderr, 200)}; read at once: ${base.exit}, ${base.stdout.length} bytes, ${clip(base.stderr, 200)}`, { variants: [v], ...note(c, res) });
    }
  }
}

// C02: a read error ends a command in failure.
function c02alt(ctx, i) {
  if (i % 6 !== 5) return null;
  return execCase('C02', ctx, i, (rng) => ({ cmd: rng.pick(['example', 'example', 'cli']), mode: rng.pick(['stdin', 'out', 'out', 'w', 'config']), src: rng.chance(0.2) ? C.b64(C.content(ctx, rng.int(12), 'big')) : C.b64(rng.chance(0.3) ? enc.encode('{:extensions [".clj"]}\n') : genProgram(rng).bytes), n: 12 }));
}
function c02run(ctx, c) {
  if (c.cmd === 'example') c = { ...c, mode: 'out' };
  const at = c.mode === 'stdin' ? 'stdin' : c.file;
  const base = exec(ctx, c).res;
  const draw = function* (rng) {
    for (let i = 0; i < c.n; i++) { const s = C.pickSite(rng, base.trace, (r) => r.path === at && (r.op === 'read' || (r.op === 'open' && c.mode !== 'config' && !/w/.test(r.detail)))); if (!s) return; const f = C.faultFor(rng, s, { pTransparent: 0.25 }); if (f) yield { faults: [f] }; }
  };
  for (const v of variantsOf(ctx, c, draw)) {
    const { res } = exec(ctx, c, v);
    const hit = res.trace.find((r) => r.fault && r.e && r.e !== E.INTR);
    const bad = (cls, m) => fail(cls, `${c.cmd} ${c.mode} with ${lastFaults(res)}: ${m}`, { variants: [v], ...note(c, res) });
    bump(ctx, 'runs of a command');
    if (!hit) { if (res.exit !== base.exit || Buffer.compare(res.stdout, base.stdout)) bad('transparent', 'another result than without'); continue; }
    const e = endedBadly(res);
    if (e) bad('ended', e);
    if (res.exit === 0) bad('swallowed', 'exit status 0');
    if (res.stdout.length) bad('printed', `printed ${res.stdout.length} bytes all the same`);
    if (!res.stderr.trim()) bad('silent', 'no message');
    const after = res.trace.slice(res.trace.indexOf(hit) + 1).filter((r) => r.op === 'read' && r.path === at);
    if (hit.op === 'read' && after.length) bad('read-on', 'read on after the failure');
  }
}

// C03: the commands on damaged sources.
function c03alt(ctx, i) {
  if (i % 6 !== 5) return null;
  return execCase('C03', ctx, i, (rng) => ({ cmd: rng.weighted([[1, 'example'], [4, 'cli']]), mode: rng.weighted([[4, 'stdin'], [3, 'out'], [2, 'w'], [2, 'config']]), flags: rng.chance(0.5) ? ['--enable-transform=use-to-require', '--enable-transform=remove-unused-requires'] : [],
    srcs: Array.from({ length: 12 }, () => { const d = libGen.damage(rng); if (rng.chance(0.15)) { let b = enc.encode(genConfigText(rng)); for (let k = rng.range(0, 2); k > 0; k--) b = damage(rng, b).bytes; return { src: C.b64(b) }; } return { src: d.src, mustfail: d.mustfail }; }) }));
}
function c03run(ctx, c) {
  if (c.cmd === 'example') c = { ...c, mode: 'out' };
  c.srcs.forEach((s, i) => {
    const { res, fs } = exec(ctx, { ...c, src: s.src });
    const bad = (cls, m) => fail(cls, `${c.cmd} ${c.mode}: ${m}`, { i, ...note(c, res) });
    bump(ctx, 'runs of a command');
    const e = endedBadly(res);
    if (e) bad('ended', e);
    if (res.overflow) return;
    if (s.mustfail && res.exit === 0) bad('accepted', 'a source that ends inside a form was accepted as complete');
    if (res.exit !== 0 && !res.stderr.trim()) bad('silent', 'exit status 1 without a message');
    if (res.exit !== 0 && res.stdout.length) bad('printed', 'printed something all the same');
    if (res.exit !== 0 && c.mode === 'w' && !C.eq(fs.resolve(c.file, true).node.data, new Uint8Array(Buffer.from(s.src, 'base64')))) bad('wrote', 'changed the file all the same');
  });
}
function* c03shrink(c, extra) {
  if (c.srcs.length > 1) { yield { ...c, srcs: [c.srcs[extra?.i ?? 0]] }; return; }
  for (const f of ['flags']) if (c[f]?.length) yield { ...c, [f]: [] };
  if (c.srcs[0].mustfail) return;
  const u = Buffer.from(c.srcs[0].src, 'base64');
  for (let k = u.length >> 1; k >= 1; k >>= 1) for (let p = 0; p < u.length; p += k) yield { ...c, srcs: [{ src: Buffer.concat([u.subarray(0, p), u.subarray(p + k)]).toString('base64') }] };
}

// C15: what the command does to damaged sources.
const FAITHFUL = ['--disable-transform=sort-import-require', '--disable-transform=enforce-ns-style'];
function c15alt(ctx, i) {
  if (i % 8 !== 7) return null;
  return execCase('C15', ctx, i, (rng) => ({ cmd: 'cli', mode: rng.pick(['stdin', 'out', 'w', 'w']), flags: [...(rng.chance(0.6) ? FAITHFUL : []), ...(rng.chance(0.4) ? ['--enable-transform=' + rng.pick(['fix-if-newline-consistency', 'remove-extra-blank-lines', 'fix-defn-arglist-newline'])] : [])],
    srcs: Array.from({ length: 16 }, () => {
      let b = rng.chance(0.004) ? Buffer.from(huge(rng, 2e6)) : Buffer.from(libGen.faithful(rng).src, 'base64');
      if (rng.chance(0.15)) b = Buffer.concat([Buffer.from('\ufeff'), b]);
      if (rng.chance(0.15)) b = Buffer.from(b.toString('latin1').replace(/\n/g, '\r\n'), 'latin1');
      if (rng.chance(0.15)) b = Buffer.concat([b, Buffer.from(rng.pick(['\x1a', '\0', '\r', '\n\n\n', ';', '\ufeff', '\xff']), 'latin1')]);
      return { src: b.toString('base64') };
    }) }));
}
function c15run(ctx, c) {
  const cases = [], from = [], results = [];
  c.srcs.forEach((s, i) => {
    const { res, fs } = exec(ctx, { ...c, src: s.src });
    bump(ctx, 'runs of a command');
    if (res.exit !== 0) return;
    let given = res.stdout;
    if (c.mode === 'w') given = fs.resolve(c.file, true).node.data;
    cases.push({ kind: 'faithful', src: s.src, given: given.length ? C.b64(given) : undefined, cfg: {}, opts: 1, ...(c.flags.includes(FAITHFUL[0]) ? {} : { ns: true }) });
    from.push(i); results.push(res);
  });
  if (!cases.length) return;
  const r = runLib(ctx.modules.lib, cases, { entropy: 1 });
  for (const x of r.results) {
    for (const [k, n] of Object.entries(x.stats || {})) bump(ctx, k, n);
    if (x.viol) fail(x.class, `cljfmt ${c.mode}: ` + x.viol, { i: from[x.i], ...note(c, results[x.i]) });
  }
}
function* c02shrink(c, extra) {
  if (!c.variants && extra?.variants) yield { ...c, variants: extra.variants };
  const u = Buffer.from(c.src, 'base64');
  for (let k = u.length >> 1; k >= 1; k >>= 1) for (let p = 0; p < u.length; p += k) yield { ...c, src: Buffer.concat([u.subarray(0, p), u.subarray(p + k)]).toString('base64') };
  for (const f of Object.keys(c.behav)) { const b = { ...c.behav }; delete b[f]; yield { ...c, behav: b }; }
}

const LIBREAL = 'parse and format packages and the Go runtime and standard library, compiled to wasm';
const LIBSTUB = 'readers, writers, goroutine scheduler choices, entropy';
const W = (o) => (ctx, rng) => C.genScenario(ctx, rng, typeof o === 'function' ? o(rng) : o);
const OUTMIX = [[6, 'out'], [3, 'stdin']];
const WMIX = [[5, 'w'], [1, 'lw']];

export const PROPS = {};
const add = (p) => { PROPS[p.id] = p; };
add(libProp('C01', { targets: ['lib', 'example', 'cli'], alt: c01alt, runAlt: c01run, shrinkAlt: c02shrink, kinds: ['deliver'], batch: 10, jobs: [500, 6000], real: LIBREAL, stub: LIBSTUB,
  rule: 'A case is a generated source (program, damaged program or token soup, 1 byte to 13 kB), a parse option set, a printer configuration and 7 (thorough 10) scripted readers. Non-trivial: more than a few bytes and more than three reads. Distinct: by hash of the case.' }));
add(libProp('C02', { targets: ['lib', 'example', 'cli'], kinds: ['rfail'], batch: 10, jobs: [500, 6000], real: LIBREAL, stub: LIBSTUB, alt: c02alt, runAlt: c02run, shrinkAlt: c02shrink,
  rule: 'A case is a generated source, a parse option set and 10 (16) readers that fail at a chosen byte in a chosen way; or a run of parse/example with failing system calls. Non-trivial: a failure was delivered. Distinct: by hash of the case.' }));
add(libProp('C03', { targets: ['lib', 'example', 'cli'], alt: c03alt, runAlt: c03run, shrinkAlt: c03shrink, kinds: ['damage'], batch: 40, jobs: [900, 14000], real: LIBREAL, stub: LIBSTUB,
  rule: 'A case is a generated program, cut, torn, spliced or otherwise damaged up to four times (or token soup, or deep nesting), parsed under one or all option sets and formatted under two configurations. Non-trivial: longer than 3 bytes. Distinct: by hash of the case.' }));
add(libProp('C04', { kinds: ['stop'], batch: 12, jobs: [500, 6000], real: LIBREAL, stub: LIBSTUB,
  rule: 'A case is a source (half of them damaged), 6 (10) scripted readers, as many writers, and a seeded goroutine schedule. Non-trivial: more than one read. Distinct: by hash of the case.' }));
add(libProp('C05', { kinds: ['wfail'], batch: 8, jobs: [500, 6000], real: LIBREAL, stub: LIBSTUB,
  rule: 'A case is a program, a printer configuration and 14 (24) writers that fail at a chosen byte in a chosen way. Non-trivial: the program is formatted and a writer failed. Distinct: by hash of the case.' }));
add(libProp('C06', { targets: ['lib', 'cli'], kinds: ['determ'], batch: 16, jobs: [300, 6000], real: LIBREAL, stub: LIBSTUB,
  alt: (ctx, i, deep) => (i % 3 !== 2 ? null : { prop: 'C06', engine: 'cli', sc: c06scenario(ctx, new Rng('C06x', ctx.seed, i)), n: deep ? 8 : 6, vseed: i }),
  runAlt: (ctx, c) => c06cli(ctx, c, (v, f) => { try { f(); } catch (e) { if (e instanceof Viol) e.extra = { ...(e.extra || {}), variants: v ? [v] : [] }; throw e; } ctx.distinct.add(hash32(JSON.stringify([C.argsOf(c.sc), c.sc.seed, v]))); }),
  shrinkAlt: function* (c, extra) { if (!c.variants && extra?.variants) yield { ...c, variants: extra.variants }; yield* shrinkCli(c); },
  rule: 'A case is a source and a configuration formatted 6 (10) times in one process under different schedules and once more in a process with other entropy (map order and hash seeds come from it); or a command line run again with other entropy, schedule and transfer sizes. Non-trivial: the source is accepted. Distinct: by hash of the case.' }));
add(libProp('C07', { targets: ['lib', 'race'], kinds: ['tasks', 'history', ['tasks', 'race'], 'tasks', 'history', ['tasks', 'race']], batch: 10, jobs: [600, 8000], real: LIBREAL + '; natively with the race detector', stub: LIBSTUB,
  rule: 'A case is 2 to 4 (6) parse-and-format uses run as goroutines under a seeded schedule, or one after another through one printer. Non-trivial: the schedule switched between them, or two uses succeeded. Distinct: by hash of the case.' }));
add(cliProp('C08', { jobs: [500, 14000], n: [8, 16], scenario: W({ modeMix: WMIX, config: 0.05, links: 0.35, badLinks: 0, missing: 0, files: 3, otherExt: 0.05, mix: [[9, 'dirty'], [1.5, 'clean'], [0.3, 'bad'], [0.8, 'big'], [0.5, 'blank']] }), run: c08,
  rule: 'A case is a tree and a cljfmt -w command line. Every mutating system call of the run, and of runs with one fault or a full disk, is a kill point (for writes also part-way) and the origin of up to four power-loss images. Non-trivial: a file is rewritten. Distinct: by hash of scenario and disturbance.' }));
add(cliProp('C09', { jobs: [900, 30000], n: [8, 20], scenario: W({ modes: true, many: 0.01, stdinw: 0.15 }), run: c09 }));
add(cliProp('C10', { jobs: [1000, 30000], n: [8, 20], scenario: W((rng) => ({ modes: rng.chance(0.5), links: 0.7, otherExt: 0.25, hidden: 0.12, modeMix: [[2, 'out'], [2, 'l'], [6, 'w'], [2, 'lw'], [0.5, 'stdin']], stdinw: 0.3 })), run: c10 }));
add(cliProp('C11', { jobs: [1600, 24000], n: [8, 20], scenario: W((rng) => ({ modes: rng.chance(0.2), dirs: rng.range(1, 8), files: rng.range(2, 12), links: rng.chance(0.5) ? 0.9 : 0, badLinks: 0.2, otherExt: 0.3, hidden: 0.15, crowd: 0.04, dirArg: 12, fileArg: 1, missing: 0.1, modeMix: [[5, 'out'], [5, 'l'], [3, 'w'], [1, 'lw']], np: [[6, 1], [2, 2], [1, 3]], config: 0.25, mix: [[7, 'dirty'], [6, 'clean'], [0.3, 'bad'], [0.4, 'empty'], [0.5, 'blank'], [0.2, 'big']] })), run: c11 }));
add(cliProp('C12', { jobs: [1600, 30000], n: [8, 20], scenario: c12scenario, run: c12 }));
add(cliProp('C13', { jobs: [350, 18000], n: [6, 14], scenario: W({ modeMix: WMIX, config: 0.25, copyExt: true, links: 0.3, badLinks: 0, missing: 0, files: 4, mix: [[9, 'dirty'], [2, 'clean'], [0.15, 'bad'], [0.5, 'big'], [0.5, 'blank']] }), run: c13 }));
add(cliProp('C14', { jobs: [750, 30000], n: [8, 20], scenario: W({ modeMix: OUTMIX, config: 0.1, stdinw: 0.05, np: [[4, 1], [3, 2], [3, 4]], mix: [[9, 'dirty'], [4, 'clean'], [2, 'bad'], [0.5, 'empty'], [0.6, 'blank'], [1.5, 'big'], [0.05, 'mega']] }), run: c14 }));
add(libProp('C15', { targets: ['lib', 'cli'], alt: c15alt, runAlt: c15run, shrinkAlt: c03shrink, kinds: ['faithful'], batch: 60, jobs: [1200, 20000], real: LIBREAL, stub: 'the storage damage',
  rule: 'A case is a generated program damaged up to four times and a printer configuration. Non-trivial: the damaged source is accepted and reproduced. Distinct: by hash of the case.' }));

export { Viol, bump };
