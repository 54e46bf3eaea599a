// The driver of a check: builds, spreads jobs over workers, minimises what is
// found, writes the replay file and the evidence.
import fsn from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { Worker } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';
import { PROPS, Viol, describeVariant } from './props.mjs';
import { newCtx } from './worker.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const root = path.dirname(here);
const t0 = Date.now();
const secs = () => (Date.now() - t0) / 1000;

// capped gives the memory of a module a maximum, so that code that allocates
// without bound fails in the simulated process rather than in the simulator.
function capped(buf, pages) {
  const leb = (at) => { let v = 0, s = 0; for (;;) { const x = buf[at++]; v |= (x & 127) << s; s += 7; if (!(x & 128)) return [v >>> 0, at]; } };
  const enc = (v) => { const o = []; do { const x = v & 127; v >>>= 7; o.push(v ? x | 128 : x); } while (v); return Buffer.from(o); };
  for (let at = 8; at < buf.length;) {
    const id = buf[at], [size, body] = leb(at + 1);
    if (id === 5) {
      const [, flags] = leb(body), [min] = leb(flags + 1);
      if (buf[flags] !== 0) return buf;
      const sec = Buffer.concat([Buffer.from([1, 1]), enc(min), enc(Math.max(min, pages))]);
      return Buffer.concat([buf.subarray(0, at), Buffer.from([5]), enc(sec.length), sec, buf.subarray(body + size)]);
    }
    at = body + size;
  }
  return buf;
}
export function build(id, targets) {
  const out = path.join(root, '.build', id);
  fsn.rmSync(out, { recursive: true, force: true });
  fsn.mkdirSync(out, { recursive: true });
  const r = spawnSync(path.join(root, 'bin/build'), [out, ...targets], { encoding: 'utf8', timeout: 600000 });
  if (r.status !== 0) throw new Error('build failed: ' + (r.stderr || r.error));
  const modules = {};
  for (const t of targets) if (t !== 'race') modules[t] = new WebAssembly.Module(capped(fsn.readFileSync(path.join(out, t + '.wasm')), 12288)); // 768 MB
  return { out, modules, raceBin: path.join(out, 'race.bin') };
}
export function runAlone(b, seed, P, c) {
  const ctx = newCtx({ seed, modules: b.modules, raceBin: b.raceBin });
  try { P.run(ctx, structuredClone(c)); return null; } catch (e) { if (e instanceof Viol) return { cls: e.cls, msg: e.message, extra: e.extra }; throw e; }
}
function minimise(b, seed, P, c, v, budget) {
  const end = Date.now() + budget * 1000;
  let tries = 0, progress = true;
  while (progress && Date.now() < end) {
    progress = false;
    for (const y of P.shrink(c, v.extra)) {
      if (Date.now() > end) break;
      tries++;
      let w;
      try { w = runAlone(b, seed, P, y); } catch { w = null; }
      if (w && w.cls === v.cls) { c = y; v = w; progress = true; break; }
    }
  }
  return { c, v, tries };
}

export async function check(id, tier) {
  const P = PROPS[id];
  const seed = Number(process.env.VERIF_SEED || 1);
  const deep = tier === 'thorough';
  const b = build(id, P.targets);
  const tBuild = secs();
  const jobs = Number(process.env.SIM_JOBS || P.jobs[deep ? 1 : 0]);
  const wall = Number(process.env.SIM_WALL || (deep ? 660 : 120));
  const nw = Math.max(1, Math.min(Number(process.env.SIM_WORKERS || os.availableParallelism()), jobs));
  const data = { id, seed, deep, modules: b.modules, raceBin: b.raceBin };
  let next = 0, done = 0, stop = false, error = null;
  const samples = [], viols = [], sums = [];
  await new Promise((resolve) => {
    let live = nw;
    for (let i = 0; i < nw; i++) {
      const w = new Worker(path.join(here, 'worker.mjs'), { workerData: data, resourceLimits: { stackSizeMb: 48, maxOldGenerationSizeMb: 3000 } });
      const feed = () => { if (stop || next >= jobs || secs() > wall) w.postMessage({ end: true }); else w.postMessage({ job: next++ }); };
      w.on('message', (m) => {
        if (m.summary) { sums.push(m.summary); w.terminate(); if (--live === 0) resolve(); return; }
        done++;
        if (m.sample) samples[m.job] = m.sample;
        if (m.error) { error = error || `job ${m.job}: ${m.error}`; stop = true; }
        if (m.viol) { viols.push({ job: m.job, ...m.viol }); if (!process.env.SIM_ALL) stop = true; }
        feed();
      });
      w.on('error', (e) => { error = error || 'worker: ' + (e.stack || e); stop = true; if (--live === 0) resolve(); });
      feed();
    }
  });
  if (error) { console.error('simulator error: ' + error); if (!viols.length) process.exit(2); }
  const explored = secs() - tBuild;
  let exit = 0;
  viols.sort((x, y) => x.job - y.job);
  if (process.env.SIM_ALL) {
    const by = {};
    for (const v of viols) { (by[v.cls] ||= []).push(v); }
    for (const [k, vs] of Object.entries(by)) console.log(`${k}: ${vs.length}  e.g. job ${vs[0].job}: ${vs[0].msg.slice(0, 700)}`);
  }
  if (viols.length) {
    // The race detector runs natively and may need several goes; everything
    // else repeats at once.
    let v, again = null;
    for (let go = 0; go < 4 && !again; go++) for (v of viols.slice(0, 8)) { delete v.case.go; again = runAlone(b, seed, P, v.case); if (again) break; }
    if (!again) {
      v = viols.find((x) => x.case.engine === 'race');
      if (!v) { console.error(`simulator error: violation of job ${viols[0].job} (${viols[0].msg}) does not repeat`); process.exit(2); }
      again = { cls: v.cls, msg: v.msg, extra: v.extra };
    }
    const m = minimise(b, seed, P, v.case, again, Number(process.env.SIM_MIN || (deep ? 120 : 60)));
    const last = runAlone(b, seed, P, m.c) || m.v;
    const file = path.join(root, 'evidence', `replay-${id}-${seed}-${v.job}.json`);
    fsn.mkdirSync(path.dirname(file), { recursive: true });
    fsn.writeFileSync(file, JSON.stringify({ property: id, seed, tier, job: v.job, class: last.cls, violation: last.msg, describes: P.describe(m.c).split('\n'), system_calls: last.extra?.trace?.split('\n'), exit: last.extra?.exit, stderr: last.extra?.stderr, minimiser_runs: m.tries, case: m.c }, null, 1) + '\n');
    console.log(`seed ${seed}, job ${v.job}: ${v.msg}`);
    console.log(`minimised in ${m.tries} runs: ${last.msg}`);
    console.log(P.describe(m.c));
    console.log(`VIOLATION property=${id} replay=${path.relative(root, file)}`);
    exit = 1;
  }
  const add = (o, x) => { for (const [k, n] of Object.entries(x)) o[k] = k.startsWith('max ') ? Math.max(o[k] || 0, n) : (o[k] || 0) + n; return o; };
  const union = (f) => { const s = new Set(); for (const x of sums) for (const k of x[f]) s.add(k); return s.size; };
  const total = (f) => sums.reduce((a, x) => a + x[f], 0);
  const edges = new Uint8Array(16384);
  for (const x of sums) x.edges.forEach((e, i) => { if (e) edges[i] = 1; });
  const sorted = (o) => Object.fromEntries(Object.entries(o).sort());
  const runs = total('runs');
  const ev = {
    property: id, tier, seed, level: 'exploration', wall_s: Math.round(secs() * 10) / 10, violations: viols.length ? 1 : 0,
    coverage: {
      evaluations: runs, distinct_nontrivial: union('distinct'), rule: P.rule, samples: samples.filter(Boolean),
      jobs: done, stopped_at_wall_limit: !viols.length && done < jobs, runs_per_hour: Math.round(runs / explored * 3600), seeds_per_hour: Math.round(done / explored * 3600),
      simulated_time_s: total('simNs') / 1e9, system_calls: total('sys'), steps: total('steps'), reference_runs: total('aux'),
      faults_injected: sorted(sums.reduce((o, x) => add(o, x.fired), {})), counters: sorted(sums.reduce((o, x) => add(o, x.stats), {})),
      distinct_schedules: union('schedules'), distinct_call_sequences: union('shapes'), distinct_successive_scheduling_points: edges.reduce((a, e) => a + e, 0),
      distinct_measure: 'schedules: hash of the points at which the goroutine switched; call sequences: hash of calls, paths\' lengths, results and exit status; scheduling points: pairs of statements run one after the other, hashed into 16384 cells',
      real_components: P.real, stub_components: P.stub, workers: nw, build_s: Math.round(tBuild * 10) / 10,
    },
    assumptions: ['the simulated kernel behaves like a POSIX kernel in the calls the code makes', 'the Go compiler for wasm (and, for races, amd64) is right'],
  };
  fsn.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  fsn.writeFileSync(path.join(root, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  fsn.rmSync(b.out, { recursive: true, force: true });
  console.log(`${id} ${tier}: ${runs} runs in ${done} jobs, ${ev.coverage.distinct_nontrivial} distinct, ${Math.round(secs())} s, ${viols.length ? 'violated' : 'no violation'}`);
  return exit;
}

export function replay(file) {
  const r = JSON.parse(fsn.readFileSync(file, 'utf8'));
  const P = PROPS[r.property];
  const b = build('replay-' + r.property, P.targets);
  const v = runAlone(b, r.seed, P, r.case);
  fsn.rmSync(b.out, { recursive: true, force: true });
  console.log(P.describe(r.case));
  if (!v) { console.log('no violation on this tree'); return 0; }
  if (v.extra?.trace) console.log(v.extra.trace);
  console.log(v.msg);
  console.log(v.cls === r.class && v.msg === r.violation ? 'the recorded violation, exactly' : `another violation than the recorded one (${r.class}: ${r.violation})`);
  console.log(`VIOLATION property=${r.property} replay=${file}`);
  return 1;
}

if (process.argv[1] === fileURLToPath(import.meta.url)) {
  const [cmd, a, t] = process.argv.slice(2);
  try {
    process.exit(cmd === 'replay' ? replay(a) : await check(a, t || process.env.VERIF_TIER || 'quick'));
  } catch (e) { console.error('simulator error: ' + (e.stack || e)); process.exit(2); }
}
