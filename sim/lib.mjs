// Runs batches of library cases: in the wasm instance under the simulated
// kernel, or in the native build with the race detector.
import { FS } from './kernel.mjs';
import { runProcess } from './wasi.mjs';
import { spawnSync } from 'node:child_process';

const enc = new TextEncoder();
const STEP_LIMIT = 4e9;

function encodeBatch(cases) {
  return JSON.stringify({ cases: cases.map((c) => ({ ...c, prob: c.prob !== undefined ? Math.floor(c.prob * 4294967295) : undefined, seed: c.seed })) });
}
function parseOut(s) {
  const rs = [];
  for (const l of s.split('\n')) if (l.startsWith('R ')) { try { rs.push(JSON.parse(l.slice(2))); } catch { /* torn by an abort */ } }
  return rs;
}

// runLib -> {results, dead: null | {how, i, text}}: dead when the instance ended
// before all cases had been answered.
export function runLib(module, cases, opt = {}) {
  const fs = FS.fromWorld([]);
  const r = runProcess({ module, fs, args: [], stdin: enc.encode(encodeBatch(cases)), entropy: opt.entropy ?? 1, stepLimit: STEP_LIMIT, edges: opt.edges, sysLimit: 5e6, behav: opt.behav, sched: opt.sched });
  const results = parseOut(r.stdout.toString('utf8'));
  let dead = null;
  if (r.hang || r.trap || r.overflow || r.exit !== 0) {
    if (r.exit === 3) throw new Error('library harness: ' + r.stderr.slice(0, 2000));
    dead = { how: r.hang ? 'endless' : r.overflow ? 'stack' : r.trap ? 'trap' : /deadlock/.test(r.stderr) ? 'deadlock' : 'crash', i: results.length, text: (r.hang || r.trap || r.overflow || '') + ' ' + r.stderr.slice(0, 1500) };
  } else if (results.length !== cases.length) throw new Error(`library harness answered ${results.length} of ${cases.length} cases: ${r.stderr.slice(0, 500)}`);
  return { results, dead, steps: r.steps };
}

export function runRace(bin, cases, opt = {}) {
  const p = spawnSync(bin, [], { input: encodeBatch(cases), maxBuffer: 1 << 28, timeout: opt.timeout ?? 120000,
    env: { GODEBUG: 'asyncpreemptoff=1', GORACE: 'halt_on_error=1 exitcode=66', PATH: '/usr/bin:/bin', GOMAXPROCS: '1', GOTRACEBACK: 'single' } });
  if (p.error && p.error.code === 'ETIMEDOUT') return { results: parseOut(p.stdout.toString()), dead: { how: 'timeout', i: -1, text: 'wall-clock limit' } };
  if (p.error) throw p.error;
  const err = p.stderr.toString();
  const results = parseOut(p.stdout.toString());
  if (p.status === 3) throw new Error('library harness: ' + err.slice(0, 2000));
  let dead = null;
  if (p.status !== 0) dead = { how: p.status === 66 ? 'race' : p.status === 97 ? 'endless' : /deadlock/.test(err) ? 'deadlock' : 'crash', i: results.length, text: err.slice(0, 3000) };
  return { results, dead };
}
