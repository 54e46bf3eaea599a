import { parentPort, workerData } from 'node:worker_threads';
import { peak } from './wasi.mjs';
import { PROPS, Viol } from './props.mjs';
export function newCtx(d) { return { seed: d.seed, modules: d.modules, raceBin: d.raceBin, edges: new Uint8Array(16384), stats: {}, fired: {}, shapes: new Set(), schedules: new Set(), distinct: new Set(), steps: 0, runs: 0, simNs: 0, sys: 0, aux: 0 }; }
if (parentPort && workerData && workerData.id) {
  const ctx = newCtx(workerData);
  const P = PROPS[workerData.id];
  parentPort.on('message', (m) => {
    if (m.end) {
      ctx.stats['max memory of a process (MB)'] = Math.round(peak.mem / 1e6);
      parentPort.postMessage({ summary: { stats: ctx.stats, fired: ctx.fired, shapes: [...ctx.shapes], schedules: [...ctx.schedules], distinct: [...ctx.distinct], steps: ctx.steps, runs: ctx.runs, simNs: ctx.simNs, sys: ctx.sys, aux: ctx.aux, edges: ctx.edges } });
      return;
    }
    const out = { job: m.job };
    try {
      const c = P.gen(ctx, m.job, workerData.deep);
      if (m.job < 3) out.sample = P.sample(c);
      out.case = undefined;
      try { P.run(ctx, c); } catch (e) {
        if (!(e instanceof Viol)) throw e;
        delete c.go;
        out.viol = { cls: e.cls, msg: e.message, extra: e.extra, case: c };
      }
    } catch (e) { out.error = String(e && e.stack || e); }
    parentPort.postMessage(out);
  });
}
