// One simulated process: a WASI host over the simulated kernel. Everything the
// program can observe (files, directory order, arguments, clock, entropy, errors,
// short transfers) comes from here, and only from seeded generators, so that a
// run is a function of its specification.
import { E, ERRNAME } from './kernel.mjs';
import { Rng } from './prng.mjs';

class SimExit extends Error { constructor(code) { super('exit'); this.code = code; } }
class SimCrash extends Error { constructor(how) { super('crash'); this.how = how; } }
class SimHang extends Error { constructor(why) { super(why); } }

const FT = { d: 3, f: 4, l: 7 };
const R_READ = 2n, R_WRITE = 64n;
const dec = new TextDecoder();
const enc = new TextEncoder();
const SYS_LIMIT_DEFAULT = 200000;

// spec: { module, args, env, cwd, fs, stdin, seed, sched:{seed,prob}, stepLimit,
//   faults: [{n, e}|{n, short}], events: [{n, ev, path, ...}],
//   behav: {readMax, dirOrder, dirBatch, dots, dtUnknown}, crash: {n, part},
//   onMutate(fs, info), collectEdges }
export function runProcess(spec) {
  const fs = spec.fs;
  const SYS_LIMIT = spec.sysLimit || SYS_LIMIT_DEFAULT;
  const rng = new Rng('proc', spec.seed ?? 0);
  const entropy = new Rng('entropy', spec.entropy ?? 0);
  const behav = spec.behav || {};
  // Faults, events and the crash are aimed at the k-th call of one kind on one
  // path, so that they stay aimed when the scenario around them is minimised.
  const key = (op, path, k) => op + '\0' + path + '\0' + k;
  const faults = new Map();
  for (const f of spec.faults || []) if (!faults.has(key(f.op, f.path, f.k))) faults.set(key(f.op, f.path, f.k), f);
  const events = new Map();
  for (const e of spec.events || []) { const at = key(e.op, e.at, e.k); if (!events.has(at)) events.set(at, []); events.get(at).push(e); }
  const crash = spec.crash ? key(spec.crash.op, spec.crash.path, spec.crash.k) : null;
  const calls = new Map();
  const trace = [];
  const fired = {};
  let n = 0; // system calls that can fail, so far
  let total = 0;
  // The monotonic clock goes on with every call; the wall clock may also jump.
  let mono = 1000000000n, off0 = BigInt(Math.round((behav.epoch ?? 1700000000) * 1e6)) * 1000n;
  const tick = BigInt(behav.tick ?? 1000);
  const pass = () => {
    mono += tick;
    if (behav.jumps && rng.chance(0.05)) { off0 += BigInt(rng.pick([-86400, -3600, -1, 1, 3600, 86400 * 400])) * 1000000000n; fired['clock jump'] = (fired['clock jump'] || 0) + 1; if (mono + off0 < 0n) off0 = 0n; }
  };
  const wall = () => mono + off0;
  let umask = 0o022;
  let nextPerm = 0o666;
  const out = [], errOut = [];
  const fds = new Map();
  fds.set(0, { kind: 'stdin', pos: 0 });
  fds.set(1, { kind: 'stdout' });
  fds.set(2, { kind: 'stderr' });
  fds.set(3, { kind: 'dir', node: fs.root, path: '/', preopen: true });
  const stdin = spec.stdin || new Uint8Array(0);
  const args = ['cljfmt', ...(spec.args || [])].map((s) => enc.encode(s + '\0'));
  const env = Object.entries({ PWD: spec.cwd || '/', ...(spec.env || {}) }).map(([k, v]) => enc.encode(`${k}=${v}\0`));
  let inst, mem, dv, u8;
  const reg = [];
  let maxFds = 0;

  const refresh = () => { if (u8 === undefined || u8.buffer !== mem.buffer) { u8 = new Uint8Array(mem.buffer); dv = new DataView(mem.buffer); } };
  const str = (p, l) => { refresh(); return dec.decode(u8.subarray(p, p + l)); };
  // Enter a system call that can fail: count it, let the environment act, and
  // say whether it is to fail.
  const enter = (op, path, detail) => {
    if (++total > SYS_LIMIT) throw new SimHang('system call limit');
    pass();
    const ck = op + '\0' + path;
    const k = calls.get(ck) || 0;
    calls.set(ck, k + 1);
    const rec = { n, op, path, k, detail, e: 0 };
    trace.push(rec);
    const at = ck + '\0' + k;
    const evs = events.get(at);
    if (evs) for (const ev of evs) { if (applyEvent(fs, ev)) { fired['event:' + ev.ev] = (fired['event:' + ev.ev] || 0) + 1; rec.event = ev.ev; } }
    const f = faults.get(at);
    if (crash === at && !(spec.crash.part !== undefined && (op === 'write' || op === 'pwrite'))) {
      fired['crash'] = 1;
      rec.crash = true;
      throw new SimCrash('kill');
    }
    n++;
    if (f) {
      rec.fault = f.e !== undefined ? ERRNAME[f.e] || String(f.e) : 'short';
      if (f.e !== undefined) { const k = op + ':' + rec.fault; fired[k] = (fired[k] || 0) + 1; rec.e = f.e; }
    }
    return [rec, f];
  };
  const done = (rec, e) => { rec.e = e; return e; };
  const mutated = (info) => { if (spec.onMutate) spec.onMutate(fs, info); };
  const fdsFull = () => fds.size >= (behav.fdLimit || 256);
  const newFd = (o) => { let i = 4; while (fds.has(i)) i++; fds.set(i, o); maxFds = Math.max(maxFds, fds.size); return i; };
  const at = (dirfd, p, follow) => {
    const d = fds.get(dirfd);
    if (!d || d.kind !== 'dir') return { err: E.BADF };
    if (p.startsWith('/')) return fs.resolve(p, follow);
    return d.preopen ? fs.resolve('/' + p, follow) : fs.resolve(p, follow, 0, d.node, [fs.root, d.node]);
  };
  const full = (dirfd, p) => { const d = fds.get(dirfd); return p.startsWith('/') ? p : (d ? (d.path === '/' ? '' : d.path) : '?') + '/' + p; };
  const putStat = (buf, node) => {
    refresh();
    dv.setBigUint64(buf, 1n, true); dv.setBigUint64(buf + 8, BigInt(node.id), true);
    dv.setUint8(buf + 16, FT[node.type]); dv.setBigUint64(buf + 24, BigInt(node.nlink), true);
    dv.setBigUint64(buf + 32, BigInt(node.type === 'f' ? node.data.length : node.type === 'l' ? node.target.length : 4096), true);
    dv.setBigUint64(buf + 40, node.mtime, true); dv.setBigUint64(buf + 48, node.mtime, true); dv.setBigUint64(buf + 56, node.mtime, true);
    dv.setBigUint64(buf + 64, BigInt(node.mode), true);
  };
  const room = () => fs.capacity === Infinity ? Infinity : fs.capacity - fs.used();
  const iovs = (p, c) => { refresh(); const v = []; for (let i = 0; i < c; i++) v.push([dv.getUint32(p + 8 * i, true), dv.getUint32(p + 8 * i + 4, true)]); return v; };

  const doRead = (op, fd, iov, cnt, nread, off) => {
    const h = fds.get(fd);
    const v = iovs(iov, cnt);
    const want = v.reduce((a, x) => a + x[1], 0);
    const [rec, f] = enter(op, h ? h.path || h.kind : '?', want);
    if (!h) return done(rec, E.BADF);
    if (f && f.e !== undefined) return rec.e;
    if (h.kind === 'dir') return done(rec, E.ISDIR);
    if (h.kind === 'file' && !h.canRead) return done(rec, E.BADF);
    if (h.kind === 'stdout' || h.kind === 'stderr') return done(rec, E.BADF);
    const src = h.kind === 'stdin' ? stdin : h.node.data;
    const pos = off !== undefined ? Number(off) : h.pos;
    let max = Math.max(0, Math.min(want, src.length - pos));
    if (max > 1) {
      if (behav.readMax) max = Math.min(max, Math.max(1 + rng.int(behav.readMax), src.length >> 7));
      if (f && f.short !== undefined) { max = Math.max(1, Math.floor(max * f.short)); fired['read:short'] = (fired['read:short'] || 0) + 1; }
    }
    refresh();
    let got = 0;
    for (const [p, l] of v) { const k = Math.min(l, max - got); u8.set(src.subarray(pos + got, pos + got + k), p); got += k; if (got === max) break; }
    if (off === undefined) h.pos += got;
    if (got === 0 && want > 0) h.sawEOF = true;
    rec.got = got;
    rec.fd = fd;
    dv.setUint32(nread, got, true);
    return 0;
  };
  const doWrite = (op, fd, iov, cnt, nw, off) => {
    const h = fds.get(fd);
    const v = iovs(iov, cnt);
    const want = v.reduce((a, x) => a + x[1], 0);
    refresh();
    const data = new Uint8Array(want);
    { let k = 0; for (const [p, l] of v) { data.set(u8.subarray(p, p + l), k); k += l; } }
    if (h && h.kind === 'stderr') { // never fails: it is how the program tells us what went wrong
      errOut.push(data); dv.setUint32(nw, want, true); trace.push({ n, op: 'stderr', path: 'stderr', detail: want, e: 0 });
      if (trace.length > SYS_LIMIT) throw new SimHang('stderr limit');
      return 0;
    }
    const [rec, f] = enter(op, h ? h.path || h.kind : '?', want);
    if (!h) return done(rec, E.BADF);
    const crashHere = crash !== null && spec.crash.part !== undefined && crash === key(rec.op, rec.path, rec.k);
    if (!crashHere && f && f.e !== undefined) return rec.e;
    if (h.kind === 'stdin' || h.kind === 'dir' || (h.kind === 'file' && !h.canWrite)) return done(rec, E.BADF);
    let max = want;
    if (max > 1) {
      if (behav.writeMax) max = Math.min(max, Math.max(1 + rng.int(behav.writeMax), (h.node ? h.node.data.length : 0) >> 6, want >> 6));
      if (f && f.short !== undefined) { max = Math.max(1, Math.floor(max * f.short)); fired['write:short'] = (fired['write:short'] || 0) + 1; }
    }
    if (crashHere) max = Math.floor(want * spec.crash.part);
    if (h.kind === 'stdout') {
      if (crashHere) { fired.crash = 1; out.push(data.subarray(0, max)); throw new SimCrash('kill'); }
      out.push(data.subarray(0, max)); rec.got = max; dv.setUint32(nw, max, true); return 0;
    }
    const pos = h.append ? h.node.data.length : off !== undefined ? Number(off) : h.pos;
    const grow = Math.max(0, pos + max - h.node.data.length);
    const space = room();
    if (grow > space) {
      const fit = max - (grow - Math.max(0, space));
      fired['write:full'] = (fired['write:full'] || 0) + 1;
      rec.fault = rec.fault || 'full';
      if (fit <= 0) { if (crashHere) throw new SimCrash('kill'); return done(rec, E.NOSPC); }
      max = fit;
    }
    if (max > 0 || crashHere) {
      if (spec.onMutate && !crashHere) spec.onMutate(fs, { rec, inflight: { node: h.node, off: pos, data: data.subarray(0, max) } });
      if (max > 0) fs.do({ op: 'write', node: h.node, off: pos, data: data.slice(0, max) });
      h.node.mtime = wall();
    }
    if (crashHere) { fired.crash = 1; rec.crash = true; throw new SimCrash('kill'); }
    if (off === undefined) h.pos = pos + max;
    rec.got = max; rec.ino = h.node.id; rec.mut = true;
    dv.setUint32(nw, max, true);
    mutated({ rec });
    return 0;
  };
  const dirOk = (d) => (d.mode & 0o300) === 0o300;

  const wasi = {
    args_sizes_get(c, s) { refresh(); dv.setUint32(c, args.length, true); dv.setUint32(s, args.reduce((a, x) => a + x.length, 0), true); return 0; },
    args_get(pp, p) { refresh(); args.forEach((a, i) => { dv.setUint32(pp + 4 * i, p, true); u8.set(a, p); p += a.length; }); return 0; },
    environ_sizes_get(c, s) { refresh(); dv.setUint32(c, env.length, true); dv.setUint32(s, env.reduce((a, x) => a + x.length, 0), true); return 0; },
    environ_get(pp, p) { refresh(); env.forEach((a, i) => { dv.setUint32(pp + 4 * i, p, true); u8.set(a, p); p += a.length; }); return 0; },
    clock_time_get(id, prec, p) { refresh(); pass(); dv.setBigUint64(p, id === 0 ? wall() : mono, true); return 0; },
    clock_res_get(id, p) { refresh(); dv.setBigUint64(p, 1000n, true); return 0; },
    random_get(p, l) { refresh(); entropy.bytes(u8.subarray(p, p + l)); return 0; },
    sched_yield() { return 0; },
    proc_exit(code) { throw new SimExit(code & 255); }, // as the system keeps it
    poll_oneoff(inp, outp, ns, nev) {
      refresh();
      if (++total > SYS_LIMIT) throw new SimHang('poll limit');
      let k = 0;
      let best = null;
      for (let i = 0; i < ns; i++) {
        const b = inp + 48 * i;
        const tag = dv.getUint8(b + 8);
        if (tag === 0) {
          let t = dv.getBigUint64(b + 24, true);
          if (!(dv.getUint16(b + 40, true) & 1)) t += mono;
          else if (dv.getUint32(b + 16, true) === 0) t -= off0;
          if (best === null || t < best.t) best = { t, ud: dv.getBigUint64(b, true) };
        } else {
          const o = outp + 32 * k++;
          dv.setBigUint64(o, dv.getBigUint64(b, true), true); dv.setUint16(o + 8, 0, true); dv.setUint8(o + 10, tag);
        }
      }
      if (k === 0 && best) {
        if (best.t > mono) mono = best.t;
        dv.setBigUint64(outp, best.ud, true); dv.setUint16(outp + 8, 0, true); dv.setUint8(outp + 10, 0); k = 1;
      }
      dv.setUint32(nev, k, true);
      return 0;
    },
    fd_prestat_get(fd, p) { const h = fds.get(fd); if (!h || !h.preopen) return E.BADF; refresh(); dv.setUint8(p, 0); dv.setUint32(p + 4, 1, true); return 0; },
    fd_prestat_dir_name(fd, p, l) { refresh(); u8[p] = 47; return 0; },
    fd_fdstat_get(fd, p) {
      const h = fds.get(fd); if (!h) return E.BADF; refresh();
      dv.setUint8(p, h.kind === 'dir' ? 3 : h.kind === 'file' ? 4 : 2); dv.setUint16(p + 2, h.append ? 1 : 0, true);
      dv.setBigUint64(p + 8, 0x1fffffffn, true); dv.setBigUint64(p + 16, 0x1fffffffn, true); return 0;
    },
    fd_fdstat_set_flags() { return 0; },
    fd_fdstat_set_rights() { return 0; },
    fd_advise() { return 0; }, fd_allocate() { return E.NOSYS; }, fd_datasync(fd) { return wasi.fd_sync(fd); },
    fd_renumber() { return E.NOSYS; }, fd_tell(fd, p) { return wasi.fd_seek(fd, 0n, 1, p); },
    fd_read(fd, iov, cnt, nr) { return doRead('read', fd, iov, cnt, nr); },
    fd_pread(fd, iov, cnt, off, nr) { return doRead('pread', fd, iov, cnt, nr, off); },
    fd_write(fd, iov, cnt, nw) { return doWrite('write', fd, iov, cnt, nw); },
    fd_pwrite(fd, iov, cnt, off, nw) { return doWrite('pwrite', fd, iov, cnt, nw, off); },
    fd_seek(fd, off, whence, p) {
      const h = fds.get(fd); if (!h) return E.BADF;
      if (h.kind === 'stdin' || h.kind === 'stdout' || h.kind === 'stderr') return 70; // ESPIPE
      if (h.kind === 'dir') { h.pos = 0; refresh(); dv.setBigUint64(p, 0n, true); return 0; }
      const np = Number(off) + (whence === 0 ? 0 : whence === 1 ? h.pos : h.node.data.length);
      if (np < 0) return E.INVAL;
      h.pos = np; refresh(); dv.setBigUint64(p, BigInt(np), true); return 0;
    },
    fd_close(fd) {
      const h = fds.get(fd); const [rec, f] = enter('close', h ? h.path || h.kind : '?');
      if (!h) return done(rec, E.BADF);
      rec.fd = fd;
      fds.delete(fd);
      return f && f.e !== undefined ? rec.e : 0;
    },
    fd_sync(fd) {
      const h = fds.get(fd); const [rec, f] = enter('fsync', h ? h.path || h.kind : '?');
      if (!h) return done(rec, E.BADF);
      if (f && f.e !== undefined) return rec.e;
      if (h.node) { fs.fsync(h.node); rec.ino = h.node.id; mutated({ rec }); }
      return 0;
    },
    fd_filestat_get(fd, p) {
      const h = fds.get(fd); const [rec, f] = enter('fstat', h ? h.path || h.kind : '?');
      if (!h) return done(rec, E.BADF);
      if (f && f.e !== undefined) return rec.e;
      if (h.node) putStat(p, h.node);
      else { refresh(); u8.fill(0, p, p + 72); dv.setUint8(p + 16, 2); dv.setBigUint64(p + 64, 0o600n, true); }
      return 0;
    },
    fd_filestat_set_size(fd, size) {
      const h = fds.get(fd); const [rec, f] = enter('ftruncate', h ? h.path || h.kind : '?', Number(size));
      if (!h || h.kind !== 'file' || !h.canWrite) return done(rec, h ? E.INVAL : E.BADF);
      if (f && f.e !== undefined) return rec.e;
      const grow = Number(size) - h.node.data.length;
      if (grow > room()) { rec.fault = 'full'; return done(rec, E.NOSPC); }
      if (grow !== 0) { fs.do({ op: 'trunc', node: h.node, size: Number(size) }); rec.mut = true; }
      rec.ino = h.node.id; h.node.mtime = wall(); mutated({ rec });
      return 0;
    },
    fd_filestat_set_times(fd) { return fds.has(fd) ? 0 : E.BADF; },
    path_filestat_set_times() { return 0; },
    fd_readdir(fd, buf, len, cookie, used) {
      const h = fds.get(fd); const [rec, f] = enter('readdir', h ? h.path : '?', Number(cookie));
      if (!h || h.kind !== 'dir') return done(rec, h ? E.NOTDIR : E.BADF);
      if (f && f.e !== undefined) return rec.e;
      if (!h.listing || cookie === 0n) {
        const names = [...h.node.entries.keys()].sort();
        if (behav.dirOrder === 'reverse') names.reverse();
        else if (behav.dirOrder !== 'sorted') new Rng('dir', spec.seed ?? 0, h.path).shuffle(names);
        h.listing = names.map((nm) => [nm, h.node.entries.get(nm)]);
        if (behav.dots) { h.listing.unshift(['.', h.node]); h.listing.splice(Math.min(2, h.listing.length), 0, ['..', fs.root]); }
      }
      refresh();
      let p = buf, i = Number(cookie), sent = 0;
      const lim = behav.dirBatch ? 1 + rng.int(behav.dirBatch) : Infinity;
      for (; i < h.listing.length; i++) {
        const [nm, node] = h.listing[i];
        const b = enc.encode(nm);
        if (sent >= lim) break;
        const ent = new Uint8Array(24 + b.length);
        const ev = new DataView(ent.buffer);
        ev.setBigUint64(0, BigInt(i + 1), true); ev.setBigUint64(8, BigInt(node.id), true); ev.setUint32(16, b.length, true);
        ev.setUint8(20, behav.dtUnknown ? 0 : FT[node.type]);
        ent.set(b, 24);
        const room = buf + len - p;
        if (room < ent.length) { u8.set(ent.subarray(0, room), p); p += room; break; }
        u8.set(ent, p); p += ent.length; sent++;
      }
      dv.setUint32(used, p - buf, true);
      return 0;
    },
    path_filestat_get(dfd, flags, p, l, buf) {
      const path = str(p, l); const [rec, f] = enter(flags & 1 ? 'stat' : 'lstat', full(dfd, path));
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path, !!(flags & 1));
      if (r.err) return done(rec, r.err);
      if (!r.node) return done(rec, E.NOENT);
      rec.ino = r.node.id;
      putStat(buf, r.node);
      return 0;
    },
    path_open(dfd, dflags, p, l, oflags, rights, rinh, fdflags, fdp) {
      const path = str(p, l);
      const canRead = !!(rights & R_READ), canWrite = !!(rights & R_WRITE);
      const mode = (canRead ? 'r' : '') + (canWrite ? 'w' : '') + (oflags & 1 ? 'c' : '') + (oflags & 4 ? 'x' : '') + (oflags & 8 ? 't' : '') + (fdflags & 1 ? 'a' : '') + (oflags & 2 ? 'd' : '');
      const [rec, f] = enter('open', full(dfd, path), mode);
      const perm = nextPerm; nextPerm = 0o666;
      if (f && f.e !== undefined) return rec.e;
      if (fdsFull()) { rec.fault = 'fd limit'; fired['open:fd limit'] = (fired['open:fd limit'] || 0) + 1; return done(rec, E.MFILE); }
      const r = at(dfd, path, !!(dflags & 1) && !(oflags & 4));
      if (r.err) return done(rec, r.err);
      let node = r.node;
      if (!node) {
        if (!(oflags & 1)) return done(rec, E.NOENT);
        if (r.wantDir || oflags & 2) return done(rec, E.ISDIR);
        if (!dirOk(r.dir)) return done(rec, E.ACCES);
        node = fs.newInode('f', perm & ~umask & 0o777);
        node.mtime = wall();
        fs.do({ op: 'link', dir: r.dir, name: r.name, node });
        rec.created = true; rec.mut = true;
      } else {
        if ((oflags & 1) && (oflags & 4)) return done(rec, E.EXIST);
        if (node.type === 'l') return done(rec, E.LOOP);
        if ((oflags & 2) && node.type !== 'd') return done(rec, E.NOTDIR);
        if (node.type === 'd' && (canWrite || oflags & 8) && !(oflags & 2)) return done(rec, E.ISDIR);
        if ((canRead || oflags & 2) && !(node.mode & 0o400)) return done(rec, E.ACCES);
        if (canWrite && node.type === 'f' && !(node.mode & 0o200)) return done(rec, E.ACCES);
        if ((oflags & 8) && node.type === 'f' && node.data.length > 0) {
          if (!(node.mode & 0o200)) return done(rec, E.ACCES);
          fs.do({ op: 'trunc', node, size: 0 }); node.mtime = wall(); rec.mut = true;
        }
      }
      const fd = newFd(node.type === 'd' ? { kind: 'dir', node, path: full(dfd, path), pos: 0 }
        : { kind: 'file', node, path: full(dfd, path), pos: 0, canRead, canWrite, append: !!(fdflags & 1) });
      refresh(); dv.setInt32(fdp, fd, true);
      rec.ino = node.id; rec.fd = fd; rec.type = node.type;
      if (rec.mut) mutated({ rec });
      return 0;
    },
    path_create_directory(dfd, p, l) {
      const path = str(p, l); const [rec, f] = enter('mkdir', full(dfd, path));
      const perm = nextPerm; nextPerm = 0o666;
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path.replace(/\/+$/, ''), false);
      if (r.err) return done(rec, r.err);
      if (r.node) return done(rec, E.EXIST);
      if (!dirOk(r.dir)) return done(rec, E.ACCES);
      const node = fs.newInode('d', perm & ~umask & 0o777); node.nlink = 1;
      fs.do({ op: 'link', dir: r.dir, name: r.name, node }); rec.mut = true; mutated({ rec });
      return 0;
    },
    path_unlink_file(dfd, p, l) {
      const path = str(p, l); const [rec, f] = enter('unlink', full(dfd, path));
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path, false);
      if (r.err) return done(rec, r.err);
      if (!r.node) return done(rec, E.NOENT);
      if (r.node.type === 'd') return done(rec, E.ISDIR);
      if (!dirOk(r.dir)) return done(rec, E.ACCES);
      rec.ino = r.node.id; rec.mut = true;
      fs.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); mutated({ rec });
      return 0;
    },
    path_remove_directory(dfd, p, l) {
      const path = str(p, l); const [rec, f] = enter('rmdir', full(dfd, path));
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path.replace(/\/+$/, ''), false);
      if (r.err) return done(rec, r.err);
      if (!r.node || !r.dir) return done(rec, E.NOENT);
      if (r.node.type !== 'd') return done(rec, E.NOTDIR);
      if (r.node.entries.size) return done(rec, E.NOTEMPTY);
      if (!dirOk(r.dir)) return done(rec, E.ACCES);
      rec.mut = true;
      fs.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); mutated({ rec });
      return 0;
    },
    path_rename(ofd, op, ol, nfd, np, nl) {
      const from = str(op, ol), to = str(np, nl);
      const [rec, f] = enter('rename', full(ofd, from), full(nfd, to));
      if (f && f.e !== undefined) return rec.e;
      const a = at(ofd, from, false), b = at(nfd, to, false);
      if (a.err || b.err) return done(rec, a.err || b.err);
      if (!a.node) return done(rec, E.NOENT);
      if (!a.dir || !b.dir) return done(rec, E.BUSY);
      if (!dirOk(a.dir) || !dirOk(b.dir)) return done(rec, E.ACCES);
      if (b.node && b.node !== a.node) {
        if (b.node.type === 'd' && a.node.type !== 'd') return done(rec, E.ISDIR);
        if (b.node.type !== 'd' && a.node.type === 'd') return done(rec, E.NOTDIR);
        if (b.node.type === 'd' && b.node.entries.size) return done(rec, E.NOTEMPTY);
      }
      rec.ino = a.node.id; rec.mut = true;
      if (a.node !== b.node) fs.do({ op: 'rename', dir: a.dir, name: a.name, dir2: b.dir, name2: b.name, node: a.node });
      mutated({ rec });
      return 0;
    },
    path_link(ofd, flags, op, ol, nfd, np, nl) {
      const from = str(op, ol), to = str(np, nl);
      const [rec, f] = enter('link', full(ofd, from), full(nfd, to));
      if (f && f.e !== undefined) return rec.e;
      const a = at(ofd, from, !!(flags & 1)), b = at(nfd, to, false);
      if (a.err || b.err) return done(rec, a.err || b.err);
      if (!a.node) return done(rec, E.NOENT);
      if (b.node) return done(rec, E.EXIST);
      if (a.node.type === 'd') return done(rec, E.PERM);
      if (!dirOk(b.dir)) return done(rec, E.ACCES);
      rec.ino = a.node.id; rec.mut = true;
      fs.do({ op: 'link', dir: b.dir, name: b.name, node: a.node }); mutated({ rec });
      return 0;
    },
    path_symlink(tp, tl, dfd, p, l) {
      const target = str(tp, tl), path = str(p, l);
      const [rec, f] = enter('symlink', full(dfd, path), target);
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path, false);
      if (r.err) return done(rec, r.err);
      if (r.node) return done(rec, E.EXIST);
      if (!dirOk(r.dir)) return done(rec, E.ACCES);
      const node = fs.newInode('l', 0o777); node.target = target; rec.mut = true;
      fs.do({ op: 'link', dir: r.dir, name: r.name, node }); mutated({ rec });
      return 0;
    },
    path_readlink(dfd, p, l, buf, len, used) {
      const path = str(p, l); const [rec, f] = enter('readlink', full(dfd, path));
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path, false);
      if (r.err) return done(rec, r.err);
      if (!r.node) return done(rec, E.NOENT);
      if (r.node.type !== 'l') return done(rec, E.INVAL);
      const b = enc.encode(r.node.target);
      refresh(); const k = Math.min(len, b.length);
      u8.set(b.subarray(0, k), buf); dv.setUint32(used, k, true);
      return 0;
    },
    sock_accept() { return E.NOSYS; }, sock_shutdown() { return E.NOSYS; }, sock_recv() { return E.NOSYS; }, sock_send() { return E.NOSYS; },
    proc_raise() { return E.NOSYS; },
  };
  const sched = spec.sched || { seed: 0, prob: 0 };
  const sim = {
    config(what) {
      switch (what) {
        case 0: return BigInt.asIntN(64, BigInt(sched.seed || 0));
        case 1: return BigInt(Math.floor((sched.prob || 0) * 4294967296));
        case 2: return BigInt(spec.stepLimit || 30000000);
      }
      return 0n;
    },
    abort(code) { throw new SimHang('step limit'); },
    register(what, ptr) { reg[what] = ptr; },
    perm(m) { nextPerm = m; },
    chmod(dfd, p, l, mode) {
      const path = str(p, l); const [rec, f] = enter('chmod', full(dfd, path), mode);
      if (f && f.e !== undefined) return rec.e;
      const r = at(dfd, path, true);
      if (r.err) return done(rec, r.err);
      if (!r.node) return done(rec, E.NOENT);
      rec.ino = r.node.id; if (r.node.mode !== (mode & 0o777)) { rec.mut = true; fs.do({ op: 'chmod', node: r.node, mode: mode & 0o777 }); mutated({ rec }); }
      return 0;
    },
    fchmod(fd, mode) {
      const h = fds.get(fd); const [rec, f] = enter('fchmod', h ? h.path || h.kind : '?', mode);
      if (!h || !h.node) return done(rec, E.BADF);
      if (f && f.e !== undefined) return rec.e;
      rec.ino = h.node.id; if (h.node.mode !== (mode & 0o777)) { rec.mut = true; fs.do({ op: 'chmod', node: h.node, mode: mode & 0o777 }); mutated({ rec }); }
      return 0;
    },
  };
  inst = new WebAssembly.Instance(spec.module, { wasi_snapshot_preview1: wasi, sim });
  mem = inst.exports.memory;
  const res = { exit: 0, crashed: false, hang: null };
  fs.snapshotBase();
  try {
    inst.exports._start();
  } catch (e) {
    if (e instanceof SimExit) res.exit = e.code;
    else if (e instanceof SimCrash) { res.crashed = true; res.exit = null; } else if (e instanceof SimHang) { res.hang = e.message; res.exit = null; } else if (e instanceof WebAssembly.RuntimeError) { res.exit = null; res.trap = String(e.message); } else if (e instanceof RangeError && /call stack/.test(e.message)) { res.exit = null; res.overflow = e.message; } else throw e;
  }
  peak.mem = Math.max(peak.mem, mem.buffer.byteLength);
  res.stdout = Buffer.concat(out);
  res.stderr = Buffer.concat(errOut).toString('utf8');
  res.trace = trace;
  res.nsys = n;
  res.fired = fired;
  res.openFds = [...fds.entries()].filter(([k]) => k > 3).map(([, h]) => h.path);
  res.clockNs = Number(mono - 1000000000n);
  refresh();
  if (reg[1] !== undefined) res.steps = Number(dv.getBigUint64(reg[1], true));
  if (reg[2] !== undefined) res.hash = dv.getBigUint64(reg[2], true).toString(16);
  if (reg[3] !== undefined) res.yields = Number(dv.getBigUint64(reg[3], true));
  if (reg[0] !== undefined && spec.edges) {
    const e = u8.subarray(reg[0], reg[0] + 16384);
    const acc = spec.edges;
    for (let i = 0; i < 16384; i++) if (e[i]) acc[i] = 1;
  }
  return res;
}

function applyEvent(fs, ev) {
  const r = fs.resolve(ev.path, false);
  if (r.err) return false;
  switch (ev.ev) {
    case 'unlink': if (!r.node || r.node.type === 'd' || !r.dir) return false; fs.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); return true;
    case 'rmtree': if (!r.node || !r.dir) return false; fs.do({ op: 'unlink', dir: r.dir, name: r.name, node: r.node }); return true;
    case 'chmod': if (!r.node) return false; fs.do({ op: 'chmod', node: r.node, mode: ev.mode }); return true;
    case 'create': {
      if (r.node || !r.dir) return false;
      const node = fs.newInode(ev.type || 'f', ev.mode ?? 0o644); if (ev.type === 'd') node.nlink = 1; node.data = new Uint8Array(Buffer.from(ev.b64 || '', 'base64'));
      fs.do({ op: 'link', dir: r.dir, name: r.name, node }); return true;
    }
  }
  return false;
}

export const peak = { mem: 0 }; // of the processes of this worker
// The order of system calls, one line each; two runs of one specification must
// give the same text.
export function traceText(res) {
  return res.trace.map((r) => `${r.n} ${r.op} ${r.path}${r.detail !== undefined ? ' ' + r.detail : ''}${r.got !== undefined ? ' -> ' + r.got : ''}${r.e ? ' = ' + (ERRNAME[r.e] || r.e) : ''}${r.fault ? ' [' + r.fault + ']' : ''}${r.crash ? ' [crash]' : ''}`).join('\n');
}
