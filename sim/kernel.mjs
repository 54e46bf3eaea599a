// The simulated file system: inodes, directories, links, permission bits, a
// volatile state (what the process sees) and a journal from which the states
// that can be on disk after a kill or a power loss are derived.
export const E = { SUCCESS: 0, ACCES: 2, AGAIN: 6, BADF: 8, BUSY: 10, DQUOT: 19, EXIST: 20, FBIG: 22, INTR: 27, INVAL: 28,
  IO: 29, ISDIR: 31, LOOP: 32, MFILE: 33, NAMETOOLONG: 37, NFILE: 41, NOENT: 44, NOMEM: 48, NOSPC: 51, NOSYS: 52, NOTDIR: 54,
  NOTEMPTY: 55, NXIO: 60, PERM: 63, ROFS: 69, STALE: 72, XDEV: 75 };
export const ERRNAME = Object.fromEntries(Object.entries(E).map(([k, v]) => [v, 'E' + k]));
const BLOCK = 512;
const EMPTY = new Uint8Array(0);

class Inode {
  constructor(id, type, mode) {
    this.id = id; this.type = type; this.mode = mode; this.nlink = 0;
    this.data = EMPTY; // 'f': contents, exactly size bytes
    this.entries = null; // 'd': Map name -> Inode
    this.target = ''; // 'l'
    this.mtime = 0n;
    if (type === 'd') this.entries = new Map();
  }
}

export class FS {
  constructor() {
    this.nextId = 1;
    this.root = new Inode(this.nextId++, 'd', 0o755);
    this.root.nlink = 2;
    this.journal = []; // every change, in order
    this.forced = 0; // journal records before this index are durable (metadata)
    this.synced = new Map(); // inode id -> journal length when its data was last synced
    this.capacity = Infinity; // bytes of file data the disk can hold
    this.base = null; // snapshot the journal starts from
  }
  used() {
    let n = 0;
    const seen = new Set();
    const walk = (d) => { for (const c of d.entries.values()) { if (seen.has(c)) continue; seen.add(c); if (c.type === 'd') walk(c); else if (c.type === 'f') n += c.data.length; } };
    walk(this.root);
    return n;
  }
  // ---- building a world
  // ino: where inode numbers start; age(path): modification times, in seconds
  static fromWorld(entries, opt = {}) {
    const fs = new FS();
    if (opt.ino) fs.nextId += opt.ino;
    for (const e of entries) fs.put(opt.age ? { ...e, mtime: opt.age(e.path) } : e);
    fs.startJournal();
    return fs;
  }
  put(e) {
    const parts = e.path.split('/').filter(Boolean);
    let d = this.root;
    for (const p of parts.slice(0, -1)) {
      let c = d.entries.get(p);
      if (!c) { c = new Inode(this.nextId++, 'd', 0o755); c.nlink = 2; d.entries.set(p, c); }
      d = c;
    }
    const name = parts[parts.length - 1];
    let n;
    if (e.type === 'hard') {
      n = this.lookupRaw(e.target);
      if (!n) return; // its target was minimised away
      n.nlink++;
    } else {
      n = d.entries.get(name);
      if (!n) { n = new Inode(this.nextId++, e.type || 'f', 0); n.nlink = n.type === 'd' ? 2 : 1; }
      n.mtime = BigInt(Math.round(e.mtime || 0)) * 1000000000n;
      n.mode = e.mode ?? (n.type === 'd' ? 0o755 : 0o644);
      if (n.type === 'f') n.data = e.data instanceof Uint8Array ? e.data.slice() : new Uint8Array(Buffer.from(e.b64 ?? '', 'base64'));
      if (n.type === 'l') n.target = e.target;
    }
    d.entries.set(name, n);
  }
  lookupRaw(path) {
    let n = this.root;
    for (const p of path.split('/').filter(Boolean)) { if (n.type !== 'd') return null; n = n.entries.get(p); if (!n) return null; }
    return n;
  }
  clone() {
    const fs = new FS();
    const map = new Map();
    const copy = (n) => {
      let c = map.get(n);
      if (c) return c;
      c = new Inode(n.id, n.type, n.mode);
      map.set(n, c);
      c.nlink = n.nlink; c.data = n.data; c.target = n.target; c.mtime = n.mtime; // data arrays are never changed in place
      if (n.type === 'd') for (const [k, v] of n.entries) c.entries.set(k, copy(v));
      return c;
    };
    fs.root = copy(this.root);
    fs.nextId = this.nextId;
    fs.capacity = this.capacity;
    fs.startJournal();
    return fs;
  }
  startJournal() { this.journal = []; this.forced = 0; this.synced = new Map(); this.base = null; }
  snapshotBase() { this.base = this.clone(); }
  // ---- listing, for oracles: path -> {type, mode, data, ino, target}
  list() {
    const out = new Map();
    const walk = (d, path) => {
      for (const name of [...d.entries.keys()].sort()) {
        const n = d.entries.get(name);
        const p = path + '/' + name;
        out.set(p, { type: n.type, mode: n.mode, data: n.data, ino: n.id, target: n.target, nlink: n.nlink });
        if (n.type === 'd') walk(n, p);
      }
    };
    walk(this.root, '');
    return out;
  }
  // ---- path resolution. Returns {err} or {dir, name, node}; node may be undefined.
  resolve(path, follow, depth = 0, from = this.root, parents = []) {
    const stack = parents.length ? parents.slice() : [this.root];
    let cur = from;
    if (path.startsWith('/')) { cur = this.root; stack.length = 0; stack.push(this.root); }
    const wantDir = path.endsWith('/');
    const parts = path.split('/').filter((p) => p !== '' && p !== '.');
    if (parts.length === 0) return { dir: null, name: '.', node: cur, stack };
    for (let i = 0; i < parts.length; i++) {
      const p = parts[i];
      const last = i === parts.length - 1;
      if (cur.type !== 'd') return { err: E.NOTDIR };
      if (!(cur.mode & 0o100)) return { err: E.ACCES };
      if (p === '..') {
        if (stack.length > 1) stack.pop();
        cur = stack[stack.length - 1];
        if (last) return { dir: null, name: '.', node: cur, stack };
        continue;
      }
      if (p.length > 255) return { err: E.NAMETOOLONG };
      const next = cur.entries.get(p);
      if (!next) {
        if (last) return { dir: cur, name: p, node: undefined, wantDir, stack };
        return { err: E.NOENT };
      }
      if (next.type === 'l' && (!last || follow || wantDir)) {
        if (depth >= 40) return { err: E.LOOP };
        const rest = parts.slice(i + 1).join('/') + (wantDir ? '/' : '');
        const t = next.target + (rest ? '/' + rest : wantDir ? '/' : '');
        return this.resolve(t, follow, depth + 1, cur, stack);
      }
      if (last) {
        if (wantDir && next.type !== 'd') return { err: E.NOTDIR };
        return { dir: cur, name: p, node: next, stack: next.type === 'd' ? [...stack, next] : stack };
      }
      if (next.type === 'd') stack.push(next);
      cur = next;
    }
    return { err: E.NOENT };
  }
  // ---- changes; each is journaled, then applied to the volatile state
  do(rec) {
    this.journal.push(rec);
    applyMeta(this, rec);
    if (rec.op === 'write') {
      const n = rec.node;
      const end = rec.off + rec.data.length;
      const nd = new Uint8Array(Math.max(n.data.length, end));
      nd.set(n.data); nd.set(rec.data, rec.off);
      n.data = nd;
    } else if (rec.op === 'trunc') {
      const nd = new Uint8Array(rec.size);
      nd.set(rec.node.data.subarray(0, rec.size));
      rec.node.data = nd;
    }
    return rec;
  }
  newInode(type, mode) { return new Inode(this.nextId++, type, mode); }
  fsync(node) {
    this.forced = this.journal.length;
    this.synced.set(node.id, this.journal.length);
  }
  // ---- a state that may be on disk if power fails now. A prefix of the
  // metadata journal, at least up to the last sync, has reached the disk; file
  // data written since its file's last sync has reached it block by block, or
  // not. extra: a write or truncation in flight.
  powerImage(rng, style) {
    const fs = this.base.clone();
    const map = new Map(); // live inode id -> image inode
    const walk = (d) => { for (const c of d.entries.values()) if (!map.has(c.id)) { map.set(c.id, c); if (c.type === 'd') walk(c); } };
    map.set(fs.root.id, fs.root);
    walk(fs.root);
    const J = this.journal.length;
    const own = new Set(); // inodes of the image whose data nobody shares
    const owned = (c, size = c.data.length) => {
      if (!own.has(c) || size > c.data.length) { const nd = new Uint8Array(size); nd.set(c.data.subarray(0, Math.min(size, c.data.length))); c.data = nd; own.add(c); }
      return c.data;
    };
    let cut;
    switch (style) {
      case 'min': cut = this.forced; break;
      case 'max': cut = J; break;
      default: cut = this.forced + rng.int(J - this.forced + 1);
    }
    for (let i = 0; i < J; i++) {
      const r = this.journal[i];
      const img = (n) => { let c = map.get(n.id); if (!c) { c = new Inode(n.id, n.type, n.mode); c.target = n.target; map.set(n.id, c); } return c; };
      const durableData = r.node && i < (this.synced.get(r.node.id) ?? 0);
      const meta = i < cut;
      switch (r.op) {
        case 'link': if (meta) { const d = img(r.dir); d.entries.set(r.name, img(r.node)); } break;
        case 'unlink': if (meta) img(r.dir).entries.delete(r.name); break;
        case 'rename': if (meta) { img(r.dir).entries.delete(r.name); img(r.dir2).entries.set(r.name2, img(r.node)); } break;
        case 'chmod': if (meta) img(r.node).mode = r.mode; break;
        case 'trunc': if (meta) { const c = img(r.node); const nd = new Uint8Array(r.size); nd.set(c.data.subarray(0, r.size)); c.data = nd; own.add(c); } break;
        case 'write': {
          const c = img(r.node);
          const end = r.off + r.data.length;
          const nd = owned(c, meta ? Math.max(end, c.data.length) : c.data.length);
          if (durableData) { if (nd.length > r.off) nd.set(r.data.subarray(0, nd.length - r.off), r.off); break; }
          for (let p = 0; p < r.data.length;) {
            const q = Math.min(r.data.length, p + BLOCK - ((r.off + p) % BLOCK));
            const here = style === 'max' ? true : style === 'min' ? false : rng.chance(style === 'torn' ? 0.5 : 0.8);
            if (here) for (let k = p; k < q && r.off + k < nd.length; k++) nd[r.off + k] = r.data[k];
            p = q;
          }
        }
      }
    }
    fs.nextId = this.nextId;
    return fs;
  }
}

function applyMeta(fs, r) {
  switch (r.op) {
    case 'link': r.dir.entries.set(r.name, r.node); r.node.nlink++; break;
    case 'unlink': r.dir.entries.delete(r.name); r.node.nlink--; break;
    case 'rename': {
      const old = r.dir2.entries.get(r.name2);
      if (old === r.node) break;
      if (old) old.nlink--;
      r.dir.entries.delete(r.name); r.dir2.entries.set(r.name2, r.node); break;
    }
    case 'chmod': r.node.mode = r.mode; break;
  }
}
