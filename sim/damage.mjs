// Damage to bytes: what storage and transport do to a source file.
const SPECIAL = ['(', ')', '[', ']', '{', '}', '"', '\\', ';', '#', '\'', '`', '~', '@', '^', ':', '\n', '\r', ' ', ',', '#_', '#(', '#{', '#"', '#?', '#?@', '#=', '#!', '#^', '#:', '#<', '~@', '^:', '::', '\u0000', '/', '-', '+', '1', '.', '%', '&',
  '\u00a0', '\u2028', '\u0085', '\ufeff', '\u200b', 'λ', '𝄞', '\ufffd', '#_\n', '^\n', '\'\n', '#\'', '\\newline', '\\u00', '\\o9', '1/', '0x', '##Inf', '# '];
const BAD = [[0xff], [0xc3], [0xe2, 0x82], [0xf0, 0x9d, 0x84], [0x80], [0xed, 0xa0, 0x80], [0xc0, 0x80], [0xf8, 0x88]];
const enc = new TextEncoder();

const cat = (...xs) => {
  const n = xs.reduce((a, x) => a + x.length, 0);
  const o = new Uint8Array(n);
  let k = 0;
  for (const x of xs) { o.set(x, k); k += x.length; }
  return o;
};
export { cat };

// damage returns {bytes, what}. other is a second program to splice with.
export function damage(rng, b, other, kinds) {
  const len = b.length;
  const at = () => rng.int(len + 1);
  const all = ['truncate', 'flip', 'overwrite', 'insert', 'invalid', 'drop', 'dup', 'splice', 'zero', 'swap', 'tear', 'cut-token'];
  const kind = rng.pick(kinds || all);
  switch (kind) {
    case 'truncate': return { bytes: b.slice(0, at()), what: kind };
    case 'flip': {
      if (!len) break;
      const o = b.slice(); const p = rng.int(len); o[p] ^= 1 << rng.int(8); return { bytes: o, what: kind };
    }
    case 'overwrite': {
      const s = enc.encode(rng.pick(SPECIAL)); const p = at();
      return { bytes: cat(b.slice(0, p), s, b.slice(Math.min(len, p + s.length))), what: kind };
    }
    case 'insert': { const p = at(); return { bytes: cat(b.slice(0, p), enc.encode(rng.pick(SPECIAL)), b.slice(p)), what: kind }; }
    case 'invalid': {
      const p = at(); const s = Uint8Array.from(rng.pick(BAD));
      return { bytes: cat(b.slice(0, p), s, b.slice(rng.chance(0.5) ? p : Math.min(len, p + s.length))), what: kind };
    }
    case 'drop': { const p = at(); const n = rng.chance(0.7) ? rng.range(1, 4) : rng.int(len + 1); return { bytes: cat(b.slice(0, p), b.slice(Math.min(len, p + n))), what: kind }; }
    case 'dup': { const p = at(); const q = Math.min(len, p + rng.range(1, rng.chance(0.7) ? 6 : 600)); return { bytes: cat(b.slice(0, q), b.slice(p)), what: kind }; }
    case 'splice': { const o = other || b; return { bytes: cat(b.slice(0, at()), o.slice(rng.int(o.length + 1))), what: kind }; }
    case 'zero': { const o = b.slice(); const p = len > 600 ? 512 * rng.int(Math.ceil(len / 512)) : at(); o.fill(0, p, p + (len > 600 ? 512 : rng.range(1, 8))); return { bytes: o, what: kind }; }
    case 'swap': {
      if (len < 4) break;
      const [p, q, r] = [at(), at(), at()].sort((x, y) => x - y);
      return { bytes: cat(b.slice(0, p), b.slice(q, r), b.slice(p, q), b.slice(r)), what: kind };
    }
    case 'tear': { // old blocks among new ones
      const o = other || b; const out = new Uint8Array(Math.max(b.length, o.length)); out.set(o); const blk = rng.pick([16, 64, 512]);
      for (let p = 0; p < b.length; p += blk) if (rng.chance(0.5)) out.set(b.slice(p, p + blk), p);
      return { bytes: out, what: kind };
    }
    case 'cut-token': { // cut right after a character that begins or ends something
      const ps = [];
      for (let i = 0; i < len; i++) if (/["\\#'`~@^:;()[\]{}\n]/.test(String.fromCharCode(b[i]))) ps.push(i);
      if (!ps.length) break;
      return { bytes: b.slice(0, rng.pick(ps) + rng.int(2)), what: kind };
    }
  }
  return { bytes: b.slice(0, at()), what: 'truncate' };
}

// Soup: bytes that were never a program.
export function soup(rng) {
  const parts = [];
  const n = rng.range(1, rng.chance(0.8) ? 12 : 60);
  const words = ['a', 'foo', ':k', '1', '"s"', '()', '[]', '{}', '(ns a', '(:require', '[b :as c]', 'defn', '(let [', '(fn [x]', '#(', '% %1', 'comment', ' ', '\n', ' ', '\\a', ':refer', '(:use', ':all', '(:import', '->', '(-> a', 'condp', ':else'];
  for (let i = 0; i < n; i++) parts.push(rng.chance(0.08) ? Uint8Array.from(rng.pick(BAD)) : enc.encode(rng.chance(0.55) ? rng.pick(SPECIAL) : rng.pick(words)));
  return cat(...parts);
}
