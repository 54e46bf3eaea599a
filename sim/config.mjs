// The reference model of configuration files.
export const STYLES = [':normal', ':list', ':list-body', ':let', ':letfn', ':for', ':deftype', ':cond0', ':cond1', ':cond2', ':cond4'];
export const TF = [':normal', ':cond->'];
// readConfig is the reference model of a configuration text: 'invalid', or
// 'unknown' when the text has something this model does not speak of, or the
// settings it makes. A configuration is made of maps and sequences of strings
// and keywords: whatever else stands anywhere makes it invalid.
const SPACE = /[\t\n\v\f\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000,]/;
const TOKEN_END = /[\t\n\v\f\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000,";@^~()[\]{}\\]/;
export function readConfig(t) {
  const toks = [];
  let i = 0, odd = false;
  while (i < t.length) {
    const ch = t[i];
    if (SPACE.test(ch)) { i++; continue; }
    if (ch === ';' || t.startsWith('#!', i)) { while (i < t.length && t[i] !== '\n' && t[i] !== '\r') i++; continue; }
    if ('()[]{}'.includes(ch)) { toks.push({ t: ch }); i++; continue; }
    if (ch === '"') {
      let j = i + 1;
      while (j < t.length && t[j] !== '"') j += t[j] === '\\' ? 2 : 1;
      if (j >= t.length) return { kind: 'invalid', why: 'unterminated string' };
      const v = t.slice(i + 1, j);
      if (v.includes('\ufffd')) odd = true; // perhaps not valid UTF-8
      toks.push({ t: 's', v }); i = j + 1; continue;
    }
    if (ch === ':') {
      let j = i + 1;
      while (j < t.length && !TOKEN_END.test(t[j])) j++;
      toks.push({ t: 'k', v: t.slice(i, j) }); i = j; continue;
    }
    if (t.startsWith('#_', i) || t.startsWith('#:', i)) return { kind: 'unknown' };
    return { kind: 'invalid', why: 'neither a string nor a keyword nor a collection: ' + JSON.stringify(t.slice(i, i + 12)) };
  }
  let p = 0, bad = null;
  const close = { '(': ')', '[': ']', '{': '}' };
  const form = () => {
    const k = toks[p++];
    if (k.t === 's' || k.t === 'k') return k;
    if (!close[k.t]) { bad = 'unexpected ' + k.t; return null; }
    const kids = [];
    for (;;) {
      if (p >= toks.length) { bad = 'unterminated'; return null; }
      if (toks[p].t === close[k.t]) { p++; return { t: k.t, kids }; }
      const f = form();
      if (bad) return null;
      kids.push(f);
    }
  };
  const roots = [];
  while (p < toks.length) { const f = form(); if (bad) return { kind: 'invalid', why: bad }; roots.push(f); }
  const inv = (why) => ({ kind: 'invalid', why });
  const cfg = { kind: odd ? 'unknown' : 'ok', ext: null, ov: null, tf: null };
  if (!roots.length) return cfg;
  if (roots.length > 1) return inv('more than one form');
  const m = roots[0];
  if (m.t !== '{') return inv('not a map');
  if (m.kids.length % 2) return inv('odd map');
  const seq = (n) => n.t === '(' || n.t === '[';
  for (let k = 0; k < m.kids.length; k += 2) {
    const key = m.kids[k], val = m.kids[k + 1];
    if (key.t !== 'k') return inv('a key that is not a keyword');
    if (key.v === ':extensions') {
      if (!seq(val) || val.kids.some((x) => x.t !== 's')) return inv('extensions');
      cfg.ext = val.kids.map((x) => x.v);
    } else if (key.v === ':indent-overrides' || key.v === ':thread-first-overrides') {
      if (!seq(val) || val.kids.length % 2) return inv('overrides');
      const o = new Map();
      for (let q = 0; q < val.kids.length; q += 2) {
        const a = val.kids[q], s = val.kids[q + 1];
        if (s.t !== 'k') return inv('style');
        const ns = a.t === 's' ? [a.v] : seq(a) && a.kids.every((x) => x.t === 's') ? a.kids.map((x) => x.v) : null;
        if (!ns) return inv('names');
        for (const n of ns) o.set(n, s.v);
      }
      const ok = key.v === ':indent-overrides' ? STYLES : TF;
      for (const v of o.values()) if (!ok.includes(v)) return inv('style ' + v);
      for (let q = 1; q < val.kids.length; q += 2) if (!ok.includes(val.kids[q].v)) cfg.kind = 'unknown'; // of a name that has another style after all
      if (key.v === ':indent-overrides') cfg.ov = o; else cfg.tf = o;
    } else return inv('key ' + key.v);
  }
  return cfg;
}
// canonical writes the settings down again, differently.
export function canonical(r) {
  const l = [];
  if (r.tf) l.push(':thread-first-overrides (' + [...r.tf].reverse().map(([n, s]) => `["${n}"] ${s}`).join(' ') + ')');
  if (r.ov) l.push(':indent-overrides [' + [...r.ov].reverse().map(([n, s]) => `("${n}") ${s}`).join('\n') + ']');
  if (r.ext) l.push(':extensions [' + r.ext.map((e) => `"${e}"`).join(' ') + ']');
  return '{' + l.join('\n') + '}\n';
}

// nearMiss makes one small change to the structure of a configuration.
export function nearMiss(rng, t) {
  const toks = t.match(/"(?:[^"\\]|\\[^])*"|;[^\n]*|[()[\]{}]|[^\s,"()[\]{};]+|[\s,]+/g) || [];
  const at = toks.map((x, i) => i).filter((i) => !/^[\s,;]/.test(toks[i]));
  if (!at.length) return rng.pick(['a', '()', '{} {}', ':extensions', '{:extensions}', '{a b}']);
  const leaf = at.filter((i) => /^[":]/.test(toks[i])), open = at.filter((i) => /^[([{]$/.test(toks[i]));
  const OTHER = ['foo', '12', 'nil', 'true', '\\c', '["x"]', '("x")', '{"a" "b"}', '{}', '#{"x"}', '"x"', '".clj"', ':k', ':let', ':normal', '\'foo', '#"re"', '^:m "x"', '@x', '1.5', '#inst "x"', '[]', '[[]]', 'x/y', '-', '.clj', ':extensions', '`a', '~a', '#(a)', '"\\""'];
  const put = (i, s) => { toks[i] = s; };
  const kind = rng.int(9), i = rng.pick(leaf.length && kind < 7 ? leaf : at);
  switch (kind) {
    case 0: case 1: put(i, rng.pick(OTHER)); break;
    case 2: put(i, toks[i].replace(/^[":]/, '').replace(/"$/, '') || 'x'); break; // no colon, no quotes
    case 3: put(i, toks[i] + ' ' + rng.pick(OTHER)); break;
    case 4: put(i, rng.pick(OTHER) + ' ' + toks[i]); break;
    case 5: put(i, ''); break;
    case 6: put(i, /^"/.test(toks[i]) ? ':' + toks[i].slice(1, -1) : '"' + toks[i].slice(1) + '"'); break;
    case 7: { // other brackets
      const o = rng.pick(open.length ? open : at); let d = 0, j = o;
      for (; j < toks.length; j++) { if (/^[([{]$/.test(toks[j])) d++; else if (/^[)\]}]$/.test(toks[j]) && --d === 0) break; }
      const w = rng.pick(['()', '[]', '{}', ['#{', '}'], ['', ''], ['[[', ']]'], ['\'(', ')'], ['#(', ')'], ['(vec [', '])'], ['{:a ', '}']]);
      if (j < toks.length) { put(o, w[0]); put(j, w[1]); } break;
    }
    default: return rng.pick([() => t + ' ' + rng.pick(OTHER), () => rng.pick(OTHER) + ' ' + t, () => t + t, () => '[' + t + ']', () => '\ufeff' + t, () => '\'' + t, () => '^:m ' + t, () => t.replace(/\{/, '#:cljfmt{')])();
  }
  return toks.join('');
}
