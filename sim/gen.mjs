// Generator of Clojure sources. A program is a list of top-level pieces; a
// piece is {t: text, k: kind} with kind 'delim' (a delimited form or a string:
// cut inside it and it is unterminated), 'atom', 'pre' (a prefixed form), 'ws'
// or 'com' (a comment with its line end).
export function genStyle(rng) {
  return {
    unicode: rng.chance(0.5), comments: rng.chance(0.8), crlf: rng.chance(0.12), commas: rng.chance(0.3),
    tabs: rng.chance(0.2), longTokens: rng.chance(0.15), messy: rng.chance(0.6), ns: rng.chance(0.4),
    blank: rng.chance(0.5), reader: rng.chance(0.6), forms: rng.chance(0.8), strange: rng.chance(0.25),
    depth: rng.range(1, 5), width: rng.range(2, 6), shebang: rng.chance(0.03), bom: rng.chance(0.03),
    cr: rng.chance(0.05), small: rng.chance(0.1),
  };
}
const SYMS = ['a', 'b', 'c', 'x', 'y', 'foo', 'bar', 'baz', 'x/y', 'a.b/c', 'str/join', 'set/union', '+', '-', '*', '->', '->>', '<=', '%', '%1', 'foo?', 'bar!', '*baz*', '.method', 'Foo.', 'a%b', 'nil', 'true', 'false', '&', 'k/go', 'q1', 'some-long-symbol-name', "foo'", 'x#'];
const KWS = [':a', ':b', ':foo', ':foo/bar', '::x', '::str/y', ':else', ':let', ':>>', ':as', ':100%>50%', ':when'];
const NUMS = ['0', '1', '42', '-7', '+3', '3.14', '1e10', '0xff', '1/2', '100N', '2r1010', '007'];
const CHARS = ['\\a', '\\newline', '\\space', '\\tab', '\\o101', '\\u0041', '\\(', '\\)', '\\"', '\\;', '\\\\', '\\,', '\\[', '\\{', '\\ '];
// tokens at the edges of what the scanner takes for a number, a symbol or a keyword
const EDGE = ['/', '/x', 'x/', ':/', ':x/', 'a//', '.', '..', '.-x', '.9', '-9', '+9', '9', '-', '+', '-.', '+a', '-a9', '9N', '9/9', '-1/9', '1e9', '1E-9', '9.', '0x9F', '36rZ9', '_', '_a', '$', '$a', 'a._b', 'a.$C', 'a$b', '%9', '%&', '&', '=', '<', '!', '?', "a'b", 'a#', 'a:b', ':a:b', '::a/b', ':9', ':-', ':.', ':a.b/c.d', '\\9', '\\/', '\\a', '\\z', '\\0', '\\A', '\\Z', '\\tab', '|', '|a|', '*', 'z', 'Z', 'A', 'az/Z9', '\u00b5', '#\'/', '@/', '\'.', '`-', '~+'];
const SMALLHEADS = ['->', '->>', 'cond->', 'cond->>', 'some->', 'some->>', 'as->', 'defn', 'defn-', 'defmethod', 'defmulti', 'defmacro', 'def', 'defonce', 'defprotocol', 'definterface', 'deftype', 'defrecord', 'defstruct', 'if', 'if-not', 'if-let', 'if-some', 'if*', 'when', 'when-let', 'when-first', 'let', 'let*', 'loop', 'letfn', 'for', 'doseq', 'dotimes', 'case', 'condp', 'cond', 'fn', 'fn*', 'bound-fn', 'reify', 'proxy', 'extend-type', 'extend-protocol', 'extend', 'ns', 'require', 'use', 'import', 'refer', 'load', 'gen-class', 'in-ns', 'catch', 'try', 'finally', 'comment', 'do', 'testing', 'deftest', 'binding', 'with-open', 'with-redefs', 'foo', 'x/defn', 'clojure.core/let', 'clojure.core/defmethod', 'k/go', 'GET', 'select', 'assoc', '/', '.', '..', 'new', 'set!', 'var', 'quote', 'throw', 'locking', 'monitor-enter', 'recur', 'with-meta', 'doto', 'while', 'cond-', 'let-', '-9', ':a', '"s"', '[]', '()', '{}', 'nil', '#_a', '\'a', '@a', '^:b a', '#(a)', '#"r"', '\\a'];
const UNI = ['λ', 'é', 'ß', '日本', '𝄞', '→', 'ñandú', '\u00e5', '🙂', 'ｆ'];
export const HEADS = ['foo', 'defn', 'def', 'let', 'if', 'if-not', 'if-let', 'when', 'cond', 'case', 'condp', 'for', 'doseq', 'letfn', 'deftype', 'defrecord', 'defmethod', 'defmulti', 'fn', '->', 'cond->', 'some->', 'do', 'loop', 'ns2', 'assoc', 'reify', 'with-open', 'try', 'catch', 'comment', 'str/join', 'select', 'k/go', 'GET', '->>', 'defmacro', 'proxy', 'extend-type', 'when-not', 'update-in', 'dotimes', 'binding'];

const ODD = ['\u0001', '\u007f', '\u200b', '\ufeff', '\u00a0', '\u2003', '\f', '\v', '\t', '\u0085', '\u2028', '\r', '\u0000', '\u001b', '\u00ad', '\ufffd', '\u0301', '\ud83d\ude42', '\u3000', '\u180e', '\u001c', '_', '*', '\\\\', ','];

export class Gen {
  constructor(rng, style) { this.r = rng; this.s = style || genStyle(rng); this.inFn = false; this.budget = 400; }
  nl() { return this.s.crlf && this.r.chance(0.8) ? '\r\n' : '\n'; }
  ws() { // at least one separator
    const r = this.r, s = this.s;
    if (!s.messy) return r.chance(0.75) ? ' ' : this.nl() + ' '.repeat(r.int(6));
    let o = '';
    const n = r.weighted([[6, 1], [2, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      o += r.weighted([[8, ' '], [4, this.nl()], [s.blank ? 2 : 0, this.nl() + this.nl()], [s.blank ? 1 : 0, this.nl() + ' ' + this.nl() + this.nl()], [s.commas ? 2 : 0, ', '], [s.tabs ? 2 : 0, '\t'], [2, '    '],
        [s.strange ? 1 : 0, '\u00a0'], [s.strange ? 1 : 0, '\u2003'], [s.strange ? 1 : 0, '\f'], [s.cr ? 2 : 0, '\r']]);
    }
    return o;
  }
  opt() { return this.r.chance(this.s.messy ? 0.35 : 0.1) ? this.ws() : ''; }
  comment() {
    const r = this.r;
    const body = r.weighted([[4, ' note'], [2, ';; x (unbalanced "'], [1, ''], [2, ' a b  c '], [this.s.unicode ? 2 : 0, ' ' + r.pick(UNI)], [1, ' ' + 'c'.repeat(r.int(60))], [1, ' #_ ^ \' ` ~@ \\'], [this.s.tabs ? 3 : 0.3, r.pick(['\tx', ' a\tb', ' c\t', '\t\t'])]]);
    const c = (r.chance(0.05) ? '#!' : r.chance(0.15) ? ';;' : ';') + (r.chance(0.12) ? r.pick(['', '', ' ', '  ']) : body) + this.nl();
    return r.chance(0.12) ? c + (r.chance(0.3) ? this.opt() : '') + this.comment() : c; // often there are several
  }
  sep() { // separator between forms, maybe with a comment
    let o = this.ws();
    if (this.s.comments && this.r.chance(0.03)) o = (this.r.chance(0.4) ? '' : ' ') + this.comment(); // right after the form
    while (this.s.comments && this.r.chance(0.08)) o += this.comment() + this.opt();
    return o;
  }
  sym() {
    const r = this.r;
    if (this.s.unicode && r.chance(0.12)) return r.pick(UNI) + (r.chance(0.5) ? r.pick(SYMS.slice(0, 8)) : '');
    if (this.s.longTokens && r.chance(0.02)) return 's' + 'ym'.repeat(r.pick([100, 1000, 2047, 2048, 3000]));
    return r.pick(SYMS);
  }
  string() {
    const r = this.r;
    let b = '';
    const n = r.weighted([[2, 0], [5, 1], [3, 3], [1, 8]]);
    for (let i = 0; i < n; i++) {
      b += r.weighted([[5, 'text'], [2, ' two words '], [2, '\\n'], [2, '\\"'], [2, '\\\\'], [1, '; not a comment'], [1, '(['], [2, this.nl() + '   '], [1, '\t'], [this.s.unicode ? 2 : 0, r.pick(UNI)], [1, '\\u00e9'], [1, '  '], [1, ',']]);
    }
    if (this.s.longTokens && r.chance(0.05)) b += 'L'.repeat(r.pick([4080, 4090, 4094, 4095, 4096, 4097, 5000, 9000]));
    return '"' + b + '"';
  }
  // A string with several lines, whose edges may be odd.
  docstring() {
    const r = this.r, odd = () => r.pick(ODD);
    if (r.chance(0.4)) return this.string();
    let b = '';
    const n = r.range(1, 5);
    for (let i = 0; i < n; i++) {
      if (i) b += r.chance(0.3) ? this.nl() + this.nl() : this.nl();
      if (i) b += r.pick(['', '  ', '   ', '      ', '\t', ' \t ']);
      b += (r.chance(0.15) ? odd() : '') + r.pick(['text', 'two words', '\\"q\\"', '(f [x])', '; no comment', '', '\\n', '- a', '`b`']) + (r.chance(0.15) ? odd() : '') + r.pick(['', '', '', '  ', '\t']);
    }
    return '"' + b + '"';
  }
  regex() { return '#"' + this.r.pick(['a+', '\\\\d', '[^x]', '\\"', '', '(a|b)', 'x y']) + '"'; }
  atom() {
    const r = this.r;
    return r.weighted([[8, this.sym()], [3, r.pick(KWS)], [3, r.pick(NUMS)], [1, r.pick(CHARS)], [1, this.s.unicode ? '\\' + r.pick(['λ', 'é', '日', '𝄞']) : '\\z']]);
  }
  seq(open, close, items, inner) {
    let o = open + this.opt();
    items.forEach((it, i) => { if (i) o += this.sep(); o += it; });
    o += this.s.comments && this.r.chance(0.04) ? this.ws() + this.comment() + this.opt() : this.opt();
    return o + close;
  }
  many(d, lo, hi) { const n = this.r.range(lo, hi); const xs = []; for (let i = 0; i < n && this.budget > 0; i++) xs.push(this.form(d)); return xs; }
  vec(d, n) { return this.seq('[', ']', n === undefined ? this.many(d, 0, this.s.width) : this.many(d, n, n)); }
  list(d) {
    const r = this.r;
    if (!this.s.forms || r.chance(0.3)) return this.seq('(', ')', this.many(d, 0, this.s.width));
    const h = r.pick(HEADS);
    const b = () => this.form(d);
    let xs;
    switch (h) {
      case 'defn': case 'defmacro': case 'fn': xs = [h, this.sym(), ...(r.chance(0.3) ? [this.docstring()] : []), this.vec(1), ...this.many(d, 0, 3)]; break;
      case 'def': case 'defmulti': xs = [h, this.sym(), ...(r.chance(0.4) ? [this.docstring()] : []), ...this.many(d, 0, 2)]; break;
      case 'let': case 'loop': case 'if-let': case 'with-open': case 'dotimes': case 'binding': xs = [h, this.vec(d, 2 * r.range(0, 2)), ...this.many(d, 0, 3)]; break;
      case 'for': case 'doseq': xs = [h, this.seq('[', ']', [this.sym(), b(), ...(r.chance(0.5) ? [':let', this.vec(d, 2)] : [])]), ...this.many(d, 0, 2)]; break;
      case 'letfn': xs = [h, this.seq('[', ']', [this.seq('(', ')', [this.sym(), this.vec(1), b()])]), b()]; break;
      case 'deftype': case 'defrecord': case 'reify': case 'proxy': case 'extend-type': xs = [h, 'Foo', this.vec(1), 'Iface', this.seq('(', ')', ['meth', this.vec(1), ...this.many(d, 0, 2)])]; break;
      case 'defmethod': xs = [h, this.sym(), r.pick(KWS), this.vec(1), b()]; break;
      case 'if': case 'if-not': xs = [h, b(), b(), ...(r.chance(0.8) ? [b()] : [])]; break;
      case 'condp': xs = [h, this.sym(), this.sym(), ...this.many(d, 0, 2), ...(r.chance(0.4) ? [b(), ':>>', b()] : [])]; break;
      default: xs = [h, ...this.many(d, 0, this.s.width)];
    }
    return this.seq('(', ')', xs);
  }
  form(d) {
    const r = this.r;
    this.budget--;
    if (d <= 0 || this.budget <= 0) return this.r.chance(0.12) ? this.string() : this.atom();
    const x = this.s.reader;
    const kind = r.weighted([[10, 'atom'], [2, 'string'], [9, 'list'], [4, 'vec'], [3, 'map'], [x ? 1 : 0, 'set'], [x ? 1 : 0, 'regex'], [x && !this.inFn ? 1.5 : 0, 'fn'],
      [x ? 3 : 0, 'prefix'], [x ? 1 : 0, 'cond'], [x ? 1 : 0, 'nsmap'], [x ? 1 : 0, 'tag'], [x ? 1 : 0, 'varq'], [x ? 1.5 : 0, 'meta'], [x ? 1 : 0, 'discard'], [x ? 0.3 : 0, 'eval']]);
    switch (kind) {
      case 'atom': return this.atom();
      case 'string': return this.string();
      case 'regex': return this.regex();
      case 'list': return this.list(d - 1);
      case 'vec': return this.vec(d - 1);
      case 'map': return this.seq('{', '}', this.many(d - 1, 0, 3).flatMap((v) => [this.atom(), v]));
      case 'set': return this.seq('#{', '}', this.many(d - 1, 0, 3));
      case 'fn': { this.inFn = true; const s = this.seq('#(', ')', [this.sym(), ...this.many(d - 1, 0, 3)]); this.inFn = false; return s; }
      case 'prefix': return r.pick(["'", '@', '`', '~', '~@', "'", '@']) + this.pad() + this.form(d - 1);
      case 'cond': return r.pick(['#?(', '#?@(']) + this.seq('', ')', [':clj', this.form(d - 1), ':cljs', this.form(d - 1)]);
      case 'nsmap': return r.pick(['#:foo', '#::', '#::str', '#:a.b']) + this.pad0() + this.seq('{', '}', [':k', this.form(d - 1)]);
      case 'tag': return '#' + r.pick(['inst', 'uuid', 'foo/bar', 'x']) + this.ws() + this.form(d - 1);
      case 'varq': return "#'" + this.sym();
      case 'meta': return r.pick(['^', '^', '#^']) + this.pad() + r.pick(['String', ':dynamic', '{:a 1}', '"x"', '^:b c']) + this.ws() + this.form(d - 1);
      case 'discard': return '#_' + this.pad() + this.form(d - 1) + (r.chance(0.7) ? this.ws() + this.form(d - 1) : '');
      case 'eval': return '#=' + this.pad() + this.list(d - 1);
    }
  }
  pad() { return this.r.chance(0.1) ? this.ws() : ''; } // between a prefix and its form
  pad0() { return this.r.chance(0.1) ? ' ' : ''; }
  nsForm() {
    const r = this.r;
    const libs = ['a.b', 'c', 'clojure.string', 'clojure.set', 'korma.core', 'd.e-f', 'my.x', 'zz.top', 'k.l.m', 'foo.bar'];
    const als = ['str', 'set', 'x', 'k', 'a', 'q'];
    const refs = ['foo', 'bar', 'join', 'union', 'select', 'GET', 'baz', 'y'];
    const vecOrList = (xs) => r.chance(0.75) ? this.seq('[', ']', xs) : this.seq('(', ')', xs);
    // clauses that are unusual or that damage leaves behind
    const odd = (l) => r.pick([
      () => vecOrList([l, r.pick([':as', ':refer', ':only', ':exclude', ':rename'])]), () => vecOrList([l, 'x', 'y']), () => vecOrList([l, ':refer', r.pick(refs)]), () => vecOrList([l, ':only', r.pick(['()', '[]', '[:a]', '["x"]', 'x', '{}'])]),
      () => vecOrList([l, ':rename', '{a b}']), () => vecOrList([l, ':exclude', '[a b]']), () => vecOrList([l, vecOrList(['x', ':as', 'y']), vecOrList(['z'])]), () => vecOrList([vecOrList([l])]), () => '{a b}', () => '"str"', () => ':reload', () => '[]', () => '()', () => '#_' + l,
      () => vecOrList([l, ':as', 'x', ':as', 'k']), () => vecOrList([l, ':refer', '[foo]', ':refer', '[bar]']), () => vecOrList([l, ':refer', '[foo]', ':refer-macros', '[bar y]']), () => vecOrList(['"js-lib"', ':as', 'x']), () => vecOrList([l, ':as', ':x']), () => "'" + l, () => '^:a ' + l,
      () => vecOrList([l, ':include-macros', 'true']), () => vecOrList([':as', 'x']), () => '#?(:clj ' + l + ')', () => vecOrList([l, ':only', '(foo ; c\n bar)']), () => vecOrList([l, ':as', ' ; c\n x'])])();
    const lib = () => {
      const l = r.pick(libs);
      if (r.chance(0.1)) return odd(l);
      switch (r.int(7)) {
        case 0: return l;
        case 1: return vecOrList([l]);
        case 2: return vecOrList([l, ':as', r.pick(als)]);
        case 3: return vecOrList([l, ':refer', vecOrList(several(0))]);
        case 4: return vecOrList([l, ':as', r.pick(als), ':refer', vecOrList(r.sample(refs, r.range(1, 3)))]);
        case 5: return vecOrList([l, ':refer', ':all']);
        default: return vecOrList([l, ':as', r.pick(als)]);
      }
    };
    const several = (lo) => { const l = r.sample(refs, r.range(lo, 4)); if (l.length && r.chance(0.2)) l.push(r.pick(l), r.pick(refs)); return r.chance(0.3) ? [l.join(' ')] : l; }; // sometimes one twice
    const use = () => { const l = r.pick(libs); if (r.chance(0.2)) return odd(l); return r.pick([l, vecOrList([l]), vecOrList([l, ':only', vecOrList(several(1))]), vecOrList([l, ':as', r.pick(als)])]); };
    const imp = () => r.pick(['java.util.Date', '(java.util Date UUID)', '[java.io File]', '(java.net URL)', 'Foo', 'd.e_f.G']);
    const clause = () => {
      const n = r.chance(0.03) ? r.range(20, 60) : r.range(0, 6);
      const items = (f) => Array.from({ length: n }, f);
      if (r.chance(0.08)) return r.pick([() => vecOrList([r.pick(['foo/load', 'clojure.core/require', 'a/use', ':a/require', '::use', 'load', ':load', ':gen-class', 'gen-class', 'use', 'import', 'refer-clojure', 'requires', '"require"', '^:a :require', ':refer']), ...items(lib)]), () => ':require', () => '()', () => '[]', () => "'(:require a)", () => '{:require a}', () => '#_(:use a)'])();
      switch (r.int(8)) {
        case 0: case 1: case 2: return this.seq('(', ')', [r.chance(0.9) ? ':require' : 'require', ...items(lib)]);
        case 3: return this.seq('(', ')', [':use', ...items(use)]);
        case 4: return this.seq('(', ')', [':import', ...items(imp)]);
        case 5: return this.seq('(', ')', [':require-macros', ...items(lib)]);
        case 6: return this.seq('[', ']', [':require', ...items(lib)]);
        default: return this.seq('(', ')', [':refer-clojure', ':exclude', vecOrList(['get', 'update'])]);
      }
    };
    const parts = ['ns', r.pick(['my.app', 'x.core', 'foo'])];
    if (r.chance(0.3)) parts.push(this.docstring());
    const n = r.range(0, 4);
    for (let i = 0; i < n; i++) parts.push(clause());
    return this.seq('(', ')', parts);
  }
  // A form with few children, of every kind and often with line ends or comments
  // between them, so that what a form lacks is met as often as what it has.
  smallForm(d = 2) {
    const r = this.r;
    if (r.chance(0.12)) return this.smallNs();
    const child = () => r.weighted([[4, () => this.sym()], [3, () => r.pick(EDGE)], [1, () => r.pick(KWS)], [1, () => r.pick(NUMS)], [1, () => '"s"'], [0.7, () => '"s\n  t"'], [1, () => 'nil'], [2, () => this.seq('[', ']', kids(r.int(4)))], [2, () => (d > 0 ? this.smallForm(d - 1) : '()')],
      [0.7, () => this.seq('{', '}', kids(2 * r.int(2)))], [0.5, () => this.seq('#{', '}', kids(r.int(3)))], [1, () => r.pick(['#_', '#_ ', '#_ ; c\n', '#_\n']) + child()],
      [2, () => r.pick(["'", '@', '`', '~', '~@', '^', '#^', '#foo ']) + r.pick(['', '', ' ', ' ; c\n', '; c\n ', '\n', ' ; c\n ; d\n']) + child()], [0.7, () => r.pick(['#?(:clj ', '#?@(:clj ']) + child() + ')'], [0.4, () => '#:a{:b ' + child() + '}'], [0.4, () => r.pick(CHARS) + ' '], [0.4, () => r.pick(["#'", "#' ", '#=']) + this.sym()], [0.2, () => '#=' + r.pick(['', ' ', '\n', ' ; c\n']) + join('(', kids(r.int(3)), ')')]])();
    const gap = () => r.weighted([[6, ' '], [3, '\n'], [1, '\n\n'], [1, ' ; c\n'], [0.7, '\n; c\n'], [0.5, '; c\n\n; d\n'], [0.5, ', '], [0.3, '\t'], [0.3, '\r\n']]);
    const kids = (n) => Array.from({ length: n }, child);
    const join = (o, xs, c) => { let t = o + (r.chance(0.15) ? gap() : ''); xs.forEach((x, i) => { t += (i ? gap() : '') + x; }); return t + (r.chance(0.3) ? gap() : '') + c; };
    const n = r.weighted([[2, 0], [3, 1], [3, 2], [3, 3], [2, 4], [1, 5], [1, 6]]);
    if (r.chance(0.1)) return join(...r.pick([['[', kids(n), ']'], ['#{', kids(n), '}'], ['{', kids(2 * (n >> 1)), '}'], ['(', kids(n), ')']]));
    return join('(', [r.pick(SMALLHEADS), ...kids(n)], ')');
  }
  smallNs() {
    const r = this.r, e = () => r.pick(['[]', '()', 'a', '(a)', '[a]', 'a.b', '[a ; c\n b]', '(a\nb)', 'a._b', 'a.$C', '$C', '_', '(a.b C)', '(a.b C D)', '[a.b D C B]', '(a.b)', '[a :as b]', '[a :refer [b a]]', '[a :refer ()]', '[a :refer :all]', '[a :as]', '[:as b]', '[a b]', '[a [b] c]', '(a (b :as c))', ':reload', ':all', '"a"', '; c\n', '#_a', '#_ [a]', '^:b a', "'a", '{}', '{:a b}', '[[]]', '[()]', '1', 'nil', '/', ':/', 'clojure.core', '[clojure.core :as c]', '(:a)', '[a\n:as\nb]', '[b :as a]', 'b', '[b]', '(b a)']);
    const clause = () => { const c = r.pick([['(', ')'], ['(', ')'], ['(', ')'], ['[', ']']]), k = r.pick(['', ':', ':', ':']); return c[0] + (r.chance(0.05) ? '' : k + r.pick(['require', 'require', 'use', 'import', 'import', 'require-macros', 'refer-clojure', 'load', 'gen-class', 'only', 'use-macros', 'include'])) + Array.from({ length: r.int(5) }, () => r.pick([' ', ' ', '\n']) + e()).join('') + r.pick(['', '', '', ' ', '\n', ' ; c\n']) + c[1]; };
    if (r.chance(0.2)) return clause();
    return '(ns' + r.pick(['', ' a', ' a', ' a', ' a', ' a.b', ' ^:c a', ' a "d"', ' a "d\n  e"', ' a {:m 1}', ' a ; c\n', '\na', ' a #_b', ' "d"', ' :a']) + Array.from({ length: r.weighted([[1, 0], [4, 1], [3, 2], [1, 3]]) }, () => r.pick([' ', '\n', '\n', '\n\n', ' ; c\n']) + (r.chance(0.1) ? e() : clause())).join('') + r.pick(['', '', '\n', ' ']) + ')';
  }
  piece() {
    const t = this.s.small ? this.smallForm() : this.form(this.s.depth);
    const c = t[0];
    const k = c === '(' || c === '[' || c === '{' || c === '"' ? 'delim' : /^#[({"]/.test(t) ? 'delim' : 'other';
    return { t, k };
  }
  program(size = 400) {
    const out = [];
    let total = 0;
    const push = (p) => { out.push(p); total += p.t.length; };
    if (this.s.bom) push({ t: '\ufeff', k: 'ws' });
    if (this.s.shebang) push({ t: '#!/usr/bin/env clj\n', k: 'com' });
    if (this.s.comments && this.r.chance(0.3)) push({ t: this.comment(), k: 'com' });
    if (this.s.ns) { push({ t: this.nsForm(), k: 'delim' }); push({ t: this.nl() + this.nl(), k: 'ws' }); }
    while (total < size) {
      this.budget = 60 + this.r.int(200);
      push(this.piece());
      if (this.s.comments && this.r.chance(0.08)) push({ t: (this.r.chance(0.3) ? '' : ' ') + this.comment(), k: 'com' });
      push({ t: this.r.chance(0.8) ? this.nl() + (this.r.chance(0.5) ? this.nl() : '') : this.ws(), k: 'ws' });
      if (this.s.comments && this.r.chance(0.15)) push({ t: this.comment(), k: 'com' });
    }
    if (this.r.chance(0.2)) out.pop();
    return out;
  }
}
export const textOf = (pieces) => pieces.map((p) => p.t).join('');

// A size for a program: mostly small, sometimes around and above the buffer
// sizes of the scanner and printer (4096).
export function genSize(rng) {
  return rng.weighted([[5, rng.range(5, 120)], [4, rng.range(100, 800)], [2, rng.range(800, 3000)], [1.2, rng.range(3500, 5200)], [0.5, rng.range(8000, 13000)]]);
}
