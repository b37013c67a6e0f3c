// C13 (the JavaScript half), C15 (exchanges) and C28 (access to host objects)
import { safe } from './case.mjs';
export const mon = {};
const STR = ['', 'a', 'abc', 'ąęż', '日本語', '😀', '\u{1F468}\u200D\u{1F469}', '\ufeff', '\ufeffabc', 'x\ufeffy', '\0', 'a\0b', '\n\r\t', '"', '\\', '</script>', '\u2028', '\ud7ff', '\ue000', '\uffff', '\u{10ffff}', '0', '-1', 'null', '__proto__', 'constructor', 'toString', 'length', 'type', 'value', 'é', 'e\u0301'];
const KEYS = ['a', 'b', 'c', 'type', 'value', '__proto__', 'constructor', 'toString', 'hasOwnProperty', '0', '1', '10', '-1', '', ' ', 'ą', '\ufeff', '\ufeffa', '😀', 'a.b', 'length', 'then', 'toJSON'];
const F = [0, 1, -1, 0.5, -0.5, 1e-7, 1e21, 1e300, -1e300, 5e-324, 1.7976931348623157e308, Infinity, -Infinity, NaN, 2 ** 31, -(2 ** 31), 2 ** 31 - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 53, -(2 ** 53), 2 ** 53 - 1, 1e15, 123456789012, 0.1, -2147483649];
const I64 = ['0', '1', '-1', '9223372036854775807', '-9223372036854775808', '2147483648', '-2147483649', '4294967296', '9007199254740993', '-9007199254740993'];
const U64 = ['0', '1', '255', '4294967295', '4294967296', '9007199254740993', '9223372036854775807', '9223372036854775808', '18446744073709551615'];
const bits = f => { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, f); return d.getBigUint64(0).toString(16).padStart(16, '0'); };
const fbits = s => { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, BigInt('0x' + s)); return d.getFloat64(0); };
const hex = b => [...b].map(x => x.toString(16).padStart(2, '0')).join('');
const unhex = s => Uint8Array.from({ length: s.length / 2 }, (_, i) => parseInt(s.substr(2 * i, 2), 16));
const own = (o, k, v) => Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
const str = r => { const w = r.below(10); if (w < 6) return r.pick(STR); if (w < 9) { let s = ''; for (let i = r.below(6); i >= 0; i--) s += r.pick(STR); return s; } return r.pick(['x', 'ż', '😀']).repeat(r.pick([10, 100, 1000, 5000])); };
const float = r => { const w = r.below(4); if (w < 2) return r.pick(F); if (w === 2) return r.range(-1e6, 1e6) / r.pick([1, 2, 3, 7, 10]); const v = fbits((BigInt(r.u()) << 32n | BigInt(r.u())).toString(16).padStart(16, '0')); return Number.isNaN(v) ? NaN : v; };
const keys = (r, n) => [...new Set(Array.from({ length: n }, () => r.chance(85) ? r.pick(KEYS) : str(r)))];
// a JSON tree; the wire form of the commands cannot hold numbers that are not finite: {"$f": bits}
function json(r, d) {
  const w = r.below(d > 0 ? 10 : 6);
  if (w === 0) return null;
  if (w === 1) return r.chance(50);
  if (w < 4) return float(r);
  if (w < 6) return str(r);
  if (w < 8) return Array.from({ length: r.below(5) }, () => json(r, d - 1));
  const o = {};
  for (const k of keys(r, r.below(6))) own(o, k, json(r, d - 1));
  return o;
}
const wire = j => {
  if (typeof j === 'number' && (!Number.isFinite(j) || !Number.isSafeInteger(j) || Object.is(j, -0))) return { $f: bits(j) };
  if (Array.isArray(j)) return j.map(wire);
  if (j && typeof j === 'object') { const o = {}; for (const [k, v] of Object.entries(j)) own(o, k, wire(v)); return o; }
  return j;
};
const unwire = j => {
  if (Array.isArray(j)) return j.map(unwire);
  if (j && typeof j === 'object') { const k = Object.keys(j); if (k.length === 1 && k[0] === '$f') return fbits(j.$f); const o = {}; for (const [k, v] of Object.entries(j)) own(o, k, unwire(v)); return o; }
  return j;
};
// a value as the application states it
function tagged(r, d) {
  const w = r.below(d > 0 ? 20 : 14);
  if (w === 0) return [r.pick(['true', 'false', 'null', 'undef']), null];
  if (w === 1) return ['u32', r.pick([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.u()])];
  if (w === 2) return ['i32', r.pick([0, 1, -1, 2 ** 31 - 1, -(2 ** 31), r.u() | 0])];
  if (w === 3) return ['u64', r.pick(U64)];
  if (w === 4) return ['i64', r.pick(I64)];
  if (w < 7) return ['f64', bits(float(r))];
  if (w < 10) return ['str', str(r)];
  if (w < 12) return ['vec', hex(bytes(r))];
  if (w < 14) return ['json', wire(json(r, 3))];
  if (w < 17) return ['list', Array.from({ length: r.below(6) }, () => tagged(r, d - 1))];
  return ['obj', keys(r, r.below(6)).map(k => [k, tagged(r, d - 1)])];
}
const bytes = r => Uint8Array.from({ length: r.chance(90) ? r.below(20) : r.pick([255, 256, 1000, 40000]) }, () => r.chance(30) ? r.pick([0, 255, 239, 187, 191, 128]) : r.below(256));
function meaning(t) {
  switch (t[0]) {
    case 'u32': case 'i32': return t[1];
    case 'u64': case 'i64': return BigInt(t[1]);
    case 'f64': return fbits(t[1]);
    case 'true': return true; case 'false': return false; case 'null': return null; case 'undef': return undefined;
    case 'vec': return unhex(t[1]);
    case 'str': return t[1];
    case 'list': return t[1].map(meaning);
    case 'obj': { const o = {}; for (const [k, v] of t[1]) own(o, k, meaning(v)); return o; }
    case 'json': return unwire(t[1]);
  }
  throw new Error('tag ' + t[0]);
}
// what the host has, as it may hand it over
function native(r, d) {
  const w = r.below(d > 0 ? 18 : 12);
  if (w === 0) return r.pick([true, false, null, undefined]);
  if (w < 4) return float(r);
  if (w < 5) return BigInt(r.chance(50) ? r.pick(I64) : r.pick(U64));
  if (w < 8) return str(r);
  if (w < 10) return bytes(r);
  if (w < 12) return json(r, 3);
  if (w < 15) return Array.from({ length: r.below(6) }, () => native(r, d - 1));
  const o = {};
  for (const k of keys(r, r.below(6))) own(o, k, native(r, d - 1));
  return o;
}
export function same(a, b) {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') return a !== a && b !== b;
  if (!a || !b || typeof a !== 'object' || typeof b !== 'object') return false;
  const u = x => Object.prototype.toString.call(x) === '[object Uint8Array]';
  if (u(a) || u(b)) return u(a) && u(b) && a.length === b.length && a.every((x, i) => x === b[i]);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => same(x, b[i]));
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && same(a[k], b[k]));
}
const show = v => {
  if (typeof v === 'bigint') return v + 'n';
  if (v instanceof Uint8Array) return v.length > 40 ? `bytes(${v.length})` : `bytes[${hex(v)}]`;
  if (Array.isArray(v)) return '[' + v.map(show).join(', ') + ']';
  if (v && typeof v === 'object') return '{' + Object.keys(v).map(k => JSON.stringify(k) + ': ' + show(v[k])).join(', ') + '}';
  return v === undefined ? 'undefined' : Object.is(v, -0) ? '-0' : typeof v === 'number' ? String(v) : JSON.stringify(v).replace(/[\ufeff\0-\x1f\u2028]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));
};
const count = (C, v) => {
  const k = v instanceof Uint8Array ? 'bytes' : Array.isArray(v) ? 'list' : v === null ? 'null' : typeof v;
  C.inc('value_' + k);
  if (k === 'list') v.forEach(x => count(C, x)); else if (k === 'object') Object.values(v).forEach(x => count(C, x));
};
mon.run = async C => {
  const r = C.r, P = 'C13';
  await C.boot({});
  const vp = C.B.window.vp, kept = [];
  vp.id = x => x; vp.take = (...a) => { vp.$took = a; };
  const cut = s => s.length > 500 ? s.slice(0, 250) + ' ... ' + s.slice(-200) : s;
  const ops = r.below(100) ? r.range(10, 40) : r.range(200, 600);
  for (let i = 0; i < ops && !C.dead; i++) {
    const w = r.below(12);
    if (w < 3) { // Rust to JavaScript, by assignment or as arguments
      const t = tagged(r, 4), want = meaning(t);
      count(C, want);
      C.trace(`set ${show(want)}`);
      let got;
      if (r.chance(50)) { C.cmd('jset', 'x' + i, t); got = vp['x' + i]; }
      else { const n = r.chance(85) ? r.range(1, 3) : r.pick([7, 9, 16, 17, 33, 70]); C.cmd('jcall', 'take', Array.from({ length: n }, () => t)); if (vp.$took.length !== n) C.viol(P, 'arguments', `${n} arguments became ${vp.$took.length}`); got = vp.$took[r.below(n)]; }
      C.inc('rust_to_js');
      if (!same(got, want)) C.viol(P, 'rust-to-js', cut(`the application sent ${show(want)}, the host received ${show(got)}`));
      kept.push([want, got, structured(got)]);
    } else if (w < 6) { // JavaScript to Rust
      const v = native(r, 4);
      count(C, v);
      C.trace(`get ${show(v)}`);
      vp.y = v;
      const l = C.ask('jget', 'y').find(x => x[0] === 'j');
      C.inc('js_to_rust');
      if (!l || !same(meaning(l[1]), v)) C.viol(P, 'js-to-rust', cut(`the host has ${show(v)}, the application received ${l ? show(meaning(l[1])) : 'nothing'}`));
    } else if (w < 9) { // there and back
      const t = tagged(r, 4), want = meaning(t);
      C.trace(`id ${show(want)}`);
      const l = C.ask('jcall', 'id', [t]).find(x => x[0] === 'j');
      C.inc('there_and_back');
      if (!l || !same(meaning(l[1]), want)) C.viol(P, 'round-trip', cut(`${show(want)} came back as ${l ? show(meaning(l[1])) : 'nothing'}`));
    } else if (w < 10) access(C);
    else if (w < 11) await callbacks(C);
    else { // grow the guest's memory between exchanges
      const n = r.pick([1000, 70000, 300000]);
      vp.y = 'g'.repeat(n);
      const l = C.ask('jget', 'y').find(x => x[0] === 'j');
      if (!l || l[1][1].length !== n) C.viol(P, 'js-to-rust', `a string of ${n} arrived as ${l && l[1][1].length}`);
    }
  }
  // what the host was given must still be what it was
  if (!C.dead) C.cmd('jbulk', 20, ['vec', 'ab'.repeat(r.pick([1, 16, 300]))]);
  for (const [want, got] of kept) { C.inc('kept_values_rechecked'); if (!same(want, got) && !C.viols.some(v => /rust-to-js/.test(v.sig))) C.viol(P, 'altered-later', cut(`the host was given ${show(want)}; later it reads ${show(got)}`)); }
  if (C.k % 4 === 0 && !C.dead && !C.viols.length) memory(C);
  C.nontrivial = (C.counters.there_and_back || 0) + (C.counters.js_to_rust || 0) > 3;
  C.mix(C.lines.join());
};
const structured = x => { try { return structuredClone(x); } catch { return undefined; } };
// C15: the same exchanges again and again do not grow the guest's memory, and every block is accounted for
function memory(C) {
  const r = C.r, t = ['list', Array.from({ length: 4 }, () => tagged(r, 3))], seen = [];
  for (let i = 0; i < 24; i++) {
    for (let k = 0; k < 3; k++) C.cmd('jcall', 'id', [t]);
    C.log.length = 0;
    seen.push(C.ask('live')[0][1]);
    C.inc('memory_rounds');
  }
  if (Math.min(...seen.slice(18)) > Math.max(...seen.slice(3, 12))) C.viol('C15', 'exchange-leak', `guest memory grows with every exchange: ${seen}`);
  const o = C.B.outstanding();
  if (o.host + o.guest > 0) C.viol('C15', 'outstanding', `after everything ended ${o.host} blocks given to the guest and ${o.guest} results of the guest are still outstanding`);
}
// values handed to a callback: a websocket message, an input event's text
async function callbacks(C) {
  const r = C.r, s = str(r);
  const id = 700 + r.below(1e6);
  let sock = null;
  C.B.onSocket = k => { sock = k; };
  C.cmd('ws', id, 'ws://vp.test/' + id);
  if (!sock) return;
  sock.$open(); await C.settle();
  C.cmd('wssend', id, s);
  C.inc('callback_values');
  if (sock.sent.at(-1) !== s) C.viol('C13', 'sent-text', `sent ${show(s)}, the peer received ${show(sock.sent.at(-1))}`);
  const n = C.log.length;
  if (s !== 'drop') sock.$msg(s);
  await C.settle();
  const l = C.log.slice(n).find(x => x.j[0] === 'ws' && x.j[1] === id && x.j[2] === 'msg');
  if (s !== 'drop' && (!l || l.j[3] !== s)) C.viol('C13', 'callback-text', `the host handed ${show(s)} to a callback, it received ${l ? show(l.j[3]) : 'nothing'}`);
  C.cmd('wsdrop', id);
  await C.adv(10);
}
// C28: a path of accesses does exactly what it says
function access(C) {
  const r = C.r, vp = C.B.window.vp, P = 'C28';
  const calls = [];
  const obj = depth => {
    const o = {};
    for (const k of ['p', 'q', 'r', 'type']) if (r.chance(70)) own(o, k, depth && r.chance(50) ? obj(depth - 1) : native(r, 1));
    o.f = function (...a) { calls.push([this === o, a]); return o.ret; };
    o.bad = () => { throw new Error('thrown by the host'); };
    o.ret = native(r, 2);
    return o;
  };
  const root = obj(2);
  let path, base, what;
  if (r.chance(25)) {
    const el = r.below(50);
    C.cmd('tx', [['elnew', el]]);
    path = [['element', el]]; base = C.B;
    // the node of the element is known to the driver once it was created
    const name = 'id';
    C.okError = () => true;
    const l = C.ask('jpath', [...path, ['get', name]]).find(x => x[0] === 'j');
    C.check(); C.okError = null;
    C.inc('element_accesses');
    if (!l || meaning(l[1]) !== 'el' + el) C.viol(P, 'element', `reading the id of an element of the application gave ${l ? show(meaning(l[1])) : 'nothing'}, expected "el${el}"`);
    C.cmd('eldrop', el);
    return;
  }
  own(vp, 'root', root);
  path = [['root', 'window'], ['get', 'vp'], ['get', 'root']];
  let cur = root, err = false;
  const sets = [], want = [];
  for (let d = r.below(3); d > 0; d--) {
    const ks = Object.keys(cur).filter(k => cur[k] && typeof cur[k] === 'object' && !Array.isArray(cur[k]) && cur[k].f);
    if (!ks.length) break;
    const k = r.pick(ks); path.push(['get', k]); cur = cur[k];
  }
  const end = r.below(6);
  let value, failing = false;
  if (end < 1) { const ks = Object.keys(cur).filter(k => typeof cur[k] !== 'function' && !(cur[k] && cur[k].f)); const k = r.chance(80) && ks.length ? r.pick(ks) : 'absent'; path.push(['get', k]); value = cur[k]; }
  else if (end < 2) { const t = tagged(r, 2); path.push(['set', 'nu', t]); value = undefined; sets.push([cur, 'nu', meaning(t)]); }
  else if (end < 4) { const a = Array.from({ length: r.chance(85) ? r.below(4) : r.pick([8, 9, 17, 40]) }, () => tagged(r, 2)); path.push(['call', 'f', a]); value = cur.ret; want.push(a.map(meaning)); }
  else if (end < 5) { const ks = keys2(r, Object.keys(cur).filter(k => typeof cur[k] !== 'function' && !(cur[k] && cur[k].f))); if (r.chance(20)) ks.push('absent'); path.push(['props', ks]); value = {}; for (const k of ks) own(value, k, cur[k]); }
  else { failing = true; value = undefined; path.push(...r.pick([[['call', 'bad', []]], [['call', 'absent', []]], [['get', 'absent'], ['get', 'x']], [['get', 'absent'], ['call', 'x', []]], [['get', 'absent'], ['set', 'x', ['u32', 1]]]])); }
  C.trace('path ' + JSON.stringify(path.slice(3)));
  let errors = 0;
  C.okError = () => { errors++; return true; };
  const l = C.ask('jpath', path).find(x => x[0] === 'j');
  C.check(); C.okError = null;
  C.inc('access_paths'); C.inc(failing ? 'access_failing' : 'access_' + path.at(-1)[0]);
  const got = l ? meaning(l[1]) : 'nothing';
  if (!same(got, value)) C.viol(P, failing ? 'failing-access' : 'access-' + path.at(-1)[0], `path ${JSON.stringify(path.slice(2))} gave ${show(got).slice(0, 300)}, expected ${show(value).slice(0, 300)}`);
  if (!failing && errors) C.viol(P, 'access-error', `path ${JSON.stringify(path.slice(2))} reported an error`);
  if (failing && !errors) C.viol(P, 'silent-failure', `path ${JSON.stringify(path.slice(2))} failed without a report`);
  if (calls.length !== want.length) C.viol(P, 'call-count', `path ${JSON.stringify(path.slice(2))} called the function ${calls.length} times`);
  calls.forEach(([self, a], i) => { if (!self) C.viol(P, 'receiver', 'the function was called without its object'); if (want[i] && !same(a, want[i])) C.viol(P, 'call-arguments', `called with ${show(a)}, expected ${show(want[i])}`); });
  for (const [o, k, v] of sets) if (!same(o[k], v)) C.viol(P, 'set', `set ${show(v)}, the object has ${show(o[k])}`);
}
export { tagged, meaning, native, str, float, show, bits, fbits, wire };
const keys2 = (r, l) => l.filter(() => r.chance(60));
