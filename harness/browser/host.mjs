// C32: the application is told what its host is, and what it says arrives there
import { same, meaning, native, str, float, show, bits, fbits } from './values.mjs';
export const mon = {};
const NAMES = ['api', 'api_url', 'a-b', 'x1', 'key', 'absent', 'n.m', 'Upper', 'mIxEd', 'a-name-of-an-application-setting-longer-than-most-'.repeat(2) + 'x'];
const LEVEL = { trace: null, debug: 'log', info: 'info', warn: 'warn', error: 'error' };
const EDGE = [0, 1 - 2 ** -53, 0.5, 2 ** -53, 1e-300, 0.999999999];
mon.run = async C => {
  const r = C.r, P = 'C32';
  const tz = r.pick([0, -60, 60, 480, -330, -345, 570, -720, 660, -840, 210, 1, -1]);
  const env = new Map();
  for (let n = r.below(5); n > 0; n--) env.set(r.pick(NAMES).toLowerCase(), str(r));
  let draw = null;
  await C.boot({ tz, start: r.pick([1_700_000_000_000, 951_782_399_000, 4_102_444_800_123, 86_400_000, 2 ** 31, 2 ** 32 + 5, 2_147_483_647_999]) + r.below(100000),
    random: () => draw === null ? (r.u() * 2 ** 21 + (r.u() >>> 11)) / 2 ** 53 : draw,
    page: B => { for (const [k, v] of env) B.document.documentElement.setAttribute('data-env-' + k, v); B.document.documentElement.setAttribute('lang', 'en'); } });
  const B = C.B, said = [];
  B.onConsole = (k, a) => said.push([k, a]);
  C.okError = (t, e) => String(e[0]).startsWith('%c');
  const one = (...a) => C.ask(...a)[0];
  const insts = new Map();
  const ops = r.range(15, 50);
  for (let i = 0; i < ops && !C.dead; i++) {
    const w = r.below(12);
    if (w < 2) { // random numbers
      const [a, b] = r.pick([[0, 1], [0, 0], [5, 5], [1, 6], [0, 255], [10, 12], [0, 2 ** 31 - 1], [2 ** 31 - 2, 2 ** 31 - 1], [0, 2 ** 32 - 1], [2 ** 31, 2 ** 31 + 3], [2 ** 32 - 2, 2 ** 32 - 1], [r.below(100), 100 + r.below(1000)]]);
      const small = b - a < 7, seen = new Set();
      for (let k = small ? 3 + 12 * (b - a) : 3; k > 0 && !C.dead; k--) {
        draw = r.chance(small ? 20 : 60) ? r.pick(EDGE) : small && r.chance(60) ? (r.below(b - a + 1) + 0.5) / (b - a + 1) : null;
        const l = one('rnd', a, b), v = l?.[1];
        C.inc('random_numbers');
        if (!Number.isInteger(v) || v < a || v > b) { C.viol(P, 'random-range', `a random number from ${a} to ${b} came out as ${v} (the host drew ${draw})`); break; }
        seen.add(v);
      }
      // the middle of every part, and both ends, must lead somewhere else
      if (small && !C.dead) { const all = new Set(); for (let k = a; k <= b; k++) { draw = (k - a + 0.5) / (b - a + 1); all.add(one('rnd', a, b)?.[1]); } if (all.size !== b - a + 1) C.viol(P, 'random-reach', `random numbers from ${a} to ${b}: only ${[...all]} come out`); C.inc('random_reach_checked'); }
      draw = null;
      C.trace(`random ${a}..${b}: ${[...seen].slice(0, 5)}`);
    } else if (w < 4) { // a random element
      const n = r.pick([0, 1, 2, 3, 7, 40]);
      const list = Array.from({ length: n }, (_, k) => r.chance(50) ? 'e' + k : k * 7);
      const hit = new Set();
      for (let k = 0; k < Math.max(1, n) && !C.dead; k++) {
        draw = n ? (k + 0.5) / n : r.pick(EDGE);
        const v = one('rndfrom', list)?.[1];
        if (n === 0 ? v !== null : !Array.isArray(v) || !list.includes(v[0])) { C.viol(P, 'random-element', `a random element of ${JSON.stringify(list)} was ${JSON.stringify(v)}`); break; }
        if (n) hit.add(v[0]);
      }
      draw = null;
      C.inc('random_elements');
      if (n && hit.size !== n && !C.dead) C.viol(P, 'random-element-reach', `random elements of ${JSON.stringify(list)}: only ${JSON.stringify([...hit])} come out`);
    } else if (w < 5) { // the host's own facts
      const b = one('isb')?.[1], s = one('isval')?.[1], t = one('tz')?.[1], n = one('now')?.[1];
      C.inc('facts', 4);
      if (b !== true || s !== false) C.viol(P, 'browser', `in the browser: is_browser ${b}, is_server ${s}`);
      if (t !== -60 * tz && !(t === 0 && tz === 0)) C.viol(P, 'timezone', `the host's offset is ${tz} minutes, the application reads ${t} seconds`);
      if (n !== B.clock.now) C.viol(P, 'now', `the host's clock is ${B.clock.now}, the application reads ${n}`);
    } else if (w < 6) { // variables
      const k = r.chance(60) && env.size ? r.pick([...env.keys()]) : r.pick(NAMES);
      const v = one('env', r.chance(80) ? k : k.toUpperCase())?.[2];
      const want = env.get(k.toLowerCase()) ?? null;
      C.inc('variables');
      if (v !== want) C.viol(P, 'env', `the variable ${k} is ${show(want)}, the application reads ${show(v)}`);
    } else if (w < 8) { // moments
      const id = r.below(6), from = insts.size && r.chance(80) ? r.pick([...insts.keys()]) : null;
      const kind = from === null ? 'now' : r.pick(['now', 'refresh', 'add', 'copy', 'elapsed', 'elapsed', 'look', 'look']);
      const ms = r.pick([0, 1, 999, 1000, 60000, 3600000, 86400000, 4294967296, 31536000000]);
      const at = kind === 'elapsed' || kind === 'look' ? from : id;
      const val = kind === 'now' || kind === 'refresh' ? B.clock.now : kind === 'add' ? insts.get(from) + ms : kind === 'copy' ? insts.get(from) : insts.get(at);
      insts.set(at, val);
      const l = C.ask('inst', at, kind, from ?? 0, ms);
      C.trace(`inst ${at} ${kind} ${from} ${ms}`);
      const x = l.find(y => y[0] === 'inst');
      C.inc('moments');
      const want = [val, B.clock.now > val, [...insts.keys()].sort((p, q) => p - q).map(k => insts.get(k) === val)];
      if (!x || JSON.stringify(x.slice(1)) !== JSON.stringify(want)) C.viol(P, 'moment', `${kind}: moment, expired, equal to the others: ${JSON.stringify(x?.slice(1))}, expected ${JSON.stringify(want)} at ${B.clock.now}`);
      if (kind === 'elapsed' && !C.dead) {
        const e = l.find(y => y[0] === 'elapsed'), d = Math.max(0, B.clock.now - val);
        C.inc('elapsed_read');
        if (!e || e[1] !== d || e[2] !== Math.floor(d / 1000)) C.viol(P, 'elapsed', `${d} ms after a moment the application reads ${e?.slice(1)}`);
      }
      if (r.chance(50)) { if (r.chance(15)) { B.clock.now = Math.max(0, B.clock.now - r.pick([1, 500, 5000, 86400000])); C.inc('clock_set_back'); } else await C.adv(r.pick([0, 1, 999, 1000, 5000])); }
    } else if (w < 10) { // messages
      said.length = 0;
      const lv = r.pick(Object.keys(LEVEL)), t = r.chance(70) ? str(r) : r.pick(['%c', '%s %d', '%%', '100%', '{}', '{0}', '\n\n', 'a%cb']);
      if (r.chance(80)) {
        C.cmd('log', lv, t);
        C.trace(`log ${lv} ${show(t).slice(0, 60)}`);
        C.inc('messages');
        const k = LEVEL[lv];
        if (said.length !== (k ? 1 : 0)) { C.viol(P, 'message-count', `a message of level ${lv} appeared ${said.length} times`); continue; }
        if (!k) continue;
        message(C, said[0], k, lv, t);
      } else {
        C.cmd('login', t);
        C.inc('messages_inside');
        const want = [['info', 'info'], ['warn', 'warn'], ['log', 'debug'], ['info', 'info'], ['warn', 'warn'], ['info', 'info']];
        if (said.map(x => x[0]).join() !== want.map(x => x[0]).join()) { C.viol(P, 'message-order', `messages of an evaluation, a subscriber, a transaction and a destructor appeared as ${said.map(x => x[0])}`); continue; }
        said.forEach((x, k) => message(C, x, want[k][0], want[k][1], t));
      }
    } else { // access by the macros
      const k = r.below(9), n = r.pick([0, 1, -1, 127, 128, 255, 256, 65535, 65536, -32769, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 7, -(2 ** 40)]), s = str(r), b = r.chance(50), f = float(r);
      const root = k < 5 ? B.window : B.document, ret = native(r, 2);
      let calls = [];
      root.vpget = native(r, 2);
      root.vpf = function (...a) { calls.push([this === root, a]); return ret; };
      const l = C.ask('win', k, n, s, b, bits(f)).find(x => x[0] === 'j');
      C.inc('macro_accesses');
      const cut = (bits_, signed) => { const x = signed ? BigInt.asIntN(bits_, BigInt(n)) : BigInt.asUintN(bits_, BigInt(n)); return bits_ === 64 ? x : Number(x); };
      const usize = signed => { const x = signed ? BigInt.asIntN(32, BigInt(n)) : BigInt.asUintN(32, BigInt(n)); return x; };
      const o = () => { const o = {}; Object.defineProperty(o, s, { value: cut(32, true), enumerable: true, configurable: true, writable: true }); o.k = b; return o; };
      const args = { 1: [], 2: [cut(8, true), cut(16, true), cut(32, true), cut(64, true), usize(true)], 3: [cut(8), cut(16), cut(32), cut(64), usize(false)], 4: [f, s, s, b], 6: [s, b], 7: [o(), o()], 8: [{ a: s, b: cut(64, true) }] }[k];
      const want = args ? ret : root.vpget;
      const got = l ? meaning(l[1]) : 'nothing';
      if (!same(got, want)) C.viol(P, 'macro-result', `access ${k} gave ${show(got).slice(0, 300)}, expected ${show(want).slice(0, 300)}`);
      if (args) { if (calls.length !== 1) C.viol(P, 'macro-calls', `access ${k} called the function ${calls.length} times`); else if (!calls[0][0] || !same(calls[0][1], args)) C.viol(P, 'macro-arguments', `access ${k} with ${n}, ${show(s)}: called with ${show(calls[0][1]).slice(0, 400)}, expected ${show(args).slice(0, 400)}`); }
      else if (calls.length) C.viol(P, 'macro-calls', `reading a member called a function`);
    }
  }
  if (!C.dead && !C.viols.length && r.chance(40)) { // the last words
    const t = 'last words ' + str(r).replace(/^\ufeff/, '');
    const heard = [];
    C.okPanic = p => { heard.push(p); return true; };
    C.okUncaught = e => e instanceof WebAssembly.RuntimeError;
    C.okError = t => /PANIC/.test(t);
    C.cmd('boom', t);
    C.inc('last_words');
    if (heard.length !== 1 || !heard[0].includes(t) || !/panicked/.test(heard[0])) C.viol(P, 'last-words', `a panic with ${show(t)} was reported as ${show(heard)}`);
  }
  C.nontrivial = (C.counters.messages || 0) + (C.counters.moments || 0) > 4;
  C.mix(C.lines.join());
};
function message(C, [kind, a], want, lv, t) {
  const P = 'C32';
  if (kind !== want) C.viol(P, 'message-level', `a message of level ${lv} went to console.${kind}`);
  const text = String(a[0]);
  const head = text.slice(0, text.length - t.length);
  if (!text.endsWith(t) || !head.includes(lv.toUpperCase())) C.viol(P, 'message-text', `the message ${show(t)} of level ${lv} appeared as ${show(text).slice(0, 300)}`);
  if (head.split('%c').length !== a.length || a.slice(1).some(x => typeof x !== 'string' || !x)) C.viol(P, 'message-styles', `the message ${show(text).slice(0, 200)} came with the styles ${show(a.slice(1))}`);
}
