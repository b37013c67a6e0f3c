// C32 on the server: what a page reads about its host, and what it says there.
import { request } from './server.mjs';
import { parse } from './html.mjs';
import { targetOf } from './pages.mjs';
import { hash, cut } from './common.mjs';
const VALUES = ['', 'x', 'a=b=c', 'http://h/?a=1&b="2"', `<'">&amp; ż😀`, ' lead', '=', 'a,b', '--env', '{"j":1}', '%41', '\\n', 'long '.repeat(900) + '.'];
const NAMES = ['api', 'api_url', 'a-b', 'x1', 'n.m', 'Upper', 'key', 'a-name-of-an-application-setting-longer-than-most-'.repeat(2) + 'x'];
const outs = new Map(), expected = [], hist = new Map();
const text = n => n.text !== undefined ? n.text : n.kids.map(text).join('');
const all = (n, tag, out = []) => { if (n.tag === tag) out.push(n); (n.kids || []).forEach(k => all(k, tag, out)); return out };
export const mon = {
  prop: 'C32',
  async setup(env) {
    const R = n => { let s = env.o.seed * 7919 + n; return k => (s = (Math.imul(s, 1103515245) + 12345) >>> 0, (s >>> 8) % k) };
    await Promise.all([0, 1, 2].map(async n => {
      const r = R(n), e = [];
      for (let k = n * 3; k > 0; k--) e.push([NAMES[r(NAMES.length)], VALUES[r(VALUES.length)]]);
      const S = await env.server({ env: e });
      const o = { t: '' }; outs.set(S, o);
      S.onOutput = t => { o.t += t };
    }));
  },
  async run(C, env) {
    const r = C.r, S = r.pick(env.servers), P = 'C32';
    const body = [], asks = [], says = [];
    const say = (where, k) => {
      const lv = r.pick(['trace', 'debug', 'info', 'warn', 'error']), id = `m${C.k}x${says.length}y`;
      const t = id + r.pick(['', ' ż😀', ' "q" {}', ' %c %s', ' \t<b>', ' ' + 'z'.repeat(r.pick([10, 3000])), '\nsecond line', '\n\n  third ' + id]) + ' .';
      says.push({ S, lv, t, k });
      return ['say', lv, t];
    };
    for (let n = r.range(1, 4); n > 0; n--) {
      const [a, b] = r.pick([[0, 1], [0, 3], [5, 5], [0, 2 ** 31 - 1], [10, 12], [1, 6], [0, 2 ** 32 - 1], [2 ** 31, 2 ** 31 + 2], [2 ** 32 - 1, 2 ** 32 - 1]]);
      body.push(['e', 'p', [], [['facts', a, b, 8]]]); asks.push(['facts', a, b]);
      if (r.chance(60)) body.push(say());
    }
    for (let n = r.below(3); n > 0; n--) { const k = S.env.length && r.chance(60) ? r.pick(S.env)[0] : r.pick([...NAMES, 'absent', 'toString']); body.push(['e', 'p', [], [['env', k]]]); asks.push(['env', k]) }
    const late = [];
    for (let n = r.below(3); n > 0; n--) late.push([0, say('late')]);
    const spec = [[], [], [[], body], [], late, null], target = targetOf(spec, r, true);
    C.line('GET ' + target.replace(/d=[0-9a-f]+/, 'd=…') + ' spec ' + JSON.stringify(spec).slice(0, 1500));
    const t0 = Date.now(), res = await request(S.port, target), t1 = Date.now();
    if (res.error || res.status !== 200) { C.viol(P, 'no-answer', `${res.error || res.status}: ${cut(res.body || '')}`); return }
    let ps, attrs;
    try { const root = parse(res.body.toString()).root; ps = all(root, 'p').map(text); attrs = all(root, 'html')[0].attrs } catch (e) { C.viol(P, 'document', String(e)); return }
    // the browser is told the same variables
    const vars = new Map(S.env.map(([k, v]) => ['data-env-' + k.toLowerCase(), v]));
    for (const [k, v] of vars) { C.inc('variables_passed_on'); if (attrs.get(k) !== v) C.viol(P, 'env-page', `${k} is ${JSON.stringify(v)}, the page carries ${JSON.stringify(attrs.get(k) ?? null)}`) }
    for (const [k, v] of attrs) if (k.startsWith('data-env-') && !vars.has(k)) C.viol(P, 'env-page', `the page carries ${k} = ${JSON.stringify(v)}, which was never given`);
    if (ps.length !== asks.length) { C.viol(P, 'document', `${ps.length} parts instead of ${asks.length}`); return }
    asks.forEach((q, i) => {
      if (q[0] === 'env') {
        const e = S.env.filter(e => e[0] === q[1]), want = e.length ? e.at(-1)[1] : 'none';
        C.inc('variables');
        if (ps[i].trim() !== want.trim()) C.viol(P, 'env', `the variable ${q[1]} is ${JSON.stringify(want)}, the application reads ${JSON.stringify(ps[i])}`);
        return;
      }
      let f; try { f = JSON.parse(ps[i]) } catch { C.viol(P, 'document', 'facts: ' + cut(ps[i])); return }
      const [l, pick, [now, start, elapsed, expired, tz, isb, iss, none]] = f, [, a, b] = q;
      C.inc('facts'); C.inc('random_numbers', l.length);
      for (const v of l) if (!Number.isInteger(v) || v < a || v > b) { C.viol(P, 'random-range', `a random number from ${a} to ${b} came out as ${v}`); break }
      for (const v of pick) if (![3, 5, 8].includes(v)) { C.viol(P, 'random-element', `a random element of 3, 5, 8 was ${v}`); break }
      if (b - a > 2 ** 30 && new Set(l).size < 4) C.viol(P, 'random-constant', `random numbers from ${a} to ${b}: ${l}`);
      if (b - a < 7) { const k = `${a}..${b}`, h = hist.get(k) || new Map(); hist.set(k, h); for (const v of l) h.set(v, (h.get(v) || 0) + 1) }
      const h = hist.get('of') || new Map(); hist.set('of', h); for (const v of pick) h.set(v, (h.get(v) || 0) + 1);
      if (!(now >= t0 - 2 && now <= t1 + 2)) C.viol(P, 'now', `asked between ${t0} and ${t1}, the application read ${now}`);
      if (!(start <= now && elapsed >= 0 && start >= t0 - 2 && elapsed <= t1 - t0 + 4)) C.viol(P, 'moment', `between ${t0} and ${t1} a moment was ${start}, ${elapsed} ms passed, then it was ${now}`);
      if (expired) C.viol(P, 'moment', 'a moment 100 s away is expired');
      if (tz !== 0) C.viol(P, 'timezone', `the offset on the server is ${tz}`);
      if (isb !== false || iss !== true) C.viol(P, 'browser', `on the server: is_browser ${isb}, is_server ${iss}`);
      if (none !== true) C.viol(P, 'random-element', 'a random element of nothing');
    });
    for (const s of says) expected.push({ ...s, case: C.k });
    C.nontrivial = true; C.h = hash(target);
  },
  async end(C, env) {
    const P = 'C32';
    await new Promise(r => setTimeout(r, 500));
    for (const [S, o] of outs) {
      // one record per line: [time LEVEL target] text
      const lines = o.t.split('\n');
      const mine = expected.filter(x => x.S === S), byId = new Map();
      for (const l of lines) for (const m of l.matchAll(/m\d+x\d+y/g)) { const k = byId.get(m[0]) || []; byId.set(m[0], k); k.push(l) }
      for (const x of mine) {
        const id = /^m\d+x\d+y/.exec(x.t)[0], l = byId.get(id) || [];
        C.inc('messages');
        const n = x.lv === 'trace' ? 0 : 1;
        // a text of several lines begins the record and goes on in the lines after it
        if (x.t.includes('\n')) { C.inc('messages_of_lines'); const times = o.t.split(x.t.replace(/\n/g, '\n    ')).length - 1; if (times !== n) { C.viol(P, 'message-text', `case ${x.case}: the message ${JSON.stringify(x.t)} of level ${x.lv} appeared ${times} times: ${cut(l.join(' | '))}`); continue } if (n) l.length = 1 }
        if (l.length !== n) { C.viol(P, 'message-count', `case ${x.case}: a message of level ${x.lv} appeared ${l.length} times in the server's output: ${cut(l.join(' | '))}`); continue }
        if (!n) continue;
        if (!l[0].includes(x.t.split('\n')[0])) C.viol(P, 'message-text', `case ${x.case}: the message ${JSON.stringify(x.t)} appeared as ${cut(l[0])}`);
        const bad = x.lv === 'error' ? / INFO | DEBUG /.test(l[0].slice(0, 60)) : / ERROR /.test(l[0].slice(0, 60));
        if (bad || !l[0].includes(x.lv.toUpperCase())) C.viol(P, 'message-level', `case ${x.case}: a message of level ${x.lv} appeared as ${cut(l[0])}`);
      }
    }
    for (const [k, h] of hist) {
      const n = [...h.values()].reduce((x, y) => x + y, 0), want = k === 'of' ? 3 : (([a, b]) => b - a + 1)(k.split('..').map(Number));
      if (n < 60 * want) continue;
      C.inc('random_reach_checked');
      if (h.size !== want) C.viol(P, 'random-reach', `${n} random numbers of ${k}: only ${[...h.keys()]}`);
    }
  },
};
