// C17: requests as built, answers delivered once
import { eq, safe } from './case.mjs';
export const mon = {};
const METHODS = ['GET', 'GET', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS'];
const WORDS = ['', 'a', 'abc', 'ż', '日本', '😀', 'a b', '"', '\\', '<', '&', '%', '%41', '+', '=', '{}', '[1]', 'null', '\0', '\n', 'line1\r\nline2', '\u2028', '__proto__', 'x'.repeat(300)];
const enc = t => new TextEncoder().encode(t);
const hex = b => [...b].map(x => x.toString(16).padStart(2, '0')).join('');
const own = (o, k, v) => Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
const text = r => { let s = r.pick(WORDS); while (r.chance(40)) s += r.pick(WORDS); if (big && r.below(40) === 0) s = (s || 'b').repeat(Math.ceil(r.range(1000, 200000) / (s.length || 1))); return s; };
let big = false; // cases with large bodies
function json(r, d) {
  const w = r.below(d > 0 ? 9 : 6);
  if (w === 0) return null;
  if (w === 1) return r.chance(50);
  if (w < 4) return r.pick([0, 1, -1, 0.5, 1e21, -2.5e-7, 2147483648, 123456789, 9007199254740991]);
  if (w < 6) return text(r);
  if (w < 7) return Array.from({ length: r.below(4) }, () => json(r, d - 1));
  const o = {};
  for (let i = r.below(4); i > 0; i--) own(o, text(r), json(r, d - 1));
  return o;
}
const rec = r => ({ id: r.pick([0, 1, 77, 4294967295]), name: text(r), tag: r.chance(50) ? text(r) : null });
const badrec = r => r.pick([{ id: -1, name: 'a', tag: null }, { id: 1.5, name: 'a', tag: null }, { id: 4294967296, name: 'a', tag: null }, { id: '1', name: 'a', tag: null }, { id: 1, tag: null }, { name: 'x', tag: 'y' }, { id: 1, name: 5, tag: null }, { id: 1, name: 'a', tag: 5 }, [], null, 5, 'rec', true, [{ id: 1, name: 'a', tag: null }]]);
const isRec = v => v && typeof v === 'object' && !Array.isArray(v) && Number.isInteger(v.id) && v.id >= 0 && v.id < 2 ** 32 && typeof v.name === 'string' && (v.tag === null || typeof v.tag === 'string');
const recOut = v => [v.id, v.name, v.tag];
const sortj = j => { if (Array.isArray(j)) return j.map(sortj); if (j && typeof j === 'object') { const o = {}; for (const k of Object.keys(j)) own(o, k, sortj(j[k])); return o; } return j; };

mon.run = async C => {
  const r = C.r, P = 'C17', V = (s, m) => C.viol(P, s, m);
  await C.boot({ url: r.pick(['http://site.test/', 'http://site.test/deep/er/page?x=1#h']) });
  const B = C.B;
  C.okError = t => /^(Error fetching|fetch error|No match found|Missing value)/.test(t) || /Error fetching/.test(t);
  const plans = new Map(); // id -> {...}
  let next = 1;
  const arrived = new Map();
  B.onRequest = rq => {
    const m = /r(\d+)(?:\D|$)/.exec(new URL(rq.url).pathname);
    const id = m ? Number(m[1]) : -1;
    const p = plans.get(id);
    if (!p) { V('unknown-request', `a request nobody made: ${rq.method} ${rq.url}`); return; }
    p.got.push(rq);
    const a = p.answer;
    if (a.never) return;
    const at = B.clock.now + a.delay;
    p.due = a.fail ? at : at + (a.r.bodyDelay || 0);
    const go = () => a.fail ? rq.fail(a.fail) : rq.answer(a.r);
    a.delay ? B.clock.at(at, go) : go();
    C.inc('requests_answered');
  };
  const mkAnswer = conv => {
    const a = { delay: r.pick([0, 0, 1, 5, 5, 20, 300, 7000]) };
    const w = r.below(20);
    if (w === 0) a.never = true;
    else if (w < 3) a.fail = r.pick(['offline', 'dns', '']);
    else {
      const status = r.pick([200, 200, 200, 200, 201, 204, 301, 400, 404, 418, 499, 500, 503]);
      const q = r.below(10);
      let val, ct, body;
      if (q < 6) {
        val = conv === 'raw' ? json(r, 3) : r.chance(25) ? badrec(r) : conv === 'i32' ? r.pick([0, 1, -1, 2147483647, -2147483648, 2147483648, 1.5, '3', null]) : conv === 'vec' ? r.pick([[], ['a'], [text(r), text(r)], ['a', 1], { 0: 'a' }]) : conv === 'recs' ? Array.from({ length: r.below(4) }, () => r.chance(90) ? rec(r) : badrec(r)) : rec(r);
        ct = r.pick(['application/json', 'application/json; charset=utf-8', 'Application/JSON', 'application/json ;x=y']);
        body = enc(JSON.stringify(val));
        if (r.chance(8)) { body = enc(r.pick(['', '{', 'nul', '[1,]', '<html>'])); a.broken = true; }
      } else if (q < 8) { ct = r.pick(['text/plain', 'text/plain; charset=utf-8', 'TEXT/PLAIN']); val = text(r); body = enc(val); }
      else { ct = r.pick([null, 'image/png', 'text/html', 'application/octet-stream', 'application/jsonx']); body = Uint8Array.from({ length: big && r.chance(20) ? r.range(1000, 200000) : r.below(30) }, () => r.below(256)); val = body; }
      a.kind = q < 6 ? 'json' : q < 8 ? 'text' : 'bin'; a.val = val;
      a.r = { status, headers: ct ? { 'content-type': ct, 'x-other': '1' } : {}, bytes: body, bodyDelay: r.chance(30) ? r.pick([1, 10, 200]) : 0, bodyFail: r.chance(4) };
    }
    return a;
  };
  big = r.below(20) === 0;
  const many = r.below(40) === 0, ops = many ? r.range(60, 150) : r.range(1, 12);
  if (big) C.inc('cases_of_large_bodies'); if (many) C.inc('cases_of_many_requests');
  for (let i = 0; i < ops && !C.dead; i++) {
    const id = next++;
    const method = r.pick(METHODS);
    const tail = r.pick(['', '', '/x', '?a=1&b=2', '?q=ż ó', '/a b', '?e=%20%41', '#frag', '/日本', '?u=' + text(r).slice(0, 3000).replace(/[\0\n\r#]/g, '')]);
    const url = r.pick(['/r', 'http://api.test/r', 'https://api.test:8443/r', '//cdn.test/r', 'r', '/deep/../r']) + id + tail;
    const headers = [], names = new Set();
    let badHeader = false;
    for (let k = r.below(4); k > 0; k--) {
      const w = r.below(20);
      let n = r.pick(['x-a', 'X-B', 'accept', 'Content-Type', 'x-long-name-1', '@bearer']), v = r.pick(['1', '', 'a b', 'text/plain', 'application/json', 'x,y', '=?', 'é', '  padded ']);
      if (w === 0) n = r.pick(['bad name', '', 'x:y', 'żó']);
      if (w === 1) v = r.pick(['a\nb', 'ż', '\0']);
      if (names.has(n.toLowerCase() === '@bearer' ? 'authorization' : n.toLowerCase()) && !headers.some(h => h[0] === n)) continue;
      names.add(n === '@bearer' ? 'authorization' : n.toLowerCase());
      headers.push([n, v]);
    }
    // all of them given at once replace those given before
    let given = headers;
    if (r.chance(12)) {
      const at = r.below(headers.length + 1), all = [];
      for (let k = r.below(3); k > 0; k--) {
        const n = r.pick(['x-all', 'x-a', 'accept-language', 'X-B']);
        if ([...headers, ...all].every(h => h[0] === n || h[0].toLowerCase() !== n.toLowerCase()) && !all.some(h => h[0] === n)) all.push([n, r.pick(['all', '', '2'])]);
      }
      given = [...all, ...headers.slice(at)];
      headers.splice(at, 0, ['@all', all]);
      C.inc('requests_with_all_headers_given_at_once');
    }
    const bk = r.below(8), kind = bk < 3 ? 'none' : bk < 5 ? 'text' : bk < 7 ? 'json' : 'bin';
    let body = null, bytes = null, ctype = null;
    if (kind === 'text') { body = text(r); bytes = enc(body); ctype = 'text/plain; charset=utf-8'; }
    if (kind === 'json') { do body = json(r, 3); while (typeof body === 'string' && C.k % 60); bytes = enc(JSON.stringify(body)); ctype = 'application/json; charset=utf-8'; }
    if (kind === 'bin') { bytes = Uint8Array.from({ length: big && r.chance(20) ? r.range(1000, 100000) : r.below(40) }, () => r.below(256)); body = hex(bytes); ctype = 'application/octet-stream'; }
    // what a browser makes of it
    const want = new Headers();
    for (const [n, v] of new Map(given.map(([n, v]) => n === '@bearer' ? ['Authorization', 'Bearer ' + v] : [n, v]))) { try { want.set(n, v); } catch { badHeader = true; } }
    let href = null;
    try { href = new URL(url, B.location.href).href; } catch { /* rejected */ }
    const hasBody = kind !== 'none';
    if (!badHeader && hasBody && !want.has('content-type')) want.set('content-type', ctype);
    const rejected = badHeader || href === null || (hasBody && /^(GET|HEAD)$/.test(method));
    const conv = r.pick(['raw', 'raw', 'raw', 'i32', 'vec', 'rec', 'recs', 's200', 's4xx', 'errmsg']);
    const args = [method, url, headers, kind, body, conv];
    const w = r.below(12);
    const p = { id, method, href, want, bytes, kind, body, conv, rejected, got: [], t0: B.clock.now, n: 1, answer: mkAnswer(conv) };
    plans.set(id, p);
    C.trace(`${w < 1 ? 'dropped ' : w < 2 ? 'repeated ' : ''}request ${JSON.stringify(args)} answer ${safe({ ...p.answer, val: undefined })}`);
    if (w < 1) { p.drop = r.pick([0, 1, 3, 50, 400]); C.cmd('fetchdrop', id, p.drop, ...args); }
    else if (w < 2) { p.n = r.range(2, 4); p.conv = 'raw'; next += p.n; p.repeat = true; C.cmd('fetch2', id, p.n, ...args); }
    else if (w < 4) C.cmd('tx', [['fetch', id, ...args]]);
    else C.cmd('fetch', id, ...args);
    if (r.chance(many ? 3 : 50)) await C.adv(r.pick([0, 1, 4, 30, 500]));
  }
  await C.adv(60000);
  if (C.dead) return;
  const logs = C.log.filter(l => l.j[0] === 'fetched');
  for (const p of plans.values()) {
    const desc = `request ${p.id} (${p.method} ${p.href})`;
    const outs = logs.filter(l => l.j[1] >= p.id && l.j[1] < p.id + p.n);
    C.inc('requests_built');
    const sent = p.got.length;
    const expSent = p.rejected ? 0 : p.answer.never ? 1 : p.n;
    if (sent !== expSent && !(p.drop === 0 && sent <= 1)) V('sent-count', `${desc} reached the host ${sent} times, expected ${expSent}`);
    for (const q of p.got) {
      if (q.method !== p.method) V('method', `${desc} was sent as ${q.method}`);
      if (q.url !== p.href) V('url', `${desc} was sent to ${q.url}`);
      const wh = Object.fromEntries(p.want);
      if (p.kind === 'json' && typeof p.body === 'string') { // see known-findings: a JSON text is sent raw
        const good = q.body && hex(q.body) === hex(p.bytes) && eq(q.headers, wh);
        if (!good) V('json-string-body', `${desc} with the JSON text ${JSON.stringify(p.body)} as body was sent as ${q.body ? JSON.stringify(new TextDecoder().decode(q.body)) : 'nothing'} with content type ${q.headers['content-type']}`);
        C.inc('json_string_bodies');
        continue;
      }
      if (!eq(q.headers, wh)) V('headers', `${desc} was sent with headers ${safe(q.headers)}, expected ${safe(wh)}`);
      const sameJson = p.kind === 'json' && q.body && (() => { try { return eq(JSON.parse(new TextDecoder().decode(q.body)), p.body); } catch { return false; } })();
      if (!sameJson && ((q.body === null) !== (p.bytes === null) || (q.body && hex(q.body) !== hex(p.bytes)))) V('body', `${desc} with body ${p.kind} ${safe(p.body)} was sent with ${q.body === null ? 'none' : JSON.stringify(new TextDecoder().decode(q.body)).slice(0, 300)}`);
      C.inc('requests_compared');
    }
    if (p.drop !== undefined) {
      C.inc('requests_given_up');
      const gone = C.log.find(l => l.j[0] === 'fetchgone' && l.j[1] === p.id);
      if (!gone) V('given-up', `${desc}: the task that gave up the request never went on`);
      if (outs.length > 1) V('resolved-twice', `${desc} resolved ${outs.length} times`);
      if (outs.length && outs[0].t > p.t0 + p.drop) V('given-up', `${desc} resolved at ${outs[0].t} after it was given up at ${p.t0 + p.drop}`);
      continue;
    }
    const a = p.answer;
    if (!p.rejected && a.never) { if (outs.length) V('resolved-early', `${desc} was never answered but resolved: ${safe(outs[0].j)}`); C.inc('never_answered'); continue; }
    if (outs.length !== p.n) { V(outs.length < p.n ? 'unresolved' : 'resolved-twice', `${desc} resolved ${outs.length} times, expected ${p.n}`); continue; }
    for (const o of outs) {
      const [, , status, out] = o.j;
      C.inc('answers_compared');
      const bad = m => V('result', `${desc} converted by ${p.conv}, answered ${p.rejected ? 'never (rejected by the browser)' : a.fail !== undefined ? 'with failure ' + a.fail : `${a.r.status} ${safe(a.r.headers)} ${JSON.stringify(new TextDecoder().decode(a.r.bytes)).slice(0, 300)}${a.r.bodyFail ? ' and broken off' : ''}`}: ${m}, got status ${status}, ${safe(out).slice(0, 400)}`);
      if (p.rejected || a.fail !== undefined || a.r.bodyFail || a.broken) {
        C.inc('failures_compared');
        if (out[0] !== 'err' || status !== null) bad('expected an error without a status');
        if (p.conv === 'errmsg' && !/^Network error/.test(out[1])) bad('expected a network error');
        continue;
      }
      if (!p.repeat && o.t !== p.due) V('when', `${desc} was answered at ${p.due} and resolved at ${o.t}`);
      if (status !== a.r.status) bad(`expected status ${a.r.status}`);
      let want;
      const err = Symbol('any error');
      const js = a.kind === 'json';
      const asRec = () => js && isRec(a.val) ? ['ok', recOut(a.val)] : err;
      if (p.conv === 'raw') want = ['ok', [a.r.status, [a.kind, js ? a.val : a.kind === 'text' ? a.val : hex(a.val)]]];
      else if (p.conv === 'i32') want = js && Number.isInteger(a.val) && Math.abs(a.val + 0.5) < 2 ** 31 ? ['ok', a.val] : err;
      else if (p.conv === 'vec') want = js && Array.isArray(a.val) && a.val.every(x => typeof x === 'string') ? ['ok', a.val] : err;
      else if (p.conv === 'rec') want = asRec();
      else if (p.conv === 'recs') want = js && Array.isArray(a.val) && a.val.every(isRec) ? ['ok', a.val.map(recOut)] : err;
      else if (p.conv === 's200') want = a.r.status === 200 ? asRec() : ['err', 'Unhandled response code ' + a.r.status];
      else if (p.conv === 's4xx') want = a.r.status === 200 ? asRec() : a.r.status >= 400 && a.r.status < 500 ? ['err', 'client ' + a.r.status] : ['err', 'Unhandled response code ' + a.r.status];
      else { if (out[0] !== 'err' || !String(out[1]).includes('API error ' + a.r.status)) bad('expected an error naming the status'); continue; }
      if (want === err) { C.inc('mismatches_rejected'); if (out[0] !== 'err' || !out[1]) bad('expected an error'); }
      else if (!eq(sortj(out), sortj(want))) bad('expected ' + safe(want).slice(0, 400));
    }
  }
  if (logs.length > [...plans.values()].reduce((n, p) => n + p.n, 0)) V('resolved-twice', 'more results than requests');
  if (C.k % 6 === 0 && !C.viols.length) {
    plans.clear();
    await C.plateau('fetch-leak', 'repeated_fetch_memory_checks', async i => {
      plans.set(90000 + i, { got: [], answer: { delay: 3, r: { status: 200, headers: { 'content-type': 'application/json' }, bytes: enc('{"a":[1,2]}') } } });
      C.cmd('fetch', 90000 + i, 'POST', '/r' + (90000 + i), [['a', 'b']], 'json', { x: [1, 'y'] }, 'raw');
      await C.adv(20);
    });
  }
  C.nontrivial = plans.size > 0 && (C.counters.answers_compared || 0) > 0;
  C.mix(logs.map(l => l.t + JSON.stringify(l.j)).join());
};
