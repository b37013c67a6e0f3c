// C18: lazily loaded caches against a model of what they promise
import { eq, safe } from './case.mjs';
export const mon = {};
const enc = t => new TextEncoder().encode(t);
const UNIT = { s: 1000, m: 60000, h: 3600000, d: 86400000 };
mon.run = async C => {
  const r = C.r, P = 'C18', V = (s, m) => C.viol(P, s, m);
  await C.boot({});
  const B = C.B;
  C.okError = t => /Error fetching|fetch error|No match found/.test(t);
  const caches = new Map(), obs = new Map();
  let nextC = 1, nextO = 1, serial = 0, inTx = false;
  const dur = ms => B.clock.now - ms;
  const value = c => c.v === null ? ['loading'] : c.v;
  const expired = c => c.v === null ? !c.loadingValue : c.exp !== null && B.clock.now > c.exp;
  // every observer sees every change of the value once
  const tell = c => { for (const o of obs.values()) if (o.c === c && !eq(o.last, value(c))) { o.last = value(c); o.want.push(value(c)); } };
  const load = (c, withLoading) => {
    if (c.busy) { C.inc('loads_suppressed'); return; }
    c.busy = true; c.loads++; c.reload = withLoading; C.inc('loads');
    if (withLoading) { c.v = null; c.exp = null; c.loadingValue = true; if (!inTx) tell(c); }
  };
  const read = c => { if (!c.busy && expired(c)) load(c, false); };
  const observed = c => [...obs.values()].some(o => o.c === c);
  B.onRequest = rq => {
    const c = caches.get(Number(/\/c(\d+)/.exec(rq.url)?.[1]));
    if (!c) { V('unknown-request', rq.url); return; }
    c.got++;
    if (rq.method !== 'GET' || rq.url !== 'http://site.test' + c.url) V('request', `cache of ${c.url} asked for ${rq.method} ${rq.url}`);
    if (!c.busy || c.got > c.loads) V('extra-load', `cache of ${c.url}: a load nobody asked for (value ${safe(c.v)}, expiry in ${c.exp === null ? 'never' : c.exp - B.clock.now} ms)`);
    const w = r.below(20);
    const delay = r.pick([0, 1, 2, 30, 30, 500, 4000]);
    let a, v;
    if (w < 12) { const x = r.chance(75) ? ++serial : 1; a = { status: 200, headers: { 'content-type': 'application/json' }, bytes: enc(JSON.stringify({ id: x, name: 'n' + x, tag: x % 2 ? null : 't' })) }; v = ['ready', [x, 'n' + x, x % 2 ? null : 't']]; }
    else if (w < 14) { a = { status: 404, headers: { 'content-type': 'text/plain' }, bytes: enc('no') }; v = ['error', c.res ? 'Unhandled response code 404' : 'not found']; }
    else if (w < 16) { a = { status: r.pick([201, 500, 503]), headers: { 'content-type': 'application/json' }, bytes: enc('{}') }; v = ['error', 'Unhandled response code ' + a.status]; }
    else if (w < 18) { a = { status: 200, headers: { 'content-type': 'application/json' }, bytes: enc(r.pick(['{', '[]', '{"id":1}', 'null'])) }; v = ['error', null, String(a.bytes)]; }
    else { a = null; v = ['error', null, 'offline']; }
    const at = B.clock.now + delay;
    B.clock.at(at, () => {
      C.inc('loads_answered');
      a ? rq.answer(a) : rq.fail('offline');
      // the answer is passed on within the same moment of time
      c.v = v; c.busy = false; c.loadingValue = false; c.exp = c.ttl === null ? null : B.clock.now + c.ttl;
      tell(c);
    });
  };
  const same = (got, want) => got[0] === want[0] && (got[0] === 'error' ? (want[1] === null ? !!got[1] : got[1] === want[1]) : eq(got, want));
  let seen = 0;
  const verify = () => {
    for (; seen < C.log.length; seen++) {
      const { j } = C.log[seen];
      if (j[0] !== 'c') continue;
      const o = obs.get(j[1]);
      C.inc('notifications');
      if (!o) { V('after-drop', `a dropped observer was told ${safe(j[3])}`); continue; }
      o.got.push(j[3]);
    }
    for (const [k, o] of obs) {
      if (o.got.length !== o.want.length || !o.got.every((g, i) => same(g, o.want[i]))) {
        V('observer', `observer ${k} of ${o.c.url} was told ${safe(o.got)}, expected ${safe(o.want)}`);
        o.got = [...o.want];
      }
      C.mix(safe(o.want));
    }
    for (const c of caches.values()) {
      if (c.got !== c.loads) { V(c.got < c.loads ? 'missing-load' : 'extra-load', `cache of ${c.url}: ${c.got} requests were sent, expected ${c.loads}`); c.got = c.loads; }
      C.inc('load_counts_checked');
    }
  };
  const boundary = async () => { while ([...caches.values()].some(c => c.exp === B.clock.now)) await C.adv(1); };
  const ops = r.range(8, 40);
  for (let i = 0; i < ops && !C.dead && !C.viols.length; i++) {
    await boundary();
    const all = [...caches].filter(([, c]) => !c.gone);
    const w = all.length ? r.below(24) : 0;
    const [id, c] = all.length ? r.pick(all) : [];
    if (w < 1 || (w < 2 && caches.size < 4)) {
      const ttl = r.chance(20) ? null : [r.pick([0, 1, 1, 2, 5, r.pick([30, 59, 60, 100, 200, 365, 1000, r.below(3000)])]), r.pick(['s', 's', 's', 'm', 'h', 'd'])];
      const k = nextC++, url = '/c' + k + r.pick(['', '?x=1']), res = r.chance(30) && ttl && ttl[1] === 's';
      caches.set(k, { url, res, ttl: ttl && ttl[0] * UNIT[ttl[1]], v: null, exp: null, busy: false, loads: 0, got: 0, loadingValue: false });
      C.trace(`cache ${k} ttl ${ttl}`);
      C.cmd('cache', k, url, ttl, !!res);
    } else if (w < 6) {
      const o = nextO++;
      C.trace(`observe ${id} as ${o}`);
      obs.set(o, { c, last: value(c), want: [value(c)], got: [] });
      read(c);
      C.cmd('cobs', id, o);
    } else if (w < 8) {
      const l = [...obs.keys()];
      if (l.length) { const o = r.pick(l); C.trace('stop observing ' + o); verify(); obs.delete(o); C.cmd('subdrop', o); }
    } else if (w < 12) {
      C.trace('read ' + id);
      const want = value(c);
      read(c);
      const g = C.ask('cget', id).find(x => x[0] === 'cgot');
      C.inc('reads');
      if (!g || !same(g[2], want)) V('read', `reading ${c.url} gave ${safe(g && g[2])}, expected ${safe(want)}`);
    } else if (w < 14) {
      C.trace('forget ' + id);
      C.inc('forgets');
      c.v = null; c.exp = null; c.loadingValue = false;
      if (observed(c)) read(c);
      tell(c);
      C.cmd('cforget', id);
    } else if (w < 16) {
      const l = r.chance(50);
      C.trace(`force ${id} loading ${l}`);
      C.inc('forced');
      load(c, l);
      C.cmd('cforce', id, l);
    } else if (w < 18) {
      const l = r.chance(50), f = r.chance(50);
      C.trace(`update ${id} loading ${l} force ${f}`);
      if (f || expired(c)) load(c, l);
      C.cmd('cupd', id, l, f);
      await C.settle();
    } else if (w < 19) {
      C.trace(`in one transaction forget and force ${id}`);
      inTx = true;
      c.v = null; c.exp = null; c.loadingValue = false;
      load(c, false);
      inTx = false;
      tell(c);
      C.cmd('tx', [['cforget', id], ['cforce', id, false]]);
    } else if (w < 20 && !c.busy) {
      C.trace(`in one transaction read ${id} many times`);
      read(c);
      C.cmd('tx', Array.from({ length: r.range(2, 5) }, () => ['cget', id]));
    } else {
      const exps = [...caches.values()].filter(x => x.exp !== null && x.exp > B.clock.now).map(x => x.exp - B.clock.now);
      const d = r.chance(50) && exps.length ? r.pick(exps) + r.pick([-1, 1, 1, 50]) : r.pick([0, 1, 10, 100, 700, 1000, 3000, 90000]);
      C.trace(`wait ${d}`);
      await C.adv(d);
    }
    await C.settle();
    if (C.dead) return;
    verify();
  }
  await C.adv(20000);
  if (C.dead) return;
  verify();
  for (const c of caches.values()) if (c.busy && c.loads === c.got) V('stuck', `${c.url}: the load never ended`);
  if (C.k % 6 === 0 && !C.viols.length) {
    const [id] = [...caches.keys()];
    for (const o of obs.keys()) C.cmd('subdrop', o);
    obs.clear();
    await C.plateau('cache-leak', 'repeated_load_memory_checks', async () => { load(caches.get(id), true); C.cmd('cforce', id, true); await C.adv(9000); C.log.length = 0; seen = 0; });
    seen = 0;
  }
  C.nontrivial = (C.counters.loads || 0) > 1;
};
