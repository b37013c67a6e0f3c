// C20: location, cookies and history stay in step with the application
import { safe, eq } from './case.mjs';
export const mon = {};
const HT = ['', 'a', '/a', '/a/', 'a/', 'page/1?x=1&y=2', '100%', 'a%20b', '%41', 'ż', '😀/x', 'a b', '#', '#x', 'a#b', '"<>`', "it's", '\\', '{}|^', 'a\tb', '\u00a0', 'e\u0301', '%', '%zz', '?', '&=;,', 'x'.repeat(300)];
const PT = ['/', '/a', '/a/', '/a/b/', '/a/b', '/a?x=1&y=2', '/a?x=2', '/a#f', '/b#', '/ż/ó', '/%20', '/a%2Fb', '/😀', '/a b', '?q=1', '#h', '/x?', '/a/../c', '/100%', '/"<>', 'rel', '/'+'y'.repeat(300)];
const MH = ['', '#a', '#a%20b', '#%', '#100%', '#%zz', '#%C5%BC', '#ż', '#a#b', '#%E0%A4%A', '#x y', '#100%25', '##', '#page/1'];
const VAL = ['', 'x', 'a=b', '==', 'a;b', 'a; b', ' a ', 'ż', '😀', '"', '\\', '%', '%41', '100%', 'a,b', '\n', '\t', '\0', 'a&b', '{"x":1}', '\ufeff', '+', 'a+b', "'", 'null', 'x'.repeat(900), '\u2028', '=', ';', 'expires=0'];
const JSN = [null, true, false, 0, 1, -7, 1.5, 1e21, 'ż', '', '";=', [], [1, 'a', null], { a: 1, b: [{ c: ';' }] }, { '': '' }, { 'k=': 'v;' }, { ['__proto__']: 5, x: 1 }, 4294967296, [[[]]], 'null'];
const hashOf = B => { const t = B.location.hash.slice(1); try { return decodeURIComponent(t); } catch { return t; } };
const pathOf = B => B.location.pathname + B.location.search + B.location.hash;
mon.run = async C => {
  const r = C.r, V = (s, m) => C.viol('C20', s, m);
  const mode = r.chance(50) ? 'hash' : 'hist';
  const start = mode === 'hash' ? 'http://site.test/app' + r.pick(MH) : 'http://site.test' + r.pick(PT.filter(x => x[0] === '/'));
  await C.boot({ url: start, histDelay: r.pick([0, 1, 30]) });
  const B = C.B;
  const where = () => mode === 'hash' ? hashOf(B) : pathOf(B);
  const routers = new Map(), obs = new Map(), gone = new Set(); // obs: oid -> {rt, seen:[values], live}
  let nr = 1, no = 1, mark = 0;
  const cookies = new Map(); // name -> {v, lo, hi, json}
  const take = () => { // new deliveries
    for (; mark < C.log.length; mark++) {
      const { j } = C.log[mark];
      if (j[0] !== 'r') continue;
      const o = obs.get(j[1]);
      C.inc('deliveries');
      if (!o) { V('called-after-drop', `observer ${j[1]}, dropped before, was called with ${safe(j[2])}`); continue; }
      if (o.seen.length && o.seen[o.seen.length - 1] === j[2]) V('repeated', `observer ${j[1]} got ${safe(j[2])} twice in a row`);
      o.seen.push(j[2]);
    }
  };
  const verify = what => {
    take();
    const w = where();
    C.mix(w);
    for (const [id, o] of obs) {
      C.inc('routes_compared');
      const l = o.seen[o.seen.length - 1];
      if (l !== w) V('stale', `after ${what}: observer ${id} was last told ${safe(l)}, the location is ${safe(w)}`);
    }
    for (const id of routers.keys()) if (r.chance(60)) {
      C.inc('routes_compared');
      const g = C.ask('rtget', id).find(x => x[0] === 'rgot');
      if (!g || g[2] !== w) V('stale-read', `after ${what}: router ${id}${[...obs.values()].some(o => o.rt === id) ? '' : ' (not observed)'} reads ${safe(g && g[2])}, the location is ${safe(w)}`);
    }
  };
  const setRoute = async (id, text, how, tx) => {
    const before = B.location.href, pos = B.hist.pos, old = where();
    C.trace(`set route ${safe(text)} ${how} ${tx ? 'in a transaction' : ''}`);
    const c = how === 'set' ? ['rtset', id, text] : ['rtchg', id, text];
    const want = how === 'set' ? text : old + text;
    if (tx) C.cmd('tx', [c, ...(r.chance(30) ? [['rtget', id]] : [])]); else C.cmd(...c);
    C.inc('routes_set');
    const exp = mode === 'hash' ? want : (() => { const u = new URL(want, before); return u.pathname + u.search + u.hash; })();
    if (where() !== exp) V('not-set', `route set to ${safe(want)} at ${before}: the location became ${B.location.href}`);
    if (old === want && B.hist.pos !== pos) V('history-entries', `setting the current route ${safe(want)} again added a history entry`);
    if (old !== exp && B.hist.pos !== pos + 1) V('history-entries', `setting the route ${safe(want)} moved the history by ${B.hist.pos - pos} entries`);
    await C.settle();
    verify(`setting ${safe(want)}`);
  };
  const ops = r.below(50) ? r.range(8, 40) : r.range(150, 400);
  for (let i = 0; i < ops && !C.dead; i++) {
    const w = r.below(26), ids = [...routers.keys()];
    if (w < 2 || !ids.length) { if (routers.size < 3) { const id = nr++; C.trace('router ' + id); C.cmd('rt', id, mode); routers.set(id, 1); verify('creating a router'); } }
    else if (w < 5 && obs.size < 5) {
      const id = r.pick(ids), oid = no++;
      obs.set(oid, { rt: id, seen: [] });
      C.trace(`observe ${id} as ${oid}`);
      C.cmd('rtobs', id, oid); verify('observing');
    } else if (w < 7 && obs.size) {
      const oid = r.pick([...obs.keys()]);
      C.trace('unobserve ' + oid); take(); obs.delete(oid); C.cmd('subdrop', oid); C.inc('unobserved');
      if (r.chance(50)) verify('unobserving');
    } else if (w === 7 && routers.size > 1) { // observers of it live on
      const id = r.pick(ids); routers.delete(id); C.trace('drop router ' + id); C.cmd('rtdrop', id); verify('dropping a router');
    } else if (w < 12) {
      const id = r.pick(ids);
      if (r.chance(80)) await setRoute(id, r.pick(mode === 'hash' ? HT : PT), 'set', r.chance(20));
      else if (where().length < 500) { // an address of only slashes would be one of another host
        const x = r.pick(['x', '%', '?z', 'ż', '%41', '&k=1', '/', '/', '']);
        await setRoute(id, where() === '/' && x === '/' ? 'x' : x, 'change', false);
      }
    } else if (w < 15) {
      const d = r.pick([-1, -1, 1, -2, 2]);
      C.trace('history go ' + d);
      if (d === -1 && r.chance(40)) C.cmd('hback'); else B.history.go(d);
      C.inc('traversals');
      await C.adv(40); verify('history go ' + d);
    } else if (w < 18 && mode === 'hash') {
      const h = r.pick(MH);
      C.trace('user hash ' + h);
      B.userHash(h); C.inc('manual_changes');
      await C.settle(); verify('the user entering ' + h);
    } else if (w < 18) { // history mode: the user edits the fragment, or the page replaces its address
      if (r.chance(50)) { const h = r.pick(MH); C.trace('user hash ' + h); B.userHash(h); C.inc('manual_changes'); await C.settle(); verify('the user entering ' + h); }
      else {
        const t = r.pick(PT), before = B.location.href, n = B.hist.list.length;
        C.trace('replace ' + t); C.cmd('hrepl', t);
        if (B.location.href !== new URL(t, before).href) V('not-replaced', `replacing ${before} by ${t} gave ${B.location.href}`);
        if (B.hist.list.length !== n) V('history-entries', `replacing the address changed the number of history entries by ${B.hist.list.length - n}`);
        C.inc('replaced');
        await C.settle(); verify('replacing by ' + t);
      }
    } else if (w < 21) { // cookies
      const n = r.pick(['a', 'b', 'sess', 'a1', 'A', 'tok.en', 'x-y']), j = r.chance(25), v = j ? r.pick(JSN) : r.pick(VAL) + (r.chance(30) ? r.pick(VAL) : ''), exp = r.pick([0, 1, 60, 3600, 3600, 86400 * 365]);
      C.trace(`cookie ${n} = ${safe(v).slice(0, 80)} for ${exp} s`);
      C.inc('cookies_set');
      if (!j && encodeURIComponent(v).length > 4000) continue;
      if (j) C.cmd('cksetj', n, v, exp); else C.cmd('ckset', n, v, exp);
      cookies.set(n, { v, json: j, lo: Math.floor((B.clock.now + exp * 1000) / 1000) * 1000, hi: B.clock.now + exp * 1000 });
    } else if (w === 21) { // a cookie from the server or another script
      const n = r.pick(['srv', 'b', 'sess']), v = r.pick(['abc==', 'plain', '%7Bx%7D', '100%', 'a=b=c', '"q"', 'a%ZZ', 'x y']);
      C.trace(`server cookie ${n} = ${v}`);
      B.jar.set(n, { v, exp: null, path: '/' });
      let t = v; try { t = decodeURIComponent(v); } catch { /* as it is */ }
      cookies.set(n, { v: t, lo: Infinity, hi: Infinity, json: false }); C.inc('foreign_cookies');
    } else if (w === 22 && r.chance(10)) { // many of other parts of the site
      const k = r.pick([15, 25, 45]); C.trace(k + ' more cookies'); C.inc('many_cookies');
      for (let i = 0; i < k; i++) { const n = 'other' + i; B.jar.set(n, { v: 'o' + i, exp: null, path: '/' }); cookies.set(n, { v: 'o' + i, lo: Infinity, hi: Infinity, json: false }) }
    } else if (w === 22 && r.chance(30)) { B.jar.set('', { v: r.pick(['flag', '']), exp: null, path: '/' }); C.inc('nameless_cookies'); }
    else if (w < 25) {
      for (const [n, c] of cookies) {
        const now = B.clock.now, jr = c.json === true;
        C.inc('cookies_read');
        const g = C.ask(jr ? 'ckgetj' : 'ckget', n)[0], none = jr ? null : '';
        const x = g?.[2], isV = eq(x, c.v), isN = x === none;
        if (now < c.lo ? !isV : now >= c.hi ? !isN : !(isV || isN)) V('cookie', `cookie ${n}, set to ${safe(c.v).slice(0, 200)} until ${c.hi === Infinity ? 'ever' : c.hi - B.clock.start}, reads ${safe(x).slice(0, 200)}`);
      }
      const m = C.ask('ckget', 'never-set')[0];
      if (m?.[2] !== '') V('cookie', `a cookie that was never set reads ${safe(m?.[2])}`);
    } else await C.adv(r.pick([0, 10, 1000, 61000, 4000000]));
  }
  // everything observed has ended: navigation reaches the application no more
  for (const oid of [...obs.keys()]) { obs.delete(oid); C.cmd('subdrop', oid); }
  for (const id of [...routers.keys()]) { routers.delete(id); C.cmd('rtdrop', id); }
  await C.settle();
  const n = B.ev.callbacks || 0;
  B.userHash('#the-end'); B.history.go(-1);
  await C.adv(100);
  if ((B.ev.callbacks || 0) !== n) V('listener-left', `after the last router and observer were dropped, navigation still called the application ${(B.ev.callbacks || 0) - n} times`);
  C.inc('ends_checked');
  C.nontrivial = (C.counters.routes_compared || 0) > 10;
  if (C.k % 6 === 0 && !C.viols.length) await C.plateau('router-leak', 'repeated_router_memory_checks', async i => {
    C.cmd('rt', 900, mode); C.cmd('rtobs', 900, 900); C.cmd('rtset', 900, '/p' + (10 + i)); await C.adv(40);
    C.cmd('ckset', 'k', 'v' + (10 + i), 100); C.cmd('ckget', 'k'); C.cmd('subdrop', 900); C.cmd('rtdrop', 900); await C.adv(5);
  });
};
