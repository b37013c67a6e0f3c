// C24: loads are awaited, made once, failures and crashes contained.
import { makePage, judge, ask, hash, expect } from './common.mjs';
import { rtext } from './pages.mjs';
const nan = j => j === '@nan' ? null : Array.isArray(j) ? j.map(nan) : j && typeof j === 'object' ? Object.fromEntries(Object.entries(j).map(([k, v]) => [k, nan(v)])) : j;
const canon = j => j === null || typeof j !== 'object' ? JSON.stringify(j === 0 ? 0 : j) : Array.isArray(j) ? '[' + j.map(canon).join() + ']' : '{' + Object.keys(j).sort().map(k => JSON.stringify(k) + ':' + canon(j[k])).join() + '}';
const bare = s => (s || '').split(';')[0].trim().toLowerCase();
// what reached the upstream; max: how often each request may have been sent
export function hits(C, P, used, max = 1, prop = 'C24') {
  const l = P.env.U.byPage.get(P.pid) || [];
  const plans = new Map(P.g.plans.map(p => [p.id, p]));
  const n = new Map();
  for (const h of l) {
    C.inc('loads_received');
    const p = plans.get(h.plan);
    n.set(h.plan, (n.get(h.plan) || 0) + 1);
    const [m, url, hs, kind, body] = p.req, at = `load ${JSON.stringify(p.req)}`;
    if (h.method !== m) C.viol(prop, 'load-method', `${at}: arrived as ${h.method}`);
    const u = new URL(url);
    if (h.url !== u.pathname + u.search) C.viol(prop, 'load-url', `${at}: arrived at ${h.url}`);
    for (const [k, v] of hs) if (h.headers[k.toLowerCase()] !== v) C.viol(prop, 'load-header', `${at}: header ${k} arrived as ${h.headers[k.toLowerCase()]}`);
    const own = hs.some(x => x[0].toLowerCase() === 'content-type');
    if (kind === 'none') { if (h.body.length) C.viol(prop, 'load-body', `${at}: arrived with a body ${h.body}`) }
    else if (kind === 'text') { if (h.body.toString() !== body) C.viol(prop, 'load-body', `${at}: arrived with body ${JSON.stringify(h.body.toString())}`); if (!own && bare(h.headers['content-type']) !== 'text/plain') C.viol(prop, 'load-content-type', `${at}: ${h.headers['content-type']}`) }
    else if (kind === 'bin') { if (!h.body.equals(Buffer.from(body))) C.viol(prop, 'load-body', `${at}: arrived with body ${h.body.toString('hex')}`) }
    else {
      let j; try { j = JSON.parse(h.body.toString()) } catch { j = undefined }
      if (j === undefined || canon(j) !== canon(nan(body))) C.viol(prop, 'load-body', `${at}: arrived with body ${h.body}`);
      if (!own && bare(h.headers['content-type']) !== 'application/json') C.viol(prop, 'load-content-type', `${at}: ${h.headers['content-type']}`);
    }
  }
  for (const [id, c] of n) if (c > max) C.viol(prop, 'load-repeated', `load ${JSON.stringify(plans.get(id).req)} was sent ${c} times for ${max} page(s)`);
  if (used) for (const rq of used) {
    const m = /\/u\/[^/]+\/([^/?]+)/.exec(rq[1]);
    const id = m && (P.g.plans.find(p => p.req && JSON.stringify(p.req) === JSON.stringify(rq))?.id || m[1]);
    if (m && !plans.get(id).dead && !n.has(id)) C.viol(prop, 'load-missing', `load ${JSON.stringify(rq)} never reached the upstream`);
  }
  return l.length;
}
export const mon = {
  prop: 'C24',
  async setup(env) { await Promise.all([env.server({}), env.server({ env: [['a', 'b']] })]) },
  async run(C, env) {
    const r = C.r, S = r.pick(env.servers), early = env.o.secs < 15 ? 0 : 14;
    const hang = C.k < early && C.k % 2 === 0, slow = hang || C.k < early || (C.k < 400 && r.chance(2));
    const P = makePage(C, env, S, {
      nodes: r.pick([12, 30, 60]), loads: true, hang, slow, boom: hang || slow ? 0 : 12, plain: 2,
      spec: g => { const s = g.page(); if (hang || slow || r.chance(80)) s[2][1].push(g.load(1, false), ['e', 'div', [], [g.load(2, false), g.load(2, false)]]);
        // answers just within the limit do not lengthen it for one that never comes
        if (hang && r.chance(60)) { g.force = 8000; const l = g.load(3, false); s[2][1].push(l); if (g.force) g.force = 0; else C.inc('pages_hanging_and_late') }
        return s },
    });
    const res = await ask(C, P);
    const x = judge(C, P, res, 'C24');
    if (x) {
      const used = x.kind === 'html' ? x.m.used : null;
      const n = hits(C, P, used);
      if (used) { C.inc('loads_in_documents', used.length); C.inc('failed_loads_in_documents', used.filter(q => x.m.outcome(q).fail).length) }
      const pend = x.kind === 'html' && P.g.plans.some(p => p.mode === 'hang' && (env.U.byPage.get(P.pid) || []).some(h => h.plan === p.id));
      if (pend) {
        C.inc('pages_with_a_hanging_load');
        if (res.ms > 16000) C.viol('C24', 'limit-exceeded', `a page with a load that is never answered took ${res.ms} ms`);
      } else if (!slow && res.ms > 8000) C.viol('C24', 'late', `all loads were answered but the page took ${res.ms} ms`);
      if (n > 1) { C.nontrivial = true; C.h = hash(P.target) }
    }
    for (const p of P.g.plans) env.U.plans.delete(P.pid + '/' + p.id);
    env.U.byPage.delete(P.pid);
  },
};
