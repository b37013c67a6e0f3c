// What every page answer must look like, and running one generated page against the model.
import { request } from './server.mjs';
import { Gen, Model, Compare, targetOf } from './pages.mjs';
export function hash(s) { let h = 0x811c9dc5, g = 0x1234567; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); h = Math.imul(h ^ c, 0x01000193); g = Math.imul(g ^ c, 0x85ebca6b) ^ (g >>> 13) } return (h >>> 0).toString(16) + (g >>> 0).toString(16) }
export const NOCACHE = 'private, no-cache, no-store, must-revalidate, max-age=0';
export const cut = s => { s = String(s); return s.length > 1500 ? s.slice(0, 1500) + '…' : s };
export function makePage(C, env, S, opt) {
  const r = C.r, pid = opt.pid || `c${C.k}${opt.suffix || ''}`;
  const g = new Gen(r, env.U, pid, { ...opt, env: S.env });
  const spec = opt.spec ? opt.spec(g) : g.page();
  for (const p of g.plans) if (!p.dead) env.U.plans.set(pid + '/' + p.id, p);
  const target = targetOf(spec, r, opt.odd !== false);
  return { g, pid, spec, target, S, env };
}
// the outcome the model expects: { kind: 'html'|'plain'|'crash', ... }
export function expect(P) {
  const m = new Model(P.spec, P.g.plans, { url: P.target, env: P.S.env });
  if (!m.early) { if (P.spec[5] !== null) return { m, kind: 'plain', text: P.spec[5] === '@url' ? P.target : P.spec[5] }; m.body(); m.evl(P.spec[1]) }
  return { m, kind: m.crash !== null ? 'crash' : 'html' };
}
// prop: under which property a difference of the page is reported
export function judge(C, P, res, prop, opt = {}) {
  if (res.error) { C.viol(opt.errprop || prop, 'no-answer', `no answer (${res.error}) after ${res.ms} ms`); return null }
  const x = expect(P), h = res.headers, body = res.body.toString('utf8');
  const head = (status, type) => {
    if (res.status !== status) { C.viol(x.kind === 'crash' ? 'C24' : prop, 'status', `status ${res.status} instead of ${status}: ${cut(body)}`); return false }
    if (h['content-type'] !== type) C.viol(prop, 'content-type', `content type ${h['content-type']} instead of ${type}`);
    return true;
  };
  if (h['cache-control'] !== NOCACHE) C.viol('C25', 'page-cacheable', `a ${x.kind} answer has cache-control ${h['cache-control']}`);
  C.inc('answers_' + x.kind); if (P.g.scale) C.inc('scale_' + P.g.scale); if (P.g.twins) C.inc('loads_alike', P.g.twins);
  if (x.kind === 'crash') {
    if (head(500, 'text/plain')) {
      if (x.m.crash.startsWith('!trap ')) C.inc('answers_trap');
      else if (!body.includes(x.m.crash) || !/panicked/.test(body)) C.viol('C24', 'crash-message', `the answer of a crash with ${JSON.stringify(x.m.crash)} is ${cut(body)}`);
    }
    return x;
  }
  if (x.kind === 'plain') {
    if (head(200, 'text/plain') && body !== x.text) C.viol('C25', 'plain-text', `plain answer ${JSON.stringify(body)} instead of ${JSON.stringify(x.text)}`);
    return x;
  }
  if (!head(200, 'text/html; charset=utf-8')) return x;
  if (!Buffer.from(body, 'utf8').equals(res.body)) C.viol(prop, 'not-utf8', 'the document is not valid UTF-8');
  const cmp = new Compare();
  x.m = new Model(P.spec, P.g.plans, { url: P.target, env: P.S.env });
  cmp.page(res, x.m, P.S);
  x.cmp = cmp;
  for (const k in cmp.n) C.inc(k + '_compared', cmp.n[k]);
  for (const [sig, msg] of cmp.bad) C.viol(opt.map ? opt.map(sig) : prop, sig, msg);
  if (cmp.bad.length) C.line('document: ' + cut(body));
  return x;
}
export async function ask(C, P, opt = {}) {
  C.line('GET ' + P.target.replace(/d=[0-9a-f]+/, 'd=…') + ' spec ' + JSON.stringify(P.spec));
  for (const p of P.g.plans) C.line(`plan ${p.id} ${p.mode} ${p.status} ${p.ct} ${p.delay} ms: ${p.body.toString('latin1')}`);
  const res = await request(P.S.port, P.target, opt);
  C.slowest = Math.max(C.slowest || 0, res.ms || 0);
  return res;
}
