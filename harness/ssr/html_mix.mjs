// C23: requests are isolated from one another. Bundles of concurrent requests (equal ones, crashing
// ones, slow ones, abandoned ones); every answer must be the one the request gets when it is alone.
import net from 'node:net';
import { parse } from './html.mjs';
import { request, sleep } from './server.mjs';
import { makePage, judge, ask, hash, cut } from './common.mjs';
const canon = k => k.text !== undefined ? k.text : [k.tag, [...k.attrs].sort((a, b) => a[0] < b[0] ? -1 : 1), k.kids.map(canon)];
const doc = res => { try { return res.status + JSON.stringify(canon(parse(res.body.toString()).root)) } catch { return res.status + res.body.toString() } };
const suspects = [];
export const mon = {
  prop: 'C23',
  async setup(env) { await Promise.all([env.server({}), env.server({ env: [['a', 'b'], ['c', '<d>']] })]) },
  async run(C, env) {
    const r = C.r, S = r.pick(env.servers);
    const jobs = [];
    const n = r.range(4, 9);
    for (let i = 0; i < n; i++) {
      const kind = r.below(10);
      const P = makePage(C, env, S, { suffix: 'x' + i, nodes: r.pick([6, 15, 30]), loads: kind < 3, boom: kind === 3 ? 100 : 0, plain: kind === 4 ? 100 : 0,
        spec: g => { const s = g.page(); if (kind === 5 || kind === 6) { const p = { id: 'n' + i, status: 200, ct: 'text/plain', delay: r.below(20), mode: 'ok', counter: 1, body: Buffer.alloc(0) }; p.req = ['GET', `${env.U.url}/u/${g.pid}/n${i}`, [], 'none']; g.plans.push(p); s[2][1].push(['e', 'div', [], [['ld', p.req, 'fetch']]]); s[5] = null; if (!s[2][1]) s[2][1] = [] } return s } });
      const times = kind === 5 || kind === 6 || r.chance(30) ? r.range(2, 4) : 1;
      for (let t = 0; t < times; t++) jobs.push({ P, t, times, counter: kind === 5 || kind === 6, abandon: r.chance(6) && !(kind === 5 || kind === 6), start: r.chance(50) ? 0 : r.below(30) });
    }
    r.shuffle(jobs);
    const alone = { viols: [] };
    await Promise.all(jobs.map(async j => {
      if (j.start) await sleep(j.start);
      if (j.abandon) {
        C.inc('abandoned');
        await new Promise(res => { const s = net.connect(j.P.S.port, '127.0.0.1', () => { s.write(`GET ${j.P.target} HTTP/1.1\r\nhost: x\r\n\r\n`); setTimeout(() => { s.destroy(); res() }, r.below(15)) }); s.on('error', () => res()) });
        return;
      }
      j.res = await request(j.P.S.port, j.P.target);
    }));
    const byPage = new Map();
    for (const j of jobs) {
      if (j.abandon) continue;
      C.inc('answers');
      const T = { viols: [], lines: [], inc: (...a) => C.inc(...a), line() { }, viol(p, s, m) { this.viols.push([p, s, m]) } };
      const x = judge(T, j.P, j.res, 'C23');
      j.x = x;
      // may have been cut off by the time limit of the server because the machine was busy
      if (T.viols.length && j.res.ms > 5000) { C.inc('slow_not_judged'); continue }
      if (T.viols.length) { C.inc('differences'); if (suspects.length < 12) suspects.push({ P: j.P, T, case: C.k, lines: ['GET ' + j.P.target, 'spec ' + JSON.stringify(j.P.spec), ...j.P.g.plans.map(p => `plan ${p.id} ${p.mode} ${p.status} ${p.ct}: ${p.body.toString('latin1')}`)] }); continue }
      const l = byPage.get(j.P) || []; byPage.set(j.P, l); l.push(j);
    }
    for (const [P, l] of byPage) {
      if (l.length < 2) continue;
      C.inc('equal_requests', l.length);
      if (l[0].counter) {
        if (!l.every(j => j.x?.cmp)) continue;
        const hits = l.flatMap(j => j.x.cmp.hits);
        C.inc('own_loads', hits.length);
        if (new Set(hits).size !== hits.length) C.viol('C23', 'shared-load', `requests for the same page show the answers of loads number ${hits.join(', ')}: not each its own; GET ${P.target}`);
      } else if (!P.g.plans.length || l[0].x?.kind !== 'html') {
        const d = new Set(l.map(j => l[0].x?.kind === 'crash' ? String(j.res.status) : doc(j.res)));
        if (d.size > 1) C.viol('C23', 'equal-requests-differ', `equal requests got different answers: ${[...d].map(cut).join('\n---\n')}`);
      }
    }
    for (const j of jobs) if (!suspects.some(s => s.P === j.P)) { for (const p of j.P.g.plans) env.U.plans.delete(j.P.pid + '/' + p.id); env.U.byPage.delete(j.P.pid) }
    C.line(`${jobs.length} requests: ${jobs.map(j => j.abandon ? 'abandoned' : j.x?.kind).join(' ')}`);
    C.nontrivial = true; C.h = hash(jobs.map(j => j.P.target).join());
    C.inc('bundles');
  },
  // what differs also when asked alone of a fresh server is not a matter of isolation
  async end(C, env) {
    const fresh = new Map();
    for (const s of suspects) {
      if (!fresh.has(s.P.S)) fresh.set(s.P.S, await env.server(s.P.S.cfg));
      const T = { viols: [], inc() { }, line() { }, viol(p, g, m) { this.viols.push([p, g, m]) } };
      for (const p of s.P.g.plans) env.U.plans.set(s.P.pid + '/' + p.id, p);
      const P = { ...s.P, S: fresh.get(s.P.S) };
      const res = await request(P.S.port, P.target);
      if (res.ms > 5000) { C.inc('slow_not_judged'); continue }
      judge(T, P, res, 'C23');
      C.inc('rechecked_alone');
      if (T.viols.length) continue;
      for (const l of s.lines) C.line(l);
      C.viol('C23', 'depends-on-others', `case ${s.case}: among other requests: ${s.T.viols[0][2]}; alone the answer is right`);
    }
  },
};
