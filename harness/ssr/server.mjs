// Launching `vertigo serve`, the upstream the application loads from, and raw HTTP requests.
import http from 'node:http';
import net from 'node:net';
import fs from 'node:fs';
import path from 'node:path';
import { spawn } from 'node:child_process';
export const sleep = ms => new Promise(r => setTimeout(r, ms));
export function freePort() {
  return new Promise(res => { const s = net.createServer(); s.listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => res(p)) }) });
}
const live = new Set();
export const track = p => live.add(p);
process.on('exit', () => { for (const s of live) try { s.kill('SIGKILL') } catch { } });
for (const g of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(g, () => process.exit(130));
export class Server {
  // o: { exe, dest, env: [[k,v]], proxy: [[path,target]] }
  static async start(o) {
    for (let attempt = 0; ; attempt++) {
      const S = new Server();
      S.port = await freePort(); S.log = []; S.o = o; S.exited = null;
      const a = ['serve', '--dest-dir', o.dest, '--port', String(S.port)];
      for (const [k, v] of o.env || []) a.push('--env', `${k}=${v}`);
      for (const [k, v] of o.proxy || []) a.push('--proxy', `${k}=${v}`);
      const keep = {}; for (const k of ['PATH', 'HOME', 'LANG']) if (process.env[k]) keep[k] = process.env[k];
      if (o.args) a.push(...o.args);
      S.p = spawn(o.exe, a, { stdio: ['ignore', 'pipe', 'pipe'], env: keep, cwd: o.dest }); track(S.p);
      S.panics = 0; S.panicAt = {};
      const on = d => { const t = d.toString(); S.log.push(t); S.onOutput?.(t); if (S.log.length > 400) S.log.splice(0, 200); if (/Listening on/.test(t)) S.up = true; for (const m of t.matchAll(/thread '[^']*' panicked at ([^\n]*)/g)) { S.panics++; S.panicAt[m[1]] = (S.panicAt[m[1]] || 0) + 1 } };
      S.p.stdout.on('data', on); S.p.stderr.on('data', on);
      S.p.on('exit', (c, s) => { S.exited = c ?? s });
      const t0 = Date.now();
      while (!S.up && S.exited === null && Date.now() - t0 < 120000) await sleep(50);
      if (S.up) { await sleep(50); if (S.exited === null) return S }
      S.ended = S.exited;
      S.stop();
      if (attempt > 2) throw Object.assign(new Error('server did not start: ' + S.exited + ' ' + S.log.join('').slice(-2000)), { ended: S.ended ?? null, log: S.log.join('').slice(-900) });
    }
  }
  stop() { try { this.p.kill('SIGKILL') } catch { } }
}
const agent = new http.Agent({ keepAlive: true, maxSockets: 64 });
// -> { status, headers, rawHeaders, body: Buffer, ms } or { error }
export function request(port, target, o = {}) {
  return new Promise(res => {
    const t0 = Date.now();
    const q = http.request({ host: '127.0.0.1', port, path: target, method: o.method || 'GET', headers: o.headers, agent: o.fresh ? false : agent, timeout: o.timeout || 40000 }, r => {
      const b = [];
      r.on('data', d => b.push(d));
      r.on('end', () => res({ status: r.statusCode, headers: r.headers, rawHeaders: r.rawHeaders, body: Buffer.concat(b), ms: Date.now() - t0 }));
      r.on('aborted', () => res({ error: 'aborted', ms: Date.now() - t0 }));
      r.on('error', e => res({ error: e.code || e.message, ms: Date.now() - t0 }));
    });
    q.on('timeout', () => q.destroy(new Error('timeout')));
    q.on('socket', s => { if (!s.$guarded) { s.$guarded = true; s.on('error', () => { }) } });
    q.on('error', e => res({ error: e.code || e.message, ms: Date.now() - t0 }));
    if (o.body !== undefined) { if (o.chunks) { for (const c of o.chunks) q.write(c); q.end() } else q.end(o.body) } else q.end();
  });
}
// a request written byte for byte
export function raw(port, bytes, timeout = 8000) {
  return new Promise(res => {
    const b = [];
    const s = net.connect(port, '127.0.0.1', () => s.write(bytes));
    const t = setTimeout(() => s.destroy(), timeout);
    s.on('data', d => b.push(d));
    s.on('error', () => { });
    s.on('close', () => { clearTimeout(t); res(Buffer.concat(b)) });
  });
}
export class Upstream {
  static async start() {
    const U = new Upstream();
    U.plans = new Map(); U.hits = []; U.byPage = new Map(); U.other = [];
    U.s = http.createServer((q, s) => {
      const b = [];
      q.on('data', d => b.push(d));
      q.on('error', () => { });
      s.on('error', () => { });
      q.on('end', () => U.handle(q, Buffer.concat(b), s));
    });
    U.s.on('clientError', (e, s) => { U.other.push({ error: e.code || e.message }); s.destroy() });
    U.s.keepAliveTimeout = 60000;
    await new Promise(r => U.s.listen(0, '127.0.0.1', r));
    U.port = U.s.address().port;
    U.url = 'http://127.0.0.1:' + U.port;
    U.dead = await freePort();
    return U;
  }
  handle(q, body, s) {
    const m = /^\/u\/([^/?]+)\/([^/?]+)/.exec(q.url);
    const key = m && m[1] + '/' + m[2];
    let plan = m && this.plans.get(key);
    const xv = l => (l.find(h => h[0] === 'x-v') || [])[1];
    if (plan?.twins && q.method !== undefined) plan = plan.twins.find(t => t.req[0] === q.method && xv(t.req[2]) === q.headers['x-v'] && (t.req[3] !== 'text' || t.req[4] === body.toString())) || plan;
    const hit = { method: q.method, url: q.url, headers: q.headers, raw: q.rawHeaders, body, t: Date.now() };
    if (!plan) { const p = this.other; p.push(hit); if (this.proxyHandler && this.proxyHandler(q, body, s, hit)) return; s.writeHead(404); s.end(); return }
    const l = this.byPage.get(m[1]) || []; this.byPage.set(m[1], l); hit.plan = plan.id; l.push(hit);
    plan.count = (plan.count || 0) + 1;
    const n = plan.count;
    const go = () => {
      if (plan.mode === 'hang') { this.hung = (this.hung || 0) + 1; return }
      if (plan.mode === 'close') { s.destroy(); return }
      const h = {};
      if (plan.ct) h['content-type'] = plan.ct;
      let out = plan.counter ? Buffer.from('hit' + n) : plan.body;
      if (plan.mode === 'cut') { h['content-length'] = out.length + 10; s.writeHead(plan.status, h); s.write(out); setTimeout(() => s.destroy(), 5); return }
      if (plan.chunked) { s.writeHead(plan.status, h); const k = Math.floor(out.length / 2); s.write(out.subarray(0, k)); setTimeout(() => s.end(out.subarray(k)), 3) }
      else { h['content-length'] = out.length; s.writeHead(plan.status, h); s.end(out) }
    };
    plan.delay ? setTimeout(go, plan.delay) : go();
  }
}
