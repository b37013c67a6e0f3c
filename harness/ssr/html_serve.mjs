// C25: plain answers, static files, cache rules, proxies.
import fs from 'node:fs';
import path from 'node:path';
import zlib from 'node:zlib';
import { request, raw } from './server.mjs';
import { rtext } from './pages.mjs';
import { makePage, judge, ask, hash, cut } from './common.mjs';
const STATIC = 'public, max-age=86400';
const SECRET = 'the-secret-of-' + process.pid;
const NAMES = ['a.js', 'b.css', 'c.png', 'd e.txt', 'ż.txt', 'noext', 'big.bin', 'sub/x.js', 'sub/deep/y.html', 'sub/%41.txt', 'empty.css', 'f.hash123.svg', '.hidden', 'a+b&c=d.txt', "q'uote.txt"];
const MIME = { '.js': /javascript/, '.css': /^text\/css/, '.png': /^image\/png/, '.wasm': /^application\/wasm/, '.svg': /^image\/svg/, '.html': /^text\/html/, '.txt': /^text\/plain/ };
const segs = ['a', 'b c', 'ż', '%41', '%2F', '%20', 'x.json', "q'", '(1)', 'a+b', 'a=b', 'a&b', ';p', ':9', '@me', '*', '~u', '%25', '$', '!', ',', ''];
const qs = ['a=1', 'b=%20', 'c=x+y', 'd=ż', 'e', 'f=a/b?c', 'g=%C5%BC', "h='", 'i=[1]', 'j=%00', 'k=&&', 'l=a%26b', 'm=..', 'n=/../'];
const enc = s => encodeURI(s).replace(/%25(?=[0-9A-F]{2})/g, '%');
export const mon = {
  prop: 'C25',
  async setup(env) {
    const files = {};
    let x = 12345;
    for (const n of NAMES) files[n] = n === 'empty.css' ? Buffer.alloc(0) : Buffer.from(Array.from({ length: n === 'big.bin' ? 300000 : 20 + n.length * 7 }, () => (x = (x * 1103515245 + 12345) & 0x7fffffff) >> 16 & 255));
    const t = env.U.url;
    const A = await env.server({ files, proxy: [['/api', t + '/px'], ['/deep/er', t], ['/dead', 'http://127.0.0.1:' + env.U.dead + '/x']] });
    const B = await env.server({ files, env: [['e', 'v']], wasm: '/b/c/app.wasm', run_js: '/b/c/run.js', proxy: [['/px', t + '/q']] });
    A.base = '/build'; B.base = '/b/c';
    env.files = files;
    // what must never be served
    for (const S of [A, B]) {
      fs.writeFileSync(S.dest + '-secret.txt', SECRET); fs.writeFileSync(path.join(S.dest, '..', 'secret.txt'), SECRET);
      fs.mkdirSync(S.dest + 'x', { recursive: true }); fs.writeFileSync(S.dest + 'x/secret.txt', SECRET);
    }
    this.plans = new Map();
    env.U.proxyHandler = (q, body, s, hit) => {
      const id = q.headers['x-case'] || /__c(\d+)_/.exec(q.url)?.[1];
      const p = this.plans.get(Number(id));
      if (!p) return false;
      env.U.other.pop();
      p.hits.push(hit);
      if (p.mode === 'close') { s.destroy(); return true }
      const go = () => {
        const h = { ...p.headers };
        if (p.mode === 'cut') { h['content-length'] = p.body.length + 9; s.writeHead(p.status, h); s.write(p.body); setTimeout(() => s.destroy(), 4); return }
        if (p.chunked) { s.writeHead(p.status, h); let i = 0; const step = () => { if (i >= p.body.length) return s.end(); const n = p.chunked; s.write(p.body.subarray(i, i + n)); i += n; setTimeout(step, 1) }; step() }
        else { h['content-length'] = p.body.length; s.writeHead(p.status, h); s.end(p.body) }
      };
      p.delay ? setTimeout(go, p.delay) : go();
      return true;
    };
  },
  async run(C, env) {
    const r = C.r, k = r.below(100), S = r.pick(env.servers);
    if (k < 20) return this.page(C, env, S);
    if (k < 45) return this.file(C, env, S);
    if (k < 57) return this.outside(C, env, S);
    if (k < 63) return this.proxyOutside(C, env, S);
    return this.proxy(C, env, S);
  },
  async page(C, env, S) {
    const r = C.r;
    const P = makePage(C, env, S, { nodes: 8, plain: 80, boom: 5 });
    const res = await ask(C, P, r.chance(30) ? { method: 'POST', body: 'x' } : {});
    judge(C, P, res, 'C25');
    if (!res.error) C.inc('pages');
    C.nontrivial = true; C.h = hash(P.target);
  },
  async file(C, env, S) {
    const r = C.r, n = r.pick([...NAMES, ...NAMES, 'app.wasm', 'index.json', 'run.js']);
    const want = n === 'app.wasm' ? fs.readFileSync(env.o.wasm) : Buffer.from(S.files[n] ?? '');
    const url = S.base + '/' + n.split('/').map(encodeURIComponent).join('/') + (r.chance(20) ? '?v=1' : '');
    const kind = r.below(10);
    const missing = r.chance(12);
    if (missing) {
      const u = url.split('?')[0] + r.pick(['x', '/y', '.map']);
      C.line('GET ' + u);
      const res = await request(S.port, u);
      C.inc('missing_files');
      if (res.error) return C.viol('C25', 'no-answer', res.error);
      if (res.status !== 404) C.viol('C25', 'missing-file', `${u}: status ${res.status} for a file that does not exist: ${cut(res.body.toString('latin1'))}`);
      C.nontrivial = true; C.h = hash(u); return;
    }
    const range = kind === 0 && want.length > 4 ? [r.below(want.length), 0] : null;
    if (range) range[1] = range[0] + r.below(want.length - range[0]);
    const method = kind === 1 ? 'HEAD' : 'GET';
    C.line(`${method} ${url} ${range ? 'range ' + range : ''}`);
    const res = await request(S.port, url, { method, headers: range ? { range: `bytes=${range[0]}-${range[1]}` } : {} });
    if (res.error) return C.viol('C25', 'no-answer', `${url}: ${res.error}`);
    C.inc('files'); C.inc('file_bytes', res.body.length);
    const exp = method === 'HEAD' ? Buffer.alloc(0) : range ? want.subarray(range[0], range[1] + 1) : want;
    if (res.status !== (range ? 206 : 200)) C.viol('C25', 'file-status', `${url}: status ${res.status}`);
    else if (!res.body.equals(exp)) C.viol('C25', 'file-bytes', `${url}: ${res.body.length} bytes differ from the ${exp.length} of the file`);
    if (method === 'HEAD' && Number(res.headers['content-length']) !== want.length) C.viol('C25', 'file-length', `${url}: content-length ${res.headers['content-length']} of ${want.length}`);
    if (res.headers['cache-control'] !== STATIC) C.viol('C25', 'file-cache', `${url}: cache-control ${res.headers['cache-control']}`);
    const m = MIME[path.extname(n)];
    if (m && !m.test(res.headers['content-type'] || '')) C.viol('C25', 'file-type', `${url}: content type ${res.headers['content-type']}`);
    C.nontrivial = true; C.h = hash(url + method + range);
  },
  // attempts to leave the directory of the build, byte for byte
  async outside(C, env, S) {
    const r = C.r;
    const up = r.pick(['..', '%2e%2e', '.%2e', '%2E.', '..%2f..', '..%5c', '..\\', '%252e%252e', '..;', '.\u002e/', '....//', '%c0%ae%c0%ae', '..%00']);
    const d = path.basename(S.dest);
    const tail = r.pick(['secret.txt', d + '-secret.txt', d + 'x/secret.txt', '../secret.txt', '%2e%2e/secret.txt', 'x/../secret.txt']);
    const pre = r.pick([S.base, S.base + '/sub', S.base + '/sub/deep', '', S.base + '//', S.base + '/.', '/' + S.base, S.base + '/sub/..']);
    const abs = r.chance(25);
    const t = abs ? pre + r.pick(['/', '//', '/%2f', '/%2F/']) + (r.chance(50) ? encodeURIComponent(path.join(S.dest, '..', 'secret.txt')) : path.join(S.dest, '..', 'secret.txt')) : `${pre}/${Array(r.range(1, 4)).fill(up).join('/')}/${tail}`;
    const method = r.pick(['GET', 'GET', 'HEAD', 'POST']);
    C.line(`${method} ${t}`);
    const out = await raw(S.port, `${method} ${t} HTTP/1.1\r\nhost: x\r\nconnection: close\r\n${method === 'POST' ? 'content-length: 0\r\n' : ''}\r\n`);
    C.inc('outside_attempts');
    if (out.includes(SECRET)) C.viol('C25', 'outside-file', `${t} was answered with a file outside the build directory`);
    if (!/^HTTP\/1\.[01] \d+/.test(out.toString('latin1'))) C.viol('C25', 'no-answer', `${t}: no answer (${out.length} bytes)`);
    else C.inc('outside_status_' + out.toString('latin1').slice(9, 12));
    C.nontrivial = true; C.h = hash(t);
  },
  // attempts to reach addresses of the target's host outside of the proxied one
  async proxyOutside(C, env, S) {
    const r = C.r, [prefix, target] = S.cfg.proxy.find(p => p[1] !== env.U.url && !p[1].includes(':' + env.U.dead));
    const p = { hits: [], status: 200, headers: {}, body: Buffer.from('outside'), mode: 'ok' };
    this.plans.set(C.k, p);
    const up = r.pick(['..', '..', '%2e%2e', '.%2e', '%2E.', '%2E%2e', '..%2f..', '..\\x', 'a\\..\\..', 'a/../..', './..', '%252e%252e', '...', '.', '%2e', '....//', '.\u002e/']);
    const url = `${prefix}/${Array(r.range(1, 4)).fill(up).join('/')}/${r.pick(['', 'x/', '../', 'px2/'])}__c${C.k}_${r.pick(['', '?a=/../b'])}`;
    const method = r.pick(['GET', 'POST']);
    C.line(`${method} ${url} to ${target}`);
    const out = (await raw(S.port, `${method} ${url} HTTP/1.1\r\nhost: x\r\nx-case: ${C.k}\r\nconnection: close\r\n${method === 'POST' ? 'content-length: 1\r\n\r\nx' : '\r\n'}`)).toString('latin1');
    this.plans.delete(C.k);
    C.inc('proxy_outside_attempts');
    const base = new URL(target).pathname;
    for (const h of p.hits) {
      C.inc('proxy_outside_forwarded');
      if (!h.url.startsWith(base + '/') && h.url !== base) C.viol('C25', 'proxy-outside', `${method} ${url} reached ${h.url} of the target, outside of ${base}`);
    }
    if (!/^HTTP\/1\.[01] \d+/.test(out)) C.viol('C25', 'no-answer', `${url}: no answer (${out.length} bytes)`);
    else C.inc('proxy_outside_status_' + out.slice(9, 12));
    C.nontrivial = true; C.h = hash(url);
  },
  async proxy(C, env, S) {
    const r = C.r;
    const [prefix, target] = r.pick(S.cfg.proxy);
    const p = { hits: [], status: r.pick([200, 200, 200, 201, 202, 203, 400, 401, 403, 404, 409, 418, 422, 500, 502, 503]), headers: {}, delay: r.chance(70) ? 0 : r.below(30), chunked: r.chance(40) ? r.range(1, 40) : 0, mode: r.chance(94) ? 'ok' : r.pick(['close', 'cut']) };
    const ct = r.pick(['application/json', 'text/plain', 'text/html; charset=utf-8', 'image/png', 'application/octet-stream', 'text/event-stream', null]);
    if (ct) p.headers['content-type'] = ct;
    if (r.chance(30)) p.headers['set-cookie'] = ['a=1; Path=/', 'b=2'];
    if (r.chance(30)) p.headers['x-answer'] = 'v' + r.below(100);
    if (r.chance(20)) p.headers['cache-control'] = r.pick(['no-store', 'max-age=5']);
    if (r.chance(20)) p.headers.etag = '"e1"';
    p.body = Buffer.from(ct === 'application/json' ? JSON.stringify({ a: rtext(r), n: r.below(1000) / 8, l: [null, true] }) : Array.from({ length: r.pick([0, 1, 10, 100, 5000]) }, () => r.below(256)));
    if (r.chance(1)) { p.body = Buffer.alloc(r.range(100000, 6000000), p.body.length ? p.body : 'q'); p.chunked &&= 50000; C.inc('proxied_large_answers') }
    if (r.chance(8)) { p.body = zlib.gzipSync(p.body); p.headers['content-encoding'] = 'gzip' }
    this.plans.set(C.k, p);
    // the rest of the path carries the number of the case
    let rest = '/__c' + C.k + '_';
    for (let n = r.below(4); n > 0; n--) rest += '/' + enc(r.pick(segs));
    if (r.chance(50)) { rest += '?' + enc(r.pick(qs)); while (r.chance(40)) rest += '&' + enc(r.pick(qs)) } else if (r.chance(10)) rest += '?';
    const exact = r.chance(5);
    const method = exact || r.chance(50) ? 'POST' : 'GET';
    if (exact) rest = '';
    const o = { method, headers: {} };
    if (method === 'POST') {
      o.headers['x-case'] = String(C.k);
      const b = r.below(6), text = rtext(r);
      if (b === 0) o.body = Buffer.alloc(0);
      else if (b < 3) { o.body = Buffer.from('{ "z":  1.0, "a" :[1,2 ], "t":' + JSON.stringify(text) + ',\n "big": 12345678901234567890 }'); o.headers['content-type'] = r.pick(['application/json', 'application/json; charset=utf-8', 'application/vnd.api+json']) }
      else if (b === 3) { o.body = Buffer.from(Array.from({ length: r.pick([3, 1000, 100000]) }, () => r.below(256))); o.headers['content-type'] = 'application/octet-stream' }
      else if (b === 4) { o.body = Buffer.from('a=1&b=%20&c=' + encodeURIComponent(text)); o.headers['content-type'] = 'application/x-www-form-urlencoded' }
      else { o.body = Buffer.from(text); if (r.chance(50)) o.headers['content-type'] = 'text/plain' }
      if (r.chance(2)) { o.body = Buffer.alloc(r.range(100000, 6000000), o.body.length ? o.body : 'q'); C.inc('proxied_large_bodies') }
      if (r.chance(30)) { o.chunks = []; for (let i = 0; i < o.body.length;) { const n = r.range(1, Math.max(1, o.body.length >> 1)); o.chunks.push(o.body.subarray(i, i + n)); i += n } }
      else o.headers['content-length'] = o.body.length;
      if (r.chance(40)) o.headers.authorization = 'Bearer ' + r.below(1000);
      if (r.chance(40)) o.headers['x-custom'] = 'some text';
      if (r.chance(30)) o.headers.cookie = 'k=v; l=w';
    }
    const url = prefix + rest;
    C.line(`${method} ${url} to ${target} ${JSON.stringify(o.headers)} ${o.chunks ? 'chunks ' + o.chunks.map(c => c.length) : ''} ${o.body ? o.body.subarray(0, 300).toString('latin1') : ''}`);
    C.line(`answer ${p.mode} ${p.status} ${JSON.stringify(p.headers)} chunked ${p.chunked} ${p.body.length} bytes`);
    const res = await request(S.port, url, o);
    this.plans.delete(C.k);
    const V = (s, m) => C.viol('C25', s, `${method} ${url}: ${m}`);
    C.nontrivial = true; C.h = hash(url + JSON.stringify(o.headers) + p.status + p.body.length);
    if (res.error) return V('proxy-no-answer', `no answer: ${res.error}`);
    C.inc('proxied_' + method);
    const dead = prefix === '/dead';
    if (dead || p.mode !== 'ok') { if (res.status < 500) V('proxy-failure', `the target failed but the answer has status ${res.status}`); C.inc('proxied_failing'); if (dead) return }
    if (p.hits.length !== 1 && !(p.mode !== 'ok' && p.hits.length > 0)) return V('proxy-hits', `reached the target ${p.hits.length} times`);
    const h = p.hits[0], want = new URL(target + (rest.startsWith('/') ? rest : '/' + rest));
    if (h.method !== method) V('proxy-method', `arrived as ${h.method}`);
    if (h.url !== want.pathname + want.search && h.url.replace(/\?$/, '') !== want.pathname + want.search) V('proxy-path', `arrived at ${h.url} instead of ${want.pathname + want.search}`);
    if (method === 'POST') {
      if (!h.body.equals(o.body)) V('proxy-body', `arrived with body ${cut(h.body.toString('latin1'))} instead of ${cut(o.body.toString('latin1'))}`);
      for (const n of ['content-type', 'authorization', 'x-custom', 'cookie']) if (h.headers[n] !== o.headers[n]) V('proxy-header', `header ${n} arrived as ${h.headers[n]} instead of ${o.headers[n]}`);
      C.inc('proxied_bytes', h.body.length);
    } else if (h.body.length) V('proxy-body', 'a get arrived with a body');
    if (p.mode !== 'ok') return;
    if (res.status !== p.status) V('proxy-status', `status ${res.status} instead of ${p.status}: ${cut(res.body.toString('latin1'))}`);
    if (!res.body.equals(p.body)) V('proxy-answer', `answer of ${res.body.length} bytes differs from the ${p.body.length} of the target: ${cut(res.body.toString('latin1'))}`);
    for (const n of ['content-type', 'set-cookie', 'x-answer', 'cache-control', 'etag', 'content-encoding']) if (JSON.stringify(res.headers[n]) !== JSON.stringify(p.headers[n])) V('proxy-answer-header', `header ${n} is ${JSON.stringify(res.headers[n])} instead of ${JSON.stringify(p.headers[n])}`);
    C.inc('proxied_answers'); if (p.chunked) C.inc('proxied_chunked');
  },
};
