// The server monitors: `vertigo serve` (the real binary, rendering the compiled application) under
// generated pages, crashes, loads from an upstream, static files, plain answers and proxies.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { Rng } from '../browser/rng.mjs';
import { hash } from './common.mjs';
import { Server, Upstream, sleep } from './server.mjs';
const here = path.dirname(new URL(import.meta.url).pathname);
const a = process.argv.slice(2), o = { monitor: a[0], cases: 100, secs: 20, seed: 1, out: '-', case: -1, inflight: 24 };
for (let i = 1; i < a.length; i += 2) { const k = a[i].slice(2); o[k] = /^(threads|cases|secs|seed|case|inflight)$/.test(k) ? Number(a[i + 1]) : a[i + 1] }
const tot = { evaluations: 0, distinct_nontrivial: 0, distinct_states: 0, counters: {}, samples: [], harness_errors: [], failures: [] };
const distinct = new Set(), seen = {};
const inc = (k, n = 1) => { tot.counters[k] = (tot.counters[k] || 0) + n };
const env = {
  o, inc, tot, distinct, start: Date.now(), servers: [], count: 0, scratch: fs.mkdtempSync(path.join(os.tmpdir(), 'vpssr-')),
  left() { return o.secs * 1000 - (Date.now() - env.start) },
  async server(cfg) {
    const dest = path.join(env.scratch, 'd' + env.count++);
    fs.mkdirSync(dest);
    const files = { 'index.json': JSON.stringify({ run_js: cfg.run_js ?? '/build/run.js', wasm: cfg.wasm ?? '/build/app.wasm' }), 'run.js': 'console.log(1)\n', ...cfg.files };
    for (const k in files) { const f = path.join(dest, k); fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, files[k]) }
    fs.symlinkSync(o.wasm, path.join(dest, cfg.wasmfile ?? 'app.wasm'));
    const S = await Server.start({ exe: o.exe, dest, env: cfg.env, proxy: cfg.proxy, watch: cfg.watch });
    Object.assign(S, { dest, env: cfg.env || [], run_js: cfg.run_js ?? '/build/run.js', wasm: cfg.wasm ?? '/build/app.wasm', cfg, files });
    env.servers.push(S);
    return S;
  },
};
class Case {
  constructor(k) { this.k = k; this.r = new Rng(o.seed, k); this.viols = []; this.lines = []; this.h = ''; this.nontrivial = false }
  viol(prop, sig, msg) { if (this.viols.length < 8) this.viols.push({ prop, sig, msg: String(msg).slice(0, 1200) }) }
  line(s) { if (this.lines.length < 80) this.lines.push(s.slice(0, 2500)) }
  inc(k, n = 1) { inc(k, n) }
}
function record(C) {
  tot.evaluations++;
  if (C.nontrivial) distinct.add(C.h || hash(C.lines.join()));
  if (tot.samples.length < 4 && C.nontrivial) tot.samples.push({ case: C.k, trace: C.lines.slice(0, 8).map(l => l.slice(0, 600)) });
  if (C.viols.length) { const fresh = C.viols.some(v => (seen[v.prop + v.sig] = (seen[v.prop + v.sig] || 0) + 1) <= 4); if (fresh) tot.failures.push({ case: C.k, viols: C.viols, trace: C.lines.map(l => l.slice(0, 8000)) }) }
}
function finish(code) {
  for (const s of env.servers) s.stop();
  fs.rmSync(env.scratch, { recursive: true, force: true });
  tot.distinct_nontrivial = distinct.size; tot.distinct_states = distinct.size;
  if (o.out === '-') {
    for (const f of tot.failures) { console.log('case', f.case); for (const l of f.trace) console.log('   ', l); for (const v of f.viols) console.log('  VIOL', v.prop, v.sig, v.msg) }
    console.log(JSON.stringify({ ...tot, failures: tot.failures.length, samples: undefined }));
    process.exit(tot.failures.length ? 1 : 0);
  }
  fs.writeFileSync(o.out, JSON.stringify(tot, null, 1));
  process.exit(code);
}
process.on('unhandledRejection', e => tot.harness_errors.push('rejection: ' + (e?.stack || e)));
setTimeout(() => { tot.harness_errors.push('the monitor did not finish in time'); finish(0) }, (o.secs + 200) * 1000).unref();
let mon;
try {
  ({ mon } = await import(path.join(here, o.monitor + '.mjs')));
  env.U = await Upstream.start();
  await mon.setup(env);
  env.start = Date.now();
  const only = o.case >= 0;
  let next = only ? o.case : 0;
  const loaded = [];
  const one = async () => {
    while (only ? next === o.case : next < o.cases && env.left() > 0 && tot.failures.length < 40 && tot.harness_errors.length < 6) {
      const k = next++, C = new Case(k);
      try { await mon.run(C, env) } catch (e) { tot.harness_errors.push(`case ${k}: ${e.stack || e}`.slice(0, 1500)) }
      if (C.viols.length && C.slowest > 5000 && !only) { loaded.push(C); continue }
      record(C);
    }
  };
  await Promise.all(Array.from({ length: only ? 1 : o.inflight }, one));
  // an answer that took long may have been cut off by the time limit of the server because the
  // machine was busy: what differed there counts if it differs also when asked alone
  for (const C of loaded.splice(8)) record(Object.assign(C, { viols: [] })), inc('slow_not_rechecked');
  for (const C of loaded) {
    const D = new Case(C.k);
    try { await mon.run(D, env) } catch (e) { tot.harness_errors.push(`case ${C.k}: ${e.stack || e}`.slice(0, 1500)) }
    inc('slow_rechecked_alone');
    record(D);
  }
  for (const S of env.servers) {
    // the server survives everything that was asked of it
    const C = new Case(-1);
    if (S.exited !== null) C.viol(mon.prop || 'C24', 'server-ended', `the server ended (${S.exited}): ${S.log.join('').slice(-800)}`);
    if (C.viols.length) record(C), tot.evaluations--;
    inc('server_thread_panics', S.panics); for (const k in S.panicAt) inc('server_panic ' + k, S.panicAt[k]);
  }
  if (mon.end) { const C = new Case(-1); await mon.end(C, env); if (C.viols.length) { record(C); tot.evaluations-- } }
} catch (e) {
  // a server that ends by itself each time it is started, for a sound build, serves nothing
  if (typeof e.ended === 'number' && mon) { const C = new Case(-1); C.viol(mon.prop, 'server-start', `the server ended with ${e.ended} when it was started: ${e.log}`); record(C); tot.evaluations-- }
  else tot.harness_errors.push(String(e.stack || e).slice(0, 3000));
}
finish(0);
