import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { Case } from './case.mjs';
const here = path.dirname(new URL(import.meta.url).pathname);
const MON = ['async', 'net', 'cache', 'ws', 'route', 'page', 'values', 'host'];
if (isMainThread) {
  const a = process.argv.slice(2), o = { monitor: a[0], threads: 8, cases: 100, secs: 20, seed: 1, out: '-', case: -1, prop: '' };
  for (let i = 1; i < a.length; i += 2) o[a[i].slice(2)] = /^(threads|cases|secs|seed|case)$/.test(a[i].slice(2)) ? Number(a[i + 1]) : a[i + 1];
  const module = new WebAssembly.Module(fs.readFileSync(o.wasm));
  const bundles = { shipped: fs.readFileSync(o.shipped, 'utf8'), source: fs.readFileSync(o.source, 'utf8') };
  const tot = { evaluations: 0, distinct_nontrivial: 0, distinct_states: 0, counters: {}, samples: [], harness_errors: [], failures: [] };
  const distinct = new Set(), states = new Set();
  const n = o.case >= 0 ? 1 : o.threads;
  let left = n;
  const fin = () => {
    tot.distinct_nontrivial = distinct.size; tot.distinct_states = states.size;
    const per = {};
    tot.failures = tot.failures.filter(f => f.viols.some(v => (per[v.prop + v.sig] = (per[v.prop + v.sig] || 0) + 1) <= 4)).slice(0, 200);
    const t = JSON.stringify(tot, null, 1);
    if (o.out === '-') {
      for (const f of tot.failures) { console.log('case', f.case); for (const l of f.trace) console.log('   ', l); for (const v of f.viols) console.log('  VIOL', v.prop, v.sig, v.msg); }
      console.log(JSON.stringify({ ...tot, failures: tot.failures.length, samples: undefined }));
      if (o.case >= 0) process.exit(tot.failures.length ? 1 : 0);
    } else fs.writeFileSync(o.out, t);
    process.exit(0);
  };
  // a case takes milliseconds: one that is still the same after this many seconds never ends
  const ws = [];
  setInterval(() => {
    for (const w of ws) if (w.at !== undefined && !w.done && ++w.same >= 90) {
      tot.failures.push({ case: w.at, viols: [{ prop: '*', sig: 'hang', msg: `case ${w.at} does not end: still running after ${w.same} s` }], trace: [] });
      fin();
    }
  }, 1000).unref();
  for (let i = 0; i < n; i++) {
    const w = new Worker(new URL(import.meta.url), { workerData: { o, i, n, module, bundles } });
    w.on('message', m => {
      if (m.at !== undefined) { w.at = m.at; w.same = 0; return; }
      w.done = true;
      tot.evaluations += m.evaluations;
      for (const k in m.counters) tot.counters[k] = (tot.counters[k] || 0) + m.counters[k];
      if (tot.samples.length < 4) tot.samples.push(...m.samples.slice(0, 1));
      tot.failures.push(...m.failures);
      tot.harness_errors.push(...m.errors);
      for (const d of m.distinct) distinct.add(d);
      for (const d of m.states) states.add(d);
    });
    ws.push(w);
    w.on('error', e => { tot.harness_errors.push('worker: ' + (e.stack || e)); });
    w.on('exit', () => { if (--left === 0) fin(); });
  }
} else {
  const { o, i, n, module, bundles } = workerData;
  const { mon } = await import(path.join(here, o.monitor + '.mjs'));
  const m = { evaluations: 0, counters: {}, samples: [], failures: [], errors: [], distinct: [], states: [] };
  const t0 = Date.now(), env = { module, bundles, profile: o.profile };
  const only = o.case >= 0;
  // rejections nobody handles: an error in the page's console
  const seen = {};
  let cur = null;
  process.on('unhandledRejection', e => { if (cur?.B) cur.B.uncaught.push(e); else m.errors.push('rejection: ' + (e?.stack || e)); });
  const merge = C => { for (const k in C.counters) m.counters[k] = (m.counters[k] || 0) + C.counters[k]; };
  for (let k = only ? o.case : i; only ? k === o.case : k < o.cases && (Date.now() - t0) / 1000 < o.secs; k += n) {
    // the shipped script and the one built from its sources; some cases run on both and must agree
    const variants = k % 4 === 0 ? ['shipped', 'source'] : [k % 2 ? 'shipped' : 'source'];
    const runs = [];
    for (const v of variants) {
      parentPort.postMessage({ at: k });
      const C = cur = new Case(env, o.seed, k, v);
      try { await mon.run(C); if (C.B) C.check(); } catch (e) { C.viol('*', 'lost-track', `the execution could not be followed any further: ${e.stack || e}`); }
      if (C.B) for (const e in C.B.ev) C.inc('host_' + e, C.B.ev[e]);
      C.inc('guest_log_lines', C.log.length); C.inc('exchanges', (C.B?.exchange.allocs || 0));
      C.inc('runs_' + v);
      merge(C); runs.push(C);
    }
    if (runs.length === 2 && !runs[0].viols.length && !runs[1].viols.length) {
      const f = C => JSON.stringify(C.log.filter(l => !/^(live|rnd)$/.test(l.j[0])).map(l => [l.t, l.j])) + JSON.stringify((C.B?.requests || []).map(q => [q.time, q.method, q.url, q.headers]));
      m.counters.scripts_compared = (m.counters.scripts_compared || 0) + 1;
      const [x, y] = runs.map(f);
      if (x !== y) {
        let d = 0; while (x[d] === y[d]) d++;
        runs[0].viol('C21', 'bundle-differs', `the shipped script and its sources behave differently: shipped ...${x.slice(Math.max(0, d - 80), d + 120)}, source ...${y.slice(Math.max(0, d - 80), d + 120)}`);
      }
    }
    for (const C of runs) {
      if (!C.viols.length) continue;
      // a few witnesses of each kind
      const fresh = C.viols.some(v => (seen[v.prop + v.sig] = (seen[v.prop + v.sig] || 0) + 1) <= 3);
      if (fresh) { m.failures.push({ case: k, viols: C.viols, trace: [`script: ${C.variant}`, ...C.lines] }); }
    }
    const C = runs[0];
    m.evaluations++;
    if (C.nontrivial) m.distinct.push(C.h);
    if (m.states.length < 20000) for (const s of C.states) m.states.push(s);
    if (m.samples.length < 2 && C.nontrivial) m.samples.push({ case: k, trace: C.lines.slice(0, 12) });
    if (m.failures.length > 60 || m.errors.length > 5) break;
  }
  parentPort.postMessage(m);
}
