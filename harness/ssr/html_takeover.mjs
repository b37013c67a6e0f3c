// C31: the page the server sent, opened in a browser: it stays until the loads of the start are
// finished, then the application's own view stands in its place, the same page again, and lives.
import fs from 'node:fs';
import { makeBrowser, micro, runScript } from '../browser/browser.mjs';
import { makePage, ask, hash, expect } from './common.mjs';
import { Model, Compare, generated } from './pages.mjs';
import { parse } from './html.mjs';
const P31 = 'C31';
const HT = 'http://www.w3.org/1999/xhtml';
// the document as the browser's parser would leave it
function build(B, root) {
  const put = (l, to) => { for (const k of l) if (k.tag) { const e = k.tag === 'svg' || k.tag === 'path' ? B.document.createElementNS('http://www.w3.org/2000/svg', k.tag) : B.mk(k.tag); for (const [n, v] of k.attrs) e.setAttribute(n, v); put(k.kids, e); to.appendChild(e) } else to.appendChild(new B.Text(k.text)) };
  const html = root.kids.find(k => k.tag === 'html'), doc = B.document.documentElement;
  for (const [n, v] of html.attrs) doc.setAttribute(n, v);
  for (const part of html.kids.filter(k => k.tag)) {
    const e = part.tag === 'head' ? B.document.head : B.document.body;
    for (const [n, v] of part.attrs) e.setAttribute(n, v);
    put(part.kids, e);
  }
}
const shot = n => n.nodeType === 3 ? JSON.stringify(n.textContent) : n.nodeType === 8 ? '!' : `<${n.localName}${[...n.$attrs].map(([k, v]) => ` ${k}=${JSON.stringify(v)}`).join('')}>${n.childNodes.map(shot).join('')}</>`;
const tree = n => n.nodeType === 3 ? { text: n.textContent } : { el: n, tag: n.localName.toLowerCase(), attrs: new Map([...n.$attrs].map(([k, v]) => [k.toLowerCase(), v])), kids: n.childNodes.filter(k => k.nodeType !== 8).map(tree) };
// the document against the model; [] when equal
function differences(C, B, m, S) {
  const c = new Compare(), html = tree(B.document.documentElement), head = tree(B.document.head), body = tree(B.document.body);
  c.rules = new Map();
  for (const k of head.kids.filter(generated)) c.rule(k.kids[0].text);
  const env = new Map(); for (const [k, v] of S.env || []) env.set('data-env-' + k.toLowerCase(), v);
  c.attrs(c.el('html', m.spec[0], m), html, 'html', env);
  c.kids(m.evl(m.spec[1]), head.kids.filter(k => !generated(k)), 'head', true);
  c.attrs(c.el('body', m.spec[2][0], m), body, 'body');
  const want = m.body();
  c.kids(want, body.kids, 'body', true);
  C.inc('nodes_compared', c.n.nodes); C.inc('texts_compared', c.n.texts); C.inc('attrs_compared', c.n.attrs);
  return { bad: c.bad, want, body };
}
// the cached loads of the first view
function held(m) {
  const l = [], ev = m.ev.bind(m);
  m.ev = n => {
    if (n[0] !== 'ld') return ev(n);
    if (n[2] === 'cache') l.push(n[1]);
    return [];
  };
  m.evl(m.spec[1]); m.body();
  return l;
}
export const mon = {
  prop: P31,
  async setup(env) {
    env.module = new WebAssembly.Module(fs.readFileSync(env.o.wasm));
    env.bundles = [fs.readFileSync(env.o.shipped, 'utf8'), fs.readFileSync(env.o.source, 'utf8')];
    await Promise.all([
      env.server({}),
      env.server({ env: [['api', 'http://x/?a=1&b="2"'], ['quote', `<'">&amp; ż😀`], ['EMPTY', ''], ['Upper', 'U'], ['api_url', 'u_1'], ['a-b', 'd-1'], ['n.m', 'p.1'], ['x1', '2'], ['_x', '_'], ['APP_KEY', 'K']], run_js: '/b/c/run.abc.js', wasm: '/b/c/app.wasm' }),
    ]);
    // an error nobody handles is the page's
    env.lost = [];
    process.removeAllListeners('unhandledRejection');
    process.on('unhandledRejection', e => { env.lost.push(String(e?.stack || e)) });
  },
  async run(C, env) {
    const r = C.r, S = r.pick(env.servers), quiet = r.chance(50);
    const P = makePage(C, env, S, {
      nodes: r.pick([8, 20, 40]), loads: r.chance(85), clean: true, odd: false,
      spec: g => {
        const s = g.page();
        if (quiet) s[4] = [];
        if (r.chance(85)) s[2][1].push(...Array.from({ length: r.range(1, 3) }, () => g.load(1, false)));
        return s;
      },
    });
    const res = await ask(C, P);
    for (const p of P.g.plans) env.U.plans.delete(P.pid + '/' + p.id);
    env.U.byPage.delete(P.pid);
    if (res.error || res.status !== 200) { C.viol('C24', 'no-answer', `no page: ${res.error || res.status}`); return }
    const { root, errors } = parse(res.body.toString('utf8'));
    if (errors.length) { C.viol('C22', 'malformed', errors[0]); return }
    // ---- the browser
    const V = (s, m) => C.viol(P31, s, m);
    const lone = r.chance(20), slowwasm = r.chance(15) ? r.pick([100, 2999, 3000, 3500, 9000]) : 0;
    const B = makeBrowser({ module: env.module, wasmUrl: S.wasm, tz: -60, url: 'http://site.test' + P.target, streaming: r.pick([true, true, false, 'fail']), wasmDelay: slowwasm });
    B.onLog = () => { };
    build(B, root);
    if (r.chance(10)) { const s = B.mk('link'); s.setAttribute('data-vertigo-run-wasm', S.wasm); B.document.head.appendChild(s); C.inc('named_twice') }
    const served = [...B.document.head.childNodes, ...B.document.body.childNodes];
    const before = shot(B.document.documentElement);
    C.inc('pages_opened'); C.inc('served_nodes', served.length);
    const ctx = { url: P.target, env: S.env, browser: true };
    const first = new Model([P.spec[0], P.spec[1], P.spec[2], P.spec[3], [], null], P.g.plans, ctx);
    const N = held(first), need = new Map();
    for (const q of N) { const id = /\/u\/[^/]+\/([^/?]+)/.exec(q[1])[1]; need.set(id, (need.get(id) || 0) + 1) }
    const done = new Map();
    let out = 0, hung = 0;
    const hang = N.length && r.chance(8) ? r.pick([...need.keys()]) : null;
    const delays = new Map(P.g.plans.map(p => [p.id, r.pick([0, 0, 1, 3, 10, 40, 4000])]));
    B.onRequest = rq => {
      const id = /\/u\/[^/]+\/([^/?]+)/.exec(rq.url)?.[1], p = P.g.plans.find(p => p.id === id);
      if (!p) { V('unknown-load', `a request nobody declared: ${rq.method} ${rq.url}`); return }
      C.inc('loads_received'); out++;
      if (rq.method !== p.req[0] || rq.url !== new URL(p.req[1]).href) V('load', `load ${JSON.stringify(p.req)} was sent as ${rq.method} ${rq.url}`);
      if (id === hang) { hung++; return }
      const go = () => {
        done.set(id, (done.get(id) || 0) + 1); out--;
        if (p.dead) rq.fail('refused'); else rq.answer({ status: p.status, headers: p.ct ? { 'content-type': p.ct } : {}, bytes: new Uint8Array(p.body) });
      };
      delays.get(id) ? B.clock.at(B.clock.now + delays.get(id), go) : go();
    };
    const finished = () => [...need].every(([id, n]) => (done.get(id) || 0) >= n);
    const pure = quiet && !/"(fetch|nap)"/.test(JSON.stringify(P.spec)) && !/"ld\\*"/.test(JSON.stringify(P.g.plans.map(p => p.json ?? null)));
    const last = () => new Model([...P.spec.slice(0, 5), null], P.g.plans, ctx);
    let taken = null, started = false, bad = false;
    const look = () => {
      for (const p of B.panics.splice(0)) { C.viol('*', 'panic', 'the application panicked: ' + p); bad = true }
      for (const e of B.uncaught.splice(0)) { C.viol('*', 'uncaught', 'uncaught exception: ' + (e?.stack || e)); bad = true }
      for (const e of B.errors.splice(0)) { const t = e.map(x => x instanceof Error ? x.message : String(x)).join(' '); if (!/fetch|No match found|Missing value|Error in|Expected/i.test(t)) V('console-error', 'unexpected error message: ' + t.slice(0, 400)) }
      if (bad || taken !== null) return;
      const now = shot(B.document.documentElement);
      if (now === before && served.every(n => n.parentNode)) {
        C.inc('looks_before');
        if (started && !N.length) { V('late', `nothing is loaded at the start, but ${B.clock.now - t0} ms after the start the served page is still there`); bad = true }
        return;
      }
      taken = B.clock.now - t0;
      C.inc('takeovers'); if (N.length) C.inc('takeovers_after_loads');
      if (!started) V('early', 'the served page changed before the application was started');
      if (!finished()) V('early', `the served page was replaced before the loads of the start were finished: ${JSON.stringify([...need])} declared, ${JSON.stringify([...done])} answered`);
      const left = served.filter(n => n.parentNode);
      if (left.length) V('served-left', `a ${left[0].localName || 'text'} of the served page is still there after the application took over`);
      if (pure && hang === null) { // nothing else can happen: the first view is the final one
        C.inc('single_steps');
        const d = differences(C, B, last(), S);
        for (const [, m] of d.bad.slice(0, 2)) V('partial', 'the first view the application showed: ' + m);
      }
    };
    const t0 = B.clock.now;
    const run = async until => {
      await micro(); look();
      for (let n = 0; !bad && B.clock.next !== undefined && B.clock.next <= until; n++) {
        if (n > 5000) { V('busy', 'the page never becomes idle'); bad = true; break }
        B.clock.step(); await micro();
        if (!started && B.inst) { for (let i = 0; i < 4; i++) await micro(); started = true }
        look();
      }
      if (B.clock.now < until) B.clock.now = until;
    };
    runScript(B, env.bundles[C.k % 2]);
    if (!lone) B.window.$fire(new B.Event('load'));
    for (let i = 0; i < 6; i++) await micro();
    if (B.inst) started = true;
    C.line(`opened: ${lone ? 'without a load event' : 'load event'}, module after ${slowwasm} ms, held by ${JSON.stringify([...need])}, delays ${JSON.stringify([...delays])}${hang ? ', never answered: ' + hang : ''}`);
    await run(t0 + 60000);
    if (bad) return;
    if (B.ev.instantiations !== 1) { V('started', `the module was started ${B.ev.instantiations || 0} times`); return }
    if (hang !== null) {
      // the visitor keeps the page they got
      if (taken !== null && !finished()) V('early', 'the served page was replaced although a load of the start was never answered');
      C.inc('pages_kept'); return;
    }
    if (out > 0) throw new Error('unanswered loads');
    if (taken === null && before !== shot(B.document.documentElement)) throw new Error('not seen');
    if (taken === null) {
      // an application whose view is nothing but what was served (an empty page) leaves no trace but its nodes
      V('late', `a minute after the start and after its last load the served page is still there`); return;
    }
    let m = last(), d = differences(C, B, m, S);
    for (const [s, x] of d.bad) V(s, 'after the start, ' + x);
    // and it lives: handlers of the page work
    const on = [];
    const walk = (w, a) => { w = w.filter(x => x.tag); a = a.filter(x => x.tag); for (let i = 0; i < Math.min(w.length, a.length); i++) { if (w[i].on?.length === 1) on.push([w[i].on, a[i].el]); walk(w[i].kids, a[i].kids) } };
    if (!d.bad.length) {
      walk(d.want, d.body.kids);
      if (on.length) {
        const [vs, el] = r.pick(on);
        el.$fire(Object.assign(new B.Event('click'), { target: el }));
        for (let i = 0; i < 3; i++) await micro();
        await run(B.clock.now + 60000);
        m = last(); for (const v of vs) m.vals.set(v, 'clicked');
        C.inc('clicks');
        const e = differences(C, B, m, S);
        if (!bad) for (const [s, x] of e.bad) V('dead', 'after a click on the page, ' + x);
      }
      C.nontrivial = served.length > 3; C.h = hash(P.target);
    }
    for (const e of env.lost.splice(0)) V('uncaught', 'unhandled: ' + e.slice(0, 500));
  },
};
