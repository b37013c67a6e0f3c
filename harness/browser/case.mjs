// One case: a fresh browser, a fresh instance of the application, the real driver script.
import { makeBrowser, micro, runScript } from './browser.mjs';
import { Rng } from './rng.mjs';
export class Case {
  constructor(env, seed, k, variant) {
    Object.assign(this, { env, seed, k, variant });
    this.r = new Rng(seed, k);
    this.log = []; this.viols = []; this.counters = {}; this.lines = []; this.states = new Set(); this.nontrivial = false; this.h = 0;
  }
  viol(prop, sig, msg) { if (this.viols.length < 20) this.viols.push({ prop, sig, msg: String(msg).slice(0, 1500) }); }
  inc(k, n = 1) { this.counters[k] = (this.counters[k] || 0) + n; }
  trace(s) { if (this.lines.length < 400) this.lines.push(`@${this.B ? this.B.clock.now - this.B.clock.start : 0} ${s}`.slice(0, 400)); }
  mix(s) { s = String(s); for (let i = 0; i < s.length; i++) this.h = (Math.imul(this.h, 31) + s.charCodeAt(i)) | 0; this.states.add(this.h); }
  async boot(o = {}) {
    const B = this.B = makeBrowser({ module: this.env.module, wasmUrl: '/build/app.wasm', tz: o.tz ?? -60, ...o });
    B.onLog = j => { this.log.push({ t: B.clock.now, j }); if (j[0] === 'VPALLOC') this.viol('*', 'alloc:' + j[1], `guest allocator: ${j.join(' ')}`); this.onLog?.(j); };
    o.page?.(B);
    const s = B.mk('script');
    s.setAttribute('data-vertigo-run-wasm', '/build/app.wasm');
    B.document.body.appendChild(s);
    this.prepare?.(B);
    runScript(B, this.env.bundles[this.variant]);
    if (o.noLoad) { await this.run(B.clock.now + 3000); } else {
      B.window.$fire(new B.Event('load'));
      for (let i = 0; i < 6; i++) await micro();
    }
    if (!B.inst) throw new Error('the driver did not start the module: ' + JSON.stringify(B.errors.map(String)) + B.uncaught.map(String));
    B.started = true;
    this.check();
    return B;
  }
  // a command to the application, in the middle of a task of the page
  cmd(...a) {
    const t = new TextEncoder().encode(JSON.stringify(a)), ex = this.B.inst.exports;
    if (this.dead) return;
    this.inc('commands');
    const p = ex.vp_alloc(t.length);
    new Uint8Array(ex.memory.buffer, p, t.length).set(t);
    try { ex.vp_cmd(p, t.length); } catch (e) { this.B.uncaught.push(e); }
    this.check();
  }
  ask(...a) { const n = this.log.length; this.cmd(...a); return this.log.slice(n).map(x => x.j); }
  // anything a user would see in the console as a crash ends the case
  check() {
    const B = this.B;
    for (const p of B.panics.splice(0)) { if (this.okPanic?.(p)) continue; this.viol('*', 'panic', 'the application panicked: ' + p); this.dead = true; }
    for (const e of B.uncaught.splice(0)) { if (this.okUncaught?.(e)) continue; this.viol('*', e instanceof WebAssembly.RuntimeError ? 'trap' : 'uncaught', 'uncaught exception: ' + (e?.stack || e).toString().slice(0, 600)); if (e instanceof WebAssembly.RuntimeError) this.dead = true; }
    for (const b of B.exchange.bad.splice(0)) this.viol('C15', 'exchange', b);
    for (const e of B.errors.splice(0)) {
      const t = e.map(x => (x instanceof Error ? x.message : typeof x === 'object' ? safe(x) : String(x))).join(' ');
      if (this.okError?.(t, e)) continue;
      if (/^bulk_update/.test(t)) { this.viol('C21', 'update-rejected', 'the page rejected an update: ' + t); this.viol('C08', 'update-rejected', 'the page rejected an update: ' + t); }
      else this.viol('*', 'console-error', 'unexpected error message: ' + t.slice(0, 600));
    }
  }
  async run(until) {
    const c = this.B.clock;
    await micro();
    for (let n = 0; c.next !== undefined && c.next <= until; n++) {
      if (n > 20000) { this.viol('*', 'busy', 'the page never becomes idle: more than 20000 tasks'); break; }
      c.step(); await micro(); this.check();
      if (this.dead) return;
    }
    if (c.now < until) c.now = until;
  }
  // the same round again and again must not keep memory (C15)
  async plateau(sig, counter, round) {
    const seen = [];
    for (let i = 0; i < 24 && !this.dead; i++) { await round(i); this.log.length = 0; seen.push(this.ask('live')[0][1]); this.log.length = 0; }
    if (this.dead) return;
    this.inc(counter);
    if (Math.min(...seen.slice(18)) > Math.max(...seen.slice(3, 12))) this.viol('C15', sig, `guest memory grows with every round: ${seen}`);
  }
  async settle() { await this.run(this.B.clock.now); }
  async adv(ms) { await this.run(this.B.clock.now + ms); }
}
export function safe(x) { try { return JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v + 'n' : v); } catch { return '[object]'; } }
export const eq = (a, b) => {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') return Object.is(a, b) || (a !== a && b !== b);
  if (!a || !b || typeof a !== 'object' || typeof b !== 'object') return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && eq(a[k], b[k]));
};
