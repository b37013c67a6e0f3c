// Generated pages: a specification the application renders, and an executable statement of the
// document it declares once its zero-time work and its loads are finished.
import { parse } from './html.mjs';
const BITS = ['a', 'b c', '<', '>', '&', '"', "'", '/', '&amp;', '&lt', '&copy', '&notit;', '&#65;', '&#x41', '<b>', '</div>', '<!--', '-->', ']]>', '\n', '\t', '\r', '\r\n', ' ', '  ', 'ż', '😀', '\u00a0', '\u2028', '\u0085', '\ufeff', '=', '`', '{', '}', '\\', '%3C', '\u200d', '\f', '\u0001', 'script', '</script>', '</style>', '</SCRIPT>', '</Style ', '~', '@', '#', ';'];
export function rtext(r, opt = {}) {
  if (r.chance(10)) return '';
  if (r.chance(30)) return 'w' + r.below(1000);
  let t = '';
  for (let n = r.range(1, 6); n > 0; n--) t += r.pick(BITS);
  if (opt.raw) t = t.replace(/<!--/g, '').replace(/-->/g, '').replace(/\r/g, '');
  if (opt.sane) t = t.replace(/[\r\f]/g, '');
  return t;
}
const NAMES = ['title', 'data-a', 'data-b-c', 'id', 'aria-label', 'href', 'lang', 'value', 'alt'];
const PHR = ['span', 'b', 'em', 'i', 'label', 'code'];
const FLOW = ['div', 'section', 'article', 'main', 'blockquote', 'header'];
const COLORS = ['red', 'blue', 'green', 'black'];
export class Gen {
  constructor(r, U, pid, o) { this.r = r; this.U = U; this.pid = pid; this.o = o; this.nplans = 0; this.left = o.nodes || 25; this.plans = []; this.reqs = []; this.vals = 4; this.bare = false }
  css() { return `${this.r.pick(['color', 'width', 'margin'])}: ${this.r.pick(COLORS)}${this.r.below(4)}` }
  attrs(max = 3) {
    const r = this.r, l = [];
    for (let n = r.below(max + 1); n > 0; n--) {
      const k = r.below(7), name = r.pick(NAMES);
      if (k < 3) l.push([name, 's', rtext(r)]);
      else if (k === 3) l.push([name, 'v', r.below(this.vals)]);
      else if (k === 4) l.push([name, 'c', r.below(this.vals)]);
      else if (k === 5) l.push([name, 'o', r.below(this.vals)]);
      else l.push(['on', 'on', r.below(this.vals)]);
    }
    if (r.chance(15)) l.push(['class', 's', r.pick(['x', 'y z', 'q-1'])]);
    if (r.chance(25)) { const k = r.below(5); l.push(k === 0 ? ['css', 'css', this.css()] : k === 1 ? ['css', 'cssv', r.below(this.vals)] : ['css', ['cssn', 'cssm', 'cssk'][k - 2], r.pick(COLORS)]) }
    // one style per element, the order of the rest does not matter
    return l;
  }
  text() { return ['t', rtext(this.r)] }
  kids(depth, phr, n = this.r.below(4)) { const l = []; while (n-- > 0) l.push(this.node(depth + 1, phr)); return l }
  node(depth, phr) {
    const r = this.r;
    this.left--;
    if (depth > 5 || this.left <= 0) return this.text();
    const k = r.below(this.o.loads && depth < 4 ? 26 : 22);
    if (k < 5) return this.text();
    if (k < 7) return ['tv', r.below(this.vals)];
    if (k < 9) return ['e', r.pick(PHR), this.attrs(), this.kids(depth, true)];
    if (k === 9) return ['f', this.kids(depth, phr)];
    if (k === 10) return ['rv', r.below(this.vals), this.kids(depth, phr), this.kids(depth, phr)];
    if (k === 11) return ['ro', r.below(this.vals), this.kids(depth, phr)];
    if (k === 12) return ['l', r.below(2), 'span'];
    if (k === 13) { const x = r.below(6); return [['isb'], ['loc'], ['now'], ['cookie', 'c'], ['tz'], ['rand', r.below(5), 5 + r.below(5)]][x] }
    if (k === 14) return this.o.env?.length && r.chance(70) ? ['env', r.pick(this.o.env)[0]] : ['env', 'nothing'];
    if (k === 15) return ['e', r.pick(phr ? ['br', 'img', 'input', 'wbr'] : ['br', 'img', 'input', 'wbr', 'hr', 'embed', 'area', 'param', 'source', 'track']), this.attrs(), []];
    if (k >= 22) return this.load(depth, phr);
    if (phr) return ['e', r.pick(PHR), this.attrs(), [this.text()]];
    if (k === 16) { const raw = r.chance(50); return ['e', r.pick(['pre', 'textarea']), this.attrs(1).filter(a => !this.o.clean || a[0] !== 'value'), raw ? (r.chance(20) ? [] : [['t', (r.chance(30) ? '\n' : '') + rtext(r)]]) : [this.text()]] }
    if (k === 17) return ['e', 'ul', this.attrs(), [['e', 'li', this.attrs(), this.kids(depth, false)], ['l', r.below(2), 'li']]];
    if (k === 18) return r.chance(30)
      ? ['e', r.pick(['iframe', 'canvas', 'video', 'audio', 'object', 'button', 'progress', 'i']), this.attrs(1), []]
      : ['e', 'table', this.attrs(1), [...(r.chance(40) ? [['e', 'colgroup', [], [['e', 'col', this.attrs(1), []], ['e', 'col', [], []]]]] : []), ['e', 'tbody', [], [['e', 'tr', [], [['e', 'td', this.attrs(), this.kids(depth, false)], ['e', 'td', [], [this.text()]]]]]]]];
    if (k === 19) return r.chance(50) ? ['e', 'pre', [], [this.text(), ['e', 'b', [], [this.text()]], this.text()]] : ['e', 'svg', [['viewBox', 's', '0 0 1 1']], [['e', 'path', [['d', 's', rtext(r)]], []]]];
    if (k === 20) return r.chance(50) ? ['e', 'script', [['type', 's', 'application/json']], [['t', rtext(r, { raw: 1 })]]] : ['e', 'style', [], [['t', '/*' + rtext(r, { raw: 1 }) + '*/']]];
    if (k === 21) return ['e', 'p', this.attrs(), this.kids(depth, true)];
    return ['e', r.pick(FLOW), this.attrs(), this.kids(depth, false)];
  }
  elem(depth, phr) { const r = this.r; return ['e', r.pick(FLOW), this.attrs(), this.kids(depth, false, r.range(1, 5))] }
  plan(depth, phr, cache) {
    const r = this.r, id = 'p' + this.nplans++, o = this.o;
    const p = { id, status: 200, ct: 'application/json', delay: r.chance(50) ? 0 : r.pick([1, 2, 5, 10, 25]), chunked: r.chance(20), mode: 'ok' };
    const k = o.clean ? r.pick(cache ? [0, 1, 2, 3, 4, 5, 6, 9, 10] : [0, 1, 2, 3, 6, 10, 15]) : r.below(cache ? 12 : 16);
    if (o.hang && (r.chance(30) || !this.nplans)) p.mode = 'hang';
    // slow answers add up to less than the time a page has
    const acc = this.acc || 0;
    if (o.slow && r.chance(30)) { const d = r.pick([300, 1000, 3000, 6000]); if (acc + d < 8000) p.delay = d }
    if (this.force && p.mode === 'ok') { p.delay = this.force; this.force = 0 }
    if (k < 6) { // further nodes, which may load in turn
      this.acc = acc + p.delay;
      const s = this.kids(depth + 1, phr, r.range(1, 3));
      this.acc = acc;
      if (!o.clean) p.ct = r.pick(['application/json', 'application/json', 'application/json; charset=utf-8', ' Application/JSON ;x']);
      p.json = { s: JSON.stringify(s) };
    } else if (k === 6) { p.status = r.pick([400, 404, 500, 503]); p.json = { e: rtext(r, { sane: 1 }) } }
    else if (k === 7) { p.body = Buffer.from(r.pick(['', '{', '{"s":}', 'nul', '[1,]'])) }
    else if (k === 8) { if (p.mode === 'ok') p.mode = r.pick(['close', 'cut']); p.json = { s: '[]' } }
    else if (k === 9) { p.json = r.pick([{ s: 5 }, {}, [], null, { s: null }]) }
    else if (k === 10) { p.dead = 1; p.mode = 'dead'; p.body = Buffer.alloc(0) }
    else if (k === 11) { p.ct = 'text/plain'; p.body = Buffer.from('[["t","x"]]') }
    else if (k === 12) { p.ct = r.pick(['text/plain', 'text/plain; charset=utf-8', 'TEXT/plain']); p.body = Buffer.from(rtext(r)); p.status = r.pick([200, 201, 404]) }
    else if (k === 13) { p.ct = r.pick([null, 'application/octet-stream', 'text/html', 'image/png', 'application/ld+json', 'text/json', 'application/jsonp', 'text/csv', 'application/x-json']); p.body = Buffer.from(Array.from({ length: r.below(8) }, () => r.below(256))) }
    else if (k === 14) { p.ct = 'text/plain'; p.body = Buffer.from([0x61, 0xff, 0x62]) }
    else { p.json = this.json(0); p.status = r.pick([200, 200, 201, 422]) }
    if (p.json !== undefined) p.body = Buffer.from(JSON.stringify(p.json));
    this.plans.push(p);
    return p;
  }
  json(d) { const r = this.r, k = r.below(d > 2 ? 6 : 8); return k === 0 ? null : k === 1 ? r.chance(50) : k === 2 ? r.range(-1000, 1e6) : k === 3 ? r.pick([0.5, -1.25, 1e21, 1e-7, 12345678901234567890]) : k < 6 ? rtext(r) : k === 6 ? Array.from({ length: r.below(4) }, () => this.json(d + 1)) : Object.fromEntries(Array.from({ length: r.below(4) }, (_, i) => ['k' + i, this.json(d + 1)])) }
  load(depth, phr) {
    const r = this.r;
    if (this.reqs.length && r.chance(35) && !(this.o.slow && (this.acc || 0) > 300) && !this.force) return ['ld', ...r.pick(this.reqs)];
    const cache = r.chance(45), p = this.plan(depth, phr, cache);
    let req;
    const base = p.dead ? 'http://127.0.0.1:' + this.U.dead : this.U.url;
    const url = `${base}/u/${this.pid}/${p.id}` + (r.chance(30) ? '?q=' + encodeURIComponent(rtext(r, { sane: 1 })) : '');
    if (cache) req = ['GET', url, r.chance(30) ? [['x-a', 'v1'], ['x-b', 'v2'], ['x-c', 'v3']] : [], 'none'];
    else {
      const m = r.pick(['GET', 'GET', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS']);
      const hs = r.chance(40) ? r.shuffle([['x-a', 'v' + r.below(5)], ['x-b', 'some text'], ['X-C', 'q'], ['authorization', 'Bearer z'], ['x-e', ''], ...(r.chance(20) ? [[r.pick(['content-type', 'content-type', 'Content-Type']), 'x/y']] : [])]).slice(0, r.range(1, 4)) : [];
      const b = m === 'GET' ? 0 : r.below(5);
      req = [m, url, hs, ...(b === 0 ? ['none'] : b === 1 ? ['text', rtext(r)] : b === 2 ? ['bin', Array.from({ length: r.below(6) }, () => r.below(256))] : ['json', r.chance(10) ? { a: '@nan', b: [1, '@nan'] } : this.json(0)])];
    }
    p.req = req;
    const e = [req, cache ? 'cache' : r.chance(25) ? 'nap' : 'fetch'];
    this.reqs.push(e);
    // a second load of the same address that differs by a header, the method or the body only
    if (!this.o.clean && !this.o.hang && !this.o.slow && !p.dead && !p.twins && this.nplans < 40 && r.chance(12)) {
      const p2 = this.plan(depth + 1, phr, false), k = r.below(3), [m, u, hs, kind] = req;
      if (p2.dead) { p2.req = ['GET', `http://127.0.0.1:${this.U.dead}/u/${this.pid}/${p2.id}`, [], 'none']; return ['ld', ...e] }
      // as many headers in both, or one more in the second
      const own = k === 0 && r.chance(60) ? hs.slice() : null;
      if (own) hs.push(['x-v', 'w2']);
      const q2 = own ? [m, u, [...own, ['x-v', 'w' + r.below(2)]], ...req.slice(3)] : k === 0 || kind !== 'text' && k === 2 ? [m, u, [...hs, ['x-v', 'w' + r.below(2)]], ...req.slice(3)] : k === 1 ? [m === 'PUT' ? 'DELETE' : 'PUT', u, hs, ...req.slice(3)] : [m, u, hs, 'text', req[4] + '.'];
      p2.req = q2; p2.id = p.id + 'v'; p.twins = [p2];
      const e2 = [q2, r.chance(25) ? 'nap' : 'fetch'];
      this.reqs.push(e2); this.twins = (this.twins || 0) + 1;
      return ['f', [['ld', ...e], ['ld', ...e2]]];
    }
    return ['ld', ...e];
  }
  page() {
    const r = this.r, o = this.o;
    const init = [];
    for (let i = 0; i < this.vals; i++) if (r.chance(75)) init.push([i, (r.chance(20) ? '~' : '') + rtext(r)]);
    for (let i = 0; i < 2; i++) if (r.chance(80)) init.push([i, Array.from(new Set(Array.from({ length: r.below(5) }, () => rtext(r))))]);
    const act = d => {
      const k = r.below(o.clean ? 6 : 9);
      if (k < 4) return ['set', r.below(this.vals), (r.chance(25) ? '~' : '') + rtext(r)];
      if (k === 4) return ['lset', r.below(2), Array.from(new Set(Array.from({ length: r.below(5) }, () => rtext(r))))];
      if (k === 5) return ['tx', [['set', r.below(this.vals), rtext(r)], ['lset', r.below(2), ['z' + r.below(9)]]]];
      if (k === 6) return ['log', rtext(r)];
      if (k === 7) return d > 2 ? ['ckset', 'c', 'v'] : ['then', r.chance(80) ? 0 : 50, act(d + 1)];
      return ['iv', 5];
    };
    const acts = [];
    for (let n = r.below(5); n > 0; n--) acts.push([o.clean || r.chance(80) ? 0 : r.pick([1, 20, 1000]), act(0)]);
    const head = [];
    for (let n = r.below(4); n > 0; n--) head.push(r.pick([() => ['e', 'title', [], [this.text()]], () => ['e', 'meta', [['content', 's', rtext(r)], ['name', 'v', r.below(this.vals)]], []], () => ['e', 'link', [['href', 's', rtext(r)]], []], () => ['e', 'base', [['target', 's', '_self']], []], () => ['e', 'style', [], [['t', 'b{color:' + r.pick(COLORS) + '}']]]])());
    const body = this.kids(0, false, r.range(0, 6));
    // now and then a page of another scale: wide, deep, large texts, long lists, many loads
    const scale = r.below(150), few = t => { const l = o.loads; this.left = 3; if (scale < 2) o.loads = false; const n = t(); o.loads = l; return n };
    this.scale = ['wide', 'deep', 'large', 'long', 'loads', 'styles'][scale];
    if (scale === 5) for (let i = 0, n = r.range(15, 70); i < n; i++) body.push(['e', 'p', [['css', 'css', `top: ${i}px`]], []]);
    if (scale === 0) body.push(['rp', r.range(50, o.loads ? 150 : 400), few(() => this.node(3, false))]);
    if (scale === 1) body.push(['dp', r.range(10, o.loads ? 50 : 100), few(() => this.node(3, false))]);
    if (scale === 2) body.push(['e', 'div', [], [['tr', rtext(r) || 'z', r.range(100, 20000)]]]);
    if (scale === 3) acts.push([0, ['lnum', 0, r.range(50, 600)]]), body.push(['l', 0, 'div']);
    if (scale === 4 && o.loads && !o.hang && !o.slow && r.chance(40)) { const l = few(() => this.load(3, false)); for (let n = r.range(9, 40); n > 0; n--) body.push(l) }
    else if (scale === 4 && o.loads && !o.hang && !o.slow) for (let n = r.range(15, 30); n > 0; n--) body.push(few(() => this.load(3, false)));
    if (r.chance(80)) body.push(this.elem(1, false));
    let plain = null;
    if (o.plain && r.chance(o.plain)) plain = r.chance(20) ? '@url' : rtext(r);
    const boom = o.boom && r.chance(o.boom) ? r.below(4) : -1;
    const bt = r.chance(25) ? '!trap ' + r.pick(['abort', 'deep', 'access', 'abort', 'deep', 'memory']) : 'boom ' + r.below(1e6) + rtext(r);
    if (boom === 0) body.push(['e', 'div', [], [['boom', bt]]]);
    if (boom === 1) acts.push([0, ['boom', bt]]);
    if (boom === 2) { const l = this.load(1, false); body.push(['ld', l[0] === 'ld' ? l[1] : l[1][0][1], 'boom']) }
    if (boom === 3) acts.push([0, ['then', 0, ['tx', [['set', 0, 'q'], ['boom', bt]]]]]);
    const htmlattrs = this.attrs(2).filter(a => !/css|on/.test(a[1]));
    return (this.spec = [htmlattrs, head, [this.attrs(1).filter(a => !/css/.test(a[1])), body], init, acts, plain]);
  }
}
export function targetOf(spec, r, odd) {
  const d = 'd=' + Buffer.from(JSON.stringify(spec)).toString('hex');
  // the page is asked for in all the forms an address can have
  if (odd && r.chance(25)) return r.pick([`/${d}`, `/${d}?`, `/x/${d}/`, `/${d}/?`, `/?${d}&`, `/?${d}?x=1`, `/x?&&${d}&=`, `/${d}?a?b=c&&`, `/${d};a,b@k=e+f`, `/x//y/${d}?z=%26%3D%C5%BC`, `/%20%2B/?${d}+1`, `/a.b/${d}?.`, `/${d}.html?_=1`, `/x?z&${d}/`, `/${d}?%3F`]);
  return `/${['', 'x', 'a/b', '%C5%BC%20q'][r.below(4)]}?${d}${r.chance(20) ? '&z=1%202' : ''}`;
}

// ------------------------------------------------------------------ model
const floatBits = x => { const b = Buffer.alloc(8); b.writeDoubleBE(x); return b.toString('hex') };
function showStr(s) { let o = '"'; for (const c of s) { const n = c.codePointAt(0); o += c === '"' ? '\\"' : c === '\\' ? '\\\\' : n < 32 || n === 0x2028 || n === 0x2029 || n === 0xfeff ? '\\u' + n.toString(16).padStart(4, '0') : c } return o + '"' }
function show(j) {
  if (j === null) return 'null';
  if (typeof j === 'boolean') return String(j);
  if (typeof j === 'number') return Number.isInteger(j) && Math.abs(j) < 1e15 ? String(j === 0 ? 0 : j) : `"#${floatBits(j)}"`;
  if (typeof j === 'string') return showStr(j);
  if (Array.isArray(j)) return '[' + j.map(show).join(',') + ']';
  return '{' + Object.keys(j).sort((a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b))).map(k => showStr(k) + ':' + show(j[k])).join(',') + '}';
}
const opt = s => s.startsWith('~') ? null : s;
const even = s => [...s].length % 2 === 0;
export class Model {
  constructor(spec, plans, ctx) {
    this.spec = spec; this.plans = new Map(plans.map(p => [p.id, p])); this.byReq = new Map(plans.filter(p => p.req).map(p => [JSON.stringify(p.req), p])); this.ctx = ctx;
    this.vals = new Map(); this.lists = new Map(); this.route = ctx.url; this.crash = null; this.pending = false; this.cssSeen = new Set();
    this.used = [];
    for (const [i, v] of spec[3]) Array.isArray(v) ? this.lists.set(i, v) : this.vals.set(i, v);
    this.snap();
    const q = spec[4].filter(a => a[0] === 0).map(a => a[1]);
    this.renderBoom = JSON.stringify(spec[2]).includes('"boom"') && this.find(spec[2][1], 'boom');
    if (this.renderBoom) { this.crash = this.renderBoom[1]; this.early = true }
    while (q.length && this.crash === null) this.act(q.shift(), q);
  }
  find(l, t) { for (const n of l) { if (n[0] === t) return n; if (n[0] === 'e') { const f = this.find(n[3], t); if (f) return f } } return null }
  v(i) { return this.vals.get(i) ?? '' }
  snap() { for (let i = 0; i < 8; i++) this.cssSeen.add('color: c' + [...this.v(i)].length) }
  act(a, q) {
    if (a[0] === 'set') { this.vals.set(a[1], a[2]); this.snap() }
    else if (a[0] === 'lset') this.lists.set(a[1], a[2]);
    else if (a[0] === 'lnum') this.lists.set(a[1], Array.from({ length: a[2] }, (_, i) => 'i' + i));
    else if (a[0] === 'tx') for (const x of a[1]) { if (this.crash === null) this.act(x, q) }
    else if (a[0] === 'boom') { if (this.crash === null) this.crash = a[1] }
    else if (a[0] === 'then') { if (a[1] === 0) q.push(a[2]) }
    else if (a[0] === 'rtset') this.route = a[1];
  }
  outcome(req) {
    if (!/\/u\//.test(req[1])) return { never: false, fail: true };
    const p = this.byReq.get(JSON.stringify(req)) || this.plans.get(/\/u\/[^/]+\/([^/?]+)/.exec(req[1])[1]);
    if (p.dead || p.mode === 'close' || p.mode === 'cut') return { fail: true };
    if (p.mode === 'hang') return { never: true };
    const ct = p.ct === null ? '' : p.ct.split(';')[0].trim().toLowerCase();
    if (p.counter) return { status: p.status, type: 'text', value: null, counter: true };
    if (ct === 'application/json') { let j; try { j = JSON.parse(p.body.toString()) } catch { return { fail: true } } return { status: p.status, type: 'json', value: j } }
    if (ct === 'text/plain') { try { return { status: p.status, type: 'text', value: new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(p.body) } } catch { return { fail: true } } }
    return { status: p.status, type: 'bin', value: p.body };
  }
  evl(l) { return l.flatMap(n => this.ev(n)) }
  ev(n) {
    switch (n[0]) {
      case 'e': {
        const attrs = new Map(), css = [];
        let cls = null;
        for (const [name, kind, x] of n[2]) {
          if (kind === 'on') continue;
          if (kind === 'css') css.splice(0, 9, [['', x]]);
          else if (kind === 'cssv') css.splice(0, 9, [['', 'color: c' + [...this.v(x)].length]]);
          else if (kind === 'cssn') css.splice(0, 9, [['', 'color: red'], [':hover', 'color: ' + x]]);
          else if (kind === 'cssm') css.splice(0, 9, [['', 'color: red'], ['@media print', 'color: ' + x]]);
          else if (kind === 'cssk') css.splice(0, 9, [['', 'color: red; animation: 1s #'], ['@keyframes', '0% { color: ' + x + ' }']]);
          else {
            const v = kind === 's' ? x : kind === 'v' ? this.v(x) : kind === 'c' ? this.v(x) + '!' : opt(this.v(x));
            if (name === 'class') { cls = v; continue }
            const k = name.toLowerCase();
            if (v === null) { if (!attrs.has(k) || true) attrs.set(k, { gone: true }) } else attrs.set(k, v);
          }
        }
        // with an attribute written several times, of which one is reactive, the later write in time wins
        const names = n[2].filter(a => !/css|on/.test(a[1])).map(a => a[0].toLowerCase());
        const open = new Set(names.filter((x, i) => names.indexOf(x) !== i));
        return [{ tag: n[1].toLowerCase(), attrs, open, cls, css: css[0] || null, on: n[2].filter(a => a[1] === 'on').map(a => a[2]), kids: this.evl(n[3]) }];
      }
      case 't': return [{ text: n[1] }];
      case 'tv': return [{ text: this.v(n[1]) }];
      case 'f': return this.evl(n[1]);
      case 'rp': { const l = []; for (let i = 0; i < n[1]; i++) l.push(...this.ev(n[2])); return l }
      case 'dp': { let l = this.ev(n[2]); for (let i = 0; i < n[1]; i++) l = [{ tag: 'div', attrs: new Map(), open: new Set(), cls: null, css: null, on: [], kids: l }]; return l }
      case 'tr': return [{ text: n[1].repeat(n[2]) }];
      case 'rv': return this.evl(even(this.v(n[1])) ? n[2] : n[3]);
      case 'ro': return opt(this.v(n[1])) === null ? [] : this.evl(n[2]);
      case 'l': return (this.lists.get(n[1]) || []).map(x => ({ tag: n[2], attrs: new Map(), open: new Set(), cls: null, css: null, kids: [{ text: x }] }));
      case 'isb': return [{ text: String(!!this.ctx.browser) }];
      case 'loc': return [{ text: this.route }];
      case 'now': return [{ text: 'true' }];
      case 'cookie': return [{ text: '[]' }];
      case 'tz': return [{ text: '0' }];
      case 'rand': return [{ text: 'true' }];
      case 'env': { const e = (this.ctx.env || []).filter(e => e[0] === n[1]); return [{ text: e.length ? e[e.length - 1][1] : 'none' }] }
      case 'ld': {
        const o = this.outcome(n[1]);
        this.used.push(n[1]);
        if (o.never) { this.pending = true; return [{ text: 'loading' }] }
        if (n[2] === 'boom') { if (this.crash === null) this.crash = 'after the load'; return [] }
        if (o.fail) return [{ text: 'fail' }];
        if (o.counter) return [{ text: /^200 text hit(\d+)$/, counter: true }];
        if (n[2] === 'cache') {
          if (o.status !== 200) return [{ text: 'st' + o.status }];
          if (o.type !== 'json' || o.value === null || Array.isArray(o.value) || typeof o.value !== 'object' || typeof o.value.s !== 'string') return [{ text: 'fail' }];
          return this.evl(JSON.parse(o.value.s));
        }
        if (o.type === 'json') {
          if (o.status === 200 && o.value && typeof o.value === 'object' && !Array.isArray(o.value) && 's' in o.value) return typeof o.value.s === 'string' ? this.evl(JSON.parse(o.value.s)) : [{ text: 'bad' }];
          return [{ text: `${o.status} json ${show(o.value)}` }];
        }
        return [{ text: o.type === 'text' ? `${o.status} text ${o.value}` : `${o.status} bin [${[...o.value].join(', ')}]` }];
      }
      case 'boom': return [];
    }
    throw new Error('node ' + n[0]);
  }
  body() { return this.evl(this.spec[2][1]) }
}
// all styles a page may legitimately have sent
function cssOf(spec, plans, seen) {
  const s = new Set(seen), t = JSON.stringify(spec) + plans.map(p => p.json ? JSON.stringify(p.json) : '').join(' ');
  for (const m of t.matchAll(/\\*"css\\*",\\*"(css[nmk]?)\\*",\\*"([a-z0-9: ]*)\\*"/g)) s.add(m[1] === 'css' ? m[2] : m[1] === 'cssk' ? '0% { color: ' + m[2] + ' }' : 'color: ' + m[2]);
  s.add('color: red'); s.add('color: red; animation: 1s #');
  return s;
}
// ------------------------------------------------------------------ generated rules
export const generated = k => k.tag === 'style' && !k.attrs.size && /^\s*(\.autocss|@keyframes\s+autocss|@media[^{]*\{\s*\.autocss)/.test(k.kids.map(x => x.text ?? '').join(''));
const plain = d => d.replace(/\s+/g, ' ').trim().replace(/;$/, '').trim();
// [selector, declarations] of a rule, the selector of one within a media query is preceded by the query
function readRule(t) {
  const x = /^\s*([^{]*?)\s*\{([^]*)\}\s*$/.exec(t);
  if (!x) return null;
  if (!x[1].startsWith('@media')) return [x[1], plain(x[2])];
  const y = /^\s*([^{]*?)\s*\{([^{}]*)\}\s*$/.exec(x[2]);
  return y && [plain(x[1]) + ' ' + y[1], plain(y[2])];
}
// ------------------------------------------------------------------ comparison
const WS = /^[ \t\n\r\f]+|[ \t\n\r\f]+$/g;
const EXACT = new Set(['pre', 'textarea', 'listing']);
const esc = s => JSON.stringify(s);
function norm(l) { // adjacent texts are one text
  const o = [];
  for (const k of l) { if (k.text !== undefined && !(k.text instanceof RegExp)) { const p = o[o.length - 1]; if (p && typeof p.text === 'string') o[o.length - 1] = { text: p.text + k.text }; else o.push({ text: k.text }) } else o.push(k) }
  return o.filter(k => k.text !== '');
}
export class Compare {
  constructor() { this.bad = []; this.n = { nodes: 0, texts: 0, attrs: 0, styled: 0 }; this.hits = [] }
  fail(sig, m) { if (this.bad.length < 4) this.bad.push([sig, m]) }
  kids(exp, act, at, exact, raw) {
    exp = norm(exp);
    let a = norm(act);
    if (raw) { const t = l => l.map(k => k.text ?? '<' + k.tag + '>').join('').replace(/<\\\//g, '</'); this.n.texts++; if (t(exp) !== t(a)) this.fail('raw-text', `${at}: text ${esc(t(a))} instead of ${esc(t(exp))}`); return }
    const sole = exp.length === 1 && exp[0].text !== undefined;
    if (!exact && !sole) {
      exp = exp.map(k => k.text !== undefined && typeof k.text === 'string' ? { text: k.text.replace(WS, '') } : k).filter(k => k.text !== '');
      a = a.map(k => k.text !== undefined ? { text: k.text.replace(WS, '') } : k).filter(k => k.text !== '');
    }
    if (exp.length !== a.length) { this.fail('children', `${at}: ${a.length} children (${a.map(k => k.tag || esc(k.text).slice(0, 40)).join(' ')}) instead of ${exp.length} (${exp.map(k => k.tag || esc(String(k.text)).slice(0, 40)).join(' ')})`); return }
    for (let i = 0; i < exp.length; i++) this.node(exp[i], a[i], `${at}/${exp[i].tag || 'text'}[${i}]`, exact);
  }
  node(e, a, at, exact) {
    this.n.nodes++;
    if (e.text !== undefined) {
      this.n.texts++;
      if (e.text instanceof RegExp) { const m = e.text.exec((a.text ?? '').trim()); if (!m) this.fail('text', `${at}: ${a.tag ? '<' + a.tag + '>' : esc(a.text)} instead of ${e.text}`); else this.hits.push(Number(m[1])); return }
      if (a.text !== e.text) this.fail('text', `${at}: ${a.tag ? '<' + a.tag + '>' : esc(a.text)} instead of ${esc(e.text)}`);
      return;
    }
    if (a.tag !== e.tag) { this.fail('element', `${at}: ${a.tag ? '<' + a.tag + '>' : esc(a.text)} instead of <${e.tag}>`); return }
    this.attrs(e, a, at);
    this.kids(e.kids, a.kids, at, exact || EXACT.has(e.tag), e.tag === 'script' || e.tag === 'style');
  }
  attrs(e, a, at, extra = new Map()) {
    const want = new Map([...e.attrs, ...extra]);
    for (const [k, v] of want) {
      this.n.attrs++;
      const g = a.attrs.get(k);
      if (e.open.has(k)) continue;
      if (v !== null && typeof v === 'object') { if (g !== undefined) this.fail('attribute-kept', `${at}: attribute ${k}=${esc(g)} should be absent`) }
      else if (g === undefined) this.fail('attribute-missing', `${at}: attribute ${k}=${esc(v)} is missing`);
      else if (g !== v) this.fail('attribute', `${at}: attribute ${k}=${esc(g)} instead of ${esc(v)}`);
    }
    for (const k of a.attrs.keys()) if (k !== 'class' && !want.has(k)) this.fail('attribute-extra', `${at}: unexpected attribute ${k}=${esc(a.attrs.get(k))}`);
    const cl = (a.attrs.get('class') || '').split(/\s+/).filter(Boolean);
    const own = (e.cls || '').split(/\s+/).filter(Boolean);
    for (const c of own) if (!cl.includes(c)) this.fail('class', `${at}: class ${c} is missing`);
    const rest = cl.filter(c => !own.includes(c));
    if (e.css) {
      this.n.styled++;
      if (rest.length !== 1) this.fail('class', `${at}: classes ${cl.join(' ')}, exactly one generated class expected`);
      else for (const [sub, decl] of e.css) { const own = this.rules.get('.' + rest[0]), frames = /autocss_\d+/.exec(own || ''), sel = sub === '@keyframes' ? sub + ' ' + (frames ? frames[0] : '?') : sub[0] === '@' ? sub + ' .' + rest[0] : '.' + rest[0] + sub, got = this.rules.get(sel); if ((got || '').replace(/autocss_\d+/g, '#') !== plain(decl)) this.fail('style', `${at}: rule ${sel} is ${esc(got ?? null)} instead of ${esc(decl)}`) }
    } else if (rest.length) this.fail('class', `${at}: unexpected classes ${rest.join(' ')}`);
  }
  // the rules of one class stay in the order they were written in: its own first
  rule(t) {
    const r = readRule(t);
    if (!r) { this.fail('style', 'unreadable rule ' + esc(t)); return null }
    this.order(r[0]);
    if (this.rules.has(r[0])) this.fail('style', `two rules ${r[0]}`);
    this.rules.set(...r);
    return r[1].replace(/autocss_\d+/g, '#');
  }
  order(sel) {
    const x = /^\.(autocss_\d+)(.*)$/.exec(sel);
    if (x && !x[2] && [...this.rules.keys()].some(k => k.startsWith('.' + x[1] + ':') || k.startsWith('@media') && k.endsWith('.' + x[1]))) this.fail('style-order', `the rule of .${x[1]} comes after those that refine it`);
  }
  // res: the response; m: the model
  page(res, m, S) {
    const { root, errors } = parse(res.body.toString('utf8'));
    if (errors.length) { this.fail('malformed', errors.slice(0, 3).join('; ')); return }
    if (root.doctype !== 'html') this.fail('malformed', 'doctype ' + root.doctype);
    const top = root.kids.filter(k => k.tag || k.text.replace(WS, ''));
    if (top.length !== 1 || top[0].tag !== 'html') { this.fail('malformed', 'top level: ' + top.map(k => k.tag || esc(k.text)).join(' ')); return }
    const html = top[0], hk = html.kids.filter(k => k.tag || k.text.replace(WS, ''));
    if (hk.map(k => k.tag).join() !== 'head,body') { this.fail('malformed', 'in html: ' + hk.map(k => k.tag || esc(k.text)).join(' ')); return }
    const [head, body] = hk;
    const b = [...body.kids];
    const blank = k => k.text !== undefined && !k.text.replace(WS, '');
    // generated rules come first, the loader last
    this.rules = new Map();
    let i = 0; const allowed = cssOf(m.spec, [...m.plans.values()], m.cssSeen), gen = [];
    while (i < b.length && (blank(b[i]) || generated(b[i]))) { if (b[i].tag) gen.push(b[i].kids[0].text); i++ }
    for (const t of gen) { const d = this.rule(t); if (d !== null && ![...allowed].some(y => plain(y) === d)) this.fail('foreign-style', `rule ${esc(t)} is not one of this page`) }
    let j = b.length; while (j > i && blank(b[j - 1])) j--;
    const last = b[j - 1];
    if (!last || last.tag !== 'script' || last.attrs.get('data-vertigo-run-wasm') !== S.wasm || last.attrs.get('src') !== S.run_js || last.attrs.get('type') !== 'module' || last.kids.some(k => k.tag || k.text.replace(WS, ''))) this.fail('loader', 'the loader is missing or wrong: ' + (last ? '<' + last.tag + ' ' + JSON.stringify([...(last.attrs || [])]) + '>' : 'nothing'));
    const env = new Map(); for (const [k, v] of S.env || []) env.set('data-env-' + k.toLowerCase(), v);
    const ea = this.el('html', m.spec[0], m);
    this.attrs(ea, html, 'html', env);
    if (head.attrs.size) this.fail('attribute-extra', 'head has attributes');
    this.kids(m.evl(m.spec[1]), head.kids, 'head');
    this.attrs(this.el('body', m.spec[2][0], m), body, 'body');
    // text next to the generated nodes is never alone in its parent
    const exp = [...m.body(), { tag: '#end', attrs: new Map(), open: new Set(), kids: [] }];
    this.kids(exp, [...b.slice(i, j - 1), { tag: '#end', attrs: new Map(), kids: [] }], 'body');
  }
  el(tag, attrs, m) { return m.ev(['e', tag, attrs, []])[0] }
}
