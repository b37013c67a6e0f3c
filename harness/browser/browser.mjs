// A browser as far as the driver can tell: document, events, timers on a virtual clock,
// requests, websockets, location and history, cookies. It is strict where browsers throw.
class DOMEx extends Error { constructor(name, msg) { super(msg); this.name = name; } }

export class Clock {
  constructor(start) { this.now = start; this.start = start; this.items = []; this.seq = 0; this.ids = 1; this.live = new Map(); this.fired = 0; this.jitter = null; }
  at(time, fn, label) {
    const it = { at: Math.max(time, this.now), seq: this.seq++, fn, label };
    let lo = 0, hi = this.items.length;
    while (lo < hi) { const m = (lo + hi) >> 1; (this.items[m].at < it.at || (this.items[m].at === it.at && this.items[m].seq < it.seq)) ? lo = m + 1 : hi = m; }
    this.items.splice(lo, 0, it);
    return it;
  }
  late() { return this.jitter ? this.jitter() : 0; }
  setTimeout(fn, ms, ...a) {
    ms = ms > 2147483647 ? 0 : Math.max(0, Math.trunc(Number(ms)) || 0);
    const id = this.ids++;
    this.live.set(id, this.at(this.now + ms + this.late(), () => { this.live.delete(id); fn(...a); }, 't' + id));
    return id;
  }
  setInterval(fn, ms, ...a) {
    ms = Math.max(1, Math.trunc(Number(ms)) || 0);
    const id = this.ids++;
    let due = this.now + ms;
    const arm = () => this.live.set(id, this.at(due + this.late(), () => {
      // a browser keeps the period but skips missed ticks
      do { due += ms; } while (due < this.now);
      arm(); this.intervalFired?.(id); fn(...a);
    }, 'i' + id));
    arm();
    return id;
  }
  clear(id) {
    const it = this.live.get(Number(id));
    if (it) { this.live.delete(Number(id)); const k = this.items.indexOf(it); if (k >= 0) this.items.splice(k, 1); }
  }
  get next() { return this.items[0]?.at; }
  step() { // run one task
    const it = this.items.shift();
    if (it.at > this.now) this.now = it.at;
    this.fired++;
    it.fn();
  }
}
export const micro = () => new Promise(r => setImmediate(r));

export function makeBrowser(opts) {
  const B = { errors: [], warns: [], infos: 0, panics: [], ev: {} };
  const count = k => { B.ev[k] = (B.ev[k] || 0) + 1; };
  const clock = B.clock = new Clock(opts.start ?? 1_700_000_000_000);
  // exceptions thrown by a task end up here, as in a browser's error console
  B.uncaught = [];
  const guard = fn => (...a) => { try { return fn(...a); } catch (e) { B.uncaught.push(e); } };

  // ---------------------------------------------------------------- events and nodes
  class EventTarget_ {
    constructor() { this.$l = new Map(); }
    addEventListener(t, f, o) {
      if (f === null || f === undefined) return;
      const c = !!(o && typeof o === 'object' ? o.capture : o), l = this.$l.get(t) || [];
      if (o?.signal?.aborted) return;
      if (!l.some(x => x.f === f && x.c === c)) l.push({ f, c, once: !!o?.once, passive: !!o?.passive });
      this.$l.set(t, l); count('listeners_added');
      o?.signal?.addEventListener('abort', () => this.removeEventListener(t, f, c));
    }
    removeEventListener(t, f, c) { c = !!(c && typeof c === 'object' ? c.capture : c); const l = this.$l.get(t) || []; const i = l.findIndex(x => x.f === f && x.c === c); if (i >= 0) { l.splice(i, 1); count('listeners_removed'); } }
    $n() { let n = 0; for (const l of this.$l.values()) n += l.length; return n; }
    // the listeners of this target; phase 1 capturing, 2 at the target, 3 bubbling
    $fire(e, phase = 2) { for (const x of [...(this.$l.get(e.type) || [])]) { if (phase !== 2 && x.c !== (phase === 1)) continue; if ((this.$l.get(e.type) || []).includes(x)) { if (x.once) this.removeEventListener(e.type, x.f, x.c); e.$passive = x.passive; guard(typeof x.f === 'function' ? x.f : ev => x.f.handleEvent(ev)).call(this, e); e.$passive = false; } if (e.$stopNow) break; } if (phase !== 1 && !e.$stopNow && typeof this['on' + e.type] === 'function') { if (guard(this['on' + e.type]).call(this, e) === false) e.preventDefault(); } }
    $path() { const path = []; for (let n = this; n; n = n.parentNode ?? (n === document ? window : null)) path.push(n); return path; }
    // after(n) is told when the event has passed a node
    $pass(e, path, after) {
      for (const n of [...path].reverse()) { if (n === path[0]) break; e.currentTarget = n; n.$fire(e, 1); if (e.$stop) return; }
      for (const n of e.bubbles ? path : path.slice(0, 1)) { e.currentTarget = n; n.$fire(e, n === path[0] ? 2 : 3); after?.(n); if (e.$stop) break; }
    }
    dispatchEvent(e) { e.target = this; this.$pass(e, this.$path()); return !e.defaultPrevented; }
  }
  class Event_ {
    constructor(type, o = {}) { this.type = type; this.bubbles = !!o.bubbles; this.cancelable = o.cancelable !== false; this.defaultPrevented = false; }
    get eventPhase() { return this.$phase ?? 2; } get isTrusted() { return true; } get timeStamp() { return clock.now - clock.start; }
    composedPath() { return this.target?.$path?.() ?? []; }
    get srcElement() { return this.target; } get cancelBubble() { return !!this.$stop; } set cancelBubble(v) { if (v) this.$stop = true; } get returnValue() { return !this.defaultPrevented; }
    preventDefault() { if (this.cancelable && !this.$passive) this.defaultPrevented = true; }
    stopPropagation() { this.$stop = true; }
    stopImmediatePropagation() { this.$stop = this.$stopNow = true; }
  }
  class KeyboardEvent_ extends Event_ { constructor(t, o) { super(t, o); Object.assign(this, { key: '', code: '', altKey: false, ctrlKey: false, shiftKey: false, metaKey: false }, o); } }
  class DragEvent_ extends Event_ { constructor(t, o) { super(t, o); this.dataTransfer = o?.dataTransfer ?? null; } }
  class MessageEvent_ extends Event_ { constructor(t, o) { super(t, o); this.data = o.data; } }
  class Node_ extends EventTarget_ {
    constructor() { super(); this.parentNode = null; this.$kids = []; B.nodes = (B.nodes || 0) + 1; }
    get childNodes() { return this.$kids; }
    get lastChild() { return this.$kids[this.$kids.length - 1] ?? null; }
    get previousSibling() { const k = this.parentNode?.$kids; return k ? k[k.indexOf(this) - 1] ?? null : null; }
    hasChildNodes() { return this.$kids.length > 0; }
    get ownerDocument() { return this === document ? null : document; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    isSameNode(o) { return o === this; }
    get nodeName() { return this instanceof Element_ ? this.tagName : this instanceof Text_ ? '#text' : this instanceof Comment_ ? '#comment' : '#document'; }
    compareDocumentPosition(o) {
      if (o === this) return 0;
      if (this.getRootNode() !== o.getRootNode()) return 1;
      if (this.contains(o)) return 20;
      if (o.contains(this)) return 10;
      const a = this.$path().reverse(), b = o.$path().reverse(); let i = 0;
      while (a[i] === b[i]) i++;
      const k = a[i - 1].$kids; return k.indexOf(a[i]) < k.indexOf(b[i]) ? 4 : 2;
    }
    $nodes(l) { return l.map(x => x instanceof Node_ ? x : new Text_(x)); }
    replaceChild(nu, old) { if (old.parentNode !== this) throw new DOMEx('NotFoundError', 'not a child'); if (nu === old) return old; const ref = old.nextSibling === nu ? nu.nextSibling : old.nextSibling; old.$detach(); this.insertBefore(nu, ref); return old; }
    prepend(...l) { const first = this.firstChild; for (const c of this.$nodes(l)) this.insertBefore(c, first === c ? c.nextSibling : first); }
    before(...l) { const p = this.parentNode; if (p) for (const c of this.$nodes(l)) p.insertBefore(c, this); }
    after(...l) { const p = this.parentNode; if (!p) return; let ref = this.nextSibling; l = this.$nodes(l); while (ref && l.includes(ref)) ref = ref.nextSibling; for (const c of l) p.insertBefore(c, ref); }
    replaceWith(...l) { const p = this.parentNode; if (!p) return; let ref = this.nextSibling; l = this.$nodes(l); while (ref && l.includes(ref)) ref = ref.nextSibling; if (!l.includes(this)) this.$detach(); for (const c of l) p.insertBefore(c, ref); }
    get firstElementChild() { return this.$kids.find(k => k instanceof Element_) ?? null; }
    get lastElementChild() { return this.$kids.findLast(k => k instanceof Element_) ?? null; }
    get childElementCount() { return this.$kids.filter(k => k instanceof Element_).length; }
    get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element_)) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element_)) n = n.previousSibling; return n; }
    get firstChild() { return this.$kids[0] ?? null; }
    get nextSibling() { const k = this.parentNode?.$kids; return k ? k[k.indexOf(this) + 1] ?? null : null; }
    get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document; }
    contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
    $detach() { const p = this.parentNode; if (p) { p.$kids.splice(p.$kids.indexOf(this), 1); this.parentNode = null; } }
    insertBefore(c, ref) {
      if (!(c instanceof Node_)) throw new TypeError('insertBefore: not a Node');
      if (c instanceof Fragment_) { if (ref && ref.parentNode !== this) throw new DOMEx('NotFoundError', 'the reference node is not a child of this node'); for (const k of [...c.$kids]) this.insertBefore(k, ref); return c; }
      if (ref !== null && !(ref instanceof Node_)) throw new TypeError('insertBefore: reference is not a Node');
      if (!(this instanceof Element_) && !(this instanceof Fragment_) && this !== document) throw new DOMEx('HierarchyRequestError', 'this node cannot have children');
      if (c.contains(this)) throw new DOMEx('HierarchyRequestError', 'the new child contains the parent');
      if (ref && ref.parentNode !== this) throw new DOMEx('NotFoundError', 'the reference node is not a child of this node');
      if (ref === c) ref = c.nextSibling;
      c.$detach();
      c.parentNode = this;
      this.$kids.splice(ref ? this.$kids.indexOf(ref) : this.$kids.length, 0, c);
      count('insertions');
      return c;
    }
    appendChild(c) { return this.insertBefore(c, null); }
    append(...l) { for (const c of this.$nodes(l)) this.appendChild(c); }
    removeChild(c) { if (c.parentNode !== this) throw new DOMEx('NotFoundError', 'not a child'); c.$detach(); return c; }
    replaceChildren(...l) { for (const k of [...this.$kids]) k.$detach(); for (const c of this.$nodes(l)) this.appendChild(c); }
    remove() { this.$detach(); }
  }
  class Fragment_ extends Node_ { get nodeType() { return 11; } }
  class Data_ extends Node_ {
    constructor(t) { super(); this.$t = String(t); }
    get textContent() { return this.$t; } set textContent(v) { this.$t = v === null ? '' : String(v); }
    get data() { return this.$t; } set data(v) { this.$t = String(v); }
    get nodeValue() { return this.$t; } set nodeValue(v) { this.$t = v === null ? '' : String(v); }
    get length() { return this.$t.length; }
    appendData(t) { this.$t += String(t); } replaceData(o, n, t) { this.$t = this.$t.slice(0, o) + t + this.$t.slice(o + n); } deleteData(o, n) { this.replaceData(o, n, ''); } insertData(o, t) { this.replaceData(o, 0, t); }
  }
  class Text_ extends Data_ { get nodeType() { return 3; } get wholeText() { return this.$t; } }
  class Comment_ extends Data_ { get nodeType() { return 8; } }
  // a compound selector: name, #id, .class, [attribute], [attribute="value"]
  const selector = s => {
    const m = /^(\*|[\w-]+)?((?:#[\w-]+|\.[\w-]+|\[[^\]]*\])*)$/.exec(s);
    if (!m || !s) throw new DOMEx('SyntaxError', 'a selector this document does not read: ' + s);
    const tests = [];
    if (m[1] && m[1] !== '*') tests.push(e => e.localName === m[1].toLowerCase());
    for (const x of m[2].match(/#[\w-]+|\.[\w-]+|\[[^\]]*\]/g) || []) {
      if (x[0] === '#') tests.push(e => e.id === x.slice(1));
      else if (x[0] === '.') tests.push(e => e.classList.contains(x.slice(1)));
      else { const a = /^\[\s*([\w:-]+)\s*(?:([~|^$*]?)=\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\s*)?\]$/.exec(x); if (!a || a[2]) throw new DOMEx('SyntaxError', 'a selector this document does not read: ' + s); const v = a[3] ?? a[4] ?? a[5]; tests.push(e => v === undefined ? e.hasAttribute(a[1]) : e.getAttribute(a[1]) === v); }
    }
    return e => tests.every(t => t(e));
  };
  class Element_ extends Node_ {
    constructor(name, ns) { super(); this.localName = name; this.namespaceURI = ns; this.$attrs = new Map(); }
    get nodeType() { return 1; }
    get tagName() { return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? this.localName.toUpperCase() : this.localName; }
    $an(n) { return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? String(n).toLowerCase() : String(n); }
    setAttribute(n, v) { if (!/^[^\s\0\/>=]+$/.test(String(n))) throw new DOMEx('InvalidCharacterError', `'${n}' is not a valid attribute name`); this.$attrs.set(this.$an(n), String(v)); count('attributes_set'); }
    getAttribute(n) { return this.$attrs.get(this.$an(n)) ?? null; }
    hasAttribute(n) { return this.$attrs.has(this.$an(n)); }
    removeAttribute(n) { this.$attrs.delete(this.$an(n)); count('attributes_removed'); }
    get attributes() { const l = [...this.$attrs].map(([name, value]) => ({ name, value, localName: name, nodeName: name })); l.getNamedItem = n => l.find(a => a.name === this.$an(n)) ?? null; l.item = i => l[i] ?? null; return l; }
    getAttributeNames() { return [...this.$attrs.keys()]; }
    hasAttributes() { return this.$attrs.size > 0; }
    toggleAttribute(n, f) { const on = f ?? !this.hasAttribute(n); if (on) { if (!this.hasAttribute(n)) this.setAttribute(n, ''); } else this.removeAttribute(n); return on; }
    setAttributeNS(ns, n, v) { this.setAttribute(n, v); } getAttributeNS(ns, n) { return this.getAttribute(n); } removeAttributeNS(ns, n) { this.removeAttribute(n); }
    insertAdjacentElement(w, e) { ({ beforebegin: () => this.before(e), afterbegin: () => this.prepend(e), beforeend: () => this.append(e), afterend: () => this.after(e) })[w](); return e; }
    insertAdjacentText(w, t) { this.insertAdjacentElement(w, new Text_(t)); }
    closest(s) { for (let e = this; e instanceof Element_; e = e.parentNode) if (e.matches(s)) return e; return null; }
    matches(s) { return s.split(',').some(p => selector(p.trim())(this)); }
    getElementsByTagName(t) { return this.$all([]).filter(e => t === '*' || e.localName === String(t).toLowerCase()); }
    getElementsByClassName(c) { return this.$all([]).filter(e => String(c).split(/\s+/).every(x => e.classList.contains(x))); }
    get classList() {
      const el = this, l = () => (el.getAttribute('class') ?? '').split(/\s+/).filter(Boolean), put = x => el.setAttribute('class', [...new Set(x)].join(' '));
      return { contains: c => l().includes(c), add: (...c) => put([...l(), ...c]), remove: (...c) => put(l().filter(x => !c.includes(x))), toggle: (c, f) => { const on = f ?? !l().includes(c); put(on ? [...l(), c] : l().filter(x => x !== c)); return on; }, get length() { return l().length; }, get value() { return el.className; }, toString: () => el.className, [Symbol.iterator]: () => l()[Symbol.iterator](), forEach: f => l().forEach(f) };
    }
    get dataset() {
      const el = this, key = k => 'data-' + String(k).replace(/[A-Z]/g, x => '-' + x.toLowerCase()), back = n => n.slice(5).replace(/-([a-z])/g, (_, x) => x.toUpperCase()), names = () => [...el.$attrs.keys()].filter(n => n.startsWith('data-'));
      return new Proxy({}, { get: (_, k) => typeof k === 'string' ? el.getAttribute(key(k)) ?? undefined : undefined, set: (_, k, v) => { el.setAttribute(key(k), v); return true; }, has: (_, k) => el.hasAttribute(key(k)), deleteProperty: (_, k) => { el.removeAttribute(key(k)); return true; }, ownKeys: () => names().map(back), getOwnPropertyDescriptor: (_, k) => el.hasAttribute(key(k)) ? { value: el.getAttribute(key(k)), enumerable: true, configurable: true, writable: true } : undefined });
    }
    get children() { return this.$kids.filter(k => k instanceof Element_); }
    get textContent() { return this.$kids.map(k => k instanceof Comment_ ? '' : k.textContent).join(''); }
    set textContent(v) { this.replaceChildren(new Text_(v)); }
    get id() { return this.getAttribute('id') ?? ''; } set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') ?? ''; } set className(v) { this.setAttribute('class', v); }
    $all(out) { for (const k of this.$kids) if (k instanceof Element_) { out.push(k); k.$all(out); } return out; }
    querySelectorAll(s) { return this.$all([]).filter(e => e.matches(s)); }
    querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
  }
  class HTMLElement_ extends Element_ {
    constructor(n) { super(n, 'http://www.w3.org/1999/xhtml'); }
    focus() { document.activeElement = this; B.focused = (B.focused || []); B.focused.push(this); }
    blur() { if (document.activeElement === this) document.activeElement = document.body; }
    click() { return this.dispatchEvent(new Event_('click', { bubbles: true })); }
  }
  class HTMLInputElement_ extends HTMLElement_ {
    constructor(n) { super(n); this.$v = null; }
    get value() { return this.$v ?? this.getAttribute('value') ?? ''; } set value(v) { this.$v = v === null ? '' : String(v).replace(/[\r\n]/g, ''); }
    get defaultValue() { return this.getAttribute('value') ?? ''; } set defaultValue(v) { this.setAttribute('value', v); }
  }
  class HTMLTextAreaElement_ extends HTMLElement_ {
    constructor(n) { super(n); this.$v = null; }
    get value() { return (this.$v ?? this.textContent).replace(/\r\n?/g, '\n'); } set value(v) { this.$v = v === null ? '' : String(v); }
    get defaultValue() { return this.textContent; } set defaultValue(v) { this.textContent = v; }
  }
  class HTMLSelectElement_ extends HTMLElement_ { constructor(n) { super(n); this.value = ''; } }
  const mk = n => { n = String(n).toLowerCase(); return n === 'input' ? new HTMLInputElement_(n) : n === 'textarea' ? new HTMLTextAreaElement_(n) : n === 'select' ? new HTMLSelectElement_(n) : new HTMLElement_(n); };
  class Document_ extends Node_ {
    get documentElement() { return this.$kids.find(k => k instanceof Element_); }
    get head() { return this.documentElement.$kids.find(k => k.localName === 'head'); }
    get body() { return this.documentElement.$kids.find(k => k.localName === 'body'); }
    createElement(n) { if (!/^[a-zA-Z][^\s\0\/>]*$/.test(String(n))) throw new DOMEx('InvalidCharacterError', `'${n}' is not a valid element name`); count('elements_created'); return mk(n); }
    createElementNS(ns, n) { count('elements_created'); return ns === 'http://www.w3.org/1999/xhtml' ? mk(n) : new Element_(String(n), ns); }
    createTextNode(t) { count('texts_created'); return new Text_(t); }
    createComment(t) { return new Comment_(t); }
    createDocumentFragment() { return new Fragment_(); }
    get nodeType() { return 9; } get defaultView() { return window; } get location() { return location; } get URL() { return location.href; } get title() { return this.head?.$kids.find(k => k.localName === 'title')?.textContent ?? ''; }
    get visibilityState() { return 'visible'; } get hidden() { return false; }
    adoptNode(n) { n.$detach(); return n; } importNode(n) { return n; }
    getElementsByTagName(t) { return this.documentElement.localName === t ? [this.documentElement, ...this.documentElement.getElementsByTagName(t)] : this.documentElement.getElementsByTagName(t); }
    getElementById(i) { return this.documentElement.$all([]).find(e => e.id === i) ?? null; }
    querySelectorAll(s) { const h = this.documentElement; return h.matches(s) ? [h, ...h.querySelectorAll(s)] : h.querySelectorAll(s); }
    querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
    // cookies as a browser keeps them for one site
    get cookie() { const now = clock.now; for (const [k, v] of jar) if (v.exp !== null && v.exp <= now) jar.delete(k); return [...jar].map(([k, v]) => k === '' ? v.v : `${k}=${v.v}`).join('; '); }
    set cookie(s) {
      count('cookie_writes');
      s = String(s);
      if (/[\0-\x08\x0a-\x1f\x7f]/.test(s)) return;
      const [nv, ...attrs] = s.split(';');
      const e = nv.indexOf('=');
      const name = (e < 0 ? '' : nv.slice(0, e)).trim(), val = (e < 0 ? nv : nv.slice(e + 1)).trim();
      let exp = null, maxage = null, path = null;
      for (const a of attrs) {
        const i = a.indexOf('='), k = (i < 0 ? a : a.slice(0, i)).trim().toLowerCase(), v = i < 0 ? '' : a.slice(i + 1).trim();
        if (k === 'expires') { const t = Date.parse(v); if (!Number.isNaN(t)) exp = t; }
        if (k === 'max-age' && /^-?\d+$/.test(v)) maxage = Number(v);
        if (k === 'path') path = v;
        if (k === 'secure' && location.protocol !== 'https:') return;
      }
      if (maxage !== null) exp = clock.now + maxage * 1000;
      if (name.length + val.length > 4096) return;
      if (exp !== null && exp <= clock.now) jar.delete(name); else jar.set(name, { v: val, exp, path });
    }
  }
  const jar = B.jar = new Map();
  Object.assign(Node_, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 }); Object.assign(Node_.prototype, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 });
  const document = new Document_();
  const html = mk('html');
  document.$kids.push(html); html.parentNode = document;
  html.appendChild(mk('head')); html.appendChild(mk('body'));
  document.activeElement = document.body;
  document.readyState = 'complete';
  Object.assign(B, { document, Event: Event_, KeyboardEvent: KeyboardEvent_, DragEvent: DragEvent_, Element: Element_, Text: Text_, Comment: Comment_, mk, HTMLInputElement: HTMLInputElement_, HTMLTextAreaElement: HTMLTextAreaElement_ });

  // ---------------------------------------------------------------- location and history
  const window = new EventTarget_();
  B.hist = { list: [{ url: new URL(opts.url ?? 'http://site.test/'), state: null }], pos: 0 };
  const cur = () => B.hist.list[B.hist.pos].url;
  const push = (url, state) => { B.hist.list.splice(B.hist.pos + 1); B.hist.list.push({ url, state }); B.hist.pos++; };
  const fire = (target, type, props = {}) => { const e = new Event_(type, { bubbles: false }); Object.assign(e, props); target.$fire(e); };
  const fragmentEvents = (old, nu) => clock.at(clock.now, () => { count('popstate'); fire(window, 'popstate', { state: null }); if (old.hash !== nu.hash) { count('hashchange'); fire(window, 'hashchange', { oldURL: old.href, newURL: nu.href }); } });
  const location = {
    get hash() { return cur().hash; },
    set hash(v) { const o = cur(), n = new URL(o.href); n.hash = String(v); if (n.hash === o.hash) return; push(n, null); fragmentEvents(o, n); },
    get href() { return cur().href; },
    get pathname() { return cur().pathname; }, get search() { return cur().search; }, get host() { return cur().host; }, get hostname() { return cur().hostname; },
    get origin() { return cur().origin; }, get protocol() { return cur().protocol; }, get port() { return cur().port; },
    assign(u) { location.$leave(u); }, replace(u) { location.$leave(u); }, reload() { location.$leave(cur().href); },
    $leave(u) { count('navigations'); B.navigated = String(u); },
    toString() { return cur().href; },
  };
  const state = (kind, st, url) => {
    count('history_writes');
    const n = new URL(url === undefined || url === null ? cur().href : String(url), cur().href);
    if (n.origin !== cur().origin) throw new DOMEx('SecurityError', 'cross-origin history url');
    if (kind === 'push') push(n, st); else B.hist.list[B.hist.pos] = { url: n, state: st };
  };
  const go = d => clock.at(clock.now + (opts.histDelay ?? 1), () => {
    const t = B.hist.pos + d;
    if (t < 0 || t >= B.hist.list.length) return;
    const o = cur();
    B.hist.pos = t;
    const n = cur();
    count('traversals');
    fire(window, 'popstate', { state: B.hist.list[t].state });
    if (o.href.split('#')[0] === n.href.split('#')[0] && o.hash !== n.hash) { count('hashchange'); fire(window, 'hashchange', { oldURL: o.href, newURL: n.href }); }
  });
  const history = { pushState: (s, t, u) => state('push', s, u), replaceState: (s, t, u) => state('replace', s, u), back: () => { go(-1); }, forward: () => { go(1); }, go: d => { go(d); }, get length() { return B.hist.list.length; }, get state() { return B.hist.list[B.hist.pos].state; }, scrollRestoration: 'auto' };
  B.userHash = h => { location.hash = h; };

  // ---------------------------------------------------------------- requests
  B.requests = [];
  class Response_ {
    constructor(r) { this.status = r.status; this.ok = r.status >= 200 && r.status < 300; this.headers = new Headers(r.headers || {}); this.$r = r; this.bodyUsed = false; this.statusText = ''; this.type = 'basic'; this.redirected = false; this.url = r.url ?? ''; }
    clone() { if (this.bodyUsed) throw new TypeError('body used already'); return new Response_(this.$r); }
    bytes() { return this.$body().then(b => b.slice()); }
    $body() {
      if (this.bodyUsed) return Promise.reject(new TypeError('body used already'));
      this.bodyUsed = true;
      return new Promise((ok, no) => { const d = this.$r.bodyDelay || 0; const f = () => this.$r.bodyFail ? no(new TypeError('connection lost')) : ok(this.$r.bytes); d ? clock.at(clock.now + d, f) : f(); });
    }
    arrayBuffer() { return this.$body().then(b => b.slice().buffer); }
    text() { return this.$body().then(b => new TextDecoder().decode(b)); }
    json() { return this.text().then(t => JSON.parse(t)); }
    blob() { return this.$body().then(b => new Blob([b])); }
  }
  const fetch = (url, init = {}) => new Promise((resolve, reject) => {
    let u;
    const method = String(init.method ?? 'GET');
    try {
      u = new URL(String(url), location.href);
      if (/^(CONNECT|TRACE|TRACK)$/i.test(method)) throw new TypeError(`'${method}' HTTP method is unsupported.`);
      if (init.body !== undefined && init.body !== null && /^(GET|HEAD)$/i.test(method)) throw new TypeError('Request with GET/HEAD method cannot have body.');
    } catch (e) { count('fetch_rejected'); reject(e instanceof TypeError ? e : new TypeError(String(e))); return; }
    const h = new Headers(init.headers);
    let body = null, bodyType = 'none';
    if (typeof init.body === 'string') { body = new TextEncoder().encode(init.body); bodyType = 'text'; if (!h.has('content-type')) h.set('content-type', 'text/plain;charset=UTF-8'); }
    else if (init.body instanceof Uint8Array) { body = init.body.slice(); bodyType = 'bytes'; }
    else if (init.body instanceof ArrayBuffer) { body = new Uint8Array(init.body.slice(0)); bodyType = 'bytes'; }
    else if (init.body !== undefined && init.body !== null) { body = new TextEncoder().encode(String(init.body)); bodyType = 'other'; }
    const rq = { n: B.requests.length, time: clock.now, method: method.toUpperCase(), url: u.href, headers: Object.fromEntries(h), body, bodyType,
      answer: r => { rq.answered = true; resolve(new Response_({ bytes: new Uint8Array(0), ...r })); }, fail: m => { rq.answered = true; reject(new TypeError(m)); } };
    B.requests.push(rq);
    count('requests');
    B.onRequest?.(rq);
  });

  // ---------------------------------------------------------------- websockets
  B.sockets = [];
  class WebSocket_ extends EventTarget_ {
    static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
    get CONNECTING() { return 0; } get OPEN() { return 1; } get CLOSING() { return 2; } get CLOSED() { return 3; }
    get bufferedAmount() { return 0; } get protocol() { return ''; }
    constructor(url) {
      super();
      if (!/^wss?:\/\//.test(url)) throw new DOMEx('SyntaxError', 'bad websocket url ' + url);
      this.url = url; this.readyState = 0; this.sent = []; this.t0 = clock.now; this.tClose = null;
      this.$n_ = B.sockets.length;
      B.sockets.push(this);
      count('sockets');
      B.onSocket?.(this);
    }
    // host side
    $open() { if (this.readyState === 0) { this.readyState = 1; count('socket_opens'); fire(this, 'open'); return true; } return false; }
    $msg(d) { if (this.readyState === 1) { count('socket_messages'); this.$fire(new MessageEvent_('message', { data: d })); return true; } return false; }
    $drop(err) { if (this.readyState === 3) return; this.readyState = 3; this.tClose = clock.now; if (err) fire(this, 'error'); fire(this, 'close', { code: err ? 1006 : 1000 }); }
    // page side
    send(d) { if (this.readyState === 0) throw new DOMEx('InvalidStateError', 'still connecting'); if (this.readyState === 1) { this.sent.push(d); count('socket_sends'); B.onSend?.(this, d); } else this.lost = (this.lost || 0) + 1; }
    close() { if (this.readyState >= 2) return; const was = this.readyState; this.readyState = 2; this.tReq = clock.now; clock.at(clock.now + 1, () => { if (this.readyState === 3) return; this.readyState = 3; this.tClose = clock.now; if (was === 0) fire(this, 'error'); fire(this, 'close', { code: 1005 }); }); }
  }

  // ---------------------------------------------------------------- globals of the page
  const con = {};
  for (const k of ['debug', 'info', 'log', 'trace', 'group', 'groupEnd']) con[k] = (...a) => { B.infos++; B.onConsole?.(k, a); };
  con.warn = (...a) => { B.warns.push(a); B.onConsole?.('warn', a); };
  con.error = (...a) => { B.errors.push(a); B.onConsole?.('error', a); if (a[0] === 'PANIC') B.panics.push(String(a[1])); };
  class Date_ extends Date { constructor(...a) { if (a.length) super(...a); else super(clock.now); } static now() { return clock.now; } getTimezoneOffset() { return opts.tz ?? 0; } }
  B.exchange = { allocs: 0, consumed: 0, results: 0, frees: 0, bad: [] };
  const wrapExports = ex => {
    const X = B.exchange, host = new Set(), guest = new Set();
    B.outstanding = () => ({ host: host.size, guest: guest.size });
    return {
      memory: ex.memory,
      vertigo_entry_function: (...a) => ex.vertigo_entry_function(...a),
      alloc: n => { const p = ex.alloc(n); X.allocs++; if (host.has(p) || guest.has(p)) X.bad.push(`alloc returned the live block ${p}`); host.add(p); return p; },
      free: p => { X.frees++; if (!guest.delete(p)) X.bad.push(`free of ${p}, which is not an outstanding result`); ex.free(p); },
      wasm_callback: (id, p) => {
        count('callbacks');
        if (p !== 0 && !host.delete(p)) X.bad.push(`wasm_callback got ${p}, which is not an outstanding block`);
        if (p !== 0) X.consumed++;
        const r = ex.wasm_callback(id, p);
        if (r !== 0n) { X.results++; guest.add(Number(BigInt.asUintN(32, r >> 32n))); }
        return r;
      },
      $consumed: p => { if (p !== 0) { X.consumed++; if (!host.delete(p)) X.bad.push(`dom_access returned ${p}, which is not an outstanding block`); } },
    };
  };
  const instantiate = imports => {
    count('instantiations');
    let wrapped;
    const mod = { panic_message: imports.mod.panic_message, dom_access: (p, n) => { count('dom_access'); const r = imports.mod.dom_access(p, n); wrapped.$consumed(r); return r; } };
    const inst = new WebAssembly.Instance(opts.module, { mod, vp: { log: (p, n) => { const t = new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(inst.exports.memory.buffer, p, n)); B.onLog(JSON.parse(t)); } } });
    wrapped = wrapExports(inst.exports);
    B.inst = inst;
    // WebAssembly.Memory must stay recognisable; the other exports are observed
    return { instance: { exports: wrapped }, module: opts.module };
  };
  const WA = { Memory: WebAssembly.Memory, Module: WebAssembly.Module, RuntimeError: WebAssembly.RuntimeError, instantiate: async (b, im) => instantiate(im) };
  if (opts.streaming !== false) WA.instantiateStreaming = async (s, im) => { await s; if (opts.streaming === 'fail') throw new TypeError('bad MIME type'); return instantiate(im); };
  const pageFetch = (url, init) => (String(url) === opts.wasmUrl && !B.started) ? new Promise(ok => { count('module_requests'); opts.wasmDelay ? clock.at(clock.now + opts.wasmDelay, ok) : ok(); }).then(() => ({ arrayBuffer: async () => new ArrayBuffer(0), headers: new Headers(), status: 200 })) : fetch(url, init);
  Object.assign(window, { document, location, history, console: con, Date: Date_, scrollTo: () => count('scrolls'), setTimeout: (f, ...a) => clock.setTimeout(guard(f), ...a), clearTimeout: i => clock.clear(i), setInterval: (f, ...a) => clock.setInterval(guard(f), ...a), clearInterval: i => clock.clear(i), fetch: pageFetch, vp: {}, navigator: { userAgent: 'vp' }, requestAnimationFrame: f => clock.setTimeout(() => guard(f)(clock.now - clock.start), 16), cancelAnimationFrame: i => clock.clear(i), performance: { now: () => clock.now - clock.start, timeOrigin: clock.start }, queueMicrotask });
  window.window = window;
  B.window = window; B.location = location; B.history = history;
  const Math_ = Object.create(Math, { random: { value: () => opts.random ? opts.random() : Math.random(), writable: true, configurable: true } });
  window.Math = Math_;
  B.globals = { Math: Math_, window, self: window, globalThis: window, document, location, history, console: con, Date: Date_, setTimeout: window.setTimeout, clearTimeout: window.clearTimeout, setInterval: window.setInterval, clearInterval: window.clearInterval, queueMicrotask, requestAnimationFrame: window.requestAnimationFrame, cancelAnimationFrame: window.cancelAnimationFrame, performance: window.performance, EventTarget: EventTarget_, DocumentFragment: Fragment_, HTMLScriptElement: HTMLElement_, CharacterData: Data_, removeEventListener: window.removeEventListener.bind(window), fetch: pageFetch, Headers, Response: Response_, WebSocket: WebSocket_, WebAssembly: WA, Event: Event_, KeyboardEvent: KeyboardEvent_, DragEvent: DragEvent_, MessageEvent: MessageEvent_, Node: Node_, Element: Element_, HTMLElement: HTMLElement_, HTMLInputElement: HTMLInputElement_, HTMLTextAreaElement: HTMLTextAreaElement_, HTMLSelectElement: HTMLSelectElement_, Text: Text_, Comment: Comment_, navigator: window.navigator, addEventListener: window.addEventListener.bind(window) };
  return B;
}
export function runScript(B, code) {
  const names = Object.keys(B.globals).filter(k => k !== 'globalThis');
  new Function(...names, code)(...names.map(n => B.globals[n]));
}
