// C21: the page after every update; also C06-C11 seen from the page, C08 (listeners), C10 (events)
import { safe } from './case.mjs';
import { micro } from './browser.mjs';
export const mon = {};
const STR = ['', 'a', '<b>&amp;"\'', 'zażółć 😀', '\ufeffx', 'x\0y', ' lead', 'a\nb', '</script>', '--><!--', '{', '}', '\u2028', '0', 'null', '__proto__'];
const KEYS = [['a', 'KeyA'], ['Enter', 'Enter'], ['ż', 'KeyZ'], [' ', 'Space'], ['Dead', 'Quote'], ['Unidentified', ''], ['', ''], ['ArrowDown', 'ArrowDown'], ['😀', 'F13']];
mon.run = async C => {
  const w = C.k % 5;
  if (w < 3) await views(C);
  else if (w === 3) await batches(C);
  else await handlers(C);
  if (C.dead) return;
  // the second way to start the module must not start it again
  C.B.window.$fire(new C.B.Event('load'));
  await C.adv(4000);
  if (C.B.ev.instantiations !== 1) C.viol('C21', 'started-twice', `the module was started ${C.B.ev.instantiations} times`);
};
const made = C => { // every element the page creates
  const l = [];
  C.prepare = B => { const f = B.document.createElement.bind(B.document); B.document.createElement = n => { const e = f(n); l.push(e); return e; }; };
  return l;
};
// ways a browser may load the module
const how = (C, r, page) => ({ page, noLoad: r.chance(10), streaming: r.pick([true, true, true, false, 'fail']) });
// the page as the server may have sent it
const served = (C, r) => B => {
  C.before = [];
  const put = (p, n) => { p.appendChild(n); C.before.push(n); return n; };
  const m = r.below(4);
  if (m === 0) return;
  for (let i = r.below(4); i >= 0; i--) { const e = B.mk(r.pick(['title', 'style', 'meta', 'link', 'script'])); e.appendChild(new B.Text('served' + i)); put(B.document.head, e); }
  for (let i = r.below(5); i >= 0; i--) {
    if (r.chance(30)) { put(B.document.body, new B.Text(r.pick(STR) || ' ')); continue; }
    const e = put(B.document.body, B.mk(r.pick(['main', 'div', 'style', 'script'])));
    for (let j = r.below(4); j > 0; j--) { const c = B.mk('p'); c.setAttribute('id', 'served'); c.appendChild(new B.Text(r.pick(STR))); e.appendChild(c); }
    if (r.chance(20)) put(B.document.body, new B.Comment('x'));
  }
  C.inc('served_pages');
};
const takeover = C => {
  const B = C.B;
  for (const n of C.before || []) { C.inc('served_nodes'); if (n.parentNode) { C.viol('C21', 'served-left', `a ${n.localName || 'text'} of the server-rendered page is still there after start-up`); break; } }
  const b = B.document.body.childNodes.filter(n => n.nodeType !== 8), h = B.document.head.childNodes.filter(n => n.nodeType !== 8 && n.localName !== 'style');
  if (b.length !== 1 || b[0].localName !== 'main') C.viol('C21', 'takeover', `the body holds ${safe(b.map(n => n.localName || n.textContent))} after start-up, expected the application's main only`);
  if (h.length !== 1 || h[0].localName !== 'title' || h[0].textContent !== 'vp') C.viol('C21', 'takeover', `the head holds ${safe(h.map(n => n.localName || n.textContent))} after start-up, expected the application's title only`);
};
const show = n => n.nodeType === 3 ? JSON.stringify(n.textContent) : `<${n.localName}${[...n.$attrs].map(([k, v]) => ` ${k}=${JSON.stringify(v)}`).join('')}>`;
async function views(C) {
  const r = C.r, made_ = made(C);
  const page = served(C, r);
  await C.boot(how(C, r, page));
  const B = C.B;
  takeover(C);
  const main = () => B.document.body.children.find(e => e.localName === 'main');
  const events = r.chance(70), susp = r.chance(40), markers = r.chance(40), dups = r.chance(25);
  let inst, back;
  let nodes = 0;
  const V = (p, s, m) => { C.viol(p, s, m); if (p !== 'C21') C.viol('C21', s, m); };
  const rules = () => {
    const m = new Map();
    for (const s of B.document.head.children.filter(e => e.localName === 'style')) {
      const x = /^\.(\S+) \{ ([^]*) \}$/.exec(s.textContent);
      if (!x) { V('C21', 'style', `an unreadable style element: ${safe(s.textContent).slice(0, 200)}`); continue; }
      m.set(x[1], [...(m.get(x[1]) || []), x[2]]);
    }
    return m;
  };
  const same = (want, el, css) => {
    const got = el.childNodes.filter(n => n.nodeType !== 8);
    const ws = w => w.map(x => x[0] === 't' ? JSON.stringify(x[1]) : `<${x[1]} s=${x[2]['data-s']} k=${x[2]['data-k']}>`);
    if (got.length !== want.length || !got.every((n, i) => want[i][0] === 't' ? n.nodeType === 3 : n.nodeType === 1 && n.localName === want[i][1] && n.getAttribute('data-s') === want[i][2]['data-s'])) {
      V('C06', 'structure', `children of ${show(el)}: expected ${ws(want).join(' ')}, the page has ${got.map(show).join(' ')}`.slice(0, 900));
      return;
    }
    got.forEach((n, i) => {
      const x = want[i]; nodes++;
      const id = x[0] === 't' ? x[2] : x[7];
      if (id !== null) {
        const a = inst.get(id) ?? n, b = back.get(n) ?? id;
        inst.set(id, a); back.set(n, b);
        if (a !== n) V('C07', 'identity:replaced', `the node standing for instance ${id} was replaced: ${show(n)}`);
        else if (b !== id) V('C07', 'identity:reused', `the node of instance ${b} now stands for instance ${id}: ${show(n)}`);
      }
      if (x[0] === 't') { if (n.textContent !== x[1]) V('C06', 'text', `text ${safe(x[1])} expected, the page has ${safe(n.textContent)}`); return; }
      const [, , attrs, classes, csses, sus, kids] = x;
      for (const k in attrs) if (attrs[k] !== null && n.getAttribute(k) !== attrs[k]) V('C09', 'attr', `${k}=${safe(attrs[k])} expected on ${show(n)}`);
      for (const [k] of n.$attrs) if (k !== 'class' && !(k in attrs)) V('C09', 'attr', `${k} should be absent on ${show(n)}`);
      const toks = (n.getAttribute('class') || '').split(/\s+/).filter(Boolean).map(t => t.startsWith('autocss_') && css.has(t) ? css.get(t).join('\u0001') : t).sort();
      const full = [...classes, ...csses, ...(sus === null ? [] : [sus])].sort();
      if (safe(toks) !== safe(full)) V(sus === null ? 'C09' : 'C11', 'class', `class ${safe(n.getAttribute('class'))} stands for ${safe(toks)}, expected ${safe(full)}`);
      C.inc('attributes_compared', Object.keys(attrs).length + 1);
      same(kids, n, css);
    });
  };
  const verify = what => {
    const d = C.ask('domdoc').find(x => x[0] === 'domdoc')[1], n0 = C.viols.length;
    same(d, main(), rules());
    if (C.viols.length > n0) C.trace('(the last step failed)');
    C.inc('documents_compared');
    if (B.document.body.childNodes.filter(n => n.nodeType !== 8).length !== 1) V('C21', 'stray', `stray nodes in the body after ${what}`);
  };
  const rounds = r.chance(30) ? 2 : 1;
  for (let q = 0; q < rounds && !C.dead && !C.viols.length; q++) {
    inst = new Map(); back = new WeakMap();
    C.cmd('dom', C.seed, C.k * 7 + q, events, susp, markers, dups, 4 + r.below(40));
    C.trace(safe(C.log.filter(x => x.j[0] === 'domdesc').at(-1)?.j[1]));
    verify('mounting');
    const ops = r.range(2, 14);
    for (let i = 0; i < ops && !C.dead && !C.viols.length; i++) {
      if (events && r.chance(45)) {
        const all = main().$all([]);
        if (!all.length) continue;
        for (let t = 0; t < 12; t++) {
          const el = r.pick(all), sid = Number(el.getAttribute('data-s')), ev = r.pick(['click', 'mousedown', 'mouseup', 'mouseenter', 'mouseleave', 'input', 'change', 'blur', 'keydown']);
          if (!el.isConnected) continue;
          if (r.chance(25) && BUBBLING.includes(ev)) { const passed = bubble(C, B, main(), el, ev, r); if (!passed && t < 10) continue; verify('bubbling event ' + ev); break; }
          const want = C.ask('domexp', sid, ev).find(x => x[0] === 'domexp')[1];
          if (want === null && t < 10) continue;
          fire(C, B, el, sid, ev, want, r);
          verify('event ' + ev);
          break;
        }
      } else {
        const o = C.ask('domops').find(x => x[0] === 'domops');
        C.trace('ops ' + o?.[1]);
        verify(o?.[1]);
      }
      C.mix(main().textContent + main().$all([]).length);
      if (r.chance(20)) await C.adv(r.pick([0, 1, 50]));
    }
    if (C.dead || C.viols.length) break;
    C.cmd('domfree');
    C.trace('unmount');
    const left = main().childNodes.filter(n => n.nodeType !== 8);
    if (left.length) V('C08', 'left', `after the view was released the page still holds ${left.map(show).join(' ')}`.slice(0, 500));
    const ln = made_.reduce((n, e) => n + (e.localName === 'a' ? 0 : e.$n()), 0);
    if (ln) V('C08', 'listeners', `after the view was released ${ln} event listeners of its elements are still installed`);
    C.inc('releases_checked');
  }
  C.inc('nodes_compared', nodes);
  C.nontrivial = nodes > 10;
}
function fire(C, B, el, sid, ev, want, r) {
  let e, arg = '';
  const bubbles = false;
  const even = sid % 2 === 0;
  if (ev === 'keydown') {
    const [key, code] = r.pick(KEYS), f = [0, 0, 0, 0].map(() => r.chance(30));
    e = new B.KeyboardEvent('keydown', { bubbles, key, code, altKey: f[0], ctrlKey: f[1], shiftKey: f[2], metaKey: f[3] });
    arg = `${key}|${code}|${f.map(Number).join('')}`;
  } else e = new B.Event(ev, { bubbles });
  C.trace(`event ${ev} on s=${sid}, handler ${want}`);
  if (ev === 'input' || ev === 'change') { // comes from a form field inside
    arg = r.pick(STR).replace(/[\r\n\0]/g, '');
    const f = B.mk(ev === 'input' ? 'input' : r.pick(['input', 'textarea', 'select']));
    f.value = arg; e.target = f; e.currentTarget = el; el.$fire(e);
  } else { e.target = el; e.currentTarget = el; el.$fire(e); }
  C.check();
  C.inc('events_fired');
  C.cmd('domact', sid, ev, want !== null);
  const got = C.log.filter(x => x.j[0] === 'domfired').at(-1)?.j[1] || [];
  const exp = want === null ? [] : [want + arg];
  const P = (s, m) => { C.viol('C10', s, m); };
  if (safe(got) !== safe(exp)) P('handler', `event ${ev} on element s=${sid}: handlers called ${safe(got)}, expected ${safe(exp)}`);
  if (want !== null) {
    C.inc('events_handled');
    const pd = ev === 'click' || ((ev === 'mousedown' || ev === 'mouseup' || ev === 'keydown') && even);
    if (!!e.defaultPrevented !== pd) P('default', `event ${ev} on element s=${sid}, whose handler returns ${even}: the browser's default action was ${e.defaultPrevented ? '' : 'not '}suppressed`);
    if (ev === 'keydown' && !!e.$stop !== even) P('default', `event keydown, whose handler returns ${even}: propagation was ${e.$stop ? '' : 'not '}stopped`);
  }
}
const BUBBLING = ['click', 'mousedown', 'mouseup', 'keydown', 'input', 'change'];
// an event on its way up: the handlers of every element on the path, the inner ones first; one that an
// inner handler has removed is not called any more
function bubble(C, B, main, el, ev, r) {
  let e, arg = '';
  if (ev === 'keydown') { const [key, code] = r.pick(KEYS); e = new B.KeyboardEvent('keydown', { bubbles: true, key, code }); arg = `${key}|${code}|0000`; } else e = new B.Event(ev, { bubbles: true });
  const path = el.$path().slice(0, el.$path().indexOf(main) + 1), own = n => n !== main && n.getAttribute('data-s') !== null;
  const wants = n => !own(n) || !n.isConnected ? null : C.ask('domexp', Number(n.getAttribute('data-s')), ev).find(x => x[0] === 'domexp')[1];
  if (!path.some(n => wants(n) !== null)) return false;
  e.target = el;
  if (ev === 'input' || ev === 'change') { arg = r.pick(STR).replace(/[\r\n\0]/g, ''); const f = B.mk('textarea'); f.value = arg; e.target = f; }
  C.trace(`event ${ev} on its way up from s=${el.getAttribute('data-s')}`);
  let want = wants(path[0]), k = 0, handled = 0, prevented = false, stopped = false;
  el.$pass(e, path, n => {
    C.check();
    if (own(n)) {
      const sid = Number(n.getAttribute('data-s')), even = sid % 2 === 0;
      C.cmd('domact', sid, ev, want !== null);
      const got = C.log.filter(x => x.j[0] === 'domfired').at(-1)?.j[1] || [], exp = want === null ? [] : [want + arg];
      if (safe(got) !== safe(exp)) C.viol('C10', 'bubbling', `event ${ev} on its way up, at s=${sid}: handlers called ${safe(got)}, expected ${safe(exp)}`);
      if (want !== null) { handled++; prevented ||= ev === 'click' || ((ev === 'mousedown' || ev === 'mouseup' || ev === 'keydown') && even); stopped ||= ev === 'keydown' && even; }
    }
    want = path[++k] ? wants(path[k]) : null;
  });
  C.check();
  C.inc('events_passed_up'); C.inc('events_handled', handled);
  if (handled > 1) C.inc('events_handled_twice');
  if (!!e.$stop !== stopped) C.viol('C10', 'bubbling', `event ${ev} on its way up: propagation was ${e.$stop ? '' : 'not '}stopped`);
  if (e.defaultPrevented !== prevented) C.viol('C10', 'default', `event ${ev} on its way up: the browser's default action was ${e.defaultPrevented ? '' : 'not '}suppressed`);
  return true;
}
// random update streams against an independent reading of them
async function batches(C) {
  const r = C.r, V = (s, m) => C.viol('C21', s, m);
  await C.boot(how(C, r, served(C, r)));
  const B = C.B;
  takeover(C);
  const N = new Map(); // id -> model node
  const host = { kids: [] }; // what hangs below main
  const live = new Map(), focus = [];
  let id = 1_000_000, cb = 1;
  const styles = [];
  const css0 = B.document.head.children.filter(e => e.localName === 'style').length;
  const head = { head: true, kids: [] };
  N.set(2, head); N.set(3, { body: true, kids: [] });
  const inside = (a, b) => { for (; b; b = b.parent) if (b === a) return true; return false; };
  const detach = n => { if (n.parent) { n.parent.kids.splice(n.parent.kids.indexOf(n), 1); n.parent = null; } };
  const TAGS = ['div', 'span', 'p', 'input', 'textarea', 'svg', 'path', 'a', 'vertigo-x', 'INPUT', 'table', 'select'];
  const ATTR = ['title', 'data-x', 'value', 'id', 'class', 'viewBox', 'href', 'xml:lang', 'checked', 'aria-label', 'constructor'];
  const step = out => {
    const ids = [...N].filter(([k, n]) => k > 3 && n), els = ids.filter(([, n]) => n.tag), w = r.below(20);
    const pick = l => r.pick(l);
    if (w < 4 || ids.length < 3) { const t = r.pick(TAGS); N.set(++id, { id, tag: t, attrs: new Map(), kids: [], parent: null, svg: t === 'svg' || t === 'path', form: /^(input|textarea)$/i.test(t) ? t.toLowerCase() : null, live: null }); out.push({ type: 'create_node', id, name: t }); }
    else if (w < 6) { const v = r.pick(STR); N.set(++id, { id, text: v, parent: null }); out.push({ type: 'create_text', id, value: v }); }
    else if (w < 7) { N.set(++id, { id, comment: r.pick(STR), parent: null }); out.push({ type: 'create_comment', id, value: N.get(id).comment }); }
    else if (w < 11) { // placed, or moved
      const [ci, c] = pick(ids), ps = [[2, N.get(2)], [3, N.get(3)], ...els.filter(([, n]) => n.form !== 'textarea')];
      const [pi, p] = pick(r.chance(15) ? ps : ps.length > 2 && r.chance(75) ? ps.slice(2) : ps);
      if (inside(c, p)) return;
      const refs = p.kids.filter(k => k.id), ref = refs.length && r.chance(55) ? r.pick(refs) : null;
      const at = ref === c ? p.kids[p.kids.indexOf(c) + 1] ?? null : ref;
      detach(c);
      c.parent = p;
      p.kids.splice(at ? p.kids.indexOf(at) : p.kids.length, 0, c);
      const cmd = { type: 'insert_before', parent: pi, child: ci, ref_id: ref ? ref.id : null };
      out.push(cmd);
    } else if (w < 14 && els.length) {
      const [i, n] = pick(els), name = n.form && r.chance(50) ? 'value' : r.pick(ATTR), v = r.pick(STR);
      if (n.form === 'textarea' && name === 'value' && n.kids.length) return;
      n.attrs.set(n.svg ? name : name.toLowerCase(), v);
      if (name === 'value' && n.form) { n.live = v; n.def = v; }
      out.push({ type: 'set_attr', id: i, name, value: v });
    } else if (w < 15 && els.length) {
      const [i, n] = pick(els), name = n.form && r.chance(50) ? 'value' : n.attrs.size ? r.pick([...n.attrs.keys()]) : 'title';
      if (!n.svg && name !== name.toLowerCase()) return;
      n.attrs.delete(name);
      if (name === 'value' && n.form) { n.live = ''; n.def = ''; }
      out.push({ type: 'remove_attr', id: i, name });
    } else if (w < 17) {
      const t = ids.filter(([, n]) => n.text !== undefined);
      if (t.length) { const [i, n] = pick(t); n.text = r.pick(STR); out.push({ type: 'update_text', id: i, value: n.text }); }
    } else if (w < 18) {
      const [i, n] = pick(ids);
      detach(n); N.delete(i);
      if (focus.includes(i)) focus.splice(focus.indexOf(i), 1, null);
      out.push({ type: n.tag ? 'remove_node' : n.text !== undefined ? 'remove_text' : 'remove_comment', id: i });
    } else if (w < 19) {
      const s = r.pick(['.a', '.b:hover', '@media print { .x', '@keyframes k', '.é', ':root']), v = r.pick(['color: red', 'content: "}"', '', 'width: 1px; top: 0', 'from { top: 0 } to { top: 1px }']);
      styles.push(`${s} { ${v} }`); out.push({ type: 'insert_css', selector: s, value: v });
    } else if (els.length && r.chance(40)) {
      const l = els.filter(([i, n]) => !n.svg && inside(N.get(3), n));
      if (l.length) { const [i] = pick(l); out.push({ type: 'set_attr', id: i, name: 'autofocus', value: '' }); N.get(i).attrs.set('autofocus', ''); focus.push(i); }
    }
  };
  const ser = n => n.text !== undefined ? ['t', n.text] : n.comment !== undefined ? ['c', n.comment] : [n.svg ? 'svg:' + n.tag : n.tag.toLowerCase(), [...n.attrs].sort((a, b) => a[0] < b[0] ? -1 : 1), n.form === 'input' ? norm(n) : n.form === 'textarea' ? [norm(n), n.def ?? ''] : null, n.form === 'textarea' ? [] : n.kids.map(ser)];
  const norm = n => n.typed !== undefined && n.live === null ? n.typed : n.form === 'input' ? (n.live ?? '').replace(/[\r\n]/g, '') : (n.live ?? '').replace(/\r\n?/g, '\n');
  const act = n => n.nodeType === 3 ? ['t', n.textContent] : n.nodeType === 8 ? ['c', n.textContent] : [(n.namespaceURI === 'http://www.w3.org/2000/svg' ? 'svg:' : n.namespaceURI === 'http://www.w3.org/1999/xhtml' ? '' : n.namespaceURI) + n.localName, [...n.$attrs].sort((a, b) => a[0] < b[0] ? -1 : 1), n instanceof B.HTMLInputElement ? n.value : n instanceof B.HTMLTextAreaElement ? [n.value, n.defaultValue] : null, n instanceof B.HTMLTextAreaElement ? [] : n.childNodes.map(act)];
  const made = new Map(); // model node -> page node, learnt from the tree
  const rounds = r.range(2, 15);
  for (let q = 0; q < rounds && !C.dead; q++) {
    const out = [], f0 = focus.length;
    for (let i = r.range(1, 25); i > 0; i--) step(out);
    if (!out.length) continue;
    for (const c of out) C.trace(safe(c));
    C.inc('updates', out.length); C.inc('batches');
    C.cmd('bulk', out);
    // the application's own nodes come first in head and body (style elements are appended to the head)
    const body = B.document.body.childNodes.filter(n => !(n.localName === 'main' || (n.nodeType === 8 && !n.$mine && foreign(n))));
    const want = N.get(3).kids.map(ser), got = body.map(act);
    if (safe(got) !== safe(want)) { V('document', `after a batch the body should hold ${diff(safe(want), safe(got))}`); break; }
    const hk = B.document.head.childNodes, st = hk.filter(n => n.localName === 'style').slice(css0).map(n => n.textContent);
    if (safe(st) !== safe(styles)) { V('styles', `the style elements are ${diff(safe(styles), safe(st))}`); break; }
    const hw = N.get(2).kids.map(ser), hg = hk.filter(n => n.localName !== 'style' && n.localName !== 'title').map(act);
    if (safe(hg) !== safe(hw)) { V('document', `after a batch the head should hold ${diff(safe(hw), safe(hg))}`); break; }
    C.inc('documents_compared'); C.inc('nodes_compared', N.size);
    C.mix(safe(got));
    if (focus.length > f0) {
      await C.settle();
      C.inc('focus_checks');
      const ae = B.document.activeElement;
      const l = focus.slice(f0).filter(x => x !== null);
      const exp = [...new Set(focus.slice(f0))].at(-1);
      if (exp !== null && exp !== undefined && N.get(exp)) { const p = find(N.get(3), N.get(exp), B.document.body.childNodes.filter(n => body.includes(n))); if (p && ae !== p) V('focus', `the element with autofocus was not focused`); }
    }
    // the user types
    if (r.chance(30)) for (const [, n] of N) if (n.form === 'input' && r.chance(40) && inside(N.get(3), n)) {
      const p = find(N.get(3), n, body); if (!p) continue;
      p.value = 'typed' + q; n.live = 'typed' + q; n.typed = undefined; C.inc('typed');
    }
  }
  function foreign(n) { return n === firstComment; }
  C.nontrivial = (C.counters.updates || 0) > 20;
  // links: inner ones navigate without leaving the page, others are left to the browser
  for (const href of [r.pick(['/inner', '/inner?x=1#y', 'rel']), r.pick(['#frag', 'http://site.test/x', 'https://other.test/', '//other.test/'])]) {
    if (C.dead || C.viols.length) break;
    const i = ++id, t = ++id;
    C.cmd('bulk', [{ type: 'create_node', id: i, name: r.pick(['a', 'A']) }, { type: 'set_attr', id: i, name: 'href', value: href }, { type: 'insert_before', parent: 3, child: i, ref_id: null }, { type: 'create_node', id: t, name: 'b' }, { type: 'insert_before', parent: i, child: t, ref_id: null }]);
    const a = B.document.body.children.at(-1), before = B.location.href;
    const e = new B.Event('click', { bubbles: true });
    (r.chance(50) ? a : a.children[0]).dispatchEvent(e);
    const inner = !/^(#|https?:|\/\/)/.test(href);
    const now = inner ? new URL(href, before).href : before;
    C.inc('links_clicked');
    if (B.location.href !== now) V('link', `a click on a link to ${href} at ${before}: the address became ${B.location.href}`);
    if (e.defaultPrevented !== inner) V('link', `a click on a link to ${href}: the browser's own navigation was ${e.defaultPrevented ? '' : 'not '}suppressed`);
    C.cmd('bulk', [{ type: 'remove_node', id: t }, { type: 'remove_node', id: i }]);
  }
  C.check();
}
let firstComment = null;
const find = (m, target, nodes) => { // the page node at the place of a model node
  for (let i = 0; i < m.kids.length; i++) {
    if (m.kids[i] === target) return nodes[i];
    if (m.kids[i].kids && m.kids[i].form !== 'textarea') { const x = find(m.kids[i], target, nodes[i].childNodes); if (x) return x; }
  }
  return null;
};
const diff = (a, b) => { let d = 0; while (a[d] === b[d] && d < a.length) d++; const s = Math.max(0, d - 100); return `...${a.slice(s, d + 150)}, it holds ...${b.slice(s, d + 150)}`; };
// handlers of every kind on elements of every kind
const KINDS = ['click', 'mousedown', 'mouseup', 'mouseenter', 'mouseleave', 'blur', 'load', 'input', 'change', 'keydown', 'hook_keydown', 'drop'];
async function handlers(C) {
  const r = C.r, P = (s, m) => C.viol('C10', s, m), all = made(C);
  await C.boot(how(C, r, served(C, r)));
  const B = C.B;
  takeover(C);
  C.okError = t => /^No files to send|It's not a file|dataTransfer null/.test(t);
  const els = new Map(); let next = 1;
  const ended = [];
  const ops = r.below(50) ? r.range(6, 30) : r.range(100, 250);
  for (let i = 0; i < ops && !C.dead; i++) {
    const w = r.below(12), ids = [...els.keys()];
    if (w < 3 || !ids.length) {
      const id = next++, tag = r.pick(['div', 'div', 'input', 'textarea', 'select', 'a', 'img']), kinds = KINDS.filter(() => r.chance(35)), yes = r.chance(50);
      C.trace(`element ${id} ${tag} with ${kinds} returning ${yes}`);
      C.cmd('tx', [['evnew', id, tag, kinds, yes]]);
      const el = all.find(e => e.getAttribute('id') === 'el' + id);
      if (!el) { P('element', `element ${id} was not created`); return; }
      els.set(id, { el, tag, kinds, yes });
    } else if (w < 4) {
      const id = r.pick(ids);
      C.trace('drop element ' + id);
      C.cmd('tx', [['eldrop', id]]); ended.push([id, els.get(id)]); els.delete(id); C.inc('elements_dropped');
    } else {
      const dead = ended.length && r.chance(15), [id, x] = dead ? r.pick(ended) : [...els][r.below(els.size)], kind = r.pick(KINDS);
      const n0 = C.log.length;
      let e, want = [], pd = false, stop = false;
      const on = k => !dead && x.kinds.includes(k);
      if (kind === 'keydown' || kind === 'hook_keydown') {
        const [key, code] = r.pick(KEYS), f = [0, 0, 0, 0].map(() => r.chance(30)), arg = [key, code, ...f];
        e = new B.KeyboardEvent('keydown', { key, code, altKey: f[0], ctrlKey: f[1], shiftKey: f[2], metaKey: f[3] });
        if (kind === 'keydown') { if (on(kind)) { want.push(['ev', id, kind, arg]); pd = stop = x.yes; } }
        else for (const [j, y] of els) if (y.kinds.includes(kind)) { want.push(['ev', j, kind, arg]); pd ||= y.yes; stop ||= y.yes; }
      } else if (kind === 'drop') {
        const files = Array.from({ length: r.chance(8) ? r.range(4, 40) : r.below(4) }, (_, n) => [r.pick(['a.txt', 'ż 😀.bin', '', 'x/y']), Uint8Array.from({ length: r.pick(n > 4 ? [0, 1, 5, 300] : [0, 1, 5, 300, 5000, 70000]) }, () => r.below(256)), r.chance(85), r.pick([0, 0, 3, 20])]);
        const items = files.map(([name, data, file, d]) => ({ getAsFile: () => file ? { name, arrayBuffer: () => new Promise(ok => d ? B.clock.at(B.clock.now + d, () => ok(data.slice().buffer)) : ok(data.slice().buffer)) } : null }));
        const none = r.chance(10);
        e = new B.DragEvent('drop', { dataTransfer: none ? null : { items } });
        const l = files.filter(f => f[2]).map(([n, d]) => [n, Buffer.from(d).toString('hex')]);
        if (on(kind)) { pd = true; if (!none && l.length) want.push(['ev', id, kind, l]); }
      } else {
        const text = r.pick(STR);
        e = new B.Event(kind);
        if (kind === 'input' || kind === 'change') x.el.value = text;
        if (on(kind)) {
          const field = /^(input|textarea)$/.test(x.tag) || (kind === 'change' && x.tag === 'select');
          if (kind === 'input' || kind === 'change') { if (field) want.push(['ev', id, kind, x.el.value]); }
          else want.push(['ev', id, kind, null]);
          pd = kind === 'click' || kind === 'load' || ((kind === 'mousedown' || kind === 'mouseup') && x.yes);
        }
      }
      C.trace(`event ${kind} on element ${id}${dead ? ' (dropped)' : ''}`);
      e.target = kind === 'hook_keydown' ? B.document : x.el;
      e.target.$fire(e);
      await C.adv(kind === 'drop' ? 30 : 0);
      C.check(); C.inc('events_fired');
      if (want.length) C.inc('events_handled');
      if (dead) C.inc('events_on_dropped');
      const got = C.log.slice(n0).filter(l => l.j[0] === 'ev').map(l => l.j);
      if (safe(got) !== safe(want)) P('handler', `event ${kind} on element ${id}${dead ? ', dropped before' : ''} (${x.tag} with ${x.kinds}): called ${safe(got).slice(0, 300)}, expected ${safe(want).slice(0, 300)}`);
      if (e.defaultPrevented !== pd) P('default', `event ${kind} on element ${id} (handlers return ${x.yes}): the default action was ${e.defaultPrevented ? '' : 'not '}suppressed`);
      if (!!e.$stop !== stop) P('default', `event ${kind} on element ${id} (handlers return ${x.yes}): propagation was ${e.$stop ? '' : 'not '}stopped`);
      C.mix(kind + want.length);
    }
  }
  // a file handed over while the element goes away reaches nobody
  const d = [...els].find(([, x]) => x.kinds.includes('drop'));
  if (d && !C.dead && r.chance(60)) {
    const n0 = C.log.length;
    d[1].el.$fire(Object.assign(new B.DragEvent('drop', { dataTransfer: { items: [{ getAsFile: () => ({ name: 'late', arrayBuffer: () => new Promise(ok => B.clock.at(B.clock.now + 10, () => ok(new ArrayBuffer(3)))) }) }] } }), { target: d[1].el }));
    C.cmd('tx', [['eldrop', d[0]]]); els.delete(d[0]); ended.push(d);
    C.lateDrop = true;
    C.okError = t => /^No files to send|It's not a file|dataTransfer null|callback/i.test(t);
    await C.adv(30);
    if (C.log.slice(n0).some(l => l.j[0] === 'ev')) P('called-after-drop', 'a drop handler was called after its element had been dropped');
    C.inc('late_files');
  }
  for (const id of [...els.keys()]) { ended.push([id, els.get(id)]); C.cmd('tx', [['eldrop', id]]); }
  const n = all.reduce((s, e) => s + (e.localName === 'a' ? 0 : e.$n()), 0) + (B.document.$l.get('keydown') || []).length;
  if (n && !C.dead) C.viol('C08', 'listeners', `after all elements were dropped ${n} event listeners are still installed`);
  C.nontrivial = (C.counters.events_handled || 0) > 2;
  if (C.k % 6 === 0 && !C.viols.length && !C.dead) await C.plateau('element-leak', 'repeated_element_memory_checks', async i => {
    C.cmd('tx', [['evnew', 900, 'input', KINDS, true]]);
    const el = all.find(e => e.getAttribute('id') === 'el900' && !e.$used); el.$used = true; el.value = 'x';
    for (const k of ['click', 'input', 'keydown', 'drop']) el.$fire(Object.assign(k === 'keydown' ? new B.KeyboardEvent(k, { key: 'a', code: 'KeyA' }) : k === 'drop' ? new B.DragEvent(k, { dataTransfer: { items: [{ getAsFile: () => ({ name: 'f', arrayBuffer: async () => new ArrayBuffer(9) }) }] } }) : new B.Event(k), { target: el }));
    await C.adv(5);
    C.cmd('tx', [['eldrop', 900]]);
  });
}
