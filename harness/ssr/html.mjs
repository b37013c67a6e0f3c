// A strict reader of HTML following the tokenisation rules of the standard (data, RCDATA, raw text,
// character references, attributes); tree building for documents without implied tags.
import { E } from './entities.mjs';
const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style', 'xmp', 'iframe', 'noembed', 'noframes']);
const RCDATA = new Set(['title', 'textarea']);
const C1 = [0x20ac, 0, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0, 0x17d, 0, 0, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0, 0x17e, 0x178];
const MAXNAME = Math.max(...Object.keys(E).map(k => k.length));
export function decode(s, attr) {
  if (!s.includes('&')) return s;
  let o = '', i = 0;
  while (i < s.length) {
    const k = s.indexOf('&', i);
    if (k < 0) { o += s.slice(i); break }
    o += s.slice(i, k); i = k;
    let m;
    if ((m = /^&#(?:[xX]([0-9a-fA-F]+)|([0-9]+));?/.exec(s.slice(i, i + 20)))) {
      let c = m[1] ? parseInt(m[1], 16) : parseInt(m[2], 10);
      if (c === 0 || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) c = 0xfffd;
      if (c >= 0x80 && c < 0xa0 && C1[c - 0x80]) c = C1[c - 0x80];
      o += String.fromCodePoint(c); i += m[0].length; continue;
    }
    let hit = '';
    const w = s.slice(i + 1, i + 1 + MAXNAME);
    for (let n = Math.min(w.length, MAXNAME); n > 1; n--) if (Object.hasOwn(E, w.slice(0, n))) { hit = w.slice(0, n); break }
    if (hit && !(attr && !hit.endsWith(';') && /^[=a-zA-Z0-9]/.test(s.slice(i + 1 + hit.length, i + 2 + hit.length)))) { o += E[hit]; i += 1 + hit.length; continue }
    o += '&'; i++;
  }
  return o;
}
export function parse(src) {
  const errors = [];
  let s = src.replace(/\r\n?/g, '\n'), i = 0;
  const root = { tag: '#document', attrs: new Map(), kids: [], doctype: null };
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const text = t => { if (!t) return; const k = top().kids, l = k[k.length - 1]; if (l && l.text !== undefined) l.text += t; else k.push({ text: t }) };
  while (i < s.length) {
    const lt = s.indexOf('<', i);
    if (lt < 0) { text(decode(s.slice(i), false)); break }
    text(decode(s.slice(i, lt), false)); i = lt;
    let m;
    if (/^<!doctype/i.test(s.slice(i, i + 9))) { const e = s.indexOf('>', i); root.doctype = s.slice(i + 9, e).trim().toLowerCase(); if (root.kids.some(k => k.tag || k.text.trim())) errors.push('doctype is not first'); i = e + 1; continue }
    if (s.startsWith('<!--', i)) { const e = s.indexOf('-->', i + 4); if (e < 0) { errors.push('unclosed comment'); break } i = e + 3; continue }
    if ((m = /^<\/([a-zA-Z][^\s/>]*)[^>]*>/.exec(s.slice(i, i + 300)))) {
      const t = m[1].toLowerCase();
      if (top().tag !== t) { errors.push(`</${t}> closes <${top().tag}>`); return { root, errors } }
      stack.pop(); i += m[0].length; continue;
    }
    if (!/^<[a-zA-Z]/.test(s.slice(i, i + 2))) { errors.push('stray <: ' + s.slice(i, i + 30)); text('<'); i++; continue }
    // start tag
    i++;
    let n = '';
    while (i < s.length && !/[\s/>]/.test(s[i])) n += s[i++];
    const el = { tag: n.toLowerCase(), raw: n, attrs: new Map(), kids: [] };
    for (;;) {
      while (i < s.length && /[\s/]/.test(s[i])) i++;
      if (i >= s.length) { errors.push('unclosed tag ' + n); return { root, errors } }
      if (s[i] === '>') { i++; break }
      let an = '', av = '';
      do an += s[i++]; while (i < s.length && !/[\s/>=]/.test(s[i]));
      while (/\s/.test(s[i] ?? 'x')) i++;
      if (s[i] === '=') {
        i++;
        while (/\s/.test(s[i] ?? 'x')) i++;
        if (s[i] === '"' || s[i] === "'") { const q = s[i], e = s.indexOf(q, i + 1); if (e < 0) { errors.push('unclosed attribute'); return { root, errors } } av = decode(s.slice(i + 1, e), true); i = e + 1; if (!/[\s/>]/.test(s[i] ?? '>')) errors.push('no space after attribute ' + an) }
        else { errors.push('unquoted attribute ' + an); while (i < s.length && !/[\s>]/.test(s[i])) av += s[i++]; av = decode(av, true) }
      }
      an = an.toLowerCase();
      if (/["'<]/.test(an)) errors.push('bad attribute name ' + an);
      if (el.attrs.has(an)) errors.push('attribute twice: ' + an); else el.attrs.set(an, av);
    }
    top().kids.push(el);
    if (VOID.has(el.tag)) continue;
    if (RAW.has(el.tag) || RCDATA.has(el.tag)) {
      const re = new RegExp('</' + el.tag + '[\\s/>]', 'i'), r = re.exec(s.slice(i));
      if (!r) { errors.push('unclosed ' + el.tag); return { root, errors } }
      let t = s.slice(i, i + r.index);
      if (el.tag === 'textarea' && t.startsWith('\n')) t = t.slice(1);
      if (RCDATA.has(el.tag)) t = decode(t, false);
      if (t) el.kids.push({ text: t });
      i += r.index; i = s.indexOf('>', i) + 1;
      continue;
    }
    if ((el.tag === 'pre' || el.tag === 'listing') && s[i] === '\n') i++;
    stack.push(el);
  }
  if (stack.length !== 1) errors.push('unclosed: ' + stack.slice(1).map(x => x.tag).join(' '));
  return { root, errors };
}
