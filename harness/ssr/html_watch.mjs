// C29: `vertigo watch` against histories of source changes: what is served, what connected pages are
// told, and what the script in the pages does with it. The compiler is a stand-in reading the source
// file; the application of every build is a recording of the real one with the number of the build.
import fs from 'node:fs';
import http from 'node:http';
import path from 'node:path';
import vm from 'node:vm';
import { spawn } from 'node:child_process';
import { request, sleep, track, freePort } from './server.mjs';
import { parse } from './html.mjs';
import { hash, cut } from './common.mjs';
// like cargo: one compilation at a time, the sources are read when it starts
const CARGO = `#!/bin/sh
case "$1" in
  metadata) cat "$VP_STUB/metadata.json" ;;
  build)
    mkdir -p target/wasm32-unknown-unknown/release
    exec 9> target/.lock; flock 9
    S=$(cat "$VP_SRC.more" 2>/dev/null || cat "$VP_SRC"); set -- $S
    echo "start $S" >> "$VP_STUB/calls"
    [ "$3" = 0 ] || sleep "$3"
    if [ "$1" = fail ]; then echo "error: could not compile" >&2; echo "end $S" >> "$VP_STUB/calls"; exit 101; fi
    cp -R "$VP_STUB/out/$2/." target/wasm32-unknown-unknown/release/
    echo "end $S" >> "$VP_STUB/calls" ;;
esac
`;
const OPT = '#!/bin/sh\ncp "$5" "$4.tmp" || exit 1\n[ "$VP_OPT" = 0 ] || sleep "$VP_OPT"\nmv "$4.tmp" "$4"\n';
const MARK = 'build 000000';
const leb = n => { const l = []; do { let b = n & 127; n = Math.floor(n / 128); if (n) b |= 128; l.push(b) } while (n); return l };
const sleb = n => { const l = []; for (; ;) { const b = n & 127; n >>= 7; if ((n === 0 && !(b & 64)) || (n === -1 && b & 64)) { l.push(b); return l } l.push(b | 128) } };
const str = s => { const b = [...Buffer.from(s)]; return [...leb(b.length), ...b] };
const vec = l => [...leb(l.length), ...l.flat()];
const sec = (id, body) => [id, ...leb(body.length), ...body];
// what the real application says when it starts: what it draws, how it asks for its address, and its
// answer at an address that is plain text
export function record(file) {
  const m = new WebAssembly.Module(fs.readFileSync(file)), calls = [];
  const inst = new WebAssembly.Instance(m, { mod: { panic_message() { throw new Error('the small application panicked') }, dom_access(p, n) {
    const b = Buffer.from(Buffer.from(inst.exports.memory.buffer).subarray(p, p + n)); calls.push(b);
    if (!b.includes('historyLocation')) return 0;
    const v = Buffer.from([11, 0, 0, 0, 6, ...Buffer.from('/plain')]), at = inst.exports.alloc(v.length);
    const place = typeof at === 'bigint' ? Number(at >> 32n) : at;
    v.copy(Buffer.from(inst.exports.memory.buffer), place); return at;
  } } });
  try { inst.exports.vertigo_entry_function(0, 6) } catch (e) { throw new Error('the small application could not be recorded: ' + e) }
  const plain = calls.filter(c => c.includes('plain build 000000')), draw = calls.filter(c => c.includes(MARK) && !plain.includes(c)), ask = calls.filter(c => c.includes('historyLocation') && !c.includes('decode'));
  if (!draw.length) throw new Error('the small application did not draw its page');
  if (plain.length !== 1 || ask.length !== 1) throw new Error('the small application did not give its plain answer');
  return { draw, ask: ask[0], plain: plain[0] };
}
export function moduleOf({ draw, ask, plain }, n) {
  const text = Buffer.from('build ' + String(n).padStart(6, '0'));
  const data = []; let at = 1024;
  const put = c => { const b = Buffer.from(c); let i; while ((i = b.indexOf(MARK)) >= 0) text.copy(b, i); data.push([at, b]); const p = at; at += b.length + 7 & ~7; return [0x41, ...sleb(p), 0x41, ...sleb(b.length), 0x10, 1] };
  const I32 = 0x7f, I64 = 0x7e, HEAP = 131072;
  const types = [[0x60, ...vec([[I32], [I32]]), 0], [0x60, ...vec([[I32], [I32]]), 1, I32], [0x60, 1, I32, 1, I32], [0x60, 1, I32, 0], [0x60, ...vec([[I64], [I32]]), 1, I64]];
  const body = c => { const b = [0, ...c, 0x0b]; return [...leb(b.length), ...b] };
  // its address comes back in the memory: at /p… it gives its plain answer after drawing
  const entry = [...draw.flatMap(c => [...put(c), 0x1a]), ...put(ask), 0x1a, 0x41, ...sleb(HEAP + 6), 0x2d, 0, 0, 0x41, ...sleb(112), 0x46, 0x04, 0x40, ...put(plain), 0x1a, 0x0b];
  return Buffer.from([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0,
    ...sec(1, vec(types)),
    ...sec(2, vec([[...str('mod'), ...str('panic_message'), 0, 0], [...str('mod'), ...str('dom_access'), 0, 1]])),
    ...sec(3, vec([[0], [2], [3], [4]])),
    ...sec(5, [1, 0, 4]),
    ...sec(7, vec([[...str('memory'), 2, 0], [...str('vertigo_entry_function'), 0, 2], [...str('alloc'), 0, 3], [...str('free'), 0, 4], [...str('wasm_callback'), 0, 5]])),
    ...sec(10, vec([body(entry), body([0x41, ...sleb(HEAP)]), body([]), body([0x42, 0])])),
    ...sec(11, vec(data.map(([p, b]) => [0, 0x41, ...sleb(p), 0x0b, ...leb(b.length), ...b])))]);
}
class Events {
  // a browser's connection to the notices; connects again when it breaks
  constructor(url, on) { this.url = url; this.on = on; this.closed = false; this.list = []; this.times = []; this.opens = 0; this.go() }
  go() {
    if (this.closed) return;
    this.q = http.get(this.url, { agent: false, headers: { accept: 'text/event-stream' } }, r => {
      if (r.statusCode !== 200) { r.resume(); return this.again() }
      this.opens++;
      let buf = ''; r.setEncoding('utf8');
      r.on('data', d => {
        buf += d; let i;
        while ((i = buf.search(/\r?\n\r?\n/)) >= 0) {
          const block = buf.slice(0, i); buf = buf.slice(i).replace(/^\r?\n\r?\n/, '');
          const data = block.split(/\r?\n/).filter(l => l.startsWith('data:')).map(l => l.slice(5).replace(/^ /, ''));
          if (data.length) { this.list.push(data.join('\n')); this.times.push(Date.now()); if (!this.closed && this.on) this.on(data.join('\n')) }
        }
      });
      r.on('close', () => this.again()); r.on('error', () => { });
    });
    this.q.on('error', () => this.again());
  }
  again() { if (this.closed || this.t) return; this.t = setTimeout(() => { this.t = null; this.go() }, 200) }
  close() { this.closed = true; clearTimeout(this.t); this.q?.destroy() }
}
class El {
  constructor(tag) { this.tag = tag; this.kids = []; this.attrs = {}; this.on = {}; this.parent = null }
  appendChild(c) { c.remove(); this.kids.push(c); c.parent = this; return c }
  append(...l) { for (const c of l) this.appendChild(typeof c === 'string' ? new Tx(c) : c) }
  removeChild(c) { if (c.parent !== this) throw new Error('not a child'); c.remove(); return c }
  remove() { if (this.parent) { this.parent.kids.splice(this.parent.kids.indexOf(this), 1); this.parent = null } }
  setAttribute(k, v) { this.attrs[k] = v }
  addEventListener(t, f) { (this.on[t] ||= []).push(f) }
  get firstChild() { return this.kids[0] ?? null }
  get textContent() { return this.kids.map(k => k.textContent).join('') }
}
class Tx extends El { constructor(t) { super('#text'); this.text = t } get textContent() { return this.text } }
// a page open in a browser
class Page {
  constructor(run, lag) { this.run = run; this.lag = lag; this.loads = []; this.gone = false; this.messages = []; this.since = 0 }
  async load() {
    this.events?.close(); this.events = null; this.since = this.messages.length;
    let x;
    // the browser tries for a while
    const began = Date.now(), told = this.loads.length > 0; let refused = null;
    for (let i = 0; i < 40 && !this.gone; i++) {
      x = await request(this.run.port, '/', { fresh: 1, timeout: 20000 }); if (x.status) break;
      // the page was told that the build is there, and no change has taken it away
      if (told && began - this.run.changed() > 1500 && x.error === 'ECONNREFUSED') this.run.V('told-early', `a page that was told ${JSON.stringify(this.messages.at(-1))} asks for the build and finds no server, ${began - this.run.changed()} ms after the last change`);
      if (told && x.error === 'ECONNREFUSED') refused = this.messages.at(-1);
      await sleep(100);
    }
    if (this.gone) return;
    // nobody was told of another build since, so it is the same server that was not there yet
    if (refused && x.status === 200) { const l = this.run.heard(); this.run.C.inc('pages_refused'); if (l.length && l.every(m => m === refused)) this.run.V('told-early', `a page that was told ${JSON.stringify(refused)} asked for the build and found no server; nothing else was told before there was one`) }
    // no server for long (a change took it away): the browser gives up
    if (x.status !== 200) { this.run.gaveUp(this); return }
    const v = this.run.versionOf(x);
    this.run.C.inc('pages_loaded');
    if (told) this.run.C.inc('pages_loaded_again');
    const now = { version: v, t: Date.now() }; this.loads.push(now);
    const code = this.run.scriptOf(x, this);
    // a slow page runs its script some time after it was drawn
    if (this.lag) { await sleep(this.lag); this.lag = 0; if (this.gone) return }
    const root = this.root = new El('html');
    const page = this, win = { location: { reload() { now.reloaded = (now.reloaded || 0) + 1; page.run.C.inc('reloads'); if (now.reloaded === 1) { page.leaving = true; setTimeout(() => page.load().finally(() => { page.leaving = false }), 0) } } } };
    const document = { documentElement: root, body: root, createElement: t => new El(t), createTextNode: t => new Tx(t) };
    function EventSource(url) { const s = this; page.events = new Events(url, d => { page.messages.push(d); try { (s.onmessage || (() => { }))({ data: d }) } catch (e) { page.run.V('script', 'the watch script failed at ' + d + ': ' + e) } }); s.close = () => page.events.close() }
    try { vm.runInNewContext(code, { window: win, location: win.location, document, EventSource, console: { info() { }, log() { }, error: m => page.run.V('script', 'the watch script reports: ' + m), warn() { } } }) }
    catch (e) { this.run.V('script', 'the watch script failed: ' + e) }
  }
  notice() { return this.root ? this.root.textContent : '' }
  // its only notice since it was loaded is the version of a build that ended before it could listen:
  // nothing tells it that it was drawn by the one before
  unaware() { return this.messages.length === this.since + 1 && /^Version/.test(this.messages[this.since]) }
  close() { this.gone = true; this.events?.close() }
}
export const mon = {
  prop: 'C29',
  async setup(env) { env.calls = record(env.o.watchwasm) },
  async run(C, env) {
    const r = C.r, dir = path.join(env.scratch, 'w' + C.k), stub = dir + '-stub', bin = dir + '-bin';
    const V = (s, m) => C.viol('C29', s, m);
    const at = () => `${((Date.now() - t0) / 1000).toFixed(2)} s`;
    let t0 = Date.now();
    const rootPkg = r.chance(40), name = r.pick(['app', 'my-app', 'web_ui']);
    const pdir = rootPkg ? dir : path.join(dir, name);
    for (const d of [pdir + '/src', stub + '/out', bin, dir + '/extra/deep']) fs.mkdirSync(d, { recursive: true });
    const exe = (n, t) => fs.writeFileSync(path.join(bin, n), t, { mode: 0o755 });
    exe('cargo', CARGO); exe('rustup', '#!/bin/sh\necho "wasm32-unknown-unknown (installed)"\n');
    const opt = r.pick([null, null, '0', '0.3', '0.8']);
    if (opt !== null) exe('wasm-opt', OPT);
    const id = n => `${n} 0.1.0 (path+file://${dir}/${n})`;
    const pk = (n, d, cd) => ({ id: id(n), name: n, version: '0.1.0', manifest_path: `${d}/Cargo.toml`, dependencies: [], targets: [{ kind: cd ? ['cdylib', 'rlib'] : ['lib'], name: n, crate_types: cd ? ['cdylib', 'rlib'] : ['lib'], src_path: 'x' }] });
    fs.writeFileSync(stub + '/metadata.json', JSON.stringify({ packages: [pk(name, pdir, true), pk('helper', dir + '/extra', false)], workspace_members: [id(name), id('helper')], target_directory: dir + '/target', workspace_root: dir, resolve: null, version: 1 }));
    const dest = r.pick(['build', './build', path.join(dir, 'abs-dist'), rootPkg ? 'out/dist' : name + '/dist']);
    const extra = r.chance(50), src = path.join(pdir, 'src/lib.rs'), watched = [pdir + '/src', pdir, ...(extra ? [dir + '/extra', dir + '/extra/deep'] : [])];
    let builds = 0, state = null;
    const loaders = new Map(), wasmOf = {};
    const tell = (ok, delay) => {
      const n = ++builds;
      // sometimes only the loader is another one
      const w = wasmOf[n] = builds > 1 && r.chance(20) ? wasmOf[n - 1] : n;
      if (w !== n) C.inc('only_the_loader_changed');
      const o = `${stub}/out/${n}`; fs.mkdirSync(o + '/static', { recursive: true });
      fs.writeFileSync(o + '/static/wasm_run.js', '//' + n + '\n'); fs.writeFileSync(`${o}/${name.replace(/-/g, '_')}.wasm`, moduleOf(env.calls, w));
      state = { ok, n, w, delay };
      return `${ok ? 'ok' : 'fail'} ${n} ${delay}\n`;
    };
    const delay = () => r.pick(['0', '0', '0.1', '0.4', '0.9', '1.5']);
    fs.writeFileSync(src, tell(r.chance(85), delay()));
    const port = await freePort(), wport = await freePort();
    const args = ['watch', ...(r.chance(40) ? [name] : []), '--dest-dir', dest, '--port', String(port), '--port-watch', String(wport), ...(extra ? ['--add-watch-path', r.pick(['extra', path.join(dir, 'extra')])] : [])];
    C.line(`vertigo ${args.join(' ')} (package ${rootPkg ? 'at the root' : 'in a folder'}, wasm-opt ${opt}); sources: ${JSON.stringify(state)}`);
    t0 = Date.now();
    const p = spawn(env.o.exe, args, { cwd: dir, env: { PATH: bin + ':/usr/bin:/bin', HOME: dir, VP_STUB: stub, VP_SRC: src, VP_OPT: opt ?? '0' }, stdio: ['ignore', 'pipe', 'pipe'], detached: true });
    track({ kill() { try { process.kill(-p.pid, 'SIGKILL') } catch { } } });
    let log = '', exited = null;
    const on = d => { log += d; if (log.length > 40000) log = log.slice(-20000) };
    p.stdout.on('data', on); p.stderr.on('data', on); p.on('exit', (c, s) => { exited = c ?? s });
    const calls = () => { try { return fs.readFileSync(stub + '/calls', 'utf8').trim().split('\n') } catch { return [] } };
    // what a page shows: the number in its text and the loader it asks for
    const versionOf = x => { let t = null, src = '', wasm = ''; const walk = k => { if (k.tag === 'p') t ??= k.kids[0]?.text; if (k.attrs?.has('data-vertigo-run-wasm')) { src = k.attrs.get('src'); wasm = k.attrs.get('data-vertigo-run-wasm') } k.kids?.forEach(walk) }; walk(parse(x.body.toString()).root); const m = /^build (\d{6})$/.exec(t || ''); return { w: m ? Number(m[1]) : null, src, wasm } };
    const newest = v => !!v && v.w === state.w && loaders.get(v.src) === state.n;
    const scriptOf = x => {
      // the page of the application, and the script once, at its end
      const html = x.body.toString(), all = []; const walk = k => { if (k.tag) { all.push(k); k.kids.forEach(walk) } }; walk(parse(html).root);
      const own = all.filter(k => k.tag === 'script' && k.kids[0]?.text.includes('start_watch('));
      if (own.length !== 1) V('script-count', `the page has the watch script ${own.length} times: ${cut(html, 900)}`);
      const t = all.find(k => k.tag === 'p')?.attrs.get('title'), s = all.find(k => k.tag === 'script')?.kids[0]?.text;
      if (t !== '</body>' || s !== "let a = '</body>';") V('page-changed', `watching changed the page: title ${JSON.stringify(cut(t ?? null))}, script ${JSON.stringify(cut(s ?? null))}`);
      return own[own.length - 1]?.kids[0]?.text || '';
    };
    const R = { C, V, port, versionOf, scriptOf, changed: () => changed, heard: () => clients.map(c => c.list.at(-1)), gaveUp(P) { const i = pages.indexOf(P); if (i >= 0) pages.splice(i, 1); P.close(); C.inc('pages_without_server') } };
    const clients = [], pages = [];
    const url = `http://127.0.0.1:${wport}/events`;
    const connect = () => { clients.push(new Events(url)); C.inc('clients') };
    const open = async lag => { const P = new Page(R, lag); pages.push(P); await P.load() };
    const serves = async () => {
      const x = await request(port, '/', { fresh: 1, timeout: 20000 });
      if (x.status !== 200) return null;
      const v = versionOf(x);
      if (!loaders.has(v.src)) { const j = await request(port, v.src, { fresh: 1, timeout: 20000 }), m = j.status === 200 && /^\/\/(\d+)\n$/.exec(j.body); if (m) loaders.set(v.src, Number(m[1])) }
      return v;
    };
    let changed = Date.now();
    const settled = async ms => {
      const end = Date.now() + ms;
      // the change has been noticed by then
      while (Date.now() - changed < 900) await sleep(50);
      while (Date.now() < end && exited === null && !C.viols.length) {
        const c = calls().at(-1);
        if (c === `end ${state.ok ? 'ok' : 'fail'} ${state.n} ${state.delay}`) {
          const told = l => { const m = l.list.at(-1); return state.ok ? /^Version/.test(m) : m === 'Errors' };
          if (!state.ok) { if (clients.every(told) && pages.every(P => !P.events || told(P.events))) return true }
          else if (newest(await serves()) && clients.every(told) && pages.every(P => !P.leaving && ((newest(P.loads.at(-1)?.version) || P.unaware()) && P.events && told(P.events)))) return true;
        }
        await sleep(100);
      }
      return false;
    };
    try {
      if (r.chance(60)) connect();
      if (r.chance(70)) { await settled(30000) }
      const steps = r.chance(20) ? r.range(8, 14) : r.range(2, 7);
      for (let s = 0; s < steps && exited === null && !C.viols.length; s++) {
        const k = r.below(15);
        if (k === 12) {
          // a change that only takes a file away
          const a = tell(true, '0'), sa = state, b = tell(r.chance(85), delay()), sb = state, more = src + '.more';
          fs.writeFileSync(more, a); fs.writeFileSync(src, b); state = sa; changed = Date.now(); C.inc('changes'); C.line(`${at()}: a file more: ${a.trim()}`);
          await settled(40000);
          r.chance(60) ? fs.unlinkSync(more) : fs.renameSync(more, stub + '/more' + s);
          state = sb; changed = Date.now(); C.inc('changes'); C.inc('files_taken_away'); C.line(`${at()}: the file is gone: sources become ${b.trim()}`);
        } else if (k === 13) {
          // a page is opened while a build is under way
          if (exited !== null || await serves() === null) continue;
          fs.writeFileSync(src, tell(r.chance(70), r.pick(['0.9', '1.5']))); changed = Date.now(); C.inc('changes'); C.line(`${at()}: sources become ${JSON.stringify(state)}, then a page is opened`);
          await sleep(r.pick([150, 300, 500])); open(); C.inc('pages_opened_during_build');
        } else if (k === 14) {
          // a slow page: the change comes between its drawing and its script
          if (exited !== null || await serves() === null) continue;
          open(600); await sleep(300);
          fs.writeFileSync(src, tell(r.chance(75), r.pick(['0.9', '1.5']))); changed = Date.now(); C.inc('changes'); C.line(`${at()}: a slow page is opened, then sources become ${JSON.stringify(state)}`);
          C.inc('slow_pages');
        } else if (k < 6) {
          const ok = r.chance(75), t = tell(ok, delay());
          const how = r.below(3);
          if (how === 0) fs.writeFileSync(src, t);
          else if (how === 1) { fs.writeFileSync(src + '.new', t); fs.renameSync(src + '.new', src) }
          else { fs.writeFileSync(src, t); const d = r.pick(watched); const f = path.join(d, 'm' + s + '.rs'); fs.writeFileSync(f, '//\n'); if (r.chance(40)) { await sleep(r.pick([0, 60])); fs.unlinkSync(f) } }
          changed = Date.now(); C.inc('changes'); C.line(`${at()}: sources become ${t.trim()}`);
        } else if (k === 6) {
          // a change seen only where another folder is watched too
          const d = r.pick(watched);
          const sub = path.join(d, 'n' + s); fs.mkdirSync(sub, { recursive: true });
          C.line(`${at()}: a folder is made in ${path.relative(dir, d)}`);
          if (r.chance(50)) { await sleep(r.pick([50, 300])); fs.writeFileSync(src, tell(true, '0')); C.line(`${at()}: sources become ${JSON.stringify(state)}`) }
          changed = Date.now(); C.inc('changes');
        } else if (k < 9) { if (exited === null && await serves() !== null) { C.line(`${at()}: a page is opened`); open(); if (r.chance(50)) await sleep(100) } }
        else if (k === 9) { C.line(`${at()}: a client connects`); connect() }
        else { C.line(`${at()}: waiting until it settles`); const ok = await settled(40000); C.line(`${at()}: ${ok}`) }
        await sleep(r.pick([0, 0, 40, 120, 200, 260, 400, 700, 1200]));
      }
      connect();
      const done = await settled(25000 + 1000 * builds);
      C.line(`${at()}: at rest ${done}: ${JSON.stringify(state)}`);
      if (exited !== null) return V('ended', `the watching ended with ${exited}: ${log.slice(-900)}`);
      const tail = () => `; sources ${JSON.stringify(state)}; compiler: ${calls().slice(-6).join(' | ')}; log: ${log.replace(/\x1b\[[0-9;]*m/g, '').slice(-700)}`;
      if (!done) {
        const v = state.ok ? await serves() : null;
        const why = [];
        if (state.ok && !newest(v)) why.push(['served', `long after the last change build ${JSON.stringify(v)} with the loader of ${v && loaders.get(v.src)} is served instead of ${state.n}`]);
        for (const c of clients) { const m = c.list.at(-1); if (!(state.ok ? /^Version/.test(m) : m === 'Errors')) why.push(['told', `a client was last told ${JSON.stringify(m ?? null)} of ${JSON.stringify(c.list)}`]) }
        for (const P of pages) if (state.ok && !newest(P.loads.at(-1)?.version) && !P.unaware()) why.push(['page', `an open page shows build ${JSON.stringify(P.loads.at(-1)?.version)} (loads ${JSON.stringify(P.loads)}, told ${JSON.stringify(P.messages)}), notice ${JSON.stringify(P.notice())}`]);
        for (const P of pages) if (P.events && newest(P.loads.at(-1)?.version)) { const m = P.events.list.at(-1); if (!(state.ok ? /^Version/.test(m) : m === 'Errors')) why.push(['told', `a page was last told ${JSON.stringify(m ?? null)}`]) }
        if (!why.length) why.push(['not-settled', 'it did not come to rest']);
        for (const [s, m] of why) V(s, m + tail());
        return;
      }
      C.inc('settled');
      // nothing more happens
      const n1 = calls().length, l1 = new Map(pages.map(P => [P, P.loads.length]));
      await sleep(900);
      const n2 = calls().length;
      if (n2 !== n1) V('builds-again', `it builds again without a change: ${calls().slice(n1).join(' | ')}` + tail());
      pages.forEach(P => { if (P.loads.length !== l1.get(P) && n2 === n1) V('reloads-again', `a page is loaded again without a change: ${JSON.stringify(P.loads)}, told ${JSON.stringify(P.messages)}`) });
      if (state.ok) {
        const v = await serves();
        if (!newest(v)) V('served', `later build ${JSON.stringify(v)} is served instead of ${state.n}` + tail());
        else {
          const W = await request(port, v.wasm, { fresh: 1 }), want = moduleOf(env.calls, state.w);
          if (W.status !== 200 || !W.body.equals(want)) V('served-file', `the application at ${v.wasm}: ${W.error || W.status}, ${W.body?.length} bytes of ${want.length}`);
          const T = await request(port, '/plain' + r.pick(['', '/x', '.txt']), { fresh: 1 }), due = `plain build ${String(state.w).padStart(6, '0')} <p></p></body></html> rest`;
          if (T.status !== 200 || T.body.toString() !== due || !/^text\/plain/.test(T.headers['content-type'] || '')) V('plain', `watched, a plain answer is ${T.error || T.status} ${T.headers?.['content-type']} ${cut(T.body, 300)} instead of ${due}`);
          C.inc('plain_answers');
        }
      }
      if (exited !== null) V('ended', `the watching ended with ${exited}` + tail());
      const vers = new Set();
      for (const c of [...clients, ...pages.map(P => P.events).filter(Boolean)]) {
        C.inc('notices', c.list.length);
        let last = 0;
        for (const m of c.list) {
          const v = /^Version = (\d+)$/.exec(m);
          if (v) { if (Number(v[1]) < last) V('order', `versions go back: ${JSON.stringify(c.list)}`); last = Number(v[1]) }
          else if (m !== 'Building' && m !== 'Errors') V('notice', `unknown notice ${JSON.stringify(m)}`);
        }
        vers.add(c.list.at(-1));
        for (let i = 1; i < c.list.length; i++) if (c.list[i] === c.list[i - 1] && c.opens === 1) V('notice-twice', `the same notice twice in a row: ${JSON.stringify(c.list)}`);
      }
      if (vers.size > 1) V('told', `clients were told different things: ${[...vers].join(', ')}`);
      for (const P of pages) {
        const t = P.notice();
        if (state.ok && t !== '') V('page-notice', `a page showing the newest build still has the notice ${JSON.stringify(t)}: loads ${JSON.stringify(P.loads)}, told ${JSON.stringify(P.messages)}`);
        if (!state.ok && P.events && !/fail/i.test(t)) V('page-notice', `the build failed but the page shows the notice ${JSON.stringify(t)}: told ${JSON.stringify(P.messages)}`);
        for (const l of P.loads) if (l.reloaded > 1) V('reload-twice', `a page was reloaded twice at once: ${JSON.stringify(P.loads)}`);
        C.inc(state.ok && !newest(P.loads.at(-1)?.version) ? 'pages_unaware' : 'pages_judged');
      }
      C.nontrivial = builds > 1; C.h = hash(C.lines.map(l => l.replace(/^[\d.]+ s/, '')).join());
    } finally {
      for (const c of clients) c.close();
      for (const P of pages) P.close();
      try { process.kill(-p.pid, 'SIGKILL') } catch { }
      await sleep(20);
      fs.rmSync(dir, { recursive: true, force: true }); fs.rmSync(stub, { recursive: true, force: true }); fs.rmSync(bin, { recursive: true, force: true });
    }
  },
};
