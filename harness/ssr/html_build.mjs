// C26: what `vertigo build` produces is complete, consistent and is found by `vertigo serve` and the
// page under the configured public path. The compiler is a stand-in putting prepared outputs in place
// (except for one project built for real), everything else is the real binary.
import fs from 'node:fs';
import path from 'node:path';
import { spawn } from 'node:child_process';
import { Server, request, sleep, track } from './server.mjs';
import { parse } from './html.mjs';
import { record, moduleOf } from './html_watch.mjs';
import { hash, cut, NOCACHE } from './common.mjs';
const CARGO = `#!/bin/sh
case "$1" in
  metadata) cat "$VP_STUB/metadata.json" ;;
  build)
    echo "$*" >> "$VP_STUB/calls"
    if [ -f "$VP_STUB/missing" ]; then echo "error[E0463]: can't find crate for std; the wasm32-unknown-unknown target may not be installed" >&2; exit 101; fi
    if [ -f "$VP_STUB/fail" ]; then if [ -s "$VP_STUB/fail" ]; then cat "$VP_STUB/fail"; fi; echo "error: could not compile" >&2; exit 101; fi
    mkdir -p target/wasm32-unknown-unknown/release
    cp -R "$VP_STUB/out/." target/wasm32-unknown-unknown/release/ ;;
esac
`;
const RUSTUP = `#!/bin/sh
echo "rustup $*" >> "$VP_STUB/rustup-calls"
case "$1 $2" in
  "target list")
    echo "aarch64-apple-darwin"; echo "wasm32-unknown-emscripten"
    if [ -f "$VP_STUB/missing" ]; then echo "wasm32-unknown-unknown"; else echo "wasm32-unknown-unknown (installed)"; fi
    echo "wasm32-wasi"; echo "x86_64-unknown-linux-gnu (installed)" ;;
  "target add") if [ "$3" = wasm32-unknown-unknown ]; then rm -f "$VP_STUB/missing"; fi ;;
  *) exit 1 ;;
esac
`;
// a section without meaning makes another valid module of the same application
export function variant(wasm, text) {
  const name = Buffer.from('vp'), t = Buffer.from(text), body = Buffer.concat([Buffer.from([name.length]), name, t]);
  const len = []; let n = body.length; do { let b = n & 127; n >>= 7; if (n) b |= 128; len.push(b) } while (n);
  return Buffer.concat([wasm, Buffer.from([0, ...len]), body]);
}
export function run(exe, args, o, timeout = 60000) {
  return new Promise(res => {
    const p = spawn(exe, args, { cwd: o.cwd, env: o.env, stdio: ['ignore', 'pipe', 'pipe'] }); track(p);
    let log = ''; const on = d => { log += d; if (log.length > 20000) log = log.slice(-10000) };
    p.stdout.on('data', on); p.stderr.on('data', on);
    const t = setTimeout(() => p.kill('SIGKILL'), timeout);
    p.on('close', (code, sig) => { clearTimeout(t); res({ code: code ?? sig, log }) });
    p.on('error', e => { clearTimeout(t); res({ code: 'spawn', log: String(e) }) });
  });
}
export class Project {
  constructor(env, name, pkgs, opt = 'none') {
    this.env = env; this.dir = path.join(env.scratch, name); this.stub = this.dir + '-stub'; this.bin = this.dir + '-bin';
    for (const d of [this.dir, this.stub, this.bin, this.stub + '/out/static/included']) fs.mkdirSync(d, { recursive: true });
    const exe = (n, t) => fs.writeFileSync(path.join(this.bin, n), t, { mode: 0o755 });
    exe('cargo', CARGO); exe('rustup', RUSTUP);
    if (opt === 'ok') exe('wasm-opt', '#!/bin/sh\n[ "$3" = -o ] || exit 9\n{ cat "$5"; printf "\\000\\004\\002wo!"; } > "$4"\n');
    if (opt === 'fail') exe('wasm-opt', '#!/bin/sh\n[ "$VP_OPT" = 1 ] && head -c 40 "$5" > "$4"\nexit 1\n');
    this.pkgs = pkgs;
    const id = n => `${n} 0.1.0 (path+file://${this.dir}/${n})`;
    const pk = p => ({ id: id(p.name), name: p.name, version: '0.1.0', manifest_path: `${this.dir}/${p.name}/Cargo.toml`, dependencies: [], targets: [{ kind: p.cdylib ? ['cdylib', 'rlib'] : ['lib'], name: p.name, crate_types: p.cdylib ? ['cdylib', 'rlib'] : ['lib'], src_path: 'x' }] });
    for (const p of pkgs) fs.mkdirSync(path.join(this.dir, p.name, 'src'), { recursive: true });
    const ext = { ...pk({ name: 'zz-outside', cdylib: true }), id: 'registry zz' };
    fs.writeFileSync(this.stub + '/metadata.json', JSON.stringify({ packages: [ext, ...pkgs.map(pk)], workspace_members: pkgs.map(p => id(p.name)), target_directory: this.dir + '/target', workspace_root: this.dir, resolve: null, version: 1 }));
    this.penv = { PATH: this.bin + ':/usr/bin:/bin', HOME: this.dir, VP_STUB: this.stub, VP_OPT: this.dir.length + pkgs.length & 1 ? '1' : '0' };
  }
  // files: name of the artefact -> bytes
  output(files) {
    const out = this.stub + '/out', inc = out + '/static/included';
    fs.rmSync(out, { recursive: true, force: true }); fs.mkdirSync(inc, { recursive: true });
    fs.rmSync(path.join(this.dir, 'target/wasm32-unknown-unknown/release'), { recursive: true, force: true });
    for (const k in files) { fs.mkdirSync(path.dirname(path.join(out, k)), { recursive: true }); fs.writeFileSync(path.join(out, k), files[k]) }
  }
  calls() { try { return fs.readFileSync(this.stub + '/calls', 'utf8').trim().split('\n') } catch { return [] } }
}
const WO = Buffer.from([0, 4, 2, 0x77, 0x6f, 0x21]);
const PATHS = ['/build', '/a', '/a/b', '/a-b_c.d/e', '/1', '/x/y/z/deep', '/Build', '/build/v1.2', '/~u'];
export const mon = {
  prop: 'C26',
  async setup(env) { env.calls = record(env.o.watchwasm); env.wasmBytes = fs.readFileSync(env.o.wasm); this.serving = 0; if (env.o.real) this.realJob = this.real(env).catch(e => { env.tot.harness_errors.push('real build: ' + (e.stack || e)) }) },
  async run(C, env) {
    const r = C.r, exe = env.o.exe;
    const names = r.shuffle(['app', 'my-app', 'web_ui', 'x', 'a-b-c', 'lib-one']);
    const pkgs = []; const ncd = r.pick([1, 1, 1, 2, 0]);
    for (let i = 0; i < ncd + r.below(3); i++) pkgs.push({ name: names[i], cdylib: i < ncd });
    r.shuffle(pkgs);
    const opt = r.pick(['none', 'none', 'ok', 'fail']);
    const p = new Project(env, 'w' + C.k, pkgs, opt);
    const pub = r.chance(15) ? '/' + r.pick(['app', 'x', 'wasm_run', 'index', 'web_ui', 'a/app', 'f0']) : r.pick(PATHS), dest = r.pick(['build', './build', 'out/dist', path.join(p.dir, 'abs-dist'), 'build/']);
    const dd = path.resolve(p.dir, dest);
    const explicit = ncd === 0 ? null : ncd === 2 || r.chance(30) ? r.pick(pkgs.filter(x => x.cdylib)).name : null;
    const chosen = explicit ?? pkgs.find(x => x.cdylib)?.name;
    const disable = r.chance(30), map = r.chance(40), defpub = pub === '/build' && r.chance(50);
    const args = ['build']; if (explicit) args.push(explicit);
    if (!defpub) args.push('--public-path', pub);
    args.push('--dest-dir', dest); if (disable) args.push('--disable-wasm-opt'); if (map) args.push('--wasm-run-source-map');
    // most applications served are small ones, which say the number they are given and not their address
    const small = r.chance(85), wasm = (n, t) => small ? moduleOf(env.calls, n) : variant(env.wasmBytes, t);
    const blob = n => Buffer.from(Array.from({ length: n }, () => r.below(256)));
    let content = null, prev = null;
    const V = (s, m) => C.viol('C26', s, m);
    const rounds = r.range(1, 3);
    for (let round = 0; round < rounds; round++) {
      // what the compiler delivers this time
      const change = { wasm: !content || r.chance(50), js: !content || r.chance(30), inc: !content || r.chance(40) };
      const old = content;
      content = { wasm: change.wasm ? wasm(1 + (C.k * 10 + round) % 900000, `case ${C.k} round ${round}`) : old.wasm, js: change.js ? Buffer.from('//' + ' '.repeat(r.pick([0, 70000])) + r.below(1e9) + '\n//# sourceMappingURL=wasm_run.js.map\n') : old.js, inc: change.inc ? Object.fromEntries(Array.from({ length: r.below(4) }, (_, i) => [`f${i}.${r.below(1e6)}.${r.pick(['png', 'css', 'svg', 'txt'])}`, blob(r.chance(15) ? 0 : r.below(300))])) : old.inc };
      const files = { 'static/wasm_run.js': content.js, 'static/wasm_run.js.map': Buffer.from('{"file":"wasm_run.js","sources":["a"]}') };
      if (chosen) files[chosen.replace(/-/g, '_') + '.wasm'] = content.wasm;
      for (const x of pkgs) if (x.name !== chosen && x.cdylib) files[x.name.replace(/-/g, '_') + '.wasm'] = wasm(999999, 'another application');
      for (const n in content.inc) files['static/included/' + n] = content.inc[n];
      p.output(files);
      const fail = round > 0 && r.chance(12);
      if (fail) fs.writeFileSync(p.stub + '/fail', r.pick(['', 'output of the compiler\n'])); else fs.rmSync(p.stub + '/fail', { force: true });
      if (r.chance(50)) { fs.mkdirSync(dd, { recursive: true }); fs.writeFileSync(path.join(dd, 'left-over.txt'), 'old') }
      C.line(`vertigo ${args.join(' ')} of ${JSON.stringify(pkgs)} wasm-opt ${opt} ${fail ? 'failing' : ''} changed ${JSON.stringify(change)}`);
      const missing = r.chance(15);
      if (missing) fs.writeFileSync(p.stub + '/missing', ''); else fs.rmSync(p.stub + '/missing', { force: true });
      if (missing) C.inc('targets_missing');
      const before = p.calls().length;
      const x = await run(exe, args, { cwd: p.dir, env: p.penv });
      C.inc('builds');
      if (ncd === 0) { C.inc('builds_without_application'); if (x.code === 0) V('no-application', 'there is no application to build but the build succeeds'); return }
      if (fail) { C.inc('failing_builds'); if (x.code === 0) V('failed-build', 'the compiler failed but the build reports success'); continue }
      if (x.code !== 0) return V('build', `the build ended with ${x.code}: ${cut(x.log.slice(-700))}`);
      const call = p.calls()[before] || '';
      if (!new RegExp(`(^| )--package ${chosen}( |$)|(^| )-p ${chosen}( |$)`).test(call)) V('package', `cargo ${call} does not build ${chosen}`);
      let index; try { index = JSON.parse(fs.readFileSync(path.join(dd, 'index.json'))) } catch (e) { return V('index', 'index.json cannot be read: ' + e) }
      const have = new Set(fs.readdirSync(dd));
      const take = (key, want, what) => {
        const u = index[key];
        if (typeof u !== 'string' || !u.startsWith(pub + '/') || u.slice(pub.length + 1).includes('/')) { V('index-path', `${what} is referenced as ${u} with the public path ${pub}`); return null }
        const f = u.slice(pub.length + 1);
        if (!have.has(f)) { V('index-file', `${what} ${f} is not in the destination: ${[...have]}`); return null }
        if (!fs.readFileSync(path.join(dd, f)).equals(want)) V('file-content', `${what} ${f} differs from what was compiled`);
        return f;
      };
      const wantWasm = !disable && opt === 'ok' ? Buffer.concat([content.wasm, WO]) : content.wasm;
      const wf = take('wasm', wantWasm, 'the application'), jf = take('run_js', content.js, 'the loader');
      if (wf === null || jf === null) return;
      for (const n in content.inc) if (!have.has(n) || !fs.readFileSync(path.join(dd, n)).equals(content.inc[n])) V('included-file', `included file ${n} is missing or differs`);
      const known = new Set(['index.json', wf, jf, jf + '.map', 'wasm_run.js.map', ...(opt === 'fail' && !disable ? [chosen.replace(/-/g, '_') + '.wasm'] : []), ...Object.keys(content.inc)]);
      if (map) {
        const m = [...have].find(f => f.endsWith('.map'));
        if (!m) V('source-map', 'the source map is missing'); else if (JSON.parse(fs.readFileSync(path.join(dd, m))).file !== jf) V('source-map', `the source map describes ${fs.readFileSync(path.join(dd, m))}, the loader is ${jf}`);
      }
      for (const f of have) if (!known.has(f)) V('left-over', `the destination holds ${f}, which this build did not make`);
      if (prev) {
        C.inc('rebuilds_compared');
        if ((prev.wf === wf) !== prev.wasm.equals(wantWasm)) V('name', `application ${prev.wf} then ${wf} although its content ${prev.wasm.equals(wantWasm) ? 'stayed' : 'changed'}`);
        if ((prev.jf === jf) !== prev.js.equals(content.js)) V('name', `loader ${prev.jf} then ${jf} although its content ${prev.js.equals(content.js) ? 'stayed' : 'changed'}`);
      }
      prev = { wf, jf, wasm: wantWasm, js: content.js };
      C.inc('files_checked', 2 + Object.keys(content.inc).length);
      C.nontrivial = true; C.h += hash(args.join() + opt + round + JSON.stringify(change));
      if (round === rounds - 1 && (small || this.serving < 4)) await this.serve(C, env, p, { small: small && this.number(content.wasm), dd, pub, wf, jf, content, wantWasm, dest }, V);
    }
    fs.rmSync(p.dir, { recursive: true, force: true }); fs.rmSync(p.stub, { recursive: true, force: true });
  },
  number(w) { const i = w.indexOf('build '); return w.subarray(i, i + 12).toString() },
  async serve(C, env, p, b, V) {
    if (!b.small) this.serving++;
    const r = C.r;
    let S;
    try {
      try { S = await Server.start({ exe: env.o.exe, dest: b.dd, log: 1 }) } catch (e) { return V('not-served', 'what was built cannot be served: ' + cut(e)) }
      C.inc('served_builds');
      C.line(`serving ${b.dd} under ${b.pub}`);
      // the files of the build are found at the addresses the build gave them
      for (const [n, want] of [[b.wf, b.wantWasm], [b.jf, b.content.js], ...Object.entries(b.content.inc)]) {
        const x = await request(S.port, b.pub + '/' + n, { fresh: 1 });
        C.inc('files_requested');
        if (x.status !== 200 || !x.body.equals(want)) V('served-file', `${b.pub}/${n}: ${x.error || x.status}, ${x.body?.length} bytes of ${want.length}`);
      }
      // everything else is an address of the application, which sees it in full
      const parts = b.pub.split('/').slice(1);
      const others = ['/', '/x', b.pub + 'x', b.pub + 'x/' + b.wf, '/' + b.wf, '/index.json', '/q?a=1&b=%20', parts.length > 1 ? '/' + parts[0] : '/other', '/other' + b.pub + '/' + b.wf, '/%C5%BC/' + r.below(1000), b.pub.slice(0, -1) + '?z', '/a//b', '/' + r.below(1e6) + '/', '/x?', '/x/?', '/?', '/?a?b=c&&', '/a;b,c@k=e+f', '/x?a=%C5%BC%26%3D', '/%2e%2f%20'];
      for (const u of others) {
        if (u.split('?')[0] === b.pub || u.startsWith(b.pub + '/')) continue;
        const x = await request(S.port, u, { fresh: 1 });
        C.inc('addresses_requested');
        if (x.status !== 200 || !/^text\/html/.test(x.headers?.['content-type'] || '')) { V('address', `${u} (public path ${b.pub}): ${x.error || x.status} ${x.headers?.['content-type']}`); continue }
        if (x.headers['cache-control'] !== NOCACHE) V('address-cache', `${u}: cache-control ${x.headers['cache-control']}`);
        const all = []; const walk = k => { if (k.tag) { all.push(k); k.kids.forEach(walk) } }; walk(parse(x.body.toString()).root);
        const seen = all.find(k => k.tag === 'p')?.kids[0]?.text;
        if (b.small ? seen !== b.small : seen !== u) V('address-seen', `the application sees ${JSON.stringify(seen)} at ${u} (public path ${b.pub})`);
        const l = all.find(k => k.attrs.has('data-vertigo-run-wasm'));
        if (l?.attrs.get('data-vertigo-run-wasm') !== b.pub + '/' + b.wf || l?.attrs.get('src') !== b.pub + '/' + b.jf) V('loader', `the page at ${u} loads ${JSON.stringify([...(l?.attrs || [])])} instead of ${b.pub}/${b.wf} and ${b.jf}`);
      }
      // a file of the build that does not exist is not a page
      const x = await request(S.port, b.pub + '/missing.js', { fresh: 1 });
      if (x.status !== 404) V('missing-file', `${b.pub}/missing.js: ${x.error || x.status}`);
    } finally { S?.stop(); if (!b.small) this.serving-- }
  },
  // one project compiled for real: files named in its source get addresses that work
  async real(env) {
    const C = { viols: [], lines: [], k: -1, h: '', nontrivial: true, viol(p, s, m) { this.viols.push({ prop: p, sig: s, msg: m }) }, line(s) { this.lines.push(s) } };
    const d = env.o.real, V = (s, m) => C.viol('C26', s, m);
    const put = (f, t) => { const g = path.join(d, f); fs.mkdirSync(path.dirname(g), { recursive: true }); if (!fs.existsSync(g) || !fs.readFileSync(g).equals(Buffer.from(t))) fs.writeFileSync(g, t) };
    const stat = { // long files of one name that differ at the end only
      'src/one.css': Buffer.from('/*' + ' '.repeat(70000) + '*/a{b:c}\n'), 'src/sub/one.css': Buffer.from('/*' + ' '.repeat(70000) + '*/d{b:c}\n'), 'src/sub/two.bin': Buffer.from([0, 1, 2, 255, 254, 13, 10]), 'three.tar.gz': Buffer.from('xyz') };
    for (const f in stat) put(f, stat[f]);
    put('Cargo.toml', '[package]\nname = "real-app"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[lib]\ncrate-type = ["cdylib", "rlib"]\n\n[dependencies]\nvertigo = { path = "/repo/crates/vertigo" }\n\n[profile.release]\nopt-level = 1\ncodegen-units = 16\nincremental = true\n');
    put('Cargo.lock', fs.readFileSync(env.o.lock));
    put('src/sub/mod.rs', 'pub fn list() -> Vec<String> { vec![vertigo::include_static!("one.css").to_string(), vertigo::include_static!("two.bin").to_string(), vertigo::include_static!("../../three.tar.gz").to_string()] }\n');
    const dest = path.join(d, 'dist');
    const lib = m => `mod sub;\nuse vertigo::{dom, DomNode};\n\n#[vertigo::main]\nfn render() -> DomNode {\n    let mut l = vec![vertigo::include_static!("one.css").to_string()];\n    l.extend(sub::list());\n    dom! { <html><head/><body><p>{l.join("|")}</p><b>"${m}"</b></body></html> }\n}\n`;
    put('src/lib.rs', lib('first'));
    const e = { ...process.env };
    for (const k of ['RUSTFLAGS', 'CARGO_TARGET_DIR']) delete e[k];
    let before = null;
    for (const m of ['first', 'second', 'again', 'moved']) {
      // the last times no source has changed, at the end only the address of the build
      const pub = m === 'moved' ? '/else' : '/st/real';
      if (m === 'first' || m === 'second') put('src/lib.rs', lib(m));
      const t0 = Date.now();
      const build = () => run(env.o.exe, ['build', '--public-path', pub, '--dest-dir', 'dist', '--disable-wasm-opt'], { cwd: d, env: e }, 240000);
      let x = await build();
      if (x.code !== 0) x = await build();
      env.inc('real_build_ms', Date.now() - t0);
      if (x.code !== 0) { V('real-build', `the build of a sound project ended with ${x.code}: ` + x.log.slice(-900)); break }
      env.inc('real_builds');
      let S;
      try { S = await Server.start({ exe: env.o.exe, dest }) } catch (e) { V('not-served', 'what was built cannot be served: ' + cut(e)); break }
      try {
        const x = await request(S.port, '/', { fresh: 1 });
        const all = []; const walk = k => { if (k.tag) { all.push(k); k.kids.forEach(walk) } }; walk(parse(x.body?.toString() || '').root);
        const shown = all.find(k => k.tag === 'b')?.kids[0]?.text;
        const due = m === 'first' ? m : 'second';
        if (shown !== due) V('real-build', `the served page shows ${JSON.stringify(shown)} instead of ${due}: ${cut(x.body)}`);
        const urls = (all.find(k => k.tag === 'p')?.kids[0]?.text || '').split('|');
        const want = [stat['src/one.css'], stat['src/sub/one.css'], stat['src/sub/two.bin'], stat['three.tar.gz']];
        for (let i = 0; i < 4; i++) {
          const u = urls[i] ?? '';
          if (!u.startsWith(pub + '/')) { V('static-address', `file number ${i} got the address ${u}`); continue }
          const f = await request(S.port, u, { fresh: 1 });
          env.inc('static_files_requested');
          if (f.status !== 200 || !f.body.equals(want[i])) V('static-file', `${u}: ${f.error || f.status} ${cut(f.body)} instead of ${want[i]}`);
        }
        if (new Set(urls).size !== 4) V('static-address', 'different files share an address: ' + urls.join(' '));
        const names = urls.map(u => u.slice(pub.length));
        if (before && before.join() !== names.join()) V('static-address', `unchanged files changed their addresses: ${before} to ${names}`);
        before = names;
        const l = all.find(k => k.attrs.has('data-vertigo-run-wasm'));
        const js = await request(S.port, l.attrs.get('src'), { fresh: 1 }), w = await request(S.port, l.attrs.get('data-vertigo-run-wasm'), { fresh: 1 });
        if (!js.body?.equals(fs.readFileSync(env.o.shipped))) V('real-loader', 'the loader served is not the one of the library');
        if (!WebAssembly.validate(w.body)) V('real-wasm', 'the application served is not valid');
      } finally { S.stop() }
    }
    if (C.viols.length) env.tot.failures.push({ case: -1, viols: C.viols, trace: C.lines });
  },
  async end(C, env) { await this.realJob },
};
