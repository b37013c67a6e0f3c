// C30: `vertigo new` makes a complete project under the given name and never touches what is there.
import fs from 'node:fs';
import path from 'node:path';
import { run } from './html_build.mjs';
import { hash, cut } from './common.mjs';
const tree = d => {
  const o = {};
  const walk = (p, rel) => {
    const st = fs.lstatSync(p);
    if (st.isDirectory()) { o[rel + '/'] = 'dir'; for (const n of fs.readdirSync(p).sort()) walk(path.join(p, n), rel + '/' + n) }
    else if (st.isSymbolicLink()) o[rel] = 'link ' + fs.readlinkSync(p);
    else o[rel] = 'file ' + fs.readFileSync(p).toString('base64');
  };
  if (fs.existsSync(d)) walk(d, '');
  return o;
};
const same = (a, b) => JSON.stringify(Object.entries(a).sort()) === JSON.stringify(Object.entries(b).sort());
export const mon = {
  prop: 'C30',
  async setup(env) { this.checked = 0; this.template = env.o.template },
  async run(C, env) {
    const r = C.r, dir = path.join(env.scratch, 'n' + C.k), V = (s, m) => C.viol('C30', s, m);
    fs.mkdirSync(dir);
    const name = r.pick(['app', 'my_app', 'my-app', 'a', 'web_ui2', 'my_app_my_app', 'x'.repeat(60), 'zażółć', 'Upper', 'package', 'my_apps', 'vertigo-thing']);
    const dest = r.pick([null, null, './', 'sub', 'deep/er/dir', path.join(dir, 'abs'), 'with space', 'sub/../sub', 'żółw']);
    const target = path.join(path.resolve(dir, dest ?? './'), name);
    // what is there before
    const kind = r.pick(['nothing', 'nothing', 'nothing', 'parent', 'empty', 'file', 'hidden', 'nonempty', 'dir-in', 'half', 'link-empty', 'link-nonempty', 'template']);
    const put = (f, t) => { const p = path.join(target, f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, t) };
    if (kind === 'parent') fs.mkdirSync(path.dirname(target), { recursive: true });
    if (kind === 'empty') fs.mkdirSync(target, { recursive: true });
    if (kind === 'file') { fs.mkdirSync(path.dirname(target), { recursive: true }); fs.writeFileSync(target, 'precious') }
    if (kind === 'hidden') put('.git/config', 'precious');
    if (kind === 'nonempty') put(r.pick(['Cargo.toml', 'src/lib.rs', 'Cargo.toml_', 'other.txt', '.gitignore']), 'precious');
    if (kind === 'dir-in') fs.mkdirSync(path.join(target, 'src'), { recursive: true });
    if (kind === 'half') { put('Cargo.toml_', 'precious'); put('src/lib.rs', '') }
    if (kind === 'template') { put('Cargo.toml', fs.readFileSync(path.join(this.template, 'Cargo.toml_'))); put('src/lib.rs', 'changed by its owner') }
    if (kind.startsWith('link')) { fs.mkdirSync(path.dirname(target), { recursive: true }); fs.mkdirSync(dir + '/elsewhere'); if (kind === 'link-nonempty') fs.writeFileSync(dir + '/elsewhere/x', 'precious'); fs.symlinkSync(dir + '/elsewhere', target) }
    // next to it
    if (r.chance(50)) { fs.mkdirSync(path.dirname(target), { recursive: true }); fs.writeFileSync(path.join(path.dirname(target), r.pick(['LICENSE', 'readme', name + '2'])), 'neighbour') }
    const before = tree(dir), taken = !['nothing', 'parent', 'empty', 'link-empty'].includes(kind);
    const args = ['new', name, ...(dest === null ? [] : ['--dest-dir', dest])];
    C.line(`vertigo ${args.join(' ')}, where there is ${kind}`);
    const x = await run(env.o.exe, args, { cwd: dir, env: { PATH: '/usr/bin:/bin', HOME: dir } });
    const after = tree(dir);
    C.inc('runs');
    C.nontrivial = true; C.h = hash(args.map(a => a.replace(dir, '')).join() + kind);
    if (taken) {
      C.inc('refusals');
      if (x.code === 0) V('not-refused', `${kind} was there, but it reports success`);
      if (!same(before, after)) V('touched', `${kind} was there, and was changed: ${cut(JSON.stringify(before), 400)} became ${cut(JSON.stringify(after), 600)}`);
    } else {
      C.inc('created');
      if (x.code !== 0) V('failed', `it ended with ${x.code}: ${cut(x.log.slice(-400))}`);
      // everything else stays as it was
      const rest = {}, base = kind === 'link-empty' ? '/elsewhere' : '/' + path.relative(dir, target), inside = k => k === base + '/' || k.startsWith(base + '/');
      for (const k in after) if (!inside(k) && !(k.endsWith('/') && (base + '/').startsWith(k))) rest[k] = after[k];
      const old = {}; for (const k in before) if (!inside(k) && !(k.endsWith('/') && (base + '/').startsWith(k))) old[k] = before[k];
      if (!same(rest, old)) V('elsewhere', `something else was changed: ${cut(JSON.stringify(old), 400)} became ${cut(JSON.stringify(rest), 400)}`);
      const want = {}, t = tree(this.template);
      for (const k in t) want[k] = t[k];
      want['/Cargo.toml'] = 'file ' + Buffer.from(fs.readFileSync(path.join(this.template, 'Cargo.toml_'), 'utf8').split('my_app').join(name)).toString('base64');
      delete want['/Cargo.toml_'];
      const got = tree(fs.realpathSync(target));
      for (const k in want) if (got[k] !== want[k]) V('content', `${k} is ${got[k] === undefined ? 'missing' : 'different: ' + cut(Buffer.from(String(got[k]).slice(5), 'base64').toString(), 300)}`);
      for (const k in got) if (!(k in want)) V('extra', `${k} is there too`);
      C.inc('files_compared', Object.keys(want).length);
      // the tools recognise the project (names cargo accepts)
      if (/^[a-z][\w-]*$/.test(name) && (this.checked++ < 3 || C.k < 12)) {
        const e = { ...process.env, CARGO_NET_OFFLINE: 'true' };
        for (const k of ['RUSTFLAGS', 'CARGO_TARGET_DIR']) delete e[k];
        const m = await run('cargo', ['metadata', '--no-deps', '--offline', '--format-version', '1'], { cwd: target, env: e });
        C.inc('projects_read');
        let pk = null; try { pk = JSON.parse(m.log.slice(m.log.indexOf('{"packages'))).packages[0] } catch { }
        if (!pk) V('project', `cargo does not read the project: ${JSON.stringify(cut(m.log, 500))}`);
        else if (pk.name !== name || !pk.targets.some(t => t.kind.includes('cdylib')) || !pk.dependencies.some(d => d.name === 'vertigo')) V('project', `the project is ${pk.name}, targets ${JSON.stringify(pk.targets.map(t => t.kind))}, dependencies ${pk.dependencies.map(d => d.name)}`);
      }
      // one project is compiled with the library of the repository
      if (!this.compiled && /^[a-z][\w-]*$/.test(name)) {
        this.compiled = true;
        const e = { ...process.env, CARGO_NET_OFFLINE: 'true' };
        for (const k of ['RUSTFLAGS', 'CARGO_TARGET_DIR']) delete e[k];
        fs.copyFileSync(env.o.lock, path.join(target, 'Cargo.lock'));
        fs.appendFileSync(path.join(target, 'Cargo.toml'), '\n[workspace]\n[patch.crates-io]\nvertigo = { path = "/repo/crates/vertigo" }\n');
        const m = await run('cargo', ['check', '--offline', '--target', 'wasm32-unknown-unknown', '--target-dir', env.o.target], { cwd: target, env: e }, 240000);
        C.inc('projects_compiled');
        if (m.code !== 0) V('compile', `the project does not compile (${m.code}): ${cut(m.log.slice(-1500), 1500)}`);
      }
    }
    fs.rmSync(dir, { recursive: true, force: true });
  },
};
