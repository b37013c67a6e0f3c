// C16: futures, sleeps, intervals, published values
export const mon = {};
const TIMES = [0, 0, 1, 1, 2, 5, 10, 10, 16, 50, 100, 250, 1000, 4000];
const LONG = [0, 1, 10, 65535, 65536, 999999, 3600000, 86399999, 86400000, 86400001, 5 * 86400000, 0x7fffffff];
mon.run = async C => {
  const r = C.r;
  const jitter = r.chance(30) ? r.range(1, 30) : 0;
  const jr = new (r.constructor)(C.seed + 77, C.k);
  await C.boot({});
  const B = C.B, P = 'C16';
  if (jitter) B.clock.jitter = () => jr.chance(50) ? jr.below(jitter) : 0;
  let nextTask = 1, nextBox = 1;
  // now and then times up to the longest a host timer knows
  const long = r.below(25) === 0;
  if (long) C.inc('cases_of_long_times');
  const T = long ? LONG : TIMES;
  const many = !long && r.below(40) === 0; let budget = many ? 1200 : 60;
  if (many) C.inc('cases_of_many_tasks');
  const boxes = new Map(), plan = new Map(); // task -> program
  const box = () => { const k = nextBox++; C.cmd('box', k); boxes.set(k, { v: r.range(1, 1e6), waited: false, pubs: 0, t: null }); return k; };
  const unwaited = () => [...boxes].filter(([, b]) => !b.waited).map(x => x[0]);
  const prog = (depth, id) => {
    const n = r.below(5) + (depth ? 0 : 1), out = [];
    for (let i = 0; i < n && budget > 0; i++) {
      budget--;
      const w = r.below(14);
      if (w < 4) out.push(['s', r.pick(T)]);
      else if (w < 6) { const k = unwaited().length && r.chance(60) ? r.pick(unwaited()) : box(); boxes.get(k).waited = true; out.push(['w', k]); }
      else if (w < 7) { const l = [...boxes].filter(([, b]) => !b.pubs); const k = l.length ? r.pick(l)[0] : box(); boxes.get(k).pubs = 1; out.push(['p', k, boxes.get(k).v]); }
      else if (w < 9) out.push(['y', r.pick([1, 1, 2, 3])]);
      else if (w < 10 && depth < 3) out.push(['c', prog(depth + 1, id)]);
      else if (w < 11 && depth < 2) { const t = nextTask++; const p = prog(depth + 1, t); plan.set(t, p); out.push(['sp', t, p]); }
      else if (w < 12 && depth < 3) out.push(['j', Array.from({ length: r.range(1, 3) }, () => prog(depth + 1, id))]);
      else if (w < 13 && r.chance(50)) out.push(['k', unwaited().length && r.chance(80) ? r.pick(unwaited()) : box()]);
      else if (w < 13) out.push(['d', r.pick(T)]);
      else out.push(['race', Array.from({ length: r.range(1, 3) }, () => r.pick(T))]);
    }
    return out;
  };
  const ivs = new Map(); let nextIv = 1;
  const fires = new Map(); let lastIds = [];
  B.clock.intervalFired = id => fires.set(id, (fires.get(id) || 0) + 1);
  const ops = many ? r.range(60, 200) : r.range(2, 10);
  for (let i = 0; i < ops && !C.dead; i++) {
    const w = r.below(10);
    if (w < 5 && budget > 0) {
      const t = nextTask++, p = prog(0, t);
      plan.set(t, p);
      C.trace(`spawn ${t} ${JSON.stringify(p)}`);
      r.chance(20) ? C.cmd('tx', [['spawn', t, p]]) : C.cmd('spawn', t, p);
    } else if (w < 7) {
      const id = nextIv++, ms = r.pick(long ? [3600000, 7200001, 86400000, 86400001, 3 * 86400000, 0x7fffffff] : [1, 3, 7, 20, 50, 333]), n = r.chance(40) ? r.range(1, 4) : 0;
      const host0 = B.clock.ids;
      C.cmd('iv', id, ms, n);
      ivs.set(id, { ms, n, t0: B.clock.now, host: host0, dropped: null });
      C.trace(`interval ${id} ${ms} ms self-drop after ${n}`);
    } else if (w < 8) {
      const l = [...ivs].filter(([, x]) => x.dropped === null && !x.n);
      if (l.length) { const [id, x] = r.pick(l); x.dropped = B.clock.now; x.seen = C.log.length; x.fires = fires.get(x.host) || 0; C.trace(`drop interval ${id}`); C.cmd('ivdrop', id); }
    } else {
      const l = [...boxes].filter(([, b]) => !b.pubs);
      if (l.length) { const [k, b] = r.pick(l); b.pubs = 1; b.t = B.clock.now; C.trace(`publish ${k}`); r.chance(30) ? C.cmd('tx', [['pub', k, b.v]]) : C.cmd('pub', k, b.v); }
    }
    if (r.chance(many ? 10 : 70)) await C.adv(r.pick(long ? [0, 9, 65536, 86400000, 90000000, 0x7fffffff] : [0, 1, 3, 9, 40, 300]));
  }
  // publish what is still waited for, some of it never
  const never = new Set();
  for (const [k, b] of boxes) if (!b.pubs) { if (r.chance(15)) never.add(k); else { b.pubs = 1; b.t = B.clock.now; C.cmd('pub', k, b.v); if (r.chance(30)) await C.adv(r.below(20)); } }
  // intervals are endless: drop them before waiting for quiescence
  await C.adv(r.below(400));
  for (const [id, x] of ivs) if (x.dropped === null && !x.n) { x.dropped = B.clock.now; x.fires = fires.get(x.host) || 0; C.cmd('ivdrop', id); }
  await C.adv(long ? 100 * 0x7fffffff : 120000);
  if (C.dead) return;
  judge(C, { boxes, plan, ivs, fires, never, jitter });
  const left = [...B.clock.live.keys()];
  const selfdrop = [...ivs.values()].every(x => x.dropped !== null || x.n);
  if (left.length && selfdrop) C.viol(P, 'timer-left', `after everything ended ${left.length} host timers are still armed`);
  // the same program over and over must not keep memory (C15)
  if (C.k % 5 === 0 && !C.viols.length) {
    const p = [['s', 3], ['y', 2], ['c', [['s', 0], ['j', [[['s', 1]], [['y', 1]]]]]], ['race', [1, 2]]];
    await C.plateau('task-leak', 'repeated_task_memory_checks', async i => { C.cmd('spawn', 9000 + i, p); await C.adv(500); });
    await C.plateau('interval-leak', 'repeated_interval_memory_checks', async i => { C.cmd('iv', 9000, 2, i % 2 ? 2 : 0); await C.adv(7); C.cmd('ivdrop', 9000); await C.adv(5); });
  }
};
function judge(C, { boxes, plan, ivs, fires, never, jitter }) {
  const P = 'C16', V = (s, m) => C.viol(P, s, m);
  const begun = new Map(), ended = new Map(), done = new Map(), polls = new Map();
  const ivLog = new Map();
  for (const { t, j } of C.log) {
    if (j[0] === 'begin') {
      const key = j[1] + ':' + j[2];
      if (begun.has(key)) V('step-twice', `task ${j[1]} step ${j[2]} ran twice`);
      begun.set(key, t);
    } else if (j[0] === 'end') {
      const key = j[1] + ':' + j[2];
      if (ended.has(key)) V('step-twice', `task ${j[1]} step ${j[2]} ended twice`);
      if (!begun.has(key)) V('order', `step ${key} ended before it began`);
      ended.set(key, { t, out: j[4] });
    } else if (j[0] === 'done') { if (done.has(j[1])) V('done-twice', `task ${j[1]} completed twice`); done.set(j[1], t); }
    else if (j[0] === 'poll') { if (done.has(j[1])) V('polled-after-done', `task ${j[1]} polled after completion`); polls.set(j[1], (polls.get(j[1]) || 0) + 1); C.inc('polls'); }
    else if (j[0] === 'polled_after_done') V('polled-after-done', `task ${j[1]} polled after completion`);
    else if (j[0] === 'drop' && !j[2]) V('dropped-early', `task ${j[1]} was dropped before it completed`);
    else if (j[0] === 'drop') { C.inc('tasks_released'); polls.set('drop' + j[1], 1); }
    else if (j[0] === 'iv') { const l = ivLog.get(j[1]) || []; l.push(t); ivLog.set(j[1], l); }
  }
  const J = jitter;
  const started = new Map();
  // walk each program; returns end time or null when it cannot end
  const walk = (id, prog, path, t) => {
    for (let n = 0; n < prog.length; n++) {
      const s = prog[n], at = path + n, key = id + ':' + at;
      const b = begun.get(key);
      if (b === undefined) { V('stuck', `task ${id} never reached step ${at} ${JSON.stringify(s)}`); return null; }
      if (b < t) V('order', `task ${id} step ${at} began before the one before it ended`);
      const e = ended.get(key);
      C.inc('steps_checked');
      const late = (due, what) => {
        if (e.t < due) V('early', `task ${id} step ${at} ${JSON.stringify(s)} begun at ${b} ended ${due - e.t} ms before ${what}`);
        else if (e.t > due + 4 * J) V('late', `task ${id} step ${at} ${JSON.stringify(s)} begun at ${b} ended ${e.t - due} ms after ${what}`);
      };
      if (s[0] === 'w') {
        const box = boxes.get(s[1]);
        if (never.has(s[1])) { if (e) V('unpublished', `task ${id} got ${e.out} although nothing was published to ${s[1]}`); C.inc('waits_forever'); return null; }
        if (!e) { if (box.pubs && pubTime(C, s[1], plan, begun) !== null) V('lost-wakeup', `task ${id} step ${at}: the published value ${box.v} was never delivered`); return null; }
        if (e.out !== box.v) V('value', `task ${id} step ${at}: expected the published ${box.v}, got ${e.out}`);
        C.inc('values_delivered');
        const p = box.t ?? pubTime(C, s[1], plan, begun) ?? e.t;
        late(Math.max(b, p), 'the value was there');
      } else if (s[0] === 'c') {
        const x = walk(id, s[1], at + '.', b);
        if (x === null) { if (e) V('order', `task ${id} step ${at} ended before its inner future`); return null; }
        if (!e) { V('stuck', `task ${id} step ${at}: inner future ended, the outer one did not go on`); return null; }
      } else if (s[0] === 'j') {
        const xs = s[1].map((p, k) => walk(id, p, `${at}/${k}.`, b));
        if (xs.includes(null)) { if (e) V('order', `task ${id} step ${at} ended before its parts`); return null; }
        if (!e) { V('stuck', `task ${id} step ${at}: all parts ended, the whole did not`); return null; }
      } else {
        if (!e) { V('stuck', `task ${id} never finished step ${at} ${JSON.stringify(s)} begun at ${b}`); return null; }
        if (s[0] === 's') { late(b + s[1], 'it was due'); C.inc('sleeps'); }
        if (s[0] === 'race') {
          const m = Math.min(...s[1]);
          late(b + m, 'the first sleep was due');
          if (!J && s[1][e.out] !== m) V('race', `task ${id} step ${at}: race of ${s[1]} won by number ${e.out}`);
        }
        if (s[0] === 'k') { // looked at under this task, waited for by whoever comes later
          const box = boxes.get(s[1]), p = never.has(s[1]) ? null : box.t ?? pubTime(C, s[1], plan, begun);
          C.inc('futures_handed_over');
          if (e.out !== null && e.out !== 'taken' && e.out !== box.v) V('value', `task ${id} step ${at}: expected nothing or the published ${box.v}, got ${e.out}`);
          if (e.out === null && p !== null && p < b) V('lost-value', `task ${id} step ${at}: the value published at ${p} was not there at ${b}`);
          if (e.out === box.v && (p === null || p > b)) V('value', `task ${id} step ${at}: a value was there before it was published`);
        }
        if (s[0] === 'sp') started.set(s[1], b);
      }
      t = e.t;
    }
    return t;
  };
  let nested = 0;
  for (const [id, p] of plan) {
    if (!polls.get(id)) { // nested tasks start only when their spawner gets there
      const sp = [...plan].find(([, q]) => JSON.stringify(q).includes(`["sp",${id},`));
      if (!sp || started.has(id)) V('stuck', `task ${id} was never polled`);
      continue;
    }
    const t = walk(id, p, '', 0);
    C.inc('tasks');
    if (t !== null) {
      if (!done.has(id)) V('stuck', `task ${id} went through all its steps but never completed`);
      else if (!polls.get('drop' + id)) V('not-released', `the completed task ${id} was never released`);
      nested++;
    } else if (done.has(id)) V('done-early', `task ${id} completed although a step is still waiting`);
  }
  for (const [id, x] of ivs) {
    const l = ivLog.get(id) || [];
    const host = fires.get(x.host) || 0;
    C.inc('intervals'); C.inc('interval_firings', l.length);
    if (x.n) { if (l.length !== x.n) V('interval-selfdrop', `interval ${id} dropped in its ${x.n}. firing fired ${l.length} times`); }
    else if (l.length !== x.fires) V('interval-count', `interval ${id} of ${x.ms} ms: the host ticked ${x.fires} times before the drop, the callback ran ${l.length} times`);
    if (!x.n && host !== x.fires) V('interval-after-drop', `interval ${id}: the host timer ticked ${host - x.fires} more times after the drop`);
    if (!J) {
      l.forEach((t, i) => { if (t !== x.t0 + (i + 1) * x.ms) V('interval-time', `interval ${id} of ${x.ms} ms started at ${x.t0}: firing ${i + 1} at ${t}`); });
      if (!x.n) { const due = Math.floor((x.dropped - x.t0) / x.ms); if (Math.abs(l.length - due) > 0) V('interval-count', `interval ${id} of ${x.ms} ms lived ${x.dropped - x.t0} ms and fired ${l.length} times, expected ${due}`); }
    }
  }
  C.nontrivial = nested > 0 && (C.counters.polls || 0) > 3;
  C.mix([...ended].map(([k, v]) => k + v.t).join());
}
// when the publishing step of box k ran
function pubTime(C, k, plan, begun) {
  for (const { t, j } of C.log) if (j[0] === 'begin') { const s = stepAt(plan.get(j[1]), j[2]); if (s && s[0] === 'p' && s[1] === k) return t; }
  return null;
}
function stepAt(p, path) {
  let cur = p, s = null;
  for (const part of path.split('.')) {
    const [n, k] = part.split('/');
    s = cur?.[Number(n)];
    if (!s) return null;
    cur = k === undefined ? s[1] : s[1][Number(k)];
  }
  return s;
}
