// C19: websockets: delivery, reconnection, end
import { safe } from './case.mjs';
export const mon = {};
const TEXTS = ['', 'a', 'ż', '😀', '\ufeff', '\0', '"', '{"x":1}', 'x'.repeat(2000), 'null', 'true', '0'];
const txt = r => r.below(250) ? r.pick(TEXTS) : r.pick(['b', 'ż', 'a"']).repeat(r.range(5000, 200000)); // now and then a large one
mon.run = async C => {
  const r = C.r, P = 'C19', V = (s, m) => C.viol(P, s, m);
  await C.boot({});
  const B = C.B;
  C.okError = t => /^Socket .*(error|timeout|expected string)|Missing socket connection|send fail/.test(t);
  const hs = new Map(); // id -> handle model
  let next = 1;
  const at = (t, f) => B.clock.at(t, f);
  B.onSocket = k => {
    const id = Number(/\/h(\d+)$/.exec(k.url)?.[1]);
    const h = hs.get(id);
    if (!h) { V('unknown-socket', k.url); return; }
    h.socks.push(k); k.h = h; k.want = []; k.msgs = 0;
    const n = h.socks.length;
    C.inc('connections');
    if (h.dropped !== null) { V('socket-after-drop', `handle ${id}: a new connection at ${B.clock.now} after the handle was dropped at ${h.dropped}`); return; }
    if (h.due !== null && B.clock.now !== h.due) V('retry-time', `handle ${id}: connection attempt ${n} at ${B.clock.now}, expected at ${h.due}`);
    h.due = null;
    if (h.live) V('two-sockets', `handle ${id}: connection attempt ${n} while another one is alive`);
    h.live = k;
    const t0 = B.clock.now;
    const lost = t => { if (h.live === k) { h.live = null; if (h.dropped === null) h.due = t + 3000; } };
    // a peer may be gone for long
    const w = n <= h.outage ? r.range(6, 9) : r.below(10);
    if (n === h.outage) C.inc('long_outages_over');
    k.plan = w < 6 ? 'open' : w < 8 ? 'refuse' : 'never';
    const d = r.pick([0, 1, 10, 100, 2999, 4999]);
    if (k.plan === 'open') {
      at(t0 + d, () => {
        if (k.readyState !== 0) return;
        k.opened = B.clock.now;
        if (h.dropped === null) { h.want.push([B.clock.now, 'open', '']); h.opens++; k.want.push('hello ' + h.opens); }
        k.$open();
        // traffic of this connection
        let t = B.clock.now;
        const busy = r.below(60) === 0, life = busy ? r.range(60, 300) : r.range(0, 8);
        if (busy) C.inc('busy_connections');
        for (let i = 0; i < life; i++) {
          t += r.pick([0, 0, 1, 5, 50, 900]);
          const q = r.below(14);
          const m = q < 3 ? 'echo:' + txt(r) : q < 4 ? 'drop' : txt(r) + (r.chance(60) ? '#' + (++serial) : '');
          at(t, () => {
            if (k.readyState !== 1) return;
            if (r.chance(5)) { k.$msg(new ArrayBuffer(4)); return; } // not a text: ignored
            if (h.dropped === null && h.live === k) { h.want.push([B.clock.now, 'msg', m]); if (m.startsWith('echo:')) k.want.push(m.slice(5)); C.inc('messages_in'); }
            if (m === 'drop' && h.dropped === null) { h.dropped = B.clock.now; h.self = true; C.inc('self_drops'); }
            k.$msg(m);
          });
        }
        if (r.chance(75)) at(t + r.pick([0, 1, 20, 400, 6000]), () => {
          if (k.readyState !== 1) return;
          if (h.dropped === null && h.live === k) { h.want.push([B.clock.now, 'close', '']); C.inc('losses'); }
          lost(B.clock.now);
          k.$drop(r.chance(50));
        });
      });
    } else if (k.plan === 'refuse') at(t0 + d, () => { if (k.readyState !== 0) return; lost(B.clock.now); C.inc('refusals'); k.$drop(r.chance(70)); });
    else { // silent: the page must give up by itself
      at(t0 + 5000, () => { if (h.live === k) { lost(B.clock.now); C.inc('timeouts'); } });
    }
  };
  let serial = 0;
  const drop = (id, h) => { C.trace('drop ' + id); h.dropped = B.clock.now; h.due = null; C.inc('drops'); if (h.live && h.live.readyState === 0) C.inc('drops_while_connecting'); C.cmd('wsdrop', id); };
  const ops = r.range(3, 20);
  for (let i = 0; i < ops && !C.dead; i++) {
    const l = [...hs].filter(([, h]) => h.dropped === null);
    const w = l.length ? r.below(12) : 0;
    if (w < 2 && hs.size < 4) {
      const id = next++;
      C.trace('websocket ' + id);
      hs.set(id, { socks: [], want: [], dropped: null, live: null, due: B.clock.now, opens: 0, outage: r.chance(4) ? r.range(5, 60) : 0 });
      C.cmd('ws', id, 'ws://peer.test/h' + id);
    } else if (w < 6 && l.length) {
      const [id, h] = r.pick(l);
      const t = txt(r) + '@' + (++serial);
      const k = h.live;
      if (h.opens && k && k.readyState === 1 && k.opened !== undefined) { k.want.push(t); C.inc('messages_out'); }
      if (h.opens) C.cmd(...(r.chance(20) ? ['tx', [['wssend', id, t]]] : ['wssend', id, t]));
    } else if (w < 7 && l.length) { const [id, h] = r.pick(l); drop(id, h); await C.settle(); }
    else await C.adv(r.pick([0, 1, 3, 40, 500, 2500, 3001, 9000, 20000, ...([...hs.values()].some(h => h.outage) ? [100000, 300000] : [])]));
  }
  await C.adv(r.pick([0, 5, 5000, 8500]));
  for (const [id, h] of hs) if (h.dropped === null && r.chance(80)) drop(id, h);
  await C.adv(40000);
  if (C.dead) return;
  for (const [, a, b, eq] of C.ask('wseq').filter(x => x[0] === 'wseq')) { C.inc('connections_compared'); if (eq !== (a === b)) V('connection-equal', `the connections of handles ${a} and ${b} are ${eq ? 'equal' : 'different'}`) }
  for (const [id, h] of hs) {
    const got = C.log.filter(l => l.j[0] === 'ws' && l.j[1] === id).map(l => [l.t, l.j[2], l.j[3]]);
    C.inc('handles'); C.inc('notices', got.length);
    let i = 0;
    while (i < got.length && i < h.want.length && got[i].every((x, n) => x === h.want[i][n])) i++;
    if (i < got.length || i < h.want.length) {
      const f = x => x ? `${x[1]} ${JSON.stringify(x[2]).slice(0, 60)} at ${x[0] - B.clock.start}` : 'nothing more';
      V(h.dropped !== null && got[i] && got[i][0] >= h.dropped && !h.want[i] ? 'called-after-drop' : 'notices', `handle ${id}${h.dropped !== null ? ' dropped at ' + (h.dropped - B.clock.start) : ''}: notice ${i} was ${f(got[i])}, expected ${f(h.want[i])}`);
    }
    for (const k of h.socks) {
      if (k.sent.length !== k.want.length || !k.sent.every((x, n) => x === k.want[n])) V('sent', `handle ${id}: the peer received ${safe(k.sent).slice(0, 400)}, expected ${safe(k.want).slice(0, 400)}`);
      C.inc('peer_messages_compared', k.sent.length);
      if (k.lost) V('sent-to-closed', `handle ${id}: ${k.lost} messages sent to a closed connection`);
    }
    const open = h.socks.filter(k => k.readyState !== 3);
    if (h.dropped !== null && open.length) V('left-open', `handle ${id} was dropped at ${h.dropped - B.clock.start}, ${open.length} of its connections still live at the end`);
    if (h.dropped !== null) for (const k of h.socks) if (k.tClose !== null && k.tClose > h.dropped + 1) V('left-open', `handle ${id}: dropped at ${h.dropped - B.clock.start}, a connection was closed only at ${k.tClose - B.clock.start}`);
    if (h.dropped === null && !h.live && (h.due === null || h.due < B.clock.now)) V('no-retry', `handle ${id}: no connection and no attempt pending`);
  }
  C.nontrivial = (C.counters.notices || 0) > 2;
  const log = C.log.slice();
  if (C.k % 6 === 0 && !C.viols.length) {
    B.onSocket = k => { const n = Number(k.url.split('/').at(-1)); at(B.clock.now + 2, () => { if (k.readyState === 0) { n % 3 ? k.$open() : k.$drop(true); if (n % 3) k.$msg('echo:x'); } }); if (n % 3 === 2) at(B.clock.now + 4, () => { if (k.readyState === 1) k.$drop(false); }); };
    await C.plateau('websocket-leak', 'repeated_connection_memory_checks', async i => { C.cmd('ws', 800, 'ws://peer.test/' + (10 + i)); await C.adv(5); C.cmd('wsdrop', 800); await C.adv(4000); });
  }
  C.mix(log.filter(l => l.j[0] === 'ws').map(l => l.t + l.j.join()).join());
};
