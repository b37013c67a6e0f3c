// C22: the html sent is the declared document.
import { makePage, judge, ask, hash } from './common.mjs';
export const mon = {
  prop: 'C22',
  async setup(env) {
    await Promise.all([
      env.server({}),
      env.server({ env: [['api', 'http://x/?a=1&b="2"'], ['quote', `<'">&amp; ż😀`], ['EMPTY', ''], ['Upper', 'U'], ['api_url', 'u_1'], ['a-b', 'd-1'], ['n.m', 'p.1'], ['x1', '2'], ['_x', '_'], ['APP_KEY', 'K']], run_js: '/b/c/run.abc.js', wasm: '/b/c/app.wasm' }),
    ]);
  },
  async run(C, env) {
    const r = C.r, S = r.pick(env.servers);
    const P = makePage(C, env, S, { nodes: r.pick([8, 25, 60]), loads: r.chance(15) });
    const res = await ask(C, P);
    const x = judge(C, P, res, 'C22');
    for (const p of P.g.plans) env.U.plans.delete(P.pid + '/' + p.id);
    env.U.byPage.delete(P.pid);
    if (x?.cmp && x.cmp.n.nodes > 8) { C.nontrivial = true; C.h = hash(P.target) }
  },
};
