'use strict';
// Flag evaluation: segment order, metadata precedence, dependency ordering; all small configurations.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');
const ref = require('../lib/ref-eval');
const G = require('../lib/gen-flags');

const perms = (a) => (a.length <= 1 ? [a] : a.flatMap((x, i) => perms([...a.slice(0, i), ...a.slice(i + 1)]).map((r) => [x, ...r])));
const subsets = (a) => a.reduce((acc, x) => [...acc, ...acc.map((s) => [...s, x])], [[]]);

function reach(adj, start) {
  const seen = new Set();
  const go = (i) => {
    if (seen.has(i)) return;
    seen.add(i);
    adj[i].forEach(go);
  };
  start.forEach(go);
  return seen;
}
function cyclic(adj, nodes) {
  const st = {};
  const go = (i) => {
    if (st[i] === 1) return true;
    if (st[i] === 2) return false;
    st[i] = 1;
    if (adj[i].some(go)) return true;
    st[i] = 2;
    return false;
  };
  return [...nodes].some(go);
}

module.exports = {
  level: 'exploration',
  technique: 'exhaustive enumeration of segment lists and dependency graphs on the real evaluator against a reference evaluator',
  level_note: 'complete over all graphs and segment lists within bounds',
  rule: 'a case is one evaluated configuration: a list of segments, or a dependency graph x flag order x requested keys x roots; distinct by construction of the enumeration',
  bounds: (t) => ({
    segments: 'all lists of <=2 segments over 144 segment kinds (6 condition x 6 bucket x 4 default) and, thorough, of 3 over a third of them, x 3 users',
    graphs: 'all digraphs with self loops on <=3 flags, all without on 4 flags; all flag-map orders up to 3 flags; all requested-key subsets and orders',
  }),
  assumptions: ['reference semantics in lib/ref-eval.js'],
  scenarios: (tier) => [
    ...Array.from({ length: 24 }, (_, i) => ({ name: 'segments:' + i, params: { kind: 'segments', i, of: 24, tier } })),
    ...[1, 2, 3].map((n) => ({ name: 'graph:' + n, params: { kind: 'graph', n, i: 0, of: 1, self: true, tier } })),
    ...Array.from({ length: 8 }, (_, i) => ({ name: 'graph:4:' + i, params: { kind: 'graph', n: 4, i, of: 8, self: false, tier } })),
  ],
  async prepare() {
    const b = await getBundle({ core: 'experiment-core/src/index.ts' });
    return b.load(new Page().scope).core;
  },
  run(ctx, p, core) {
    const engine = new core.EvaluationEngine();
    if (p.kind === 'segments') {
      const S = G.segments();
      const users = [{ user_id: 'u1', user_properties: { plan: 'pro' } }, { user_id: 'u2' }, {}];
      const lists = [];
      S.forEach((a, ai) => {
        if (ai % p.of !== p.i) return;
        lists.push([a]);
        S.forEach((b) => lists.push([a, b]));
        if (p.tier === 'thorough') S.forEach((b, bi) => bi % 3 === 0 && S.forEach((c, ci) => ci % 3 === 1 && lists.push([a, b, c])));
      });
      if (p.i === 0) lists.push([]);
      for (const l of lists)
        for (const user of users) {
          const id = user.user_id || 'u1';
          const flag = { key: 'f', variants: G.VARIANTS, segments: l.map((s, i) => G.makeSegment(s, id, i)), metadata: { shared: 'flag', flagOnly: 1 } };
          const context = { user };
          const before = canon([context, flag]);
          const got = engine.evaluate(context, [flag]);
          const want = ref.evaluate(context, [flag]);
          ctx.evaluatedMany(1, 1);
          if (canon(got) !== canon(want)) ctx.report(`segments ${canon(l)} for ${canon(user)}: got ${canon(got)}, expected ${canon(want)}`);
          if (canon([context, flag]) !== before) ctx.report(`evaluation modified its inputs: ${before}`);
        }
    } else {
      const names = ['A', 'B', 'C', 'D'].slice(0, p.n);
      const orders = p.n <= 3 || p.tier === 'thorough' ? perms(names) : [names, [...names].reverse()];
      const requests = [undefined, ...subsets(names).flatMap((s) => (s.length <= 3 ? perms(s) : [s, [...s].reverse()])), ['nope', 'toString', ...names]];
      let gi = 0;
      for (const adj of G.digraphs(p.n, p.self)) {
        if (gi++ % p.of !== p.i) continue;
        for (const order of orders) {
          const flags = {};
          for (const k of order) {
            const i = names.indexOf(k);
            const deps = adj[i].map((j) => names[j]);
            // one flag also depends on a flag that does not exist
            flags[k] = { key: k, variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [] };
            if (deps.length || i === 1) flags[k].dependencies = i === 2 ? [...deps, 'missing', 'constructor'] : deps;
            if (i === 2 && !deps.length) flags[k].dependencies = ['constructor', 'missing'];
            // "on" only if every dependency evaluated to "on" and the user opted in
            flags[k].segments.push({ conditions: [[...deps.map((d) => ({ selector: ['result', d, 'key'], op: 'is', values: ['on'] })), { selector: ['context', 'user', k], op: 'is', values: ['1'] }]], variant: 'on' }, { variant: 'off' });
          }
          for (const req of requests) {
            const start = (req || order).map((k) => names.indexOf(k)).filter((i) => i >= 0);
            const R = reach(adj, start);
            let got;
            let threw = false;
            const before = canon([flags, req]);
            try {
              got = core.topologicalSort(flags, req);
            } catch (e) {
              threw = true;
            }
            ctx.evaluatedMany(1, 1);
            const desc = () => `flags ${order.map((k) => k + '->' + (flags[k].dependencies || []).join('+')).join(' ')} requested ${req ? req.join(',') : 'all'}`;
            if (cyclic(adj, R)) {
              if (!threw) ctx.report(`${desc()}: a dependency cycle was not reported`);
              continue;
            }
            if (threw) {
              ctx.report(`${desc()}: reported a cycle where there is none`);
              continue;
            }
            if (canon([flags, req]) !== before) ctx.report(`${desc()}: ordering modified its input`);
            const keys = got.map((f) => f && f.key);
            const expect = [...R].map((i) => names[i]).sort();
            if (canon([...keys].sort()) !== canon(expect)) ctx.report(`${desc()}: ordered flags are ${keys}, expected exactly ${expect}`);
            keys.forEach((k, i) => adj[names.indexOf(k)].forEach((j) => keys.indexOf(names[j]) < i || ctx.report(`${desc()}: ${k} ordered before its dependency ${names[j]} (${keys})`)));
            // the evaluation over that order equals the order-independent meaning
            for (const m of [2 ** p.n - 1, 2 ** p.n - 2, 2 ** p.n - 3, 0]) {
              const user = {};
              names.forEach((k, i) => (user[k] = m & (1 << i) ? '1' : '0'));
              const res = engine.evaluate({ user }, got);
              const on = {};
              const val = (i) => (i in on ? on[i] : (on[i] = user[names[i]] === '1' && adj[i].every(val)));
              for (const i of R) {
                const w = val(i) ? 'on' : 'off';
                if (!res[names[i]] || res[names[i]].key !== w) ctx.report(`${desc()}: user ${canon(user)} got ${res[names[i]] && res[names[i]].key} for ${names[i]}, expected ${w}`);
              }
            }
          }
        }
      }
    }
    ctx.sample({ scenario: p });
  },
};
