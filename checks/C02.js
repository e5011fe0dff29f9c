'use strict';
// Bucketing: hash function and allocation/distribution arithmetic, enumerated on exact boundaries.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');
const ref = require('../lib/ref-eval');
const { position } = require('../lib/gen-flags');

const ALPHA = ['a', 'Z', '0', '/', ' ', '\u00e9', '\u07ff', '\u0800', '\uffff', '\ud83d\ude00', '\ud800', '\udc00', '\u0000', '\u007f', '\u0080', '\u{10ffff}'];
const RANGES = (x, max) => [[x, x + 1], [x + 1, max], [0, x], [0, x + 1], [x, max], [0, max], [x, x], [max, max], [x + 1, x]];

module.exports = {
  level: 'exploration',
  technique: 'exhaustive enumeration of strings and boundary-exact allocation tables on the real evaluator against a reference hash',
  level_note: 'complete over the stated alphabet and lengths',
  rule: 'a case is one hashed string, or one (bucketing value, salt, allocation table) evaluated; distinct by hash of the tuple; all have range ends placed exactly at, one below and one above the hashed position',
  bounds: (t) => ({ strings: 'all strings of length <=4 (thorough) / <=3 (quick) over 16 code points spanning every UTF-8 length, plus runs of length 0..200', tables: 'all pairs of allocations with all pairs of distributions on 9 boundary ranges each' }),
  assumptions: ['MurmurHash3_x86_32 seed 0 as published; reference in lib/ref-eval.js uses exact integer arithmetic'],
  scenarios: (tier) => [
    ...ALPHA.map((c, i) => ({ name: 'hash:' + i, params: { kind: 'hash', first: c, tier } })),
    { name: 'runs', params: { kind: 'runs' } },
    ...[0, 1, 2, 3, 4, 5].map((i) => ({ name: 'tables:' + i, params: { kind: 'tables', i, tier } })),
    { name: 'values', params: { kind: 'values' } },
  ],
  async prepare() {
    const b = await getBundle({ core: 'experiment-core/src/index.ts' });
    const scope = new Page().scope;
    const m = b.load(scope);
    return m.core;
  },
  run(ctx, p, core) {
    const engine = new core.EvaluationEngine();
    // observed hash, through the public evaluator: binary search of the distribution range would be slow, so use
    // a table of 100 one-percent allocations x distribution halves to read back (alloc, dist) exactly.
    const assigned = (salt, selector, context, allocations, dflt) => {
      const flag = { key: 'f', variants: new Proxy({}, { get: (t, k) => ({ key: String(k) }) }), segments: [{ bucket: { selector, salt, allocations }, variant: dflt }] };
      const r = engine.evaluate(context, [flag]);
      return r.f && r.f.key;
    };
    const sel = ['context', 'user', 'id'];
    // exact identification of the position: allocation range of width 1 and distribution range of width 1
    const exact = (salt, id) => {
      const { alloc, dist } = position(salt, id);
      return assigned(salt, sel, { user: { id } }, [
        { range: [0, alloc], distributions: [{ variant: 'low', range: [0, 50000000] }] },
        { range: [alloc, alloc + 1], distributions: [{ variant: 'dlow', range: [0, dist] }, { variant: 'exact', range: [dist, dist + 1] }, { variant: 'dhigh', range: [dist + 1, 50000000] }] },
        { range: [alloc + 1, 100], distributions: [{ variant: 'high', range: [0, 50000000] }] },
      ], 'none');
    };
    if (p.kind === 'hash') {
      const rec = (s, d) => {
        for (const salt of ['', 's']) {
          if (s.length === 0) continue;
          const got = exact(salt, s);
          ctx.evaluated([salt, s]);
          if (got !== 'exact') ctx.report(`bucketing value ${JSON.stringify(s)} with salt ${JSON.stringify(salt)} is not at its MurmurHash3 position (got ${got})`);
        }
        if (d > 0) for (const c of ALPHA) rec(s + c, d - 1);
      };
      rec(p.first, p.tier === 'thorough' ? 3 : 2);
    } else if (p.kind === 'runs') {
      for (const c of ALPHA)
        for (let n = 1; n <= 200; n++) {
          const s = c.repeat(n);
          const got = exact('salt', s);
          ctx.evaluated(['run', c, n]);
          if (got !== 'exact') ctx.report(`bucketing value ${JSON.stringify(c)} x ${n} is not at its MurmurHash3 position (got ${got})`);
        }
    } else if (p.kind === 'values') {
      // every kind of bucketing value: absent, empty, number, boolean, object, list
      const vals = [undefined, null, '', ' ', 0, 1, false, true, NaN, 12.5, { a: 1 }, {}, [], ['x'], ['x', 1], 'u'];
      for (const v of vals)
        for (const dflt of [undefined, 'on'])
          for (const allocs of [[], [{ range: [0, 100], distributions: [] }], [{ range: [0, 100], distributions: [{ variant: 't', range: [0, 50000000] }] }], [{ range: [0, 50], distributions: [{ variant: 't', range: [0, 50000000] }] }]]) {
            const context = { user: { id: v } };
            const seg = { bucket: { selector: sel, salt: 'x', allocations: allocs }, variant: dflt };
            const want = ref.bucket({ context, result: {} }, seg);
            const got = assigned('x', sel, context, allocs, dflt);
            ctx.evaluated(['val', canon(v), dflt || null, allocs]);
            if (got !== want) ctx.report(`bucketing value ${canon(v)} default ${dflt} allocations ${canon(allocs)}: got ${got}, expected ${want}`);
          }
    } else {
      const ids = ['user-1', 'b', 'device-77', 'x'.repeat(36), '日本語', '42'];
      const id = ids[p.i];
      const salt = 'salt' + p.i;
      const { alloc, dist } = position(salt, id);
      const AR = RANGES(alloc, 100);
      const DR = RANGES(dist, 42949673);
      const dl = [];
      for (const a of DR) {
        dl.push([{ variant: 'A', range: a }]);
        for (const b of DR) dl.push([{ variant: 'A', range: a }, { variant: 'B', range: b }]);
      }
      const dsecond = p.tier === 'thorough' ? dl.map((d) => d.map((x) => ({ ...x, variant: x.variant.toLowerCase() }))) : dl.filter((d, i) => i % 9 === 0).map((d) => d.map((x) => ({ ...x, variant: x.variant.toLowerCase() })));
      const one = (allocs) => {
        const context = { user: { id, other: 'x' } };
        const seg = { bucket: { selector: sel, salt, allocations: allocs }, variant: 'none' };
        const want = ref.bucket({ context, result: {} }, seg);
        const got = assigned(salt, sel, context, allocs, 'none');
        const again = assigned(salt, sel, { user: { id, extra: 1 }, junk: true }, allocs, 'none');
        ctx.evaluated(['tab', id, allocs]);
        if (got !== want || again !== want) ctx.report(`${id} with ${canon(allocs)}: got ${got} then ${again}, expected ${want}`);
      };
      one([]);
      for (const a of AR)
        for (const d of dl) {
          one([{ range: a, distributions: d }]);
          for (const b of AR) for (const e of dsecond) one([{ range: a, distributions: d }, { range: b, distributions: e }]);
        }
    }
    ctx.sample({ scenario: p });
  },
};
