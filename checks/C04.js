'use strict';
// The traced evaluation gives the same variants as the plain one and its trace tells the truth.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');
const ref = require('../lib/ref-eval');
const G = require('../lib/gen-flags');

function condTables() {
  const T = { selector: ['context', 'user', 'a'], op: 'is', values: ['1'] };
  const F = { selector: ['context', 'user', 'a'], op: 'is', values: ['2'] };
  const N = { selector: ['context', 'user', 'zz'], op: 'is not', values: ['2'] };
  const D = { selector: ['result', 'dep', 'key'], op: 'is', values: ['on'] };
  const gs = [[], [T], [F], [N], [D], [T, F], [F, T], [T, N], [T, D], [D, F], [T, F, N], [T, N, D]];
  const out = [[]];
  for (const a of gs) {
    out.push([a]);
    for (const b of gs) out.push([a, b]);
  }
  return out;
}

module.exports = {
  level: 'exploration',
  technique: 'exhaustive enumeration of flag configurations evaluated both ways on the real evaluator, traces compared with a reference evaluator',
  level_note: 'complete over the stated configurations',
  rule: 'a case is one flag configuration x user evaluated both ways; distinct by construction of the enumeration',
  bounds: (t) => ({ segments: 'all lists of <=2 segments over 144 kinds; thorough: 3 over a subset', conditionTables: condTables().length + ' OR/AND tables, alone and in pairs of segments' }),
  assumptions: ['reference semantics in lib/ref-eval.js'],
  scenarios: (tier) => [
    ...Array.from({ length: 24 }, (_, i) => ({ name: 'segments:' + i, params: { kind: 'segments', i, of: 24, tier } })),
    ...Array.from({ length: 8 }, (_, i) => ({ name: 'tables:' + i, params: { kind: 'tables', i, of: 8 } })),
  ],
  async prepare() {
    const b = await getBundle({ core: 'experiment-core/src/index.ts' });
    return b.load(new Page().scope).core;
  },
  run(ctx, p, core) {
    const engine = new core.EvaluationEngine();
    const check = (context, flags, what) => {
      const before = canon([context, flags]);
      const plain = engine.evaluate(context, flags);
      const traced = engine.evaluateWithTraces(context, flags);
      ctx.evaluatedMany(1, 1);
      if (canon(plain) !== canon(traced.results)) ctx.report(`${what()}: plain ${canon(plain)} but traced ${canon(traced.results)}`);
      if (canon([context, flags]) !== before) ctx.report(`${what()}: traced evaluation modified its inputs`);
      if (canon(Object.keys(traced.traces).sort()) !== canon(flags.map((f) => f.key).sort())) ctx.report(`${what()}: traces for ${Object.keys(traced.traces)}`);
      const result = {};
      const target = { context, result };
      for (const flag of flags) {
        const tr = traced.traces[flag.key];
        const want = ref.evaluateFlag(target, flag);
        const bad = (m) => ctx.report(`${what()}: flag ${flag.key}: ${m}; trace ${canon(tr)}`);
        if (tr.flagKey !== flag.key) bad('flagKey wrong');
        if (tr.matched !== !!want) bad(`matched should be ${!!want}`);
        if (tr.steps.length !== flag.segments.length) bad('one step per segment expected');
        flag.segments.forEach((seg, i) => {
          const st = tr.steps[i];
          if (!st) return;
          const pass = !seg.conditions || ref.matchConditions(target, seg.conditions);
          const b = pass ? ref.bucket(target, seg) : undefined;
          if (st.conditionsPassed !== pass) bad(`segment ${i}: conditionsPassed should be ${pass}`);
          if (st.bucketVariant !== b || st.bucketed !== (b !== undefined)) bad(`segment ${i}: bucketVariant should be ${b}`);
          if (st.matched !== (pass && b !== undefined)) bad(`segment ${i}: matched should be ${pass && b !== undefined}`);
          if (canon(st.segmentMetadata) !== canon(seg.metadata)) bad(`segment ${i}: metadata`);
          if (seg.conditions) {
            // reported conditions: same truth value and property value as the semantics give, OR groups in order,
            // and the recorded evidence implies the reported outcome
            const rec = st.conditionResult || [];
            let any = false;
            rec.forEach((g, gi) => {
              const src = seg.conditions[gi] || [];
              (g || []).forEach((c, ci) => {
                if (canon(c.condition) !== canon(src[ci])) bad(`segment ${i}: recorded condition ${gi}/${ci} is not the configured one`);
                if (c.matched !== ref.matchCondition(target, src[ci])) bad(`segment ${i}: recorded truth of condition ${gi}/${ci} wrong`);
                if (canon(c.propValue) !== canon(ref.lookup(target, src[ci].selector))) bad(`segment ${i}: recorded value of condition ${gi}/${ci} wrong`);
              });
              const full = (g || []).length === src.length && (g || []).every((c) => c.matched);
              if (full) any = true;
              else if (!(g || []).some((c) => !c.matched)) bad(`segment ${i}: OR group ${gi} records no failing condition`);
            });
            if (any !== pass) bad(`segment ${i}: recorded conditions do not add up to ${pass}`);
            if (!pass && rec.length !== seg.conditions.length) bad(`segment ${i}: not every OR group of a failed segment is recorded`);
          }
        });
        if (want) {
          const wi = flag.segments.findIndex((seg) => (!seg.conditions || ref.matchConditions(target, seg.conditions)) && flag.variants[ref.bucket(target, seg)]);
          const name = flag.segments[wi].metadata && flag.segments[wi].metadata.segmentName;
          if (tr.matchedSegment !== name) bad(`matchedSegment should be ${name}`);
          result[flag.key] = want;
        }
      }
    };
    if (p.kind === 'segments') {
      const S = G.segments();
      const users = [{ user_id: 'u1', user_properties: { plan: 'pro' } }, {}];
      S.forEach((a, ai) => {
        if (ai % p.of !== p.i) return;
        const lists = [[a]];
        S.forEach((b) => lists.push([a, b]));
        if (p.tier === 'thorough') S.forEach((b, bi) => bi % 5 === 0 && S.forEach((c, ci) => ci % 3 === 1 && lists.push([a, b, c])));
        for (const l of lists)
          for (const user of users) {
            const id = user.user_id || 'u1';
            const flag = { key: 'f', variants: G.VARIANTS, segments: l.map((s, i) => G.makeSegment(s, id, i)), metadata: { shared: 'flag', flagOnly: 1 } };
            check({ user }, [flag], () => `segments ${canon(l)} user ${canon(user)}`);
          }
      });
    } else {
      const tables = condTables();
      const dep = { key: 'dep', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'd'], op: 'is', values: ['1'] }]], variant: 'on' }] };
      tables.forEach((t, ti) => {
        if (ti % p.of !== p.i) return;
        const second = ti % 3 === 0 ? tables : [undefined, tables[1], tables[2], tables[3], tables[7]];
        for (const t2 of second)
          for (const user of [{ a: '1', d: '1' }, { a: '1' }, { a: '2', d: '1' }, {}]) {
            const f = { key: 'f', variants: { on: { key: 'on' }, b: { key: 'b' } }, segments: [{ conditions: t, variant: 'on', metadata: { segmentName: 'one' } }, { conditions: t2, variant: 'b', metadata: { segmentName: 'two' } }] };
            if (!t2) delete f.segments[1].conditions;
            check({ user }, [dep, f], () => `tables ${canon(t)} / ${canon(t2)} user ${canon(user)}`);
          }
      });
    }
    ctx.sample({ scenario: p });
  },
};
