'use strict';
// Every (operator, property value, filter list) combination of a bounded alphabet, through the public
// evaluation entry point, against the reference semantics; plus every AND/OR combination shape.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');
const ref = require('../lib/ref-eval');

const OPS = ['is', 'is not', 'contains', 'does not contain', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set is not', 'set contains', 'set does not contain', 'set contains any', 'set does not contain any', 'regex match', 'regex does not match', 'glob match', ''];

const PROPS = [
  undefined, null, '', ' ', 'a', 'A', 'ab', 'aB', 'b', 'abc', 'true', 'True', 'FALSE', 'false', true, false, '(none)', '0', '1', '2', '10', '9', '-1', '1.5', '01', '1e1', 'NaN', 0, 1, 2, 10, -1, 1.5, '1.2', '1.10', '1.2.3', '1.2.10', '1.2.3-a', '1.2.3-b', '1.2.3-', '1.2.3-a.1', '1.2.3-alpha.beta.', '1.2.3-a..b', '2.0', '1', 'v1.2', '1.2.', '1..2', '1.2.x', '1.2.3.4', '01.02', '10.0.0', 'é', 'É', '日本', '😀',
  [], [''], ['a'], ['A'], ['a', 'b'], ['b', 'a'], ['a', 'a'], ['a', 'b', 'c'], [1], [1, 2], ['1', '2'], [true], ['true'], ['TRUE'], [null], [null, 'a'], [{ a: 1 }], [['a']], '[]', '["a"]', '["a","b"]', '[1,2]', '["true"]', '[', '[a', '[]x', ' ["a"]', '{"a":1}', { a: 1 }, { a: 'a' }, {}, '["1.2.3"]', ['1.2.3', '9'], '(none),a', 1e21, 0.1,
];
const FILTER_ATOMS = ['a', 'A', 'b', 'ab', 'c', '', '(none)', 'true', 'True', 'false', '0', '1', '2', '10', '9', '-1', '1.5', 'x', '1.2', '1.2.3', '1.2.10', '1.2.3-a', '1.2.3-b', '2.0', '10.0.0', '1.2.x', '^a', 'a$', '[0-9]+', '日', 'é', '{"a":1}', '["a"]'];
function filters(tier) {
  const out = [[]];
  for (const a of FILTER_ATOMS) out.push([a]);
  for (const a of FILTER_ATOMS) for (const b of FILTER_ATOMS) if (tier === 'thorough' || FILTER_ATOMS.indexOf(a) <= 14 || FILTER_ATOMS.indexOf(b) <= 6) out.push([a, b]);
  const small = tier === 'thorough' ? FILTER_ATOMS.slice(0, 18) : ['a', 'b', 'c', '(none)', 'true', '1', '2', '1.2.3'];
  for (const a of small) for (const b of small) for (const c of small) out.push([a, b, c]);
  return out;
}
const REGEX_OK = (fs) => fs.every((f) => { try { new RegExp(f); return true; } catch (e) { return false; } });

module.exports = {
  level: 'exploration',
  technique: 'exhaustive enumeration of operator/value/filter combinations on the real evaluator against a reference semantics',
  level_note: 'complete over the stated alphabets; alphabets are representatives of each type and coercion corner',
  rule: 'a case is one (selector shape, operator, property value, filter list) or one AND/OR table; non-trivial = the tuple is distinct (counted by hash)',
  bounds: (t) => ({ operators: OPS.length, propertyValues: PROPS.length, filterLists: filters(t).length, dnf: 'all condition tables up to 3 OR-groups of up to 3 conditions over 4 atoms' }),
  assumptions: ['reference semantics in lib/ref-eval.js', 'numeric operators treat a non-number as matching nothing (the behaviour of the pinned tree)'],
  scenarios: (tier) => [
    ...OPS.map((op, i) => ({ name: 'op:' + op, params: { kind: 'op', op, tier } })),
    { name: 'selectors', params: { kind: 'selectors' } },
    { name: 'dnf', params: { kind: 'dnf', tier } },
  ],
  async prepare() {
    const b = await getBundle({ core: 'experiment-core/src/index.ts' });
    return b.load(new Page().scope).core;
  },
  run(ctx, p, core) {
    const engine = new core.EvaluationEngine();
    const flagFor = (cond) => [{ key: 'f', variants: { on: { key: 'on', value: 'on' } }, segments: [{ conditions: [[cond]], variant: 'on' }] }];
    const ask = (context, cond) => {
      const r = engine.evaluate(context, flagFor(cond));
      return !!r.f;
    };
    if (p.kind === 'op') {
      const sel = ['context', 'user', 'user_properties', 'p'];
      for (const prop of PROPS) {
        for (const values of filters(p.tier)) {
          if (p.op.startsWith('regex') && !REGEX_OK(values)) continue;
          const cond = { selector: sel, op: p.op, values };
          const context = { user: { user_properties: { p: prop } } };
          const frozen = canon(context);
          const got = ask(context, cond);
          const got2 = engine.evaluateConditions({ context, result: {} }, [[cond]]);
          const want = ref.matchCondition({ context, result: {} }, cond);
          ctx.evaluated([p.op, prop, values]);
          if (got !== want || got2 !== want) ctx.report(`op "${p.op}" on ${canon(prop)} with filter ${canon(values)}: code says ${got}/${got2}, the semantics say ${want}`);
          if (canon(context) !== frozen) ctx.report(`evaluation changed its input context: ${frozen}`);
        }
      }
    } else if (p.kind === 'selectors') {
      // every selector shape over present / absent / scalar intermediate nodes, and results of earlier flags
      const contexts = [{}, { user: null }, { user: {} }, { user: { p: 'a' } }, { user: { p: { q: 'a' } } }, { user: 'a' }, { user: { user_properties: { p: 'a', '': 'a' } } }, { user: { groups: { org: ['a'] } }, groups: { org: { x: { group_properties: { p: 'a' } } } } }, { user: ['a'] }, { user: { p: 0 } }, { user: { p: false } }, { user: { p: '' } }];
      const segs = ['context', 'user', 'p', 'q', 'user_properties', '', 'groups', 'org', 'x', 'group_properties', 'length', '0', 'constructor'];
      const sels = [undefined, []];
      for (const a of segs) {
        sels.push([a]);
        for (const b of segs) {
          sels.push([a, b]);
          for (const c of segs) {
            sels.push([a, b, c]);
            if (a === 'context') for (const d of segs) sels.push([a, b, c, d]);
          }
        }
      }
      for (const context of contexts)
        for (const selector of sels)
          for (const op of ['is', 'is not', 'set contains', 'contains', 'does not contain']) {
            const cond = { selector, op, values: ['a', '0', 'false'] };
            const got = ask(context, cond);
            const want = ref.matchCondition({ context, result: {} }, cond);
            ctx.evaluated(['sel', context, selector || null, op]);
            if (got !== want) ctx.report(`selector ${canon(selector)} op ${op} over ${canon(context)}: code ${got}, semantics ${want}`);
          }
    } else {
      // OR of ANDs: all tables up to 3 groups of up to 3 atoms; atoms: true, false, missing-prop, regex
      const atoms = [
        { selector: ['context', 'u', 'a'], op: 'is', values: ['1'] },
        { selector: ['context', 'u', 'b'], op: 'is', values: ['1'] },
        { selector: ['context', 'u', 'c'], op: 'is not', values: ['1'] },
        { selector: ['context', 'u', 'd'], op: 'greater', values: ['5'] },
      ];
      const groups = [[]];
      for (let i = 0; i < 4; i++) {
        groups.push([atoms[i]]);
        for (let j = 0; j < 4; j++) {
          groups.push([atoms[i], atoms[j]]);
          if (p.tier === 'thorough' || i !== j) for (let k = 0; k < 4; k++) groups.push([atoms[i], atoms[j], atoms[k]]);
        }
      }
      const tables = [[]];
      for (const g of groups) {
        tables.push([g]);
        for (const h of groups) tables.push([g, h]);
      }
      const small = groups.filter((g) => g.length <= 2);
      for (const g of small) for (const h of small) for (const i of small) tables.push([g, h, i]);
      const users = [];
      for (let m = 0; m < 16; m++) users.push({ u: { a: m & 1 ? '1' : '2', b: m & 2 ? '1' : undefined, c: m & 4 ? '1' : 'x', d: m & 8 ? 6 : 5 } });
      for (const t of tables)
        for (const context of users) {
          const flags = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: t, variant: 'on' }] }];
          const got = !!engine.evaluate(context, flags).f;
          const got2 = engine.evaluateConditions({ context, result: {} }, t);
          const want = ref.matchConditions({ context, result: {} }, t);
          ctx.evaluated(['dnf', t, context]);
          if (got !== want || got2 !== want) ctx.report(`condition table ${canon(t)} on ${canon(context)}: code ${got}/${got2}, semantics ${want}`);
        }
    }
    ctx.sample({ scenario: p.kind, op: p.op });
  },
};
