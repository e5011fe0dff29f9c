'use strict';
// Applying and reverting variants: what is live on the page, and which impressions were sent, as a function of the
// history of navigations, triggers, variant changes and API calls.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');

const at = (p) => A.urlCond(`^https://www\\.example\\.com/${p}(\\?.*)?$`);
const by = (values) => [[{ selector: ['context', 'user', 'user_properties', 'v'], op: 'is', values }]];
const PAGES = {
  f1: { A: A.pageObj('A', 'url_change', {}, at('a')), M: A.pageObj('M', 'manual', { name: 'm' }) },
  f2: { U: A.pageObj('U', 'url_change', {}, at('a')) },
  f3: { I: A.pageObj('I', 'url_change', {}, at('[ab]')), N: A.pageObj('N', 'manual', { name: 'm' }) },
  f4: { B: A.pageObj('B', 'url_change', {}, at('b')), E: A.pageObj('E', 'analytics_event', [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['go'] }]]) },
};
// mutations: [value, scope]; injections: [id, scope]
const VARIANTS = {
  f1: { on: { mut: [['f1-all'], ['f1-m', ['M']], ['f1-a', ['A']]] }, t2: { mut: [['f1-t2'], ['f1-t2m', ['M', 'A']]] } },
  f2: { treatment: { mut: [['f2']] }, control: {} },
  f3: { on: { inj: [['j-1'], ['j-2', ['N']]] }, t2: { inj: [['j-1'], ['j3', ['I']]], mut: [['f3-t2']] } },
  f4: { on: { mut: [['f4', ['B', 'E']]], inj: [['k1', ['E']]] } },
};
// which variant each value of user property v gives
const ASSIGN = {
  1: { f1: 'on', f2: 'treatment', f3: 'on', f4: 'on' },
  2: { f1: 't2', f2: 'control', f3: 't2', f4: 'on' },
  3: { f1: 'off', f2: 'off', f3: 'off', f4: 'off' },
};
const KEYS = Object.keys(PAGES);
const payloadOf = (v) => [...(v.mut ? [A.mutateAction(...v.mut.map((m) => A.mutation(...m)))] : []), ...(v.inj || []).map(([id, scope]) => A.injectAction(id, { ...(scope ? { scope } : {}), css: `.${id}{}` }))];
const flags = (remote) =>
  KEYS.map((f) =>
    A.localFlag(
      f,
      Object.fromEntries(Object.entries(VARIANTS[f]).map(([k, v]) => [k, v.mut || v.inj ? payloadOf(v) : undefined])),
      {
        mode: remote === f ? 'remote' : 'local',
        segments: [
          { conditions: by(['1']), variant: ASSIGN[1][f] },
          { conditions: by(['2']), variant: ASSIGN[2][f] },
          { variant: 'off' },
        ],
      },
    ),
  );

async function run(ctx, p, bundle) {
  const device = new Device();
  const page = new A.TagPage({ device, url: 'https://www.example.com/a' });
  const doc = page.scope.document;
  const rec = new A.Recorder();
  let v = '1';
  rec.user = { user_properties: { v: '1' } };
  page.scope.experimentIntegration = rec;
  const removed = [];
  page.onInject = ({ id, utils }) => {
    utils.remove = () => removed.push(id);
  };
  const m = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, []);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags()), pageObjects: JSON.stringify(PAGES) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
  await A.settle();
  await page.timers.advance(1000);
  const client = page.scope.webExperiment;

  // reference
  let path = 'a';
  let query = '';
  let manual = false;
  let event = false;
  const live = {}; // flag -> { variant, mut:Set, inj:Set }
  const runs = []; // injections run so far
  const gone = []; // injections removed so far
  let tracked = {}; // impressions on this URL: flag -> variant
  const impressions = [];
  const active = (f) => {
    const out = [];
    if (f === 'f1' && path === 'a') out.push('A');
    if (f === 'f1' && manual) out.push('M');
    if (f === 'f2' && path === 'a') out.push('U');
    if (f === 'f3' && path !== 'c') out.push('I');
    if (f === 'f3' && manual) out.push('N');
    if (f === 'f4' && path === 'b') out.push('B');
    if (f === 'f4' && event) out.push('E');
    return out;
  };
  const inScope = (f, scope) => (scope ? scope.some((s) => active(f).includes(s)) : active(f).length > 0);
  const seen = (f, variant) => {
    if (tracked[f] === variant) return;
    tracked[f] = variant;
    impressions.push(`${f}:${variant === "off" ? "undefined" : variant}`); // a default variant is reported without a variant
  };
  const dropInj = (f) => {
    if (live[f]) for (const id of live[f].inj) gone.push(id);
    if (live[f]) live[f].inj.clear();
  };
  const revert = (f) => {
    dropInj(f);
    delete live[f];
  };
  const put = (f, variant) => {
    const def = VARIANTS[f][variant];
    const L = live[f] && live[f].variant === variant ? live[f] : (live[f] = { variant, mut: new Set(), inj: new Set() });
    for (const [value, scope] of def.mut || []) {
      if (inScope(f, scope)) {
        L.mut.add(value);
        seen(f, variant);
      } else L.mut.delete(value);
    }
    for (const [raw, scope] of def.inj || []) {
      const id = raw.replace(/-/g, '');
      if (inScope(f, scope)) {
        if (!L.inj.has(id)) {
          L.inj.add(id);
          runs.push(id);
          seen(f, variant);
        }
      } else if (L.inj.has(id)) {
        L.inj.delete(id);
        gone.push(id);
      }
    }
  };
  const sync = (fs) => {
    for (const f of fs) {
      const variant = ASSIGN[v][f];
      if (live[f] && live[f].variant !== variant && live[f].mut.size + live[f].inj.size) revert(f);
      if ((variant === 'off' || variant === 'control') && active(f).length) seen(f, variant);
      if (variant === 'off') {
        revert(f);
        continue;
      }
      put(f, variant);
    }
  };
  sync(KEYS);
  const check = (op) => {
    const muts = KEYS.flatMap((f) => (live[f] ? [...live[f].mut] : [])).sort();
    const injs = KEYS.flatMap((f) => (live[f] ? [...live[f].inj] : [])).sort();
    ctx.equal(A.liveMutations(page), muts, `live mutations after ${op}`, 'mutations');
    const scripts = doc.head.childNodes.filter((n) => n.tagName === 'SCRIPT').map((n) => n.id.replace(/^js-/, '')).sort();
    ctx.equal(scripts, injs, `injected scripts after ${op}`, 'scripts');
    const css = doc.adoptedStyleSheets.map((s) => s.css).sort();
    ctx.equal(css.map((c) => c.replace(/[.{}-]/g, '')), injs, `injected style sheets after ${op}`, 'style sheets');
    if (p.loose) return; // what happened in between, within one task, may or may not have been seen
    ctx.equal((page.injected || []).map((i) => i.id).sort(), runs.slice().sort(), `injections run after ${op}`, 'injections run');
    ctx.equal(removed.slice().sort(), gone.slice().sort(), `injections cleaned up after ${op}`, 'injections removed');
    ctx.equal(rec.keys().sort(), impressions.slice().sort(), `impressions after ${op}`, 'impressions');
    ctx.equal(client.getActiveExperiments().sort(), KEYS.filter((f) => live[f] && live[f].mut.size + live[f].inj.size).sort(), `active experiments after ${op}`, 'active experiments');
    ctx.equal(Object.fromEntries(KEYS.map((f) => [f, client.getVariants()[f].key])), ASSIGN[v], `variants after ${op}`, 'variants');
  };
  check('start');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(p.ops);
    const [k, a, b] = op.split(' ');
    ctx.step(op);
    if (k === 'nav') {
      const [np, nq] = a.split('?');
      const to = '/' + a;
      const changed = np !== path || (nq || '') !== query;
      page.scope.history.pushState({}, '', to);
      if (changed) {
        if (np !== path) tracked = {};
        path = np;
        query = nq || '';
        manual = event = false;
        for (const f of KEYS) dropInj(f);
        sync(KEYS);
      }
    } else if (k === 'manual') {
      const was = manual;
      client.toggleManualPageObject('m', a === 'on');
      manual = a === 'on';
      if (was !== manual) sync(['f1', 'f3']);
    } else if (k === 'flick') {
      // on and off (or off and on) within one task
      client.toggleManualPageObject('m', !manual);
      client.toggleManualPageObject('m', manual);
      for (const v of [!manual, manual]) {
        manual = v;
        sync(['f1', 'f3']);
      }
    } else if (k === 'hop') {
      // two navigations within one task
      for (const to of [a, b]) {
        if (to === path) continue;
        page.scope.history.pushState({}, '', '/' + to);
        tracked = {};
        path = to;
        query = '';
        manual = event = false;
        for (const f of KEYS) dropInj(f);
        sync(KEYS);
      }
    } else if (k === 'event') {
      await client.plugin().execute({ event_type: 'go', event_properties: {} });
      if (!event) {
        event = true;
        sync(['f4']);
      }
    } else if (k === 'user') {
      rec.user = { user_properties: { v: a } };
      v = a;
    } else if (k === 'apply') {
      void client.applyVariants(a ? { flagKeys: a.split(',') } : undefined);
      sync(a ? KEYS.filter((f) => a.split(',').includes(f)) : KEYS);
    } else if (k === 'preview') {
      // shows the variant until the experiment is evaluated again
      void client.previewVariants({ keyToVariant: { [a]: b } });
      revert(a);
      if (b !== 'off' && VARIANTS[a] && VARIANTS[a][b]) put(a, b);
    } else if (k === 'revert') {
      client.revertVariants(a ? { flagKeys: a.split(',') } : undefined);
      for (const f of KEYS) if (!a || a.split(',').includes(f)) revert(f);
    }
    await A.settle();
    check(op);
    ctx.state([path, query, manual, event, v, live, tracked]);
  }
}

const OPS = ['nav a', 'nav b', 'nav c', 'nav a?q=1', 'manual on', 'manual off', 'event', 'user 1', 'user 2', 'user 3', 'apply', 'apply f1,f3', 'revert', 'revert f1,f3', 'revert f4'];
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of navigation, trigger, variant-change and API call sequences on the real tag over a simulated page, against a reference of what must be live',
  level_note: 'all sequences within the stated depth',
  assumptions: ['a variant has at most one mutate action', 'evaluation is the subject of C01 and C05: variants are chosen by a user property here'],
  bounds: (t) => ({ depth: t === 'thorough' ? 6 : 5, flags: 4, pages: 7 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    return [
      { name: 'all', params: { depth: T ? 5 : 4, ops: OPS }, shards: 16, shardDepth: 2 },
      { name: 'pages', params: { depth: T ? 7 : 5, ops: ['nav a', 'nav b', 'nav c', 'manual on', 'manual off', 'event', 'nav a?q=1'] }, shards: 16, shardDepth: 2 },
      { name: 'flick', params: { depth: 4, loose: true, ops: ['nav a', 'nav b', 'manual on', 'manual off', 'flick', 'hop a b', 'hop b a', 'hop c a', 'event'] }, shards: 6, shardDepth: 1 },
      { name: 'preview', params: { depth: T ? 5 : 4, loose: true, ops: ['nav a', 'nav b', 'manual on', 'manual off', 'user 2', 'user 3', 'revert f1', 'preview f1 on', 'preview f1 t2', 'preview f1 off', 'preview f1 none', 'preview f3 t2', 'preview f4 on', 'preview x on'] }, shards: 16, shardDepth: 2 },
      { name: 'variants', params: { depth: T ? 7 : 5, ops: ['nav b', 'manual on', 'manual off', 'user 1', 'user 2', 'user 3', 'apply'] }, shards: 16, shardDepth: 2 },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
