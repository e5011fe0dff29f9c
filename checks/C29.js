'use strict';
// Experiments targeted by behaviour: the variant on the page follows the behaviours the visitor matches.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');
const B = require('../lib/behaviors');

const on = (p) => A.urlCond(`^https://www\\.example\\.com/${p}$`);
const has = (id) => [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains any', values: [id] }]];
const { cond } = B;
const RULES = {
  fa: { twice: [[cond('a', 'greater or equal', 2, [1, 'hour'])]], once: [[cond('a', 'is', 1, 's')]] },
  fb: { one: [[cond('a', 'is', 1, 's')]], two: [[cond('b', 'greater', 0, [1, 'hour'])]] },
  fc: { b: [[cond('b', 'is', 1, 's')]] },
};
const PAGES = {
  fa: { A: A.pageObj('A', 'url_change', {}, on('[ab]')) },
  fb: { B: A.pageObj('B', 'url_change', {}, on('b')) },
  fc: { C: A.pageObj('C', 'analytics_event', [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['a'] }]]) },
  plain: { P: A.pageObj('P', 'url_change', {}, on('[ab]')) },
};
// variants in order of precedence: [behaviour, variant]
const VARIANTS = { fa: [['fa.twice', 'on', 'twice'], ['fa.once', 'first', 'once']], fb: [['fb.one', 't1', 'one'], ['fb.two', 't2', 'two']], fc: [['fc.b', 'on', 'b']] };
const KEYS = Object.keys(VARIANTS);
const flags = [
  ...KEYS.map((f) =>
    A.localFlag(f, Object.fromEntries(VARIANTS[f].map(([, v]) => [v, [A.mutateAction(A.mutation(`${f}-${v}`))]])), {
      segments: [...VARIANTS[f].map(([, v, id]) => ({ conditions: has(id), variant: v })), { variant: 'off' }],
    }),
  ),
  A.localFlag('plain', { on: [A.mutateAction(A.mutation('plain-on'))] }, { segments: [{ variant: 'on' }] }),
];

async function run(ctx, p, bundle) {
  const device = new Device();
  const w = { events: [], session: null, last: null, next: 0, get now() { return device.clock.now; } };
  const M = {};
  let page;
  let client;
  let rec;
  let path;
  let fired; // a page object of fc fired on this URL
  let live = {};
  let tracked = {};
  let impressions;
  let plugin;
  const current = () => {
    if (w.session !== null && w.now - w.last > B.T) w.session = null;
  };
  const evaluate = (type) => {
    current();
    for (const [f, ids] of Object.entries(RULES)) for (const [id, r] of Object.entries(ids)) if (type === null || B.mentions(r, type)) M[`${f}.${id}`] = B.holds(r, w);
  };
  const record = (type) => {
    current();
    if (w.session === null) w.session = w.next++;
    w.last = w.now;
    if (['a', 'b'].includes(type)) w.events.push({ type, at: w.now, session: w.session, props: {} });
    evaluate(type);
  };
  const variantOf = (f) => {
    const hit = VARIANTS[f].find(([b]) => M[b]);
    return hit ? hit[1] : 'off';
  };
  const active = (f) => (f === 'fa' || f === 'plain' ? path !== 'c' : f === 'fb' ? path === 'b' : fired);
  const sync = () => {
    for (const f of KEYS.concat('plain')) {
      const v = f === 'plain' ? 'on' : variantOf(f);
      if (v !== 'off' && active(f)) {
        live[f] = v;
        if (tracked[f] !== v) {
          tracked[f] = v;
          impressions.push(`${f}:${v}`);
        }
      } else delete live[f];
    }
  };
  const one = async (type) => plugin.execute({ event_type: type, event_properties: {} });
  const see = (type) => {
    record(type);
    if (type === 'a') fired = true;
    sync();
  };
  const load = async (early) => {
    page = new A.TagPage({ device, url: `https://www.example.com/${path}` });
    rec = new A.Recorder();
    page.scope.experimentIntegration = rec;
    page.onRequest = (r) => r.respond(200, []);
    const m = bundle.load(page.scope);
    live = {};
    tracked = {};
    impressions = [];
    fired = false;
    evaluate(null);
    // the analytics SDK's plugin exists before the client runs: its events are kept until then
    plugin = m.tag.createPlugin();
    for (const e of early) void one(e);
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(PAGES), behavioralTargetingRules: JSON.stringify(RULES) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
    sync();
    await A.settle();
    client = page.scope.webExperiment;
    if (early.length) {
      // they count one after the other, however close together
      for (const e of early) see(e);
    }
    await page.timers.advance(100);
  };
  const check = (op) => {
    const want = KEYS.concat('plain').filter((f) => live[f]).map((f) => `${f}-${live[f]}`).sort();
    ctx.equal(A.liveMutations(page), want, `live changes after ${op}`, 'live changes');
    const ids = Object.keys(M).filter((k) => M[k]).map((k) => k.split('.')[1]).sort();
    ctx.equal((client.experimentClient.getUser().behavioral_targeting || []).slice().sort(), ids, `behaviours of the user after ${op}`, 'behaviours');
    ctx.equal(Object.fromEntries(KEYS.map((f) => [f, client.getVariants()[f].key])), Object.fromEntries(KEYS.map((f) => [f, variantOf(f)])), `variants after ${op}`, 'variants');
    const sent = rec.keys().filter((k) => !k.endsWith(':undefined')).sort();
    ctx.equal(sent, p.burst ? sent.filter((k) => impressions.includes(k)) : impressions.slice().sort(), `impressions after ${op}`, 'impressions');
    for (const f of Object.keys(live)) ctx.ok(sent.includes(`${f}:${live[f]}`), `no impression of ${f} ${live[f]} after ${op}`, 'impressions');
  };
  path = 'a';
  const early = p.early ? ctx.pick([[], ['a'], ['a', 'a'], ['a', 'b', 'a'], ['b', 'b'], ['c']]) : [];
  ctx.step(`before the start: ${early}`);
  await load(early);
  check('start');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(p.ops);
    ctx.step(op);
    const [k, a] = op.split(' ');
    if (k === 'event') {
      void one(a);
      see(a);
    } else if (k === 'burst') {
      for (const e of a.split('')) {
        void one(e);
        see(e);
      }
    } else if (k === 'nav') {
      if (a !== path) {
        path = a;
        tracked = {};
        fired = false;
        page.scope.history.pushState({}, '', '/' + a);
        sync();
      }
    } else if (k === 'wait') {
      // in large steps: nothing in the page depends on the time between them
      await page.timers.advance(a === 'T1' ? B.T + 1 : B.HOUR);
    } else if (k === 'reload') {
      page.windowDispatch('beforeunload');
      page.kill();
      await load([]);
    }
    await A.settle();
    check(op);
    ctx.state([path, fired, M, live, tracked, w.events.map((e) => [e.type, w.now - e.at, e.session === w.session])]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of event, navigation, waiting and page-load sequences on the real tag over a simulated page, against a reference of matched behaviours and live variants',
  level_note: 'all sequences within the stated depth',
  assumptions: ['one page of the site is open at a time', 'the relay is the subject of C28 and not reachable here'],
  bounds: (t) => ({ depth: t === 'thorough' ? 6 : 5, behaviours: 5, flags: 4 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    return [
      { name: 'events', params: { depth: T ? 6 : 4, ops: ['event a', 'event b', 'event c', 'nav a', 'nav b', 'nav c', 'wait T1', 'wait hour', 'reload'] }, shards: 9, shardDepth: 1 },
      { name: 'bursts', params: { depth: T ? 4 : 3, burst: true, ops: ['burst aa', 'burst ab', 'burst ba', 'burst bb', 'burst aba', 'event a', 'nav b', 'nav a', 'wait T1', 'reload'] }, shards: 10, shardDepth: 1 },
      { name: 'early', params: { depth: T ? 4 : 3, burst: true, early: true, ops: ['event a', 'event b', 'nav b', 'wait T1', 'reload'] }, shards: 6, shardDepth: 1 },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
