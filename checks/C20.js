'use strict';
// Consent life cycle of the whole tag: no client, no device access, no request and no page change before consent;
// exactly one start afterwards.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');
const { canon } = require('../lib/explore');

const FLAGS = [
  A.localFlag('f1', { on: [A.mutateAction(A.mutation('f1-on'))] }),
  { key: 'r1', variants: { off: { key: 'off', metadata: { default: true } }, on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'remote', deliveryMethod: 'web' } },
];
const EV = ['e1', 'e2', 'e3', 'e4', 'e5', 'e6'];
const evCond = (n) => [[{ selector: ['context', 'data', 'event'], op: 'is', values: [n] }]];
const PAGES = {
  f1: { A: A.pageObj('A') },
  ev: Object.fromEntries(EV.map((n) => [n, A.pageObj(n, 'analytics_event', evCond(n))])),
};
const INIT = { initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES) };

const CONFIGS = {
  none: [{}, undefined],
  pending: [{ consentOptions: { consentRequired: true } }, undefined],
  bad: [{ consentOptions: { consentRequired: true, consentStatus: 'yes' } }, undefined],
  granted: [{ consentOptions: { consentRequired: true, consentStatus: 'granted' } }, undefined],
  denied: [{ consentOptions: { consentRequired: true, consentStatus: 'denied' } }, undefined],
  // the window configuration wins field by field
  winStatus: [{ consentOptions: { consentRequired: true, consentStatus: 'granted' } }, { consentOptions: { consentStatus: 'pending' } }],
  winRequired: [{ consentOptions: { consentStatus: 'granted' } }, { consentOptions: { consentRequired: true } }],
  winOff: [{ consentOptions: { consentRequired: true, consentStatus: 'pending' } }, { consentOptions: { consentRequired: false } }],
  notRequired: [{ consentOptions: { consentRequired: false, consentStatus: 'denied' } }, undefined],
};

async function run(ctx, p, bundle) {
  const device = new Device();
  const url = 'https://www.example.com/' + (p.preview ? '?PREVIEW=true&f1=on' : '');
  const page = new A.TagPage({ device, url });
  // data an earlier visit left behind
  page.localRaw.set(A.SLICE, JSON.stringify({ web_exp_id: 'old' }));
  const rec = new A.Recorder();
  page.scope.experimentIntegration = rec;
  device.accessLog = [];
  const m = bundle.load(page.scope);
  let heldConfigs = null;
  page.onRequest = (r) => {
    if (p.hold && r.url.includes('/web/v1/configs')) return void (heldConfigs = r);
    r.respond(200, r.url.includes('/web/v1/configs') ? { flags: FLAGS, pageObjects: PAGES } : r.url.includes('vardata') ? { r1: { key: 'on', value: 'on' } } : []);
  };
  ctx.equal([device.accessLog.length, page.requests.length], [0, 0], 'loading the script does nothing', 'load');
  // reference
  let required = false;
  let status = 'pending';
  let explicit = false;
  let deferred = false;
  let started = false;
  let inited = false;
  let buffered = [];
  const seen = new Set(); // events the client must have got
  let n = 0;
  let silent;
  const plugins = [];
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    for (const c of p.configs) ops.push('init ' + c);
    for (const s of ['granted', 'denied', 'pending', 'GRANTED']) ops.push('status ' + s);
    if (n < EV.length) ops.push('event');
    if (heldConfigs) ops.push('answer ok', 'answer fail');
    const op = ctx.pick(ops);
    const [kind, arg] = op.split(' ');
    if (kind === 'status' && !inited && p.viaStub) continue;
    ctx.step(op);
    device.accessLog = [];
    const cookieSets = [];
    device.onCookieSet = (s) => (cookieSets.push(s), true);
    const reqs = page.requests.length;
    const before = { started, status };
    let sweep = false;
    if (kind === 'init') {
      const [cfg, win] = CONFIGS[arg];
      page.scope.experimentConfig = win;
      m.tag.initialize(A.KEY, INIT, JSON.parse(JSON.stringify({ ...cfg, fetchOnStart: false })));
      inited = true;
      if (!started) {
        const eff = { ...(cfg.consentOptions || {}), ...((win && win.consentOptions) || {}) };
        const gated = !!eff.consentRequired || deferred;
        required = required || gated;
        if (gated) {
          if (!explicit && ['granted', 'denied'].includes(eff.consentStatus)) status = eff.consentStatus;
          sweep = status === 'denied';
          if (status === 'granted') {
            deferred = false;
            started = true;
          } else {
            deferred = true;
            buffered = [];
          }
        } else started = true;
      }
    } else if (kind === 'status') {
      const via = page.scope.webExperiment && ctx.choose(2, 'via') ? page.scope.webExperiment : m.tag;
      via.setConsentStatus(arg);
      if (arg !== 'GRANTED') explicit = true;
      if (arg === 'granted' || arg === 'denied') {
        if (status !== arg && arg === 'denied') sweep = true;
        status = arg;
      }
      if (status === 'granted' && deferred && !started) {
        deferred = false;
        started = true;
      }
    } else if (kind === 'answer') {
      const r = heldConfigs;
      heldConfigs = null;
      if (arg === 'ok') r.respond(200, { flags: FLAGS, pageObjects: PAGES });
      else if (ctx.choose(2, 'how')) r.respond(500, {});
      else r.fail(new Error('network'));
    } else {
      const name = EV[n++];
      const src = page.scope.webExperiment && typeof page.scope.webExperiment.plugin === 'function' ? page.scope.webExperiment.plugin() : m.tag.createPlugin();
      const ev = { event_type: name, event_properties: { a: 1 } };
      const out = src.execute(ev);
      ctx.ok((await out) === ev, 'the plugin passes the event on', 'plugin result');
      if (started && !heldConfigs) seen.add(name);
      else if (!deferred) {
        buffered.push(name);
      }
    }
    if (!started && !before.started) {
      const log = device.accessLog;
      for (const [k, key] of log) {
        if (sweep && /remove$/.test(k)) continue;
        if (sweep && k.startsWith('cookie.')) continue;
        ctx.fail(`${k} ${key} before consent (${op})`, 'access before consent');
      }
      for (const s of cookieSets) ctx.ok(/expires=Thu, 01 Jan 1970/.test(s) || /^EXP_clientabcd_erased=1;/.test(s), `cookie ${s} before consent`, 'cookie before consent');
    }
    await A.settle();
    await page.timers.advance(10);
    if (started && heldConfigs) {
      // waiting for the preview configuration: nothing runs yet, the page is covered
      ctx.equal([A.liveMutations(page).length, rec.events.length, page.antiFlicker(), !!page.scope.webExperiment.isStub], [0, 0, true, true], 'while the preview configuration is fetched', 'starting');
    } else if (started) {
      await page.timers.advance(2500);
      for (const b of buffered) seen.add(b);
      buffered = [];
    } else {
      ctx.equal([page.requests.length - reqs, A.liveMutations(page).length, rec.events.length, page.antiFlicker()], [0, 0, 0, false], `requests, changes, impressions, overlay before consent (${op})`, 'activity before consent');
      ctx.ok(!page.scope.webExperiment || page.scope.webExperiment.isStub, 'no client before consent', 'client before consent');
      if (!sweep && before.status !== 'denied' && status !== 'denied') ctx.equal(page.localRaw.get(A.SLICE), JSON.stringify({ web_exp_id: 'old' }), 'stored data untouched', 'stored data');
    }
    if (inited) ctx.ok(typeof page.scope.webExperiment.setConsentStatus === 'function', 'setConsentStatus is exposed', 'stub');
    if (started && !heldConfigs) {
      const client = page.scope.webExperiment;
      ctx.ok(client && !client.isStub && client.isRunning, `the client runs after ${op}`, 'started');
      ctx.equal(A.liveMutations(page), ['f1-on'], 'the variant is applied once', 'applied once');
      ctx.equal(page.requests.filter((r) => r.url.includes('/flags')).length, page.requests.some((r) => r.url.includes('/flags')) ? 1 : 0, 'flag requests', 'started once');
      ctx.equal(page.requests.filter((r) => r.url.includes('/web/v1/configs')).length, p.preview ? 1 : 0, 'configuration requests', 'started once');
      ctx.ok(page.requests.length === (p.preview ? 2 : 1), `requests ${page.requests.map((r) => r.url)}`, 'started once');
      ctx.equal(Object.keys(client.getActivePages().ev || {}).sort(), [...seen].sort(), 'events seen by the client', 'events replayed');
      // an impression made while refused is not sent, one made under a grant is
      const imp = rec.keys().filter((k) => k.startsWith('f1:')).length;
      // (a refusal while the client was starting drops them)
      if (silent === undefined) silent = required && status === 'denied';
      ctx.ok(imp === (silent ? 0 : 1), `impressions ${rec.keys()}`, 'impressions');
    }
    ctx.state([!!heldConfigs, required, status, explicit, deferred, started, inited, buffered.length, canon([...seen])], undefined);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of initialisation, consent and event sequences on the real tag over a recording device, against a reference of the consent gate',
  level_note: 'all sequences within the stated depth',
  bounds: (t) => ({ depth: t === 'thorough' ? 5 : 4, configurations: Object.keys(CONFIGS).length }),
  assumptions: ['the page supplies its own analytics integration', 'the configuration passed is well formed apart from the consent status'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const all = Object.keys(CONFIGS);
    return [
      { name: 'all configurations', params: { depth: T ? 4 : 3, configs: all }, shards: 16, shardDepth: 2 },
      { name: 'long', params: { depth: T ? 5 : 4, configs: ['none', 'pending', 'granted'] }, shards: 16, shardDepth: 2 },
      { name: 'preview', params: { depth: 3, configs: ['none', 'pending', 'denied'], preview: true }, shards: 8, shardDepth: 2 },
      { name: 'preview, configuration on the way', params: { depth: T ? 5 : 4, configs: ['none', 'pending'], preview: true, hold: true }, shards: 16, shardDepth: 2 },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
