'use strict';
// The Segment integration: whose identity it gives, when it is ready, and what it tracks.
const { getBundle } = require('../lib/bundle');
const { Page, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

// a stand-in for Segment's own SDK, as loaded by its snippet or from npm
function makeReal(w) {
  const cbs = [];
  const real = {
    initialize: () => Promise.resolve(),
    initialized: false,
    user: () => ({ id: () => w.live.id, anonymousId: () => w.live.anon, traits: () => w.live.traits }),
    ready: (cb) => {
      if (real.initialized) Promise.resolve().then(cb);
      else cbs.push(cb);
      return Promise.resolve();
    },
    track: (e, p) => {
      w.tracked.push([e, p]);
      return Promise.resolve();
    },
  };
  w.real = real;
  w.initialise = () => {
    real.initialized = true;
    cbs.splice(0).forEach((f) => f());
  };
  return real;
}
function snippetStub() {
  const a = [];
  a.invoked = true;
  a.factory = (fn) =>
    function () {
      a.push([fn, ...arguments]);
      return a;
    };
  for (const m of ['ready', 'track', 'identify', 'page', 'user']) a[m] = a.factory(m);
  return a;
}

const VARIANTS = {};
for (let i = 0; i < 4; i++) VARIANTS['f' + i] = { key: 'on', metadata: { deliveryMethod: 'web' } };

const LIVE = [
  { id: 'liveU', anon: 'liveA', traits: { t: 1 } },
  { id: null, anon: 'liveA2', traits: {} },
];
const PERS = [
  { ajs_user_id: '"persU"', ajs_anonymous_id: '"persA"', ajs_user_traits: '{"t":0}' },
  { ajs_user_id: 'null', ajs_anonymous_id: '"persA2"', ajs_user_traits: '{"t":' },
];
const parse = (t) => {
  if (t === undefined) return undefined;
  try {
    return JSON.parse(t) || undefined;
  } catch (e) {
    return undefined;
  }
};

async function machine(ctx, p, bundle) {
  const page = new Page({ noStorage: p.noStorage });
  const scope = page.scope;
  const w = { live: LIVE[0], tracked: [] };
  const key = p.source === 'custom' ? 'asdf' : 'analytics';
  const real = makeReal(w);
  // m.on: the live SDK is what the plugin sees; m.cb: its ready call reaches (or will reach) the live SDK
  const m = { on: false, waiting: null, cb: false, noticed: false, setup: false, managed: false, live: 0, pers: 0, queue: [], tracked: [], next: null, seq: 0, fetches: 0, started: null };
  if (p.begin === 'snippet') scope[key] = snippetStub();
  else if (p.begin === 'array') scope[key] = [];
  else if (p.begin === 'real') {
    scope[key] = real;
    m.on = true;
  } else if (p.begin === 'nested') {
    scope[key] = { instance: real };
    m.on = true;
  }
  if (p.source === 'instance') m.on = true;
  const { seg, sdk } = bundle.load(scope);
  const set = (i) => {
    m.pers = i;
    if (!p.noStorage) for (const k of Object.keys(PERS[i])) page.localRaw.set(k, PERS[i][k]);
  };
  set(0);
  const now = () => page.clock.now;
  const options = { skipSetup: p.skip };
  if (p.source === 'instance') options.instance = real;
  if (p.source === 'custom') options.instanceKey = 'asdf';
  const plugin = seg.segmentIntegrationPlugin(p.source === 'global' && !p.skip ? undefined : options);
  let settled = false;
  let client = null;
  const begun = () => {
    m.setup = true;
    m.started = now();
    m.cb = m.on ? 'live' : 'stub';
    if (m.on && real.initialized) m.noticed = true;
  };
  if (p.skip) begun();
  ctx.ok(!!plugin.setup === !p.skip, 'set-up is offered exactly when it is not skipped', 'skipSetup');
  const flush = () => {
    if (!m.managed || !m.noticed || !m.queue.length) return;
    while (m.queue.length) m.tracked.push(m.queue.shift());
    m.next = null;
  };
  const managedNow = (at) => {
    m.managed = true;
    m.next = at + 1000;
    flush();
    m.expectFetch = m.fetches;
  };
  m.expectFetch = 0;
  const notice = (at) => {
    if (m.noticed) return;
    m.noticed = true;
    if (m.installed && !p.skip) managedNow(at);
  };
  page.onRequest = (r) => r.respond(200, VARIANTS);
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    if (!m.setup && !p.client) acts.push(['setup']);
    if (p.client && !m.installed) acts.push(['install']);
    if (!m.on) acts.push(['load', 'snippet'], ['load', 'npm']);
    if (m.on && !real.initialized) acts.push(['init']);
    acts.push(['live'], ['persist'], ['advance', 49], ['advance', 50]);
    if (p.client) {
      acts.push(['advance', 1000]);
      if (m.seq < 4) acts.push(['exposure']);
      if (m.fetches < 2) acts.push(['fetch']);
    } else acts.push(['track']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${arg || ''}`);
    if (op === 'setup') {
      begun();
      plugin.setup().then(() => (settled = true));
    } else if (op === 'install') {
      client = sdk.Experiment.initialize('client-key', { pollOnStart: false });
      for (let i = 0; i < 4; i++) client.variants.put('f' + i, VARIANTS['f' + i]);
      m.installed = true;
      if (p.skip) managedNow(now());
      else {
        begun();
        if (m.noticed) managedNow(now());
      }
      client.addPlugin(plugin);
    } else if (op === 'load') {
      const stub = scope[key];
      scope[key] = real;
      m.on = true;
      if (arg === 'snippet') {
        if (m.cb === 'stub') m.cb = 'live';
        for (const [fn, ...args] of stub || []) if (real[fn]) real[fn](...args);
      }
    } else if (op === 'init') {
      w.initialise();
      if (m.cb === 'live') notice(now());
    } else if (op === 'live') {
      m.live = 1 - m.live;
      w.live = LIVE[m.live];
    } else if (op === 'persist') set(1 - m.pers);
    else if (op === 'track') {
      const ev = { eventType: '$impression', eventProperties: { flag_key: 'k' + m.seq++ } };
      const r = plugin.track(ev);
      ctx.equal(r, m.noticed, 'result of track', 'track before/after ready');
      if (m.noticed) m.tracked.push(['$impression', ev.eventProperties.flag_key]);
    } else if (op === 'exposure') {
      if (!client) {
        // nothing to report to yet
      } else {
        const f = 'f' + m.seq++;
        m.queue.push(['$impression', f]);
        client.exposure(f);
        flush();
        if (m.managed && m.queue.length && m.next === null) m.next = now() + 1000;
      }
    } else if (op === 'fetch') {
      if (client) {
        m.fetches++;
        client.fetch().catch(() => {});
        if (m.managed) m.expectFetch++;
      }
    } else {
      const end = now() + arg;
      for (;;) {
        const polls = m.setup && !m.noticed && p.source !== 'instance' && m.on && real.initialized;
        const np = polls ? m.started + (Math.floor((m.tick - m.started) / 50) + 1) * 50 : Infinity;
        const at = Math.min(np, m.next === null ? Infinity : m.next);
        if (at > end) break;
        m.tick = at;
        // the older timer first
        if (at === np) notice(at);
        if (at === m.next) {
          m.next = at + 1000;
          flush();
        }
      }
      await page.timers.advance(arg);
    }
    await drain();
    m.tick = now();
    ctx.equal(w.tracked.map(([e, q]) => [e, q.flag_key]), m.tracked, `events tracked through Segment after ${op}`, 'tracked events');
    if (m.setup && !p.skip && !p.client) ctx.equal(settled, m.noticed, `set-up complete after ${op}`, 'set-up completion');
    if (p.client) ctx.equal(page.requests.length, m.expectFetch, `requests after ${op}`, 'requests vs set-up');
    const L = LIVE[m.live];
    const P = p.noStorage ? {} : PERS[m.pers];
    ctx.equal(plugin.getUser(), m.noticed ? { user_id: L.id, device_id: L.anon, user_properties: L.traits } : { user_id: parse(P.ajs_user_id), device_id: parse(P.ajs_anonymous_id), user_properties: parse(P.ajs_user_traits) }, `identity after ${op}`, 'identity');
    ctx.state(canon([m.on, m.cb, m.noticed, m.setup, m.managed, m.live, m.pers, m.queue, m.installed, m.fetches, m.expectFetch, m.seq, m.next && m.next - now(), m.started && (now() - m.started) % 50, real.initialized]) + (p.prune ? snap(page, [client, plugin]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}

const VALUES = [undefined, '', '""', '"x"', '"ü€😀"', 'null', 'undefined', 'x', '5', '0', 'false', 'true', '{}', '{"a":{"b":[1,"2"]}}', '[1]', '{"a":1', '"x', '\u0000', 'NaN'];
async function values(ctx, p, bundle) {
  let n = 0;
  for (const u of VALUES)
    for (const a of VALUES)
      for (const t of VALUES) {
        const page = new Page({});
        const { seg } = p.bundle || (p.cache = bundle.load(page.scope));
        const plugin = seg.segmentIntegrationPlugin();
        const put = (k, v) => v !== undefined && page.localRaw.set(k, v);
        put('ajs_user_id', u);
        put('ajs_anonymous_id', a);
        put('ajs_user_traits', t);
        let got;
        try {
          got = plugin.getUser();
        } catch (e) {
          ctx.fail(`getUser threw for ${canon([u, a, t])}: ${e}`, 'getUser threw');
        }
        ctx.equal(got, { user_id: parse(u), device_id: parse(a), user_properties: parse(t) }, `identity for ${canon([u, a, t])}`, 'persisted identity');
        n++;
      }
  ctx.evaluatedMany(n, n);
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of load/initialise/set-up/track/identity orders of the real plugin (alone and inside the real client) against a readiness model in virtual time, plus the full product of persisted-value shapes',
  level_note: 'all histories within the stated depth; a hand-written stand-in plays Segment\'s SDK',
  bounds: (t) => ({ depth: t === 'thorough' ? '6 in full, 13 with state matching' : '4 in full, 6 with state matching', 'persisted values': `${VALUES.length}^3` }),
  assumptions: ['Segment runs ready callbacks when it is initialised, and its snippet replays queued calls when it loads'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    for (const source of ['global', 'custom', 'instance'])
      for (const begin of source === 'instance' ? ['real'] : ['none', 'snippet', 'array', 'real', 'nested'])
        for (const skip of [false, true])
          for (const client of [false, true]) {
            if (T || source !== 'custom') out.push({ name: `${source}:${begin}:${skip}:${client}`, params: { source, begin, skip, client, depth: T ? 6 : 4 }, shards: 4, shardDepth: 1 });
            out.push({ name: `deep:${source}:${begin}:${skip}:${client}`, params: { source, begin, skip, client, depth: T ? 13 : 6, prune: true }, shards: T ? 4 : 1, shardDepth: 1 });
          }
    out.push({ name: 'memory', params: { source: 'global', begin: 'snippet', noStorage: true, depth: 5, prune: true } });
    out.push({ name: 'values', params: { kind: 'values' } });
    return out;
  },
  async prepare() {
    return getBundle({ seg: 'plugin-segment/src/plugin.ts', sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    return p.kind === 'values' ? values(ctx, p, bundle) : machine(ctx, p, bundle);
  },
};
