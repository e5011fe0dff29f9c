'use strict';
// The deprecated analytics provider over all histories of accesses, variants, fallbacks and identities.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const IDS = { u1: { user_id: 'u1', device_id: 'd1' }, u2: { user_id: 'u2', user_properties: { plan: 'x' } } };
// what the server serves
const on = (value) => ({ key: value, value });
const SETS = {
  x: { a: on('x'), b: on('x'), constructor: on('x'), toString: on('x') },
  y: { a: { key: 'y', value: 'other' }, b: on('x'), constructor: on('y'), toString: on('x') },
  off: { a: { key: 'off', metadata: { default: true } }, b: { key: 'off', value: 'off', metadata: { default: true } }, constructor: { key: 'off', metadata: { default: true } } },
  none: {},
  untracked: { a: { key: 'x', value: 'x', metadata: { trackExposure: false } }, b: { key: 'y' } },
};
const LOCAL = {
  key: 'local',
  variants: { on: { key: 'on', value: 'on' }, off: { key: 'off', metadata: { default: true } } },
  segments: [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: ['u1'] }]], variant: 'on' }, { variant: 'off' }],
  metadata: { evaluationMode: 'local' },
};
// configured first values; what is under "constructor" must not be an inherited member
const CONFIGS = {
  plain: {},
  fallback: { fallbackVariant: { key: 'cfg', value: 'cfg' } },
  emptyFallback: { fallbackVariant: { key: 'nothing' } },
  initial: { initialVariants: { a: { key: 'i', value: 'i' } } },
  first: { source: 'initialVariants', initialVariants: { a: { key: 'i', value: 'i' } } },
};
const nullish = (v) => v === null || v === undefined;
const own = (o, k) => (o && Object.prototype.hasOwnProperty.call(o, k) ? o[k] : undefined);

// [variant, source] by the documented precedence
function resolve(cfg, served, id, key, inline) {
  const stored = own(served, key);
  const isDefault = (v) => !!(v && v.metadata && v.metadata.default);
  const initial = own(cfg.initialVariants, key);
  const fb = cfg.fallbackVariant;
  const chain = [];
  let def;
  if (key === 'local') {
    if (id.user_id === 'u1') return [{ key: 'on', value: 'on' }, 'local-evaluation'];
    def = [{ key: 'off' }, 'local-evaluation'];
    if (!nullish(inline)) chain.push([inline, 'fallback-inline']);
  } else if (cfg.source === 'initialVariants') {
    if (initial) return [initial, 'initial'];
    if (stored && !isDefault(stored)) return [stored, 'storage'];
    if (isDefault(stored)) def = [stored, 'storage'];
    if (!nullish(inline)) chain.push([inline, 'fallback-inline']);
  } else {
    if (stored && !isDefault(stored)) return [stored, 'storage'];
    if (isDefault(stored)) def = [stored, 'storage'];
    if (!nullish(inline)) chain.push([inline, 'fallback-inline']);
    if (initial) chain.push([initial, 'secondary-initial']);
  }
  if (fb) chain.push([fb, 'fallback-config']);
  return chain[0] || def || [undefined, undefined];
}
const FALLBACK = [undefined, 'fallback-inline', 'fallback-config', 'secondary-initial'];

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  const cfg = CONFIGS[p.config];
  let page, client, calls, known;
  let id = IDS[p.ids[0]];
  let set = p.sets[0];
  const open = async () => {
    page = new Page({ device, tab });
    const { sdk } = bundle.load(page.scope);
    calls = [];
    known = {};
    page.onRequest = (r) => r.respond(200, SETS[set]);
    const record = (what) => (e) => {
      calls.push([what, { name: e.name, user: [e.user.user_id, e.user.device_id, canon(e.user.user_properties)], key: e.key, value: e.variant && e.variant.value, userProperty: e.userProperty, properties: e.properties, userProperties: e.userProperties }]);
      if (p.throws) throw new Error('provider');
    };
    const provider = {};
    for (const what of p.offers) provider[what] = record(what);
    client = sdk.Experiment.initialize('client-key-123456', { ...JSON.parse(JSON.stringify(cfg)), pollOnStart: false, automaticExposureTracking: p.auto, initialFlags: JSON.stringify([LOCAL]), analyticsProvider: provider });
    await client.fetch({ ...id });
  };
  await open();
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    for (const k of p.keys) acts.push(['access', k]);
    if (p.auto) for (const k of p.keys) for (const f of p.inline) acts.push(['access', k, f]);
    for (const i of p.ids) if (IDS[i] !== id) acts.push(['user', i]);
    for (const s of p.sets) if (s !== set) acts.push(['serve', s]);
    if (p.reload) acts.push(['reload']);
    const [op, arg, inlineName] = ctx.pick(acts);
    ctx.step(`${op} ${arg || ''} ${inlineName || ''}`);
    if (op === 'user') {
      id = IDS[arg];
      client.setUser({ ...id });
    } else if (op === 'serve') {
      set = arg;
      await client.fetch({ ...id });
    } else if (op === 'reload') {
      page.kill();
      await open();
    } else {
      const inline = inlineName === 'object' ? { key: 'fb' } : inlineName;
      const [variant, source] = resolve(cfg, SETS[set], id, arg, inline === 'fb' ? on('fb') : inline);
      const value = variant && variant.value;
      const event = { name: '[Experiment] Exposure', user: [id.user_id, id.device_id, canon(id.user_properties || {})], key: arg, value, userProperty: `[Experiment] ${arg}`, properties: { key: arg, variant: value, source }, userProperties: { [`[Experiment] ${arg}`]: value } };
      const want = [];
      const wasSet = known[' ' + arg];
      if (!(variant && variant.metadata && variant.metadata.trackExposure === false)) {
        if (FALLBACK.includes(source) || !value) {
          if (wasSet !== false) want.push(['unsetUserProperty', event]);
          known[' ' + arg] = false;
        } else {
          if (wasSet !== value) want.push(['setUserProperty', event], ['track', event]);
          known[' ' + arg] = value;
        }
      }
      calls.length = 0;
      let threw = null;
      let got;
      try {
        if (p.auto) got = client.variant(arg, inline);
        else client.exposure(arg);
      } catch (e) {
        threw = String(e && e.message);
      }
      ctx.equal(threw, null, `${arg}: access throws`, 'throws');
      if (p.auto) ctx.equal(got.value, value, `variant of ${arg}`, 'variant');
      ctx.equal(JSON.parse(JSON.stringify(calls)), JSON.parse(JSON.stringify(want.filter((w) => p.offers.includes(w[0])))), `calls of the analytics provider for ${arg}`, 'calls');
    }
    ctx.state(canon([set, id, known]) + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of access/variant/identity/reload histories on the real client against a model of what the analytics provider was told last',
  level_note: 'all histories within the stated depth; every transition replayed on the real client',
  bounds: (t) => ({ depth: t === 'thorough' ? '6' : '4 (5 for small menus)', keys: ['a', 'b', 'local', 'constructor', 'toString', 'absent'], variantSets: Object.keys(SETS), configs: Object.keys(CONFIGS), providers: ['all three methods', 'track only', 'track and set', 'track and unset'] }),
  assumptions: ['one page; the provider does not throw'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const all = ['track', 'setUserProperty', 'unsetUserProperty'];
    const out = [];
    const add = (name, params) => out.push({ name, params: { auto: true, offers: all, ids: ['u1'], inline: [], config: 'plain', reload: false, ...params }, shards: 16, shardDepth: 2 });
    add('variants', { keys: ['a', 'b'], sets: ['x', 'y', 'off', 'none', 'untracked'], inline: ['fb'], depth: T ? 6 : 4 });
    add('long', { keys: ['a'], sets: ['x', 'y', 'off'], inline: ['fb'], depth: T ? 8 : 6 });
    add('inherited', { keys: ['constructor', 'toString'], sets: ['x', 'y', 'off', 'none'], inline: ['fb'], depth: T ? 6 : 4 });
    add('local', { keys: ['local', 'a'], ids: ['u1', 'u2'], sets: ['x', 'none'], inline: ['fb', 'object'], depth: T ? 6 : 5 });
    add('explicit', { auto: false, keys: ['a', 'local', 'absent'], ids: ['u1', 'u2'], sets: ['x', 'y', 'off'], depth: T ? 6 : 5 });
    add('reload', { keys: ['a', 'b'], ids: ['u1', 'u2'], sets: ['x', 'off'], reload: true, depth: T ? 6 : 5 });
    for (const config of ['fallback', 'emptyFallback', 'initial', 'first']) add(config, { config, keys: ['a', 'absent'], sets: ['x', 'y', 'off', 'none'], inline: ['fb', 'object'], depth: T ? 5 : 4 });
    for (const [name, offers] of [['track-only', ['track']], ['no-unset', ['track', 'setUserProperty']], ['no-set', ['track', 'unsetUserProperty']]]) add(name, { offers, keys: ['a', 'local'], ids: ['u1', 'u2'], sets: ['x', 'off', 'none'], inline: ['fb'], depth: T ? 6 : 4 });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run,
};
