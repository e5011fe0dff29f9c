'use strict';
// Exposure de-duplication over all histories of exposures, identities, variants and reloads.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const IDS = { u1d1: { user_id: 'u1', device_id: 'd1' }, u1d2: { user_id: 'u1', device_id: 'd2' }, u2d1: { user_id: 'u2', device_id: 'd1' }, u1: { user_id: 'u1' }, d1: { device_id: 'd1' }, d2: { device_id: 'd2' }, anon: { country: 'x' } };
// variant sets the server may serve; w is a web experiment, x names its own event
const W = { deliveryMethod: 'web' };
const SETS = {
  v1: { a: { key: 'on' }, b: { key: 'on' }, w: { key: 'on', metadata: W }, x: { key: 'on', metadata: { exposureEvent: 'custom' } } },
  v2: { a: { key: 'other' }, b: { key: 'on' }, w: { key: 'other', metadata: W }, x: { key: 'other', metadata: { exposureEvent: 'custom', deliveryMethod: 'web' } } },
  off: { a: { key: 'off', metadata: { default: true } }, b: { key: 'on' }, w: { key: 'off', metadata: { default: true, deliveryMethod: 'web' } }, x: { key: 'on', metadata: { exposureEvent: '' } } },
};
const sameIntegrationIdentity = (a, b) => {
  if (a.user_id && b.user_id) return a.user_id === b.user_id;
  if (!a.user_id && !b.user_id) return a.device_id === b.device_id;
  return false;
};

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  let page, client, seenP, seenI;
  const m = { set: null, id: {}, sent: {}, sentFor: null, prov: {}, provId: {}, integId: {}, known: false };
  const open = async () => {
    page = new Page({ device, tab, noStorage: p.noStorage });
    const { sdk } = bundle.load(page.scope);
    seenP = [];
    seenI = [];
    page.onRequest = (r) => r.respond(200, SETS[m.set]);
    client = sdk.Experiment.initialize('client-key-123456', { ...p.config, pollOnStart: false, automaticExposureTracking: p.auto, exposureTrackingProvider: { track: (e) => seenP.push([e.flag_key, e.variant]) } });
    client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => (seenI.push([e.eventType, e.eventProperties.flag_key, e.eventProperties.variant]), true) });
    if (m.set) await client.fetch(m.id);
    m.prov = {};
    m.provId = {};
    m.integId = {};
    if (p.noStorage) m.sent = {};
  };
  m.set = 'v1';
  m.id = IDS[p.ids[0]];
  await open();
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    for (const f of p.flags) acts.push(['expose', f]);
    for (const i of p.ids) if (canon(IDS[i]) !== canon(m.id)) acts.push(['user', i]);
    for (const s of p.sets) if (s !== m.set) acts.push(['variants', s]);
    if (p.reload) acts.push(['reload']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${arg || ''}`);
    if (op === 'user') {
      m.id = IDS[arg];
      client.setUser({ ...m.id });
    } else if (op === 'variants') {
      m.set = arg;
      await client.fetch({ ...m.id });
    } else if (op === 'reload') {
      page.kill();
      await open();
      m.reloaded = true;
    } else {
      const v = SETS[m.set][arg];
      const variant = v.metadata && v.metadata.default ? undefined : v.key;
      const web = v.metadata && v.metadata.deliveryMethod === 'web';
      const wantP = [];
      const wantI = [];
      if (canon([m.provId.user_id, m.provId.device_id]) !== canon([m.id.user_id, m.id.device_id])) m.prov = {};
      m.provId = m.id;
      if (!(arg in m.prov) || m.prov[arg] !== variant) {
        m.prov[arg] = variant;
        wantP.push([arg, variant]);
      }
      const type = (v.metadata && v.metadata.exposureEvent) || (web ? '$impression' : '$exposure');
      let knownRepeat = false;
      if (web) wantI.push([type, arg, variant]);
      else {
        if (!sameIntegrationIdentity(m.integId, m.id)) {
          // a page load forgets whose session it was (known finding below)
          m.sent = {};
        }
        m.integId = m.id;
        if (!(arg in m.sent) || m.sent[arg] !== variant) {
          m.sent[arg] = variant;
          wantI.push([type, arg, variant]);
        }
        // what the tab session should look like: an identity change, not a page load, starts a new one
        if (m.ideal === undefined || !sameIntegrationIdentity(m.idealId, m.id)) m.ideal = {};
        m.idealId = m.id;
        if (m.ideal[arg] === canon([variant]) && wantI.length && !p.noStorage) knownRepeat = true;
        m.ideal[arg] = canon([variant]);
      }
      seenP.length = 0;
      seenI.length = 0;
      if (p.auto) client.variant(arg);
      else client.exposure(arg);
      ctx.equal(seenP, wantP, `exposures to the provider for ${arg}`, 'provider');
      ctx.equal(seenI, wantI, `events to the integration for ${arg}`, 'integration');
      if (knownRepeat) ctx.report(`exposure of ${arg} sent again to the integration after a page load in the same tab for the same user`, 'resent after page load for an identified user');
    }
    ctx.state(canon([m.set, m.id, m.sent, m.prov, m.provId, m.integId, m.ideal, m.idealId]) + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of exposure/identity/variant/reload histories on the real client against a de-duplication model',
  level_note: 'all histories within the stated depth; every transition replayed on the real client',
  bounds: (t) => ({ depth: t === 'thorough' ? '6 in full, 7 with state matching' : '5', identities: Object.keys(IDS), variantSets: Object.keys(SETS) }),
  assumptions: ['one tab; variants change only through fetch()'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, shards = 16, shardDepth = 2) => out.push({ name, params: { auto: true, reload: true, ...params }, shards, shardDepth });
    add('ids', { flags: ['a', 'b'], ids: ['u1d1', 'u1d2', 'u2d1', 'd1', 'd2', 'anon'], sets: ['v1'], depth: T ? 6 : 5, reload: false });
    add('variants', { flags: ['a', 'w', 'x'], ids: ['u1d1', 'u2d1'], sets: ['v1', 'v2', 'off'], depth: T ? 6 : 5 });
    add('anon-reload', { flags: ['a', 'b'], ids: ['anon', 'd1'], sets: ['v1', 'v2', 'off'], depth: T ? 6 : 5 });
    add('explicit', { auto: false, flags: ['a', 'x'], ids: ['u1', 'u1d1', 'd1'], sets: ['v1', 'off'], depth: T ? 6 : 5 });
    add('memory', { noStorage: true, flags: ['a', 'w'], ids: ['u1d1', 'u1d2', 'anon'], sets: ['v1', 'v2', 'off'], depth: T ? 6 : 4 });
    add('deep', { flags: ['a', 'b', 'w'], ids: ['u1d1', 'u1d2', 'u2d1', 'd1', 'anon'], sets: ['v1', 'v2', 'off'], depth: T ? 7 : 5, prune: true });
    add('instance', { config: { instanceName: 'inst' }, flags: ['a', 'x'], ids: ['u1d1', 'd2'], sets: ['v1', 'off'], depth: T ? 8 : 5, prune: true });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run,
};
