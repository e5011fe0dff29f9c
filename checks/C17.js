'use strict';
// The factory: one client per instance name, deployment key and internal suffix; the first configuration wins.
const { getBundle } = require('../lib/bundle');
const { Page, drain } = require('../lib/env');
const { canon } = require('../lib/explore');

const NAMES = [undefined, '$default_instance', 'n2', ''];
const KEYS = ['client-key-A', 'client-key-B', 'n2.client-key-A'];
const SUFFIX = [undefined, 'web', ''];
const KINDS = ['initialize', 'initializeWithAmplitudeAnalytics'];

async function run(ctx, p, bundle) {
  const page = new Page({});
  const { sdk, con } = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, r.url.includes('/flags') ? [] : {});
  const clients = new Map(); // identity triple -> {client, url, amplitude, n}
  let n = 0;
  for (let step = 0; step < p.depth; step++) {
    const kind = ctx.pick(p.kinds);
    const name = ctx.pick(p.names);
    const key = ctx.pick(p.keys);
    const suffix = ctx.pick(p.suffixes);
    const bare = p.bare ? ctx.pick([false, true]) : false;
    ctx.step(`${kind} ${name} ${key} ${suffix} ${bare}`);
    n++;
    const url = `https://server${n}.example`;
    const config = { serverUrl: url, flagsServerUrl: url + '/f', pollOnStart: false };
    if (name !== undefined) config.instanceName = name;
    if (suffix !== undefined) config.internalInstanceNameSuffix = suffix;
    const before = canon(config);
    const cfg = bare && name === undefined && suffix === undefined ? undefined : config;
    const c = sdk.Experiment[kind](key, cfg);
    ctx.ok(canon(config) === before, 'initialising leaves the configuration alone', 'configuration changed');
    const id = canon([name || '$default_instance', key, suffix || '']);
    let m = clients.get(id);
    for (const [other, o] of clients) if (other !== id) ctx.ok(o.client !== c, `a client of its own for ${id}, not the one of ${other}`, 'clients mixed up');
    if (!m) {
      m = { client: c, url: cfg ? url : 'https://api.lab.amplitude.com', amplitude: kind !== 'initialize', key, name: name || '$default_instance' };
      clients.set(id, m);
    } else ctx.ok(m.client === c, `the existing client for ${id}`, 'second client');
    // every client still works for its own deployment, server and integration
    for (const [oid, o] of clients) {
      const conn = con.AnalyticsConnector.getInstance(o.name);
      conn.identityStore.setIdentity({ userId: 'amp-' + o.name });
      const from = page.requests.length;
      o.client.fetch({}).catch(() => {});
      await drain();
      const got = page.requests.slice(from);
      ctx.equal(got.length, 1, `requests of ${oid}`, 'requests');
      ctx.equal([got[0].url.startsWith(o.url + '/sdk/v2/vardata'), got[0].headers.Authorization], [true, 'Api-Key ' + o.key], `request of ${oid}: ${got[0].url}`, 'configuration of the first call');
      const u = JSON.parse(Buffer.from(got[0].headers['X-Amp-Exp-User'], 'base64url').toString('utf8'));
      ctx.equal(u.user_id, o.amplitude ? 'amp-' + o.name : undefined, `integration of ${oid}`, 'integration');
      // the provided defaults are wrapped once
      ctx.equal(u.platform, 'Web', `default user of ${oid}`, 'default user');
      if (o.amplitude) {
        // exactly one integration: an exposure reaches the bridge once
        const seen = [];
        const f = 'f' + (o.seq = (o.seq || 0) + 1) + '-' + step;
        o.client.variants.put(f, { key: 'on', metadata: { deliveryMethod: 'web' } });
        conn.eventBridge.setEventReceiver((e) => seen.push(e.eventProperties.flag_key));
        o.client.exposure(f);
        await drain();
        ctx.equal(seen.filter((x) => x === f), [f], `exposures of ${oid} on the bridge`, 'exposure once');
      }
    }
    ctx.state([...clients.entries()].map(([k, v]) => [k, v.url, v.amplitude]));
  }
  const global = page.scope.experimentInstances;
  if (global) ctx.equal(new Set(Object.values(global)).size, clients.size, 'number of clients', 'number of clients');
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of initialisation sequences of the real factory against a map keyed by instance name, deployment key and suffix',
  level_note: 'all sequences within the stated depth',
  bounds: (t) => ({ depth: t === 'thorough' ? 4 : 3, 'instance names': NAMES.length, keys: KEYS.length, suffixes: SUFFIX.length }),
  assumptions: ['no deployment key contains the separator in a way that makes two different triples spell the same name'],
  scenarios(tier) {
    const T = tier === 'thorough';
    return [
      { name: 'all', params: { depth: 2, kinds: KINDS, names: NAMES, keys: KEYS, suffixes: SUFFIX, bare: true }, shards: 8, shardDepth: 2 },
      { name: 'long', params: { depth: T ? 4 : 3, kinds: KINDS, names: NAMES.slice(0, 3), keys: KEYS.slice(0, 2), suffixes: SUFFIX.slice(0, T ? 3 : 2) }, shards: 12, shardDepth: 3 },
    ];
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts', con: 'analytics-connector/src/index.ts' });
  },
  run,
};
