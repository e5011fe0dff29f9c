'use strict';
// What goes over the wire: endpoint, key, user, flag keys, tracking option, time-out.
const { getBundle } = require('../lib/bundle');
const { Page, Device, drain } = require('../lib/env');
const { canon } = require('../lib/explore');

const json = (x) => JSON.parse(JSON.stringify(x));
const decode = (ctx, h, what) => {
  ctx.ok(/^[A-Za-z0-9_-]*$/.test(h), `${what} header is URL-safe: ${h}`, 'header encoding');
  return JSON.parse(Buffer.from(h, 'base64url').toString('utf8'));
};

async function endpoints(ctx, p, bundle) {
  let n = 0;
  for (const zone of [undefined, null, 'US', 'us', 'EU', 'eu', 'Eu', ''])
    for (const serverUrl of [undefined, null, '', 'https://proxy.example', 'https://proxy.example/base', 'http://localhost:3000'])
      for (const flagsServerUrl of [undefined, '', 'https://flags.example/x'])
        for (const web of [false, true])
          for (const custom of [false, true])
            for (const timeout of [undefined, null, 500])
              for (const fetchOnStart of [true, false]) {
                const page = new Page({});
                const { sdk } = bundle.load(page.scope);
                const custReqs = [];
                page.onRequest = (r) => r.respond(200, r.url.includes('/flags') ? [] : {});
                const config = { pollOnStart: false, fetchOnStart, serverZone: zone, serverUrl, flagsServerUrl, fetchTimeoutMillis: timeout };
                if (web) config.internalInstanceNameSuffix = 'web';
                if (custom) {
                  const httpClient = {
                    marker: 'mine',
                    request(url, method, headers, data, timeoutMillis) {
                      custReqs.push({ url, method, headers, data, timeoutMillis, self: this && this.marker });
                      return Promise.resolve({ status: 200, body: url.includes('/flags') ? '[]' : '{}' });
                    },
                  };
                  config.httpClient = httpClient;
                }
                const client = sdk.Experiment.initialize('client-key-1', config);
                await client.start({ user_id: 'u', device_id: 'd' });
                const eu = !!zone && zone.toLowerCase() === 'eu';
                const base = serverUrl || (eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com');
                const fbase = flagsServerUrl || (eu ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com');
                const reqs = (custom ? custReqs : page.requests).slice();
                const what = canon([zone, serverUrl, flagsServerUrl, web, custom, timeout]);
                ctx.equal(page.requests.length, custom ? 0 : fetchOnStart ? 2 : 1, `requests through fetch for ${what}`, 'custom client used');
                const flags = reqs.filter((r) => r.url.startsWith(fbase + '/sdk/v2/flags'));
                const vars = reqs.filter((r) => r.url.startsWith(base + '/sdk/v2/vardata'));
                ctx.equal([flags.length, vars.length, reqs.length], [1, fetchOnStart ? 1 : 0, fetchOnStart ? 2 : 1], `requests ${reqs.map((r) => r.url)} for ${what}`, 'endpoint');
                ctx.equal(new URL(flags[0].url).searchParams.get('delivery_method'), web ? 'web' : null, `delivery method of ${flags[0].url}`, 'delivery method');
                for (const r of reqs) {
                  ctx.equal([r.method, r.headers.Authorization], ['GET', 'Api-Key client-key-1'], `authorisation for ${what}`, 'authorisation');
                  if (custom) ctx.equal([r.timeoutMillis, r.data, r.self], [timeout || 10000, null, 'mine'], `custom client call for ${what}`, 'custom client call');
                }
                ctx.ok(/^experiment-js-client\/\d+\.\d+\.\d+/.test(flags[0].headers['X-Amp-Exp-Library']), 'library header', 'library header');
                const fu = flags[0].headers['X-Amp-Exp-User'];
                ctx.equal(fu === undefined ? null : decode(ctx, fu, 'flags user'), web ? { user_id: 'u', device_id: 'd' } : null, `user of the flags request for ${what}`, 'flags user');
                if (fetchOnStart) {
                  const u = decode(ctx, vars[0].headers['X-Amp-Exp-User'], 'user');
                  ctx.equal([u.user_id, u.device_id], ['u', 'd'], `user for ${what}`, 'user');
                  ctx.equal([vars[0].headers['X-Amp-Exp-Flag-Keys'], vars[0].headers['X-Amp-Exp-Track'], vars[0].headers['X-Amp-Exp-Exposure-Track']], [undefined, undefined, undefined], 'no option headers', 'option headers');
                }
                if (!custom && timeout) {
                  // the built-in client gives up after the configured time
                  page.onRequest = () => {};
                  let done = false;
                  client.fetch().then(() => (done = true));
                  await drain();
                  await page.timers.advance(timeout - 1);
                  ctx.equal(done, false, `fetch pending before its time-out for ${what}`, 'timeout');
                  await page.timers.advance(1);
                  ctx.equal(done, true, `fetch settled at its time-out for ${what}`, 'timeout');
                }
                page.kill();
                n++;
              }
  ctx.evaluatedMany(n, n);
}

const ALPHA = ['a', '"', '\\', '\u0000', '\n', '\u007f', '\u00e9', '\u07ff', '\u0800', '\u20ac', '\u0301', '\u212b', '\uffff', '\u2028', '\ud83d\ude00', '\u{10ffff}', '\ud800', '\udc00', '%', '+', '/', '='];
async function encoding(ctx, p, bundle) {
  const page = new Page({});
  const { sdk } = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, {});
  const client = sdk.Experiment.initialize('client-key-1', { pollOnStart: false });
  let strings = [''];
  let n = 0;
  const layer = (prev) => [].concat(...prev.map((s) => ALPHA.map((c) => s + c)));
  let cur = [''];
  for (let i = 0; i < p.len; i++) strings = strings.concat((cur = layer(cur)));
  for (const s of strings) {
    const user = { user_id: s, device_id: 'x' + s, user_properties: { ['k' + s]: s, list: [s, 1, null, true], deep: { a: { [s]: 0.1 } } }, groups: { [s]: [s] } };
    const opt = { flagKeys: [s, 'f', s + s] };
    await client.fetch(user, opt);
    const r = page.requests.pop();
    const u = decode(ctx, r.headers['X-Amp-Exp-User'], 'user');
    ctx.equal({ user_id: u.user_id, device_id: u.device_id, user_properties: u.user_properties, groups: u.groups }, json(user), `user with ${JSON.stringify(s)}`, 'user encoding');
    ctx.equal(decode(ctx, r.headers['X-Amp-Exp-Flag-Keys'], 'flag keys'), json(opt.flagKeys), `flag keys with ${JSON.stringify(s)}`, 'flag key encoding');
    for (const h of Object.values(r.headers)) ctx.ok(/^[\x20-\x7e]*$/.test(h), 'headers are plain ASCII', 'header encoding');
    n++;
  }
  for (const flagKeys of [[], ['a'], ['b', 'a'], ['a', 'a']]) {
    await client.fetch({ user_id: 'u' }, { flagKeys });
    ctx.equal(decode(ctx, page.requests.pop().headers['X-Amp-Exp-Flag-Keys'], 'flag keys'), flagKeys, 'flag keys', 'flag keys');
  }
  ctx.evaluatedMany(n, n);
}

// ---- tracking option over histories
async function tracking(ctx, p, bundle) {
  const device = new Device();
  let page;
  const clients = {};
  const model = {}; // per instance: option; survives reloads
  const open = () => {
    if (page) page.kill();
    page = new Page({ device });
    page.onRequest = (r) => r.respond(p.fail ? 500 : 200, {});
    const { sdk } = bundle.load(page.scope);
    for (const k of p.instances) {
      const [name, key] = k.split('|');
      clients[k] = sdk.Experiment.initialize(key, { instanceName: name, pollOnStart: false, retryFetchOnFailure: !!p.fail });
    }
  };
  open();
  for (let step = 0; step < p.depth; step++) {
    const acts = [['reload']];
    for (const k of p.instances) {
      acts.push(['set', k, true], ['set', k, false], ['clear', k]);
      for (const o of [undefined, 'track', 'no-track', 'read-only']) acts.push(['fetch', k, o]);
    }
    const [op, k, arg] = ctx.pick(acts);
    ctx.step(`${op} ${k || ''} ${arg === undefined ? '' : arg}`);
    if (op === 'reload') open();
    else if (op === 'set') {
      model[k] = arg ? 'track' : 'no-track';
      await clients[k].setTracksAssignment(arg);
    } else if (op === 'clear') clients[k].clear();
    else {
      const from = page.requests.length;
      await clients[k].fetch({ user_id: 'u' }, arg === undefined ? undefined : { trackingOption: arg, exposureTrackingOption: arg === 'track' ? 'track' : undefined });
      if (p.fail) await page.timers.advance(500);
      const rs = page.requests.slice(from);
      ctx.ok(rs.length === (p.fail ? 2 : 1), `requests sent: ${rs.length}`, 'request count');
      for (const r of rs) {
        const want = arg === undefined ? model[k] : arg;
        ctx.equal([r.headers['X-Amp-Exp-Track'], r.headers['X-Amp-Exp-Exposure-Track']], [want, arg === 'track' ? 'track' : undefined], `tracking option of ${k}`, 'tracking option');
      }
    }
    ctx.state(canon(model));
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'full product of endpoint configurations and of short Unicode strings on the real client, and exhaustive exploration of tracking-option histories over reloads',
  level_note: 'all combinations, strings and histories within the stated bounds',
  bounds: (t) => ({ 'endpoint configurations': 8 * 6 * 3 * 2 * 2 * 3 * 2, alphabet: ALPHA.length, 'string length': t === 'thorough' ? 3 : 2, 'tracking history depth': t === 'thorough' ? 6 : 5 }),
  assumptions: ['users hold JSON values'],
  scenarios(tier) {
    const T = tier === 'thorough';
    return [
      { name: 'endpoints', params: { kind: 'endpoints' } },
      { name: 'encoding', params: { kind: 'encoding', len: T ? 3 : 2 } },
      { name: 'tracking', params: { kind: 'tracking', instances: ['$default_instance|client-key-1'], depth: T ? 6 : 5 }, shards: 8, shardDepth: 1 },
      { name: 'tracking-retry', params: { kind: 'tracking', fail: true, instances: ['$default_instance|client-key-1'], depth: T ? 5 : 3 }, shards: 8, shardDepth: 1 },
      { name: 'tracking-two', params: { kind: 'tracking', instances: ['$default_instance|client-key-1', 'n2|client-key-1', '$default_instance|client-key-2'], depth: 3 }, shards: 11, shardDepth: 1 },
    ];
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    return p.kind === 'endpoints' ? endpoints(ctx, p, bundle) : p.kind === 'encoding' ? encoding(ctx, p, bundle) : tracking(ctx, p, bundle);
  },
};
