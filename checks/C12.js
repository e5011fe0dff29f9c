'use strict';
// Integration readiness, and the Amplitude integration: identity, time-out, event bridge, refetch.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const KEY = 'abcdefghijklmnop';
const userOf = (r) => {
  const h = r.headers['X-Amp-Exp-User'];
  if (!h) return null;
  const u = JSON.parse(Buffer.from(h, 'base64url').toString('utf8'));
  return { user_id: u.user_id, device_id: u.device_id, user_properties: u.user_properties, version: u.version };
};
const clean = (o) => JSON.parse(JSON.stringify(o));
const VARIANTS = {};
for (let i = 0; i < 8; i++) VARIANTS['f' + i] = { key: 'on', metadata: { deliveryMethod: 'web' } };

// ---- any integration: requests wait for its set-up
async function manager(ctx, p, bundle) {
  const page = new Page({});
  const { sdk } = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, r.url.includes('/flags') ? [] : VARIANTS);
  const client = sdk.Experiment.initialize(KEY, { pollOnStart: false, fetchOnStart: p.fetchOnStart, ...(p.web ? { internalInstanceNameSuffix: 'web' } : {}) });
  let identity = { user_id: 'u0' };
  const m = { installed: false, ready: false, waiting: [], want: [], pending: null };
  let seen = 0;
  const expectReq = (kind) => {
    const id = m.installed ? identity : {};
    if (kind === 'flags' && !p.web) m.want.push(['flags', null]);
    else if (kind === 'flags') m.want.push(['flags', id.user_id || id.device_id ? { user_id: id.user_id, device_id: id.device_id } : null]);
    else m.want.push(['vardata', { user_id: id.user_id, device_id: id.device_id, user_properties: id.user_properties || {} }]);
  };
  const request = (kind) => {
    if (kind === 'flags' && !p.web) return expectReq(kind);
    if (!m.installed || m.ready) expectReq(kind);
    else m.waiting.push(kind);
  };
  const becomeReady = () => {
    m.ready = true;
    const w = m.waiting.splice(0);
    for (const k of w) expectReq(k);
  };
  let starts = 0;
  for (let step = 0; step < p.depth; step++) {
    const acts = [['fetch'], ['identity', { user_id: 'u1' }], ['identity', { device_id: 'd1', user_properties: { p: 1 } }], ['tick']];
    if (!starts) acts.push(['start']);
    if (!m.installed) acts.push(['install', 'sync'], ['install', 'async']);
    if (m.pending) acts.push(['resolve'], ['reject']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${canon(arg)}`);
    if (op === 'fetch') {
      request('vardata');
      client.fetch().catch(() => {});
    } else if (op === 'start') {
      starts++;
      request('flags');
      if (p.fetchOnStart) request('vardata');
      client.start().catch(() => {});
    } else if (op === 'identity') identity = arg;
    else if (op === 'tick') await page.timers.advance(30000);
    else if (op === 'install') {
      m.installed = true;
      const plugin = { type: 'integration', getUser: () => ({ ...identity }), track: () => true };
      if (arg === 'async') plugin.setup = () => new Promise((res, rej) => (m.pending = [res, rej]));
      client.addPlugin(plugin);
      if (arg === 'sync') becomeReady();
    } else {
      const [res, rej] = m.pending;
      m.pending = null;
      if (op === 'resolve') res();
      else rej(new Error('set-up failed'));
      becomeReady();
    }
    await drain();
    const got = page.requests.slice(seen).map((r) => {
      const u = userOf(r);
      return r.url.includes('/flags') ? ['flags', u && { user_id: u.user_id, device_id: u.device_id }] : ['vardata', u && { user_id: u.user_id, device_id: u.device_id, user_properties: u.user_properties }];
    });
    seen = page.requests.length;
    const srt = (x) => x.map((y) => canon(clean(y))).sort();
    ctx.equal(srt(got), srt(m.want), `requests sent by ${op}`, 'requests vs readiness');
    m.want = [];
    ctx.state(canon([m.installed, m.ready, m.waiting, !!m.pending, starts, identity]) + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}

// ---- the Amplitude integration, as a machine
async function amplitude(ctx, p, bundle) {
  const device = new Device();
  const page = new Page({ device });
  const { sdk, con } = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, r.url.includes('/flags') ? [] : VARIANTS);
  const connector = con.AnalyticsConnector.getInstance(p.instanceName || '$default_instance');
  connector.applicationContextProvider.versionName = '9.1';
  const m = { id: { userId: undefined, deviceId: undefined, props: {} }, readyAt: null, ready: false, waiting: 0, want: [], queue: [], delivered: [], receiver: false, next: null, seq: 0 };
  const delivered = [];
  const receive = (e) => delivered.push([e.eventType, e.eventProperties && e.eventProperties.flag_key]);
  const setIdentity = (arg) => {
    const ed = connector.identityStore.editIdentity();
    if ('userId' in arg) ed.setUserId(arg.userId);
    if ('deviceId' in arg) ed.setDeviceId(arg.deviceId);
    if (arg.props) ed.setUserProperties(arg.props);
    ed.commit();
    const before = canon(m.id);
    m.id = { userId: 'userId' in arg ? arg.userId : m.id.userId, deviceId: 'deviceId' in arg ? arg.deviceId : m.id.deviceId, props: arg.props || m.id.props };
    return canon(m.id) !== before;
  };
  if (p.early === 'identity') setIdentity({ deviceId: 'd0' });
  if (p.early === 'receiver') {
    connector.eventBridge.setEventReceiver(receive);
    m.receiver = true;
  }
  const now = () => page.clock.now;
  const flush = () => {
    if (!m.ready || !m.queue.length || !m.receiver) return;
    while (m.queue.length) m.delivered.push(m.queue.shift());
    m.next = null;
  };
  const expectReq = () => m.want.push({ user_id: m.id.userId, device_id: m.id.deviceId, user_properties: m.id.props, version: '9.1' });
  const becomeReady = () => {
    if (m.ready) return;
    m.ready = true;
    m.readyAt = null;
    if (m.next === null) m.next = now() + 1000;
    flush();
    for (; m.waiting > 0; m.waiting--) expectReq();
  };
  const doFetch = () => {
    if (m.ready) expectReq();
    else m.waiting++;
  };
  const client = sdk.Experiment.initializeWithAmplitudeAnalytics(KEY, { pollOnStart: false, instanceName: p.instanceName, automaticFetchOnAmplitudeIdentityChange: p.auto });
  // served variants so that exposures exist
  client.variants.putAll ? client.variants.putAll(VARIANTS) : 0;
  if (m.id.userId || m.id.deviceId) becomeReady();
  else m.readyAt = now() + 10000;
  await drain();
  let seen = 0;
  for (let step = 0; step < p.depth; step++) {
    const acts = [['fetch'], ['identity', { userId: 'a' }], ['identity', { userId: 'b', props: { p: 1 } }], ['identity', { deviceId: 'd' }], ['advance', 1000], ['advance', 9999]];
    if (m.id.userId) acts.push(['identity', { userId: undefined }]);
    if (m.seq < 8) acts.push(['exposure']);
    if (!m.receiver) acts.push(['receiver']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${canon(arg)}`);
    if (op === 'fetch') {
      doFetch();
      client.fetch().catch(() => {});
    } else if (op === 'identity') {
      if (setIdentity(arg)) {
        if (p.auto) doFetch();
        becomeReady();
      }
    } else if (op === 'receiver') {
      connector.eventBridge.setEventReceiver(receive);
      m.receiver = true;
    } else if (op === 'exposure') {
      const f = 'f' + m.seq++;
      m.queue.push(['$impression', f]);
      client.exposure(f);
      flush();
      if (m.ready && m.queue.length && m.next === null) m.next = now() + 1000;
    } else {
      const end = now() + arg;
      for (;;) {
        const cand = [];
        if (m.readyAt !== null) cand.push(m.readyAt);
        if (m.next !== null) cand.push(m.next);
        const at = Math.min(...cand, Infinity);
        if (at > end) break;
        if (m.readyAt === at) {
          m.ready = true;
          m.readyAt = null;
          m.next = at + 1000;
          flush();
          for (; m.waiting > 0; m.waiting--) expectReq();
        } else {
          m.next = at + 1000;
          flush();
        }
      }
      await page.timers.advance(arg);
    }
    await drain();
    ctx.equal(delivered, m.delivered, `events on the bridge after ${op}`, 'bridge events');
    const got = page.requests.slice(seen).map(userOf);
    seen = page.requests.length;
    ctx.equal(got.map(clean), m.want.map(clean), `requests sent by ${op}`, 'requests vs identity');
    m.want = [];
    ctx.state(canon([m.id, m.ready, m.readyAt && m.readyAt - now(), m.waiting, m.queue, m.receiver, m.next && m.next - now()]) + (p.prune ? snap(page, [client, connector]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}

// ---- persisted analytics state: order and formats of the four stores
const b64 = (s) => Buffer.from(s, 'latin1').toString('base64');
const NEWCOOKIE = [
  [undefined, undefined],
  [encodeURIComponent(b64(encodeURIComponent(JSON.stringify({ deviceId: 'ckD', userId: 'ckU' })))), { d: 'ckD', u: 'ckU' }],
  [b64(encodeURIComponent(JSON.stringify({ deviceId: 'ckD', userId: 'ü€' }))).replace(/=+$/, ''), { d: 'ckD', u: 'ü€' }],
  [b64(encodeURIComponent(JSON.stringify({ deviceId: 'ckD' }))).replace(/=+$/, ''), { d: 'ckD' }],
  ['%E0%A4%A', undefined],
  ['!!!!', undefined],
  [b64('not json').replace(/=+$/, ''), undefined],
  [b64('%E0%A4%A').replace(/=+$/, ''), undefined],
  [b64('null').replace(/=+$/, ''), undefined],
  ['', undefined],
];
const OLDCOOKIE = [
  [undefined, undefined],
  ['olD.' + b64('olU').replace(/=+$/, '') + '..1.2.3', { d: 'olD', u: 'olU' }],
  ['olD...1.2', { d: 'olD' }],
  ['olD', { d: 'olD' }],
  ['olD.!!!.x', undefined],
  ['%', undefined],
  ['', undefined],
];
const STORE = (t) => [
  [undefined, undefined],
  [JSON.stringify({ deviceId: t + 'D', userId: t + 'U' }), { d: t + 'D', u: t + 'U' }],
  [JSON.stringify({ deviceId: t + 'D' }), { d: t + 'D' }],
  [JSON.stringify({ deviceId: t + 'D', userId: t + 'U' }).slice(0, -3), undefined],
  ['null', undefined],
  ['5', undefined],
  ['', undefined],
];
// other data around, and what the connector knows already
const SURROUNDINGS = [[false], [true], [false, { u: 'coU' }], [false, { u: 'coU', d: 'coD' }]];
const KEYS = ['abcdefghijklmnop', 'abcdefghij', 'abcdefghi', 'abcdef', 'abcde', 'client-abcdefghijk', ''];

async function persisted(ctx, p, bundle) {
  const LS = STORE('ls');
  const SS = STORE('ss');
  const apiKey = p.apiKey;
  let n = 0;
  let nontrivial = 0;
  for (const [nc, ncv] of NEWCOOKIE)
    for (const [oc, ocv] of OLDCOOKIE)
      for (const [l, lv] of LS)
        for (const [s, sv] of SS)
          for (const [noise, prior] of SURROUNDINGS) {
            const device = new Device();
            const page = new Page({ device });
            const nk = apiKey !== undefined && apiKey.length >= 10 ? `AMP_${apiKey.slice(0, 10)}` : undefined;
            const ok = apiKey !== undefined && apiKey.length >= 6 ? `amp_${apiKey.slice(0, 6)}` : undefined;
            const jar = device.jar;
            if (noise) {
              jar.set(page.host, 'AMP_other=' + b64(encodeURIComponent(JSON.stringify({ deviceId: 'no', userId: 'no' }))));
              jar.set(page.host, 'amp_=no.no');
              if (nk) jar.set(page.host, `${nk}_x=` + b64(encodeURIComponent(JSON.stringify({ deviceId: 'no', userId: 'no' }))));
              if (ok) jar.set(page.host, `${ok}_x=no.no`);
              if (nk) jar.set(page.host, `x${nk}=` + b64(encodeURIComponent(JSON.stringify({ deviceId: 'no', userId: 'no' }))));
              page.localRaw.set('AMP_', JSON.stringify({ deviceId: 'no' }));
              page.sessionRaw.set('AMP_a', JSON.stringify({ deviceId: 'no' }));
            }
            if (nc !== undefined && nk) jar.set(page.host, `${nk}=${nc}`);
            if (oc !== undefined && ok) jar.set(page.host, `${ok}=${oc}`);
            if (l !== undefined && nk) page.localRaw.set(nk, l);
            if (s !== undefined && nk) page.sessionRaw.set(nk, s);
            if (noise) jar.set(page.host, 'zz=1');
            let want = null;
            if (apiKey && !apiKey.startsWith('client-')) {
              if (nk && ncv) want = ncv;
              else if (ok && ocv) want = ocv;
              else if (nk && lv) want = lv;
              else if (nk && sv) want = sv;
            }
            const { sdk, con } = bundle.load(page.scope);
            const store = con.AnalyticsConnector.getInstance('$default_instance').identityStore;
            if (prior) store.editIdentity().setUserId(prior.u).setDeviceId(prior.d).setUserProperties({ p: 1 }).commit();
            // what is persisted is newer than what the connector has, except for what it does not name
            const known = { d: want ? want.d : prior && prior.d, u: (want && want.u) || (prior && prior.u) };
            let readySent = false;
            page.onRequest = (r) => {
              readySent = true;
              r.respond(200, {});
            };
            let client;
            const what = `apiKey=${apiKey} new cookie=${nc} legacy cookie=${oc} local=${l} session=${s} connector=${canon(prior)}`;
            try {
              client = sdk.Experiment.initializeWithAmplitudeAnalytics(apiKey, { pollOnStart: false });
            } catch (e) {
              ctx.fail(`initialization threw for ${what}: ${e}`, 'initialization threw on persisted state');
            }
            const id = store.getIdentity();
            ctx.equal(clean({ d: id.deviceId, u: id.userId, p: id.userProperties }), clean({ ...known, p: prior ? { p: 1 } : {} }), `identity read for ${what}`, 'persisted identity');
            client.fetch().catch(() => {});
            await drain();
            ctx.equal(readySent, !!apiKey && !!(known.d || known.u), `fetch sent at once for ${what}`, 'readiness from persisted identity');
            if (readySent) ctx.equal(clean({ d: userOf(page.requests[0]).device_id, u: userOf(page.requests[0]).user_id }), clean(known), `identity sent for ${what}`, 'persisted identity sent');
            page.kill();
            n++;
            if (want) nontrivial++;
          }
  ctx.evaluatedMany(n, nontrivial);
  ctx.sample(`apiKey ${apiKey}: ${n} store contents`);
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of fetch/start/set-up/identity/time-out/receiver orders on the real client in virtual time against a readiness model, plus the full product of contents of the four persisted stores',
  level_note: 'all histories within the stated depth and all listed store contents',
  bounds: (t) => ({ depth: t === 'thorough' ? '7 in full, 10 with state matching' : '5 in full, 7 with state matching', 'persisted store contents': `${NEWCOOKIE.length} x ${OLDCOOKIE.length} x 7 x 7 x ${SURROUNDINGS.length} for ${KEYS.length} keys` }),
  assumptions: ['one integration per client', 'the first identity the analytics SDK sets has a user id or device id'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    for (const web of [false, true])
      for (const fetchOnStart of [false, true]) {
        out.push({ name: `manager:${web}:${fetchOnStart}`, params: { kind: 'manager', web, fetchOnStart, depth: T ? 7 : 5 }, shards: 8, shardDepth: 2 });
        out.push({ name: `manager-deep:${web}:${fetchOnStart}`, params: { kind: 'manager', web, fetchOnStart, depth: T ? 14 : 7, prune: true }, shards: 4, shardDepth: 1 });
      }
    for (const auto of [false, true])
      for (const early of [undefined, 'identity', 'receiver'])
        for (const instanceName of T || early === undefined ? [undefined, 'other'] : [undefined]) {
          out.push({ name: `amplitude:${auto}:${early}:${instanceName}`, params: { kind: 'amplitude', auto, early, instanceName, depth: T ? 6 : 4 }, shards: 9, shardDepth: 1 });
          out.push({ name: `amplitude-deep:${auto}:${early}:${instanceName}`, params: { kind: 'amplitude', auto, early, instanceName, depth: T ? 10 : 5, prune: true }, shards: 9, shardDepth: 1 });
        }
    KEYS.forEach((apiKey, i) => out.push({ name: `persisted:${i}`, params: { kind: 'persisted', apiKey } }));
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts', con: 'analytics-connector/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    if (p.kind === 'manager') return manager(ctx, p, bundle);
    if (p.kind === 'amplitude') return amplitude(ctx, p, bundle);
    return persisted(ctx, p, bundle);
  },
};
