'use strict';
// What the page itself contributes to the user: of the moment, of the tab session, of the device.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const KEY = 'client-abcdefghijkl';
const SLOT = `EXP_${KEY.slice(0, 10)}_DEFAULT_USER_PROVIDER`;
const HOST = 'https://www.example.com';
const URLS = ['/', '/a/', '/b?p=1,2&q=&p=3', '/c?constructor=x&p=7', '/d/?u=%C3%A9%2Cz&t=a%20b+c#/h/', '/e?__proto__=1&p=5&toString=2'];
const COOKIES = [['a', '1'], ['a', 'x=y=='], ['__c', 'k=v&l=w'], ['b', '']];
const GARBAGE = { local: ['{', 'null', '"s"', '{"first_seen":""}', '{"first_seen":"77"}'], session: ['{', 'null', '7', '{"landing_url":"https://old.example.com"}', '{}'] };

const sent = (r) => JSON.parse(Buffer.from(r.headers['X-Amp-Exp-User'], 'base64url').toString('utf8'));
const noSlash = (s) => (s.endsWith('/') ? s.slice(0, -1) : s);

// the parameters of an address, read off its text
const paramsOf = (href) => {
  const q = href.split('#')[0].split('?')[1];
  const all = new Map();
  for (const part of q ? q.split('&') : []) {
    const [k, v] = part.split('=').map((x) => decodeURIComponent(x.replace(/\+/g, ' ')));
    all.set(k, [...(all.get(k) || []), ...v.split(',')]);
  }
  const out = {};
  for (const [k, v] of all) if (k !== '__proto__') out[k] = v.length === 1 ? v[0] : v;
  return out;
};

// a stored value: what it holds, or BAD where nothing can be made of it
const BAD = Symbol('unusable');
const heldIn = (raw, field) => {
  if (raw === undefined || raw === '') return undefined;
  let o;
  try {
    o = JSON.parse(raw);
  } catch (e) {
    return BAD;
  }
  if (o === null || typeof o !== 'object') return BAD;
  return o[field] || undefined;
};

const flagOn = (key, selector, value) => ({ key, metadata: { evaluationMode: 'local' }, variants: { yes: { key: 'yes' }, no: { key: 'no' } }, segments: [{ conditions: [[{ selector: ['context', 'user', ...selector], op: 'is', values: [value] }]], variant: 'yes' }, { variant: 'no' }] });

async function histories(ctx, p, bundle) {
  const device = new Device({ now: 1700000000500 });
  let tab = new Tab(device);
  const m = { first: undefined, landing: undefined, cookies: {} };
  const fault = { get: null, set: null };
  let page;
  let client;
  let ref = '';
  const hook = (area, store) => {
    const h = store.raw.hooks;
    h.onGet = () => {
      if (fault.get === area) throw new Error('storage denied');
    };
    h.onSet = () => {
      if (fault.set === area) throw new Error('quota');
    };
  };
  const open = (url) => {
    if (page) page.kill();
    page = new Page({ device, tab, url: HOST + url, referrer: ref });
    hook('local', device.localStorageFor(page.host));
    hook('session', tab.sessionFor(page.host));
    page.onRequest = (r) => r.respond(200, {});
    const { sdk } = bundle.load(page.scope);
    client = sdk.Experiment.initialize(KEY, { pollOnStart: false, fetchOnStart: false, automaticExposureTracking: false, initialFlags: JSON.stringify([flagOn('param', ['url_param', 'p'], '7'), flagOn('landed', ['landing_url'], HOST + '/a'), flagOn('cookie', ['cookie', 'a'], 'x=y=='), flagOn('plain', ['cookie', 'a'], '1'), flagOn('odd', ['cookie', '__c'], 'k=v&l=w')]) });
  };
  const ask = async () => {
    // what is due
    const want = { url_param: paramsOf(page.url), cookie: undefined, referring_url: noSlash(ref), language: 'en-US', platform: 'Web' };
    const resolve = (area, field, fresh) => {
      if (fault.get === area) return undefined;
      const raw = area === 'local' ? page.localRaw : page.sessionRaw;
      const held = heldIn(raw.get(SLOT), field);
      if (held === BAD) return undefined;
      const known = field === 'first_seen' ? m.first : m.landing;
      ctx.equal(held, known, `${field} on the device`, 'stored');
      if (known !== undefined) return known;
      return fault.set === area ? undefined : fresh;
    };
    want.landing_url = resolve('session', 'landing_url', noSlash(page.url));
    want.first_seen = resolve('local', 'first_seen', String(page.clock.now / 1000));
    if (want.landing_url !== undefined) m.landing = want.landing_url;
    if (want.first_seen !== undefined) m.first = want.first_seen;
    // locally, then by request (which never carries cookies)
    const seen = {};
    for (const k of ['param', 'landed', 'cookie', 'plain', 'odd']) seen[k] = client.variant(k).key;
    ctx.equal(seen, { param: want.url_param.p === '7' ? 'yes' : 'no', landed: want.landing_url === HOST + '/a' ? 'yes' : 'no', cookie: m.cookies.a === 'x=y==' ? 'yes' : 'no', plain: m.cookies.a === '1' ? 'yes' : 'no', odd: m.cookies.__c ? 'yes' : 'no' }, 'evaluated on the page', 'local evaluation');
    await client.fetch({}, undefined).catch((e) => ctx.fail(`fetch failed: ${e}`, 'fetch failed'));
    const u = sent(page.requests.pop());
    if (u.url_param && Object.prototype.hasOwnProperty.call(u.url_param, '__proto__')) u.url_param = Object.fromEntries(Object.entries(u.url_param).filter(([k]) => k !== '__proto__'));
    const got = {};
    for (const k of Object.keys(want)) got[k] = u[k];
    ctx.equal(got, want, `the user at ${page.url}`, 'user');
  };
  open(URLS[p.start]);
  await drain();
  for (let step = 0; step < p.depth; step++) {
    const acts = [['ask']];
    for (const u of p.urls) acts.push(['push', u], ['load', u]);
    acts.push(['tab'], ['later']);
    COOKIES.slice(0, p.cookies).forEach((c) => acts.push(['cookie', c]));
    if (m.cookies.a !== undefined) acts.push(['uncookie']);
    if (p.faults) {
      for (const area of ['local', 'session']) {
        for (const g of GARBAGE[area]) acts.push(['stored', [area, g]]);
        for (const f of ['get', 'set']) if (fault[f] !== area) acts.push(['fault', [f, area]]);
        acts.push(['cleared', area]);
      }
      if (fault.get || fault.set) acts.push(['healed']);
    }
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${canon(arg)}`);
    if (op === 'push') page.scope.history.pushState({}, '', URLS[arg]);
    else if (op === 'load') {
      ref = page.url;
      open(URLS[arg]);
    } else if (op === 'tab') {
      tab = new Tab(device);
      m.landing = undefined;
      ref = '';
      open('/b');
    } else if (op === 'later') await page.timers.advance(1500);
    else if (op === 'cookie') {
      device.jar.set(page.host, `${arg[0]}=${arg[1]}`);
      m.cookies[arg[0]] = arg[1];
    } else if (op === 'uncookie') {
      device.jar.set(page.host, 'a=; max-age=0');
      delete m.cookies.a;
    } else if (op === 'stored') {
      const [area, g] = arg;
      (area === 'local' ? page.localRaw : page.sessionRaw).set(SLOT, g);
      const h = heldIn(g, area === 'local' ? 'first_seen' : 'landing_url');
      if (area === 'local') m.first = h === BAD ? undefined : h;
      else m.landing = h === BAD ? undefined : h;
    } else if (op === 'cleared') {
      (arg === 'local' ? page.localRaw : page.sessionRaw).clear();
      if (arg === 'local') m.first = undefined;
      else m.landing = undefined;
    } else if (op === 'fault') fault[arg[0]] = arg[1];
    else if (op === 'healed') fault.get = fault.set = null;
    if (op === 'ask' || step === p.depth - 1) await ask();
    await drain();
    ctx.state(canon([m, page.url, ref, fault, page.localRaw.get(SLOT), page.sessionRaw.get(SLOT)]) + snap(page, []), p.depth - step - 1);
  }
  page.kill();
}

// every small combination of parameters, in any order, and of cookies
async function tables(ctx, p, bundle) {
  const NAMES = ['p', 'q', 'constructor', '__proto__', 'hasOwnProperty', 'P', 'a b', 'é', ''];
  const VALUES = ['', '1', ',', '1,2', 'a=b', ' ', 'é,ü', 'true'];
  const enc = encodeURIComponent;
  const device = new Device();
  const page = new Page({ device, url: HOST + '/' });
  page.onRequest = (r) => r.respond(200, {});
  const { sdk } = bundle.load(page.scope);
  const client = sdk.Experiment.initialize(KEY, { pollOnStart: false, fetchOnStart: false });
  let n = 0;
  const check = async () => {
    await client.fetch({});
    const u = sent(page.requests.pop());
    const got = u.url_param && Object.fromEntries(Object.entries(u.url_param).filter(([k]) => k !== '__proto__'));
    ctx.equal(got, paramsOf(page.url), `parameters of ${page.url}`, 'parameters');
    n++;
  };
  const pairs = [];
  for (const k of NAMES) for (const v of VALUES) pairs.push([k, v]);
  const mine = pairs.filter((x, i) => i % 8 === p.part);
  for (const a of mine) {
    const one = `${enc(a[0])}=${enc(a[1])}`;
    page.scope.history.replaceState({}, '', '/?' + one);
    await check();
    for (const b of pairs) {
      page.scope.history.replaceState({}, '', `/x/?${one}&${enc(b[0])}=${enc(b[1])}#${one}`);
      await check();
      if (p.three)
        for (const c of pairs.filter((x) => x[0] === a[0] || x[0] === b[0] || x[1] === '1')) {
          page.scope.history.replaceState({}, '', `/?${one}&${enc(b[0])}=${enc(b[1])}&${enc(c[0])}=${enc(c[1])}`);
          await check();
        }
    }
  }
  ctx.evaluatedMany(n, n);
  page.kill();
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of navigation, page load, tab, cookie, stored-value and storage-fault histories of the real client against a model of session, device and moment, plus the full product of small query strings',
  level_note: 'all histories within the stated depth over the listed addresses, cookies, contents and faults; all query strings of up to two parameters over 9 names and 8 values (three at the thorough tier)',
  bounds: (t) => ({ depth: t === 'thorough' ? '6 (plain) and 5 (with faults)' : '4', addresses: URLS.length, cookies: COOKIES.length, 'query strings': t === 'thorough' ? 'up to 3 parameters' : 'up to 2 parameters' }),
  assumptions: ['one host', 'cookie names are unique'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    URLS.forEach((u, i) => {
      if (T || i % 2 === 0) out.push({ name: `plain:${i}`, params: { kind: 'h', start: i, urls: T ? [0, 1, 2, 3, 4, 5] : [(i + 1) % 6, (i + 3) % 6], cookies: T ? 4 : 3, depth: T ? 6 : 4 }, shards: 4, shardDepth: 1 });
      if (T || i % 2 === 1) out.push({ name: `faults:${i}`, params: { kind: 'h', start: i, urls: [1], cookies: 1, faults: true, depth: T ? 5 : 4 }, shards: 4, shardDepth: 1 });
    });
    for (let part = 0; part < 8; part++) out.push({ name: `query:${part}`, params: { kind: 't', part, three: T } });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    if (p.kind === 't') return tables(ctx, p, bundle);
    return histories(ctx, p, bundle);
  },
};
