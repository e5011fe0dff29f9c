'use strict';
// Which user is sent and evaluated: field-by-field precedence, and isolation from the caller's objects.
const { getBundle } = require('../lib/bundle');
const { Page, drain } = require('../lib/env');
const { canon } = require('../lib/explore');

// a null field says no more than a missing one
const sent = (r) => {
  const u = JSON.parse(Buffer.from(r.headers['X-Amp-Exp-User'], 'base64url').toString('utf8'));
  for (const k of Object.keys(u)) if (u[k] === null) delete u[k];
  return u;
};
const json = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const nullish = (v) => v === null || v === undefined;
const NONE = Symbol('absent');

// candidate values of one field, per source (so that the origin of a value is visible)
const valuesFor = (field, src) => {
  if (field === 'groups') return [NONE, undefined, null, {}, { org: [src] }, { [src]: ['x'] }];
  if (field === 'cookie') return [NONE, undefined, null, {}, { c: src }];
  return [NONE, undefined, null, '', src + '-' + field];
};
const PROPS = (src) => [NONE, undefined, null, {}, { a: src }, { a: src, [src]: 1 }, { b: null, a: undefined, c: src }];
const FIELDS = ['user_id', 'device_id', 'country', 'version', 'language', 'platform', 'library', 'groups', 'cookie', 'custom_field', 'ip_address', 'persisted_url_param'];

const withField = (field, v, props) => {
  const o = {};
  if (v !== NONE) o[field] = v;
  if (props !== NONE) o.user_properties = props;
  return o;
};

async function table(ctx, p, bundle) {
  const { field, via } = p;
  let n = 0;
  const page = new Page({ url: 'https://www.example.com/p?x=1,2&y=3', referrer: 'https://ref.example/' });
  page.device.jar.set(page.host, 'k=v');
  const { sdk } = bundle.load(page.scope);
  let cur;
  const provider = { getUser: () => cur.pv };
  const client = sdk.Experiment.initialize('client-key', { pollOnStart: false, ...(via === 'config' ? { userProvider: provider } : {}) });
  if (via === 'set') client.setUserProvider(provider);
  const integration = { type: 'integration', getUser: () => cur.iv, track: () => true };
  if (p.integration) client.addPlugin(integration);
  page.onRequest = (r) => r.respond(200, {});
  // what the default provider contributes on its own
  cur = { pv: {}, iv: {} };
  let base = {};
  if (via === 'config') {
    await client.fetch({});
    base = sent(page.requests.pop());
    ctx.ok(base.language === 'en-US' && base.platform === 'Web' && base.user_agent && base.landing_url && base.first_seen && base.url_param, 'the default user fields are sent', 'defaults');
    delete base.library;
    delete base.user_properties;
  }
  const LIB = /^experiment-js-client\/\d/;
  const values = valuesFor(field, 'P');
  const half = p.props;
  for (const pv of values)
    for (const iv of p.integration ? valuesFor(field, 'I') : [NONE])
      for (const uv of valuesFor(field, 'U'))
        for (const pp of half ? PROPS('P') : [NONE])
          for (const ip of half && p.integration ? PROPS('I') : [NONE])
            for (const up of half ? PROPS('U') : [NONE]) {
              cur = { pv: withField(field, pv, pp), iv: withField(field, iv, ip) };
              const user = withField(field, uv, up);
              const frozen = canon([cur, user]);
              await client.fetch(user);
              const got = sent(page.requests.pop());
              ctx.ok(canon([cur, user]) === frozen, 'fetching changes none of the sources', 'sources changed');
              const want = { ...base };
              const over = (src) => {
                for (const k of Object.keys(src)) if (!nullish(src[k])) want[k] = src[k];
              };
              // the wrapped provider overrides the defaults, whatever it says
              for (const k of Object.keys(cur.pv)) if (nullish(cur.pv[k])) delete want[k];
              over(cur.pv);
              over(cur.iv);
              over(user);
              want.user_properties = { ...cur.pv.user_properties, ...cur.iv.user_properties, ...user.user_properties };
              delete want.cookie;
              if (want.library === undefined) {
                ctx.ok(LIB.test(got.library), `library named: ${got.library}`, 'library');
                delete got.library;
              }
              const local = want[field];
              ctx.equal(got, json(want), `user sent for provider ${canon(cur.pv)}, integration ${canon(cur.iv)}, user ${canon(user)}`, 'merged user');
              n++;
              if (!half && typeof local === 'string') {
                // the same user decides local evaluation
                client.flags.put('L', { key: 'L', variants: { on: { key: 'on', value: 'on' }, off: { key: 'off' } }, metadata: { evaluationMode: 'local' }, segments: [{ conditions: [[{ selector: ['context', 'user', field], op: 'is', values: [local] }]], variant: 'on' }, { variant: 'off' }] });
                const r = client.variant('L');
                if (local !== '') ctx.equal(r.key, 'on', `local evaluation for provider ${canon(cur.pv)}, integration ${canon(cur.iv)}, user ${canon(user)}`, 'merged user in local evaluation');
                ctx.ok(canon([cur, user]) === frozen, 'evaluating changes none of the sources', 'sources changed');
                n++;
              }
            }
  ctx.evaluatedMany(n, n);
}

// ---- histories of setting, reading and mutating
async function alias(ctx, p, bundle) {
  const page = new Page({});
  const { sdk } = bundle.load(page.scope);
  const client = sdk.Experiment.initialize('client-key', { pollOnStart: false, fetchOnStart: p.fetchOnStart, retryFetchOnFailure: true });
  let release;
  if (p.pending) client.addPlugin({ type: 'integration', getUser: () => ({}), track: () => true, setup: () => new Promise((r) => (release = r)) });
  const objs = []; // objects in the caller's hands
  let model = undefined; // what the client holds
  const due = []; // users of requests held back by the pending set-up
  const snap = (o) => (o === undefined || o === null ? o : json(o));
  let seen = 0;
  let retryUser = null; // user of the failed fetch whose retry is due
  let failNext = false;
  const wantSent = [];
  page.onRequest = (r) => {
    if (r.url.includes('/flags')) return r.respond(200, []);
    r.respond(failNext ? 500 : 200, {});
  };
  const fresh = (i) => (i === 0 ? { user_id: 'a' } : { user_id: 'b', user_properties: { p: 1, q: 'x' } });
  const normal = (u) => {
    const { library, ...rest } = u;
    for (const k of ['language', 'platform', 'os', 'device_model', 'device_category', 'referring_url', 'browser', 'landing_url', 'first_seen', 'url_param', 'user_agent']) delete rest[k];
    return rest;
  };
  const wire = (m) => ({ ...(m || {}), user_properties: (m && m.user_properties) || {} });
  const doFetch = (u) => {
    // the request carries the user as it is now, whenever it goes out
    if (p.pending && !p.released) due.push(snap(u));
    else wantSent.push(wire(snap(u)));
    retryUser = null;
    if (failNext && !(p.pending && !p.released)) retryUser = snap(u);
  };
  let muts = 0;
  let released = false;
  p = { ...p, get released() { return released; } };
  const init = p;
  for (let step = 0; step < init.depth; step++) {
    const acts = [];
    for (const i of [0, 1]) acts.push(['setUser', i], ['fetch', i]);
    if (objs.length) acts.push(['refetch'], ['reset']);
    acts.push(['setUser', null], ['fetch', 'current'], ['getUser']);
    if (step === 0) acts.push(['start', 1], ['start', undefined]);
    objs.forEach((o, i) => {
      if (i >= objs.length - 2) acts.push(['mutate', i, 'field'], ['mutate', i, 'prop'], ['mutate', i, 'delete']);
    });
    if (p.pending && !released) acts.push(['release']);
    if (p.retry) acts.push(['outage'], ['wait']);
    const [op, a, b] = ctx.pick(acts);
    ctx.step(`${op} ${a === undefined ? '' : a} ${b || ''}`);
    if (op === 'setUser') {
      if (a === null) {
        client.setUser(null);
        model = null;
      } else {
        const o = fresh(a);
        objs.push(o);
        model = snap(o);
        client.setUser(o);
      }
    } else if (op === 'reset') {
      const o = objs[objs.length - 1];
      model = snap(o);
      client.setUser(o);
    } else if (op === 'fetch' || op === 'refetch') {
      let o;
      if (op === 'refetch') o = objs[objs.length - 1];
      else if (a === 'current') o = undefined;
      else objs.push((o = fresh(a)));
      model = o ? snap(o) : model || {};
      doFetch(model);
      client.fetch(o).catch(() => {});
      // mutated in the same tick, before anything went out
      if (o && p.sameTick) {
        o.user_id = 'sametick';
        if (o.user_properties) o.user_properties.p = 'sametick';
      }
    } else if (op === 'start') {
      const o = a === undefined ? undefined : fresh(a);
      if (o) objs.push(o);
      model = o ? snap(o) : null;
      if (p.fetchOnStart) {
        model = model || {};
        doFetch(model);
      }
      client.start(o).catch(() => {});
    } else if (op === 'getUser') {
      const o = client.getUser();
      ctx.equal(o, model, 'user read back', 'getUser');
      if (o) objs.push(o);
    } else if (op === 'mutate') {
      const o = objs[a];
      if (b === 'field') o.user_id = 'm' + muts++;
      else if (b === 'delete') {
        delete o.user_id;
        delete o.user_properties;
      } else {
        if (!o.user_properties) o.user_properties = {};
        o.user_properties.p = 'm' + muts++;
        o.user_properties.new = 1;
      }
    } else if (op === 'release') {
      released = true;
      for (const u of due.splice(0)) {
        wantSent.push(wire(u));
        // every fetch that fails schedules its retries, and a newer fetch does not cancel what starts after it
      }
      release();
    } else if (op === 'outage') failNext = !failNext;
    else if (op === 'wait') {
      if (retryUser) {
        wantSent.push(wire(retryUser));
        if (!failNext) retryUser = null;
      }
      await page.timers.advance(retryUser && failNext ? 0 : 0);
    }
    if (op === 'wait') {
      // fire exactly the next timer, when one is scheduled
      const t = page.timers.next();
      if (t && t.ms < 10000) await page.timers.advance(t.at - page.clock.now);
      else ctx.ok(!wantSent.length, 'a retry is scheduled', 'retry missing');
    }
    await drain();
    const got = page.requests.slice(seen).filter((r) => !r.url.includes('/flags')).map((r) => normal(sent(r)));
    seen = page.requests.length;
    ctx.equal(got, json(wantSent), `users sent after ${op}`, 'user sent');
    wantSent.length = 0;
    ctx.equal(client.getUser(), model, `user held after ${op}`, 'user held');
    ctx.state(canon([model, objs, due, retryUser, failNext, released]), undefined);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'full product of field values over the three user sources on the real client against a merge oracle, and exhaustive exploration of set/get/fetch/mutate histories against a by-value model',
  level_note: 'all combinations and histories within the stated bounds; the sent request header and local evaluation are both observed',
  bounds: (t) => ({ fields: FIELDS.length, 'values per source': '5-6 per field, 7 property objects', depth: t === 'thorough' ? 5 : 4 }),
  assumptions: ['callers mutate fields and user properties, not values nested inside them'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    for (const field of FIELDS)
      for (const via of ['config', 'set'])
        for (const integration of [false, true]) {
          out.push({ name: `merge:${field}:${via}:${integration}`, params: { kind: 'table', field, via, integration } });
          if (!integration || T || field === 'user_id') if (T || ['user_id', 'country'].includes(field)) out.push({ name: `merge-props:${field}:${via}:${integration}`, params: { kind: 'table', field, via, integration, props: true } });
        }
    for (const pending of [false, true])
      for (const fetchOnStart of [true, false])
        for (const sameTick of [false, true]) out.push({ name: `alias:${pending}:${fetchOnStart}:${sameTick}`, params: { kind: 'alias', pending, fetchOnStart, sameTick, depth: T ? 5 : 4 }, shards: 4, shardDepth: 1 });
    for (const sameTick of [false, true]) out.push({ name: `retry:${sameTick}`, params: { kind: 'alias', retry: true, fetchOnStart: true, sameTick, depth: T ? 6 : 4 }, shards: 8, shardDepth: 1 });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    return p.kind === 'table' ? table(ctx, p, bundle) : alias(ctx, p, bundle);
  },
};
