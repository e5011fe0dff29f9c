'use strict';
// Persistence across reloads, isolation between instances, stored formats, and storage faults.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const b64 = (s) => Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8');
const flag = (key, v) => ({ key, variants: { [v]: { key: v } }, segments: [{ variant: v }], metadata: { evaluationMode: 'local' } });
const seenFlag = (v) => ({ key: v, metadata: { evaluationMode: 'local' } });
const KEY1 = 'client-aaaaaa111111';
const KEY2 = 'client-aaaaaa222222';
const INST = {
  one: { key: KEY1, cfg: {} },
  named: { key: KEY1, cfg: { instanceName: 'other' } },
  key2: { key: KEY2, cfg: {} },
  web: { key: KEY1, cfg: { internalInstanceNameSuffix: 'web' }, tabScoped: true },
};
const RESP = {
  full: { a: { key: 'a1', value: 'a1v', payload: { x: [1] }, metadata: { experimentKey: 'e' } }, b: { key: 'b1' } },
  more: { a: { key: 'a2' }, 'quote"\u2028é': { key: 'ü😀' } },
  none: {},
};
const seen = (v) => ({ ...v, ...(v.metadata && v.metadata.experimentKey ? { expKey: v.metadata.experimentKey } : {}) });
const isFlags = (r) => r.url.includes('/sdk/v2/flags');

const STORED_FORMATS = [
  ['v0 string', 'on', { key: 'on', value: 'on' }],
  ['v1 value only', { value: 'on' }, { key: 'on', value: 'on' }],
  ['v1 value and payload', { value: 'on', payload: { a: 1 } }, { key: 'on', value: 'on', payload: { a: 1 } }],
  ['v1 value, expKey', { value: 'on', expKey: 'x' }, { key: 'on', value: 'on', expKey: 'x', metadata: { experimentKey: 'x' } }],
  ['v2 key only', { key: 'k' }, { key: 'k' }],
  ['v2 full', { key: 'k', value: 'v', payload: [1], expKey: 'x', metadata: { experimentKey: 'y', z: 1 } }, { key: 'k', value: 'v', payload: [1], expKey: 'y', metadata: { experimentKey: 'y', z: 1 } }],
  ['v2 metadata and expKey', { key: 'k', expKey: 'x', metadata: { z: 1 } }, { key: 'k', expKey: 'x', metadata: { z: 1, experimentKey: 'x' } }],
  ['v2 metadata only', { key: 'k', metadata: { default: true } }, { key: 'k', metadata: { default: true } }],
  ['null', null, undefined],
];

// ---------------------------------------------------------------- histories
async function histories(ctx, p, bundle) {
  const device = new Device();
  let tab = new Tab(device);
  const state = {}; // per instance: {variants, flags, track}
  const blank = () => ({ variants: {}, flags: {}, track: undefined });
  for (const i of p.insts) state[i] = blank();
  let page;
  let clients;
  const open = () => {
    page = new Page({ device, tab });
    const { sdk } = bundle.load(page.scope);
    clients = {};
    for (const i of p.insts) clients[i] = sdk.Experiment.initialize(INST[i].key, { ...INST[i].cfg, pollOnStart: false, fetchOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: false });
  };
  const compare = (what) => {
    for (const i of p.insts) {
      const want = { ...state[i].variants };
      for (const k of Object.keys(state[i].flags)) want[k] = seenFlag(state[i].flags[k]);
      ctx.equal(clients[i].all(), want, `${what}: all() of ${i}`, 'all');
    }
  };
  open();
  for (let step = 0; step < p.depth; step++) {
    const acts = [['reload']];
    if (p.insts.includes('web')) acts.push(['newTab']);
    for (const i of p.insts) for (const o of p.ops) acts.push([o, i]);
    const [op, i] = ctx.pick(acts);
    const s = i && state[i];
    ctx.step(i ? `${op} on ${i}` : op);
    if (op === 'reload' || op === 'newTab') {
      page.kill();
      if (op === 'newTab') {
        tab = new Tab(device);
        for (const k of p.insts) if (INST[k].tabScoped) state[k] = blank();
      }
      open();
    } else if (op === 'clear') {
      clients[i].clear();
      s.variants = {};
    } else if (op === 'track' || op === 'notrack') {
      await clients[i].setTracksAssignment(op === 'track');
      s.track = op === 'track' ? 'track' : 'no-track';
    } else if (op.startsWith('fetch')) {
      const kind = op.slice(6);
      const opts = kind === 'partial' ? { flagKeys: ['b', 'c'] } : undefined;
      const n = page.requests.length;
      const done = clients[i].fetch({ user_id: 'u' }, opts);
      await drain();
      const r = page.requests[n];
      if (!r) ctx.fail(`${i}: no request`, 'no request');
      ctx.equal(r.headers['X-Amp-Exp-Track'], s.track, `${i}: tracking option of the request`, 'track');
      if (kind === 'fail') r.respond(500, 'x');
      else {
        const body = kind === 'partial' ? { c: { key: 'c3' } } : RESP[kind];
        r.respond(200, body);
        const next = kind === 'partial' ? { ...s.variants } : {};
        if (kind === 'partial') delete next.b;
        for (const k of Object.keys(body)) next[k] = seen(body[k]);
        s.variants = next;
      }
      await done;
    } else if (op.startsWith('flags')) {
      const kind = op.slice(6);
      const n = page.requests.length;
      clients[i].stop();
      const done = clients[i].start({ user_id: 'u' });
      await drain();
      const r = page.requests[n];
      if (!r || !isFlags(r)) ctx.fail(`${i}: no flags request`, 'no request');
      if (kind === 'fail') r.respond(500, 'x');
      else {
        const fs = kind === 'A' ? [flag('f', 'f1'), flag('a', 'fa')] : [flag('g', 'g1')];
        r.respond(200, fs);
        s.flags = {};
        for (const f of fs) s.flags[f.key] = Object.keys(f.variants)[0];
      }
      await done;
    }
    compare(ctx.trace[ctx.trace.length - 1]);
    ctx.state(canon(state) + (p.prune ? snap(page, [clients]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
  page.kill();
  open();
  compare('after a final reload');
}

// ---------------------------------------------------------------- torn and foreign stored text
async function torn(ctx, p, bundle) {
  const base = async () => {
    const device = new Device();
    const page = new Page({ device });
    const { sdk } = bundle.load(page.scope);
    page.onRequest = (r) => r.respond(200, isFlags(r) ? [flag('f', 'f1')] : RESP.full);
    const c = sdk.Experiment.initialize(KEY1, { pollOnStart: false });
    await c.setTracksAssignment(false);
    await c.start({ user_id: 'u' });
    c.exposure('a');
    return { device, page };
  };
  const { page } = await base();
  const keys = [...page.localRaw.keys()].sort();
  const texts = Object.fromEntries(keys.map((k) => [k, page.localRaw.get(k)]));
  // which collection a key carries is learnt by deleting it and looking what is gone
  const load = async (mut) => {
    const { device, page: pg } = await base();
    mut(pg.localRaw, pg.sessionRaw);
    pg.kill();
    const p2 = new Page({ device });
    const { sdk } = bundle.load(p2.scope);
    const c = sdk.Experiment.initialize(KEY1, { pollOnStart: false, retryFetchOnFailure: false, fallbackVariant: { key: 'fb' } });
    const tracked = [];
    c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => (tracked.push(e), true) });
    const all = c.all();
    const v = [c.variant('a'), c.variant('f'), c.variant('zz')];
    const done = c.fetch({ user_id: 'u2' });
    await drain();
    const r = p2.requests.find((x) => !isFlags(x));
    const track = r && r.headers['X-Amp-Exp-Track'];
    p2.requests.forEach((x) => x.respond(200, isFlags(x) ? [] : { q: { key: 'q' } }));
    await done;
    const after = c.all();
    c.clear();
    return { all, v, track, after };
  };
  const whole = await load(() => {});
  ctx.equal([whole.all, whole.track], [{ a: seen(RESP.full.a), b: RESP.full.b, f: seenFlag('f1') }, 'no-track'], 'reload without damage');
  const key = keys[p.i];
  if (!key) return;
  const without = await load((l) => l.delete(key));
  const cuts = [];
  for (let n = 0; n < texts[key].length; n++) cuts.push(texts[key].slice(0, n));
  for (const g of ['undefined', '{', 'NaN', '[1,', 'x'.repeat(50), '\u0000', '{"a":}']) cuts.push(g);
  for (const t of cuts) {
    ctx.step(`${key} = ${JSON.stringify(t).slice(0, 60)}`);
    const got = await load((l) => l.set(key, t));
    ctx.state(canon([key, t]));
    if (canon(got) !== canon(without)) ctx.fail(`stored text of ${key} cut to ${JSON.stringify(t)}: ${canon(got)}, expected as if absent: ${canon(without)}`, 'torn');
  }
}

async function formats(ctx, p, bundle) {
  const NS = (() => {
    // find the storage key of the variants by looking where they are stored
    return async () => {
      const device = new Device();
      const page = new Page({ device });
      const { sdk } = bundle.load(page.scope);
      page.onRequest = (r) => r.respond(200, { marker: { key: 'MARK' } });
      const c = sdk.Experiment.initialize(KEY1, {});
      await c.fetch({ user_id: 'u' });
      for (const [k, v] of page.localRaw) if (v.includes('MARK')) return k;
      ctx.fail('fetched variants are not persisted', 'not persisted');
    };
  })();
  const ns = await NS();
  if (ns !== 'amp-exp-$default_instance-111111') ctx.fail(`variants are persisted under ${ns}: pages upgrading from earlier versions lose theirs`, 'namespace');
  for (const [n1, s1, w1] of STORED_FORMATS)
    for (const [n2, s2, w2] of STORED_FORMATS) {
      const device = new Device();
      const page = new Page({ device });
      page.localRaw.set(ns, JSON.stringify({ x: s1, y: s2 }));
      const { sdk } = bundle.load(page.scope);
      const c = sdk.Experiment.initialize(KEY1, {});
      ctx.step(`${n1} / ${n2}`);
      ctx.state(canon([s1, s2]));
      const want = {};
      if (w1) want.x = w1;
      if (w2) want.y = w2;
      ctx.equal(c.all(), want, `stored as ${n1} and ${n2}`, 'format');
    }
}

// ---------------------------------------------------------------- faults
// A fixed two-page life; a fault plan says which storage operations fail.
async function faults(ctx, p, bundle) {
  const life = async (plan) => {
    const device = new Device();
    const tab = new Tab(device);
    let n = 0;
    const log = [];
    const op = (kind, area, k) => {
      const i = n++;
      // removing a key never fails by itself
      if (kind !== 'remove' && plan(i, kind, area, k)) {
        log.push(i);
        throw Object.assign(new Error('QuotaExceededError'), { name: 'QuotaExceededError' });
      }
    };
    device.log = (kind, k) => {
      const [area, what] = kind.split('.');
      if (area === 'local' || area === 'session') op(what, area, k);
    };
    const out = [];
    const thrown = [];
    const call = (name, f) => {
      try {
        return f();
      } catch (e) {
        thrown.push(`${name}: ${e.message}`);
      }
    };
    const acall = async (name, f) => {
      try {
        return await f();
      } catch (e) {
        thrown.push(`${name}: ${e && e.message}`);
      }
    };
    for (const pg of [0, 1]) {
      const page = new Page({ device, tab, noStorage: p.noStorage === 'undefined' });
      if (p.noStorage === 'accessor')
        for (const s of ['localStorage', 'sessionStorage'])
          Object.defineProperty(page.scope, s, {
            configurable: true,
            get: () => {
              throw new Error('SecurityError');
            },
          });
      const { sdk } = bundle.load(page.scope);
      page.onRequest = (r) => r.respond(200, isFlags(r) ? [flag('f', 'f' + pg)] : { a: { key: 'a' + pg }, b: { key: 'b', metadata: p.web ? { deliveryMethod: 'web' } : {} } });
      const exposures = [];
      const events = [];
      const c = call('construct', () => sdk.Experiment.initialize(KEY1, { pollOnStart: false, exposureTrackingProvider: { track: (e) => exposures.push([e.flag_key, e.variant]) }, ...(p.web ? { internalInstanceNameSuffix: 'web' } : {}) }));
      if (!c) return { thrown, out, n };
      const loaded = call('all', () => c.all());
      call('variant', () => c.variant('a'));
      call('addPlugin', () => c.addPlugin({ type: 'integration', getUser: () => ({ device_id: 'd' }), track: (e) => (events.push([e.eventProperties.flag_key, e.eventProperties.variant]), true) }));
      await acall('start', () => c.start({ user_id: 'u' }));
      const after = [call('all', () => c.all()), call('variant a', () => c.variant('a')), call('variant b', () => c.variant('b')), call('variant f', () => c.variant('f'))];
      await acall('fetch', () => c.fetch({ user_id: 'u' }, { flagKeys: ['b'] }));
      after.push(call('all', () => c.all()));
      await acall('setTracksAssignment', () => c.setTracksAssignment(true));
      call('exposure', () => c.exposure('b'));
      if (pg === 1) {
        call('clear', () => c.clear());
        after.push(call('all', () => c.all()));
      }
      for (const r of page.requests) if (!isFlags(r)) ctx.state(canon([pg, r.headers]));
      out.push({ loaded, after, exposures, events });
      // timers (event queue retries) must not throw either
      await acall('timers', () => page.timers.advance(5000));
      page.kill();
    }
    return { thrown, out, n };
  };
  const good = await life(() => false);
  if (good.thrown.length) ctx.fail('without faults: ' + good.thrown.join('; '), 'throws');
  const plans = [];
  if (p.noStorage) plans.push(['no storage', () => false]);
  else {
    for (let i = 0; i < good.n; i++) plans.push([`operation ${i} fails`, (j) => j === i]);
    for (const kind of ['get', 'set', 'any'])
      for (let from = 0; from < good.n; from++) plans.push([`every ${kind} fails from operation ${from}`, (j, k) => j >= from && (kind === 'any' || k === kind)]);
    for (let from = 0; from < good.n; from++) plans.push([`quota exhausted from operation ${from}`, (j, k, area, key) => j >= from && k === 'set' && key !== 'EXP_test']);
    if (p.pairs) for (let i = 0; i < good.n; i++) for (let k = i + 1; k < good.n; k++) plans.push([`operations ${i} and ${k} fail`, (j) => j === i || j === k]);
  }
  const strip = (o) => (o ? o.after : o);
  for (let i = 0; i < plans.length; i++) {
    if (i % p.of !== p.shard) continue;
    const [name, plan] = plans[i];
    ctx.step(name);
    const r = await life(plan);
    ctx.state(name);
    if (r.thrown.length) ctx.fail(`${name}: ${r.thrown.join('; ')}`, 'throws');
    for (const pg of [0, 1]) {
      if (canon(strip(r.out[pg])) !== canon(strip(good.out[pg]))) ctx.fail(`${name}: page ${pg} served ${canon(strip(r.out[pg]))}, expected ${canon(strip(good.out[pg]))}`, 'served');
      if (canon(r.out[pg].exposures.slice(-3)) !== canon(good.out[pg].exposures.slice(-3))) ctx.fail(`${name}: page ${pg} exposures ${canon(r.out[pg].exposures)}, expected ${canon(good.out[pg].exposures)}`, 'exposures');
      for (const k of Object.keys(r.out[pg].loaded)) if (canon(r.out[pg].loaded[k]) !== canon(good.out[pg].loaded[k])) ctx.fail(`${name}: page ${pg} loaded ${k} as ${canon(r.out[pg].loaded[k])}`, 'loaded');
    }
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of operation/reload histories on the real client against a storage model, with every truncation and every storage-operation failure injected',
  level_note: 'all histories within depth; all torn-write prefixes; all single (thorough: pairs of) and all persistent storage failures of a two-page life',
  bounds: (t) => ({ historyDepth: t === 'thorough' ? 6 : 5, instances: Object.keys(INST), cuts: 'every prefix of every stored text', faults: 'each operation alone; get/set/any/quota failing from each operation on; storage missing or inaccessible' + (t === 'thorough' ? '; each pair of operations' : '') }),
  assumptions: ['a storage write is atomic per key except that its text may be cut short'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    out.push({ name: 'history:one', params: { kind: 'history', insts: ['one'], ops: ['fetch:full', 'fetch:more', 'fetch:none', 'fetch:partial', 'fetch:fail', 'clear', 'notrack', 'track', 'flags:A', 'flags:B', 'flags:fail'], depth: T ? 5 : 4 }, shards: 16, shardDepth: 2 });
    out.push({ name: 'history:one-deep', params: { kind: 'history', insts: ['one'], ops: ['fetch:full', 'fetch:partial', 'fetch:fail', 'clear', 'notrack', 'flags:A', 'flags:B'], depth: T ? 9 : 7, prune: true }, shards: 9, shardDepth: 2 });
    out.push({ name: 'history:many', params: { kind: 'history', insts: ['one', 'named', 'key2', 'web'], ops: ['fetch:full', 'clear', 'flags:A'], depth: T ? 4 : 3 }, shards: 14, shardDepth: 1 });
    out.push({ name: 'history:many-deep', params: { kind: 'history', insts: ['one', 'named', 'key2', 'web'], ops: ['fetch:more', 'notrack', 'flags:B', 'clear'], depth: T ? 5 : 4, prune: true }, shards: 18, shardDepth: 1 });
    for (let i = 0; i < 8; i++) out.push({ name: 'torn:' + i, params: { kind: 'torn', i } });
    out.push({ name: 'formats', params: { kind: 'formats' } });
    for (const web of [false, true]) {
      for (let i = 0; i < 8; i++) out.push({ name: `faults:${web}:${i}`, params: { kind: 'faults', web, shard: i, of: 8, pairs: T } });
      for (const noStorage of ['undefined', 'accessor']) out.push({ name: `faults:${web}:${noStorage}`, params: { kind: 'faults', web, noStorage, shard: 0, of: 1 } });
    }
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    return { history: histories, torn, formats, faults }[p.kind](ctx, p, bundle);
  },
};
