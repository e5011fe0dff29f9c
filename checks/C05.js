'use strict';
// Which variant a key resolves to, from which source, and which exposure that access reports.
const { getBundle } = require('../lib/bundle');
const { Page, drain } = require('../lib/env');
const { canon } = require('../lib/explore');

const KEY = 'k';
const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));

// variants as the server sends them -> what the user of the SDK should see
const STORED = {
  absent: undefined,
  plain: { key: 'sv' },
  full: { key: 'sv', value: 'svv', payload: { p: 1 }, metadata: { experimentKey: 'exp-1', m: 1 } },
  default: { key: 'off', metadata: { default: true, experimentKey: 'exp-2' } },
  untracked: { key: 'sv', value: 'sv', metadata: { trackExposure: false } },
  valueOnly: { value: 'svv', metadata: { default: false } },
};
const INLINE = { none: undefined, null: null, string: 'inl', object: { key: 'inl', value: 'inlv' }, meta: { key: 'inl', expKey: 'exp-i', metadata: { m: 'i' } }, empty: '', untracked: { key: 'inl', metadata: { trackExposure: false } } };
const INITIAL = { absent: undefined, string: 'ini', object: { key: 'ini', value: 'iniv', payload: [1] }, valueOnly: { value: 'iniv' }, exp: { key: 'ini', expKey: 'exp-n' }, default: { key: 'ini', metadata: { default: true } } };
const INITIAL_SEEN = { absent: undefined, string: { key: 'ini', value: 'ini' }, object: { key: 'ini', value: 'iniv', payload: [1] }, valueOnly: { key: 'iniv', value: 'iniv' }, exp: { key: 'ini', expKey: 'exp-n', metadata: { experimentKey: 'exp-n' } }, default: { key: 'ini', metadata: { default: true } } };
const CONFIG = { none: undefined, empty: {}, object: { key: 'cfg', value: 'cfg' }, null: null };

const VAR = { on: { key: 'on', value: 'onv', payload: 7, metadata: { experimentKey: 'exp-f' } }, off: { key: 'off', metadata: { default: true } }, plain: { key: 'plain' } };
const COND = (u) => [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: [u] }]];
const DEP = (v) => [[{ selector: ['result', 'dep', 'key'], op: 'is', values: [v] }]];
const fl = (mode, segments, more) => ({ key: KEY, variants: VAR, segments, metadata: mode === undefined ? undefined : { evaluationMode: mode, deployed: true, ...more } });
const dep = { key: 'dep', variants: VAR, segments: [{ conditions: COND('u1'), variant: 'on' }, { variant: 'off' }], metadata: { evaluationMode: 'remote' } };
// [flags, evaluated variant as the SDK user sees it]
const md = (mode, more, v) => ({ evaluationMode: mode, deployed: true, ...more, ...((VAR[v] || {}).metadata || {}) });
const seen = (v, meta) => ({ ...VAR[v], ...(meta.experimentKey ? { expKey: meta.experimentKey } : {}), metadata: meta });
const FLAGS = {
  absent: { flags: [], local: undefined, ev: undefined, present: false },
  localOn: { flags: [fl('local', [{ conditions: COND('u1'), variant: 'on' }, { variant: 'off' }])], local: true, ev: seen('on', md('local', {}, 'on')), present: true },
  localOff: { flags: [fl('local', [{ conditions: COND('zz'), variant: 'on' }, { variant: 'off' }])], local: true, ev: seen('off', md('local', {}, 'off')), present: true },
  localNone: { flags: [fl('local', [{ conditions: COND('zz'), variant: 'on' }])], local: true, ev: undefined, present: true },
  localUntracked: { flags: [fl('local', [{ variant: 'plain' }], { trackExposure: false })], local: true, ev: seen('plain', md('local', { trackExposure: false }, 'plain')), present: true },
  localDep: { flags: [{ ...fl('local', [{ conditions: DEP('on'), variant: 'plain' }, { variant: 'off' }]), dependencies: ['dep'] }, dep], local: true, ev: seen('plain', md('local', {}, 'plain')), present: true },
  remoteOn: { flags: [fl('remote', [{ variant: 'on' }])], local: false, ev: seen('on', md('remote', {}, 'on')), present: true },
  remoteOff: { flags: [fl('remote', [{ variant: 'off' }])], local: false, ev: seen('off', md('remote', {}, 'off')), present: true },
  remoteNone: { flags: [fl('remote', [{ conditions: COND('zz'), variant: 'on' }])], local: false, ev: undefined, present: true },
  bare: { flags: [fl(undefined, [{ variant: 'plain' }])], local: false, ev: { key: 'plain', metadata: {} }, present: true },
};
function storedSeen(v) {
  if (!v) return undefined;
  const o = {};
  for (const k of ['key', 'value', 'payload', 'metadata']) if (v[k]) o[k] = v[k];
  if (v.metadata && v.metadata.experimentKey) o.expKey = v.metadata.experimentKey;
  return o;
}
const asVariant = (v) => (typeof v === 'string' ? { key: v, value: v } : v);
const nonEmpty = (v) => v && Object.keys(v).length > 0;

// Reference: [variant, source, hasDefault]
function resolve(source, stored, inline, initial, config, flag) {
  const chain = (steps) => {
    let dflt;
    for (const [name, v, isFallback, canBeDefault] of steps) {
      if (v === undefined || v === null) continue;
      if (canBeDefault && v.metadata && v.metadata.default) {
        dflt = v;
        continue;
      }
      if (name === 'config' && !nonEmpty(v)) continue;
      return { v: asVariant(v), name, fallback: isFallback, hasDefault: !!dflt };
    }
    return dflt ? { v: dflt, name: 'default', fallback: false, hasDefault: true } : { v: undefined, fallback: true, hasDefault: false };
  };
  const S = ['stored', stored, false, true];
  const N = ['initial', initial, source !== 'initialVariants', false];
  const I = ['inline', inline, true, false];
  const C = ['config', config, true, false];
  const E = ['evaluated', flag.ev, false, true];
  const remote = source === 'initialVariants' ? chain([N, S, I, C]) : chain([S, I, N, C]);
  if (flag.local || (!remote.v && flag.present)) return chain([E, I, ['initial', initial, true, false], C]);
  return remote;
}
function exposureFor(r, web, now, url, key = KEY) {
  const v = r.v;
  const meta = v && v.metadata;
  if (meta && meta.trackExposure === false) return undefined;
  if (r.fallback && !r.hasDefault) return undefined;
  const e = { flag_key: key };
  if (v && v.expKey) e.experiment_key = v.expKey;
  if (!r.fallback && !(meta && meta.default)) {
    if (v.key) e.variant = v.key;
    else if (v.value) e.variant = v.value;
  }
  if (meta) e.metadata = { ...meta };
  if (web) {
    e.time = now;
    if (e.metadata) e.metadata.url = url;
  }
  return e;
}

module.exports = {
  level: 'exploration',
  technique: 'exhaustive enumeration of source configurations on the real client, lockstep with a reference resolution model',
  level_note: 'every combination of the listed source contents; contents themselves are representatives of each kind',
  rule: 'a case is one combination of configured source, stored variant, inline fallback, initial variant, configured fallback, flag configuration, delivery (normal/web) and automatic exposure; distinct by construction',
  bounds: () => ({ source: 2, stored: Object.keys(STORED), inline: Object.keys(INLINE), initial: Object.keys(INITIAL), config: Object.keys(CONFIG), flag: Object.keys(FLAGS), delivery: ['normal', 'web'], automatic: [true, false], all: 'two keys, each stored/initial/flag over all kinds' }),
  assumptions: ['variants arrive through fetch() and flags through initialFlags'],
  scenarios: (tier) => {
    const out = [];
    for (const source of ['localStorage', 'initialVariants', 'default']) for (const flag of Object.keys(FLAGS)) for (const web of [false, true]) out.push({ name: `variant:${source}:${flag}:${web}`, params: { kind: 'variant', source, flag, web } });
    for (const source of ['localStorage', 'initialVariants']) for (const flag of Object.keys(FLAGS)) out.push({ name: `all:${source}:${flag}`, params: { kind: 'all', source, flag } });
    out.push({ name: 'nokey', params: { kind: 'nokey' } });
    for (const source of ['localStorage', 'initialVariants']) out.push({ name: `names:${source}`, params: { kind: 'names', source } });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    const URL0 = 'https://www.example.com/a?x=1';
    const setup = async (cfg, stored, web, apiKey = 'client-key-123456') => {
      const page = new Page({ url: URL0 });
      const { sdk } = bundle.load(page.scope);
      page.onRequest = (r) => r.respond(200, stored);
      const exposures = [];
      const tracked = [];
      const config = { ...cfg, pollOnStart: false, exposureTrackingProvider: { track: (e) => exposures.push(e) } };
      if (web) config.internalInstanceNameSuffix = 'web';
      const client = new sdk.ExperimentClient(apiKey, config);
      client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => (tracked.push(e), true) });
      await client.fetch({ user_id: 'u1', device_id: 'd1' });
      return { page, client, exposures, tracked };
    };
    if (p.kind === 'nokey') {
      for (const key of ['', undefined, null])
        for (const ini of Object.keys(INITIAL)) {
          const page = new Page({ url: URL0 });
          const { sdk } = bundle.load(page.scope);
          const exposures = [];
          let client;
          try {
            client = new sdk.ExperimentClient(key, { initialVariants: clone(ini === 'absent' ? {} : { [KEY]: INITIAL[ini] }), exposureTrackingProvider: { track: (e) => exposures.push(e) } });
          } catch (e) {
            continue; // a missing key may be rejected outright
          }
          ctx.evaluated(canon(['nokey', key, ini]));
          ctx.equal(client.variant(KEY, 'inl'), { value: undefined }, 'variant without an API key');
          ctx.equal(client.all(), {}, 'all without an API key');
          ctx.equal(exposures, [], 'exposures without an API key');
          client.setUser({ user_id: 'u' });
          await client.fetch();
          ctx.equal(page.requests.length, 0, 'requests without an API key');
        }
      return;
    }
    if (p.kind === 'names') {
      // keys that are also names of what every object has
      for (const key of ['constructor', 'toString', 'hasOwnProperty', 'length', 'a.b', '0'])
        for (const f of ['absent', 'localOn', 'localNone', 'remoteOn'])
          for (const s of ['absent', 'full'])
            for (const i of ['absent', 'object'])
              for (const n of ['none', 'string']) {
                const F = { ...FLAGS[f], flags: FLAGS[f].flags.map((x) => ({ ...x, key })) };
                const named = (v) => (v === undefined ? {} : { [key]: clone(v) });
                const { page, client, exposures, tracked } = await setup({ source: p.source, initialVariants: named(INITIAL[i]), initialFlags: JSON.stringify(F.flags) }, named(STORED[s]), false);
                const what = () => canon([p.source, key, f, s, i, n]);
                const r = resolve(p.source, storedSeen(STORED[s]), INLINE[n], INITIAL_SEEN[i], undefined, F);
                const want = exposureFor(r, false, page.clock.now, 0, key);
                ctx.evaluatedMany(1, 1);
                for (const nth of [1, 2]) {
                  const got = client.variant(key, INLINE[n]);
                  if (canon(got) !== canon(r.v || {})) ctx.report(`variant() for ${what()}: ${canon(got)}, expected ${canon(r.v || {})}`, 'names-variant');
                  if (canon(exposures) !== canon(want ? [want] : [])) ctx.report(`access ${nth} for ${what()}: exposures ${canon(exposures)}, expected ${canon(want)}`, 'names-exposure');
                  if (canon(tracked) !== canon(want ? [{ eventType: '$exposure', eventProperties: want }] : [])) ctx.report(`access ${nth} for ${what()}: integration events ${canon(tracked)}, expected ${canon(want)}`, 'names-event');
                }
                ctx.equal(Object.keys(client.all()).includes(key), !!(s !== 'absent' || i !== 'absent' || F.ev && F.local), `all() of ${what()}`, 'names-all');
              }
      return;
    }
    if (p.kind === 'all') {
      const other = { key: 'k2', variants: VAR, segments: [{ variant: 'plain' }], metadata: { evaluationMode: 'local' } };
      const F = FLAGS[p.flag];
      for (const s of Object.keys(STORED))
        for (const i of Object.keys(INITIAL))
          for (const s2 of ['absent', 'full', 'default'])
            for (const i2 of ['absent', 'string'])
              for (const f2 of [false, true]) {
                const stored = {};
                if (STORED[s]) stored[KEY] = STORED[s];
                if (STORED[s2]) stored.k2 = STORED[s2];
                const initial = {};
                if (INITIAL[i]) initial[KEY] = INITIAL[i];
                if (INITIAL[i2]) initial.k2 = INITIAL[i2];
                const flags = clone([...F.flags, ...(f2 ? [other] : [])]);
                const { client, exposures } = await setup({ source: p.source, initialVariants: clone(initial), initialFlags: JSON.stringify(flags) }, stored, false);
                const want = {};
                const put = (k, st, ini, ev) => {
                  const order = p.source === 'initialVariants' ? [st, ini] : [ini, st];
                  for (const v of [...order, ev]) if (v !== undefined) want[k] = v;
                };
                put(KEY, storedSeen(STORED[s]), INITIAL_SEEN[i], F.local ? F.ev : undefined);
                put('k2', storedSeen(STORED[s2]), INITIAL_SEEN[i2], f2 ? { ...VAR.plain, metadata: { evaluationMode: 'local' } } : undefined);
                ctx.evaluatedMany(1, 1);
                const what = () => canon([p, s, i, s2, i2, f2]);
                const got = client.all();
                if (canon(got) !== canon(want)) ctx.report(`all() for ${what()}: ${canon(got)}, expected ${canon(want)}`, 'all');
                for (const k of Object.keys(got)) delete got[k];
                if (canon(client.all()) !== canon(want)) ctx.report(`all() for ${what()}: editing the returned collection changed the client`, 'all-alias');
                if (exposures.length) ctx.report(`all() tracked exposures for ${what()}`, 'all-exposure');
              }
      return;
    }
    const F = FLAGS[p.flag];
    for (const s of Object.keys(STORED))
      for (const i of Object.keys(INITIAL))
        for (const c of Object.keys(CONFIG))
          for (const n of Object.keys(INLINE))
            for (const auto of [true, false]) {
              if (!auto && (n !== 'none' && n !== 'string')) continue;
              const what = () => canon({ ...p, stored: s, initial: i, config: c, inline: n, auto });
              const initial = INITIAL[i] === undefined ? (c === 'none' ? undefined : {}) : { [KEY]: INITIAL[i] };
              const cfg = { initialVariants: clone(initial), initialFlags: JSON.stringify(F.flags), automaticExposureTracking: auto };
              if (p.source !== 'default') cfg.source = p.source;
              if (c !== 'none') cfg.fallbackVariant = clone(CONFIG[c]);
              const { page, client, exposures, tracked } = await setup(cfg, STORED[s] ? { [KEY]: STORED[s] } : {}, p.web);
              const r = resolve(p.source, storedSeen(STORED[s]), INLINE[n], INITIAL_SEEN[i], CONFIG[c], F);
              const got = client.variant(KEY, clone(INLINE[n]));
              ctx.evaluatedMany(1, 1);
              if (canon(got) !== canon(r.v || {})) ctx.report(`variant() for ${what()}: ${canon(got)}, expected ${canon(r.v || {})} (${r.name})`, 'variant');
              const u0 = 'https://www.example.com/a';
              let want = auto ? exposureFor(r, p.web, page.clock.now, u0) : undefined;
              const check = (list, label) => {
                if (canon(exposures) !== canon(list)) ctx.report(`${label} for ${what()}: exposures ${canon(exposures)}, expected ${canon(list)}`, 'exposure');
                const ev = list.map((e) => ({ eventType: '$exposure', eventProperties: e }));
                if (canon(tracked) !== canon(ev)) ctx.report(`${label} for ${what()}: integration events ${canon(tracked)}, expected ${canon(ev)}`, 'integration-event');
              };
              check(want ? [want] : [], 'variant()');
              // the first exposure must not change afterwards, nor may the variant have been altered by tracking it
              page.clock.now += 5000;
              page.scope.history.pushState(null, '', '/b?y=2');
              exposures.length = 0;
              tracked.length = 0;
              const r2 = resolve(p.source, storedSeen(STORED[s]), undefined, INITIAL_SEEN[i], CONFIG[c], F);
              const again = client.variant(KEY, clone(INLINE[n]));
              if (canon(again) !== canon(r.v || {})) ctx.report(`second variant() for ${what()}: ${canon(again)}, expected ${canon(r.v || {})}`, 'variant-altered');
              check([], 'repeated variant()');
              // explicit exposure: a fresh flag identity, so it reports again
              client.setUser({ user_id: 'u1', device_id: 'd2' });
              client.setUser({ user_id: 'u1b', device_id: 'd2' });
              if (p.flag === 'localOn' || p.flag === 'localDep') {
                // targeting of these depends on the user id; keep the user
                client.setUser({ user_id: 'u1', device_id: 'd2' });
              }
              client.exposure(KEY);
              const e2 = exposureFor(r2, p.web, page.clock.now, 'https://www.example.com/b');
              if (p.flag === 'localOn' || p.flag === 'localDep') {
                // same user id: exposure sinks differ in what an identity is, so only the provider (exact identity) is compared
                if (canon(exposures) !== canon(e2 ? [e2] : [])) ctx.report(`exposure() for ${what()}: ${canon(exposures)}, expected ${canon(e2)}`, 'exposure-call');
              } else check(e2 ? [e2] : [], 'exposure()');
            }
  },
};
