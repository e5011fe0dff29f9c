'use strict';
// Identity store: content, notifications, isolation.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');
const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));

const VALUES = [1, '1', null, true, [1], [1, 2], [], {}, { a: 1 }, { a: 2 }, { a: 1, b: 2 }, { a: { b: [1, { c: 1 }] } }, { a: { b: [1, { c: 2 }] } }, [[1], [2]], [[1], [3]], { 0: 1 }, 'a', '', false, 0];

// one edit = [label, apply to editor, apply to model identity]
const EDITS = {
  userA: ['setUserId a', (e) => e.setUserId('a'), (m) => (m.userId = 'a')],
  userB: ['setUserId b', (e) => e.setUserId('b'), (m) => (m.userId = 'b')],
  userNone: ['setUserId undefined', (e) => e.setUserId(undefined), (m) => (m.userId = undefined)],
  device: ['setDeviceId d', (e) => e.setDeviceId('d'), (m) => (m.deviceId = 'd')],
  optOut: ['setOptOut', (e) => e.setOptOut(true), (m) => (m.optOut = true)],
  props: ['setUserProperties', (e, k) => e.setUserProperties((k.passed = { p: 1, n: { x: [1] } })), (m) => (m.userProperties = { p: 1, n: { x: [1] } })],
  set: ['$set', (e) => e.updateUserProperties({ $set: { p: 2, q: [1] } }), (m) => (m.userProperties = { ...m.userProperties, p: 2, q: [1] })],
  setSame: ['$set p 1', (e) => e.updateUserProperties({ $set: { p: 1 } }), (m) => (m.userProperties = { ...m.userProperties, p: 1 })],
  unset: ['$unset', (e) => e.updateUserProperties({ $unset: { p: '-', zz: '-' } }), (m) => { m.userProperties = { ...m.userProperties }; delete m.userProperties.p; }],
  clear: ['$clearAll', (e) => e.updateUserProperties({ $clearAll: {} }), (m) => (m.userProperties = {})],
  multi: ['$clearAll+$set', (e) => e.updateUserProperties({ $clearAll: {}, $set: { z: 1 } }), (m) => (m.userProperties = { z: 1 })],
  other: ['$add (ignored)', (e) => e.updateUserProperties({ $add: { p: 5 } }), (m) => (m.userProperties = { ...m.userProperties })],
};
// value equality as a user sees it: a key holding undefined is not the same as no key, types matter
function same(a, b) {
  if (typeof a !== typeof b) return false;
  if (a === null || b === null) return a === b;
  if (typeof a !== 'object') return a === b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a).sort();
  const kb = Object.keys(b).sort();
  return ka.length === kb.length && ka.every((k, i) => k === kb[i] && same(a[k], b[k]));
}

async function run(ctx, p, bundle) {
  const page = new Page();
  const { con } = bundle.load(page.scope);
  if (p.kind === 'values') {
    // every pair of values as successive property values and successive direct sets
    VALUES.forEach((a, i) => VALUES.forEach((b, j) => {
      for (const how of ['edit', 'set', 'whole']) {
        const store = con.AnalyticsConnector.getInstance(`v${i}.${j}.${how}`).identityStore;
        let n = 0;
        const put = (v) => {
          v = clone(v);
          if (how === 'edit') store.editIdentity().updateUserProperties({ $set: { k: v } }).commit();
          else if (how === 'set') store.setIdentity({ userId: 'u', userProperties: { k: v } });
          else store.editIdentity().setUserProperties({ deep: { k: v } }).commit();
        };
        put(a);
        store.addIdentityListener(() => n++);
        put(b);
        ctx.step(`${how} ${canon(a)} -> ${canon(b)}`);
        ctx.state(canon([how, i, j]));
        if (n !== (same(a, b) ? 0 : 1)) ctx.fail(`${how}: ${canon(a)} then ${canon(b)} notified ${n} times`, 'notified');
      }
    }));
    return;
  }
  const store = con.AnalyticsConnector.getInstance('x').identityStore;
  let model = { userProperties: {} };
  const listeners = [];
  const calls = [];
  const fns = [0, 1].map((i) => (id) => {
    calls.push([i, clone(id)]);
    if (!p.mutate) return;
    spoil(id.userProperties);
    id.userId = 'mutated';
  });
  let editor = null; // an open editor that may be committed repeatedly
  let editing = null;
  let passed = { passed: undefined };
  const spoil = (props) => {
    if (!props) return;
    delete props.p;
    props.mutated = true;
  };
  const commit = (next, label) => {
    const want = same(model, next) ? [] : listeners.map((i) => [i, clone(next)]);
    model = next;
    return want;
  };
  for (let step = 0; step < p.depth; step++) {
    const acts = p.edits.map((e) => ['edit', e]);
    acts.push(['commit'], ['direct', 0], ['direct', 1]);
    if (editor) acts.push(['fresh']);
    if (p.listeners) for (const i of [0, 1]) acts.push(listeners.includes(i) ? ['remove', i] : ['add', i]);
    if (p.mutate) acts.push(['mutate']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(op + ' ' + (arg === undefined ? '' : arg));
    calls.length = 0;
    let want = [];
    if (op === 'edit') {
      if (!editor) {
        editor = store.editIdentity();
        editing = { ...model, userProperties: { ...model.userProperties } };
      }
      EDITS[arg][1](editor, passed);
      EDITS[arg][2](editing);
    } else if (op === 'commit') {
      if (!editor) {
        editor = store.editIdentity();
        editing = { ...model, userProperties: { ...model.userProperties } };
      }
      want = commit({ ...editing });
      editor.commit();
    } else if (op === 'fresh') {
      editor = null;
    } else if (op === 'direct') {
      const id = arg ? { userId: 'x', deviceId: 'y', userProperties: { p: 1 } } : { deviceId: 'd' };
      want = commit(clone(id));
      store.setIdentity(id);
      if (p.mutate) {
        id.userId = 'mutated';
        delete id.deviceId;
        spoil(id.userProperties);
      }
    } else if (op === 'add') {
      store.addIdentityListener(fns[arg]);
      listeners.push(arg);
    } else if (op === 'remove') {
      store.removeIdentityListener(fns[arg]);
      listeners.splice(listeners.indexOf(arg), 1);
    } else if (op === 'mutate') {
      const got = store.getIdentity();
      got.userId = 'mutated';
      got.deviceId = 'mutated';
      spoil(got.userProperties);
      got.userProperties = { mutated: true };
      if (!editor && passed.passed) {
        // what an editor in use was given is its own
        spoil(passed.passed);
        passed.passed = undefined;
      }
    }
    if (!same(clone(store.getIdentity()), clone(model))) ctx.fail(`identity is ${canon(store.getIdentity())}, expected ${canon(model)}`, 'identity');
    ctx.equal(calls, want, 'listener calls', 'notified');
    if (passed.passed && canon(passed.passed) !== canon({ p: 1, n: { x: [1] } })) ctx.fail(`the caller's own user properties object was changed to ${canon(passed.passed)}`, 'caller object');
    ctx.state(canon([model, editor ? editing : null, listeners]) + (p.prune ? canon([store.getIdentity(), (store.listeners && store.listeners.size) || 0]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of edit/commit/listener histories on the real identity store against a model',
  level_note: 'all histories within depth; all ordered pairs of 20 property values',
  bounds: (t) => ({ depth: t === 'thorough' ? '6 in full, 8 with state matching' : '4 in full, 6 with state matching', edits: Object.keys(EDITS), valuePairs: VALUES.length ** 2 }),
  assumptions: ['listeners do not commit from inside a notification', 'objects inside the user properties are not mutated by their owner after being committed'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const all = Object.keys(EDITS);
    return [
      { name: 'values', params: { kind: 'values' } },
      { name: 'edits', params: { kind: 'h', edits: all, listeners: true, mutate: true, depth: T ? 5 : 4 }, shards: 16, shardDepth: 2 },
      { name: 'deep', params: { kind: 'h', edits: ['userA', 'userB', 'props', 'set', 'unset', 'clear', 'setSame'], listeners: true, mutate: true, depth: T ? 8 : 6, prune: true }, shards: 16, shardDepth: 2 },
    ];
  },
  async prepare() {
    return getBundle({ con: 'analytics-connector/src/index.ts' });
  },
  run,
};
