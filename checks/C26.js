'use strict';
// Behavioural targeting: what a visitor did, as recorded on the device, and which behaviours it matches.
const { getBundle } = require('../lib/bundle');
const { TagPage } = require('../lib/tagenv');
const { Device } = require('../lib/env');
const { snapRel } = require('../lib/snap');

const { KEY, STORE, MIN, HOUR, T, cond, not, prop, CMP, holds, mentions } = require('../lib/behaviors');

const RULES = {
  flagA: {
    twice: [[cond('a', 'greater or equal', 2, [1, 'hour'])]],
    once: [[cond('a', 'is', 1, 's')]],
    filtered: [[cond('a', 'greater', 0, [1, 'day'], [prop('p', 'is', 'x')]), cond('b', 'less or equal', 1, 's')]],
  },
  flagB: {
    never: [[not(cond('a', 'greater or equal', 1, 's'))], [cond('b', 'greater', 1, [1])]],
    other: [[cond('b', 'is not', 1, [1, 'day']), cond('a', 'less', 2, 's')]],
  },
};

class World {
  constructor(ctx, p, bundle, rules) {
    Object.assign(this, { ctx, p, bundle, rules });
    this.device = new Device();
    this.events = []; // what the running page remembers
    this.saved = []; // what the device holds
    this.session = null;
    this.last = null;
    this.nextSession = 0;
    this.due = null;
    this.matched = {};
    this.uuids = new Map();
    this.n = 0;
  }
  get now() {
    return this.device.clock.now;
  }
  get stored() {
    const raw = this.page.localRaw.get(STORE);
    return raw === undefined ? undefined : JSON.parse(raw);
  }
  current() {
    if (this.session !== null && this.now - this.last > T) this.session = null;
    return this.session;
  }
  load() {
    if (this.p.cookies === 'blocked') {
      this.device.onCookieSet = () => false;
      this.session = null;
    }
    this.page = new TagPage({ device: this.device, url: 'https://www.example.com/' });
    this.m = this.bundle.load(this.page.scope);
    this.events = this.saved.slice();
    this.due = null;
    this.mgr = new this.m.bt.BehavioralTargetingManager(KEY, this.rules, this.p.timeout);
    this.evaluate(null);
  }
  evaluate(type) {
    this.current();
    for (const [f, ids] of Object.entries(this.rules))
      for (const [id, r] of Object.entries(ids)) if (type === null || mentions(r, type)) this.matched[`${f}.${id}`] = holds(r, this);
  }
  track(type, props, reuse) {
    const o = reuse || { ...props };
    this.mgr.trackEvent(type, o);
    if (this.current() === null) this.session = this.nextSession++;
    this.last = this.now;
    if (Object.values(this.rules).some((ids) => Object.values(ids).some((r) => mentions(r, type)))) {
      this.events.push({ type, at: this.now, session: this.session, props: { ...props }, n: this.n++ });
      if (this.events.length > 500) this.events = this.events.slice(-500);
      this.due = this.now + 500;
    }
    this.evaluate(type);
  }
  save() {
    if (this.due !== null) this.saved = this.events.slice();
    this.due = null;
  }
  async wait(ms) {
    const end = this.now + ms;
    await this.page.timers.advance(ms);
    if (this.due !== null && this.due <= end) this.save();
  }
  hide() {
    this.page.scope.document.visibilityState = 'hidden';
    this.page.docDispatch('visibilitychange');
    this.page.scope.document.visibilityState = 'visible';
    this.page.docDispatch('visibilitychange');
    this.save();
  }
  leave(clean) {
    if (clean) {
      this.page.windowDispatch('beforeunload');
      this.save();
    }
    this.page.kill();
    this.load();
  }
  check(op) {
    const { ctx } = this;
    const got = {};
    for (const [f, ids] of Object.entries(this.rules)) for (const id of Object.keys(ids)) got[`${f}.${id}`] = !!(this.mgr.getMatchedBehaviors().get(f) && this.mgr.getMatchedBehaviors().get(f).has(id));
    for (const k of Object.keys(got)) if (got[k] !== this.matched[k]) ctx.fail(`behaviour ${k} ${JSON.stringify(this.rules[k.split('.')[0]][k.split('.')[1]])} ${got[k] ? 'matched' : 'not matched'} after ${op}`, 'matched behaviours');
    for (const [f, set] of this.mgr.getMatchedBehaviors()) for (const id of set) ctx.ok(this.rules[f] && this.rules[f][id] && set.size, `unknown behaviour ${f}.${id} after ${op}`, 'matched behaviours');
    const st = this.stored;
    const list = st ? st.events : [];
    const sess = new Map();
    const names = new Map();
    const view = (arr, s, m) => arr.map((e) => [e.event_type || e.type, e.timestamp || e.at, e.properties || e.props, (m.has(s(e)) ? 0 : m.set(s(e), m.size), m.get(s(e)))]);
    ctx.equal(view(list, (e) => e.session_id, sess), view(this.saved, (e) => e.session, names), `stored events after ${op}`, 'stored events');
    this.saved.forEach((e, i) => {
      const u = list[i].uuid;
      ctx.ok(typeof u === 'string' && u, `stored event without identity after ${op}`, 'identity');
      if (this.uuids.has(e.n)) ctx.equal(u, this.uuids.get(e.n), `identity of a stored event after ${op}`, 'identity');
      else {
        ctx.ok(![...this.uuids.values()].includes(u), `two events share an identity after ${op}`, 'identity');
        this.uuids.set(e.n, u);
      }
    });
  }
  state(rest) {
    const now = this.now;
    const rel = (l) => l.map((e) => [e.type, now - e.at, e.session, e.props]);
    this.ctx.state(
      [rel(this.events), rel(this.saved), this.session, this.last === null ? null : now - this.last, this.due === null ? null : this.due - now, this.matched, snapRel(this.page, [this.m.__vars(), this.mgr])].map((x) => JSON.stringify(x)).join('|'),
      rest,
    );
  }
}

// everything one visitor can do over several pages
async function runHistory(ctx, p, bundle) {
  const w = new World(ctx, p, bundle, RULES);
  w.load();
  w.check('load');
  const shared = {};
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(p.ops);
    ctx.step(op);
    const [k, a] = op.split(' ');
    if (k === 'track') w.track(a, {});
    else if (k === 'trackx') w.track(a, { p: 'x', n: 1 });
    else if (k === 'tracky') w.track(a, { p: 'y' });
    else if (k === 'reuse') {
      // the site keeps one properties object and changes it between events
      shared.p = a;
      w.track('a', { p: a }, shared);
      shared.p = 'z';
    } else if (k === 'wait') await w.wait({ short: 300, T, T1: T + 1, '23h': 23 * HOUR }[a]);
    else if (k === 'hide') w.hide();
    else if (k === 'reload') w.leave(true);
    else if (k === 'crash') w.leave(false);
    else if (k === 'restart') {
      // the browser is closed: session cookies go
      w.page.windowDispatch('beforeunload');
      w.save();
      w.page.kill();
      w.device.jar.list = w.device.jar.list.filter((c) => c.expires !== null);
      w.session = null;
      w.load();
    } else if (k === 'uncookie') {
      w.device.jar.list = [];
      // the page still knows its session, and has no reason to think it over
      w.forgot = true;
    }
    w.check(op);
    w.state(p.depth - d);
  }
}

// every kind of condition, after every short history
async function runConditions(ctx, p, bundle) {
  const rules = {};
  const filters = [undefined, [prop('p', 'is', 'x')], [prop('p', 'is not', 'x')], [prop('p', 'is', 'x'), prop('q', 'is', '1')]];
  const windows = ['s', [1, 'hour'], [1], [2, 'hour'], [1, 'day']];
  let i = 0;
  for (const op of Object.keys(CMP))
    for (const win of windows)
      for (const value of [0, 1, 2])
        for (const fp of filters) {
          const c = cond('a', op, value, win, fp);
          const neg = i % 2;
          rules[`f${i % 7}`] = rules[`f${i % 7}`] || {};
          rules[`f${i % 7}`][`b${i++}`] = [[neg ? not(c) : c]];
        }
  // disjunctions of conjunctions
  const A = cond('a', 'greater', 0, 's');
  const B = cond('b', 'greater', 0, 's');
  const C = cond('a', 'is', 2, [1, 'hour']);
  const D = cond('b', 'is', 0, [2, 'hour']);
  rules.dnf = { or: [[A], [B]], and: [[A, B]], mix: [[A, not(B)], [C, D]], mix2: [[not(A), B], [not(C), not(D)], [A, B, C]], empty: [], unit: [[]] };
  const w = new World(ctx, p, bundle, rules);
  w.load();
  for (let d = 0; d < p.depth; d++) {
    const [type, props] = ctx.pick([['a', {}], ['a', { p: 'x' }], ['a', { p: 'x', q: 1 }], ['a', { p: 'y' }], ['b', {}]]);
    ctx.step(`${type} ${JSON.stringify(props)}`);
    w.track(type, props);
    w.check('track');
    const gap = ctx.pick([0, T, T + 1, HOUR]);
    if (gap) await w.wait(gap);
  }
  w.leave(true);
  ctx.step('reload');
  w.check('reload');
  ctx.state([w.events.map((e) => [e.type, w.now - e.at, e.session, e.props])]);
}

// what an earlier version or another program left in the store, and its limit
async function runStore(ctx, p, bundle) {
  const w = new World(ctx, p, bundle, RULES);
  w.page = new TagPage({ device: w.device, url: 'https://www.example.com/' });
  const old = ctx.pick(p.olds);
  ctx.step(`stored: ${old}`);
  const rec = (i, extra) => ({ id: i, event_type: i % 3 ? 'a' : 'b', timestamp: w.now - 2 * HOUR - (1000 - i), session_id: 'old', properties: { i }, ...extra });
  const good = (k, from = 0) => Array.from({ length: k }, (_, i) => rec(i + from, { uuid: `u-${i + from}` }));
  const put = (v) => w.page.localRaw.set(STORE, typeof v === 'string' ? v : JSON.stringify(v));
  let keep = [];
  if (old === 'garbage') put('{not json');
  else if (old === 'null') put('null');
  else if (old === 'array') put([1, 2]);
  else if (old === 'no events') put({ nextId: 3 });
  else if (old === 'no counter') put({ events: good(2) });
  else if (/^\d+$/.test(old)) put({ events: (keep = good(Number(old))), nextId: Number(old) });
  else if (old === 'no uuid') {
    keep = [rec(0, {}), rec(1, { uuid: '' }), rec(2, { uuid: 5 }), rec(3, { uuid: 'u-3' })];
    put({ events: keep, nextId: 4 });
  }
  w.saved = keep.map((e) => ({ type: e.event_type, at: e.timestamp, session: 'old', props: e.properties, n: w.n++ }));
  keep.forEach((e, i) => typeof e.uuid === 'string' && e.uuid && w.uuids.set(i, e.uuid));
  w.load();
  const foreign = ['garbage', 'null', 'array', 'no events', 'no counter'].includes(old);
  let touched = false;
  const check = (op) => {
    if (foreign && !touched) {
      // unusable content counts as nothing stored; it stays until something is to be stored
      const saved = w.saved;
      void saved;
      const got = {};
      for (const [f, ids] of Object.entries(RULES)) for (const id of Object.keys(ids)) got[`${f}.${id}`] = !!(w.mgr.getMatchedBehaviors().get(f) && w.mgr.getMatchedBehaviors().get(f).has(id));
      ctx.equal(got, w.matched, `matched behaviours after ${op}`, 'matched behaviours');
    } else w.check(op);
  };
  check('load');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(['track', 'tracky', 'hide', 'reload', 'crash', 'wait']);
    ctx.step(op);
    if (op === 'track') w.track('a', { p: 'x' });
    else if (op === 'tracky') w.track('b', {});
    else if (op === 'hide') w.hide();
    else if (op === 'reload') w.leave(true);
    else if (op === 'crash') w.leave(false);
    else await w.wait(300);
    if (w.saved.length !== keep.length || w.saved.some((e) => e.n >= keep.length)) touched = true;
    check(op);
    w.state(p.depth - d);
  }
}

// a device that refuses to store: targeting goes on in memory, and what could not be stored is stored with the next event
async function runFault(ctx, p, bundle) {
  const w = new World(ctx, p, bundle, RULES);
  let fail = false;
  w.device.onSet = (area, k) => {
    if (fail && k === STORE) throw new Error('quota');
  };
  w.load();
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(['track a', 'track b', 'fail', 'heal', 'wait', 'hide', 'reload']);
    ctx.step(op);
    if (op === 'fail') fail = true;
    else if (op === 'heal') fail = false;
    else if (op.startsWith('track')) w.track(op.split(' ')[1], {});
    else {
      const before = w.saved;
      const due = w.due;
      const mem = w.events;
      if (op === 'wait') await w.wait(500);
      else if (op === 'hide') w.hide();
      else {
        w.page.windowDispatch('beforeunload');
        w.save();
        if (fail) w.saved = before;
        w.page.kill();
        w.load();
        w.lost = false;
      }
      if (fail && op !== 'reload') {
        w.saved = before;
        if (due !== null) w.lost = mem.length > before.length;
      } else if (op !== 'reload' && w.due === null && due !== null) w.lost = false;
    }
    if (op.startsWith('track')) w.check(op);
    else if (w.lost && !fail) {
      // an implementation may also try again before the next event
      const n = (w.stored || { events: [] }).events.length;
      ctx.ok(n === w.saved.length || n === w.events.length, `stored events after ${op}: ${n}`, 'stored events');
      if (n === w.events.length) {
        w.saved = w.events.slice();
        w.lost = false;
      }
    } else w.check(op);
    ctx.state([w.events.length, w.saved.length, fail, w.due === null, w.lost]);
  }
}

// with a consent requirement: nothing recorded before the visitor decides is stored unless the decision is a grant,
// and nothing recorded before or during a refusal is stored by a later grant
async function runConsent(ctx, p, bundle) {
  const w = new World(ctx, p, bundle, RULES);
  const first = new TagPage({ device: w.device, url: 'https://www.example.com/' });
  const old = ctx.choose(2, 'earlier visit')
    ? [
        { id: 1, uuid: 'u-1', event_type: 'a', timestamp: w.now - 1000, session_id: 'old', properties: { p: 'x' } },
        { id: 2, uuid: 'u-2', event_type: 'b', timestamp: w.now - 500, session_id: 'old', properties: {} },
      ]
    : [];
  ctx.step(`${old.length} events of an earlier visit`);
  if (old.length) first.localRaw.set(STORE, JSON.stringify({ events: old, nextId: 3 }));
  w.saved = old.map((e, i) => (w.uuids.set(i, e.uuid), { type: e.event_type, at: e.timestamp, session: 'old', props: e.properties, n: w.n++ }));
  let status = ctx.pick(['pending', 'granted']);
  ctx.step(`consent ${status}`);
  w.page = new TagPage({ device: w.device, url: 'https://www.example.com/' });
  w.m = bundle.load(w.page.scope);
  const gate = w.m.gate.consentGate;
  gate.required = true;
  if (status === 'granted') gate.manager.setStatus('granted');
  w.events = status === 'granted' ? w.saved.slice() : [];
  w.mgr = new w.m.bt.BehavioralTargetingManager(KEY, RULES);
  w.evaluate(null);
  w.check('load');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(['track a', 'track b', 'wait', 'hide', 'granted', 'denied']);
    ctx.step(op);
    if (op.startsWith('track')) w.track(op.split(' ')[1], {});
    else if (op === 'wait' || op === 'hide') {
      const before = w.saved;
      if (op === 'wait') await w.wait(500);
      else w.hide();
      if (status !== 'granted') w.saved = before;
    } else if (op !== status) {
      const was = status;
      status = op;
      if (status === 'denied') {
        // the erasure (subject of C21) takes what is on the device
        w.page.localRaw.delete(STORE);
        w.saved = [];
        w.events = [];
        w.due = null;
        gate.manager.setStatus('denied');
      } else {
        gate.manager.setStatus('granted');
        if (was === 'pending') {
          w.events = w.saved.concat(w.events);
          w.saved = w.events.slice();
        } else w.events = [];
        w.due = null;
      }
    }
    w.check(op);
    w.state(p.depth - d);
  }
}

const OPS = ['track a', 'trackx a', 'track b', 'track c', 'reuse x', 'wait short', 'wait T', 'wait T1', 'wait 23h', 'hide', 'reload', 'crash', 'restart'];
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of event, waiting, page-load and crash sequences (and of every kind of condition after every short history) on the real behavioural-targeting code over a simulated device, against a reference of the recorded history',
  level_note: 'all sequences within the stated depth; equal implementation and model states are merged',
  assumptions: ['one page of the site is open at a time', 'the clock does not go back', 'event properties are plain data'],
  bounds: (t) => ({ depth: t === 'thorough' ? 7 : 5, conditions: 366, events: t === 'thorough' ? 4 : 3, stored: 503 }),
  scenarios(tier) {
    const th = tier === 'thorough';
    return [
      { name: 'history', params: { run: 'history', depth: th ? 7 : 5, ops: OPS, timeout: undefined }, shards: 16, shardDepth: 2 },
      { name: 'no-cookies', params: { run: 'history', depth: th ? 6 : 5, ops: ['track a', 'trackx a', 'track b', 'wait T', 'wait T1', 'reload', 'crash'], cookies: 'blocked' }, shards: 7, shardDepth: 1 },
      { name: 'conditions', params: { run: 'conditions', depth: th ? 4 : 3 }, shards: 20, shardDepth: 2 },
      { name: 'store', params: { run: 'store', depth: th ? 5 : 4, olds: ['none', 'garbage', 'null', 'array', 'no events', 'no counter', 'no uuid', '2', '498', '499', '500', '502'] }, shards: 12, shardDepth: 1 },
      { name: 'consent', params: { run: 'consent', depth: th ? 7 : 6 }, shards: 12, shardDepth: 3 },
      { name: 'fault', params: { run: 'fault', depth: th ? 7 : 5 }, shards: 7, shardDepth: 1 },
    ];
  },
  async prepare() {
    return getBundle({ bt: 'experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts', gate: 'experiment-tag/src/consent/consent-gate.ts' });
  },
  async run(ctx, p, bundle) {
    return { history: runHistory, conditions: runConditions, store: runStore, fault: runFault, consent: runConsent }[p.run](ctx, p, bundle);
  },
};
