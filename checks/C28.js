'use strict';
// Sharing recorded events between subdomains through the relay frame: an adversarial frame and network against the
// real tag, with a reference of the conversation, the merged history and what is live on the page.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');
const B = require('../lib/behaviors');

const { cond, prop, STORE } = B;
const on = (p) => A.urlCond(`^https://(www|app)\\.example\\.com/${p}$`);
const has = (id) => [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains any', values: [id] }]];
const RULES = {
  fa: { twice: [[cond('a', 'greater or equal', 2, [1, 'hour'])]], once: [[cond('a', 'is', 1, [1, 'hour'])]] },
  fc: { single: [[cond('a', 'is', 1, [1, 'hour'])]] },
  fb: { relayed: [[cond('a', 'greater', 0, [1, 'day'], [prop('p', 'is', 'relay')])]] },
};
const VARIANTS = { fa: [['fa.twice', 'on', 'twice'], ['fa.once', 'first', 'once']], fb: [['fb.relayed', 'on', 'relayed']], fc: [['fc.single', 'on', 'single']] };
const KEYS = Object.keys(VARIANTS);
const PAGES = { fa: { A: A.pageObj('A', 'url_change', {}, on('a')) }, fb: { B: A.pageObj('B', 'url_change', {}, on('a')) }, fc: { C: A.pageObj('C', 'url_change', {}, on('a')) } };
const pickKeys = (o, keys) => Object.fromEntries(Object.entries(o).filter(([k]) => keys.includes(k)));
const flags = KEYS.map((f) =>
  A.localFlag(f, Object.fromEntries(VARIANTS[f].map(([, v]) => [v, [A.mutateAction(A.mutation(`${f}-${v}`))]])), {
    segments: [...VARIANTS[f].map(([, v, id]) => ({ conditions: has(id), variant: v })), { variant: 'off' }],
  }),
);
// flags the server completes: until it has answered nobody is in them
const asked = (f) => ({ ...f, segments: [{ variant: 'off' }], metadata: { ...f.metadata, evaluationMode: 'remote' } });
const RPC = 2000;
const clone = (x) => JSON.parse(JSON.stringify(x));
const pub = (e) => ({ uuid: e.uuid, type: e.type, at: e.at, props: e.props });

class Sim {
  constructor(ctx, p, bundle) {
    Object.assign(this, { ctx, p, bundle });
    this.device = new Device();
    this.keys = p.keys || ['fa', 'fb'];
    this.rules = pickKeys(RULES, this.keys);
    this.relay = []; // the frame's store, in the tag's own format
    this.migrated = new Set();
    this.saved = []; // per origin: what the device holds
    this.stores = {};
    this.n = 0;
  }
  get now() {
    return this.device.clock.now;
  }
  rec(uuid, type, ago, props, id) {
    return { id, uuid, event_type: type, timestamp: this.now - ago, session_id: 'old', properties: props || {} };
  }
  async load(host, conf = {}) {
    const { ctx, device } = this;
    this.host = host;
    this.origin = `https://${host}`;
    this.page = new A.TagPage({ device, url: `https://${host}/a` });
    const page = this.page;
    this.queue = [];
    this.taken = 0;
    this.frames = [];
    page.onCreate = (e) => {
      if (e.tagName !== 'IFRAME') return;
      e.contentWindow = {
        postMessage: (msg, target) => {
          if (!e.isConnected) ctx.fail('message to a frame that is gone', 'message');
          if (this.denied) ctx.fail(`${msg.type} sent to the relay after a refusal`, 'message while refused');
          ctx.equal(target, new URL(e.src).origin, 'target of a message to the relay', 'target');
          this.queue.push({ msg: clone(msg), until: this.now + RPC });
        },
      };
      this.frames.push(e);
    };
    this.late = conf.body || 0;
    const realBody = page.scope.document.body;
    if (this.late) page.scope.document.body = null;
    this.realBody = realBody;
    const rec = new A.Recorder();
    page.scope.experimentIntegration = rec;
    const server = this.p.server || [];
    this.answerFlags = () => page.openRequests().forEach((r) => r.respond(200, flags.filter((f) => server.includes(f.key))));
    page.onRequest = () => this.p.held || this.answerFlags();
    const m = this.bundle.load(page.scope);
    this.events = (this.stores[host] || []).slice();
    this.saved = this.events.slice();
    this.due = null;
    this.M = {};
    this.unconfirmed = [];
    this.evaluate(null);
    m.tag.initialize(
      A.KEY,
      { initialFlags: JSON.stringify(flags.filter((f) => this.keys.includes(f.key)).map((f) => (server.includes(f.key) ? asked(f) : f))), pageObjects: JSON.stringify(pickKeys(PAGES, this.keys)), behavioralTargetingRules: JSON.stringify(this.rules) },
      { useDefaultNavigationHandler: true, fetchOnStart: false, ...(conf.config || {}) },
    );
    this.setConsent = m.tag.setConsentStatus;
    this.phase = 'boot';
    this.deadline = this.now + 2 * RPC;
    await A.settle();
    this.client = page.scope.webExperiment;
    this.ident = JSON.parse(page.localRaw.get(A.SLICE) || '{}').web_exp_id_v2;
  }
  evaluate(type) {
    for (const [f, ids] of Object.entries(this.rules)) for (const [id, r] of Object.entries(ids)) if (type === null || B.mentions(r, type)) this.M[`${f}.${id}`] = B.holds(r, this);
  }
  // messages the tag must have sent since the last call, in order
  expect(op, ...want) {
    const got = this.queue.slice(this.taken).map((q) => q.msg);
    this.taken = this.queue.length;
    this.ctx.equal(got.map((g) => g.type), want.map((x) => x.type), `messages to the relay after ${op}`, 'messages');
    got.forEach((g, i) => {
      this.ctx.equal([g.apiKey, g.web_exp_id_v2, typeof g.requestId], [A.KEY, this.ident, 'string'], `envelope of ${g.type}`, 'envelope');
      const x = want[i];
      if (x.event) {
        const e = g.payload.event;
        this.ctx.equal({ type: e.event_type, at: e.timestamp, props: e.properties }, { type: x.event.type, at: x.event.at, props: x.event.props }, `event sent after ${op}`, 'event sent');
        this.ident1(x.event, e.uuid, op);
      } else if (x.store) {
        this.ctx.equal([g.payload.sourceOrigin, g.payload.store.events.map((e) => [e.event_type, e.timestamp, e.properties])], [this.origin, x.store.map((e) => [e.type, e.at, e.props])], `events migrated after ${op}`, 'events migrated');
        x.store.forEach((e, k) => this.ident1(e, g.payload.store.events[k].uuid, op));
      } else if (g.type === 'CHECK_MIGRATED') this.ctx.equal(g.payload, { sourceOrigin: this.origin }, 'payload', 'payload');
    });
    const ids = this.queue.map((q) => q.msg.requestId);
    this.ctx.ok(new Set(ids).size === ids.length, 'two requests share an id', 'request id');
    this.queue.forEach((q) => (q.phase = q.phase || this.phase));
  }
  ident1(e, uuid, op) {
    this.ctx.ok(typeof uuid === 'string' && uuid, `event without identity after ${op}`, 'identity');
    if (e.uuid === undefined) e.uuid = uuid;
    else this.ctx.equal(uuid, e.uuid, `identity of an event after ${op}`, 'identity');
  }
  message(data, o = {}) {
    const frame = this.frames[this.frames.length - 1];
    this.page.windowDispatch('message', { data, origin: o.origin || (frame && new URL(frame.src).origin), source: o.source || (frame && frame.contentWindow) });
  }
  die() {
    this.phase = 'dead';
    this.unconfirmed = [];
  }
  // the effect of one request on the frame's own store
  serve(msg) {
    const add = (e) => {
      if (this.p.plainWrites || !this.relay.some((x) => x.uuid === e.uuid)) this.relay.push(e);
    };
    if (msg.type === 'CHECK_MIGRATED') return { migrated: this.migrated.has(msg.payload.sourceOrigin) };
    if (msg.type === 'READ_EVENTS') return { events: clone(this.relay), nextId: this.relay.length + 1 };
    if (msg.type === 'WRITE_EVENT') add(msg.payload.event);
    if (msg.type === 'MIGRATE_EVENTS') {
      for (const e of msg.payload.store.events) if (!this.relay.some((x) => x.uuid === e.uuid)) this.relay.push(e);
      this.migrated.add(msg.payload.sourceOrigin);
    }
    return undefined;
  }
  // the reply arrives; returns what must be sent next
  replied(q, ok, payload) {
    if (this.now >= q.until || this.phase === 'dead') return [];
    const type = q.msg.type;
    if (type === 'WRITE_EVENT') {
      if (ok) this.unconfirmed = this.unconfirmed.filter((e) => e.uuid !== q.msg.payload.event.uuid);
      return [];
    }
    if (!ok) {
      this.die();
      return [];
    }
    this.deadline = this.now + RPC;
    if (type === 'CHECK_MIGRATED' && !payload.migrated && this.events.length) {
      this.phase = 'migrate';
      return [{ type: 'MIGRATE_EVENTS', store: this.events.slice() }];
    }
    if (type === 'CHECK_MIGRATED' || type === 'MIGRATE_EVENTS') {
      this.phase = 'read';
      return [{ type: 'READ_EVENTS' }];
    }
    // the merge: one copy per identity, the frame's preferred, in order of time, the newest 500
    const missing = this.events.filter((e) => !payload.events.some((x) => x.uuid === e.uuid));
    const by = new Map(this.events.map((e) => [e.uuid || e, e]));
    for (const x of payload.events) by.set(x.uuid, { uuid: x.uuid, type: x.event_type, at: x.timestamp, props: x.properties });
    this.events = [...by.values()].sort((a, b) => a.at - b.at).slice(-500);
    this.due = this.now + 500;
    this.phase = 'attached';
    this.deadline = null;
    this.unconfirmed = missing.slice();
    this.evaluate(null);
    return missing.map((event) => ({ type: 'WRITE_EVENT', event }));
  }
  track(type, op) {
    this.client.trackEvent(type, {});
    const e = { type, at: this.now, props: {} };
    this.events.push(e);
    if (this.events.length > 500) this.events = this.events.slice(-500);
    this.due = this.now + 500;
    this.evaluate(type);
    if (this.phase === 'attached') {
      this.unconfirmed.push(e);
      this.expect(op, { type: 'WRITE_EVENT', event: e });
    } else this.expect(op);
  }
  save() {
    if (this.due !== null && !this.denied) this.saved = this.events.slice();
    this.due = null;
  }
  async wait(ms, op) {
    const end = this.now + ms;
    if (this.late && this.late <= ms && !this.page.scope.document.body) this.page.timers.set(() => (this.page.scope.document.body = this.realBody), this.late, [], false);
    this.late -= ms;
    await this.page.timers.advance(ms);
    if (this.due !== null && this.due <= end) this.save();
    if (this.phase !== 'attached' && this.phase !== 'dead' && end >= this.deadline) this.die();
    this.expect(op);
  }
  hide(op) {
    this.page.scope.document.visibilityState = 'hidden';
    this.page.docDispatch('visibilitychange');
    this.page.scope.document.visibilityState = 'visible';
    this.save();
    this.expect(op, ...(this.phase === 'attached' ? this.unconfirmed.map((event) => ({ type: 'WRITE_EVENT', event })) : []));
  }
  leave() {
    this.page.windowDispatch('beforeunload');
    this.save();
    this.expect('leaving', ...(this.phase === 'attached' ? this.unconfirmed.map((event) => ({ type: 'WRITE_EVENT', event })) : []));
    this.stores[this.host] = this.saved;
    this.page.kill();
  }
  check(op) {
    const { ctx } = this;
    const raw = this.page.localRaw.get(STORE);
    const list = raw ? JSON.parse(raw).events : [];
    ctx.equal(list.map((e) => [e.event_type, e.timestamp, e.properties]), this.saved.map((e) => [e.type, e.at, e.props]), `stored events after ${op} [${this.phase}]`, 'stored events');
    list.forEach((e, i) => this.ident1(this.saved[i], e.uuid, op));
    ctx.ok(new Set(list.map((e) => e.uuid)).size === list.length, `an event is stored twice after ${op}`, 'stored events');
    const want = this.keys.map((f) => [f, VARIANTS[f].find(([b]) => this.M[b])]).filter(([, v]) => v).map(([f, v]) => `${f}-${v[1]}`).sort();
    if (!this.p.noDom) ctx.equal(A.liveMutations(this.page), want, `live changes after ${op} [${this.phase}]`, 'live changes');
    const there = this.frames.filter((f) => f.isConnected).length;
    ctx.equal(there, this.phase === 'dead' || this.noFrame || !this.page.scope.document.body ? 0 : 1, `relay frames after ${op} [${this.phase}]`, 'frames');
    // nothing the frame has confirmed is missing there, nor anything it never got
    for (const e of this.relay) ctx.ok(e.uuid, 'relay event without identity', 'identity');
  }
  state() {
    const now = this.now;
    this.ctx.state([
      this.phase, this.deadline && this.deadline - now, this.events.map((e) => [e.type, now - e.at, e.props, this.unconfirmed.includes(e)]), this.saved.length, this.due && this.due - now, this.M,
      this.queue.map((q) => [q.msg.type, q.done, q.until - now]), this.relay.map((e) => [e.event_type, now - e.timestamp]), [...this.migrated], this.denied, this.host,
    ]);
  }
}

async function run(ctx, p, bundle) {
  const s = new Sim(ctx, p, bundle);
  // what earlier visits left
  const local = p.local[ctx.choose(p.local.length, 'local')];
  const remote = p.remote[ctx.choose(p.remote.length, 'remote')];
  ctx.step(`local: ${local.map((e) => e.join(' '))}; relay: ${remote.map((e) => e.join(' '))}`);
  const mk = (l) => l.map(([uuid, type, ago, pv], i) => s.rec(uuid, type, ago * B.MIN, pv ? { p: pv } : {}, i + 1));
  s.relay = mk(remote);
  const host = 'www.example.com';
  const mine = mk(local);
  const conf = p.confs ? p.confs[ctx.choose(p.confs.length, 'conf')] : {};
  if (p.confs) ctx.step(`config ${JSON.stringify(conf)}`);
  if (mine.length) {
    s.device.localStorageFor(host).raw.m.set(STORE, JSON.stringify({ events: mine, nextId: mine.length + 1 }));
    s.stores[host] = mine.map((e) => ({ uuid: e.uuid || undefined, type: e.event_type, at: e.timestamp, props: e.properties }));
    if (p.migrated && ctx.choose(2, 'migrated')) {
      s.migrated.add(`https://${host}`);
      ctx.step('migrated before');
    }
  }
  if (p.consent) conf.config = { consentOptions: { consentRequired: true, consentStatus: 'granted' } };
  s.denied = false;
  await s.load(host, conf);
  const src = conf.src === undefined ? `https://cdn.amplitude.com/script/${A.KEY}.relay.html` : conf.src;
  if (src === null) {
    s.noFrame = true;
    s.die();
  } else if (!conf.body) ctx.equal(s.frames.map((f) => [f.src, f.style.display]), [[src, 'none']], 'relay frame', 'frame address');
  ctx.ok(s.client.isRunning, 'the client runs', 'running');
  s.expect('start');
  s.check('start');
  const goodOrigin = new URL(src || 'https://x.y').origin;
  for (let d = 0; d < p.depth; d++) {
    const open = s.queue.filter((q) => !q.done);
    const ops = [];
    const frame = s.frames.some((f) => f.isConnected);
    if (frame && s.phase === 'boot') ops.push('ready', 'spoof ready');
    for (const k of [0, 1].slice(0, open.length))
      if (frame) {
        ops.push(`answer ${k}`);
        if (p.faults) ops.push(`refuse ${k}`, `silent ${k}`);
      }
    if (open.length && frame && p.faults) ops.push('lose 0', 'spoof answer');
    for (const o of p.ops) if (o !== 'reload' || d < p.depth - 1) ops.push(o);
    const op = p.prelude && d < p.prelude.length ? p.prelude[d] : ctx.pick(ops);
    ctx.step(`${op} [${s.phase}]`);
    const [k, a] = op.split(' ');
    let next = null;
    if (op === 'ready') {
      s.phase = 'check';
      s.deadline = s.now + RPC;
      s.message(ctx.choose(2, 'shape') ? { type: 'AMP_RELAY_READY' } : 'AMP_RELAY_READY');
      next = [{ type: 'CHECK_MIGRATED' }];
    } else if (op === 'spoof ready') {
      s.message('AMP_RELAY_READY', { origin: 'https://evil.example' });
      s.message('AMP_RELAY_READY', { source: {} });
      s.message({ type: 'AMP_RELAY_READY' }, { origin: s.origin });
      s.message({ type: 'OTHER' });
      s.message(null);
      next = [];
    } else if (op === 'spoof answer') {
      for (const q of open) {
        const data = { requestId: q.msg.requestId, ok: true, payload: { migrated: true, events: [s.rec('evil', 'a', 1, { p: 'relay' }, 1)], nextId: 2 } };
        s.message(data, { origin: 'https://evil.example' });
        s.message(data, { source: {} });
      }
      s.message({ requestId: 'nobody', ok: true, payload: { events: [] } });
      next = [];
    } else if (k === 'answer' || k === 'refuse' || k === 'silent' || k === 'lose') {
      const q = open[a];
      q.done = true;
      if (k === 'refuse') {
        s.message({ requestId: q.msg.requestId, ok: false, error: 'no' });
        next = s.replied(q, false);
      } else if (k === 'lose') next = [];
      else {
        const payload = s.serve(q.msg);
        if (k === 'answer') {
          next = s.replied(q, true, clone(payload === undefined ? null : payload));
          s.message({ requestId: q.msg.requestId, ok: true, payload });
        } else next = [];
      }
    } else if (k === 'track') s.track(a, op);
    else if (k === 'wait') await s.wait(Number(a), op);
    else if (k === 'hide') s.hide(op);
    else if (k === 'deny') {
      if (!s.denied) {
        s.denied = true;
        s.setConsent('denied');
        s.saved = [];
        s.events = [];
        s.due = null;
        s.wasAttached = s.phase === 'attached';
        if (s.wasAttached) s.die();
      }
      next = [];
    } else if (k === 'grant') {
      if (s.denied) {
        s.denied = false;
        s.setConsent('granted');
        s.events = [];
        s.due = null;
      }
      next = [];
    } else if (k === 'reload' || k === 'visit') {
      s.leave();
      await s.load(k === 'reload' ? s.host : s.host === 'www.example.com' ? 'app.example.com' : 'www.example.com', conf);
      s.expect(op);
    }
    await A.settle();
    if (next) s.expect(op, ...next);
    s.check(op);
    s.state();
  }
  // every event ever recorded is in one place at least, and the frame has what it confirmed
  void goodOrigin;
}

// a refusal while the frame is in use: nothing more is sent, the local history is gone
async function runConsent(ctx, p, bundle) {
  const s = new Sim(ctx, { ...p, noDom: true }, bundle);
  s.relay = [s.rec('r-1', 'a', 5 * B.MIN, { p: 'relay' }, 1)];
  const host = 'www.example.com';
  const mine = [s.rec('l-1', 'a', 6 * B.MIN, {}, 1)];
  s.device.localStorageFor(host).raw.m.set(STORE, JSON.stringify({ events: mine, nextId: 2 }));
  s.denied = false;
  await s.load(host, { config: { consentOptions: { consentRequired: true, consentStatus: 'granted' } } });
  let ever = false;
  for (let d = 0; d < p.depth; d++) {
    const open = s.queue.filter((q) => !q.done);
    const frame = s.frames.some((f) => f.isConnected);
    const ops = ['track a', 'hide', 'deny', 'grant', 'wait 500', 'wait 2000'];
    if (p.held && s.page.openRequests().length) ops.push('flags');
    if (frame) ops.push('ready', ...open.slice(0, 1).map(() => 'answer'));
    const op = ctx.pick(ops);
    ctx.step(op);
    const before = s.queue.length;
    const framesBefore = s.frames.length;
    if (op === 'ready') s.message('AMP_RELAY_READY');
    else if (op === 'flags') s.answerFlags();
    else if (op === 'answer') {
      open[0].done = true;
      s.message({ requestId: open[0].msg.requestId, ok: true, payload: s.serve(open[0].msg) });
    } else if (op === 'track a') s.client.trackEvent('a', { n: ++s.n, during: s.denied ? 'refusal' : ever ? 'after' : 'before' });
    else if (op === 'hide') {
      s.page.scope.document.visibilityState = 'hidden';
      s.page.docDispatch('visibilitychange');
      s.page.scope.document.visibilityState = 'visible';
    } else if (op === 'deny') {
      s.setConsent('denied');
      s.denied = true;
      ever = true;
    } else if (op === 'grant') {
      s.setConsent('granted');
      s.denied = false;
    } else await s.page.timers.advance(Number(op.split(' ')[1]));
    await A.settle();
    if (s.denied) {
      ctx.equal(s.frames.length - framesBefore, 0, `relay frames added by ${op} while consent is refused`, 'frame while refused');
      ctx.equal(s.queue.length - before, 0, `messages to the relay after ${op}`, 'message while refused');
      ctx.ok(!s.page.localRaw.has(STORE), `events on the device after ${op} while consent is refused`, 'stored while refused');
    }
    const stored = s.page.localRaw.has(STORE) ? JSON.parse(s.page.localRaw.get(STORE)).events : [];
    const where = stored.map((e) => ['stored', e]);
    for (const q of s.queue.slice(before)) for (const e of q.msg.payload && q.msg.payload.event ? [q.msg.payload.event] : q.msg.payload && q.msg.payload.store ? q.msg.payload.store.events : []) where.push(['sent', e]);
    for (const [how, e] of where) {
      ctx.ok(e.properties.during !== 'refusal', `an event recorded during a refusal is ${how} after ${op}`, 'event of a refusal');
      // copies the relay already had may come back from it
      if (ever && e.properties.during === 'before') ctx.ok(s.relay.some((r) => r.uuid === e.uuid), `an event recorded before a refusal is ${how} after ${op}`, 'event from before a refusal');
    }
    ctx.state([op, s.denied, ever, stored.length, s.queue.length, s.relay.length]);
  }
}

const many = (n, from, pre) => Array.from({ length: n }, (_, i) => [`${pre}-${i}`, 'a', from + (n - i)]);
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of the conversation between the real tag and an adversarial relay frame (answers, refusals, losses, spoofed and late messages, waiting, events, page loads) against a reference protocol and merged history',
  level_note: 'all sequences within the stated depth',
  assumptions: ['the relay keeps one copy per identity, or several', 'the host of the relay page is trusted; other origins and windows are not'],
  bounds: (t) => ({ depth: t === 'thorough' ? 8 : 5, requestsAnswerable: 2 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const L = [['l-1', 'a', 6]];
    const R = [['r-1', 'a', 5, 'relay']];
    return [
      { name: 'sync', params: { run: 'main', depth: T ? 6 : 4, local: [[], L], remote: [[], R, [['l-1', 'a', 6, 'relay']], [...R, ['r-2', 'b', 4], ['l-1', 'a', 6]]], migrated: true, faults: true, ops: ['track a', 'wait 1000'] }, shards: 16, shardDepth: 4 },
      { name: 'server', params: { run: 'main', server: ['fb'], depth: T ? 6 : 4, local: [[], L], remote: [[], R], migrated: true, ops: ['track a', 'wait 1000'] }, shards: 16, shardDepth: 4 },
      { name: 'server-all', params: { run: 'main', server: ['fa', 'fb'], depth: T ? 6 : 4, local: [[], L], remote: [[], R], migrated: true, ops: ['track a', 'wait 1000'] }, shards: 16, shardDepth: 4 },
      { name: 'back-and-forth', params: { run: 'main', keys: ['fc'], depth: T ? 6 : 5, local: [[], L], remote: [[], R], migrated: true, ops: ['track a', 'wait 1000'] }, shards: 16, shardDepth: 4 },
      { name: 'boot', params: { run: 'main', depth: 5, local: [L], remote: [R], ops: ['wait 1999', 'wait 1', 'track a'], plainWrites: true }, shards: 16, shardDepth: 4 },
      { name: 'writes', params: { run: 'main', depth: T ? 8 : 5, local: [[]], remote: [R], ops: ['track a', 'hide', 'wait 2000'], plainWrites: true }, shards: 16, shardDepth: 5 },
      { name: 'faulty-writes', params: { run: 'main', depth: T ? 7 : 4, local: [L], remote: [R], migrated: true, faults: true, ops: ['track a', 'hide'] }, shards: 16, shardDepth: 5 },
      { name: 'refused-writes', params: { run: 'main', depth: T ? 8 : 7, prelude: ['ready', 'answer 0', 'answer 0', 'track a'], local: [[]], remote: [[]], faults: true, ops: ['track a', 'hide', 'wait 1000'] }, shards: 16, shardDepth: 7 },
      { name: 'visits', params: { run: 'main', depth: T ? 8 : 5, local: [L], remote: [[]], ops: ['track a', 'reload', 'visit'] }, shards: 16, shardDepth: 5 },
      { name: 'cap', params: { run: 'main', depth: 4, noDom: true, local: [many(400, 1000, 'l')], remote: [many(300, 1200, 'r'), many(300, 0, 'r'), many(100, 900, 'r'), many(101, 900, 'r')], migrated: true, ops: ['wait 500', 'track a'] }, shards: 8, shardDepth: 2 },
      { name: 'consent', params: { run: 'consent', depth: T ? 7 : 5 }, shards: 16, shardDepth: 3 },
      { name: 'unnamed', params: { run: 'main', depth: T ? 7 : 5, local: [[[undefined, 'a', 7], ['', 'a', 6], ['l-1', 'a', 4]]], remote: [[], R], ops: ['track a', 'reload', 'visit'] }, shards: 16, shardDepth: 3 },
      { name: 'consent-start', params: { run: 'consent', held: true, server: ['fb'], depth: T ? 6 : 4 }, shards: 16, shardDepth: 2 },
      {
        name: 'where',
        params: {
          run: 'main', depth: 4, local: [L], remote: [R], ops: ['wait 1999', 'wait 1', 'track a'],
          confs: [{}, { config: { serverZone: 'EU' }, src: `https://cdn.eu.amplitude.com/script/${A.KEY}.relay.html` }, { config: { relayUrl: 'https://relay.test:8443//' }, src: `https://relay.test:8443/script/${A.KEY}.relay.html` }, { config: { relayUrl: 'relay.test' }, src: null }],
        },
        shards: 4,
        shardDepth: 3,
      },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  async run(ctx, p, bundle) {
    return p.run === 'consent' ? runConsent(ctx, p, bundle) : run(ctx, p, bundle);
  },
};
