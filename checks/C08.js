'use strict';
// start()/stop()/polling lifecycle in virtual time, against a lifecycle model.
const { getBundle } = require('../lib/bundle');
const { Page, Device, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');

const b64 = (s) => Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8');
const flag = (key, v) => ({ key, variants: { [v]: { key: v } }, segments: [{ variant: v }], metadata: { evaluationMode: 'local' } });
const FLAGS = { A: [flag('f', 'f-A'), flag('g', 'g-A')], B: [flag('f', 'f-B')], none: [] };
const INITIAL = [flag('g', 'g-init'), flag('h', 'h-init')];
const KEYS = ['f', 'g', 'h'];
const TIMEOUT = 10000;

async function run(ctx, p, bundle) {
  const device = new Device();
  const page = new Page({ device });
  const { sdk } = bundle.load(page.scope);
  const cfg = { retryFetchOnFailure: false, automaticExposureTracking: false };
  for (const k of ['pollOnStart', 'fetchOnStart', 'throwOnError', 'flagConfigPollingIntervalMillis']) if (p[k] !== undefined) cfg[k] = p[k];
  if (p.initial) cfg.initialFlags = JSON.stringify(INITIAL);
  const client = new sdk.ExperimentClient('client-key-123456', { ...cfg });
  const interval = Math.max(p.flagConfigPollingIntervalMillis === undefined ? 300000 : p.flagConfigPollingIntervalMillis, 60000);
  const now = () => page.clock.now;
  const m = { running: false, poll: null, flags: {}, variants: {}, starts: [], reqs: [], stops: 0 };
  const init = () => {
    if (p.initial) for (const f of INITIAL) if (!m.flags[f.key]) m.flags[f.key] = f.variants;
  };
  init();
  const calls = [];
  let seenReq = 0;
  const expected = [];
  const issue = (kind, start) => {
    const r = { kind, start, open: true, deadline: now() + TIMEOUT };
    m.reqs.push(r);
    expected.push(r);
  };
  const finishStart = (s, error) => {
    if (s.over) return;
    s.over = true;
    if (error && p.throwOnError) {
      s.call.want = 'rejected';
      return;
    }
    s.call.want = 'resolved';
    if (p.pollOnStart !== false && m.running && m.poll === null) {
      m.poll = now() + interval;
      issue('flags', null);
    }
  };
  const settle = (r, ok, timeout) => {
    r.open = false;
    const s = r.start;
    if (!s) return;
    if (r.kind === 'flags') {
      // without throwOnError a flag timeout counts as finished, any other failure ends start() at once
      if (!ok && !(timeout && !p.throwOnError)) return finishStart(s, true);
      s.flags = true;
    } else {
      if (!ok && p.throwOnError) return finishStart(s, true);
      s.fetch = true;
    }
    if (s.flags && s.fetch) finishStart(s, false);
  };
  const match = (what) => {
    while (seenReq < page.requests.length || expected.length) {
      const r = page.requests[seenReq++];
      const e = expected[0];
      if (!r) ctx.fail(`${what}: expected a ${e.kind} request, none was sent`, 'missing request');
      const kind = r.url.includes('/sdk/v2/flags') ? 'flags' : r.url.includes('/sdk/v2/vardata') ? 'variants' : r.url;
      const i = expected.findIndex((x) => x.kind === kind);
      if (i < 0) ctx.fail(`${what}: unexpected ${kind} request at +${now() - 1700000000000} ms`, 'unexpected request');
      const got = expected.splice(i, 1)[0];
      got.r = r;
      if (kind === 'variants') ctx.equal(JSON.parse(b64(r.headers['X-Amp-Exp-User'])).user_id, got.start.user, `${what}: user of the variants request`);
    }
  };
  const compare = (what) => {
    for (const k of KEYS) {
      const v = client.variant(k).key;
      const w = m.flags[k] ? Object.keys(m.flags[k])[0] : m.variants[k];
      if (v !== w) ctx.fail(`${what}: variant ${k} is ${v}, expected ${w}`, 'variant');
    }
    ctx.equal((client.getUser() || {}).user_id, m.user, `${what}: user`, 'user');
    for (const c of calls) ctx.equal(c.got, c.want, `${what}: outcome of start ${c.id}`, 'promise');
  };
  compare('initially');
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    if (calls.length < p.maxStarts) acts.push(['start']);
    if (m.stops < p.maxStops) acts.push(['stop']);
    for (const r of m.reqs) if (r.open) for (const o of r.kind === 'flags' ? p.flagOutcomes : p.variantOutcomes) acts.push(['respond', r, o]);
    const dues = m.reqs.filter((r) => r.open).map((r) => r.deadline);
    if (m.poll !== null) dues.push(m.poll);
    if (dues.length) acts.push(['tick', Math.min(...dues)]);
    else if (p.idle) acts.push(['idle']);
    const a = ctx.pick(acts);
    const label = a[0] === 'respond' ? `${a[1].kind} response: ${a[2]}` : a[0] === 'tick' ? `advance to +${a[1] - 1700000000000}` : a[0];
    ctx.step(label);
    if (a[0] === 'start') {
      const c = { id: calls.length + 1, got: 'pending', want: 'pending' };
      calls.push(c);
      if (m.running) c.want = 'resolved';
      else {
        m.running = true;
        m.user = 'u' + c.id;
        const s = { user: m.user, call: c, flags: false, fetch: p.fetchOnStart === false };
        m.starts.push(s);
        issue('flags', s);
        if (p.fetchOnStart !== false) issue('variants', s);
      }
      client.start({ user_id: 'u' + c.id }).then(
        () => (c.got = 'resolved'),
        () => (c.got = 'rejected'),
      );
      await drain();
    } else if (a[0] === 'stop') {
      m.stops++;
      if (m.running) {
        m.running = false;
        m.poll = null;
      }
      client.stop();
      await drain();
    } else if (a[0] === 'respond') {
      const [, r, o] = a;
      if (r.kind === 'flags') {
        if (FLAGS[o]) {
          r.r.respond(200, FLAGS[o]);
          m.flags = {};
          for (const f of FLAGS[o]) m.flags[f.key] = f.variants;
          init();
          settle(r, true);
        } else {
          if (o === 'net') r.r.fail();
          else if (o === 'bad') r.r.respond(200, '[{"key":');
          else r.r.respond(Number(o), 'x');
          settle(r, false);
        }
      } else {
        if (o === 'ok') {
          r.r.respond(200, { f: { key: 'remote-f' }, z: { key: 'z' } });
          m.variants = { f: 'remote-f', z: 'z' };
          settle(r, true);
        } else {
          if (o === 'net') r.r.fail();
          else r.r.respond(Number(o), 'x');
          settle(r, false);
        }
      }
      await drain();
    } else if (a[0] === 'tick') {
      const due = a[1];
      await page.timers.advance(due - 1 - now());
      match(label + ' (just before)');
      compare(label + ' (just before)');
      page.timers.advanceSync(due - now());
      await drain();
      const timedOut = m.reqs.filter((r) => r.open && r.deadline <= due);
      const polls = m.poll !== null && m.poll <= due;
      if (polls) {
        m.poll = due + interval;
        issue('flags', null);
      }
      for (const r of timedOut) settle(r, false, true);
      match(label);
      for (const r of timedOut) r.r.respond(200, r.kind === 'flags' ? [flag('f', 'late')] : { f: { key: 'late' } });
      await drain();
    } else {
      // nothing is due: nothing may happen however long we wait
      await page.timers.advance(700000);
    }
    match(label);
    compare(label);
    ctx.state(canon([m.running, m.poll && m.poll - now(), m.user, m.flags, m.variants, calls.map((c) => c.want), m.stops, m.reqs.filter((r) => r.open).map((r) => [r.kind, r.deadline - now(), r.start && [r.start.call.id, r.start.flags, r.start.fetch, r.start.over]])]) + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
  // whatever happened, once stopped and idle nothing more is ever sent
  if (p.final !== false) {
    client.stop();
    m.running = false;
    m.poll = null;
    for (const r of m.reqs)
      if (r.open) {
        r.r.respond(200, r.kind === 'flags' ? [] : {});
        await drain();
        settle(r, true);
      }
    const n = page.requests.length;
    await page.timers.advance(1000000);
    if (page.requests.length !== n) ctx.fail('requests are still sent after stop()', 'poll after stop');
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of start/stop/response/timer orders on the real client in virtual time against a lifecycle model',
  level_note: 'all interleavings within the stated depth for every lifecycle configuration; every transition replayed on the real client',
  bounds: (t) => ({ depth: t === 'thorough' ? 8 : 6, starts: 3, stops: 2, flagOutcomes: 6, variantOutcomes: 3, configurations: 'pollOnStart x fetchOnStart x throwOnError x initial flags x interval' }),
  assumptions: ['after a start() that rejected, the client counts as running until stop() (the behaviour of the pinned tree)'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const F = ['A', 'B', '500', 'net'];
    for (const pollOnStart of [undefined, false])
      for (const fetchOnStart of [undefined, false])
        for (const throwOnError of [undefined, true])
          for (const initial of [false, true]) {
            const cfg = { pollOnStart, fetchOnStart, throwOnError, initial };
            out.push({ name: 'all:' + canon(cfg), params: { ...cfg, depth: T ? 9 : 7, maxStarts: 2, maxStops: 2, flagOutcomes: ['A', 'none', '500', 'net', 'bad', '404'], variantOutcomes: ['ok', '500', 'net'], prune: true, idle: true }, shards: 4, shardDepth: 3 });
            if (!initial || T) out.push({ name: 'short:' + canon(cfg), params: { ...cfg, depth: T ? 6 : 5, maxStarts: 3, maxStops: 2, flagOutcomes: F, variantOutcomes: ['ok', '500'], idle: true }, shards: 8, shardDepth: 3 });
          }
    for (const i of [0, 1, 1000, 59999, 60000, 60001, 90000, 300000]) out.push({ name: 'interval:' + i, params: { flagConfigPollingIntervalMillis: i, fetchOnStart: false, depth: T ? 9 : 7, maxStarts: 2, maxStops: 2, flagOutcomes: ['A', '500'], variantOutcomes: [], prune: true, idle: true } });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run,
};
