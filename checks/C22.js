'use strict';
// Impressions made before consent: held, sent once and in order on a grant, never sent after a refusal.
const { getBundle } = require('../lib/bundle');
const { Page, Device } = require('../lib/env');
const { snap } = require('../lib/snap');

const CAP = 512;
const RETRY = 1000;

async function run(ctx, p, bundle) {
  const page = new Page({ device: new Device() });
  const m = bundle.load(page.scope);
  const gate = m.gate.consentGate;
  gate.required = p.required !== false;
  let mode = 'accept';
  const attempts = [];
  const sent = [];
  const integration = {
    tag: 'me',
    track(e) {
      if (this !== integration) ctx.fail('track lost its receiver', 'binding');
      attempts.push(e);
      if (mode === 'throw') throw new Error('no');
      if (mode === 'one') {
        mode = 'refuse';
        sent.push(e);
        return true;
      }
      if (mode === 'revoke') {
        // the integration itself leads to a refusal (a page script reacting to the event)
        mode = 'accept';
        sent.push(e);
        apply('denied');
        return true;
      }
      if (mode === 'refuse') return false;
      sent.push(e);
      return true;
    },
  };
  // reference
  let status = 'pending';
  let held = [];
  let tick = null; // time of the next retry
  const expected = [];
  let refMode = 'accept';
  const realTrack = (e) => {
    if (refMode === 'throw') return 'throw';
    if (refMode === 'one') {
      refMode = 'refuse';
      expected.push(e);
      return true;
    }
    if (refMode === 'revoke') {
      refMode = 'accept';
      expected.push(e);
      status = 'denied';
      held = [];
      tick = null;
      return true;
    }
    if (refMode === 'refuse') return false;
    expected.push(e);
    return true;
  };
  const flush = () => {
    while (held.length && realTrack(held[0]) === true) held.shift();
    if (held.length) tick = tick === null ? page.clock.now + RETRY : tick;
    else tick = null;
  };
  const apply = (s) => gate.manager.setStatus(s);
  if (p.required === false) status = 'granted';
  m.buf.wrapIntegrationTrack(integration);
  let n = 0;
  const track = () => {
    const k = n++;
    const withTime = k % 2;
    const ev = { eventType: '$impression', eventProperties: { id: k, ...(withTime ? { time: 5 } : {}) } };
    const copy = JSON.stringify(ev);
    let out;
    try {
      out = integration.track(ev);
    } catch (e) {
      out = 'throw';
    }
    ctx.ok(JSON.stringify(ev) === copy, 'the event given is not changed', 'event mutated');
    let want;
    if (status === 'granted') want = realTrack({ id: k, ...(withTime ? { time: 5 } : {}) });
    else {
      want = true;
      if (status === 'pending') {
        if (held.length >= CAP) held.shift();
        held.push({ id: k, time: withTime ? 5 : page.clock.now });
      }
    }
    ctx.equal(out, want, 'track reports', 'track result');
  };
  for (let i = 0; i < (p.prefill || 0); i++) track();
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(p.ops);
    ctx.step(op);
    const [kind, arg] = op.split(' ');
    if (kind === 'track') track();
    else if (kind === 'mode') mode = refMode = arg;
    else if (kind === 'wrap') m.buf.wrapIntegrationTrack(integration);
    else if (kind === 'clock') {
      const end = page.clock.now + Number(arg);
      const t0 = page.clock.now;
      await page.timers.advance(Number(arg));
      page.clock.now = t0;
      while (tick !== null && tick <= end) {
        page.clock.now = tick;
        tick += RETRY;
        flush();
      }
      page.clock.now = end;
    } else {
      const from = status;
      if (arg === 'revoked') continue;
      apply(arg);
      if (arg === 'pending') {
        // a decision cannot be taken back to undecided
      } else if (from === 'pending' || from !== arg) {
        status = arg;
        if (arg === 'denied') {
          held = [];
          tick = null;
        } else if (from === 'pending' && p.required !== false) flush();
      }
    }
    ctx.equal(
      sent.map((e) => e.eventProperties),
      expected,
      `impressions sent after ${op}`,
      'impressions sent',
    );
    ctx.equal(m.buf.getImpressionBufferDebugState().length, 1, 'the integration is gated once', 'wrapped once');
    ctx.ok(tick === null || page.timers.pending().length > 0, 'a retry is pending', 'retry timers');
    // every continuation works on fresh ids; what is held matters by order and time stamps only
    ctx.state([snap(page, [m.__vars(), integration]), mode, status, tick === null ? null : tick - page.clock.now], p.depth - 1 - d);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of impression, consent, failure and timer sequences on the real buffer, against a reference queue',
  level_note: 'all sequences within the stated depth',
  bounds: (t) => ({ depth: t === 'thorough' ? 9 : 7, cap: CAP }),
  assumptions: ['with an impression still held back, one made under a grant goes to the integration directly'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const base = ['track', 'status granted', 'status denied', 'mode accept', 'mode refuse', 'mode throw', 'mode one', 'clock 500', 'clock 1000'];
    return [
      { name: 'decisions, failures, retries', params: { depth: T ? 9 : 7, ops: base }, shards: 16, shardDepth: 2 },
      { name: 'refusal from within, second wrap', params: { depth: T ? 6 : 5, ops: [...base, 'status pending', 'mode revoke', 'wrap'] }, shards: 16, shardDepth: 2 },
      { name: 'full buffer', params: { depth: T ? 5 : 4, prefill: CAP - 1, ops: ['track', 'status granted', 'status denied', 'mode refuse', 'mode accept', 'clock 1000'] }, shards: 16, shardDepth: 2 },
      { name: 'several held', params: { depth: T ? 7 : 6, prefill: 3, ops: ['track', 'status granted', 'status denied', 'mode refuse', 'mode one', 'mode throw', 'mode revoke', 'mode accept', 'clock 1000', 'clock 400'] }, shards: 16, shardDepth: 2 },
      { name: 'consent not required', params: { depth: 4, required: false, ops: ['track', 'status granted', 'mode refuse', 'mode throw', 'mode accept', 'clock 1000'] }, shards: 4, shardDepth: 1 },
    ];
  },
  async prepare() {
    return getBundle({ buf: 'experiment-tag/src/consent/consent-impression-buffer.ts', gate: 'experiment-tag/src/consent/consent-gate.ts' });
  },
  run,
};
