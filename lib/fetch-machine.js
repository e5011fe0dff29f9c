'use strict';
// Lockstep model of fetch()/clear() with responses in any order and retries over virtual time.
const { Page, drain, Device } = require('./env');
const { canon } = require('./explore');
const { snap } = require('./snap');

const DELAYS = [500, 750, 1125, 1687.5, 2531.25, 3796.875, 5695.3125, 8542.96875];
const TIMEOUT = 10000;
const b64 = (s) => Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8');

function outcomeBody(kind, tag) {
  switch (kind) {
    case 'full':
      return [200, { a: { key: `a-${tag}`, value: `a-${tag}` }, b: { key: `b-${tag}`, payload: { t: tag }, metadata: { experimentKey: 'e' } } }];
    case 'part':
      return [200, { a: { key: `a-${tag}` } }];
    case 'other':
      return [200, { c: { key: `c-${tag}` } }];
    case 'empty':
      return [200, {}];
    case '500':
      return [500, 'oops'];
    case '404':
      return [404, 'none'];
    case '429':
      return [429, 'slow'];
    case '204':
      return [204, ''];
    case 'bad':
      return [200, '{"a":'];
    case 'net':
      return null;
  }
}
const seen = (v) => ({ ...v, ...(v.metadata && v.metadata.experimentKey ? { expKey: v.metadata.experimentKey } : {}) });
const isSuccess = (k) => ['full', 'part', 'other', 'empty'].includes(k);
const retriable = (k) => k !== '404';

// p: {retry, throwOnError, fetchOps:[flagKeys...], outcomes, retryOutcomes, depth, maxFetch, clears, prune, timeout}
async function run(ctx, p, bundle) {
  const device = new Device();
  const page = new Page({ device });
  const { sdk } = bundle.load(page.scope);
  const timeout = p.timeout === undefined ? TIMEOUT : p.timeout;
  const cfg = { retryFetchOnFailure: p.retry, throwOnError: !!p.throwOnError, pollOnStart: false };
  if (p.timeout !== undefined) cfg.fetchTimeoutMillis = p.timeout;
  const client = new sdk.ExperimentClient('client-key-123456', { ...cfg });
  const m = { variants: {}, jobs: [], clears: 0, n: 0 };
  const calls = [];
  let seenReq = 0;
  const now = () => page.clock.now;
  const expectRequest = [];

  const match = (what) => {
    // every request that should have gone out did, in order, for the right user and flags
    while (seenReq < page.requests.length || expectRequest.length) {
      const r = page.requests[seenReq++];
      if (!r) ctx.fail(`${what}: no request for fetch ${expectRequest[0].id} attempt ${expectRequest[0].attempt}`, 'missing request');
      const user = JSON.parse(b64(r.headers['X-Amp-Exp-User']));
      // attempts due at the very same instant may go out in any order
      const at = expectRequest.findIndex((x) => 'u' + x.id === user.user_id);
      if (at < 0) ctx.fail(`${what}: unexpected request at +${now() - 1700000000000} ms for ${user.user_id}`, 'unexpected request');
      const j = expectRequest.splice(at, 1)[0];
      ctx.equal(r.headers['X-Amp-Exp-Flag-Keys'] && JSON.parse(b64(r.headers['X-Amp-Exp-Flag-Keys'])), j.flagKeys, `${what}: flag keys of the request`);
      j.req = r;
    }
  };
  const compare = (what) => {
    ctx.equal(client.all(), m.variants, `${what}: all()`, 'variants');
    const other = new sdk.ExperimentClient('client-key-123456', { ...cfg });
    ctx.equal(other.all(), m.stored || {}, `${what}: variants after a reload`, 'stored variants');
    for (const c of calls) ctx.equal(c.got, c.want, `${what}: outcome of fetch ${c.id}`, 'promise');
  };
  const failJob = (j, kind) => {
    if (j.attempt === 0) {
      const c = calls[j.id - 1];
      c.want = p.throwOnError ? 'rejected' : 'resolved';
      if (p.retry && retriable(kind)) {
        j.phase = 'waiting';
        j.attempt = 1;
        j.due = now() + DELAYS[0];
      } else j.phase = 'done';
    } else if (j.cancelled || j.attempt >= DELAYS.length) j.phase = 'done';
    else {
      j.attempt++;
      j.phase = 'waiting';
      j.due = now() + DELAYS[j.attempt - 1];
    }
  };
  const store = (j, body) => {
    const vs = {};
    for (const k of Object.keys(body)) vs[k] = seen(body[k]);
    const partial = j.flagKeys && j.flagKeys.length > 0;
    const next = partial ? { ...m.variants } : {};
    if (partial) for (const k of j.flagKeys) delete next[k];
    Object.assign(next, vs);
    m.variants = next;
    m.stored = next;
  };

  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    if (m.n < p.maxFetch) for (const f of p.fetchOps) acts.push(['fetch', f]);
    for (const j of m.jobs) if (j.phase === 'inflight') for (const o of j.attempt ? p.retryOutcomes || p.outcomes : p.outcomes) acts.push(['respond', j, o]);
    if (m.clears < (p.clears || 0)) acts.push(['clear']);
    const dues = m.jobs.filter((j) => j.phase === 'waiting' || (j.phase === 'inflight' && j.deadline !== null)).map((j) => (j.phase === 'waiting' ? j.due : j.deadline));
    if (dues.length && p.ticks !== false) acts.push(['tick', Math.min(...dues)]);
    if (!acts.length) break;
    const a = ctx.pick(acts);
    if (a[0] === 'fetch') {
      const id = ++m.n;
      const flagKeys = a[1] === null ? undefined : a[1];
      if (p.retry)
        for (const j of m.jobs) {
          if (j.phase === 'waiting') j.phase = 'done';
          else if (j.phase === 'inflight' && j.attempt > 0) j.cancelled = true;
        }
      const j = { id, flagKeys, attempt: 0, phase: 'inflight', deadline: timeout > 0 ? now() + timeout : null };
      m.jobs.push(j);
      const c = { id, got: 'pending', want: 'pending' };
      calls.push(c);
      ctx.step(`fetch ${id} flagKeys=${canon(flagKeys)}`);
      client.fetch({ user_id: 'u' + id }, flagKeys === undefined ? undefined : { flagKeys }).then(
        () => (c.got = 'resolved'),
        () => (c.got = 'rejected'),
      );
      expectRequest.push(j);
      await drain();
    } else if (a[0] === 'respond') {
      const [, j, o] = a;
      const b = outcomeBody(o, `${j.id}.${j.attempt}`);
      ctx.step(`respond to fetch ${j.id} attempt ${j.attempt}: ${o}`);
      if (b === null) j.req.fail();
      else j.req.respond(b[0], b[1]);
      if (isSuccess(o)) {
        store(j, b[1]);
        if (j.attempt === 0) calls[j.id - 1].want = 'resolved';
        j.phase = 'done';
      } else failJob(j, o);
      await drain();
    } else if (a[0] === 'clear') {
      m.clears++;
      ctx.step('clear()');
      client.clear();
      m.variants = {};
      m.stored = {};
    } else {
      ctx.step(`advance to +${a[1] - 1700000000000}`);
      await page.timers.advance(a[1] - 0.01 - now());
      match('just before the next due time');
      compare('just before the next due time');
      page.timers.advanceSync(a[1] - now());
      await drain();
      for (const j of m.jobs) {
        if (j.phase === 'waiting' && j.due <= now()) {
          j.phase = 'inflight';
          j.deadline = now() + TIMEOUT;
          expectRequest.push(j);
        } else if (j.phase === 'inflight' && j.deadline !== null && j.deadline <= now()) {
          // a late answer to this attempt must change nothing
          const late = j.req;
          failJob(j, 'timeout');
          late.respond(200, { a: { key: 'late' } });
        }
      }
      expectRequest.sort((x, y) => x.due - y.due);
      await drain();
    }
    match(ctx.trace[ctx.trace.length - 1]);
    compare(ctx.trace[ctx.trace.length - 1]);
    const st = canon([m.variants, m.stored, m.n, m.clears, m.jobs.filter((j) => j.phase !== 'done').map((j) => [j.id, j.flagKeys, j.attempt, j.phase, j.cancelled, (j.phase === 'waiting' ? j.due : j.deadline) - now()])]);
    ctx.state(st + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
}
module.exports = { run, DELAYS };
