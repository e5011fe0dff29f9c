'use strict';
// The queue of unsent exposure events: order, no loss, no duplicates, bound, retry.
const { getBundle } = require('../lib/bundle');
const { Page, Device, Tab, drain } = require('../lib/env');
const { canon } = require('../lib/explore');
const { snap } = require('../lib/snap');
const MAX = 512;

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  let page, client, mode, got;
  // model
  const m = { queue: [], next: null, tracker: false, pending: null, budget: 0, seq: 0 };
  const variantsFor = () => {
    const o = {};
    for (let i = 0; i < p.flags; i++) o['f' + i] = { key: 'on', metadata: { deliveryMethod: 'web', n: i } };
    return o;
  };
  const now = () => page.clock.now;
  const accepts = () => (mode === 'accept' ? true : mode === 'one' ? m.budget-- > 0 : false);
  const flush = (want) => {
    if (!m.tracker || !m.queue.length) return;
    while (m.queue.length && accepts()) want.push(m.queue.shift());
    if (!m.queue.length) m.next = null;
  };
  const trim = () => {
    while (m.queue.length > MAX) m.queue.shift();
  };
  const setTracker = (want) => {
    m.tracker = true;
    if (m.next === null) m.next = now() + 1000;
    flush(want);
  };
  let budgetImpl = 0;
  const makePlugin = (setup) => ({
    type: 'integration',
    getUser: () => ({ user_id: 'u' }),
    ...(setup ? { setup } : {}),
    track: (e) => {
      let ok;
      if (mode === 'throw') throw new Error('track failed');
      if (mode === 'one') ok = budgetImpl-- > 0;
      else ok = mode === 'accept';
      if (ok) got.push(e.eventProperties.flag_key);
      return ok;
    },
  });
  const open = async () => {
    page = new Page({ device, tab, noStorage: p.noStorage });
    const { sdk } = bundle.load(page.scope);
    got = [];
    page.onRequest = (r) => r.respond(200, variantsFor());
    client = sdk.Experiment.initialize('client-key-123456', { pollOnStart: false });
    m.tracker = false;
    m.next = null;
    m.pending = null;
    await client.fetch({ user_id: 'u' });
    mode = p.modes[0];
    m.budget = budgetImpl = 1;
    if (p.noStorage) m.queue = [];
  };
  await open();
  if (p.fill) {
    // long queues: fill with no integration present, optionally reloading half way
    for (let i = 0; i < p.fill; i++) {
      client.exposure('f' + (m.seq % p.flags));
      m.queue.push('f' + (m.seq % p.flags));
      m.seq++;
      trim();
      if (p.reloadAt === i) {
        page.kill();
        await open();
      }
    }
  }
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    if (m.seq < p.max) acts.push(['track']);
    if (p.modes.length > 1) for (const x of p.modes) if (x !== mode || x === 'one') acts.push(['mode', x]);
    if (!m.tracker && !m.pending) {
      acts.push(['install', 'now']);
      acts.push(['install', 'later']);
    }
    if (m.tracker && p.replace) acts.push(['install', 'now']);
    if (m.pending) acts.push(['ready', true], ['ready', false]);
    if (m.tracker) acts.push(['second']);
    if (p.reload) acts.push(['reload']);
    const [op, arg] = ctx.pick(acts);
    ctx.step(`${op} ${arg === undefined ? '' : arg}`);
    const want = [];
    got = [];
    if (op === 'track') {
      const f = 'f' + (m.seq++ % p.flags);
      m.queue.push(f);
      flush(want);
      trim();
      if (m.tracker && m.queue.length && m.next === null) m.next = now() + 1000;
      client.exposure(f);
    } else if (op === 'mode') {
      mode = arg;
      m.budget = budgetImpl = 1;
    } else if (op === 'install') {
      if (arg === 'now') {
        setTracker(want);
        client.addPlugin(makePlugin());
      } else {
        client.addPlugin(makePlugin(() => new Promise((res, rej) => (m.pending = [res, rej]))));
      }
      await drain();
    } else if (op === 'ready') {
      const [res, rej] = m.pending;
      m.pending = null;
      setTracker(want);
      if (arg) res();
      else rej(new Error('setup failed'));
      await drain();
    } else if (op === 'second') {
      const end = now() + 1000;
      while (m.next !== null && m.next <= end) {
        const at = m.next;
        m.next = at + 1000;
        flush(want);
        if (m.next === null) break;
      }
      await page.timers.advance(1000);
    } else if (op === 'reload') {
      page.kill();
      await open();
    }
    ctx.equal(got, want, `events delivered by ${op}`, 'delivered');
    ctx.state(canon([m.queue, m.tracker, !!m.pending, m.next && m.next - now(), mode, m.budget, m.seq]) + (p.prune ? snap(page, [client]) : ''), p.prune ? p.depth - step - 1 : undefined);
  }
  // finally everything still waiting comes out, once and in order
  got = [];
  mode = 'accept';
  const want = [];
  if (m.pending) {
    m.pending[0]();
    setTracker(want);
    await drain();
  }
  if (!m.tracker) {
    setTracker(want);
    client.addPlugin(makePlugin());
  }
  flush(want);
  await page.timers.advance(1001);
  ctx.equal(got, want, 'events delivered at the end', 'delivered at the end');
  got = [];
  page.kill();
  await open();
  client.addPlugin(makePlugin());
  mode = 'accept';
  await page.timers.advance(3000);
  ctx.equal(got, [], 'events delivered again after a reload', 'delivered twice');
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of track/refuse/tick/reload/set-up histories on the real client against a queue model',
  level_note: 'all histories within the stated depth, plus every history of depth 2 after filling the queue around its bound',
  bounds: (t) => ({ depth: t === 'thorough' ? '7 in full, 11 with state matching' : '5 in full, 8 with state matching', fills: [511, 512, 513, 514, 600] }),
  assumptions: ['one page at a time uses the queue', 'a page is not killed between the integration accepting an event and the queue being stored'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, shards = 16, shardDepth = 3) => out.push({ name, params: { flags: 6, max: 6, reload: true, modes: ['accept', 'refuse'], ...params }, shards, shardDepth });
    add('full', { modes: ['accept', 'refuse', 'throw', 'one'], depth: T ? 7 : 5, replace: true });
    add('deep', { modes: ['refuse', 'accept', 'one'], depth: T ? 11 : 9, prune: true });
    add('memory', { noStorage: true, reload: false, modes: ['refuse', 'accept', 'one'], depth: T ? 9 : 7, prune: true });
    for (const fill of [511, 512, 513, 514, 600])
      for (const noStorage of [false, true])
        for (const reloadAt of noStorage ? [undefined] : [undefined, 300, 512]) add(`fill:${fill}:${noStorage}:${reloadAt}`, { flags: 700, max: 700, fill, noStorage, reloadAt, reload: !noStorage, depth: 2, modes: ['accept', 'refuse'] }, 1, 1);
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run,
};
