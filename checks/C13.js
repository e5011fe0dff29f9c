'use strict';
// Event bridge: queueing, replay, order, bound, isolation of instances.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
const { canon } = require('../lib/explore');

async function run(ctx, p, bundle) {
  const page = new Page();
  const { con } = bundle.load(page.scope);
  const names = ['i0', 'i1', 'toString'].slice(0, p.instances);
  const get = (n) => con.AnalyticsConnector.getInstance(n);
  const m = {};
  let seq = 0;
  for (const n of names) m[n] = { queue: [], recv: 0, want: [], got: [], echoes: [] };
  if (p.fill) {
    for (let i = 0; i < p.fill; i++) {
      const e = { eventType: 'e' + seq++, eventProperties: { i } };
      get(names[0]).eventBridge.logEvent(e);
      if (m[names[0]].queue.length < 512) m[names[0]].queue.push(e);
    }
  }
  // events logged by a receiver are delivered exactly once too; where they stand among the others is left open
  const same = (k, what) => {
    const s = m[k];
    const isEcho = ([, e]) => e.eventType.startsWith('echo');
    ctx.equal(s.got.filter((x) => !isEcho(x)), s.want, what, 'delivered');
    ctx.equal(s.got.filter(isEcho), s.echoes, `${what} (those logged by the receiver itself)`, 'delivered');
  };
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    for (const n of names) acts.push(['log', n], ['receiver', n]);
    if (p.reentrant) for (const n of names) acts.push(['echo', n]);
    const [op, n, arg] = ctx.pick(acts);
    const s = m[n];
    ctx.step(`${op} ${n}`);
    if (op === 'log') {
      const e = { eventType: 'e' + seq++, eventProperties: { step, n }, userProperties: { u: 1 } };
      get(n).eventBridge.logEvent(e);
      if (s.recv) s.want.push([s.recv, e]);
      else if (s.queue.length < 512) s.queue.push(e);
    } else if (op === 'echo') {
      // a receiver which logs a further event (once) when it is handed the first one it sees
      const r = ++s.recv;
      let echoed = null;
      get(n).eventBridge.setEventReceiver((e) => {
        s.got.push([r, e]);
        if (!echoed) {
          echoed = { eventType: 'echo' + seq++ };
          if (s.recv === r) s.echoes.push([r, echoed]);
          get(n).eventBridge.logEvent(echoed);
        }
      });
      for (const e of s.queue) s.want.push([r, e]);
      s.queue = [];
    } else {
      const r = ++s.recv;
      get(n).eventBridge.setEventReceiver((e) => s.got.push([r, e]));
      for (const e of s.queue) s.want.push([r, e]);
      s.queue = [];
    }
    for (const k of names) same(k, `events delivered on ${k}`);
    ctx.state(canon(names.map((k) => [m[k].queue.length, m[k].recv, m[k].want.length])));
  }
  for (const k of names) {
    if (!m[k].recv) {
      get(k).eventBridge.setEventReceiver((e) => m[k].got.push([0, e]));
      for (const e of m[k].queue) m[k].want.push([0, e]);
    }
    same(k, `events delivered on ${k} in the end`);
  }
}
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of log/receiver histories on the real event bridge against a queue model',
  level_note: 'all histories within depth over up to two instances, and all short histories after filling the queue around its bound',
  bounds: (t) => ({ depth: t === 'thorough' ? 10 : 8, twoInstancesDepth: t === 'thorough' ? 8 : 6, fills: [510, 511, 512, 513, 514] }),
  assumptions: ['a receiver does not throw', 'where an event logged from inside a receiver stands in the order is left open'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [{ name: 'one', params: { instances: 1, depth: T ? 11 : 9 }, shards: 8, shardDepth: 3 }, { name: 'two', params: { instances: 2, depth: T ? 8 : 6 }, shards: 8, shardDepth: 2 }, { name: 'reentrant', params: { instances: 2, reentrant: true, depth: T ? 7 : 5 }, shards: 6, shardDepth: 1 }, { name: 'reentrant:one', params: { instances: 1, reentrant: true, depth: T ? 10 : 8 }, shards: 3, shardDepth: 1 }];
    for (const fill of [510, 511, 512, 513, 514]) out.push({ name: 'fill:' + fill, params: { instances: 2, fill, depth: 4 } });
    return out;
  },
  async prepare() {
    return getBundle({ con: 'analytics-connector/src/index.ts' });
  },
  run,
};
