'use strict';
// The behavioural session: one per visitor and root domain, ended by inactivity only.
const { getBundle } = require('../lib/bundle');
const { TagPage } = require('../lib/tagenv');
const { Device } = require('../lib/env');

const KEY = 'clientabcdefghijklmn';
const CK = 'EXP_clientabcd_rtbt_session';
const MIN = 60000;

async function run(ctx, p, bundle) {
  const device = new Device();
  const T = p.timeout === undefined ? 30 * MIN : p.timeout;
  const clock = device.clock;
  if (p.blocked) device.onCookieSet = () => false;
  const seen = new Map(); // session id -> model session
  const names = new Map(); // model session -> session id
  const world = {}; // root domain -> { id, start, last }: what tabs with working cookies share
  let next = 0;
  if (p.initial) {
    const init = ctx.pick(p.initial);
    ctx.step(`cookie: ${init}`);
    const put = (v) => device.jar.set('www.example.com', `${CK}=${encodeURIComponent(v)}; domain=.example.com`);
    const good = (o) => {
      world['example.com'] = { id: next++, start: o.sessionStartTime === undefined ? o.lastEventTime : o.sessionStartTime, last: o.lastEventTime };
      names.set(0, o.sessionId);
      seen.set(o.sessionId, 0);
      put(JSON.stringify(o));
    };
    if (init === 'live') good({ sessionId: 'old', sessionStartTime: clock.now - 100 * MIN, lastEventTime: clock.now - MIN });
    else if (init === 'last moment') good({ sessionId: 'old', sessionStartTime: clock.now - 100 * MIN, lastEventTime: clock.now - T });
    else if (init === 'expired') good({ sessionId: 'old', sessionStartTime: clock.now - 100 * MIN, lastEventTime: clock.now - T - 1 });
    else if (init === 'no start') good({ sessionId: 'old', lastEventTime: clock.now - MIN });
    else if (init === 'garbage') put('{');
    else if (init === 'null') put('null');
    else if (init === 'number') put('5');
    else if (init === 'no id') put(JSON.stringify({ lastEventTime: clock.now }));
    else if (init === 'no time') put(JSON.stringify({ sessionId: 'x', lastEventTime: '5' }));
    else if (init === 'undecodable') device.jar.set('www.example.com', `${CK}=%E0%A4%A; domain=.example.com`);
  }
  const tabs = [];
  const open = (host) => {
    const page = new TagPage({ device, url: `https://${host}/` });
    const m = bundle.load(page.scope);
    const t = { host, root: p.roots[host], page, mgr: new m.session.SessionManager(KEY, p.timeout), own: {} };
    tabs.push(t);
    return t;
  };
  open(p.hosts[0]);
  const slot = (t) => (p.blocked ? [t.own, 's'] : [world, t.root]);
  const use = (t, activity) => {
    const [o, k] = slot(t);
    const s = o[k];
    if (s && clock.now - s.last <= T) {
      if (activity) s.last = clock.now;
    } else o[k] = { id: next++, start: clock.now, last: clock.now };
    return o[k];
  };
  const see = (id, s, op) => {
    ctx.ok(typeof id === 'string' && id, `no session id after ${op}`, 'session id');
    if (names.has(s.id)) ctx.equal(id, names.get(s.id), `session id after ${op}`, 'session continues');
    else {
      ctx.ok(!seen.has(id), `session id ${id} used again after ${op}`, 'new session');
      names.set(s.id, id);
      seen.set(id, s.id);
    }
  };
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    tabs.forEach((t, i) => ops.push(['read', i], ['act', i], ['start', i]));
    if (tabs.length < p.tabs) p.hosts.forEach((h) => ops.push(['open', h]));
    for (const w of p.waits) ops.push(['wait', w]);
    if (p.busy) ops.push(['busy', 0]);
    if (p.restart) ops.push(['restart', '']);
    const [k, a] = ctx.pick(ops);
    const op = `${k} ${a}`;
    ctx.step(op);
    if (k === 'read') see(tabs[a].mgr.getCurrentSessionId(), use(tabs[a]), op);
    else if (k === 'start') ctx.equal(tabs[a].mgr.getSessionStartTime(), use(tabs[a]).start, 'start of the session', 'session start');
    else if (k === 'act') {
      tabs[a].mgr.recordActivity();
      use(tabs[a], true);
    } else if (k === 'busy') {
      // days of activity, never interrupted for longer than the timeout
      for (let i = 0; i < 100; i++) {
        tabs[a].mgr.recordActivity();
        use(tabs[a], true);
        clock.now += T;
        see(tabs[a].mgr.getCurrentSessionId(), use(tabs[a]), op);
      }
    } else if (k === 'open') open(a);
    else if (k === 'wait') clock.now += a === 'T' ? T : a === 'T1' ? T + 1 : a === 'half' ? Math.floor(T / 2) : a;
    else {
      for (const t of tabs) t.page.kill();
      tabs.length = 0;
      device.jar.list = device.jar.list.filter((c) => c.expires !== null);
      for (const r of Object.keys(world)) delete world[r];
      open(p.hosts[0]);
    }
    // the only thing left on the device is the session's cookie, on the root domain
    if (k !== 'open' && !p.initial) {
      const left = device.jar.dump().map((c) => c.replace(/=.*@/, '@')).sort();
      const want = p.blocked ? [] : Object.keys(world).map((r) => `${CK}@${r}${p.hostOnly && p.hostOnly.includes(r) ? '!' : ''}`).sort();
      ctx.equal(left, want, `cookies after ${op}`, 'cookies');
    }
    ctx.state([tabs.map((t) => [t.host, p.blocked && t.own.s ? [t.own.s.id, clock.now - t.own.s.last, clock.now - t.own.s.start] : 0]), Object.entries(world).map(([r, s]) => [r, clock.now - s.last, clock.now - s.start])]);
  }
  // in the end every tab agrees
  tabs.forEach((t, i) => see(t.mgr.getCurrentSessionId(), use(t), `the end in tab ${i}`));
}

const EX = { 'www.example.com': 'example.com', 'app.example.com': 'example.com', 'example.com': 'example.com' };
const MORE = { 'a.b.example.co.uk': 'example.co.uk', 'www.example.co.uk': 'example.co.uk', 'one.github.io': 'one.github.io', 'two.github.io': 'two.github.io', localhost: 'localhost', '10.0.0.1': '10.0.0.1' };
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of activity, reading, waiting and tab sequences over the real session code and a simulated cookie jar, against a reference partition of the activity into sessions',
  level_note: 'all sequences within the stated depth',
  assumptions: ['the clock does not go back', 'nobody else deletes the cookie while pages that know the session are open'],
  bounds: (t) => ({ depth: t === 'thorough' ? 7 : 6, tabs: 3 }),
  scenarios(tier) {
    const th = tier === 'thorough';
    const waits = [1, 'half', 'T', 'T1'];
    return [
      { name: 'tabs', params: { depth: th ? 6 : 5, tabs: 2, hosts: ['www.example.com', 'app.example.com'], roots: EX, waits: ['half', 'T', 'T1'], restart: true }, shards: 16, shardDepth: 2 },
      { name: 'one-tab', params: { depth: th ? 8 : 6, tabs: 1, hosts: ['www.example.com'], roots: EX, waits, restart: true }, shards: 16, shardDepth: 2 },
      { name: 'busy', params: { depth: 4, tabs: 2, hosts: ['www.example.com'], roots: EX, waits: ['T', 'T1'], busy: true }, shards: 9, shardDepth: 1 },
      { name: 'short', params: { depth: th ? 7 : 5, tabs: 1, hosts: ['www.example.com'], roots: EX, waits, timeout: 10 }, shards: 7, shardDepth: 1 },
      { name: 'zero', params: { depth: 5, tabs: 1, hosts: ['www.example.com'], roots: EX, waits: [1, 2], timeout: 0 }, shards: 5, shardDepth: 1 },
      { name: 'blocked', params: { depth: th ? 6 : 5, tabs: 2, hosts: ['www.example.com'], roots: EX, waits: ['half', 'T', 'T1'], blocked: true }, shards: 7, shardDepth: 1 },
      { name: 'initial', params: { depth: th ? 5 : 4, tabs: 2, hosts: ['www.example.com'], roots: EX, waits: ['half', 'T', 'T1'], initial: ['live', 'last moment', 'expired', 'no start', 'garbage', 'null', 'number', 'no id', 'no time', 'undecodable'] }, shards: 10, shardDepth: 1 },
      { name: 'hosts', params: { depth: th ? 5 : 4, tabs: 3, hosts: Object.keys(MORE), roots: MORE, hostOnly: ['localhost', '10.0.0.1'], waits: ['T1'] }, shards: 10, shardDepth: 1 },
    ];
  },
  async prepare() {
    return getBundle({ session: 'experiment-tag/src/behavioral-targeting/session-manager.ts' });
  },
  run,
};
