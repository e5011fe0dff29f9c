'use strict';
// Storage under cookie consent: nothing is read from or written to the device before a grant, a grant hands over
// what was held back (keeping identifiers already on the device), a refusal drops it and stops persistence.
const { getBundle } = require('../lib/bundle');
const { TagPage, drain } = require('../lib/tagenv');
const { Device } = require('../lib/env');
const { snap } = require('../lib/snap');
const { canon } = require('../lib/explore');

const SL = 'EXP_clientabcd';
const KEYS = {
  identity: ['localStorage', SL],
  provider: ['localStorage', SL + '_DEFAULT_USER_PROVIDER'],
  plain: ['sessionStorage', SL + '_REDIRECT'],
  other: ['localStorage', SL + '_rtbt_events'],
  exempt: ['sessionStorage', 'amp-preview-mode'],
  editor: ['sessionStorage', 'visual-editor-state'],
};
const OLD = {
  identity: { web_exp_id: 'old', web_exp_id_v2: 'old2', extra: 1 },
  provider: { first_seen: '100', landing_url: 'https://old' },
  plain: { f: 'old' },
  other: [{ old: 1 }],
  exempt: { old: true },
  editor: { old: true },
};
const VAL = (name, n) =>
  name === 'identity' ? { web_exp_id: 'new' + n, web_exp_id_v2: 'newer' + n, device_id: 'd' + n } : name === 'provider' ? { first_seen: '20' + n, landing_url: 'u' + n } : name === 'other' ? [n, { a: n }] : { f: n };
// identifiers a visitor already consented to survive the hand-over
const STICKY = { identity: ['web_exp_id', 'web_exp_id_v2', 'device_id'], provider: ['first_seen'] };
function handOver(name, pending, old) {
  if (!old || !STICKY[name]) return pending;
  const out = { ...pending };
  for (const k of STICKY[name]) if (old[k] !== undefined) out[k] = old[k];
  return out;
}

// the synchronous helpers: local/session storage items and the synchronous cookie
async function runSync(ctx, p, bundle) {
  const device = new Device();
  const page = new TagPage({ device, url: 'https://www.example.com/p' });
  const m = bundle.load(page.scope);
  const gate = m.gate.consentGate;
  gate.required = p.required;
  const cookies = [];
  device.onCookieSet = (s) => (cookies.push(s), true);
  const isDelete = (s) => /expires=Thu, 01 Jan 1970/.test(s);
  const dev = {}; // model of the device
  const buf = {};
  let status = 'pending';
  const raw = (name) => (KEYS[name][0] === 'localStorage' ? page.localRaw : page.sessionRaw);
  for (const n of p.names)
    if (n !== 'sync' && ctx.choose(2, 'old ' + n)) {
      dev[n] = OLD[n];
      raw(n).set(KEYS[n][1], JSON.stringify(OLD[n]));
    }
  const ckey = SL + '_rtbt_session';
  let mem;
  let cdev;
  if (p.names.includes('sync') && ctx.choose(2, 'old cookie')) {
    cdev = { id: 0 };
    device.jar.set(page.host, `${ckey}=${encodeURIComponent(JSON.stringify(cdev))}; domain=.example.com`);
  }
  const sync = new m.cookie.SyncJsonCookie(ckey, () => '.example.com', { maxAgeSeconds: 1000 });
  let armedMem = false;
  let n = 0;
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    for (const k of p.names) ops.push(['set', k], ['get', k], ['remove', k]);
    for (const s of ['granted', 'denied', 'pending']) ops.push(['status', s]);
    const [op, arg] = ctx.pick(ops);
    ctx.step(`${op} ${arg} [${status}]`);
    device.accessLog = [];
    cookies.length = 0;
    const withheld = p.required && status !== 'granted';
    const open = !withheld || arg === 'exempt' || arg === 'editor';
    let moved = false;
    if (op === 'status') {
      const before = status;
      if (arg !== 'pending' && arg !== status) status = arg;
      gate.manager.setStatus(arg);
      if (p.required && before === 'pending' && status === 'granted') {
        for (const k of Object.keys(buf)) dev[k] = handOver(k, buf[k], dev[k]);
        if (armedMem && mem !== undefined) cdev = mem;
      }
      if (before === 'pending' && status !== 'pending') for (const k of Object.keys(buf)) delete buf[k];
      moved = status !== before;
    } else if (arg === 'sync') {
      if (op === 'set') {
        mem = { id: ++n };
        sync.write(mem);
        if (!withheld) cdev = mem;
        else if (status === 'pending') armedMem = true;
      } else if (op === 'get') {
        const want = withheld ? mem : cdev !== undefined ? cdev : mem;
        ctx.equal(sync.read(), want, 'session cookie read', 'cookie read');
      } else {
        mem = undefined;
        sync.clear();
        if (!(p.required && status === 'pending')) cdev = undefined;
      }
    } else {
      const [area, key] = KEYS[arg];
      if (op === 'set') {
        const v = VAL(arg, ++n);
        m.storage.setStorageItem(area, key, v);
        if (open) dev[arg] = JSON.parse(JSON.stringify(v));
        else if (status === 'pending') buf[arg] = JSON.parse(JSON.stringify(v));
        // changing the value afterwards changes nothing that is stored or held
        if (Array.isArray(v)) v.push('mutated');
        else v.mutated = 1;
      } else if (op === 'get') {
        const got = m.storage.getStorageItem(area, key);
        const want = open ? dev[arg] : buf[arg];
        ctx.equal(got, want === undefined ? null : want, `read of ${arg} [${status}]`, 'read');
        if (got && typeof got === 'object') got.mutated = 1;
      } else {
        m.storage.removeStorageItem(area, key);
        if (open || status === 'denied') delete dev[arg];
        else delete buf[arg];
      }
    }
    // nothing of the visitor's is touched while consent is withheld
    const nowWithheld = p.required && status !== 'granted';
    if (withheld && nowWithheld && !open) {
      for (const [kind, key] of device.accessLog) {
        if (status === 'denied' && /remove$/.test(kind)) continue;
        if (kind === 'cookie.set' && status === 'denied' && cookies.every(isDelete)) continue;
        ctx.fail(`${kind} ${key} during ${op} ${arg} while consent is ${status}`, 'access while withheld');
      }
    }
    // the device holds exactly what it should
    for (const k of p.names)
      if (k !== 'sync') {
        const r = raw(k).get(KEYS[k][1]);
        ctx.equal(r === undefined ? undefined : JSON.parse(r), dev[k], `stored ${k} after ${op} ${arg} [${status}]`, 'device content');
      }
    const want = cdev === undefined ? [] : [`${ckey}=${encodeURIComponent(JSON.stringify(cdev))}@example.com`];
    ctx.equal(device.jar.dump(), want, `cookies after ${op} ${arg} [${status}]`, 'cookie content');
    void moved;
    ctx.state([status, dev, buf, mem, cdev, armedMem, snap(page, [m.__vars(), sync])].map(canon).join('|'), p.depth - d);
  }
}

// the asynchronous cookie store over a delegate whose completions the explorer orders
async function runAsync(ctx, p, bundle) {
  const page = new TagPage({});
  const m = bundle.load(page.scope);
  const gate = m.gate.consentGate;
  gate.required = true;
  let status = 'pending';
  const store = new Map();
  const key = SL + '_identity';
  const J = (o) => JSON.stringify(o);
  if (ctx.choose(2, 'old')) store.set(key, p.json ? J({ web_exp_id_v2: 'old', first_seen: '1' }) : { old: 1 });
  const pend = [];
  const calls = [];
  const slow = (kind, fn) => new Promise((resolve, reject) => pend.push({ kind, go: () => resolve(fn()), fail: () => reject(new Error('blocked')) }));
  const delegate = {
    get: (k) => {
      calls.push('get');
      return slow('get', () => store.get(k));
    },
    set: (k, v) => {
      calls.push('set');
      store.set(k, v);
      return slow('set', () => undefined);
    },
    remove: (k) => {
      calls.push('remove');
      store.delete(k);
      return slow('remove', () => undefined);
    },
  };
  const s = new m.ccs.ConsentAwareCookieStorage(delegate);
  // model: the linear history of values the store logically held
  let logical = store.get(key);
  const hist = [logical]; // values since the start
  let held; // value held back while undecided
  let cleared = false; // a refusal has erased the store
  const gets = [];
  let n = 0;
  const MAKE = (i) => (p.json ? J({ web_exp_id_v2: 'n' + i, first_seen: '9' + i }) : { n: i });
  for (let d = 0; d < p.depth; d++) {
    const ops = ['set', 'get', 'remove'];
    if (status !== 'granted') ops.push('granted');
    if (status !== 'denied') ops.push('denied');
    pend.slice(0, 2).forEach((x, i) => ops.push('complete' + i));
    if (p.faults && pend.length) ops.push('fail0');
    const op = ctx.pick(ops);
    ctx.step(`${op} [${status}] pending=${pend.map((x) => x.kind)}`);
    calls.length = 0;
    if (op === 'set') {
      const v = MAKE(++n);
      if (status === 'pending') held = v;
      else if (status === 'granted') {
        logical = v;
        hist.push(v);
      }
      s.set(key, p.json ? v : { ...v }).catch(() => {});
      if (!p.json && status === 'pending') {
        // the caller's object may change afterwards
        held = { ...v };
      }
    } else if (op === 'get') {
      const g = { from: hist.length - 1, status, held };
      gets.push(g);
      s.get(key).then(
        (v) => (g.done = { v, to: hist.length, status }),
        () => (g.done = { failed: true }),
      );
    } else if (op === 'remove') {
      if (status === 'pending') held = undefined;
      else {
        logical = undefined;
        hist.push(undefined);
      }
      s.remove(key).catch(() => {});
    } else if (op === 'granted' || op === 'denied') {
      const before = status;
      status = op;
      if (before === 'pending' && op === 'granted' && held !== undefined) {
        let v = held;
        if (p.json && logical) {
          const o = JSON.parse(logical);
          v = J({ ...JSON.parse(held), web_exp_id_v2: o.web_exp_id_v2, first_seen: o.first_seen });
        }
        logical = v;
        hist.push(v);
      }
      if (before === 'pending') held = undefined;
      if (op === 'denied') {
        // a refusal is followed by the sweep, which erases the cookie
        store.delete(key);
        logical = undefined;
        hist.push(undefined);
        cleared = true;
      }
      gate.manager.setStatus(op);
      if (op === 'denied') ctx.ok(!store.has(key), 'nothing stored at a refusal', 'stored at refusal');
    } else {
      const i = op === 'fail0' ? 0 : Number(op.slice(8));
      const [x] = pend.splice(i, 1);
      if (op === 'fail0') x.fail();
      else x.go();
    }
    await drain();
    if (status === 'denied') {
      ctx.ok(!calls.includes('get') && !calls.includes('set'), `${calls} on the device while consent is refused`, 'access while refused');
      ctx.ok(!store.has(key), `stored ${canon(store.get(key))} while consent is refused`, 'stored while refused');
    }
    if (status === 'pending') ctx.ok(calls.length === 0, `${calls} on the device while undecided`, 'access while undecided');
    if (op === 'get' && status !== 'granted') {
      const g = gets[gets.length - 1];
      ctx.ok(g.done && !g.done.failed, 'a read without consent settles at once', 'withheld read settles');
      ctx.equal(g.done.v, status === 'pending' ? held : undefined, 'read without consent', 'withheld read');
    }
    ctx.state([status, held, logical, cleared, [...store], pend.map((x) => x.kind), calls, gets.map((g) => [g.from, g.status, g.done]), hist, snap(page, [s, gate])]);
  }
  // let everything finish
  for (let i = 0; pend.length && i < 50; i++) {
    pend.shift().go();
    await drain();
  }
  ctx.ok(pend.length === 0, 'quiescence', 'quiescence');
  if (status === 'denied') ctx.ok(!store.has(key), 'nothing stored after a refusal', 'stored while refused');
  if (status === 'granted' && !cleared && !p.faults) ctx.equal(store.get(key), logical, 'stored at the end', 'final content');
  for (const g of gets) {
    ctx.ok(g.done, 'every read settles', 'read settles');
    if (g.status !== 'granted' || g.done.failed || cleared || p.faults) continue;
    const allowed = hist.slice(g.from, g.done.to).map(canon);
    ctx.ok(allowed.includes(canon(g.done.v)), `read returned ${canon(g.done.v)}, the store held ${allowed}`, 'read value');
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of operation sequences on the real consent-gated storage against a reference, including every completion order of an asynchronous cookie store',
  level_note: 'all sequences within the stated depth; device accesses recorded by the fake device',
  bounds: (t) => ({ 'synchronous depth': t === 'thorough' ? 6 : 5, 'asynchronous depth': t === 'thorough' ? 8 : 6 }),
  assumptions: ['the stored keys do not contain an underscore in the deployment-key part', 'removing a value while undecided only drops the held value'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const sets = [['identity', 'sync'], ['provider', 'exempt'], ['plain', 'editor'], ['other', 'identity']];
    for (const names of sets) out.push({ name: 'sync ' + names, params: { kind: 'sync', names, depth: T ? 6 : 5, required: true }, shards: 4, shardDepth: 3 });
    out.push({ name: 'sync ungated', params: { kind: 'sync', names: ['identity', 'sync'], depth: 4, required: false }, shards: 2, shardDepth: 2 });
    for (const json of [true, false]) out.push({ name: 'async json=' + json, params: { kind: 'async', json, depth: T ? 8 : 6 }, shards: 8, shardDepth: 3 });
    out.push({ name: 'async faults', params: { kind: 'async', json: true, faults: true, depth: T ? 7 : 6 }, shards: 8, shardDepth: 3 });
    return out;
  },
  async prepare() {
    return getBundle({
      storage: 'experiment-tag/src/util/storage.ts',
      cookie: 'experiment-tag/src/util/cookie.ts',
      gate: 'experiment-tag/src/consent/consent-gate.ts',
      ccs: 'experiment-tag/src/consent/consent-cookie-storage.ts',
    });
  },
  run: (ctx, p, b) => (p.kind === 'sync' ? runSync(ctx, p, b) : runAsync(ctx, p, b)),
};
