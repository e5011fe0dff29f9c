'use strict';
// Start-up with flags that only the server can decide: what is applied when, when the page is hidden and revealed, how
// often the server is asked, and what happens when it does not answer.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const at = (p) => A.urlCond(`^https://www\\.example\\.com/${p}$`);
const mut = (v) => [A.mutateAction(A.mutation(v))];
const onR = (values) => [[{ selector: ['result', 'R', 'key'], op: 'is', values }]];
const PAGES = {
  L: { L: A.pageObj('L', 'url_change', {}, at('a')) },
  R: { R: A.pageObj('R', 'url_change', {}, at('[ab]')) },
  B: { B: A.pageObj('B', 'url_change', {}, at('b')) },
  D: { D: A.pageObj('D') },
  G: { G: A.pageObj('G') },
  E: { E: A.pageObj('E', 'analytics_event', [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['go'] }]]) },
};
const active = { L: (p) => p === 'a', R: (p) => p === 'a' || p === 'b', B: (p) => p === 'b', D: () => true, G: () => true };
const remote = (key, variant, mode, blocking) =>
  A.localFlag(key, { i: mut(`${key}-i`), f: mut(`${key}-f`), go: [A.redirectAction('https://www.example.com/z')] }, { mode, variant, metadata: { blockingEvaluation: blocking } });
const FLAGS = {
  // the later ones come first: what depends on what does not follow from the order
  G: A.localFlag('G', { i: mut('G-i'), f: mut('G-f') }, { segments: [{ conditions: [[{ selector: ['result', 'D', 'key'], op: 'is', values: ['f'] }]], variant: 'f' }, { variant: 'i' }], dependencies: ['D'] }),
  D: A.localFlag('D', { i: mut('D-i'), f: mut('D-f') }, { segments: [{ conditions: onR(['f']), variant: 'f' }, { variant: 'i' }], dependencies: ['R'] }),
  L: A.localFlag('L', { on: mut('L-on') }),
  E: A.localFlag('E', { on: mut('E-on') }),
  LZ: A.localFlag('LZ', { go: [A.redirectAction('https://www.example.com/z')] }),
  R: remote('R', 'i', 'remote', false),
  B: remote('B', 'i', 'remote', true),
  'holdout-1': A.localFlag('holdout-1', { on: undefined }),
};
PAGES.LZ = { P: A.pageObj('P', 'url_change', {}, at('b')) };
active.LZ = (p) => p === 'b';
const ANSWERS = {
  ok: [200, () => [remote('R', 'f', 'local', false), remote('B', 'f', 'local', false)]],
  still: [200, () => [remote('R', 'f', 'remote', false), remote('B', 'f', 'remote', true)]],
  redirect: [200, () => [remote('R', 'f', 'remote', false), remote('B', 'go', 'remote', true)]],
  empty: [200, () => []],
  error: [500, () => ({})],
  broken: [200, () => '<html>'],
};

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  const keys = p.flags;
  const flags = Object.keys(FLAGS).filter((k) => keys.includes(k)).map((k) => FLAGS[k]);
  const holdout = keys.includes('holdout-1');
  const remoteKeys = ['R', 'B', 'D', 'G'].filter((k) => keys.includes(k));
  const suppressed = new Set(); // redirects found to loop (the subject of C25)
  let marker = null;
  let known = {}; // what the tab keeps of earlier answers: key -> flag
  let page, m, path, phase, hiddenUntil, overlay, t0, timeoutAt, ready, wasBlocking, redirecting, eventSeen, waiting, loose, live, sentAt, sent;
  const get = (k) => known[k] || FLAGS[k];
  const pick = (f) => f.segments[f.segments.length - 1].variant;
  const variantOf = (k) => {
    if (k === 'D') return keys.includes('R') && pick(get('R')) === 'f' ? 'f' : 'i';
    if (k === 'G') return variantOf('D');
    return pick(get(k));
  };
  const now = () => device.clock.now;
  const apply = (ks) => {
    for (const k of ks) {
      if (k === 'holdout-1' || (k === 'E' && !eventSeen)) continue;
      if (k !== 'E' && !active[k](path)) {
        delete live[k];
        continue;
      }
      const v = variantOf(k);
      if (v === 'go') {
        delete live[k];
        if (redirecting || suppressed.has(k)) continue;
        if (marker && marker.k === k && marker.from === path) {
          suppressed.add(k);
          marker = null;
          continue;
        }
        sent.push('https://www.example.com/z');
        redirecting = true;
        marker = { k, from: path };
      } else live[k] = `${k}-${v}`;
    }
  };
  const localKeys = () => keys.filter((k) => !['D', 'G'].includes(k) || !remoteKeys.includes(k)).filter((k) => get(k).metadata.evaluationMode === 'local');
  const reveal = () => {
    hiddenUntil = null;
    overlay = false;
  };
  // the start-up as far as it gets without anything else happening
  const advance = () => {
    if (phase === 'identity') {
      // a page with a blocking remote experiment is hidden until that is decided
      if (remoteKeys.some((k) => (k === 'R' || k === 'B') && get(k).metadata.blockingEvaluation && active[k](path))) {
        hiddenUntil = now() + 1000;
        wasBlocking = true;
      }
      phase = 'bucketing';
    }
    if (phase === 'bucketing' && (ready || !holdout)) {
      apply(localKeys());
      if (!wasBlocking && !redirecting) reveal();
      phase = redirecting || !remoteKeys.length ? 'running' : 'context';
      if (phase === 'running' && !redirecting) reveal();
    }
    if (phase === 'context' && ready) {
      phase = 'asking';
      timeoutAt = now() + 1000;
    }
    if (phase === 'running' && waiting) {
      if (keys.includes('E')) {
        eventSeen = true;
        apply(['E']);
      }
      waiting = false;
    }
  };
  const answered = (how) => {
    if (how && how !== 'error' && how !== 'broken' && how !== 'network') known = Object.fromEntries(ANSWERS[how][1]().map((f) => [f.key, f]));
    apply(remoteKeys);
    loose = false;
    phase = 'running';
    if (!redirecting) reveal();
    advance();
  };
  const load = async (first) => {
    if (page) page.kill();
    page = new A.TagPage({ device, tab, url: 'https://www.example.com/' + first });
    const rec = new A.Recorder();
    rec.user = { user_id: 'u', device_id: 'd' };
    let finish;
    ready = !p.slow;
    if (p.slow) rec.setup = () => new Promise((res, rej) => (finish = (ok) => (ok ? res() : rej(new Error('setup')))));
    page.finish = (ok) => finish && finish(ok);
    page.scope.experimentIntegration = rec;
    if (p.overlay) {
      const s = page.make('style', { id: 'amp-exp-css' });
      page.scope.document.head.appendChild(s);
    }
    if (marker && marker.from === first) suppressed.add(marker.k);
    marker = null;
    path = first;
    phase = 'identity';
    hiddenUntil = null;
    wasBlocking = redirecting = eventSeen = waiting = loose = false;
    overlay = !!p.overlay;
    live = {};
    sent = [];
    sentAt = null;
    t0 = now();
    m = bundle.load(page.scope);
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(Object.fromEntries(Object.entries(PAGES).filter(([k]) => keys.includes(k)))) }, { useDefaultNavigationHandler: true, ...(p.config || {}) });
    if (p.handler) page.scope.webExperiment.setRedirectHandler((u) => (page.handled = (page.handled || []).concat(u)));
    await A.settle();
    advance();
  };
  const check = (op) => {
    const where = `after ${op} on /${path} (${phase}, ${now() - t0} ms)`;
    const hidden = hiddenUntil !== null && now() < hiddenUntil;
    ctx.equal(page.antiFlicker(), hidden, `page hidden ${where}`, 'hidden');
    if (p.overlay) ctx.equal(!!page.scope.document.getElementById('amp-exp-css'), overlay && !(wasBlocking && hiddenUntil === null), `the site's own overlay present ${where}`, 'overlay');
    const got = A.liveMutations(page);
    const skip = loose ? remoteKeys : [];
    ctx.equal(got.filter((v) => !skip.includes(v.split('-')[0])), Object.entries(live).filter(([k]) => !skip.includes(k)).map(([, v]) => v).sort(), `live changes ${where}`, 'live changes');
    const asked = page.requests.filter((r) => r.url.includes('/sdk/v2/flags'));
    ctx.equal(asked.length, sentAt === null ? 0 : 1, `flags requests ${where}`, 'requests');
    ctx.equal(page.requests.length, asked.length, 'no other requests', 'requests');
    for (const r of asked) {
      const host = p.config && p.config.serverZone === 'EU' ? 'flag.lab.eu.amplitude.com' : 'flag.lab.amplitude.com';
      ctx.equal([r.url, r.method], [`https://${host}/sdk/v2/flags?delivery_method=web`, 'GET'], 'flags request', 'request');
      ctx.equal(JSON.parse(Buffer.from(r.headers['X-Amp-Exp-User'] || 'e30', 'base64url')), { user_id: 'u', device_id: 'd' }, 'user of the flags request', 'request');
    }
    ctx.equal(p.handler ? page.handled || [] : (page.navigations || []).map((n) => n.url), sent, `redirects ${where}`, 'redirect');
    ctx.equal(!!page.scope.webExperiment.isRunning, phase === 'running', `running ${where}`, 'running');
    ctx.ok(!(page.errors || []).length, `page error ${where}`, 'error');
  };
  const settle = async () => {
    if (phase === 'asking' && sentAt === null) sentAt = now();
    await A.settle();
  };
  const first = p.first[ctx.choose(p.first.length, 'first page')];
  ctx.step('open /' + first);
  await load(first);
  await settle();
  check('start');
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    if (phase === 'asking') for (const a of p.answers) ops.push('answer ' + a);
    if (!ready) ops.push('setup ok', 'setup fails');
    for (const w of p.waits || [999, 1]) ops.push('wait ' + w);
    if (keys.includes('E') && phase !== 'running') ops.push('event');
    if (p.handler) ops.push('nav z');
    if (p.nav && (p.handler || !redirecting)) ops.push('nav a', 'nav b');
    if (p.reload && (phase === 'running' || p.reload === 'any') && d < p.depth - 1) ops.push('reload a', 'reload b');
    const op = ctx.pick(ops);
    const [k, a] = op.split(' ');
    if (k === 'nav' && a === path) continue;
    ctx.step(`${op} [${phase}]`);
    if (k === 'answer') {
      const r = page.requests.find((x) => !x.settled);
      if (a === 'network') r.fail(new Error('network'));
      else r.respond(ANSWERS[a][0], ANSWERS[a][1]());
      await A.settle();
      answered(a);
    } else if (k === 'setup') {
      ready = true;
      page.finish(a === 'ok');
      await A.settle();
      advance();
    } else if (k === 'wait') {
      const end = now() + Number(a);
      await page.timers.advance(Number(a));
      if (hiddenUntil !== null && end >= hiddenUntil) reveal();
      if (phase === 'asking' && end >= timeoutAt) answered(null);
    } else if (k === 'event') {
      await m.tag.createPlugin().execute({ event_type: 'go', event_properties: {} });
      waiting = true;
    } else if (k === 'nav') {
      page.scope.history.pushState({}, '', '/' + a);
      path = a;
      eventSeen = false;
      if (phase === 'bucketing') loose = 'all';
      else {
        if (redirecting) {
          // the handler took the visitor somewhere: the redirect is over
          redirecting = false;
          reveal();
        }
        apply(keys.filter((x) => !remoteKeys.includes(x) || phase === 'running'));
        delete live.E;
        if (phase !== 'running') loose = true;
      }
    } else if (k === 'reload') {
      await load(a);
    }
    await settle();
    if (loose === 'all') return; // evaluated without the bucketing user: see DESIGN
    check(op);
    ctx.state([phase, path, hiddenUntil && hiddenUntil - now(), overlay, Object.keys(known).map((x) => [x, pick(known[x])]), live, waiting, redirecting, ready]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of start-up schedules (answers and failures of the flags request, integration set-up, waiting, events, navigation, reloads) on the real tag, against a reference start-up',
  level_note: 'all schedules within the stated depth',
  assumptions: ['until the flags request is settled, remote experiments are evaluated with the flags known so far when the visitor navigates: what they show in that time is not compared'],
  bounds: (t) => ({ depth: t === 'thorough' ? 6 : '3-4', flags: 8, answers: 7 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const all = ['ok', 'still', 'redirect', 'empty', 'error', 'broken', 'network'];
    const out = [];
    const add = (name, params, depth = 4) => out.push({ name, params: { answers: all, first: ['a', 'b'], depth: depth + (T ? 1 : 0), ...params }, shards: 16, shardDepth: 2 });
    for (const overlay of [false, true]) {
      add(`remote${overlay ? ' overlay' : ''}`, { flags: ['L', 'R', 'B', 'E'], overlay, reload: 'any' }, overlay ? 3 : 4);
      add(`depends${overlay ? ' overlay' : ''}`, { flags: ['G', 'D', 'L', 'R', 'B'], overlay, nav: true }, 3);
      add(`holdout${overlay ? ' overlay' : ''}`, { flags: ['holdout-1', 'L', 'R', 'B', 'E', 'D'], overlay, slow: true, reload: 'any', answers: ['ok', 'redirect', 'error'] });
      add(`local${overlay ? ' overlay' : ''}`, { flags: ['L', 'E'], overlay, nav: true, reload: true }, 3);
      add(`local redirect${overlay ? ' overlay' : ''}`, { flags: ['LZ', 'L', 'R', 'B', 'E'], overlay, reload: 'any', answers: ['ok', 'error'] }, 3);
    }
    add('slow integration', { flags: ['L', 'R', 'B'], slow: true, overlay: true, nav: true, answers: ['ok', 'still', 'error'] });
    for (const overlay of [false, true]) add(`handler${overlay ? ' overlay' : ''}`, { flags: ['LZ', 'L', 'R', 'B'], overlay, handler: true, nav: true, answers: ['ok', 'redirect', 'error'] }, 4);
    add('handler remote', { flags: ['L', 'R', 'B'], overlay: true, handler: true, nav: true, answers: ['ok', 'redirect', 'error'] }, 4);
    add('EU', { flags: ['R', 'B'], config: { serverZone: 'EU' } }, 2);
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
