'use strict';
// A refusal erases what the tag persisted: whatever earlier visits did, at the moment consent is refused nothing the
// tag wrote is left on the device's readable stores; foreign data is untouched; the shared identity never comes back.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const remoteFlag = { key: 'r1', variants: { off: { key: 'off', metadata: { default: true } }, on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'remote', deliveryMethod: 'web' } };
const FLAGS = [
  A.localFlag('f1', { on: [A.mutateAction(A.mutation('f1-on'))] }),
  A.localFlag('rd', { treatment: [A.redirectAction('https://shop.example.com/to?x=1')] }),
  A.localFlag('rs', { treatment: [A.redirectAction('https://www.example.com/to')] }),
  remoteFlag,
];
const PAGES = {
  f1: { A: A.pageObj('A') },
  rd: { R: A.pageObj('R', 'url_change', {}, A.urlCond('/cross')) },
  rs: { S: A.pageObj('S', 'url_change', {}, A.urlCond('/same')) },
};
const INIT = (rules) => ({ initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES), ...(rules ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) });
const BT = { f1: { b1: [[{ condition: { type: 'behavior', event_type: 'e', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } };

// data that is not the tag's
const FOREIGN_LOCAL = ['EXP_zyxwvutsrq', 'EXP_zyxwvutsrq_rtbt_events', 'EXP_MKTG_zyxwvutsrq', 'EXP_unsent_other', 'AMP_MKTG_clientabcd', 'EXP_clientabc', 'EXP_clientabcdefgh', 'cart'];
const FOREIGN_SESSION = ['EXP_zyxwvutsrq_REDIRECT', 'amp-exp-other-web-ijklmn', 'amp-exp-$default_instance-ijklmn', 'amp-exp-$default_instance-web-uvwxyz', 'EXP_sent_v3_other', 'cart'];
const FOREIGN_COOKIES = ['EXP_zyxwvutsrq_identity', 'AMP_clientabcd', 'AMP_MKTG_clientabcd', 'AMP_MKTG_ORIGINAL_zyxwvutsrq', 'sid'];
const EXEMPT = new Set(['amp-preview-mode', 'visual-editor-state']);
const ERASED = A.SLICE + '_erased';

function seedForeign(page) {
  for (const k of FOREIGN_LOCAL) if (!page.localRaw.has(k)) page.localRaw.set(k, '"keep"');
  for (const k of FOREIGN_SESSION) if (!page.sessionRaw.has(k)) page.sessionRaw.set(k, '"keep"');
}
const ours = (map, foreign) => [...map.keys()].filter((k) => !foreign.includes(k) && !EXEMPT.has(k) && k !== 'EXP_test');
const cookieNames = (device, host) => device.jar.visible(host).map((c) => c.name);

function open(S, url, consent, extra) {
  const page = new A.TagPage({ device: S.device, tab: S.tab, url });
  page.scope.experimentIntegration = S.defaultIntegration ? undefined : new A.Recorder();
  if (S.defaultIntegration) delete page.scope.experimentIntegration;
  page.onRequest = (r) => r.respond(200, r.url.includes('vardata') ? { r1: { key: 'on', value: 'on' } } : []);
  seedForeign(page);
  const m = S.bundle.load(page.scope);
  const config = { consentOptions: { consentRequired: true, consentStatus: consent }, ...(S.instanceName ? { instanceName: S.instanceName } : {}), ...(extra || {}) };
  S.page = page;
  S.m = m;
  S.config = config;
  return { page, m, config };
}

// what must hold the moment a refusal is recorded
function erased(ctx, S, when) {
  const { page, device } = S;
  const left = [
    ...ours(page.localRaw, FOREIGN_LOCAL).map((k) => 'local ' + k),
    ...ours(page.sessionRaw, FOREIGN_SESSION).map((k) => 'session ' + k),
    ...cookieNames(device, page.host).filter((n) => !FOREIGN_COOKIES.includes(n) && n !== ERASED).map((n) => 'cookie ' + n),
  ];
  const markers = left.filter((k) => /^session EXP_clientabcd_REDIRECT_(MARKER|SUPPRESSED)$/.test(k));
  const rest = left.filter((k) => !markers.includes(k));
  ctx.ok(rest.length === 0, `left on the device after the refusal (${when}): ${rest}`, 'left after refusal');
  if (markers.length) S.markers = `left on the device after the refusal (${when}): ${markers}`;
  const gone = [...FOREIGN_LOCAL.filter((k) => !page.localRaw.has(k)), ...FOREIGN_SESSION.filter((k) => !page.sessionRaw.has(k)), ...FOREIGN_COOKIES.filter((n) => !device.jar.list.some((c) => c.name === n))];
  ctx.ok(gone.length === 0, `another's data removed: ${gone}`, 'foreign data removed');
  ctx.ok(device.jar.visible(page.host).filter((c) => c.name === ERASED).every((c) => c.value === '1'), 'the marker carries no data', 'marker');
  if (S.sharesRoot) ctx.ok(cookieNames(device, page.host).includes(ERASED), 'the refusal is recorded for sibling hosts', 'marker');
}

async function runSweep(ctx, p, bundle) {
  const device = new Device();
  const S = { device, bundle, tab: new Tab(device), instanceName: p.instanceName, defaultIntegration: p.defaultIntegration, sharesRoot: !p.host || p.host.includes('.') && !/^\d/.test(p.host) };
  const base = `https://${p.host || 'www.example.com'}`;
  for (const n of FOREIGN_COOKIES) device.jar.set(p.host || 'www.example.com', `${n}=keep; path=/`);
  // left behind by an older version of the script
  const old = new A.TagPage({ device, tab: S.tab, url: base + '/' });
  old.localRaw.set(A.SLICE, JSON.stringify({ device_id: 'old' }));
  const inst = p.instanceName || '$default_instance';
  old.sessionRaw.set('EXP_sent_v2_' + inst, '{}');
  old.sessionRaw.set('EXP_sent_' + inst, '{}');
  device.jar.set(old.host, `${A.SLICE}_rtbt_session=x; path=/`);
  old.kill();
  const bt = p.behaviors ? BT : undefined;
  const atOnce = ctx.choose(4, 'refused on the first visit with this version');
  if (atOnce) {
    const how = ['', 'denied in the configuration', 'status before initialize', 'status after initialize'][atOnce];
    ctx.step('refused on the first visit with this version: ' + how);
    open(S, base + p.path, atOnce === 1 ? 'denied' : 'pending');
    if (atOnce === 2) S.m.tag.setConsentStatus('denied');
    S.m.tag.initialize(A.KEY, INIT(bt), S.config);
    if (atOnce === 3) S.m.tag.setConsentStatus('denied');
    erased(ctx, S, how);
    return;
  }
  open(S, base + p.path, 'granted');
  S.m.tag.initialize(A.KEY, INIT(bt), S.config);
  if (ctx.choose(2, 'settle first')) await A.settle();
  let refused = false;
  for (let d = 0; d < p.depth; d++) {
    const nav = (S.page.navigations || [])[0];
    const ops = ['refuse', 'refuse at load', 'refuse before load', 'event', 'spa', 'clock 600', 'clock 3000', 'reload'];
    if (nav) ops.push('follow redirect');
    const op = ctx.pick(ops);
    ctx.step(op);
    if (op === 'refuse') {
      S.m.tag.setConsentStatus('denied');
      erased(ctx, S, 'running page');
      refused = true;
      break;
    }
    if (op.startsWith('refuse')) {
      S.page.kill();
      open(S, S.page.url, op === 'refuse at load' ? 'denied' : 'pending');
      if (op === 'refuse before load') S.m.tag.setConsentStatus('denied');
      S.m.tag.initialize(A.KEY, INIT(bt), S.config);
      erased(ctx, S, op);
      await A.settle();
      await S.page.timers.advance(3000);
      erased(ctx, S, op + ', later');
      refused = true;
      break;
    }
    if (op === 'event') {
      const src = S.page.scope.webExperiment.plugin();
      await src.execute({ event_type: 'e', event_properties: { a: 1 } });
    } else if (op === 'spa') {
      S.page.scope.history.pushState({}, '', S.page.url.includes('?q') ? '/plain' : '/plain?q=1');
    } else if (op.startsWith('clock')) {
      await S.page.timers.advance(Number(op.slice(6)));
    } else if (op === 'reload') {
      S.page.kill();
      open(S, S.page.url, 'granted');
      S.m.tag.initialize(A.KEY, INIT(bt), S.config);
    } else if (op === 'follow redirect') {
      S.page.kill();
      open(S, ctx.choose(2, 'rewritten') ? base + '/other' : nav.url, 'granted');
      S.m.tag.initialize(A.KEY, INIT(bt), S.config);
    }
    await A.settle();
    ctx.state([[...S.page.localRaw.keys()].sort(), [...S.page.sessionRaw.keys()].sort(), device.jar.dump().map((c) => c.replace(/=[^@]*/, ''))], undefined);
  }
  if (!refused) {
    S.m.tag.setConsentStatus('denied');
    erased(ctx, S, 'running page');
  }
  ctx.state([ours(S.page.localRaw, FOREIGN_LOCAL).sort(), ours(S.page.sessionRaw, FOREIGN_SESSION).sort(), device.jar.dump()], undefined);
  ctx.ok(!S.markers, S.markers, 'redirect loop markers left after refusal');
}

// the shared identity across sibling hosts
async function runIdentity(ctx, p, bundle) {
  const device = new Device();
  const S = { device, bundle, tab: new Tab(device), sharesRoot: true };
  for (const n of FOREIGN_COOKIES) device.jar.set('www.example.com', `${n}=keep; path=/`);
  let seen = new Set();
  let dead = new Set();
  for (let d = 0; d < p.depth; d++) {
    const host = ctx.pick(p.hosts);
    const what = ctx.pick(['granted', 'denied', 'grant later', 'refuse later', 'no gating']);
    ctx.step(`${host} ${what}`);
    if (S.page) S.page.kill();
    device.clock.now += 10000;
    const { page, m } = open(S, `https://${host}/`, what === 'denied' ? 'denied' : what === 'grant later' ? 'pending' : 'granted');
    if (what === 'no gating') S.config.consentOptions = {};
    m.tag.initialize(A.KEY, INIT(), S.config);
    await A.settle();
    if (what === 'grant later') m.tag.setConsentStatus('granted');
    await A.settle();
    await page.timers.advance(1500);
    if (what === 'denied') {
      for (const v of seen) dead.add(v);
      erased(ctx, S, 'denied at load');
      device.refusedSince = true;
      continue;
    }
    const u = page.scope.webExperiment.getExperimentClient().getUser();
    ctx.ok(u.web_exp_id_v2 && u.first_seen, 'an identity exists', 'identity');
    ctx.ok(!dead.has(u.web_exp_id_v2), `visitor id ${u.web_exp_id_v2} came back after the refusal`, 'identity respawned');
    ctx.ok(!dead.has('t' + u.first_seen), `first-seen time ${u.first_seen} came back after the refusal`, 'identity respawned');
    seen.add(u.web_exp_id_v2);
    seen.add('t' + u.first_seen);
    // every host sees one identity
    if (device.lastId !== undefined && !device.refusedSince) ctx.ok(device.lastId === u.web_exp_id_v2, 'one visitor id on every host', 'identity shared');
    device.lastId = u.web_exp_id_v2;
    device.refusedSince = false;
    if (what === 'refuse later') {
      m.tag.setConsentStatus('denied');
      for (const v of seen) dead.add(v);
      erased(ctx, S, 'refused later');
      device.refusedSince = true;
    }
  }
  ctx.state([device.jar.dump().map((c) => c.split('=')[0])], undefined);
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of visit histories with the refusal at every point, on the real tag over recording storages; whatever the visits left behind is the oracle',
  level_note: 'all histories within the stated depth',
  bounds: (t) => ({ visit_steps: t === 'thorough' ? 4 : 3, identity_visits: t === 'thorough' ? 5 : 4 }),
  assumptions: ['stores of other origins and other tabs cannot be reached from the page', 'what a client that is still running persists after the refusal is outside (documented)'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const d = T ? 4 : 3;
    const L = [];
    const add = (name, params) => L.push({ name, params: { part: 'sweep', depth: d, ...params }, shards: 16, shardDepth: 2 });
    add('plain', { path: '/?utm_source=x', behaviors: true });
    add('own integration and instance', { path: '/?utm_source=x', behaviors: true, defaultIntegration: true, instanceName: 'inst' });
    add('redirect to a sibling host', { path: '/cross?utm_source=x' });
    add('redirect on the host', { path: '/same' });
    for (const host of ['localhost', '10.0.0.1', 'www.shop.co.uk', 'a.b.c.example.com']) add('host ' + host, { host, path: '/?utm_source=x', behaviors: true, depth: d - 1 });
    L.push({ name: 'identity across hosts', params: { part: 'identity', depth: T ? 5 : 4, hosts: ['www.example.com', 'shop.example.com'] }, shards: 16, shardDepth: 2 });
    return L;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run: (ctx, p, b) => (p.part === 'sweep' ? runSweep : runIdentity)(ctx, p, b),
};
