'use strict';
// Preview mode: the variants asked for by the address are shown instead of the assigned ones, with the latest
// configuration, for the rest of the tab session, and nothing else changes.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const at = (p) => A.urlCond(`^https://www\\.example\\.com/${p}([?#].*)?$`);
const ON = { P: (s) => s.path !== 'z', Q: (s) => 'ab'.includes(s.path), M: (s) => s.manual, L: (s) => s.path === 'a', N: (s) => s.path === 'b' };
const objects = () => ({
  P: { P: A.pageObj('P', 'url_change', {}, at('[abc]')) },
  Q: { Q: A.pageObj('Q', 'url_change', {}, at('[ab]')) },
  M: { M: A.pageObj('M', 'manual', { name: 'm' }) },
  L: { L: A.pageObj('L', 'url_change', {}, at('a')) },
  N: { N: A.pageObj('N', 'url_change', {}, at('b')) },
});
// what a variant does: m a page change, j a page change and an injection, n nothing, go a redirect
const VARIANTS = {
  P: { a: 'm', b: 'j', control: 'n', go: 'go' },
  Q: { a: 'm', b: 'm' },
  M: { a: 'm', b: 'm' },
  L: { a: 'm', b: 'm' },
  N: { a: 'm', b: 'm' },
};
const payload = (f, v, ver, kind) =>
  kind === 'n'
    ? undefined
    : kind === 'go'
      ? [A.redirectAction('https://www.example.com/z')]
      : [A.mutateAction(A.mutation(`${f}.${v}.${ver}`)), ...(kind === 'j' ? [A.injectAction(`inj${f}`)] : [])];
const flag = (f, ver, mode, variant, blocking) =>
  A.localFlag(f, Object.fromEntries(Object.entries(VARIANTS[f]).map(([v, kind]) => [v, payload(f, v, ver, kind)])), { mode, variant, metadata: blocking ? { blockingEvaluation: true } : {} });
// the configuration in the script is older: N is new, and the contents differ
const config = (ver, p) => ['P', 'Q', 'M', 'L', ...(ver === 'new' ? ['N'] : [])].filter((f) => f !== 'Q' || p.remote).map((f) => flag(f, ver, f === 'Q' ? 'remote' : 'local', 'a', f === 'Q' && p.blocking));

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  let session = {}; // the previewed flags the tab remembers
  let arriving = false; // a redirect under way, to be reported on arrival
  let cached = false; // the server's flags are in the session
  let page, m, s, rec;
  let clock = null; // the reference lags behind while a wait is worked through
  const now = () => (clock === null ? device.clock.now : clock);
  const keys = () => ['P', 'Q', 'M', 'L', ...(s.ver === 'new' ? ['N'] : [])].filter((f) => f !== 'Q' || p.remote);
  const seen = (f, v) => {
    if (s.tracked[f] === v) return;
    s.tracked[f] = v;
    s.impressions.push(`${f}:${v}`);
  };
  const act = (f, v, ver) => {
    const kind = VARIANTS[f][v];
    if (!ON[f](s)) delete s.live[f];
    else if (kind === 'go') {
      if (!s.redirecting) {
        s.redirecting = true;
        s.sent++;
      }
    } else if (kind) {
      if (kind !== 'n') s.live[f] = { v, ver };
      seen(f, v);
    }
  };
  const assigned = (f) => (f === 'Q' && cached ? ['b', 'srv'] : ['a', s.ver]);
  const apply = (fs) => {
    for (const f of fs) if (!s.preview[f]) act(f, ...assigned(f));
  };
  const show = (fs) => {
    for (const f of fs) {
      delete s.live[f];
      if (!keys().includes(f)) continue;
      if (!VARIANTS[f][s.preview[f]] && s.preview[f] !== 'off') continue;
      s.shows.push(now() + 500);
      if (s.preview[f] === 'off') {
        if (ON[f](s)) seen(f, 'off');
      } else act(f, s.preview[f], s.ver);
    }
  };
  const previewed = () => Object.keys(s.preview);
  const remoteLeft = () => p.remote && !s.preview.Q;
  const hide = () => {
    if (s.hiddenUntil === null) s.hiddenUntil = now() + 1000;
  };
  const begin = (ver) => {
    s.ver = ver;
    s.begun = true;
    s.phase = 'asking';
    if (s.path === 'z' && arriving) {
      s.impressions.push('P:go');
      arriving = false;
    }
    const blocking = p.remote && p.blocking && ON.Q(s) && remoteLeft();
    if (blocking) hide();
    apply(keys().filter((f) => f !== 'Q' || cached));
    show(previewed());
    if (!blocking && !s.redirecting) s.hiddenUntil = null;
    if (s.redirecting || !remoteLeft()) {
      s.phase = 'running';
      if (!s.redirecting) s.hiddenUntil = null;
    } else {
      s.asked = 1;
      s.timeoutAt = now() + 1000;
    }
  };
  const answered = (ok) => {
    if (ok) cached = true;
    apply(['Q']);
    s.phase = 'running';
    if (!s.redirecting) s.hiddenUntil = null;
  };
  const load = async (path, params) => {
    if (page) page.kill();
    const query = params ? '?' + params.map(([k, v]) => `${k}=${v}`).join('&') : '';
    page = new A.TagPage({ device, tab, url: `https://www.example.com/${path}${query}#h` });
    rec = new A.Recorder();
    page.scope.experimentIntegration = rec;
    if (p.extension) page.scope.WebExperiment = { injectedByExtension: true };
    page.onInject = () => {};
    const on = params && params.some(([k, v]) => k === 'PREVIEW' && v === 'true');
    if (on) session = Object.fromEntries(params.filter(([k, v]) => k !== 'PREVIEW' && v));
    s = { path, query, params, on, manual: false, live: {}, tracked: {}, impressions: [], shows: [], frames: [], modal: false, hiddenUntil: null, preview: {}, asked: 0, sent: 0, redirecting: false, begun: false };
    s.preview = { ...session };
    s.fetches = on || previewed().length || p.extension;
    m = bundle.load(page.scope);
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(config('old', p)), pageObjects: JSON.stringify(objects()) }, { useDefaultNavigationHandler: true, ...(p.config || {}) });
    await A.settle();
    if (s.fetches) {
      s.phase = 'configs';
      s.configsAt = now() + 10000;
      hide();
    } else begin('old');
    await A.settle();
  };
  const check = (op) => {
    const where = `after ${op} on /${s.path} previewing ${JSON.stringify(s.preview)} (${s.phase})`;
    ctx.equal(A.liveMutations(page), Object.entries(s.live).map(([f, { v, ver }]) => `${f}.${v}.${ver}`).sort(), `live changes ${where}`, 'live changes');
    const scripts = page.scope.document.head.childNodes.filter((n) => n.tagName === 'SCRIPT').map((n) => n.id);
    ctx.equal(scripts, Object.entries(s.live).filter(([f, { v }]) => VARIANTS[f][v] === 'j').map(([f]) => `js-inj${f}`), `injected scripts ${where}`, 'scripts');
    ctx.equal(rec.keys().sort(), s.impressions.slice().sort(), `impressions ${where}`, 'impressions');
    ctx.equal(page.antiFlicker(), s.hiddenUntil !== null && now() < s.hiddenUntil, `page hidden ${where}`, 'hidden');
    const host = p.config ? 'lab.eu.amplitude.com' : 'lab.amplitude.com';
    const want = [...(s.fetches ? [`https://api.${host}/web/v1/configs`] : []), ...(s.asked ? [`https://flag.${host}/sdk/v2/flags?delivery_method=web`] : [])];
    ctx.equal(page.requests.map((r) => r.url), want, `requests ${where}`, 'requests');
    if (s.fetches) ctx.equal([page.requests[0].method, page.requests[0].headers.Authorization], ['GET', 'Api-Key ' + A.KEY], 'configs request', 'requests');
    ctx.equal((page.navigations || []).map((n) => n.url), s.sent ? ['https://www.example.com/z'] : [], `redirects ${where}`, 'redirects');
    const modals = page.scope.document.body.childNodes.filter((n) => n.id === 'amp-preview-modal');
    ctx.equal(modals.length, s.modal ? 1 : 0, `preview notices shown ${where}`, 'notice');
    if (s.modal) {
      const rows = modals[0].querySelectorAll('.amp-preview-modal-row').map((r) => [r.querySelector('.amp-preview-modal-title').textContent, r.querySelector('.amp-preview-modal-variant-badge').childNodes.map((c) => c.textContent || c.data || '').join('')]);
      ctx.equal(rows, Object.entries(s.preview), `the notice names what is previewed ${where}`, 'notice');
    }
    if (s.begun) {
      const url = new URL(page.scope.location.href);
      const left = s.on ? s.params.filter(([k, v]) => k !== 'PREVIEW' && !v) : s.params || [];
      ctx.equal([url.pathname, [...url.searchParams], url.hash], ['/' + s.path, s.navigated ? [] : left, s.navigated ? '' : '#h'], `address ${where}`, 'address');
      ctx.equal(!!page.scope.webExperiment.isRunning, s.phase === 'running', `running ${where}`, 'running');
    } else ctx.ok(!page.scope.webExperiment.getActivePages, `no client yet ${where}`, 'running');
    ctx.ok(!(page.errors || []).length, `page error ${where}`, 'error');
  };
  // the notice: half a second after a previewed variant is applied, on the next frame, once
  const pass = async (ms) => {
    const end = now() + ms;
    clock = now();
    await page.timers.advance(ms);
    for (;;) {
      const t = Math.min(...s.shows, ...s.frames, s.phase === 'configs' ? s.configsAt : Infinity, s.phase === 'asking' ? s.timeoutAt : Infinity);
      if (t > end) break;
      clock = t;
      if (s.hiddenUntil !== null && t >= s.hiddenUntil) s.hiddenUntil = null;
      if (s.frames.includes(t)) {
        s.frames = s.frames.filter((x) => x !== t);
        s.modal = true;
      } else if (s.shows.includes(t)) {
        s.shows = s.shows.filter((x) => x !== t);
        if (!s.modal) s.frames.push(t + 16);
      } else if (s.phase === 'configs') begin('old');
      else answered(false);
    }
    clock = null;
    if (s.hiddenUntil !== null && end >= s.hiddenUntil) s.hiddenUntil = null;
  };
  if (p.stored) tab.sessionFor('www.example.com').api.setItem('amp-preview-mode', ctx.pick(p.stored));
  const first = p.first[ctx.choose(p.first.length, 'first address')];
  ctx.step(`open /${first[0]} ${JSON.stringify(first[1])}`);
  await load(first[0], first[1]);
  check('load');
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    if (s.phase === 'configs') ops.push(...p.configs.map((c) => 'configs ' + c));
    if (s.phase === 'asking') ops.push('flags ok', 'flags error');
    ops.push(...(p.waits || ['500', '16']).map((w) => 'wait ' + w));
    if (s.redirecting) ops.push('arrive');
    else {
      if (s.begun) ops.push(...['a', 'b', 'c'].filter((x) => x !== s.path).map((x) => 'nav ' + x), 'manual');
      if (s.phase !== 'asking') ops.push('reload', ...((s.begun && p.again) || []).map((_, i) => 'open ' + i));
    }
    if (s.modal) ops.push('dismiss');
    const op = ctx.pick(ops);
    const [k, a] = op.split(' ');
    ctx.step(`${op} [${s.phase}]`);
    if (k === 'configs' || k === 'flags') {
      const r = page.requests[page.requests.length - 1];
      if (a === 'ok') r.respond(200, k === 'flags' ? [flag('Q', 'srv', 'local', 'b', p.blocking)] : { flags: config('new', p), pageObjects: objects(), behavioralTargetingRules: p.rules });
      else if (a === 'error') r.respond(500, {});
      else if (a === 'broken') r.respond(200, 'not json');
      else if (a === 'empty') r.respond(200, {});
      else r.fail(new Error('network'));
      await A.settle();
      if (k === 'flags') answered(a === 'ok');
      else begin(a === 'ok' ? 'new' : 'old');
    } else if (k === 'wait') await pass(Number(a));
    else if (k === 'nav') {
      page.scope.history.pushState({}, '', '/' + a);
      s.path = a;
      s.manual = false;
      s.navigated = true;
      s.tracked = {};
      apply(keys().filter((f) => f !== 'Q' || cached || s.phase === 'running'));
      show(previewed());
      await A.settle();
      if (s.phase === 'asking' && ON.Q(s)) return; // evaluated with what is known so far: not compared, as in C30
    } else if (k === 'manual') {
      s.manual = !s.manual;
      page.scope.webExperiment.toggleManualPageObject('m', s.manual);
      apply(['M']);
      show(previewed().filter((f) => f === 'M'));
    } else if (k === 'dismiss') {
      page.scope.document.body.childNodes.find((n) => n.id === 'amp-preview-modal').querySelector('.amp-preview-modal-close').dispatch('click');
      s.modal = false;
    } else if (k === 'reload') {
      await load(s.path, s.begun ? undefined : s.params);
    } else if (k === 'open') {
      await load('a', p.again[a]);
    } else if (k === 'arrive') {
      arriving = true;
      await load('z');
    }
    await A.settle();
    check(op);
    ctx.state([s, session, cached, arriving, s.hiddenUntil && s.hiddenUntil - now(), s.shows.map((t) => t - now()), s.frames.map((t) => t - now())]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of preview sessions (addresses, answers and failures of the configuration request, waiting, navigation, triggers, reloads, dismissal) on the real tag, against a reference of what is shown and reported',
  level_note: 'all sessions within the stated depth',
  assumptions: ['a page that rewrites its address before the latest configuration has arrived is not explored', 'until the flags request is settled, what a navigation shows of a server-decided experiment is not compared'],
  bounds: (t) => ({ depth: t === 'thorough' ? '5-6' : '4-5', flags: 5 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const PV = ['PREVIEW', 'true'];
    const add = (name, first, params = {}, depth = 4) =>
      out.push({ name, params: { first: first.map((f) => ['a', f]), configs: ['ok', 'error'], depth: depth + (T ? 1 : 0), ...params }, shards: 16, shardDepth: 2 });
    add('one', [[PV, ['P', 'b']], [['P', 'b'], PV], [PV, ['P', 'control']], [PV, ['P', 'nope']], [PV, ['P', 'off']]]);
    add('two', [[PV, ['P', 'b'], ['M', 'b']], [PV, ['P', 'a'], ['L', 'b'], ['N', 'b']]]);
    add('none', [[PV], [PV, ['P', '']], [['P', 'b']], [['PREVIEW', 'false'], ['P', 'b']], undefined], {}, 3);
    add('again', [[PV, ['P', 'b']]], { again: [[PV, ['M', 'b']], [PV], [['PREVIEW', 'false'], ['P', 'b']]] });
    add('unknown', [[PV, ['X', 'b'], ['e', ''], ['P', 'b']], [PV, ['N', 'b']]], {}, 3);
    add('faults', [[PV, ['P', 'b'], ['M', 'a']]], { configs: ['ok', 'error', 'broken', 'empty', 'network'], waits: ['10000', '999', '1'] });
    add('remote', [[PV, ['P', 'b']], [PV, ['Q', 'a']], [PV, ['Q', 'b'], ['P', 'b']]], { remote: true });
    add('blocking', [[PV, ['P', 'b']], [PV, ['Q', 'a']]], { remote: true, blocking: true, waits: ['999', '1'] });
    add('redirect', [[PV, ['P', 'go']]], { waits: ['999', '1'], remote: true }, 5);
    add('extension', [undefined, [['P', 'b']], [PV, ['P', 'b']]], { extension: true, remote: true }, 3);
    add('stored', [undefined, [PV, ['P', 'b']]], { stored: ['{}', '{"previewFlags":null}', '{"previewFlags":{}}', 'null', 'x', '7'] }, 2);
    add('EU', [[PV, ['P', 'b']]], { config: { serverZone: 'EU' }, remote: true }, 2);
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
