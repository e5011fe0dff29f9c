'use strict';
// The visual editor: its script is loaded only when Amplitude's window, or the session it left, asks for it, and while
// a page is being edited no experiment acts on it.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const GOOD = 'https://cdn.amplitude.com/overlay.js';
const at = (p) => A.urlCond(`^https://www\\.example\\.com/${p}([?#].*)?$`);
const FLAGS = [
  A.localFlag('P', { on: [A.mutateAction(A.mutation('P'))], b: [A.mutateAction(A.mutation('Pb'))] }),
  A.localFlag('Z', { on: [A.redirectAction('https://www.example.com/z')] }),
  A.localFlag('M', { on: [A.mutateAction(A.mutation('M')), A.injectAction('inj')] }),
  A.localFlag('R', { on: [A.mutateAction(A.mutation('R'))] }, { mode: 'remote', metadata: { blockingEvaluation: true } }),
];
const PAGES = { P: { P: A.pageObj('P', 'url_change', {}, at('[ab]')) }, Z: { Z: A.pageObj('Z', 'url_change', {}, at('c')) }, M: { M: A.pageObj('M', 'manual', { name: 'm' }) }, R: { R: A.pageObj('R') } };
const STORED = {
  good: [JSON.stringify({ injectSrc: GOOD, amplitudeWindowUrl: 'https://app.amplitude.com' }), GOOD],
  http: [JSON.stringify({ injectSrc: 'http://cdn.amplitude.com/overlay.js' }), null],
  evil: [JSON.stringify({ injectSrc: 'https://cdn.amplitude.com.evil.com/overlay.js' }), null],
  evil2: [JSON.stringify({ injectSrc: 'https://evilamplitude.com/overlay.js' }), null],
  js: [JSON.stringify({ injectSrc: 'javascript:alert(1)//.amplitude.com' }), null],
  none: [JSON.stringify({}), null],
};
const ORIGINS = {
  'https://app.amplitude.com': true,
  'https://app.eu.amplitude.com': true,
  'https://evilamplitude.com': false,
  'https://app.amplitude.com.evil.com': false,
  'https://evil.com#.amplitude.com': false,
  'https://evil.com/.amplitude.com': false,
  null: false,
  '': false,
};
const MSG = {
  open: [{ type: 'OpenOverlay', context: { injectSrc: GOOD } }, GOOD],
  other: [{ type: 'OpenOverlay', context: { injectSrc: 'https://eu.amplitude.com/o.js?x=1' } }, 'https://eu.amplitude.com/o.js?x=1'],
  http: [{ type: 'OpenOverlay', context: { injectSrc: 'http://cdn.amplitude.com/overlay.js' } }, null],
  evil: [{ type: 'OpenOverlay', context: { injectSrc: 'https://evil.com/overlay.js?.amplitude.com' } }, null],
  evil2: [{ type: 'OpenOverlay', context: { injectSrc: 'https://amplitude.com.evil.com/' } }, null],
  user: [{ type: 'OpenOverlay', context: { injectSrc: 'https://app.amplitude.com@evil.com/o.js' } }, null],
  data: [{ type: 'OpenOverlay', context: { injectSrc: 'data:text/javascript,.amplitude.com' } }, null],
  hello: [{ type: 'Hello', context: { injectSrc: GOOD } }, null],
};

async function run(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  const session = () => tab.sessionFor('www.example.com').api;
  let stored = p.stored ? ctx.pick(p.stored) : '';
  let preview = {};
  let page, client, s, rec;
  const now = () => device.clock.now;
  const openers = { fine: { closed: false }, closed: { closed: true }, gone: null };
  const load = async (path, query, opener) => {
    if (page) page.kill();
    if (stored) session().setItem('visual-editor-state', STORED[stored][0]);
    else session().removeItem('visual-editor-state');
    const op = opener === 'hostile' ? { get closed() { throw new Error('SecurityError'); } } : openers[opener];
    page = new A.TagPage({ device, tab, url: `https://www.example.com/${path}${query}`, opener: op });
    const doc = page.scope.document;
    if (p.nonce) {
      const n = page.make(p.nonce === 'style' ? 'style' : 'script');
      // browsers show a nonce that came with a policy header only as a property
      n.setAttribute('nonce', p.nonce === 'hidden' ? '' : 'abc');
      if (p.nonce !== 'attribute') n.nonce = 'abc';
      doc.head.appendChild(n);
    }
    const body = doc.body;
    if (p.noBody) {
      doc.body = null;
      body.remove();
    }
    rec = new A.Recorder();
    page.scope.experimentIntegration = rec;
    page.onInject = () => {};
    page.onRequest = (r) => r.respond(r.url.includes('/web/v1/configs') ? 500 : 200, []);
    const q = new URLSearchParams(query);
    const isPreview = q.get('PREVIEW') === 'true';
    if (isPreview) preview = Object.fromEntries([...q].filter(([k]) => k !== 'PREVIEW' && k !== 'VISUAL_EDITOR'));
    const editing = q.get('VISUAL_EDITOR') === 'true' || !!stored;
    const broken = opener !== 'fine';
    s = { path, editing, broken: editing && broken, listening: editing ? !broken : isPreview, state: 'closed', src: null, scripts: [], indicator: null, banner: editing && broken, manual: false, noBody: p.noBody ? body : null, pages: [], preview: Object.keys(preview).length > 0, query };
    const m = bundle.load(page.scope);
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES) }, { useDefaultNavigationHandler: true });
    await A.settle();
    client = page.scope.webExperiment;
    if (s.listening && stored && STORED[stored][1]) {
      s.listening = false;
      begin(STORED[stored][1]);
    }
    await A.settle();
  };
  const begin = (src) => {
    s.state = 'opening';
    s.src = src;
    s.scripts.push(src);
    s.indicator = now() + 10000;
  };
  const scripts = () => page.scope.document.head.childNodes.filter((n) => n.tagName === 'SCRIPT' && n.src);
  const check = (op) => {
    const where = `after ${op} on /${s.path}${s.query}, stored ${stored || 'nothing'} (${s.state})`;
    ctx.equal(scripts().map((n) => n.src), s.noBody ? [] : s.scripts, `editor scripts ${where}`, 'scripts');
    if (p.nonce) ctx.ok(scripts().every((n) => n.getAttribute('nonce') === 'abc'), `nonce ${where}`, 'nonce');
    const doc = page.scope.document;
    ctx.equal(!!doc.getElementById('amp-exp-loading'), s.indicator !== null && !s.noBody, `loading indicator ${where}`, 'indicator');
    ctx.equal(doc.documentElement.querySelectorAll('#amp-exp-opener-severed').length, s.banner && !s.noBody ? 1 : 0, `banner ${where}`, 'banner');
    if (s.editing) {
      ctx.equal(A.liveMutations(page), [], `no experiment acts ${where}`, 'experiments');
      ctx.equal([(page.navigations || []).length, rec.keys(), page.antiFlicker(), (page.injected || []).length, page.requests.filter((r) => r.url.includes('flags')).length], [0, [], false, 0, 0], `nothing redirected, reported, hidden, injected or asked for ${where}`, 'experiments');
      ctx.ok(!new URL(page.scope.location.href).searchParams.has('VISUAL_EDITOR'), `parameter gone ${where}`, 'address');
      if (!s.broken) ctx.equal(Object.keys(client.getActivePages()).sort(), [...('ab'.includes(s.path) ? ['P'] : []), ...(s.path === 'c' ? ['Z'] : []), ...(s.manual ? ['M'] : []), 'R'].sort(), `active pages ${where}`, 'active pages');
    } else if ('ab'.includes(s.path)) ctx.ok(A.liveMutations(page).some((v) => v.startsWith('P')), `experiments act ${where}`, 'experiments');
    ctx.ok(client.isRunning, `running ${where}`, 'running');
    ctx.ok(!(page.errors || []).length, `page error ${where}`, 'error');
  };
  const first = p.first[ctx.choose(p.first.length, 'first')];
  const opener = p.openers[ctx.choose(p.openers.length, 'opener')];
  ctx.step(`open /${first[0]}${first[1]}, opener ${opener}, stored ${stored || 'nothing'}`);
  await load(first[0], first[1], opener);
  if (!s.editing) await page.timers.advance(0);
  check('load');
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    for (const m of p.msgs || ['open']) for (const o of p.origins || ['https://app.amplitude.com']) ops.push(`message ${m} ${o}`);
    if (s.state === 'opening' && !s.noBody) ops.push('script loads', 'script fails');
    if (s.state === 'open' && s.indicator !== null) ops.push('ready');
    for (const w of p.waits || [9999, 1]) ops.push('wait ' + w);
    if (s.noBody) ops.push('body');
    if (p.act) ops.push(...(s.editing || s.path !== 'c' ? ['nav a', 'nav c', 'manual'] : []), 'event');
    if (s.banner && !s.noBody) ops.push('close');
    if (p.reload && (s.editing || s.path !== 'c')) ops.push('reload', 'leave', 'reload gone');
    const op = ctx.pick(ops);
    const [k, a, b] = op.split(' ');
    ctx.step(`${op} [${s.state}]`);
    if (k === 'message') {
      page.windowDispatch('message', { origin: b === 'null' ? 'null' : b || '', data: JSON.parse(JSON.stringify(MSG[a][0])), source: page.scope.opener });
      if (s.listening && ORIGINS[b || ''] && MSG[a][1] && s.state === 'closed') begin(MSG[a][1]);
    } else if (k === 'script') {
      scripts()[scripts().length - 1].dispatch(a === 'loads' ? 'load' : 'error');
      s.state = a === 'loads' ? 'open' : 'closed';
      if (a === 'fails') s.indicator = null;
      else stored = p.remembers ? 'good' : stored; // the editor notes where it came from
      if (p.remembers && a === 'loads') session().setItem('visual-editor-state', STORED.good[0]);
    } else if (k === 'ready') {
      client.hideLoadingIndicator();
      s.indicator = null;
    } else if (k === 'wait') {
      await page.timers.advance(Number(a));
    } else if (k === 'body') {
      page.scope.document.documentElement.appendChild(s.noBody);
      page.scope.document.body = s.noBody;
      s.noBody = null;
      await page.timers.advance(16);
    } else if (k === 'nav') {
      if (a === s.path) continue;
      page.scope.history.pushState({}, '', '/' + a);
      s.path = a;
      s.manual = false;
    } else if (k === 'manual') {
      s.manual = !s.manual;
      client.toggleManualPageObject('m', s.manual);
    } else if (k === 'event') await client.plugin().execute({ event_type: 'go', event_properties: {} });
    else if (k === 'close') {
      const dialog = page.scope.document.getElementById('amp-exp-opener-severed');
      for (const x of dialog.querySelectorAll('button[data-action="close"]')) x.dispatch('click');
      if (!dialog.childNodes.length) dialog.remove(); // its content is not parsed here: the browser's own way to dismiss
      s.banner = false;
    } else if (k === 'reload') await load(s.path, '', a === 'gone' ? 'gone' : opener);
    else if (k === 'leave') {
      stored = '';
      await load(s.path, '', opener);
    }
    if (s.indicator !== null && now() >= s.indicator) s.indicator = null;
    await A.settle();
    check(op);
    ctx.state([s.path, s.state, s.listening, s.indicator && s.indicator - now(), stored, preview, s.scripts, s.manual, s.banner, !!s.noBody, s.editing]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of messages, script loads and failures, waiting, navigation and reloads with fine and broken openers on the real tag, against a reference of the editor channel',
  level_note: 'all sequences within the stated depth',
  assumptions: ['browsers set the origin of a message truthfully', 'the phone-sized shell of the editor is the subject of C38'],
  bounds: (t) => ({ depth: t === 'thorough' ? '4-6' : '3-5', origins: Object.keys(ORIGINS).length, messages: Object.keys(MSG).length }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const VE = '?VISUAL_EDITOR=true';
    const add = (name, params, depth) => out.push({ name, params: { first: [['a', VE]], openers: ['fine'], depth: depth + (T ? 1 : 0), ...params }, shards: 16, shardDepth: 2 });
    add('messages', { msgs: Object.keys(MSG), origins: Object.keys(ORIGINS), waits: [], first: [['a', VE], ['a', ''], ['a', '?PREVIEW=true&P=b']] }, 2);
    add('channel', { msgs: ['open', 'other', 'evil'], origins: ['https://app.amplitude.com', 'https://evil.com/.amplitude.com'], first: [['a', VE + '&x=1'], ['a', ''], ['a', '?VISUAL_EDITOR=false'], ['a', '?PREVIEW=true&P=b']] }, 4);
    add('openers', { openers: ['closed', 'gone', 'hostile', 'fine'], act: true }, 3);
    add('editing', { first: [['a', VE], ['c', VE]], act: true }, 5);
    add('stored', { stored: Object.keys(STORED), first: [['a', ''], ['a', VE], ['a', '?PREVIEW=true&P=b']], openers: ['fine', 'gone'], reload: true }, 3);
    add('session', { remembers: true, reload: true, act: true, first: [['a', VE]] }, 4);
    for (const nonce of ['script', 'style', 'hidden', 'attribute']) add('nonce ' + nonce, { nonce, stored: ['', 'good'], first: [['a', VE]] }, 3);
    add('no body', { noBody: true, stored: ['', 'good'], openers: ['fine', 'gone'], waits: [16, 9999] }, 4);
    add('both', { first: [['a', VE + '&PREVIEW=true&P=b'], ['a', '?PREVIEW=true&P=b']], stored: ['', 'good'], openers: ['fine', 'gone'], reload: true }, 3);
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
