'use strict';
// The phone-sized shell of the visual editor: built once when the page is complete and before the editor, showing the
// same page in one frame whose address the top address follows; in that frame the tag does nothing.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const SRC = 'https://cdn.amplitude.com/overlay.js';
const HOST = 'https://www.example.com';
const at = (p) => A.urlCond(`^${HOST}/${p}([?#].*)?$`);
const FLAGS = [
  A.localFlag('P', { on: [A.mutateAction(A.mutation('P'))] }),
  A.localFlag('Z', { on: [A.redirectAction(HOST + '/z')] }),
  A.localFlag('M', { on: [A.mutateAction(A.mutation('M'))] }),
  A.localFlag('R', { on: [A.mutateAction(A.mutation('R'))] }, { mode: 'remote', metadata: { blockingEvaluation: true } }),
];
const PAGES = { P: { P: A.pageObj('P', 'url_change', {}, at('[ab]')) }, Z: { Z: A.pageObj('Z', 'url_change', {}, at('c')) }, M: { M: A.pageObj('M', 'manual', { name: 'm' }) }, R: { R: A.pageObj('R') } };
const MOBILE = 'amp-visual-editor-mobile-mode';
const STATE = 'visual-editor-state';

function start(page, bundle) {
  const rec = new A.Recorder();
  page.scope.experimentIntegration = rec;
  page.onRequest = (r) => r.respond(200, []);
  const m = bundle.load(page.scope);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES) }, { useDefaultNavigationHandler: true });
  return rec;
}
const inert = (ctx, page, rec, where) => {
  ctx.equal(A.liveMutations(page), [], `no experiment acts ${where}`, 'experiments');
  ctx.equal([(page.navigations || []).length, rec.keys(), page.antiFlicker(), page.requests.filter((r) => r.url.includes('flags')).length], [0, [], false, 0], `nothing redirected, reported, hidden or asked for ${where}`, 'experiments');
  ctx.ok(!(page.errors || []).length, `page error ${where}`, 'error');
};

// the frame as the browser would have it: every load brings a new history, which the site then uses
class Frame {
  constructor(el, log) {
    this.el = el;
    this.log = log;
    this.win = null;
  }
  load(href, cross) {
    const self = this;
    const listeners = {};
    const history = {};
    this.href = href;
    this.cross = cross;
    const apply = (_s, _t, url) => {
      if (url !== undefined && url !== null) self.href = new URL(url, self.href).href;
    };
    history.pushState = function (...a) {
      if (this !== history) throw new TypeError('Illegal invocation');
      self.log.push(['push', ...a]);
      apply(...a);
    };
    history.replaceState = function (...a) {
      if (this !== history) throw new TypeError('Illegal invocation');
      self.log.push(['replace', ...a]);
      apply(...a);
    };
    this.listeners = listeners;
    const denied = () => {
      throw new Error('SecurityError');
    };
    const inner = {
      location: { get href() { return self.href; } },
      history,
      addEventListener: (t, f) => (listeners[t] = listeners[t] || []).push(f),
    };
    this.inner = inner;
    this.el.contentWindow = cross ? { get location() { return { get href() { return denied(); } }; }, get history() { return denied(); }, addEventListener: denied } : inner;
    this.el.contentDocument = null;
  }
  loaded() {
    this.el.dispatch('load');
  }
  back(href) {
    this.href = href;
    for (const f of (this.listeners.popstate || []).slice()) f({ type: 'popstate', state: null });
  }
}

async function shell(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  const session = tab.sessionFor('www.example.com').api;
  const mobile = ctx.pick(p.mobile);
  if (mobile !== 'unset') session.setItem(MOBILE, mobile);
  const stored = ctx.pick(p.stored);
  if (stored) session.setItem(STATE, JSON.stringify({ injectSrc: SRC }));
  const query = ctx.pick(stored ? ['', '?VISUAL_EDITOR=true'] : ['?VISUAL_EDITOR=true', '?x=1&VISUAL_EDITOR=true&y=z#h']);
  const on = mobile === 'true';
  const page = new A.TagPage({ device, tab, url: HOST + '/a' + query, opener: { closed: false } });
  const doc = page.scope.document;
  doc.readyState = ctx.pick(p.ready);
  const body = doc.body;
  const site = [page.make('main', { id: 'site' }), page.make('footer', {})];
  site.forEach((e) => body.appendChild(e));
  if (ctx.pick(p.noBody)) {
    doc.body = null;
    body.remove();
  }
  const pushes = [];
  const push = page.scope.history.pushState;
  page.scope.history.pushState = function (...a) {
    pushes.push(a);
    return push.apply(this, a);
  };
  const log = [];
  let frame = null;
  let framed = false; // its first load was announced
  let top = HOST + '/a' + query.replace(/[?&]VISUAL_EDITOR=true&?/, (m) => (m.endsWith('&') ? m[0] : '')).replace(/\?(?=#|$)/, '');
  let manual = false;
  let asked = false;
  let built = false;
  let shown = false; // the script is on the page: it needs a body, which is looked for on each frame
  ctx.step(`open ${query} ${doc.readyState}, body ${!!doc.body}, mobile ${mobile}, stored ${stored}`);
  const rec = start(page, bundle);
  await A.settle();
  const client = page.scope.webExperiment;
  const scripts = () => page.scope.document.head.childNodes.filter((n) => n.tagName === 'SCRIPT' && n.src).map((n) => n.src);
  const ready = () => doc.readyState === 'complete' && !!doc.body;
  const frames = () => doc.documentElement.querySelectorAll('iframe');
  if (ready()) built = true;
  if (built && stored) asked = true;
  const check = (op) => {
    const where = `after ${op} (${query}, mobile ${mobile}, ${doc.readyState})`;
    inert(ctx, page, rec, where);
    const there = doc.body ? doc.body.querySelectorAll('#site').length + doc.body.querySelectorAll('footer').length : 2;
    ctx.equal(there, on && built ? 0 : 2, `what the site shows ${where}`, 'site content');
    ctx.equal(frames().length, on && built ? 1 : 0, `frames ${where}`, 'frames');
    ctx.equal(scripts(), shown ? [SRC] : [], `editor script ${where}`, 'editor');
    if (on && built) {
      const f = frames()[0];
      if (!frame) {
        ctx.equal([f.id, new URL(f.src, HOST).pathname, new URL(f.src, HOST).searchParams.get('x'), new URL(f.src, HOST).hash], ['amp-device-iframe', new URL(top).pathname, new URL(top).searchParams.get('x'), new URL(top).hash], `the frame shows the page ${where}`, 'frame address');
        ctx.ok(doc.adoptedStyleSheets.some((x) => /display: none !important/.test(x.css || '')), `what is added beside the frame is hidden ${where}`, 'hidden');
        frame = new Frame(f, log);
        frame.load(f.src);
      }
      ctx.ok(f === frame.el, `the same frame ${where}`, 'frames');
    }
    if (built) {
      ctx.equal(page.scope.location.href, top, `address ${where}`, 'address');
      const path = new URL(top).pathname.slice(1);
      ctx.equal(Object.keys(client.getActivePages()).sort(), [...('ab'.includes(path) ? ['P'] : []), ...(path === 'c' ? ['Z'] : []), ...(manual ? ['M'] : []), 'R'].sort(), `active pages ${where}`, 'active pages');
      ctx.ok(client.isRunning, `running ${where}`, 'running');
    }
    ctx.equal(pushes.length, 0, `the top history grew ${where}`, 'history');
  };
  if (!on && !built) {
    // no shell: the editor does not wait for the page
    built = true;
    if (stored) asked = true;
  }
  shown = asked && !!doc.body;
  check('load');
  const follow = () => {
    if (!framed || frame.cross || !frame.heard) return;
    const u = new URL(frame.href);
    u.searchParams.delete('VISUAL_EDITOR'); // never back in the address
    if (u.href !== top) manual = false;
    top = u.href;
  };
  for (let d = 0; d < p.depth; d++) {
    const ops = ['message'];
    if (doc.readyState !== 'complete') ops.push('complete');
    if (!doc.body) ops.push('body');
    ops.push('tick');
    if (built) ops.push('manual');
    if (frame && frame.pending !== false) ops.push('loaded');
    if (frame && framed) {
      ops.push('go a', 'go b?q=1', 'go cross');
      if (!frame.cross) ops.push('push b', 'push c#h', 'replace c#k', 'push', 'replace a', 'back a');
    }
    const op = ctx.pick(ops);
    const [k, a] = op.split(' ');
    ctx.step(op);
    if (k === 'complete') doc.readyState = 'complete';
    else if (k === 'body') {
      doc.documentElement.appendChild(body);
      doc.body = body;
    } else if (k === 'tick') {
      await page.timers.advance(16);
      if (!built && ready()) {
        built = true;
        if (stored) asked = true;
      }
      if (asked && doc.body) shown = true;
    } else if (k === 'message') {
      page.windowDispatch('message', { origin: 'https://app.amplitude.com', data: { type: 'OpenOverlay', context: { injectSrc: SRC } }, source: page.scope.opener });
      if (built && !asked) {
        asked = true;
        shown = !!doc.body;
      }
    } else if (k === 'manual') {
      manual = !manual;
      client.toggleManualPageObject('m', manual);
    } else if (k === 'go') {
      frame.load(a === 'cross' ? 'https://other.com/' : HOST + '/' + a, a === 'cross');
      frame.heard = false;
      frame.pending = true;
    } else if (k === 'loaded') {
      frame.pending = false;
      framed = true;
      frame.heard = !frame.cross;
      frame.loaded();
      follow();
    } else if (k === 'push' || k === 'replace') {
      const n = log.length;
      const st = { n: d };
      if (a) frame.inner.history[k === 'push' ? 'pushState' : 'replaceState'](st, '', '/' + a);
      else frame.inner.history.pushState(st, '');
      ctx.ok(log.length === n + 1 && log[n][0] === k && log[n][1] === st && log[n].length <= 4, `the framed site's own ${k} happens once, as made`, 'frame history');
      ctx.equal(new URL(frame.href).href, a ? HOST + '/' + a : frame.href, 'address of the frame', 'frame history');
      follow();
    } else if (k === 'back') {
      frame.back(HOST + '/' + a);
      follow();
    }
    await A.settle();
    check(op);
    ctx.state([top, built, asked, framed, frame && [frame.href, frame.cross, frame.heard, frame.pending], manual, doc.readyState, !!doc.body]);
  }
}

// the page inside the frame
async function inside(ctx, p, bundle) {
  const device = new Device();
  const tab = new Tab(device);
  const session = tab.sessionFor('www.example.com').api;
  const mobile = ctx.pick(['true', 'unset', 'false']);
  if (mobile !== 'unset') session.setItem(MOBILE, mobile);
  const stored = ctx.pick([true, false]);
  if (stored) session.setItem(STATE, JSON.stringify({ injectSrc: SRC }));
  const query = ctx.pick(['', '?VISUAL_EDITOR=true', '?PREVIEW=true&P=on']);
  const holder = ctx.pick(['device', 'other', 'denied', 'none']);
  const page = new A.TagPage({ device, tab, url: HOST + '/a' + query, opener: { closed: false } });
  const opts = { device: { id: 'amp-device-iframe' }, other: { id: 'x' }, none: null };
  Object.defineProperty(page.scope, 'frameElement', { get() { if (holder === 'denied') throw new Error('SecurityError'); return opts[holder]; }, configurable: true });
  const quiet = holder === 'device' && mobile === 'true';
  const editing = stored || query.includes('VISUAL');
  ctx.step(`${query}, frame ${holder}, mobile ${mobile}, stored ${stored}`);
  const rec = start(page, bundle);
  await A.settle();
  await page.timers.advance(0);
  const client = page.scope.webExperiment;
  const check = (op) => {
    const where = `after ${op} in frame ${holder}, mobile ${mobile}, ${query}, stored ${stored}`;
    if (quiet || editing) inert(ctx, page, rec, where);
    else if (page.scope.location.pathname === '/a' || page.scope.location.pathname === '/b') ctx.ok(A.liveMutations(page).includes('P'), `experiments act ${where}`, 'inert');
    if (!query.includes('PREVIEW')) ctx.equal(!!page.scope.ampDomMutator, quiet, `DOM changes offered to the editor ${where}`, 'mutator');
    if (quiet) {
      ctx.equal(page.scope.document.head.childNodes.filter((n) => n.src).length, 0, `nothing loaded ${where}`, 'editor');
      ctx.equal(page.scope.document.querySelectorAll('iframe').length, 0, `no frame in the frame ${where}`, 'frames');
      ctx.ok(client.isRunning, `running ${where}`, 'running');
    }
  };
  check('load');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(['push b', 'push a', 'manual', 'event', 'message', 'wait', 'api']);
    ctx.step(op);
    const [k, a] = op.split(' ');
    if (k === 'push') page.scope.history.pushState({}, '', '/' + a);
    else if (k === 'manual') client.toggleManualPageObject('m', true);
    else if (k === 'event') await client.plugin().execute({ event_type: 'go', event_properties: {} });
    else if (k === 'message') page.windowDispatch('message', { origin: 'https://app.amplitude.com', data: { type: 'OpenOverlay', context: { injectSrc: SRC } }, source: page.scope.opener });
    else if (k === 'wait') await page.timers.advance(1100);
    else {
      client.getActivePages();
      client.getVariants();
      client.getActiveExperiments();
      client.addPageChangeSubscriber(() => {});
      client.getDebugState && client.getDebugState();
    }
    await A.settle();
    check(op);
    ctx.state([page.scope.location.href, quiet, editing]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of page readiness, editor messages and the navigations of the framed site on the real tag over a simulated page and frame, against a reference of the shell',
  level_note: 'all sequences within the stated depth',
  assumptions: ['every load of a frame brings a fresh history object', 'a page of another origin in the frame denies access to its address'],
  bounds: (t) => ({ depth: t === 'thorough' ? '5-6' : '4-5' }),
  scenarios(tier) {
    const x = tier === 'thorough' ? 1 : 0;
    return [
      { name: 'ready', params: { kind: 'shell', mobile: ['true', 'unset', 'false'], stored: [true, false], ready: ['loading', 'interactive', 'complete'], noBody: [true, false], depth: 4 + x }, shards: 16, shardDepth: 4 },
      { name: 'frame', params: { kind: 'shell', mobile: ['true'], stored: [false], ready: ['complete'], noBody: [false], depth: 5 + x }, shards: 16, shardDepth: 6 },
      { name: 'inside', params: { kind: 'inside', depth: 3 + x }, shards: 16, shardDepth: 3 },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run: (ctx, p, b) => (p.kind === 'shell' ? shell : inside)(ctx, p, b),
};
