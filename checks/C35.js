'use strict';
// What injected variant code gets to work with: waiting for an element, putting an element in its place and keeping it
// there, and cleaning up. All sequences of what the site may do to the page, against a reference page.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');

const onA = A.urlCond('^https://www\\.example\\.com/a$');
const PAGES = { f0: { P: A.pageObj('P', 'url_change', {}, onA) }, f1: { P: A.pageObj('P', 'url_change', {}, onA) }, f2: { P: A.pageObj('P', 'url_change', {}, onA) } };
const MAX = 10; // insertions per second

async function run(ctx, p, bundle) {
  const page = new A.TagPage({ device: new Device(), url: 'https://www.example.com/a' });
  const s = page.scope;
  const doc = s.document;
  const rec = new A.Recorder();
  s.experimentIntegration = rec;
  const inst = []; // one for each time the code ran: { el, live, in, times, calls, resolved, waited }
  const order = (parent) => parent.childNodes.map((c) => c.id || c.className);
  let box = null; // the box on the page: { el, kids: ids in order }
  const place = () => box && (p.before ? box.kids.includes('ref') : true);

  page.onInject = ({ html, utils }) => {
    const el = html || page.make('div', { id: 'mine' });
    const I = { n: inst.length, el, live: true, in: null, times: [], calls: 0, resolved: 0, waited: null };
    inst.push(I);
    if (p.remove !== 'none')
      utils.remove = () => {
        I.removed = (I.removed || 0) + 1;
        if (p.remove === 'throws') throw new Error('clean-up failed');
        el.remove();
      };
    if (p.wait) utils.waitForElement('.late').then((e) => (I.waited = e));
    if (p.insert !== false)
      utils.insertElement(el, { parentSelector: '#box', insertBeforeSelector: p.before ? '.ref' : null }, p.callback === false ? undefined : () => I.calls++).then(
        () => I.resolved++,
        (e) => (I.rejected = String(e)),
      );
    if (p.code === 'throws') throw new Error('variant code failed');
  };
  const m = bundle.load(s);
  page.onRequest = (r) => r.respond(200, []);
  const flags = [
    A.localFlag('f0', { on: [A.mutateAction(A.mutation('m0'))] }),
    A.localFlag('f1', { on: [A.injectAction('i-1', { css: '.i1{}', html: '<div id="mine"></div>', ...(p.code === 'none' ? { js: undefined } : {}) })] }),
    A.localFlag('f2', { on: [A.mutateAction(A.mutation('m2'))] }),
  ];
  const putBox = (kind) => {
    if (box) box.el.remove();
    box = null;
    if (kind === 'none') return;
    const el = page.make('div', { id: 'box' });
    const kids = [];
    // what the site puts into the box: a matching element deeper inside, one directly inside, or both
    const add = (e, id) => {
      el.appendChild(e);
      kids.push(id);
    };
    if (kind === 'nested' || kind === 'both') {
      const w = page.make('div', { id: 'wrap' });
      w.appendChild(page.make('i', { cls: 'ref' }));
      add(w, 'wrap');
    }
    if (kind === 'direct' || kind === 'both') add(page.make('i', { cls: 'ref' }), 'ref');
    if (kind === 'last') add(page.make('b', { id: 'x' }), 'x');
    box = { el, kids };
    doc.body.appendChild(el);
  };
  if (p.start) putBox(p.start);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(PAGES) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
  const late = []; // elements that match what is waited for, in document order
  // reference: an element is put in its place as soon as the place exists, at most MAX times in any second
  const settleModel = () => {
    for (const I of inst) {
      if (I.in && I.in !== box) I.in = null;
      if (!I.live || p.insert === false || I.in || !place()) continue;
      I.times = I.times.filter((t) => t > page.clock.now - 1000);
      if (I.times.length >= MAX) continue;
      I.times.push(page.clock.now);
      I.in = box;
      I.total = (I.total || 0) + 1;
      const at = p.before ? box.kids.indexOf('ref') : box.kids.length;
      box.kids.splice(at, 0, 'mine');
    }
  };
  const runs = () => inst.length;
  let want = { runs: 1, on: true };
  const check = (op) => {
    ctx.equal(runs(), p.code === 'none' ? 0 : want.runs, `times the variant code ran after ${op}`, 'runs');
    if (box) ctx.equal(order(box.el), box.kids, `children of the parent after ${op}`, 'place');
    for (const I of inst) {
      ctx.equal(I.el.isConnected, !!I.in, `whether the element of run ${I.n} is on the page after ${op}`, 'connected');
      ctx.equal(I.calls, p.callback === false ? 0 : I.total || 0, `callbacks of run ${I.n} after ${op}`, 'callbacks');
      ctx.equal([I.resolved, I.rejected], [I.total ? 1 : 0, undefined], `promise of run ${I.n} after ${op}`, 'promise');
      if (p.wait) ctx.equal(I.waited && I.waited.id, I.seen || null, `element waited for by run ${I.n} after ${op}`, 'waited');
      ctx.equal(I.removed || 0, !I.live && p.remove !== 'none' ? 1 : 0, `clean-ups of run ${I.n} after ${op}`, 'clean-ups');
    }
    ctx.equal(A.liveMutations(page), want.on ? ['m0', 'm2'] : [], `other variants' mutations after ${op}`, 'other variants');
    ctx.equal(!!(s.__domMutator || {}).paused, false, `mutations kept up to date after ${op}`, 'observer');
    ctx.equal(doc.adoptedStyleSheets.map((x) => x.css), want.on ? ['.i1{}'] : [], `style sheets after ${op}`, 'style sheets');
    const scripts = doc.head.childNodes.filter((n) => n.tagName === 'SCRIPT').map((n) => n.id);
    ctx.equal(scripts, want.on && !p.code ? ['js-i1'] : [], `scripts after ${op}`, 'scripts');
    ctx.equal(rec.keys().sort(), ['f0:on', 'f1:on', 'f2:on'].flatMap((k) => Array(want.runs).fill(k)), `impressions after ${op}`, 'impressions');
  };
  const seeLate = () => {
    for (const I of inst) if (I.live && !I.seen && late.length) I.seen = late[0].id;
  };
  await A.settle();
  if (process.env.DBG) console.log(page.consoleLog, page.timers.list, page.requests.length, Object.keys(page.scope.webExperiment||{}), s.__domMutator);
  settleModel();
  check('start');
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(p.ops);
    const [k, a] = op.split(' ');
    ctx.step(op);
    if (k === 'box') putBox(a);
    else if (k === 'shuffle') {
      // the site re-renders the box before its observers are told of either change
      putBox('none');
      putBox(a);
    } else if (k === 'pull') {
      // the site takes the element out, n times in a row
      for (let i = 0; i < Number(a); i++) {
        for (const I of inst) {
          if (!I.el.isConnected) continue;
          I.el.remove();
          if (I.in) box.kids.splice(box.kids.indexOf('mine'), 1);
          I.in = null;
        }
        await A.settle();
        settleModel();
      }
    } else if (k === 'busy') {
      // unrelated changes to the page, one at a time
      for (let i = 0; i < Number(a); i++) {
        doc.body.setAttribute('data-n', String(i));
        await A.settle();
      }
    } else if (k === 'late') {
      const e = page.make('p', { id: 'l' + d, cls: a === 'class' ? '' : 'late' });
      doc.body.appendChild(e);
      if (a === 'class') {
        await A.settle();
        e.setAttribute('class', 'late');
      }
      late.push(e);
      seeLate();
      if (a === 'gone') {
        await A.settle();
        late.pop().remove();
      }
    } else if (k === 'tick') {
      const until = page.clock.now + Number(a);
      // room for another insertion may come up at any point in between
      for (;;) {
        const next = inst.filter((I) => I.live && !I.in && place() && I.times.length >= MAX).map((I) => I.times.slice(-MAX)[0] + 1000).filter((t) => t <= until);
        const to = next.length ? Math.min(...next) : until;
        await page.timers.advance(to - page.clock.now);
        await A.settle();
        settleModel();
        if (to === until) break;
      }
    } else if (k === 'away' && want.on) {
      s.history.pushState({}, '', '/b');
      want.on = false;
      for (const I of inst) {
        if (I.live && p.remove === 'ok' && I.in) {
          box.kids.splice(box.kids.indexOf('mine'), 1);
          I.in = null;
        }
        I.live = false;
      }
    } else if (k === 'back' && !want.on) {
      s.history.pushState({}, '', '/a');
      want = { runs: want.runs + 1, on: true };
    } else if (k === 'flip') {
      // away and back within one task
      if (!want.on) continue;
      s.history.pushState({}, '', '/b');
      for (const I of inst) {
        if (I.live && p.remove === 'ok' && I.in) {
          box.kids.splice(box.kids.indexOf('mine'), 1);
          I.in = null;
        }
        I.live = false;
      }
      s.history.pushState({}, '', '/a');
      want = { runs: want.runs + 1, on: true };
    }
    await A.settle();
    seeLate();
    settleModel();
    check(op);
    ctx.state([box && box.kids, late.length, want.on, inst.map((I) => [I.live, !!I.in, I.times.map((t) => page.clock.now - t)])]);
  }
}

const NAV = ['away', 'back'];
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of what a site may do to the page (re-rendering, removing, flooding with changes, navigating) around injected variant code on the real tag, against a reference page',
  level_note: 'all sequences within the stated depth',
  assumptions: ['mutation observers and insertBefore behave as the DOM standard says', 'one variant inserts one element'],
  bounds: (t) => ({ depth: t === 'thorough' ? 6 : 5 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const sh = { shards: 16, shardDepth: 2 };
    return [
      { name: 'append', params: { remove: 'ok', start: 'last', depth: T ? 6 : 5, ops: ['box none', 'box last', 'shuffle last', 'pull 1', 'busy 3', ...NAV] }, ...sh },
      { name: 'before', params: { remove: 'ok', before: true, depth: T ? 6 : 5, ops: ['box none', 'box nested', 'box direct', 'box both', 'pull 1', ...NAV] }, ...sh },
      { name: 'limit', params: { remove: 'ok', before: true, start: 'direct', depth: T ? 6 : 4, ops: ['box none', 'box both', 'pull 6', 'busy 12', 'tick 400', 'tick 1000', ...NAV] }, ...sh },
      { name: 'limit-append', params: { remove: 'none', depth: T ? 6 : 4, ops: ['box none', 'box last', 'pull 6', 'pull 12', 'busy 12', 'tick 999', ...NAV] }, ...sh },
      { name: 'wait', params: { remove: 'ok', insert: false, wait: true, depth: T ? 6 : 5, ops: ['late node', 'late class', 'late gone', 'busy 1', 'flip', ...NAV] }, ...sh },
      { name: 'clean-up throws', params: { remove: 'throws', before: true, start: 'direct', depth: T ? 6 : 4, ops: ['box both', 'pull 1', 'flip', 'busy 12', 'tick 1000', ...NAV] }, ...sh },
      { name: 'no clean-up', params: { remove: 'none', callback: false, start: 'last', depth: T ? 6 : 4, ops: ['box none', 'box last', 'pull 1', 'flip', ...NAV] }, ...sh },
      { name: 'no code', params: { code: 'none', start: 'last', depth: T ? 7 : 5, ops: ['busy 1', 'tick 1000', 'flip', ...NAV] }, ...sh },
      { name: 'code throws', params: { remove: 'ok', code: 'throws', wait: true, start: 'last', depth: T ? 6 : 4, ops: ['box none', 'box last', 'pull 1', 'late node', 'flip', ...NAV] }, ...sh },
    ];
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
