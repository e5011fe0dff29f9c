'use strict';
// The site goes on working around what variants changed: links a variant points elsewhere in a site with its own
// router, and removal of nodes a variant has moved. Every combination of link, click and router on the real tag.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');
const { canon } = require('../lib/explore');

const RECORDS = {
  none: undefined,
  other: { attributes: { title: { mutations: [{}] } } },
  emptied: { attributes: { href: { mutations: [] } } },
  bare: {},
  one: { attributes: { href: { mutations: [{}] } } },
  two: { attributes: { href: { mutations: [{}, {}] }, title: { mutations: [{}] } } },
};
const HREFS = ['/x', 'x?q=1#h', '#h', '?q=2', 'https://www.example.com/x', '//www.example.com/y', 'https://shop.example.com/x', 'http://www.example.com/x', 'https://www.example.com:8443/x', 'mailto:a@b.c', 'http://[', '', null];
const TARGETS = [null, '', '_self', '_blank', '_top', 'frame'];
const CLICKS = { plain: {}, meta: { metaKey: true }, ctrl: { ctrlKey: true }, shift: { shiftKey: true }, alt: { altKey: true }, middle: { button: 1 }, right: { button: 2 }, cancelled: { defaultPrevented: true } };
const FIBERS = {
  none: undefined,
  noProps: {},
  noHandler: { memoizedProps: {} },
  plainHandler: { memoizedProps: { onClick: 'function(e){track(e)}' } },
  router: { memoizedProps: { onClick: 'function(e){ if (!e.defaultPrevented) go(e) }' } },
};
const WHERE = ['link', 'inside', 'beside', 'text', 'document'];
const ROUTERS = ['none', 'next', 'next without router'];
const HOME = 'https://www.example.com/dir/page?u=1';

async function start(p, bundle) {
  const page = new A.TagPage({ device: new Device(), url: HOME });
  page.scope.experimentIntegration = new A.Recorder();
  page.onRequest = (r) => r.respond(200, []);
  for (let i = 0; i < p.scripts; i++) {
    const m = bundle.load(page.scope);
    if (i) delete page.scope.webExperiment; // a second script on the page, unaware of the first
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify([A.localFlag('f', { on: [A.mutateAction(A.mutation('m'))] })]), pageObjects: JSON.stringify({ f: { P: A.pageObj('P') } }) }, { useDefaultNavigationHandler: p.handler, fetchOnStart: false });
    await A.settle();
  }
  await page.timers.advance(1000);
  return page;
}

async function links(ctx, p, bundle) {
  const page = await start(p, bundle);
  const s = page.scope;
  const doc = s.document;
  const pushed = [];
  if (p.router !== 'none') s.next = p.router === 'next' ? { router: { push: (h) => pushed.push(h) } } : {};
  const inner = s.history.pushState;
  const entries = [];
  s.history.pushState = function (st, t, u) {
    const r = inner.apply(this, arguments);
    entries.push(u);
    return r;
  };
  const pops = [];
  s.addEventListener('popstate', (e) => pops.push(page.url));
  const a = page.make('a');
  const b = page.make('b');
  a.appendChild(b);
  doc.body.appendChild(a);
  const beside = page.make('p');
  doc.body.appendChild(beside);
  const targets = { link: a, inside: b, beside, text: { nodeType: 3, parentNode: a, closest: undefined }, document: doc };
  let n = 0;
  for (const rk of Object.keys(RECORDS))
    for (const fk of Object.keys(FIBERS))
      for (const href of HREFS)
        for (const target of TARGETS)
          for (const ck of Object.keys(CLICKS))
            for (const where of WHERE) {
              page.url = HOME;
              page.navigations = [];
              entries.length = pops.length = pushed.length = 0;
              for (const k of Object.keys(a)) if (k.startsWith('__react')) delete a[k];
              if (FIBERS[fk]) a.__reactFiber$x1 = FIBERS[fk];
              a.__mutationRecord__ = RECORDS[rk];
              a.attributes = {};
              if (href !== null) a.attributes.href = href;
              if (target !== null) a.attributes.target = target;
              let prevented = 0;
              const e = { target: targets[where], button: 0, metaKey: false, ctrlKey: false, shiftKey: false, altKey: false, defaultPrevented: false, ...CLICKS[ck], preventDefault: () => prevented++ };
              let threw = false;
              try {
                page.docDispatch('click', e);
              } catch (err) {
                threw = true;
              }
              n++;
              const takes = (rk === 'one' || rk === 'two') && fk === 'router' && href && (!target || target === '_self') && ck === 'plain' && (where === 'link' || where === 'inside');
              let want = { prevented: false, loads: [], entries: [], pops: [], router: [], url: HOME };
              if (takes) {
                let url = null;
                try {
                  url = new URL(href, HOME);
                } catch (err) {
                  url = null;
                }
                want.prevented = true;
                if (url && url.origin !== new URL(HOME).origin) want.loads = [url.href];
                else if (p.router === 'next') want.router = [href];
                else if (url) Object.assign(want, { url: url.href, entries: [href], pops: [url.href] });
              }
              const got = { prevented: prevented > 0, loads: page.navigations.map((x) => x.url), entries: entries.slice(), pops: pops.slice(), router: pushed.slice(), url: page.url };
              if (canon(got) !== canon(want) || (threw && href !== 'http://[')) ctx.report(`click (${ck}) on ${where}, href ${href}, target ${target}, changed by variant: ${rk}, site handler: ${fk}: observed ${canon(got)}${threw ? ' and an error' : ''}, expected ${canon(want)}`, 'link');
            }
  ctx.evaluatedMany(n, n);
  ctx.count('clicks', n);
}

// the tag follows where the click led, like any navigation of the site
async function follow(ctx, p, bundle) {
  const page = new A.TagPage({ device: new Device(), url: 'https://www.example.com/a' });
  const s = page.scope;
  const doc = s.document;
  const rec = new A.Recorder();
  s.experimentIntegration = rec;
  page.onRequest = (r) => r.respond(200, []);
  const on = (x) => ({ P: A.pageObj('P', 'url_change', {}, A.urlCond(`^https://www\\.example\\.com/${x}(\\?.*)?$`)) });
  const m = bundle.load(s);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(['a', 'b', 'c'].map((x) => A.localFlag('f' + x, { on: [A.mutateAction(A.mutation('m' + x))] }))), pageObjects: JSON.stringify({ fa: on('a'), fb: on('b'), fc: on('c') }) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
  await A.settle();
  await page.timers.advance(1000);
  const link = page.make('a');
  doc.body.appendChild(link);
  link.__reactFiber$1 = FIBERS.router;
  if (p.router === 'next') s.next = { router: { push: (h) => s.history.pushState({}, '', h) } };
  let at = 'a';
  const want = ['fa:on'];
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(['a', 'b', 'c', 'b?q=1', 'unchanged b', 'cancelled b']);
    ctx.step('click ' + op);
    const [k, x] = op.includes(' ') ? op.split(' ') : ['', op];
    link.__mutationRecord__ = k === 'unchanged' ? RECORDS.emptied : RECORDS.one;
    link.attributes.href = '/' + x;
    page.docDispatch('click', { target: link, button: 0, defaultPrevented: k === 'cancelled' });
    await A.settle();
    const to = x.split('?')[0];
    if (!k && to !== at) {
      at = to;
      want.push(`f${at}:on`);
    }
    ctx.equal(A.liveMutations(page), ['m' + at], `live changes after ${op}`, 'live changes');
    ctx.equal(rec.keys(), want, `impressions after ${op}`, 'impressions');
    ctx.state([at]);
  }
}

async function removal(ctx, p, bundle) {
  const page = await start(p, bundle);
  const doc = page.scope.document;
  const kinds = ['child', 'moved out', 'moved in', 'detached', 'elsewhere', 'itself', 'null', 'undefined'];
  for (let d = 0; d < p.depth; d++) {
    const kind = ctx.pick(kinds);
    ctx.step('remove ' + kind);
    const [parent, child, other] = ['div', 'i', 'p'].map((t) => page.make(t));
    doc.body.appendChild(parent);
    doc.body.appendChild(other);
    parent.appendChild(page.make('b'));
    if (kind === 'child') parent.appendChild(child);
    if (kind === 'moved out') other.appendChild(child);
    if (kind === 'moved in') {
      const wrap = page.make('u');
      parent.appendChild(wrap);
      wrap.appendChild(child);
    }
    if (kind === 'elsewhere') page.make('div').appendChild(child);
    const what = kind === 'null' ? null : kind === 'undefined' ? undefined : kind === 'itself' ? parent : child;
    const was = child.parentNode;
    let res;
    let threw = false;
    try {
      res = parent.removeChild(what);
    } catch (e) {
      threw = true;
    }
    ctx.equal(threw, what === null || what === undefined, `removing ${kind} throws`, 'throws');
    if (!threw) ctx.ok(res === what, `removing ${kind} gives the node back`, 'result');
    ctx.ok(child.parentNode === (kind === 'child' ? null : was), `where the node is after removing ${kind}`, 'parent');
    ctx.ok(parent.parentNode === doc.body, `the parent stays after removing ${kind}`, 'parent');
    ctx.equal(parent.childNodes.length, kind === 'moved in' ? 2 : 1, `children left after removing ${kind}`, 'children');
    ctx.state([kind]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive enumeration of links, clicks and routers, and exhaustive exploration of click and removal sequences, on the real tag over a simulated page against a reference',
  level_note: 'every combination of the listed kinds',
  assumptions: ['a link handled by a router is recognised by its React click handler, as the code documents'],
  bounds: (t) => ({ records: Object.keys(RECORDS), hrefs: HREFS, targets: TARGETS, clicks: Object.keys(CLICKS), handlers: Object.keys(FIBERS), where: WHERE, routers: ROUTERS, clickSequence: t === 'thorough' ? 6 : 4 }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    for (const router of ROUTERS) for (const scripts of [1, 2]) for (const handler of [true, false]) out.push({ name: `links:${router}:${scripts}:${handler}`, params: { kind: 'links', router, scripts, handler } });
    for (const router of ['none', 'next']) out.push({ name: `follow:${router}`, params: { kind: 'follow', router, depth: T ? 6 : 4 }, shards: 6, shardDepth: 1 });
    for (const scripts of [1, 2]) out.push({ name: `removal:${scripts}`, params: { kind: 'removal', scripts, handler: true, depth: T ? 4 : 3 } });
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run: (ctx, p, bundle) => ({ links, follow, removal })[p.kind](ctx, p, bundle),
};
