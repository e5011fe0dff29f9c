'use strict';
// Redirect variants over whole visits: where the visitor is sent, when not, loops, and the redirect's impression.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device, Tab } = require('../lib/env');

const W = 'https://www.example.com';
const re = (s) => A.urlCond('^' + s.replace(/[.?]/g, '\\$&') + '$');
// site: flag -> [condition regex, redirect url]
const SITES = {
  path: { flags: { r: [`^${W}/a(\\?.*)?(#.*)?$`, `${W}/b`] }, urls: ['/a', '/a?u=1', '/a#h', '/b', '/z'] },
  param: { flags: { r: [`^${W}/a(\\?.*)?(#.*)?$`, `${W}/a?x=1`] }, urls: ['/a', '/a?x=1', '/a?x=2&u=1', '/a?u=1&x=1', '/a?x=1#h', '/z'] },
  params: { flags: { r: [`^${W}/a(\\?.*)?$`, `${W}/a?x=1&y=2`] }, urls: ['/a', '/a?x=1', '/a?y=2', '/a?y=2&x=1', '/z'] },
  hash: { flags: { r: [`^${W}/#/old$`, `${W}/#/new`] }, urls: ['/#/old', '/#/new', '/?u=1#/old', '/z'] },
  hashparam: { flags: { r: [`^${W}/(\\?.*)?#/old$`, `${W}/?x=1#/old`] }, urls: ['/#/old', '/?x=1#/old', '/?u=1#/old', '/z'] },
  chain: { flags: { r: [`^${W}/a(\\?.*)?$`, `${W}/b?r=1`], s: [`^${W}/b(\\?.*)?$`, `${W}/c`] }, urls: ['/a', '/b', '/c', '/z'] },
  both: { flags: { r: [`^${W}/a(\\?.*)?$`, `${W}/b`], s: [`^${W}/a(\\?.*)?$`, `${W}/c`] }, urls: ['/a', '/b', '/c', '/z'] },
  pingpong: { flags: { r: [`^${W}/a(\\?.*)?$`, `${W}/b`], s: [`^${W}/b(\\?.*)?$`, `${W}/a`] }, urls: ['/a', '/b', '/z'] },
  mixed: { flags: { r: [`^${W}/a(\\?.*)?$`, `${W}/b`], s: [`^${W}/c(\\?.*)?$`, `https://shop.example.com/b`] }, urls: ['/a', '/c', '/z'] },
  cross2: { flags: { r: [`^${W}/a(\\?.*)?$`, `https://shop.example.com/b`], s: [`^${W}/c(\\?.*)?$`, `https://shop.example.com/b`] }, urls: ['/a', '/c', 'https://shop.example.com/b'] },
  cross: { flags: { r: [`^${W}/a(\\?.*)?$`, `https://shop.example.com/b`] }, urls: ['/a', '/a?u=1', 'https://shop.example.com/b', '/z'] },
};
const noParams = (u) => {
  const x = new URL(u);
  x.search = x.hash = '';
  return x.href;
};
const noQuery = (u) => {
  const x = new URL(u);
  x.search = '';
  return x.href;
};
const noHash = (u) => u.split('#')[0];
const slash = (u) => u.replace(/\/$/, '');

async function run(ctx, p, bundle) {
  const site = SITES[p.site];
  const device = new Device();
  const tab = new Tab(device);
  const F = Object.keys(site.flags);
  const pages = Object.fromEntries(F.map((f) => [f, { P: A.pageObj('P', 'url_change', {}, [[{ selector: ['context', 'page', 'url'], op: 'regex match', values: [site.flags[f][0]] }]]) }]));
  const name = p.unicode ? 'プラン' : 'plan';
  const flags = F.map((f) => A.localFlag(f, { go: [A.redirectAction(site.flags[f][1])] }, { metadata: { experimentName: name } }));
  const seen = [];
  const expectSeen = [];
  let page = null;
  let client = null;
  // reference
  const host = () => new URL(doc.url).hostname;
  const hosts = {};
  const S = () => (hosts[host()] = hosts[host()] || { markers: {}, suppressed: new Set(), stored: {} });
  let doc = null; // { url, inflight, tracked, trackedUrl, due: [{at, f}], nav }
  let navs = []; // expected navigations of this document
  let now = 0;
  let lastFrom = `${W}/a`;
  let fault = false;
  let loose = false; // impressions no longer compared (a navigation failed to start)
  const extra = {}; // reports that may have come twice
  const carried = {}; // cross-host impressions travelling in the URL or a cookie
  const see = (f) => {
    const u = noParams(doc.url);
    if (doc.tracked[u] && doc.tracked[u][f]) return;
    (doc.tracked[u] = doc.tracked[u] || {})[f] = true;
    expectSeen.push(f);
  };
  const cookie = !p.redirectConfig || p.redirectConfig.encodeRedirectInCookie;
  const pendingOf = (f) => S().stored[f] || (cookie && carried[f]);
  const report = (f) => {
    const echo = S().stored[f] && S().stored[f].echo;
    // the host the redirect left from still holds its own record, which it may report later
    for (const h of Object.keys(hosts)) if (h !== host() && hosts[h].stored[f]) hosts[h].stored[f].echo = true;
    delete S().stored[f];
    doc.due = doc.due.filter((d) => d.f !== f);
    if (cookie) delete carried[f];
    if (echo) extra[f] = (extra[f] || 0) + 1;
    else see(f);
  };
  const fireStored = () => {
    for (const f of F) {
      const st = pendingOf(f);
      if (!st) continue;
      if (slash(noParams(doc.url)) === slash(noParams(st.url))) report(f);
      else if (!doc.due.some((d) => d.f === f)) doc.due.push({ at: now + 500, f });
    }
  };
  const tick = (ms) => {
    now += ms;
    for (const d of doc.due.slice())
      if (d.at <= now) {
        if (pendingOf(d.f)) report(d.f);
        else doc.due = doc.due.filter((x) => x !== d);
      }
  };
  const evaluate = () => {
    const u = noParams(doc.url);
    if (!doc.tracked[u]) doc.tracked = { [u]: {} };
    fireStored();
    for (const f of F) {
      const [cond, redirectUrl] = site.flags[f];
      const s = S();
      if (doc.inflight || s.suppressed.has(f) || !new RegExp(cond).test(doc.url)) continue;
      const t = new URL(redirectUrl);
      for (const [k, v] of new URL(doc.url).searchParams) if (!new URL(redirectUrl).searchParams.has(k)) t.searchParams.append(k, v);
      const target = t.href;
      if (doc.url === target || (!t.hash && noHash(doc.url) === noHash(target))) continue;
      const mk = s.markers[f];
      if (mk && backAtSource(mk)) {
        s.suppressed.add(f);
        delete s.markers[f];
        continue;
      }
      doc.inflight = true;
      s.stored[f] = { url: redirectUrl };
      const params = [...t.searchParams.keys()].filter((k) => new URL(doc.url).searchParams.get(k) !== t.searchParams.get(k));
      s.markers[f] = { from: doc.url, target, params, landed: false };
      lastFrom = doc.url;
      if (t.hostname !== host()) carried[f] = { url: redirectUrl };
      if (fault) {
        fault = false;
        loose = true;
        doc.inflight = false;
        delete s.markers[f];
        return 'failed';
      }
      navs.push(target);
      if (p.spa && t.hostname === host()) {
        // the handler routes within the page: the change of URL completes the redirect and is evaluated itself
        doc.url = target;
        doc.inflight = false;
        evaluate();
        continue;
      }
      if (t.hash && target.split('#')[0] === noHash(doc.url)) {
        // stays in this document; going by history counts as somebody acting
        doc.url = target;
        doc.inflight = false;
        S().markers = {};
        later = true;
        return;
      }
      doc.nav = target;
    }
  };
  let later = false;
  const finish = () => {
    if (later) {
      later = false;
      evaluate();
    }
  };
  const paramsGone = (mk) => mk.params.some((k) => new URL(doc.url).searchParams.get(k) !== new URL(mk.target).searchParams.get(k));
  const backAtSource = (mk) => noQuery(doc.url) === noQuery(mk.from) && (!mk.params.length || paramsGone(mk));
  const load = async (url) => {
    if (page) page.kill();
    page = new A.TagPage({ device, tab, url, fragments: true });
    const rec = { type: 'integration', track: (e) => (seen.push(e.eventProperties.flag_key), true), setup: async () => {}, getUser: () => ({}) };
    page.scope.experimentIntegration = rec;
    page.onRequest = (r) => r.respond(200, []);
    page.failNav = 0;
    if (fault) page.failNav = 1;
    const m = bundle.load(page.scope);
    const cfg = { useDefaultNavigationHandler: true, fetchOnStart: false, ...(p.redirectConfig ? { redirectConfig: p.redirectConfig } : {}) };
    page.pushed = [];
    m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) }, cfg);
    client = page.scope.webExperiment;
    if (p.spa)
      client.setRedirectHandler((u) => {
        if (page.failNav) {
          page.failNav = 0;
          throw new Error('router');
        }
        page.handled = (page.handled || []).concat(u);
        if (new URL(u).hostname === page.host) page.scope.history.pushState({}, '', u);
      });
    await A.settle();
    await page.timers.advance(0);
    await A.settle();
    // reference
    doc = { url, inflight: false, tracked: {}, due: [], nav: null };
    navs = [];
    if (page.url !== url && /AMP_REDIRECT/.test(url)) doc.url = page.url;
    const s = S();
    for (const f of Object.keys(s.markers)) {
      const mk = s.markers[f];
      const there = noQuery(doc.url) === noQuery(mk.target) && !paramsGone(mk);
      if (there && !mk.landed) mk.landed = true;
      else {
        if (!there && backAtSource(mk) && !mk.landed) s.suppressed.add(f);
        delete s.markers[f];
      }
    }
    if (/AMP_REDIRECT/.test(url)) for (const f of Object.keys(carried)) if (new URL(carried[f].url).hostname === host()) s.stored[f] = carried[f];
    if (!cookie) for (const f of Object.keys(carried)) delete carried[f];
    evaluate();
    finish();
  };
  const observedNavs = () => (p.spa ? page.handled || [] : (page.navigations || []).map((n) => n.url));
  const clean = (u) => {
    const x = new URL(u);
    x.searchParams.delete('AMP_REDIRECT');
    return x.href;
  };
  const check = (op) => {
    ctx.equal(observedNavs().map(clean), navs, `redirects from this document after ${op}`, 'redirects');
    if (!p.spa) for (const n of page.navigations || []) ctx.ok(n.how === 'replace', 'redirects replace the history entry', 'replace');
    ctx.equal(page.url, doc.url, `address after ${op}`, 'address');
    if (loose) return;
    for (const f of F) {
      const n = seen.filter((x) => x === f).length;
      const e = expectSeen.filter((x) => x === f).length;
      ctx.ok(n >= e && n <= e + (extra[f] || 0), `after ${op}: ${n} impressions of redirect ${f}, expected ${e}${extra[f] ? ' to ' + (e + extra[f]) : ''}`, 'impressions');
    }
  };
  const interact = () => {
    page.windowDispatch('pointerdown');
    for (const f of Object.keys(S().markers)) delete S().markers[f];
  };
  ctx.step('open ' + p.first);
  await load(W + p.first);
  check('load');
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    if (doc.nav) ops.push('follow', 'bounce', 'stray', 'apply');
    else {
      for (const u of site.urls) ops.push('link ' + u, 'open ' + u, 'spa ' + u);
      ops.push('strip', 'click', 'apply');
      if (p.faults) ops.push('fault');
    }
    ops.push('wait 600');
    const op = ctx.pick(ops);
    const [k, a] = op.split(' ');
    const abs = a && k !== 'wait' && new URL(a, W).href;
    if ((k === 'spa' && new URL(abs).hostname !== host()) || (k === 'fault' && (fault || loose))) continue;
    ctx.step(op);
    if (k === 'follow' || k === 'bounce' || k === 'stray') {
      const real = observedNavs();
      const to = k === 'follow' ? (p.redirectConfig && p.redirectConfig.encodeRedirectInUrl ? real[real.length - 1] : doc.nav) : k === 'bounce' ? lastFrom : W + '/z';
      await load(to);
    } else if (k === 'link') {
      interact();
      await load(abs);
    } else if (k === 'open') {
      await load(abs);
    } else if (k === 'fault') {
      fault = true;
      page.failNav = 1;
    } else if (k === 'wait') {
      await page.timers.advance(600);
      tick(600);
    } else if (k === 'click') {
      interact();
    } else if (k === 'apply') {
      void client.applyVariants().catch(() => {});
      evaluate();
    } else {
      const to = k === 'strip' ? lastFrom : abs;
      if (new URL(to).hostname !== host()) continue;
      page.scope.history[k === 'strip' ? 'replaceState' : 'pushState']({}, '', to);
      if (to !== doc.url) {
        doc.url = to;
        doc.inflight = false;
        evaluate();
      }
    }
    finish();
    await A.settle();
    await page.timers.advance(0);
    await A.settle();
    check(op);
    ctx.state([doc, hosts, carried, lastFrom, fault, loose, Object.values(hosts).map((h) => [...h.suppressed])]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of visit histories (loads, links, routing, stripped or bounced redirects, interaction, waiting, failing navigation) on the real tag, against a reference of where the visitor must be sent',
  level_note: 'all histories within the stated depth',
  assumptions: ['markers of a redirect live in the session of the host they were written on', 'a redirect that the browser accepted is not followed by further activity of the leaving page other than re-evaluation'],
  bounds: (t) => ({ depth: t === 'thorough' ? 5 : 4, sites: Object.keys(SITES).length }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, shards = 16) => out.push({ name, params, shards, shardDepth: 2 });
    for (const s of Object.keys(SITES).filter((x) => x !== 'cross2' && x !== 'mixed')) add(s, { site: s, first: SITES[s].urls[0], depth: T ? 4 : 3 });
    for (const s of ['path', 'param', 'chain', 'hash']) add(s + ' spa', { site: s, first: '/z', spa: true, depth: T ? 4 : 3 });
    add('fault', { site: 'path', first: '/z', faults: true, depth: T ? 5 : 4 });
    add('fault spa', { site: 'path', first: '/z', faults: true, spa: true, depth: T ? 4 : 3 });
    add('cross url', { site: 'cross', first: '/a', depth: T ? 4 : 3, redirectConfig: { encodeRedirectInUrl: true } });
    add('cross url unicode', { site: 'cross', first: '/a', depth: 2, unicode: true, redirectConfig: { encodeRedirectInUrl: true } });
    add('cross cookie', { site: 'cross', first: '/a', depth: T ? 4 : 3, redirectConfig: { encodeRedirectInCookie: true } });
    add('mixed', { site: 'mixed', first: '/a', depth: T ? 5 : 4 });
    add('cross cookie two', { site: 'cross2', first: '/a', depth: T ? 5 : 4, redirectConfig: { encodeRedirectInCookie: true } });
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run,
};
