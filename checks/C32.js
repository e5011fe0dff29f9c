'use strict';
// Who the visitor is: the ids, the time of the first visit and the campaign a page load evaluates with, as a function
// of all earlier page loads on all hosts of the site.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');

const ROOT = { 'www.example.com': 'example.com', 'app.example.com': 'example.com', 'example.com': 'example.com', 'www.example.co.uk': 'example.co.uk', 'one.github.io': 'one.github.io', 'two.github.io': 'two.github.io', localhost: null, 'www.fooco.uk': 'fooco.uk', 'fooco.uk': 'fooco.uk', 'a.b.example.co.uk': 'example.co.uk', 'notexample.com': 'notexample.com', '127.0.0.1': null };
const NEAR = ['www.fooco.uk', 'fooco.uk', 'a.b.example.co.uk', 'notexample.com', '127.0.0.1', 'example.com'];
const DAY = 86400000;
const byUtm = (k, v) => [[{ selector: ['context', 'user', 'persisted_url_param', k], op: 'is', values: [v] }]];
const FLAGS = ['x', 'y', 'amp'].map((v) => A.localFlag('s' + v, { on: [A.mutateAction(A.mutation('source-' + v))] }, { segments: [{ conditions: byUtm('utm_source', v), variant: 'on' }, { variant: 'off' }] }));
const PAGES = Object.fromEntries(FLAGS.map((f) => [f.key, { P: A.pageObj('P') }]));
const cookieValue = (o) => Buffer.from(encodeURIComponent(JSON.stringify(o))).toString('base64');
const UTM = { '': {}, '?utm_source=x': { utm_source: 'x' }, '?utm_source=y&utm_medium=m&gclid=g': { utm_source: 'y', utm_medium: 'm' }, '?utm_term=t&utm_other=o': { utm_term: 't' } };

// what may be on the device before: name -> what it stores there
const BEFORE = {
  nothing: () => ({}),
  device: () => ({ local: { device_id: 'dev' } }),
  both: () => ({ local: { device_id: 'dev', web_exp_id: 'one' } }),
  one: () => ({ local: { web_exp_id: 'one' } }),
  two: () => ({ local: { web_exp_id: 'one', web_exp_id_v2: 'two' }, provider: { first_seen: '1000' } }),
  seen: () => ({ provider: { first_seen: '1000', landing_url: 'l' } }),
  shared: () => ({ cookie: { web_exp_id_v2: 'shared', first_seen: '500' } }),
  both2: () => ({ local: { web_exp_id: 'one', web_exp_id_v2: 'two' }, provider: { first_seen: '1000' }, cookie: { web_exp_id_v2: 'shared', first_seen: '500' } }),
  half: () => ({ local: { web_exp_id: 'one' }, provider: { first_seen: '1000' }, cookie: { web_exp_id_v2: 'shared' } }),
  other: () => ({ local: { web_exp_id: 'one', web_exp_id_v2: 'two' }, cookie: { first_seen: '500' } }),
  empty: () => ({ local: { web_exp_id: 'one' }, cookie: { web_exp_id_v2: '', first_seen: 5 } }),
  broken: () => ({ local: { web_exp_id: 'one' }, rawCookie: '%%%' }),
  brokenJson: () => ({ rawCookie: cookieValue('{') }),
  nullJson: () => ({ rawCookie: cookieValue('null') }),
  analytics: () => ({ mktg: { utm_source: 'amp', utm_content: 'c', gclid: 'g', referrer: 'r' } }),
  brokenUtm: () => ({ rawMktg: '%%%' }),
  utm: () => ({ mktg: { utm_source: 'amp', utm_content: 'c' }, utm: { utm_source: 'kept', utm_campaign: 'k' } }),
};

async function run(ctx, p, bundle) {
  const device = new Device();
  const clock = device.clock;
  const MK = 'AMP_MKTG_' + A.KEY.slice(0, 10);
  const local = {}; // host -> { one, dev, two, seen, utm }
  const shared = {}; // root -> { two, seen, until }
  const mktg = {}; // root -> utm of the analytics SDK
  const minted = new Set(); // every id made up so far
  const known = new Map(); // ids of the reference -> real ones
  let next = 0;
  const hostOf = (h) => (local[h] = local[h] || { utm: {} });
  const before = ctx.pick(p.before);
  const h0 = p.hosts[0];
  const r0 = ROOT[h0];
  ctx.step(`before: ${before}`);
  if (p.blocked) device.onCookieSet = () => false;
  const b = BEFORE[before]();
  const put = (page, key, v) => v && page.localRaw.set(key, JSON.stringify(v));
  {
    const page = new A.TagPage({ device, url: `https://${h0}/` });
    put(page, A.SLICE, b.local);
    put(page, A.SLICE + '_DEFAULT_USER_PROVIDER', b.provider);
    put(page, 'EXP_MKTG_' + A.KEY.slice(0, 10), b.utm);
    const l = hostOf(h0);
    if (b.local) Object.assign(l, { one: b.local.web_exp_id, dev: b.local.device_id, two: b.local.web_exp_id_v2 });
    if (b.provider) l.seen = b.provider.first_seen;
    if (b.utm) l.utm = b.utm;
    const dom = r0 ? `; domain=.${r0}` : '';
    const jar = (k, v) => v !== undefined && !p.blocked && device.jar.set(h0, `${k}=${v}${dom}; max-age=${365 * 86400}`);
    jar(A.SLICE + '_identity', b.rawCookie !== undefined ? b.rawCookie : b.cookie && cookieValue(JSON.stringify(b.cookie)));
    jar(MK, b.rawMktg !== undefined ? b.rawMktg : b.mktg && cookieValue(b.mktg));
    if (b.cookie && !p.blocked) shared[r0] = { two: b.cookie.web_exp_id_v2 || undefined, seen: typeof b.cookie.first_seen === 'string' ? b.cookie.first_seen : undefined, until: clock.now + 365 * DAY };
    if (b.mktg && !p.blocked) mktg[r0] = { utm: b.mktg, until: clock.now + 365 * DAY };
    page.kill();
  }
  const mint = () => ({ n: next++ });
  const real = (v, got, what) => {
    if (!v || typeof v !== 'object') return v;
    if (known.has(v.n)) return known.get(v.n);
    ctx.ok(typeof got === 'string' && /^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(got), `${what} made up: ${got}`, 'new id');
    ctx.ok(!minted.has(got), `${what} is another visitor's`, 'new id');
    minted.add(got);
    known.set(v.n, got);
    return got;
  };
  for (let d = 0; d < p.depth; d++) {
    const ops = [];
    for (const h of p.hosts) for (const q of p.queries) ops.push(['load', h, q]);
    for (const w of p.waits || []) ops.push(['wait', w]);
    if (p.forget) for (const h of p.hosts) if (local[h]) ops.push(['forget', h]);
    if (p.forget) ops.push(['drop', '']);
    const [k, a, q] = ctx.pick(ops);
    ctx.step(`${k} ${a}${q || ''}`);
    if (k === 'wait') clock.now += a * DAY;
    else if (k === 'forget') {
      delete local[a];
      const page = new A.TagPage({ device, url: `https://${a}/` });
      page.localRaw.clear();
      page.kill();
    } else if (k === 'drop') {
      device.jar.list = [];
      for (const r of Object.keys(shared)) delete shared[r];
      for (const r of Object.keys(mktg)) delete mktg[r];
    } else {
      const root = ROOT[a] || a;
      const page = new A.TagPage({ device, url: `https://${a}/${q}` });
      const rec = new A.Recorder();
      page.scope.experimentIntegration = rec;
      const m = bundle.load(page.scope);
      m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES) }, {});
      await A.settle();
      const l = hostOf(a);
      let c = shared[root];
      if (c && c.until <= clock.now) c = undefined;
      l.one = l.one || l.dev || mint();
      delete l.dev;
      const two = (c && c.two) || l.two || l.one;
      const seen = (c && c.seen) || l.seen || String(clock.now / 1000);
      if (!p.blocked && !(c && c.two && c.seen)) shared[root] = { two, seen, until: clock.now + 365 * DAY };
      l.two = two;
      l.seen = seen;
      const am = mktg[root] && mktg[root].until > clock.now ? mktg[root].utm : {};
      const only = (o) => Object.fromEntries(Object.entries(o).filter(([x]) => x.startsWith('utm_')));
      const utm = { ...only(am), ...l.utm, ...UTM[q] };
      l.utm = utm;
      const u = page.scope.webExperiment.getExperimentClient().getUser();
      const where = `after loading ${a}${q} (${before})`;
      ctx.equal(u.web_exp_id, real(l.one, u.web_exp_id, 'id'), `id ${where}`, 'id');
      ctx.equal(u.web_exp_id_v2, real(two, u.web_exp_id_v2, 'shared id'), `shared id ${where}`, 'shared id');
      ctx.equal(u.first_seen, seen, `first seen ${where}`, 'first seen');
      ctx.equal(u.device_id, undefined, `no device id ${where}`, 'device id');
      ctx.equal(u.persisted_url_param, Object.keys(utm).length ? utm : undefined, `campaign ${where}`, 'campaign');
      ctx.equal(A.liveMutations(page), ['x', 'y', 'amp'].includes(utm.utm_source) ? ['source-' + utm.utm_source] : [], `experiments for the campaign ${where}`, 'campaign experiments');
      const kept = JSON.parse(page.localRaw.get(A.SLICE) || '{}');
      ctx.equal([kept.web_exp_id, kept.web_exp_id_v2, kept.device_id], [u.web_exp_id, u.web_exp_id_v2, undefined], `ids kept ${where}`, 'kept');
      const prov = JSON.parse(page.localRaw.get(A.SLICE + '_DEFAULT_USER_PROVIDER') || '{}');
      ctx.equal(prov.first_seen, seen, `first visit kept ${where}`, 'kept');
      // one cookie, on the root domain, and no probes left behind
      const left = device.jar
        .dump()
        .map((x) => x.replace(/=.*@/, '@'))
        .filter((x) => !x.startsWith(MK))
        .sort();
      const want = Object.entries(shared)
        .filter(([, s]) => s.until > clock.now)
        .map(([r]) => `${A.SLICE}_identity@${r}${r === 'localhost' || /^[\d.]+$/.test(r) ? '!' : ''}`)
        .sort();
      ctx.equal(left, want, `cookies ${where}`, 'cookies');
      ctx.ok(!(page.errors || []).length, `page error ${where}`, 'error');
      page.kill();
    }
    ctx.state([local, Object.entries(shared).map(([r, s]) => [r, s.two, s.seen, s.until - clock.now]), Object.entries(mktg).map(([r, s]) => [r, s.until - clock.now]), clock.now]);
  }
}

// A redirect variant takes the visitor to another page: the campaign the visitor came with goes along in a cookie.
const CAMPAIGNS = {
  '': {},
  '?utm_source=x&utm_medium=m&utm_campaign=c&utm_term=t&utm_content=o&utm_id=i': { utm_source: 'x', utm_medium: 'm', utm_campaign: 'c', utm_term: 't', utm_content: 'o', utm_id: 'i' },
  '?utm_source=%C3%A9%26y&gclid=g&other=1': { utm_source: 'é&y', gclid: 'g' },
  '?fbclid=f#utm_source=z': { fbclid: 'f' },
};
async function redirect(ctx, p, bundle) {
  const ORIGINAL = 'AMP_MKTG_ORIGINAL_' + A.KEY.slice(0, 10);
  let n = 0;
  for (const host of Object.keys(ROOT))
    for (const [query, campaign] of Object.entries(CAMPAIGNS))
      for (const referrer of ['', 'https://search.example.org/find?q=1'])
        for (const consent of [undefined, 'granted', 'late'])
          for (const earlier of [false, true])
            for (const blocked of [false, true]) {
              const device = new Device();
              const root = ROOT[host];
              const peers = root ? Object.keys(ROOT).filter((h) => ROOT[h] === root) : [host];
              const decode = (h) => {
                const c = device.jar
                  .get(h)
                  .split('; ')
                  .filter((x) => x.startsWith(ORIGINAL + '='));
                if (c.length > 1) return 'several';
                return c.length ? JSON.parse(decodeURIComponent(Buffer.from(decodeURIComponent(c[0].slice(ORIGINAL.length + 1)), 'base64').toString())) : null;
              };
              if (earlier) device.jar.set(host, `${ORIGINAL}=${cookieValue({ utm_source: 'old' })}${root ? '; domain=.' + root : ''}`);
              if (blocked) device.onCookieSet = () => false;
              const page = new A.TagPage({ device, url: `https://${host}/a${query}`, referrer });
              page.scope.experimentIntegration = new A.Recorder();
              page.onRequest = (r) => r.respond(200, []);
              const atLeave = [];
              const leave = () => atLeave.push(...peers.map(decode));
              const nav = page.navigate;
              page.navigate = function (...a) {
                leave();
                return nav.apply(this, a);
              };
              const m = bundle.load(page.scope);
              const flags = [A.localFlag('r', { on: [A.redirectAction(`https://${host}/b`)] })];
              m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify({ r: { P: A.pageObj('P', 'url_change', {}, A.urlCond('/a')) } }) }, { useDefaultNavigationHandler: true, fetchOnStart: false, ...(consent ? { consentOptions: { consentRequired: true, ...(consent === 'late' ? {} : { consentStatus: consent }) } } : {}) });
              await A.settle();
              if (consent === 'late') {
                ctx.equal([page.navigations || [], decode(host)], [[], earlier ? { utm_source: 'old' } : null], `${host}${query}: nothing is left before consent`, 'before consent');
                m.tag.setConsentStatus('granted');
                await A.settle();
              }
              const want = { ...campaign, ...(referrer ? { referrer, referring_domain: 'search.example.org' } : {}) };
              const label = `${host}/a${query} from "${referrer}" (consent ${consent}, ${earlier ? 'earlier campaign, ' : ''}${blocked ? 'no cookies' : 'cookies'})`;
              ctx.equal((page.navigations || []).length, 1, `${label}: redirects`, 'redirect');
              ctx.equal(
                atLeave,
                peers.map(() => (blocked ? (earlier ? { utm_source: 'old' } : null) : want)),
                `${label}: campaign left for ${peers} when leaving the page`,
                'campaign on redirect'
              );
              n++;
            }
  ctx.evaluatedMany(n, n);
  ctx.count('redirects', n);
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of page-load histories over hosts, addresses, earlier storage and lost storage on the real tag and a simulated cookie jar, against a reference identity',
  level_note: 'all histories within the stated depth',
  assumptions: ['page loads of one visitor do not overlap in time while they start for the very first time'],
  bounds: (t) => ({ depth: t === 'thorough' ? '4-5' : '3-4', hosts: 12, earlier_states: Object.keys(BEFORE).length }),
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, depth) => out.push({ name, params: { before: ['nothing'], queries: [''], depth: depth + (T ? 1 : 0), ...params }, shards: 16, shardDepth: 2 });
    const all = Object.keys(BEFORE);
    add('earlier', { before: all, hosts: ['www.example.com', 'app.example.com'], queries: ['', '?utm_source=x'] }, 2);
    add('earlier blocked', { before: all, hosts: ['www.example.com', 'app.example.com'], blocked: true }, 2);
    add('earlier lost', { before: all, hosts: ['www.example.com', 'app.example.com'], forget: true, waits: [1, 364, 366] }, 3);
    add('campaign', { before: ['nothing', 'analytics', 'utm', 'brokenUtm'], hosts: ['www.example.com', 'app.example.com'], queries: Object.keys(UTM) }, 3);
    add('hosts', { hosts: Object.keys(ROOT).filter((h) => !NEAR.includes(h) || h === 'example.com') }, 3);
    add('more hosts', { hosts: NEAR }, 3);
    add('lost', { hosts: ['www.example.com', 'app.example.com'], forget: true, waits: [364, 366] }, 5);
    add('blocked', { hosts: ['www.example.com', 'app.example.com'], blocked: true, forget: true, queries: ['', '?utm_source=x'] }, 4);
    out.push({ name: 'redirect', params: { kind: 'redirect' } });
    return out;
  },
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  run: (ctx, p, bundle) => (p.kind === 'redirect' ? redirect : run)(ctx, p, bundle),
};
