'use strict';
// What the debugger is shown is what happens: the debug state agrees with the page, the variants and the consent at
// every moment, reading it changes nothing, and its subscribers end up with the latest state.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');
const { canon } = require('../lib/explore');

const HOST = 'https://www.example.com/';
const re = (p) => `^https://www\\.example\\.com/${p}$`;
const ev = (name) => [[{ selector: ['context', 'data', 'event'], op: 'is', values: [name] }]];
// id -> [trigger type, trigger value, path on which the conditions hold (undefined: everywhere)]
const GROUPS = {
  mixed: {
    pages: { U: ['url_change', {}], UA: ['url_change', {}, 'a'], M: ['manual', { name: 'm' }], MB: ['manual', { name: 'm' }, 'b'], E: ['analytics_event', ev('e'), 'b'], T: ['time_on_page', { durationMs: 500 }] },
    ops: ['nav a', 'nav b', 'on m', 'off m', 'event e', 'tick 300', 'tick 500'],
  },
  elements: {
    pages: { X: ['element_appeared', { selector: '#x' }], XB: ['element_appeared', { selector: '#x' }, 'b'], P: ['scrolled_to', { mode: 'percent', percentage: 30 }], PB: ['scrolled_to', { mode: 'percent', percentage: 50 }, 'b'] },
    ops: ['nav a', 'nav b', 'add', 'scroll 40', 'scroll 60', 'tick 250'],
  },
  // addresses which change nothing else
  plain: {
    pages: { U: ['url_change', {}], M: ['manual', { name: 'm' }] },
    ops: ['nav a', 'nav b', 'nav c', 'on m'],
  },
  interaction: {
    pages: { K: ['user_interaction', { selector: '#x', interactionType: 'click' }], KD: ['user_interaction', { selector: '#x', interactionType: 'click', minThresholdMs: 500 }, 'a'], Q: ['exit_intent', {}], QB: ['exit_intent', { minTimeOnPageMs: 500 }, 'b'] },
    ops: ['nav a', 'nav b', 'click', 'leave', 'tick 500'],
  },
};

async function pagesRun(ctx, p, bundle) {
  const G = GROUPS[p.group];
  const page = new A.TagPage({ device: new Device(), url: HOST + 'a' });
  const doc = page.scope.document;
  const x = page.make('div', { id: 'x' });
  if (p.group === 'interaction') doc.body.appendChild(x);
  if (p.debug === 'global') page.scope.__AMP_DEBUG = true;
  if (p.debug === 'stored') page.localRaw.set('amp-ve-debug', 'true');
  if (p.debug === 'other') page.localRaw.set('amp-ve-debug', 'yes');
  const on = p.debug === 'global' || p.debug === 'stored';
  const pages = {};
  const ids = Object.keys(G.pages);
  for (const [id, [type, value, path]] of Object.entries(G.pages)) pages['f' + id] = { [id]: A.pageObj(id, type, value, path && A.urlCond(re(path))) };
  pages.all = Object.fromEntries(ids.map((id) => [id, pages['f' + id][id]]));
  const flags = [...Object.keys(pages), 'noPages'].map((f) => A.localFlag(f, { on: [A.mutateAction(A.mutation(f))] }));
  const rec = new A.Recorder();
  page.scope.experimentIntegration = rec;
  page.onRequest = (r) => r.respond(200, []);
  const m = bundle.load(page.scope);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
  await A.settle();
  const client = page.scope.webExperiment;
  page.frame();
  await page.timers.advance(5);
  await A.settle();
  let path = 'a';
  let now = 5;
  let quiet = 0; // time since the last change a debugger can see
  // subscribers
  const got = { s1: [], s2: [] };
  let off2 = null;
  let changedAt = -Infinity;
  const told = (who) => (s) => {
    got[who].push(view(s));
    ctx.ok(page.clock.now - changedAt >= 85, `told only once nothing changed for 100 ms (${page.clock.now - changedAt})`, 'too early');
    ctx.equal(canon(s.flags), canon(client.getDebugState().flags), 'the state told is that of the moment', 'state told');
  };
  const off1 = client.addDebugStateSubscriber(told('s1'));
  ctx.ok(typeof off1 === 'function', 'subscribing works', 'subscribe');
  const view = (s) => ({ url: s.currentUrl, active: Object.keys(s.flags).filter((f) => s.flags[f].isActive).sort() });
  const shape = (ap) => Object.keys(ap).filter((f) => Object.keys(ap[f]).length).sort();
  const world = () => canon([[...page.localRaw], [...page.sessionRaw], page.requests.length, rec.keys(), A.liveMutations(page), client.getActivePages(), client.getVariants()]);
  const check = (op) => {
    const before = world();
    const s = client.getDebugState();
    client.getDebugState();
    ctx.ok(world() === before, `reading the debug state after ${op} changes nothing`, 'read only');
    const ap = client.getActivePages();
    ctx.equal(s.currentUrl, HOST + path, `the address shown after ${op}`, 'address');
    ctx.equal(view(s).active, shape(ap), `the flags shown as active after ${op}`, 'active flags');
    ctx.equal(Object.keys(s.flags).sort(), flags.map((f) => f.key).sort(), `the flags shown after ${op}`, 'flags');
    for (const f of flags) {
      const d = s.flags[f.key];
      ctx.equal(d.variant && d.variant.key, client.getVariants()[f.key].key, `the variant shown for ${f.key}`, 'variant');
      const want = Object.values(pages[f.key] || {});
      ctx.equal(d.pageObjects.map((o) => o.id), want.map((o) => o.id), `the page objects shown for ${f.key}`, 'page objects');
      for (const o of d.pageObjects) {
        const [type, value, where] = G.pages[o.id];
        const holds = where === undefined || where === path;
        const active = !!(ap[f.key] && ap[f.key][o.id]);
        ctx.equal(o.urlConditionsPassed, holds, `conditions of ${o.id} on /${path} after ${op}`, 'conditions');
        ctx.equal(o.overallStatus, active ? 'pass' : 'fail', `status of ${o.id} (${type}) on /${path} after ${op}`, 'status ' + type);
        ctx.equal(o.trigger.type, type, 'trigger type', 'type');
        ctx.equal(o.triggerPassed, o.trigger.passed, 'trigger passed', 'passed');
        if (holds) ctx.equal(o.triggerPassed, active, `trigger of ${o.id} (${type}) on /${path} after ${op}`, 'trigger ' + type);
        if (o.trigger.config && type !== 'analytics_event') for (const k of Object.keys(value)) ctx.equal(o.trigger.config[k], value[k], `configured ${k}`, 'config');
      }
    }
  };
  check('start');
  let active = shape(client.getActivePages());
  let full = canon(client.getActivePages());
  const seen = { s1: 0, s2: 0 };
  let changes = 0;
  let owed = { s1: false, s2: false };
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick([...G.ops, ...(p.subs ? ['tick 60', 'tick 100', 'sub', 'unsub'] : [])]);
    const [k, a] = op.split(' ');
    let ms = 0;
    if (k === 'nav') {
      if (a === path) continue;
      ctx.step(op);
      page.scope.history.pushState({}, '', '/' + a);
      path = a;
      changes++;
      quiet = 0;
      changedAt = page.clock.now;
      owed = { s1: true, s2: !!off2 };
    } else if (k === 'on' || k === 'off') {
      ctx.step(op);
      client.toggleManualPageObject(a, k === 'on');
    } else if (k === 'event') {
      ctx.step(op);
      await client.plugin().execute({ event_type: a, event_properties: {} });
    } else if (k === 'add') {
      if (x.isConnected) continue;
      ctx.step(op);
      doc.body.appendChild(x);
    } else if (k === 'scroll') {
      if (page.scope.scrollY === Number(a)) continue;
      ctx.step(op);
      page.scope.scrollY = Number(a);
      page.windowDispatch('scroll');
    } else if (k === 'click') {
      ctx.step(op);
      page.docDispatch('click', { target: x });
    } else if (k === 'leave') {
      ctx.step(op);
      page.docDispatch('mouseleave', { clientY: 5, relatedTarget: null });
    } else if (k === 'sub') {
      if (off2) continue;
      ctx.step(op);
      off2 = client.addDebugStateSubscriber(told('s2'));
    } else if (k === 'unsub') {
      if (!off2) continue;
      ctx.step(op);
      off2();
      off2 = null;
      owed.s2 = false;
      seen.s2 = got.s2.length;
    } else if (k === 'tick') {
      ctx.step(op);
      ms = Number(a);
    }
    // time passes in small steps, so that the moment of a change is known
    const n0 = { s1: got.s1.length, s2: got.s2.length };
    const step = async (t) => {
      if (t) await page.timers.advance(t);
      now += t;
      quiet += t;
      await A.settle();
      page.frame();
      await A.settle();
      const f = canon(client.getActivePages());
      if (f !== full) {
        full = f;
        active = shape(client.getActivePages());
        changes++;
        quiet = 0;
        changedAt = page.clock.now;
        owed = { s1: true, s2: !!off2 };
      }
      for (const s of ['s1', 's2']) {
        if (!on) ctx.equal(got[s], [], 'subscribers of a page without debugger', 'not debugged');
        else if (owed[s] && quiet > 101) {
          ctx.ok(got[s].length > n0[s] || got[s].length > seen[s], `${s} is told within 100 ms of the last change (${op})`, 'told');
          ctx.equal(got[s][got[s].length - 1], { url: HOST + path, active }, `${s} was last told (${op})`, 'last told');
          owed[s] = false;
          seen[s] = got[s].length;
        }
      }
    };
    await step(0);
    for (let t = 0; t < ms; ) {
      const dt = Math.min(ms - t, 10);
      t += dt;
      await step(dt);
    }
    // scrolling and observers are throttled by the tag
    if (k === 'scroll') for (let t = 0; t < 20; t += 10) await step(10);
    if (k === 'add') for (let t = 0; t < 210; t += 10) await step(10);
    check(op);
    if (!off2) ctx.equal(got.s2.length, seen.s2, 'an unsubscribed debugger', 'unsubscribed');
    ctx.ok(got.s1.length <= changes, `no more notifications (${got.s1.length}) than changes (${changes})`, 'too many');
    ctx.state([path, full]);
  }
}

// every small flag: what is shown of its variant, its dependencies and the reason it is off
const kinds = {
  on: (res) => [{ variant: 'on', metadata: { segmentName: 's' } }],
  off: () => [{ variant: 'off', metadata: { segmentName: 'none' } }],
  none: () => [],
  needs: (dep) => [{ conditions: [[{ selector: ['result', dep, 'key'], op: 'is', values: ['on'] }]], variant: 'on' }, { variant: 'off' }],
  needsOnly: (dep) => [{ conditions: [[{ selector: ['result', dep, 'key'], op: 'is', values: ['on'] }]], variant: 'on' }],
  offFirst: (dep) => [{ variant: 'off' }, { conditions: [[{ selector: ['result', dep, 'key'], op: 'is', values: ['on'] }]], variant: 'on' }],
  either: (dep) => [{ conditions: [[{ selector: ['result', dep, 'key'], op: 'is', values: ['on'] }], [{ selector: ['context', 'user', 'country'], op: 'is', values: ['X'] }]], variant: 'on' }, { variant: 'off' }],
  fallback: (dep) => [{ conditions: [[{ selector: ['result', dep, 'key'], op: 'is', values: ['on'] }]], variant: 'on' }, { variant: 'on' }],
  audience: () => [{ conditions: [[{ selector: ['context', 'user', 'country'], op: 'is', values: ['X'] }]], variant: 'on' }, { variant: 'off' }],
  audienceOnly: () => [{ conditions: [[{ selector: ['context', 'user', 'country'], op: 'is', values: ['X'] }]], variant: 'on' }],
};
// what a kind comes to, given the variant (or none) of what it depends on: [variant or null, dependency to blame?, audience matched]
const outcome = {
  on: () => ['on', false, true],
  off: () => ['off', false, true],
  none: () => [null, false, false],
  needs: (d) => (d === 'on' ? ['on', false, true] : ['off', true, true]),
  needsOnly: (d) => (d === 'on' ? ['on', false, true] : [null, true, false]),
  offFirst: () => ['off', false, true],
  either: (d) => (d === 'on' ? ['on', false, true] : ['off', true, true]),
  fallback: () => ['on', false, true],
  audience: () => ['off', false, true],
  audienceOnly: () => [null, false, false],
};
const DEPS = { prerequisite: 'base', holdout: 'holdout-base', mutex: 'mutex-base' };

async function flagsRun(ctx, p, bundle) {
  let n = 0;
  for (const [depType, dep] of Object.entries(DEPS))
    for (const depKind of ['on', 'off', 'none', 'absent'])
      for (const kind of Object.keys(kinds))
        for (const listed of [true, false])
          for (const order of [0, 1]) {
            const page = new A.TagPage({ device: new Device(), url: HOST });
            page.scope.experimentIntegration = new A.Recorder();
            page.onRequest = (r) => r.respond(200, []);
            const base = depKind === 'absent' ? null : A.localFlag(dep, { on: undefined }, { segments: kinds[depKind](dep) });
            const usesDep = ['needs', 'needsOnly', 'offFirst', 'either', 'fallback'].includes(kind);
            if (usesDep && !listed) continue;
            const flag = A.localFlag('child', { on: undefined }, { segments: kinds[kind](dep), metadata: { note: 'n' }, ...(listed ? { dependencies: [dep] } : {}) });
            const flags = [base, flag].filter(Boolean);
            if (order) flags.reverse();
            const m = bundle.load(page.scope);
            m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: '{}' }, { fetchOnStart: false });
            await A.settle();
            const client = page.scope.webExperiment;
            const s = client.getDebugState().flags.child;
            const depRes = base && depKind === 'on' ? 'on' : base && depKind === 'off' ? 'off' : null;
            const [v, blamed, matched] = outcome[kind](depRes);
            n++;
            if (!s && v === null) continue; // a flag which never comes to a variant is not known to the tag
            const label = `${kind} on ${dep} (${depKind}${listed ? '' : ', not listed'})`;
            const got = !s ? 'nothing' : { variant: s.variant && s.variant.key, deps: s.dependencies, matched: s.audienceEvaluation && s.audienceEvaluation.matched, reason: s.inactiveReason, note: s.flagMetadata && s.flagMetadata.note };
            const why = v === 'on' ? undefined : blamed ? { prerequisite: `Prerequisite "${dep}" = ${depRes || 'off'}`, holdout: `Held out by "${dep}"`, mutex: `Mutually excluded by "${dep}"` }[depType] : !matched ? 'Audience not matched' : 'No variant assigned';
            const want = { variant: v, deps: listed ? [{ flagKey: dep, type: depType, resolvedVariant: depRes, blocking: v !== 'on' && blamed }] : undefined, matched, reason: why, note: 'n' };
            if (canon(got) !== canon(want)) ctx.report(`${label}: shown ${canon(got)}, expected ${canon(want)}`, `flag ${kind}`);
          }
  ctx.evaluatedMany(n, n);
  ctx.count('flags shown', n);
}

// consent: what is shown is the state of the gate and of the impressions it holds
async function consentRun(ctx, p, bundle) {
  const page = new A.TagPage({ device: new Device(), url: HOST });
  const rec = new A.Recorder(() => accept);
  let accept = true;
  page.scope.experimentIntegration = rec;
  page.onRequest = (r) => r.respond(200, []);
  const m = bundle.load(page.scope);
  const opt = { none: undefined, pending: { consentRequired: true }, granted: { consentRequired: true, consentStatus: 'granted' }, denied: { consentRequired: true, consentStatus: 'denied' } }[p.init];
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(['a', 'b'].map((f) => A.localFlag(f, { on: undefined }))), pageObjects: JSON.stringify({ a: { A: A.pageObj('A', 'url_change', {}, A.urlCond(re('(a)?'))) }, b: { B: A.pageObj('B', 'url_change', {}, A.urlCond(re('b'))) } }) }, { useDefaultNavigationHandler: true, fetchOnStart: false, ...(opt ? { consentOptions: opt } : {}) });
  await A.settle();
  let status = p.init === 'none' ? 'pending' : p.init;
  const required = p.init !== 'none';
  let started = !required || status === 'granted';
  let at = '';
  for (let d = 0; d <= p.depth; d++) {
    if (d) {
      const op = ctx.pick(['granted', 'denied', 'pending', 'nav a', 'nav b', 'tick']);
      ctx.step(op);
      if (op.startsWith('nav ')) {
        at = op.slice(4);
        page.scope.history.pushState({}, '', '/' + at);
      } else if (op === 'tick') await page.timers.advance(1000);
      else {
        m.tag.setConsentStatus(op);
        if (op !== 'pending') status = op;
        if (op === 'granted') started = true;
      }
      await A.settle();
    }
    const client = page.scope.webExperiment;
    if (typeof client.getDebugState !== 'function') {
      ctx.ok(!started, 'a started client tells its debug state', 'no debug state');
      continue;
    }
    const c = client.getDebugState().consent;
    ctx.equal({ ...c, impressionBuffers: undefined, status: required ? c.status : 0 }, { status: required ? status : 0, required, started, startDeferred: !started, impressionBuffers: undefined }, 'the consent shown', 'consent');
    ctx.equal(c.impressionBuffers.map((b) => b.buffered), required ? [0] : [], 'the impressions shown as held', 'held');
    ctx.state([status, started, at]);
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of navigation, trigger, consent and subscription sequences on the real tag over a simulated page, comparing the debug state with the page after every step, plus the full product of small flags with a dependency',
  level_note: 'all sequences within the stated depth',
  assumptions: ['the page stays visible and starts unscrolled'],
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  scenarios(tier) {
    const th = tier === 'thorough';
    const out = [];
    for (const [g, depth] of [['mixed', 4], ['elements', 4], ['interaction', 5]]) out.push({ name: g, params: { kind: 'pages', group: g, debug: 'global', depth: depth + (th ? 1 : 0) }, shards: 4, shardDepth: 1 });
    out.push({ name: 'subscribers', params: { kind: 'pages', group: 'mixed', debug: 'stored', subs: true, depth: th ? 5 : 4 }, shards: 8, shardDepth: 2 });
    out.push({ name: 'subscribers-plain', params: { kind: 'pages', group: 'plain', debug: 'global', subs: true, depth: th ? 6 : 5 }, shards: 8, shardDepth: 2 });
    for (const debug of ['none', 'other']) out.push({ name: 'debugger-' + debug, params: { kind: 'pages', group: 'mixed', debug, subs: true, depth: th ? 4 : 3 }, shards: 4, shardDepth: 1 });
    out.push({ name: 'flags', params: { kind: 'flags' } });
    for (const init of ['none', 'pending', 'granted', 'denied']) out.push({ name: 'consent-' + init, params: { kind: 'consent', init, depth: th ? 5 : 4 }, shards: 2, shardDepth: 1 });
    return out;
  },
  bounds: (tier) => ({ depth: tier === 'thorough' ? '5-6' : '4-5', groups: Object.keys(GROUPS).length, flagKinds: Object.keys(kinds).length, dependencies: Object.keys(DEPS).length }),
  run: (ctx, p, bundle) => ({ pages: pagesRun, flags: flagsRun, consent: consentRun }[p.kind](ctx, p, bundle)),
};
