'use strict';
// Page targeting: every page object is active exactly while its URL conditions hold and its trigger has fired on
// this URL; live page changes and page-change notifications follow the active pages.
const { getBundle } = require('../lib/bundle');
const A = require('../lib/tag-app');
const { Device } = require('../lib/env');

const at = (p) => A.urlCond(`^https://www\\.example\\.com/${p.replace('?', '\\?')}$`);
const ev = (name, prop) => [[{ selector: ['context', 'data', 'event'], op: 'is', values: [name] }, ...(prop ? [{ selector: ['context', 'data', 'properties', 'p'], op: 'is', values: [prop] }] : [])]];
const ui = (selector, interactionType, minThresholdMs) => ({ selector, interactionType, ...(minThresholdMs === undefined ? {} : { minThresholdMs }) });

// id -> [trigger type, trigger value, path on which the conditions hold (undefined: everywhere)]
const GROUPS = {
  manual: {
    pages: { U: ['url_change', {}], UA: ['url_change', {}, 'a'], M: ['manual', { name: 'm' }], MB: ['manual', { name: 'm' }, 'b'], N: ['manual', { name: 'n' }] },
    flags: { two: ['UA', 'N'] },
    ops: ['nav a', 'nav b', 'replace b', 'back', 'same', 'on m', 'off m', 'on n'],
  },
  address: {
    // the whole address counts: its parameters and its anchor, however it was reached
    pages: { U: ['url_change', {}], UA: ['url_change', {}, 'a'], UH: ['url_change', {}, 'a#h'], UQ: ['url_change', {}, 'a?q'], M: ['manual', { name: 'm' }], MH: ['manual', { name: 'm' }, 'a#h'] },
    ops: ['nav a', 'nav a#h', 'nav a?q', 'replace a#h', 'back', 'on m', 'off m'],
  },
  event: {
    pages: { E: ['analytics_event', ev('e1')], EP: ['analytics_event', ev('e1', 'x')], EB: ['analytics_event', ev('e1'), 'b'], F: ['analytics_event', ev('e2'), 'a'] },
    ops: ['nav a', 'nav b', 'event e1', 'event e1 x', 'event e2', 'back'],
  },
  appeared: {
    pages: { X: ['element_appeared', { selector: '#x' }], XB: ['element_appeared', { selector: '#x' }, 'b'], C: ['element_appeared', { selector: '.c' }] },
    ops: ['nav a', 'nav b', 'add x', 'addhidden x', 'add c', 'show', 'hide', 'remove', 'tick 60', 'tick 250'],
  },
  several: {
    // several matching elements, elements inside added containers, elements that come to match, page objects with
    // a selector that is not one
    pages: {
      BA: ['element_appeared', { selector: '[[' }],
      A: ['element_appeared', { selector: '.v' }],
      BV: ['element_visible', { selector: '[[' }],
      V: ['element_visible', { selector: '.v', visibilityRatio: 0.5 }],
      V2: ['element_visible', { selector: '.v', visibilityRatio: 0.2 }],
      BS: ['scrolled_to', { mode: 'element', selector: '[[' }],
      S: ['scrolled_to', { mode: 'element', selector: '.v' }],
    },
    cls: { x: 'v', y: 'v' },
    ops: ['nav a', 'nav b', 'add x', 'wrap y', 'plain x', 'class x v', 'hide x', 'view 60 x', 'view -300 x', 'view 60 y', 'view 30 y', 'remove', 'tick 250'],
  },
  pointers: {
    // several elements with the same class, one in the other, and a selector that is not one
    pages: {
      BC: ['user_interaction', ui('[[', 'click', 300)],
      C: ['user_interaction', ui('.k', 'click', 300)],
      BH: ['user_interaction', ui('[[', 'hover', 300)],
      H: ['user_interaction', ui('.k', 'hover', 300)],
      HX: ['user_interaction', ui('#y', 'hover', 500)],
    },
    ops: ['nav a', 'nav b', 'click y', 'click z', 'move x', 'move y', 'move z', 'tick 200', 'tick 300'],
  },
  visible: {
    pages: { V: ['element_visible', { selector: '#x' }], VH: ['element_visible', { selector: '#x', visibilityRatio: 0.5 }], VC: ['element_visible', { selector: '.c', visibilityRatio: 1 }, 'b'] },
    ops: ['nav a', 'nav b', 'add x', 'view 20', 'view 60', 'view 100', 'view -50', 'remove', 'tick 250'],
  },
  scrollel: {
    pages: { S: ['scrolled_to', { mode: 'element', selector: '#x' }], SO: ['scrolled_to', { mode: 'element', selector: '#x', offsetPx: 200 }], SB: ['scrolled_to', { mode: 'element', selector: '#x', offsetPx: -40 }, 'b'] },
    ops: ['nav a', 'nav b', 'add x', 'view -150', 'view 20', 'view 60', 'view -300', 'remove', 'tick 250'],
  },
  scrollpct: {
    pages: { P: ['scrolled_to', { mode: 'percent', percentage: 30 }], PB: ['scrolled_to', { mode: 'percent', percentage: 50 }, 'b'], PC: ['scrolled_to', { mode: 'percent', percentage: 100 }] },
    ops: ['nav a', 'nav b', 'scroll 0', 'scroll 40', 'scroll 50', 'scroll 100', 'tick 5', 'tick 20'],
  },
  exit: {
    pages: { Q: ['exit_intent', {}], Q1: ['exit_intent', { minTimeOnPageMs: 1000 }], QB: ['exit_intent', { minTimeOnPageMs: 500 }, 'b'] },
    ops: ['nav a', 'nav b', 'leave top', 'leave bottom', 'leave inside', 'tick 500', 'tick 600'],
  },
  exitlate: {
    pages: { Q1: ['exit_intent', { minTimeOnPageMs: 1000 }], QB: ['exit_intent', { minTimeOnPageMs: 500 }, 'b'] },
    ops: ['nav a', 'nav b', 'leave top', 'leave bottom', 'tick 300', 'tick 600'],
  },
  click: {
    pages: { K: ['user_interaction', ui('#x', 'click')], KO: ['user_interaction', ui('.o', 'click', 0)], KD: ['user_interaction', ui('#x', 'click', 500)], KB: ['user_interaction', ui('.o', 'click', 800), 'b'] },
    ops: ['nav a', 'nav b', 'click x', 'click o', 'click z', 'tick 400', 'tick 500'],
  },
  hover: {
    pages: { H: ['user_interaction', ui('#x', 'hover')], HO: ['user_interaction', ui('.o', 'hover', 500)], HD: ['user_interaction', ui('#x', 'hover', 500)], HB: ['user_interaction', ui('#x', 'hover', 800), 'b'] },
    ops: ['nav a', 'nav b', 'move x', 'move o', 'move z', 'move out', 'tick 300', 'tick 500'],
  },
  focus: {
    pages: { G: ['user_interaction', ui('#x', 'focus', 0)], GO: ['user_interaction', ui('.o', 'focus', 500)], GD: ['user_interaction', ui('#x', 'focus', 500)], GB: ['user_interaction', ui('.o', 'focus', 800), 'b'] },
    ops: ['nav a', 'nav b', 'move x', 'move y', 'move z', 'move out', 'tick 300', 'tick 500'],
  },
  time: {
    pages: { T5: ['time_on_page', { durationMs: 500 }], T9: ['time_on_page', { durationMs: 900 }], TB: ['time_on_page', { durationMs: 700 }, 'b'], T0: ['time_on_page', { durationMs: 0 }] },
    ops: ['nav a', 'nav b', 'hide', 'show', 'tick 300', 'tick 500'],
  },
};

async function run(ctx, p, bundle) {
  const G = GROUPS[p.group];
  const device = new Device();
  const page = new A.TagPage({ device, url: 'https://www.example.com/a' + (p.editor ? '?VISUAL_EDITOR=true' : ''), ...(p.editor ? { opener: { closed: false } } : {}) });
  const doc = page.scope.document;
  const flagOf = {};
  for (const id of Object.keys(G.pages)) flagOf[id] = 'f' + id;
  for (const [f, ids] of Object.entries(G.flags || {})) for (const id of ids) flagOf[id] = f;
  const pages = {};
  for (const [id, [type, value, path]] of Object.entries(G.pages)) (pages[flagOf[id]] = pages[flagOf[id]] || {})[id] = A.pageObj(id, type, value, path && at(path));
  const flags = Object.keys(pages).map((f) => A.localFlag(f, { on: [A.mutateAction(A.mutation(f))] }));
  // the world
  const els = {};
  const addEl = (name, attrs, parent = doc.body) => {
    els[name] = page.make('div', attrs);
    els[name].t0 = -Infinity;
    parent.appendChild(els[name]);
    return els[name];
  };
  if (p.group === 'pointers') {
    addEl('x', { id: 'x', cls: 'k' });
    addEl('y', { id: 'y', cls: 'k' }, doc.body);
    addEl('z', { id: 'z' });
  }
  if (['click', 'hover', 'focus'].includes(p.group)) {
    addEl('o', { cls: 'o' });
    addEl('x', { id: 'x' }, els.o);
    addEl('y', { id: 'y' }, els.o);
    addEl('z', { id: 'z' });
  }
  const has = (t) => Object.values(G.pages).some((x) => x[0] === t);
  if (p.start === 'hidden') doc.hidden = true;
  if (p.start === 'scrolled') page.scope.scrollY = 45;
  if (p.start === 'both') for (const k of ['x', 'y']) addEl(k, { id: k, cls: 'v' }).below = 300;
  if (p.start === 'present') {
    const e = addEl('x', { id: 'x', cls: 'c' });
    e.below = -60;
  }
  let now = 0;
  let path = 'a';
  const hist = ['a'];
  let epoch = 0; // when this URL was reached
  let urls = 0; // number of URL changes
  let st = {}; // 0 not, 1 may, 2 must
  const manual = new Set();
  const started = {}; // interaction -> since when (this epoch or earlier)
  let pointer = null;
  let visibleSince = 0;
  let everHidden = p.start === 'hidden';
  const matches = (id) => G.pages[id][2] === undefined || G.pages[id][2] === path;
  const up = (id, v) => (st[id] = Math.max(st[id], matches(id) ? v : 0));
  const each = (f) => Object.entries(G.pages).forEach(([id, [type, value]]) => f(id, type, value));
  const scrollPct = () => (page.scope.scrollY / 100) * 100;
  const byClass = (sel) => (sel === '[[' ? [] : null) || Object.values(els).filter((e) => e.isConnected && e.matches(sel));
  const closest = (e, sel) => (sel === '[[' ? null : e.closest(sel));
  // what the state of the world alone says (called after each op; `fresh`: right after a URL change or the start)
  const derive = (fresh) => {
    each((id, type, v) => {
      if (type === 'url_change') st[id] = matches(id) ? 2 : 0;
      else if (type === 'manual') st[id] = matches(id) && manual.has(v.name) ? 2 : 0;
      else if (type === 'element_appeared') {
        for (const e of byClass(v.selector)) if (e.css.display !== 'none' && e.css.visibility !== 'hidden') up(id, fresh || now - e.t0 >= 200 ? 2 : 1);
      } else if (type === 'element_visible') {
        const ratio = v.visibilityRatio || 0;
        const seen = byClass(v.selector).filter((e) => e.css.display !== 'none' && -e.below >= 0 && Math.min(1, -e.below / 100) >= ratio);
        st[id] = Math.min(st[id], 1);
        for (const e of seen) up(id, fresh || now - e.t0 >= 200 ? 2 : 1);
      } else if (type === 'scrolled_to' && v.mode === 'element') {
        for (const e of byClass(v.selector)) if (e.css.display !== 'none' && (v.offsetPx || 0) - e.below >= 0) up(id, fresh || now - e.t0 >= 200 ? 2 : 1);
      } else if (type === 'scrolled_to') {
        if (scrollPct() >= v.percentage) up(id, 1);
      } else if (type === 'time_on_page') {
        const since = everHidden ? Math.max(epoch, visibleSince) : epoch;
        if (now - since >= v.durationMs) up(id, doc.hidden || now === since ? 1 : 2);
        if (doc.hidden && p.start === 'hidden' && now - epoch >= v.durationMs) up(id, 1);
      } else if (type === 'user_interaction') {
        const s = started[id];
        if (s === undefined) return;
        const d = v.minThresholdMs || 0;
        if (now - Math.max(s.at, epoch) >= d) up(id, s.url === urls ? 2 : 1);
      }
    });
  };
  const reset = () => {
    each((id) => (st[id] = 0));
  };
  reset();
  // start the client
  const rec = new A.Recorder();
  page.scope.experimentIntegration = rec;
  const m = bundle.load(page.scope);
  page.onRequest = (r) => r.respond(200, []);
  m.tag.initialize(A.KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(p.editor ? {} : pages) }, { useDefaultNavigationHandler: true, fetchOnStart: false });
  await A.settle();
  const client = page.scope.webExperiment;
  if (p.editor) {
    // the editor gives the page objects, more than once
    const other = Object.fromEntries(Object.entries(pages).map(([f, m]) => [f, Object.fromEntries(Object.entries(m).map(([id, o]) => ['old' + id, { ...o, id: 'old' + id }]))]));
    for (const x of p.editor === 'twice' ? [other, pages] : [pages]) {
      client.setPageObjects(JSON.parse(JSON.stringify(x)));
      await A.settle();
    }
  }
  page.frame();
  await A.settle();
  const notes = [];
  const shape = (ap) => Object.fromEntries(Object.entries(ap).map(([f, m]) => [f, Object.keys(m).sort()]));
  let note = shape(client.getActivePages());
  client.addPageChangeSubscriber(({ activePages }) => {
    note = shape(activePages);
    notes.push(note);
  });
  if (p.group === 'scrollpct') each((id, t, v) => scrollPct() >= v.percentage && up(id, 1)); // the initial position counts
  const plug = client.plugin();
  const check = (op) => {
    const ap = client.getActivePages();
    const active = new Set(Object.values(ap).flatMap((x) => Object.keys(x)));
    each((id, type) => {
      const is = active.has(id);
      if (st[id] === 2 && !is) ctx.fail(`page ${id} (${JSON.stringify(G.pages[id])}) is not active on /${path} after ${op}`, `inactive ${type} ${p.group}`);
      if (st[id] === 0 && is) ctx.fail(`page ${id} (${JSON.stringify(G.pages[id])}) is active on /${path} after ${op}`, `active ${type} ${p.group}`);
      if (is && type !== 'element_visible') st[id] = 2;
    });
    for (const [f, x] of Object.entries(ap)) ctx.ok(Object.keys(x).every((id) => flagOf[id] === f), 'page objects stay with their flag', 'flag of page');
    ctx.equal(note, shape(ap), `the last page-change notification after ${op}`, 'notification');
    ctx.equal(A.liveMutations(page), p.editor ? [] : Object.keys(ap).sort(), `live page changes after ${op}`, 'live changes');
  };
  derive(true);
  check('start');
  const navTo = (dest, how) => {
    if (how === 'back') page.popTo('/' + dest);
    else page.scope.history[how]({}, '', '/' + dest);
    if (dest !== path) {
      path = dest;
      epoch = now;
      urls++;
      manual.clear();
      for (const k of Object.keys(started)) if (['click', 'pointers'].includes(p.group) && G.pages[k][1].interactionType === 'click') delete started[k];
      reset();
      return true;
    }
    return false;
  };
  for (let d = 0; d < p.depth; d++) {
    const op = ctx.pick(G.ops);
    const [k, a, b] = op.split(' ');
    let fresh = false;
    const n0 = notes.length;
    const before = shape(client.getActivePages());
    if (k === 'nav') {
      if (a !== path) hist.push(a);
      else continue;
      ctx.step(op);
      fresh = navTo(a, 'pushState');
    } else if (k === 'replace') {
      ctx.step(op);
      hist[hist.length - 1] = a;
      fresh = navTo(a, 'replaceState');
    } else if (k === 'back') {
      if (hist.length < 2) continue;
      ctx.step(op);
      hist.pop();
      fresh = navTo(hist[hist.length - 1], 'back');
    } else if (k === 'same') {
      ctx.step(op);
      navTo(path, 'pushState');
    } else if (k === 'on' || k === 'off') {
      ctx.step(op);
      client.toggleManualPageObject(a, k === 'on');
      if (k === 'on') manual.add(a);
      else manual.delete(a);
    } else if (k === 'event') {
      ctx.step(op);
      await plug.execute({ event_type: a, event_properties: b ? { p: b } : {} });
      each((id, type, v) => {
        const c = v[0];
        if (c[0].values[0] === a && (!c[1] || c[1].values[0] === b)) up(id, 2);
      });
    } else if (k === 'add' || k === 'addhidden') {
      if (els[a] && els[a].isConnected) continue;
      ctx.step(op);
      const e = page.make('div', G.cls ? { id: a, cls: G.cls[a] } : a === 'x' ? { id: 'x', cls: p.group === 'visible' ? 'c' : '' } : { cls: 'c' });
      if (k === 'addhidden') e.css.display = 'none';
      e.t0 = now;
      els[a] = e;
      doc.body.appendChild(e);
    } else if (k === 'wrap' || k === 'plain') {
      if (els[a] && els[a].isConnected) continue;
      ctx.step(op);
      const e = page.make('div', { id: a, cls: k === 'wrap' ? G.cls[a] : '' });
      e.t0 = now;
      els[a] = e;
      const w = k === 'wrap' ? page.make('section', {}) : e;
      if (k === 'wrap') w.appendChild(e);
      doc.body.appendChild(w);
    } else if (k === 'class') {
      if (!els[a] || !els[a].isConnected || els[a].getAttribute('class') === b) continue;
      ctx.step(op);
      els[a].setAttribute('class', b);
      els[a].t0 = now;
    } else if (k === 'show' || k === 'hide') {
      if (has('time_on_page')) {
        if (doc.hidden === (k === 'hide')) continue;
        ctx.step(op);
        if (k === 'hide') {
          everHidden = true;
          // due exactly now
        } else visibleSince = now;
        doc.hidden = k === 'hide';
        page.docDispatch('visibilitychange');
      } else {
        const e = els.x;
        if (!e || !e.isConnected || (e.css.display === 'none') === (k === 'hide')) continue;
        ctx.step(op);
        e.css.display = k === 'hide' ? 'none' : 'block';
        e.t0 = now;
        e.setAttribute('style', e.css.display);
      }
    } else if (k === 'remove') {
      if (!els.x || !els.x.isConnected) continue;
      ctx.step(op);
      els.x.remove();
    } else if (k === 'view') {
      const e = els[b || 'x'];
      if (!e || !e.isConnected || e.below === -Number(a)) continue;
      ctx.step(op);
      e.below = -Number(a);
    } else if (k === 'scroll') {
      if (page.scope.scrollY === Number(a)) continue;
      ctx.step(op);
      page.scope.scrollY = Number(a);
      page.windowDispatch('scroll');
      page.lastScroll = now;
    } else if (k === 'leave') {
      ctx.step(op);
      const top = a === 'top';
      page.docDispatch('mouseleave', { clientY: a === 'bottom' ? 500 : 50, relatedTarget: a === 'inside' ? doc.body : null });
      if (top) each((id, t, v) => now - epoch >= (v.minTimeOnPageMs || 0) && up(id, 2));
    } else if (k === 'click') {
      ctx.step(op);
      page.docDispatch('click', { target: els[a] });
      each((id, t, v) => v.interactionType === 'click' && closest(els[a], v.selector) && started[id] === undefined && (started[id] = { at: now, url: urls }));
    } else if (k === 'move') {
      if (pointer === a || (['z', 'out'].includes(a) && pointer === null)) continue;
      ctx.step(op);
      const to = a === 'z' || a === 'out' ? null : els[a]; // out: leaves the window
      const from = pointer && els[pointer];
      const [out, over] = p.group !== 'focus' ? ['mouseout', 'mouseover'] : ['focusout', 'focusin'];
      if (from) page.docDispatch(out, { target: from, relatedTarget: a === 'out' ? null : to || els.z });
      if (a !== 'out') page.docDispatch(over, { target: to || els.z, relatedTarget: from });
      pointer = to && a;
      each((id, t, v) => {
        if (v.interactionType === 'click') return;
        const inside = to && closest(to, v.selector);
        if (!inside) delete started[id];
        else if (started[id] === undefined || started[id].url < urls || started[id].el !== inside) started[id] = { at: now, url: urls, el: inside }; // entered, or first noticed on this URL
      });
    } else if (k === 'tick') {
      ctx.step(op);
      const ms = Number(a);
      await page.timers.advance(ms);
      now += ms;
    }
    await A.settle();
    if (page.lastScroll !== undefined && now - page.lastScroll >= 16) each((id, t, v) => v.mode === 'percent' && page.lastScroll >= epoch && scrollPct() >= v.percentage && up(id, 2));
    page.frame();
    await A.settle();
    derive(fresh);
    check(op);
    if (!['visible', 'several'].includes(p.group) && notes.length === n0 + 1) ctx.ok(JSON.stringify(before) !== JSON.stringify(note), `${op}: notified although nothing changed`, 'spurious notification');
    ctx.state({ st, path, g: p.group });
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of navigation, DOM, pointer, scroll, visibility and clock sequences on the real tag over a simulated page, against a three-valued reference of each trigger',
  level_note: 'all sequences within the stated depth, per trigger type',
  assumptions: ['observers, timers and events behave as specified for browsers (intersection observers are simulated for vertical movement below the fold)', 'between two user actions the browser paints a frame'],
  async prepare() {
    return getBundle({ tag: 'experiment-tag/src/index.ts' });
  },
  scenarios(tier) {
    const th = tier === 'thorough';
    const out = [];
    for (const g of Object.keys(GROUPS)) {
      const n = GROUPS[g].ops.length;
      const depth = (n >= 8 ? 4 : 5) + (th ? 1 : 0);
      out.push({ name: g, params: { group: g, depth }, shards: 8, shardDepth: 2 });
    }
    for (const [g, start] of [['time', 'hidden'], ['scrollpct', 'scrolled'], ['appeared', 'present'], ['visible', 'present'], ['scrollel', 'present'], ['several', 'both']])
      out.push({ name: `${g}-${start}`, params: { group: g, depth: th ? 6 : 4, start }, shards: 8, shardDepth: 2 });
    // the same while the page is being edited, with page objects given by the editor
    for (const g of Object.keys(GROUPS)) out.push({ name: `${g}-editor`, params: { group: g, depth: th ? 4 : 3, editor: 'once' }, shards: 8, shardDepth: 2 });
    for (const g of Object.keys(GROUPS)) out.push({ name: `${g}-editor-twice`, params: { group: g, depth: th ? 4 : 3, editor: 'twice' }, shards: 8, shardDepth: 2 });
    return out;
  },
  bounds: (tier) => ({ depth: tier === 'thorough' ? 6 : '4-5', groups: Object.keys(GROUPS).length }),
  run,
};
