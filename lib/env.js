'use strict';
// Controlled browser-like environment. One Device = what survives a page load (localStorage, cookies, clock).
// One Page = one document: fake timers, sessionStorage (per tab), fetch, location, console.

const realSetImmediate = setImmediate;
// Runs every queued microtask (and promise continuation) to quiescence.
const drain = () => new Promise((r) => realSetImmediate(r));

class FakeStorage {
  constructor(hooks) {
    this.m = new Map();
    this.hooks = hooks || {};
  }
  static make(hooks) {
    const s = new FakeStorage(hooks);
    const api = {
      getItem: (k) => {
        k = String(k);
        s.hooks.onGet && s.hooks.onGet(k);
        return s.m.has(k) ? s.m.get(k) : null;
      },
      setItem: (k, v) => {
        k = String(k);
        v = String(v);
        s.hooks.onSet && s.hooks.onSet(k, v);
        s.m.set(k, v);
      },
      removeItem: (k) => {
        k = String(k);
        s.hooks.onRemove && s.hooks.onRemove(k);
        s.m.delete(k);
      },
      clear: () => {
        s.hooks.onRemove && s.hooks.onRemove('*');
        s.m.clear();
      },
      key: (i) => [...s.m.keys()][i] ?? null,
    };
    Object.defineProperty(api, 'length', { get: () => s.m.size });
    // direct property access (Object.keys(localStorage)) behaves as in a browser
    const proxy = new Proxy(api, {
      ownKeys: () => [...s.m.keys()],
      getOwnPropertyDescriptor: (t, p) =>
        typeof p === 'string' && s.m.has(p)
          ? { value: s.m.get(p), writable: true, enumerable: true, configurable: true }
          : Reflect.getOwnPropertyDescriptor(t, p) && { ...Reflect.getOwnPropertyDescriptor(t, p), enumerable: false, configurable: true },
      get: (t, p) => (p in t ? t[p] : typeof p === 'string' && s.m.has(p) ? api.getItem(p) : undefined),
      set: (t, p, v) => {
        if (p in t) return false;
        api.setItem(p, v);
        return true;
      },
      has: (t, p) => p in t || (typeof p === 'string' && s.m.has(p)),
      deleteProperty: (t, p) => {
        api.removeItem(p);
        return true;
      },
    });
    return { raw: s, api: proxy };
  }
}

class Clock {
  constructor(start) {
    this.now = start === undefined ? 1700000000000 : start;
  }
}

class Timers {
  constructor(clock) {
    this.clock = clock;
    this.seq = 7000001; // recognisable as timer handles by lib/snap.js
    this.list = new Map();
    this.dead = false;
  }
  set(fn, ms, args, repeat) {
    if (this.dead) return 0;
    ms = Number(ms);
    if (!(ms >= 0)) ms = 0;
    const id = this.seq++;
    this.list.set(id, { id, at: this.clock.now + ms, ms, fn, args, repeat });
    return id;
  }
  clear(id) {
    this.list.delete(typeof id === 'object' && id ? Number(id) : id);
  }
  pending() {
    return [...this.list.values()].sort((a, b) => a.at - b.at || a.id - b.id);
  }
  next() {
    return this.pending()[0];
  }
  // fire one timer, moving the clock up to its due time
  fire(t) {
    if (t.at > this.clock.now) this.clock.now = t.at;
    if (t.repeat) t.at = this.clock.now + Math.max(t.ms, 1);
    else this.list.delete(t.id);
    if (t.repeat) {
      // keep ordering stable for intervals of the same due time
      this.list.delete(t.id);
      this.list.set(t.id, t);
    }
    if (typeof t.fn === 'function') t.fn(...(t.args || []));
  }
  // advance by ms, firing everything due, in order, draining microtasks in between
  async advance(ms) {
    const end = this.clock.now + ms;
    for (let guard = 0; guard < 100000; guard++) {
      const t = this.next();
      if (!t || t.at > end) break;
      this.fire(t);
      await drain();
    }
    this.clock.now = end;
    await drain();
  }
  advanceSync(ms) {
    const end = this.clock.now + ms;
    for (let guard = 0; guard < 100000; guard++) {
      const t = this.next();
      if (!t || t.at > end) break;
      this.fire(t);
    }
    this.clock.now = end;
  }
}

function makeDate(clock) {
  class FakeDate extends Date {
    constructor(...a) {
      if (a.length === 0) super(clock.now);
      else super(...a);
    }
    static now() {
      return clock.now;
    }
  }
  return FakeDate;
}

function makeMath(rnd) {
  const m = {};
  for (const k of Object.getOwnPropertyNames(Math)) m[k] = Math[k];
  m.random = rnd;
  return m;
}

// Small cookie jar: host-only and Domain cookies, Path ignored except '/', Secure ignored, expiry honoured.
class CookieJar {
  constructor(clock, opts = {}) {
    this.clock = clock;
    this.list = []; // {name,value,domain,hostOnly,expires}
    this.publicSuffixes = new Set(opts.publicSuffixes || ['com', 'co.uk', 'uk', 'org', 'github.io', 'io']);
  }
  visible(host) {
    const now = this.clock.now;
    this.list = this.list.filter((c) => c.expires === null || c.expires > now);
    return this.list.filter((c) => (c.hostOnly ? c.domain === host : host === c.domain || host.endsWith('.' + c.domain)));
  }
  get(host) {
    return this.visible(host)
      .map((c) => (c.name === '' ? c.value : `${c.name}=${c.value}`))
      .join('; ');
  }
  set(host, str) {
    const parts = String(str).split(';');
    const first = parts.shift();
    const eq = first.indexOf('=');
    const name = (eq < 0 ? '' : first.slice(0, eq)).trim();
    const value = (eq < 0 ? first : first.slice(eq + 1)).trim();
    let domain = host;
    let hostOnly = true;
    let expires = null;
    let maxAge = null;
    for (const p of parts) {
      const i = p.indexOf('=');
      const k = (i < 0 ? p : p.slice(0, i)).trim().toLowerCase();
      const v = i < 0 ? '' : p.slice(i + 1).trim();
      if (k === 'domain' && v) {
        const d = v.replace(/^\./, '').toLowerCase();
        if (this.publicSuffixes.has(d) && d !== host) return; // rejected
        if (/^[\d.]+$/.test(host) && d !== host) return; // an address has no parents
        if (!(host === d || host.endsWith('.' + d))) return; // rejected
        domain = d;
        hostOnly = false;
        if (this.publicSuffixes.has(d) || /^[\d.]+$/.test(host)) hostOnly = true;
      } else if (k === 'expires') {
        const t = Date.parse(v);
        if (!Number.isNaN(t)) expires = t;
      } else if (k === 'max-age') {
        const n = Number(v);
        if (!Number.isNaN(n)) maxAge = n;
      }
    }
    if (maxAge !== null) expires = this.clock.now + maxAge * 1000;
    this.list = this.list.filter((c) => !(c.name === name && c.domain === domain && c.hostOnly === hostOnly));
    if (expires !== null && expires <= this.clock.now) return;
    this.list.push({ name, value, domain, hostOnly, expires });
  }
  dump() {
    return this.list
      .filter((c) => c.expires === null || c.expires > this.clock.now)
      .map((c) => `${c.name}=${c.value}@${c.domain}${c.hostOnly ? '!' : ''}`)
      .sort();
  }
}

class Device {
  constructor(opts = {}) {
    this.clock = new Clock(opts.now);
    this.accessLog = null; // set to [] to record every device access
    this.local = {}; // per-origin-ish: keyed by host
    this.jar = new CookieJar(this.clock);
  }
  log(kind, key) {
    if (this.accessLog) this.accessLog.push([kind, key]);
  }
  storageHooks(area) {
    return {
      onGet: (k) => this.log(area + '.get', k),
      onSet: (k, v) => {
        this.log(area + '.set', k);
        if (this.onSet) this.onSet(area, k, v);
      },
      onRemove: (k) => this.log(area + '.remove', k),
    };
  }
  localStorageFor(host) {
    if (!this.local[host]) this.local[host] = FakeStorage.make(this.storageHooks('local'));
    return this.local[host];
  }
}

class Tab {
  constructor(device) {
    this.device = device;
    this.session = {};
  }
  sessionFor(host) {
    if (!this.session[host]) this.session[host] = FakeStorage.make(this.device.storageHooks('session'));
    return this.session[host];
  }
}

class Page {
  constructor(opts = {}) {
    this.device = opts.device || new Device(opts);
    this.tab = opts.tab || new Tab(this.device);
    this.clock = this.device.clock;
    this.timers = new Timers(this.clock);
    this.url = opts.url || 'https://www.example.com/';
    this.host = new URL(this.url).hostname;
    this.requests = [];
    this.consoleLog = [];
    this.randomCount = 0;
    this.noStorage = !!opts.noStorage;
    this.opts = opts;
    this.scope = this.makeScope(opts);
  }
  get localRaw() {
    return this.device.localStorageFor(this.host).raw.m;
  }
  get sessionRaw() {
    return this.tab.sessionFor(this.host).raw.m;
  }
  makeScope(opts) {
    const page = this;
    const T = this.timers;
    const con = {};
    for (const l of ['log', 'info', 'warn', 'error', 'debug', 'trace']) con[l] = (...a) => page.consoleLog.push([l, a]);
    const location = makeLocation(page);
    const listeners = {};
    this.listeners = listeners;
    const scope = {
      console: con,
      setTimeout: (fn, ms, ...args) => T.set(fn, ms, args, false),
      clearTimeout: (id) => T.clear(id),
      setInterval: (fn, ms, ...args) => T.set(fn, ms, args, true),
      clearInterval: (id) => T.clear(id),
      requestAnimationFrame: (fn) => T.set(() => fn(page.clock.now), 16, [], false),
      cancelAnimationFrame: (id) => T.clear(id),
      Date: makeDate(this.clock),
      Math: makeMath(() => {
        // deterministic low-discrepancy sequence, never repeating within a page
        page.randomCount++;
        const salt = (page.device.randomSalt = (page.device.randomSalt || 0) + 1);
        const x = Math.sin(salt * 12.9898 + 78.233) * 43758.5453;
        return x - Math.floor(x);
      }),
      fetch: (url, init) => {
        const req = { url: String(url), init: init || {}, method: (init && init.method) || 'GET', headers: (init && init.headers) || {}, at: page.clock.now, settled: false };
        req.promise = new Promise((resolve, reject) => {
          req.respond = (status, body) => {
            if (req.settled) return;
            req.settled = true;
            const text = typeof body === 'string' ? body : JSON.stringify(body === undefined ? {} : body);
            resolve({
              status,
              ok: status >= 200 && status < 300,
              text: () => Promise.resolve(text),
              json: () => Promise.resolve().then(() => JSON.parse(text)),
              headers: { get: () => null },
            });
          };
          req.fail = (e) => {
            if (req.settled) return;
            req.settled = true;
            reject(e || new TypeError('Failed to fetch'));
          };
        });
        if (page.dead) return req.promise;
        page.requests.push(req);
        page.device.log('net', req.url);
        if (page.onRequest) page.onRequest(req);
        return req.promise;
      },
      location,
      btoa: (s) => globalThis.btoa(s),
      atob: (s) => globalThis.atob(s),
      navigator: { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/100.0.0.0 Safari/537.36', language: 'en-US', languages: ['en-US'], cookieEnabled: true },
      performance: { now: () => page.clock.now },
      crypto: undefined,
      process: undefined,
      addEventListener: (t, f) => {
        (listeners[t] = listeners[t] || []).push(f);
      },
      removeEventListener: (t, f) => {
        listeners[t] = (listeners[t] || []).filter((x) => x !== f);
      },
      dispatchEvent: (e) => {
        for (const f of (listeners[e.type] || []).slice()) (typeof f === 'function' ? f : f.handleEvent.bind(f))(e);
        return true;
      },
      URL,
      URLSearchParams,
      AbortController,
    };
    scope.globalThis = scope;
    scope.window = scope;
    scope.self = scope;
    if (!opts.noStorage) {
      Object.defineProperty(scope, 'localStorage', { configurable: true, enumerable: true, get: () => (page.dead ? inertStorage : page.device.localStorageFor(page.host).api) });
      Object.defineProperty(scope, 'sessionStorage', { configurable: true, enumerable: true, get: () => (page.dead ? inertStorage : page.tab.sessionFor(page.host).api) });
    }
    if (opts.document !== null) scope.document = opts.document || makeDocument(page);
    scope.history = makeHistory(page);
    if (opts.isServer) delete scope.document;
    Object.assign(scope, opts.extra || {});
    return scope;
  }
  // a hard kill: nothing of this page runs any more
  kill() {
    this.timers.dead = true;
    this.timers.list.clear();
    this.dead = true;
  }
  dispatch(type, ev) {
    this.scope.dispatchEvent({ type, ...(ev || {}) });
  }
  openRequests() {
    return this.requests.filter((r) => !r.settled);
  }
}

// what a page that is gone still reaches
const inertStorage = { length: 0, getItem: () => null, setItem() {}, removeItem() {}, clear() {}, key: () => null };

function makeLocation(page) {
  const loc = {};
  const u = () => new URL(page.url);
  for (const k of ['search', 'hostname', 'pathname', 'protocol', 'port', 'host', 'origin', 'hash'])
    Object.defineProperty(loc, k, { enumerable: true, configurable: true, get: () => u()[k] });
  Object.defineProperty(loc, 'href', {
    enumerable: true,
    configurable: true,
    get: () => page.url,
    set: (v) => page.navigate(v, 'href'),
  });
  loc.replace = (v) => page.navigate(v, 'replace');
  loc.assign = (v) => page.navigate(v, 'assign');
  loc.reload = () => page.navigate(page.url, 'reload');
  loc.toString = () => page.url;
  return loc;
}
Page.prototype.navigate = function (v, how) {
  if (this.failNav) {
    this.failNav--;
    throw new Error('navigation failed');
  }
  this.navigations = this.navigations || [];
  const url = new URL(v, this.url).href;
  this.navigations.push({ url, how, at: this.clock.now });
  // only the fragment differs: the document stays, and is told in a later task
  if (this.opts.fragments && url !== this.url && /#/.test(url) && url.split('#')[0] === this.url.split('#')[0]) {
    this.url = url;
    this.timers.set(() => this.dispatch('popstate', { state: null }), 0, [], false);
  }
};

function makeHistory(page) {
  return {
    state: null,
    length: 1,
    pushState(s, t, url) {
      this.state = s;
      if (url !== undefined && url !== null && url !== '') page.url = new URL(String(url), page.url).href;
    },
    replaceState(s, t, url) {
      this.state = s;
      if (url !== undefined && url !== null && url !== '') page.url = new URL(String(url), page.url).href;
    },
  };
}

// Minimal document: cookies (through the device's jar), title/referrer, inert elements.
function makeDocument(page) {
  const doc = {
    nodeType: 9,
    readyState: 'complete',
    hidden: false,
    title: '',
    referrer: page.opts.referrer || '',
    listeners: {},
    addEventListener(t, f) {
      (doc.listeners[t] = doc.listeners[t] || []).push(f);
    },
    removeEventListener(t, f) {
      doc.listeners[t] = (doc.listeners[t] || []).filter((x) => x !== f);
    },
    dispatch(t, e) {
      for (const f of (doc.listeners[t] || []).slice()) f({ type: t, ...(e || {}) });
    },
    querySelector: () => null,
    querySelectorAll: () => [],
    getElementById: () => null,
    getElementsByTagName: () => [],
    createElement: (tag) => makeElement(tag),
    adoptedStyleSheets: [],
  };
  doc.documentElement = makeElement('html');
  doc.head = makeElement('head');
  doc.body = makeElement('body');
  doc.defaultView = null;
  Object.defineProperty(doc, 'cookie', {
    configurable: true,
    get: () => {
      if (page.dead) return '';
      page.device.log('cookie.get', '');
      return page.device.jar.get(page.host);
    },
    set: (v) => {
      if (page.dead) return;
      page.device.log('cookie.set', String(v).split('=')[0]);
      if (page.device.onCookieSet && page.device.onCookieSet(v) === false) return;
      page.device.jar.set(page.host, v);
    },
  });
  Object.defineProperty(doc, 'location', { configurable: true, get: () => page.scope.location });
  return doc;
}
function makeElement(tag) {
  const el = {
    nodeType: 1,
    tagName: String(tag).toUpperCase(),
    nodeName: String(tag).toUpperCase(),
    style: {},
    children: [],
    listeners: {},
    attributes: {},
    parentNode: null,
    appendChild(c) {
      el.children.push(c);
      c.parentNode = el;
      return c;
    },
    append(...cs) {
      cs.forEach((c) => el.appendChild(c));
    },
    removeChild(c) {
      el.children = el.children.filter((x) => x !== c);
      c.parentNode = null;
      return c;
    },
    remove() {
      if (el.parentNode) el.parentNode.removeChild(el);
    },
    setAttribute(k, v) {
      el.attributes[k] = String(v);
    },
    getAttribute: (k) => (k in el.attributes ? el.attributes[k] : null),
    addEventListener(t, f) {
      (el.listeners[t] = el.listeners[t] || []).push(f);
    },
    removeEventListener(t, f) {
      el.listeners[t] = (el.listeners[t] || []).filter((x) => x !== f);
    },
    dispatch(t, e) {
      if (typeof el['on' + t] === 'function') el['on' + t](e);
      for (const f of (el.listeners[t] || []).slice()) f({ type: t, ...(e || {}) });
    },
    querySelector: () => null,
    querySelectorAll: () => [],
    insertBefore(c) {
      return el.appendChild(c);
    },
    classList: { add() {}, remove() {}, contains: () => false },
    attachShadow: () => makeElement('shadow'),
  };
  return el;
}

module.exports = { drain, FakeStorage, Clock, Timers, CookieJar, Device, Tab, Page, makeDate, makeDocument, makeElement };
