'use strict';
// A Page with the part of the DOM the web-experimentation tag uses: an element tree with simple selectors,
// mutation and intersection observers driven by the harness, constructable style sheets, and a history whose
// pushState/replaceState may be patched by the code.
const { Page, drain } = require('./env');

class El {
  constructor(page, tag, attrs = {}) {
    Object.defineProperty(this, 'page', { value: page, enumerable: false });
    this.tagName = String(tag).toUpperCase();
    this.nodeName = this.tagName;
    this.nodeType = 1;
    this.attributes = {};
    this.childNodes = [];
    Object.defineProperty(this, 'parentNode', { value: null, writable: true, enumerable: false });
    this.style = { setProperty() {} };
    this.css = { display: 'block', visibility: 'visible' };
    this.below = 1000; // px between the bottom of the viewport and the top of the element (negative: in view)
    this.height = 100;
    this.id = attrs.id || '';
    this.className = attrs.cls || '';
    this.textContent = attrs.text || '';
    Object.defineProperty(this, 'listeners', { value: {}, enumerable: false });
  }
  get children() {
    return this.childNodes;
  }
  get ownerDocument() {
    return this.page.scope.document;
  }
  get isConnected() {
    let n = this;
    while (n.parentNode) n = n.parentNode;
    return n === this.page.scope.document.documentElement;
  }
  get firstChild() {
    return this.childNodes[0] || null;
  }
  get firstElementChild() {
    return this.childNodes[0] || null;
  }
  get parentElement() {
    return this.parentNode;
  }
  get innerHTML() {
    return this._html || '';
  }
  set innerHTML(v) {
    this._html = v;
  }
  get classList() {
    const el = this;
    const get = () => el.className.split(' ').filter(Boolean);
    return {
      contains: (c) => get().includes(c),
      add: (...cs) => (el.className = [...new Set([...get(), ...cs])].join(' ')),
      remove: (...cs) => (el.className = get().filter((c) => !cs.includes(c)).join(' ')),
    };
  }
  appendChild(c) {
    return this.insertBefore(c, null);
  }
  append(...cs) {
    cs.forEach((c) => this.appendChild(c));
  }
  insertBefore(c, ref) {
    if (ref && ref.parentNode !== this) throw new Error('NotFoundError: the node before which the new node is to be inserted is not a child of this node');
    if (c.parentNode) Node_removeChild.call(c.parentNode, c);
    const i = ref ? this.childNodes.indexOf(ref) : -1;
    if (i >= 0) this.childNodes.splice(i, 0, c);
    else this.childNodes.push(c);
    c.parentNode = this;
    if (this.page.onInsert) this.page.onInsert(c, this);
    this.page.mutated({ type: 'childList', target: this, addedNodes: [c], removedNodes: [] });
    // a script element with source runs when it is connected
    if (c.tagName === 'SCRIPT' && c.textContent && this.page.runScript) this.page.runScript(c);
    return c;
  }
  remove() {
    if (this.parentNode) Node_removeChild.call(this.parentNode, this);
  }
  setAttribute(k, v) {
    if (k === 'id') this.id = String(v);
    else if (k === 'class') this.className = String(v);
    this.attributes[k] = String(v);
    this.page.mutated({ type: 'attributes', target: this, attributeName: k, addedNodes: [], removedNodes: [] });
  }
  getAttribute(k) {
    if (k === 'id') return this.id || null;
    return k in this.attributes ? this.attributes[k] : null;
  }
  removeAttribute(k) {
    delete this.attributes[k];
  }
  addEventListener(t, f, o) {
    addListener(this.listeners, t, f, o);
  }
  removeEventListener(t, f) {
    this.listeners[t] = (this.listeners[t] || []).filter((x) => x.f !== f);
  }
  dispatch(t, e) {
    const ev = { type: t, target: this, ...(e || {}) };
    if (typeof this['on' + t] === 'function') this['on' + t](ev);
    for (const l of (this.listeners[t] || []).slice()) l.f(ev);
  }
  matches(sel) {
    return sel.split(',').some((s) => matchOne(this, s.trim()));
  }
  closest(sel) {
    let n = this;
    while (n) {
      if (n.matches(sel)) return n;
      n = n.parentNode;
    }
    return null;
  }
  contains(o) {
    let n = o;
    while (n) {
      if (n === this) return true;
      n = n.parentNode;
    }
    return false;
  }
  querySelectorAll(sel) {
    const out = [];
    const walk = (n) => {
      for (const c of n.childNodes) {
        if (c.nodeType !== 1) continue;
        if (c.matches(sel)) out.push(c);
        walk(c);
      }
    };
    walk(this);
    return out;
  }
  querySelector(sel) {
    return this.querySelectorAll(sel)[0] || null;
  }
  attachShadow() {
    const s = new El(this.page, 'shadow-root');
    this.shadowRoot = s;
    s.adoptedStyleSheets = [];
    return s;
  }
  getBoundingClientRect() {
    return { top: 0, left: 0, width: 0, height: 0 };
  }
  focus() {}
  click() {
    this.page.docDispatch('click', { target: this });
  }
  __snap() {
    return `<${this.tagName}#${this.id}.${this.className}${this.css.display}${this.css.visibility}${this.below}[${this.childNodes.map((c) => (c.__snap ? c.__snap() : '#text')).join('')}]>`;
  }
}
function matchOne(el, s) {
  const m = /^([a-zA-Z][\w-]*|\*)?((?:[#.][\w-]+|\[[\w-]+(?:="[^"]*")?\])*)$/.exec(s);
  if (!m || !s) throw new SyntaxError(`'${s}' is not a valid selector`);
  if (m[1] && m[1] !== '*' && m[1].toUpperCase() !== el.tagName) return false;
  for (const p of m[2].match(/[#.][\w-]+|\[[^\]]*\]/g) || []) {
    if (p[0] === '#' && el.id !== p.slice(1)) return false;
    if (p[0] === '.' && !el.className.split(' ').includes(p.slice(1))) return false;
    if (p[0] === '[') {
      const [, k, v] = /^\[([\w-]+)(?:="([^"]*)")?\]$/.exec(p);
      const got = el.getAttribute(k);
      if (got === null || (v !== undefined && got !== v)) return false;
    }
  }
  return true;
}
function Node_removeChild(c) {
  const i = this.childNodes.indexOf(c);
  if (i < 0) throw new Error('NotFoundError: the node to be removed is not a child of this node');
  this.childNodes.splice(i, 1);
  c.parentNode = null;
  this.page.mutated({ type: 'childList', target: this, addedNodes: [], removedNodes: [c] });
  return c;
}
function addListener(map, t, f, o) {
  const signal = o && typeof o === 'object' ? o.signal : undefined;
  if (signal && signal.aborted) return;
  const rec = { f: typeof f === 'function' ? f : f.handleEvent.bind(f) };
  if (o && typeof o === 'object' && o.once) {
    const g = rec.f;
    rec.f = (e) => {
      map[t] = map[t].filter((x) => x !== rec);
      return g(e);
    };
  }
  (map[t] = map[t] || []).push(rec);
  if (signal) signal.addEventListener('abort', () => (map[t] = map[t].filter((x) => x !== rec)));
}

class TagPage extends Page {
  constructor(opts = {}) {
    super(opts);
    this.ios = [];
    this.mos = [];
    this.pendingMutations = 0;
    const page = this;
    const s = this.scope;
    // element constructors: fresh prototypes per page, because the code patches HTMLElement.prototype
    class PNode {}
    PNode.ELEMENT_NODE = 1;
    PNode.DOCUMENT_NODE = 9;
    PNode.TEXT_NODE = 3;
    PNode.prototype.removeChild = Node_removeChild;
    class PElement extends PNode {}
    class PHTMLElement extends PElement {}
    for (const k of Object.getOwnPropertyNames(El.prototype)) if (k !== 'constructor') Object.defineProperty(PElement.prototype, k, Object.getOwnPropertyDescriptor(El.prototype, k));
    this.make = (tag, attrs) => Object.setPrototypeOf(new El(page, tag, attrs), PHTMLElement.prototype);
    s.Node = PNode;
    s.Element = PElement;
    s.HTMLElement = PHTMLElement;
    s.HTMLIFrameElement = class {};
    s.CSSStyleSheet = class CSSStyleSheet {
      replaceSync(css) {
        this.css = css;
      }
    };
    s.CustomEvent = class CustomEvent {
      constructor(type, init) {
        this.type = type;
        Object.assign(this, init);
      }
    };
    s.Event = s.CustomEvent;
    s.PopStateEvent = s.CustomEvent;
    s.DOMParser = class {
      parseFromString(html) {
        const body = page.make('body');
        const m = /^\s*<([a-z]+)(?:\s+id="([^"]*)")?/i.exec(html);
        if (m) Node_append(body, page.make(m[1], { id: m[2] }));
        return { body };
      }
    };
    s.MutationObserver = class {
      constructor(cb) {
        this.cb = cb;
        this.live = false;
      }
      observe(target, o) {
        this.target = target;
        this.opts = o || {};
        this.live = true;
        if (!page.mos.includes(this)) page.mos.push(this);
      }
      disconnect() {
        this.live = false;
        page.mos = page.mos.filter((x) => x !== this);
      }
      takeRecords() {
        return [];
      }
    };
    // Faithful to the specification for targets below the fold: a first notification per observed target, then one
    // whenever the threshold index or isIntersecting changes; observing an observed target again does nothing.
    s.IntersectionObserver = class {
      constructor(cb, o) {
        this.cb = cb;
        this.options = o || {};
        this.thresholds = [].concat(this.options.threshold === undefined ? 0 : this.options.threshold);
        const m = /^-?\d+px -?\d+px (-?\d+)px -?\d+px$/.exec(this.options.rootMargin || '0px 0px 0px 0px');
        this.margin = m ? Number(m[1]) : 0;
        this.targets = new Map();
        page.ios.push(this);
      }
      observe(t) {
        if (!this.targets.has(t)) this.targets.set(t, { idx: -1, inter: false });
      }
      unobserve(t) {
        this.targets.delete(t);
      }
      disconnect() {
        this.targets.clear();
      }
      update() {
        const entries = [];
        for (const [el, rec] of this.targets) {
          const shown = el.isConnected && el.css.display !== 'none';
          const depth = shown ? this.margin - el.below : -1;
          const inter = depth >= 0;
          const ratio = inter ? Math.min(1, depth / el.height) : 0;
          let idx = 0;
          if (inter) {
            idx = this.thresholds.findIndex((x) => x > ratio);
            if (idx < 0) idx = this.thresholds.length;
          }
          if (idx !== rec.idx || inter !== rec.inter) {
            rec.idx = idx;
            rec.inter = inter;
            entries.push({ target: el, intersectionRatio: ratio, isIntersecting: inter });
          }
        }
        if (entries.length) this.cb(entries, this);
      }
      __snap() {
        return 'io' + JSON.stringify(this.options) + [...this.targets].map(([t, r]) => t.__snap() + JSON.stringify(r)).join();
      }
    };
    s.getComputedStyle = (el) => ({ display: el.css.display, visibility: el.css.visibility });
    s.frameElement = null;
    s.innerHeight = 100;
    s.innerWidth = 1000;
    s.scrollY = 0;
    s.opener = opts.opener === undefined ? null : opts.opener;
    s.top = s;
    s.parent = s;
    s.AbortController = AbortController;
    const doc = s.document;
    if (doc) {
      this.docListeners = {};
      doc.addEventListener = (t, f, o) => addListener(page.docListeners, t, f, o);
      doc.removeEventListener = (t, f) => (page.docListeners[t] = (page.docListeners[t] || []).filter((x) => x.f !== f));
      doc.documentElement = this.make('html');
      doc.documentElement.scrollHeight = 200;
      doc.head = this.make('head');
      doc.body = this.make('body');
      Node_append(doc.documentElement, doc.head);
      Node_append(doc.documentElement, doc.body);
      doc.createElement = (t) => {
        const e = page.make(t);
        if (page.onCreate) page.onCreate(e);
        return e;
      };
      doc.createTextNode = (t) => ({ nodeType: 3, textContent: t, childNodes: [] });
      doc.querySelectorAll = (sel) => {
        if (page.throwingSelectors && page.throwingSelectors.has(sel)) throw new SyntaxError(sel);
        return doc.documentElement.querySelectorAll(sel);
      };
      doc.querySelector = (sel) => doc.querySelectorAll(sel)[0] || null;
      doc.getElementById = (id) => {
        const found = [];
        const walk = (n) => {
          if (n.id === id) found.push(n);
          n.childNodes.forEach(walk);
        };
        walk(doc.documentElement);
        return found[0] || null;
      };
      doc.adoptedStyleSheets = [];
      doc.defaultView = s;
      doc.nodeType = 9;
      doc.contains = (n) => doc.documentElement.contains(n);
    }
    const wl = {};
    this.listeners = wl;
    s.addEventListener = (t, f, o) => addListener(wl, t, f, o);
    s.removeEventListener = (t, f) => (wl[t] = (wl[t] || []).filter((x) => x.f !== f));
    s.dispatchEvent = (e) => {
      for (const l of (wl[e.type] || []).slice()) l.f(e);
      return true;
    };
    this.runScript = (el) => {
      // an injected script defines one function; it becomes a recorder on the page
      const m = /^function (\S+?)\(html, utils, id\)\{([\s\S]*)\};$/.exec(el.textContent);
      if (!m) return;
      s[m[1]] = (html, utils, id) => {
        page.injected = page.injected || [];
        page.injected.push({ id, html, utils, body: m[2] });
        if (page.onInject) page.onInject({ id, html, utils, body: m[2] });
      };
    };
  }
  observes({ target, opts }, rec) {
    if (rec.type === 'childList' ? !opts.childList : opts.attributeFilter ? !opts.attributeFilter.includes(rec.attributeName) : !opts.attributes) return false;
    for (let n = rec.target; n; n = n.parentNode) {
      if (n === target) return true;
      if (!opts.subtree) return false;
    }
    return target.nodeType === 9;
  }
  mutated(rec) {
    for (const o of this.mos) {
      if (!o.live || !this.observes(o, rec)) continue;
      if (!o.queue) {
        o.queue = [];
        Promise.resolve().then(() => {
          const q = o.queue;
          o.queue = null;
          if (o.live && !this.dead) o.cb(q, o);
        });
      }
      o.queue.push(rec);
    }
  }
  // the browser renders a frame: intersection observers are told what changed
  frame() {
    for (const o of this.ios.slice()) o.update();
  }
  docDispatch(t, e) {
    const ev = { type: t, preventDefault() {}, ...(e || {}) };
    for (const l of (this.docListeners[t] || []).slice()) l.f(ev);
  }
  windowDispatch(t, e) {
    this.scope.dispatchEvent({ type: t, ...(e || {}) });
  }
  // the browser's back/forward button
  popTo(url) {
    this.url = new URL(url, this.url).href;
    this.windowDispatch('popstate', { state: null });
  }
  antiFlicker() {
    return this.scope.document.adoptedStyleSheets.some((x) => /visibility: hidden/.test(x.css || ''));
  }
}
function Node_append(p, c) {
  p.childNodes.push(c);
  c.parentNode = p;
}

module.exports = { TagPage, drain };
