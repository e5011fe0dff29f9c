'use strict';
// Bundles TypeScript sources straight from the /repo working tree (in memory) and instantiates
// the bundle any number of times, each time as a fresh set of modules over controlled globals.
const path = require('path');
const fs = require('fs');
const vm = require('vm');

const REPO = process.env.VERIF_REPO || '/repo';
const PK = (p) => path.join(REPO, 'packages', p);
const ESBUILD = '/opt/veriftools/node/node_modules/esbuild';

const ALIASES = {
  '@amplitude/analytics-connector': PK('analytics-connector/src/index.ts'),
  '@amplitude/experiment-core': PK('experiment-core/src/index.ts'),
  '@amplitude/experiment-js-client': PK('experiment-browser/src/index.ts'),
  'dom-mutator': path.join(__dirname, 'stubs', 'dom-mutator.js'),
};

const cache = new Map();

// Adds an export __vars() returning the module-level variables of the repository's own modules, so that state
// matching sees module state too (esbuild hoists every module's top-level declarations into one scope).
function exposeModuleState(code) {
  const names = [];
  let own = false;
  for (const line of code.split('\n')) {
    const c = /^  \/\/ (\S+\.(?:ts|js|mjs|tsx))$/.exec(line);
    if (c) own = /(^|\/)packages\/[^/]+\/src\//.test(c[1]);
    const v = own && /^  var ([A-Za-z_$][\w$]*)( =|;)(.*)$/.exec(line);
    if (v && !/^_?[A-Z0-9_]+$/.test(v[1]) && !/=> |function|class /.test(v[3]) && !v[1].endsWith('_exports')) names.push(v[1]);
  }
  const at = code.lastIndexOf('  return __toCommonJS(verif_entry_exports);');
  if (at < 0) return code;
  return `${code.slice(0, at)}  __export(verif_entry_exports, { __vars: () => () => ({ ${names.join(', ')} }) });\n${code.slice(at)}`;
}

// entries: { exportName: 'packages-relative path' }
function build(entries) {
  const key = JSON.stringify(entries);
  if (cache.has(key)) return cache.get(key);
  const esbuild = require(ESBUILD);
  const contents = Object.entries(entries)
    .map(([n, p]) => `export * as ${n} from ${JSON.stringify(p.startsWith('/') ? p : PK(p))};`)
    .join('\n');
  const promise = esbuild
    .build({
      stdin: { contents, resolveDir: PK('experiment-browser'), loader: 'ts', sourcefile: 'verif-entry.ts' },
      bundle: true,
      write: false,
      format: 'iife',
      globalName: '__bundle',
      platform: 'browser',
      mainFields: ['module', 'main'],
      conditions: ['import'],
      target: 'es2020',
      logLevel: 'silent',
      define: { 'process.env.NODE_ENV': '"production"' },
      plugins: [
        {
          name: 'alias',
          setup(b) {
            b.onResolve({ filter: /^(@amplitude\/(analytics-connector|experiment-core|experiment-js-client)|dom-mutator)$/ }, (a) => ({
              path: ALIASES[a.path],
            }));
            b.onResolve({ filter: /^dom-mutator\/.+/ }, () => ({ path: ALIASES['dom-mutator'] }));
          },
        },
      ],
    })
    .then((r) => exposeModuleState(r.outputFiles[0].text));
  cache.set(key, promise);
  return promise;
}

// Names made available to the bundle as (shadowed) free identifiers. Everything a browser global
// would provide that the code may touch is listed, so nothing real is reachable by those names.
const PARAMS = [
  'globalThis', 'window', 'self', 'global', 'document', 'localStorage', 'sessionStorage', 'location', 'history',
  'navigator', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'requestAnimationFrame',
  'cancelAnimationFrame', 'Date', 'Math', 'fetch', 'XMLHttpRequest', 'console', 'performance', 'crypto',
  'MutationObserver', 'IntersectionObserver', 'HTMLElement', 'Element', 'Node', 'HTMLIFrameElement', 'CSSStyleSheet', 'CustomEvent', 'Event',
  'PopStateEvent', 'MessageEvent', 'addEventListener', 'removeEventListener', 'dispatchEvent', 'postMessage',
  'BroadcastChannel', 'process', 'require', 'module', 'exports', 'opener', 'parent', 'top', 'getComputedStyle', 'btoa', 'atob', 'DOMParser',
];

class Bundle {
  constructor(code) {
    this.fn = vm.compileFunction(code + '\nreturn __bundle;', PARAMS, { filename: 'bundle.js' });
  }
  // scope: object with the fake globals
  load(scope) {
    return this.fn.apply(
      scope,
      PARAMS.map((p) => {
        if (p === 'globalThis' || p === 'window' || p === 'self' || p === 'global') return scope;
        try {
          return scope[p];
        } catch (e) {
          return undefined; // denied by the fake environment
        }
      }),
    );
  }
}

async function getBundle(entries) {
  return new Bundle(await build(entries));
}

module.exports = { build, Bundle, getBundle, REPO, PK };
