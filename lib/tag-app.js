'use strict';
// Building blocks for whole-client checks of the web-experimentation tag.
const { TagPage, drain } = require('./tagenv');

const KEY = 'clientabcdefghijklmn'; // EXP_clientabcd, caches under ...-ijklmn
const SLICE = 'EXP_clientabcd';

const localFlag = (key, variants, opts = {}) => ({
  key,
  variants: {
    off: { key: 'off', metadata: { default: true } },
    ...Object.fromEntries(Object.entries(variants).map(([k, payload]) => [k, { key: k, value: k, ...(payload !== undefined ? { payload } : {}) }])),
  },
  segments: opts.segments || [{ variant: opts.variant || Object.keys(variants)[0] }],
  metadata: { evaluationMode: opts.mode || 'local', deliveryMethod: 'web', flagType: 'experiment', ...(opts.metadata || {}) },
  ...(opts.dependencies ? { dependencies: opts.dependencies } : {}),
});
const mutation = (value, scope, selector = 'h1') => ({ selector, attribute: 'html', action: 'set', value, ...(scope ? { metadata: { scope } } : {}) });
const mutateAction = (...muts) => ({ action: 'mutate', data: { mutations: muts } });
const injectAction = (id, extra = {}) => ({ action: 'inject', data: { id, js: `/*${id}*/`, ...extra } });
const redirectAction = (url, scope) => ({ action: 'redirect', data: { url, ...(scope ? { metadata: { scope } } : {}) } });
const urlCond = (...globs) => [[{ selector: ['context', 'page', 'url'], op: 'regex match', values: globs }]];
const pageObj = (id, trigger_type = 'url_change', trigger_value = {}, conditions) => ({ id, name: id, ...(conditions ? { conditions } : {}), trigger_type, trigger_value });

class Recorder {
  constructor(accept = () => true) {
    this.events = [];
    this.type = 'integration';
    this.accept = accept;
    this.track = (e) => {
      if (!this.accept(e)) return false;
      this.events.push(e);
      return true;
    };
  }
  async setup() {}
  getUser() {
    return this.user || {};
  }
  keys() {
    return this.events.map((e) => `${e.eventProperties.flag_key}:${e.eventProperties.variant}`);
  }
}

// let everything that can happen without the clock moving happen
const settle = async () => {
  for (let i = 0; i < 3; i++) await drain();
};
const liveMutations = (page) => ((page.scope.__domMutator || { live: [] }).live || []).map((r) => r.mutation.value).sort();

module.exports = { KEY, SLICE, TagPage, drain, settle, localFlag, mutation, mutateAction, injectAction, redirectAction, urlCond, pageObj, Recorder, liveMutations };
