'use strict';
// Variants after any interleaving of overlapping fetches, their responses, and clear().
const { getBundle } = require('../lib/bundle');
const M = require('../lib/fetch-machine');

const ALL = ['full', 'part', 'other', 'empty', '500', '404', 'net', 'bad'];
module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of fetch/response/clear interleavings on the real client against a fold model',
  level_note: 'all interleavings of up to 3 (thorough 4) overlapping fetches within the stated depth, every transition replayed on the real client',
  bounds: (t) => (t === 'thorough' ? { fetches: 4, depth: 8, outcomes: ALL } : { fetches: 3, depth: 6, outcomes: ALL }),
  assumptions: ['responses are delivered one at a time, each processed to quiescence before the next event'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, shards = 16, shardDepth = 3) => out.push({ name, params: { ticks: false, clears: 1, ...params }, shards, shardDepth });
    for (const retry of [false, true])
      for (const throwOnError of [false, true]) {
        const S = { retry, throwOnError };
        add(`overlap:${retry}:${throwOnError}`, { ...S, fetchOps: [null, ['a']], outcomes: ['full', 'part', '500', 'net'], maxFetch: 3, depth: T ? 7 : 6 }, 24, 4);
      }
    add('subset', { retry: false, fetchOps: [null, [], ['a', 'b'], ['c']], outcomes: ['full', 'part', 'other', 'empty', 'bad'], maxFetch: 2, depth: 5 }, 24, 3);
    add('overlap3', { retry: false, fetchOps: [null, ['a', 'b']], outcomes: ALL, maxFetch: T ? 4 : 3, depth: T ? 8 : 6, prune: true, clears: T ? 2 : 1 }, 24, 3);
    add('timeouts', { retry: false, ticks: true, fetchOps: [null, ['a']], outcomes: ['part', 'other', '404'], maxFetch: 3, depth: T ? 7 : 6 }, 24, 4);
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run: M.run,
};
