'use strict';
// Background retries: when, how many, and that a newer fetch ends them.
const { getBundle } = require('../lib/bundle');
const M = require('../lib/fetch-machine');

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of failure sequences and timer orders on the real client in virtual time against a retry model',
  level_note: 'every retry attempt of a fetch and every interleaving of up to 3 fetches within the stated depth',
  bounds: (t) => ({ attempts: 'all 8 retries', fetches: 3, depth: t === 'thorough' ? 9 : 7, longDepth: 20 }),
  assumptions: ['virtual time: timers fire exactly when due'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (name, params, shards = 16, shardDepth = 3) => out.push({ name, params: { retry: true, ...params }, shards, shardDepth });
    // the whole life of one fetch: every outcome at every attempt
    add('one', { fetchOps: [null], outcomes: ['full', '500', '404', '429', '204', 'net', 'bad'], retryOutcomes: ['part', '500', '404', 'net'], maxFetch: 1, depth: 20, prune: true }, 1, 1);
    add('one-throw', { throwOnError: true, fetchOps: [['a']], outcomes: ['full', '500', '404', '429', 'net'], retryOutcomes: ['part', '429'], maxFetch: 1, depth: 20, prune: true }, 1, 1);
    add('one-short-timeout', { timeout: 700, fetchOps: [null], outcomes: ['500', 'part'], retryOutcomes: ['part', 'net'], maxFetch: 1, depth: 20, prune: true }, 1, 1);
    add('one-no-timeout', { timeout: 0, fetchOps: [null], outcomes: ['500', 'part'], retryOutcomes: ['part', 'net'], maxFetch: 1, depth: 10, prune: true }, 1, 1);
    add('off', { retry: false, fetchOps: [null], outcomes: ['full', '500', '404', 'net'], maxFetch: 2, depth: 6 }, 4, 2);
    // overlapping fetches
    add('two', { fetchOps: [null, ['a']], outcomes: ['full', '500', '404'], retryOutcomes: ['part', '500'], maxFetch: 2, depth: T ? 8 : 7 }, 24, 4);
    add('three', { fetchOps: [null], outcomes: ['part', 'net'], retryOutcomes: ['other', '500'], maxFetch: 3, depth: T ? 10 : 8 }, 24, 5);
    add('three-deep', { fetchOps: [null], outcomes: ['part', '500', '404'], retryOutcomes: ['other', 'net'], maxFetch: 3, clears: 1, depth: T ? 14 : 10, prune: true }, 24, 4);
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run: M.run,
};
