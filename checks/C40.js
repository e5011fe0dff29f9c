'use strict';
// Logging: what reaches which logger at which level, over all short histories, run in step on one client per configuration.
const { getBundle } = require('../lib/bundle');
const { Page, drain } = require('../lib/env');
const { canon } = require('../lib/explore');

const SEVERITY = { error: 1, warn: 2, info: 3, debug: 4, verbose: 5, log: 9, trace: 9 };
const LEVELS = [undefined, 0, 1, 2, 3, 4, 5];
// the configurations run side by side; the first sees everything
const CONFIGS = [{ custom: true, logLevel: 5 }];
for (const custom of [true, false]) for (const debug of [undefined, false, true]) for (const logLevel of LEVELS) CONFIGS.push({ custom, logLevel, debug });
CONFIGS.push({ custom: true, logLevel: null, debug: null }, { custom: false, nullLogger: true, logLevel: 4 });
const effective = (c) => (c.debug === true ? 4 : c.logLevel === undefined || c.logLevel === null ? 1 : c.logLevel);
const name = (c) => canon(c);

const ANSWERS = {
  ok: (r) => r.respond(200, r.url.includes('/flags') ? [] : { a: { key: 'on', value: 'on' } }),
  500: (r) => r.respond(500, 'no'),
  429: (r) => r.respond(429, 'no'),
  400: (r) => r.respond(400, 'no'),
  network: (r) => r.fail(),
  malformed: (r) => r.respond(200, '<html>'),
  timeout: () => {},
};
const text = (a) => (a && typeof a === 'object' && 'message' in a ? `E:${a.message}` : typeof a === 'object' ? canon(a) : String(a));

async function run(ctx, p, bundle) {
  if (p.kind === 'console') {
    const page = new Page();
    const { sdk } = bundle.load(page.scope);
    const logger = new sdk.ConsoleLogger();
    const to = { error: 'error', warn: 'warn', info: 'info', debug: 'debug', verbose: 'debug' };
    const o = { a: 1 };
    for (const m of Object.keys(to))
      for (const args of [['x'], ['x', o], [o, 'y', 2], [undefined], [new Error('e'), null]]) {
        page.consoleLog.length = 0;
        logger[m](...args);
        ctx.step(`${m} with ${args.length}`);
        ctx.state(canon([m, args.map(text)]));
        ctx.equal(page.consoleLog.map(([l, a]) => [l, a.length, a.every((v, i) => v === args[i])]), [[to[m], args.length, true]], `console output of ${m}`, 'console logger');
      }
    return;
  }
  const world = CONFIGS.map((c) => {
    const page = new Page();
    const { sdk } = bundle.load(page.scope);
    const w = { c, page, log: [], answer: { flags: 'ok', vardata: 'ok' } };
    page.onRequest = (r) => ANSWERS[r.url.includes('/flags') ? w.answer.flags : w.answer.vardata](r);
    const logger = {};
    for (const m of ['error', 'warn', 'info', 'debug', 'verbose']) logger[m] = (...a) => void w.log.push([m, a.map(text)]);
    const config = { ...p.config };
    if (c.logLevel !== undefined) config.logLevel = c.logLevel;
    if (c.debug !== undefined) config.debug = c.debug;
    if (c.custom) config.loggerProvider = logger;
    if (c.nullLogger) config.loggerProvider = null;
    w.client = sdk.Experiment.initialize('client-key-123456', config);
    return w;
  });
  const base = world[0];
  let running = false;
  let served = false; // a full answer has arrived
  const stateOf = (w) => canon([w.result, w.page.requests.map((r) => [r.url, r.at]), w.client.all()]);
  for (let step = 0; step < p.depth; step++) {
    const acts = [];
    for (const a of p.answers) acts.push(['fetch', a]);
    if (!running) for (const f of p.flagAnswers) for (const a of ['ok', '500']) acts.push(['start', a, f]);
    else acts.push(['stop']);
    if (running && p.poll) for (const f of p.flagAnswers) acts.push(['poll', 'ok', f]);
    acts.push(['variant'], ['retry', 'ok'], ['retry', '500']);
    const [op, a, f] = ctx.pick(acts);
    ctx.step(`${op} ${a || ''} ${f || ''}`);
    const seen = [];
    for (const w of world) {
      w.log.length = 0;
      w.page.consoleLog.length = 0;
      w.answer = { vardata: a || 'ok', flags: f || 'ok' };
      w.result = null;
      if (op === 'variant') w.result = [w.client.variant('a'), w.client.variant('none', 'fb')].map((v) => v.value);
      else if (op === 'stop') w.client.stop();
      else if (op === 'retry') await w.page.timers.advance(800);
      else if (op === 'poll') await w.page.timers.advance(60000);
      else {
        const call = op === 'start' ? w.client.start({ user_id: 'u' }) : w.client.fetch({ user_id: 'u' });
        call.then(() => (w.result = 'resolved'), () => (w.result = 'rejected'));
        await drain();
        if (a === 'timeout' || f === 'timeout') await w.page.timers.advance(10000);
      }
      await drain();
      const con = w.page.consoleLog.map(([m, args]) => [m, args.map(text)]);
      if (w.c.custom) ctx.equal(con, [], `messages on the console though there is a logger (${name(w.c)})`, 'console');
      seen.push(w.c.custom ? w.log.slice() : con);
    }
    const all = seen[0];
    world.forEach((w, i) => {
      const want = all.filter(([m]) => SEVERITY[m] <= effective(w.c)).map(([m, t]) => [!w.c.custom && m === 'verbose' ? 'debug' : m, t]);
      ctx.equal(seen[i], want, `messages at ${name(w.c)}`, 'level');
      ctx.equal(stateOf(w), stateOf(base), `behaviour at ${name(w.c)}`, 'behaviour');
    });
    // what is worth an error
    const failing = (op === 'fetch' || op === 'start') && a !== 'ok' && a !== 'timeout';
    const want = failing && !p.config.throwOnError ? 1 : 0;
    if (op !== 'poll' && op !== 'retry') ctx.equal(all.filter(([m]) => SEVERITY[m] <= 2).length, want, `errors and warnings after ${op} ${a || ''}`, 'errors');
    else ctx.equal(all.filter(([m]) => SEVERITY[m] <= 2).length, 0, `errors and warnings from background work`, 'background');
    if (op === 'start') running = true;
    if (op === 'stop') running = false;
    if (a === 'ok' && op !== 'poll') served = true;
    ctx.state(canon([op, a, f, running, served, all.length]));
  }
}

module.exports = {
  level: 'model_checking',
  technique: 'exhaustive exploration of call/answer histories on real clients of every logging configuration in lockstep, each compared with what the most verbose one logs',
  level_note: 'all histories within the stated depth times all logging configurations; every transition runs on the real clients',
  bounds: (t) => ({ depth: t === 'thorough' ? '3-4' : '2-3', configurations: CONFIGS.length, answers: Object.keys(ANSWERS) }),
  assumptions: ['the logger does not throw'],
  scenarios(tier) {
    const T = tier === 'thorough';
    const out = [];
    const add = (n, params) => out.push({ name: n, params: { answers: ['ok', '500', '400', 'network', 'timeout'], flagAnswers: ['ok', '500', 'timeout'], poll: true, ...params }, shards: 16, shardDepth: 1 });
    add('plain', { config: { flagConfigPollingIntervalMillis: 60000 }, depth: T ? 3 : 2 });
    add('fetches', { config: { pollOnStart: false }, answers: Object.keys(ANSWERS), flagAnswers: ['ok'], poll: false, depth: T ? 3 : 2 });
    add('throwing', { config: { pollOnStart: false, throwOnError: true }, poll: false, depth: T ? 3 : 2 });
    out.push({ name: 'console', params: { kind: 'console' } });
    add('no-retry', { config: { pollOnStart: false, retryFetchOnFailure: false }, answers: ['ok', '500'], flagAnswers: ['ok'], poll: false, depth: T ? 4 : 3 });
    return out;
  },
  async prepare() {
    return getBundle({ sdk: 'experiment-browser/src/index.ts' });
  },
  run,
};
