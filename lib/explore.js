'use strict';
// Exhaustive choice-tree exploration on real code, sharded over worker processes, plus reporting.
const { fork } = require('child_process');
const fs = require('fs');
const os = require('os');
const path = require('path');
const crypto = require('crypto');

const VERIF = path.resolve(__dirname, '..');

const HANG_MS = 100000;

class Violation extends Error {
  constructor(msg, sig) {
    super(msg);
    this.sig = sig;
    this.isViolation = true;
  }
}
const PRUNE = Symbol('prune');

function hash53(s) {
  // two 32-bit FNV-like mixes combined into a 53-bit number
  let h1 = 0xdeadbeef;
  let h2 = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) {
    const ch = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ ch, 2654435761);
    h2 = Math.imul(h2 ^ ch, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

// stable stringify for canonical states
function canon(v) {
  if (v === undefined) return 'u';
  if (v === null) return 'null';
  if (typeof v === 'number' && !Number.isFinite(v)) return String(v);
  if (typeof v !== 'object') return typeof v === 'function' ? 'fn' : JSON.stringify(v);
  if (Array.isArray(v)) return '[' + v.map(canon).join(',') + ']';
  if (v instanceof Map) return 'M' + canon([...v.entries()]);
  if (v instanceof Set) return 'S' + canon([...v.values()].sort());
  return (
    '{' +
    Object.keys(v)
      .sort()
      .filter((k) => v[k] !== undefined)
      .map((k) => JSON.stringify(k) + ':' + canon(v[k]))
      .join(',') +
    '}'
  );
}

const harnessError = (m) => Object.assign(new Error(m), { harness: true });
let lastBeat = 0;
function beat() {
  const t = Date.now();
  if (t - lastBeat > 1000 && process.send) {
    lastBeat = t;
    process.send({ type: 'beat' });
  }
}

class Ctx {
  constructor(check, scenario, stats, forced, opts) {
    this.check = check;
    this.scenario = scenario;
    this.stats = stats;
    this.forced = forced || [];
    this.path = [];
    this.trace = [];
    this.opts = opts || {};
    this.pos = 0;
  }
  choose(n, label) {
    if (n <= 0) throw harnessError('choose(0)');
    let c;
    if (this.pos < this.forced.length) {
      c = this.forced[this.pos].c;
      if (this.forced[this.pos].n !== n && !this.opts.replay) throw harnessError(`nondeterministic harness: ${n} options, expected ${this.forced[this.pos].n} (${label || ''})`);
      if (c >= n) throw harnessError('replay diverged: option ' + c + ' of ' + n);
    } else c = 0;
    this.path.push({ c, n });
    this.pos++;
    const sh = this.opts.shard;
    if (sh && this.pos === sh.depth && !this.opts.replay) {
      let idx = 0;
      for (let i = 0; i < sh.depth; i++) idx = idx * this.path[i].n + this.path[i].c;
      if (idx % sh.of !== sh.i) throw PRUNE;
    }
    return c;
  }
  pick(list, label) {
    const i = this.choose(list.length, label);
    return list[i];
  }
  step(label) {
    this.trace.push(label);
    this.stats.transitions++;
  }
  // Record an abstract state. Returns true when new. With prune, abandons the path if an equal state was
  // already fully explored with at least as much remaining depth.
  state(s, remaining) {
    const h = hash53(typeof s === 'string' ? s : canon(s));
    const fresh = !this.stats.seen.has(h);
    if (this.stats.seen.size < 3000000) this.stats.seen.add(h);
    if (remaining !== undefined && this.pos >= this.forced.length && !this.opts.replay) {
      const m = this.stats.expanded;
      const prev = m.get(h);
      if (prev !== undefined && prev >= remaining) {
        this.stats.pruned++;
        throw PRUNE;
      }
      m.set(h, remaining);
    }
    return fresh;
  }
  // count an evaluated case (exploration-level checks)
  evaluated(key) {
    this.stats.evaluations++;
    if ((this.stats.evaluations & 1023) === 0) beat();
    if (key !== undefined && this.stats.nontrivial.size < 3000000) this.stats.nontrivial.add(hash53(typeof key === 'string' ? key : canon(key)));
  }
  // count many at once: n evaluations, k of them are distinct by construction and non-trivial
  evaluatedMany(n, k) {
    beat();
    this.stats.evaluations += n;
    this.stats.distinctExtra += k;
  }
  sample(s) {
    if (this.stats.samples.length < 3) this.stats.samples.push(s);
  }
  count(name, n = 1) {
    this.stats.counters[name] = (this.stats.counters[name] || 0) + n;
  }
  fail(msg, sig) {
    throw new Violation(msg, sig || msg);
  }
  // report and go on (for table-style checks)
  report(msg, sig) {
    if (this.opts.onViolation) this.opts.onViolation(new Violation(msg, sig || msg), this);
    else throw new Violation(msg, sig || msg);
  }
  equal(actual, expected, what, sig) {
    const a = canon(actual);
    const e = canon(expected);
    if (a !== e) this.fail(`${what}: observed ${a.slice(0, 1500)}, expected ${e.slice(0, 1500)}`, sig || what);
  }
  ok(cond, msg, sig) {
    if (!cond) this.fail(msg, sig);
  }
}

const newStats = () => ({ transitions: 0, executions: 0, seen: new Set(), expanded: new Map(), pruned: 0, evaluations: 0, nontrivial: new Set(), distinctExtra: 0, samples: [], counters: {} });

// One execution of the check under the forced choices.
async function execute(check, prepared, scenario, stats, forced, opts) {
  const ctx = new Ctx(check, scenario, stats, forced, opts);
  beat();
  let violation = null;
  let pruned = false;
  try {
    await check.run(ctx, scenario.params, prepared);
  } catch (e) {
    if (e === PRUNE) pruned = true;
    else if (e && e.isViolation) violation = e;
    else if (e && e.harness) throw Object.assign(e, { trace: ctx.trace });
    else {
      // nothing in run() throws on the unchanged tree, so an exception is the code under test misbehaving
      const m = String((e && e.stack) || e).split('\n').slice(0, 4).join(' | ');
      violation = new Violation('unexpected exception: ' + m, 'exception: ' + String((e && e.message) || e).slice(0, 120));
    }
  }
  return { ctx, violation, pruned };
}

async function exploreUnit(check, prepared, unit, stats, known, maxViolations) {
  const violations = [];
  const knownHit = new Set();
  const { scenario, shard } = unit;
  let forced = [];
  const record = (v, ctx) => {
    const isKnown = known.find((k) => k.sig === v.sig);
    if (isKnown) {
      knownHit.add(isKnown.sig);
      return;
    }
    if (violations.length < maxViolations)
      violations.push({ scenario: scenario.name, choices: ctx.path.map((p) => p.c), trace: ctx.trace.slice(), message: v.message, sig: v.sig });
  };
  for (;;) {
    const { ctx, violation, pruned } = await execute(check, prepared, scenario, stats, forced, {
      shard,
      onViolation: (v, c) => record(v, c),
    });
    if (!pruned) {
      stats.executions++;
      if (stats.samples.length < 2 && ctx.trace.length) stats.samples.push({ scenario: scenario.name, trace: ctx.trace.slice(0, 40) });
    }
    if (violation) {
      record(violation, ctx);
      if (violations.length >= maxViolations) break;
    }
    const p = ctx.path;
    while (p.length && p[p.length - 1].c === p[p.length - 1].n - 1) p.pop();
    if (!p.length) break;
    p[p.length - 1] = { c: p[p.length - 1].c + 1, n: p[p.length - 1].n };
    forced = p;
  }
  return { violations, knownHit: [...knownHit] };
}

function loadKnown(id) {
  const f = path.join(VERIF, 'known_findings.json');
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter((x) => x.property === id);
}

async function workerMain(id) {
  process.on('unhandledRejection', () => {});
  const check = require(path.join(VERIF, 'checks', id + '.js'));
  const prepared = await check.prepare(process.env.VERIF_TIER || 'quick');
  const known = loadKnown(id);
  const stats = newStats();
  process.on('message', async (m) => {
    if (m.type === 'unit') {
      try {
        stats.expanded = new Map();
        const r = await exploreUnit(check, prepared, m.unit, stats, known, m.maxViolations);
        process.send({ type: 'done', ...r });
      } catch (e) {
        process.send({ type: 'error', error: String((e && e.stack) || e), scenario: m.unit.scenario.name, trace: e && e.trace });
      }
    } else if (m.type === 'finish') {
      process.send({
        type: 'stats',
        stats: { ...stats, seen: [...stats.seen], nontrivial: [...stats.nontrivial], expanded: undefined },
      });
    } else if (m.type === 'bye') {
      // only now: the master has the statistics (an exit can overtake a message still in the channel)
      process.disconnect();
      process.exit(0);
    }
  });
  process.send({ type: 'ready' });
}

async function master(id, { tier, seed, only }) {
  const t0 = Date.now();
  const check = require(path.join(VERIF, 'checks', id + '.js'));
  const scenarios = check.scenarios(tier).filter((s) => !only || only.test(s.name));
  const units = [];
  for (const s of scenarios) {
    const of = s.shards || 1;
    for (let i = 0; i < of; i++) units.push({ scenario: s, shard: of > 1 ? { i, of, depth: s.shardDepth || 2 } : null });
  }
  const nw = Math.max(1, Math.min(os.cpus().length, units.length, check.maxWorkers || 8));
  const total = newStats();
  const violations = [];
  const knownHit = new Set();
  const MAXV = 5;
  let next = 0;
  let failed = null;
  await new Promise((resolve) => {
    let alive = nw;
    let finishing = false;
    for (let w = 0; w < nw; w++) {
      const p = fork(path.join(VERIF, 'run.js'), ['--worker', id], {
        env: { ...process.env, VERIF_TIER: tier, VERIF_SEED: String(seed) },
        serialization: 'advanced',
        execArgv: ['--max-old-space-size=3000'],
      });
      let unit = null;
      let last = Date.now();
      const watchdog = setInterval(() => {
        if (unit && Date.now() - last > HANG_MS) {
          violations.push({ scenario: unit.scenario.name, choices: [], trace: [], message: `one execution did not finish within ${HANG_MS / 1000} s`, sig: 'hang' });
          finishing = true;
          clean = true;
          p.kill('SIGKILL');
        }
      }, 1000);
      const feed = () => {
        unit = !finishing && next < units.length ? units[next] : null;
        if (!finishing && next < units.length) p.send({ type: 'unit', unit: units[next++], maxViolations: MAXV });
        else p.send({ type: 'finish' });
      };
      let clean = false;
      p.on('message', (m) => {
        last = Date.now();
        if (m.type === 'ready') feed();
        else if (m.type === 'done') {
          violations.push(...m.violations);
          m.knownHit.forEach((k) => knownHit.add(k));
          if (violations.length >= MAXV) finishing = true;
          feed();
        } else if (m.type === 'error') {
          failed = failed || m;
          finishing = true;
          feed();
        } else if (m.type === 'stats') {
          clean = true;
          p.send({ type: 'bye' }, () => {});
          const s = m.stats;
          total.transitions += s.transitions;
          total.executions += s.executions;
          total.pruned += s.pruned;
          total.evaluations += s.evaluations;
          total.distinctExtra += s.distinctExtra;
          for (const h of s.seen) total.seen.add(h);
          for (const h of s.nontrivial) total.nontrivial.add(h);
          for (const x of s.samples) if (total.samples.length < 4) total.samples.push(x);
          for (const k of Object.keys(s.counters)) total.counters[k] = (total.counters[k] || 0) + s.counters[k];
        }
      });
      p.on('exit', (code, sig) => {
        clearInterval(watchdog);
        if (!clean) failed = failed || { error: `worker ended early (code ${code}, signal ${sig})` };
        if (--alive === 0) resolve();
      });
    }
  });

  const wall = (Date.now() - t0) / 1000;
  const level = check.level || 'model_checking';
  const coverage =
    level === 'model_checking'
      ? { states: total.seen.size, transitions: total.transitions, traces_validated_against_impl: total.executions }
      : { evaluations: total.evaluations, distinct_nontrivial: total.nontrivial.size + total.distinctExtra, rule: check.rule };
  Object.assign(coverage, {
    samples: total.samples.length ? total.samples : ['(none)'],
    exhaustive: !failed && violations.length === 0,
    scenarios: scenarios.length,
    pruned_paths: total.pruned,
    bounds: check.bounds ? check.bounds(tier) : undefined,
    ...(level === 'model_checking' ? {} : { executions: total.executions }),
    counters: total.counters,
  });
  const evidence = {
    property: id,
    tier,
    seed,
    level,
    coverage,
    assumptions: check.assumptions || [],
    wall_s: wall,
    violations: violations.length,
  };
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n');

  const known = loadKnown(id);
  for (const k of known) if (knownHit.has(k.sig)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);

  if (violations.length) {
    const dir = path.join(VERIF, 'evidence', 'replays');
    fs.mkdirSync(dir, { recursive: true });
    const v = violations.sort((a, b) => a.choices.length - b.choices.length)[0];
    const f = path.join(dir, `${id}-${crypto.createHash('sha1').update(JSON.stringify([v.scenario, v.choices])).digest('hex').slice(0, 10)}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, tier, ...v }, null, 1));
    console.log(`${id}: ${v.scenario}: ${v.message}`);
    for (const t of v.trace) console.log('   ' + (typeof t === 'string' ? t : JSON.stringify(t)));
    console.log(`VIOLATION property=${id} replay=${f}`);
    return 1;
  }
  if (failed) {
    // An exception out of the code under test that the harness did not expect, or a broken harness.
    console.error(`${id}: check could not complete: ${failed.scenario || ''}\n${failed.error}\n${JSON.stringify(failed.trace || [])}`);
    return 2;
  }
  console.log(
    `${id} ok (${tier}): ${JSON.stringify({ ...coverage, samples: undefined, bounds: undefined, rule: undefined })} in ${wall.toFixed(1)}s`,
  );
  return 0;
}

async function replay(file) {
  process.on('unhandledRejection', () => {});
  const r = JSON.parse(fs.readFileSync(file, 'utf8'));
  const check = require(path.join(VERIF, 'checks', r.property + '.js'));
  const prepared = await check.prepare(r.tier);
  const scenario = check.scenarios(r.tier).find((s) => s.name === r.scenario);
  if (!scenario) throw new Error('no scenario ' + r.scenario);
  const stats = newStats();
  const { ctx, violation } = await execute(
    check,
    prepared,
    scenario,
    stats,
    r.choices.map((c) => ({ c, n: Infinity })),
    { replay: true },
  );
  for (const t of ctx.trace) console.log('   ' + (typeof t === 'string' ? t : JSON.stringify(t)));
  if (violation) {
    console.log('reproduced: ' + violation.message);
    console.log(`VIOLATION property=${r.property} replay=${file}`);
    return 1;
  }
  console.log('not reproduced on this tree');
  return 0;
}

module.exports = { master, workerMain, replay, canon, hash53, Violation, PRUNE };
