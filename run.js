#!/usr/bin/env node
'use strict';
// node run.js <property> [quick|thorough]   run one check (a third argument selects scenarios by name, for development)
// node run.js --replay <file>               re-run a recorded violation
const X = require('./lib/explore');
const a = process.argv.slice(2);
(async () => {
  if (a[0] === '--worker') return X.workerMain(a[1]);
  if (a[0] === '--replay') process.exit(await X.replay(a[1]));
  const tier = a[1] || process.env.VERIF_TIER || 'quick';
  process.exit(await X.master(a[0], { tier, seed: Number(process.env.VERIF_SEED || 1), only: a[2] && new RegExp(a[2]) }));
})().catch((e) => {
  console.error(e);
  process.exit(2);
});
