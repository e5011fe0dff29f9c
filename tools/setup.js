'use strict';
// Nothing to build: the checks bundle /repo's sources in memory. Confirm that this works here.
const { getBundle } = require('../lib/bundle');
const { Page } = require('../lib/env');
(async () => {
  const b = await getBundle({ sdk: 'experiment-browser/src/index.ts' });
  const m = b.load(new Page().scope);
  if (typeof m.sdk.Experiment.initialize !== 'function') throw new Error('bundle has no Experiment.initialize');
  console.log('setup ok');
})().catch((e) => {
  console.error(e);
  process.exit(1);
});
