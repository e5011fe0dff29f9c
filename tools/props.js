'use strict';
// Single source of properties.jsonl and MANIFEST.json: node tools/props.js
const fs = require('fs');
const path = require('path');
const V = path.resolve(__dirname, '..');
const P = [];
const core = (f) => 'packages/experiment-core/src/' + f;
const br = (f) => 'packages/experiment-browser/src/' + f;
const tag = (f) => 'packages/experiment-tag/src/' + f;
const con = (f) => 'packages/analytics-connector/src/' + f;
const seg = (f) => 'packages/plugin-segment/src/' + f;
// id, title, statement, over, text, why, files, mechanism
const add = (id, title, statement, over, text, why, files, mechanism, observe) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map((m) => ({ name: m[0], where: m[1] })), observe_at: observe || [], hook_needed: null } });
const A = { add, core, br, tag, con, seg };
require('./props-list')(A);
require('./props-tag')(A);

fs.writeFileSync(path.join(V, 'properties.jsonl'), P.map((p) => JSON.stringify(p)).join('\n') + '\n');
const checks = [];
const na = [];
const NA = require('./props-na');
for (const p of P) {
  const f = path.join(V, 'checks', p.id + '.js');
  if (!fs.existsSync(f)) {
    na.push({ property: p.id, reason: NA[p.id] || 'check not built yet' });
    continue;
  }
  const c = require(f);
  checks.push({ property: p.id, quick_cmd: `node run.js ${p.id} quick`, thorough_cmd: `node run.js ${p.id} thorough`, technique: c.technique, level: c.level, level_note: c.level_note });
  for (const k of ['technique', 'level', 'level_note']) if (!c[k]) throw new Error(p.id + ' lacks ' + k);
}
fs.writeFileSync(
  path.join(V, 'MANIFEST.json'),
  JSON.stringify({ version: 1, setup_cmd: 'node tools/setup.js', checks, not_applicable: na, notes: 'Every check bundles the sources of /repo/packages in memory with esbuild at start; no hooks in /repo are used.' }, null, 1) + '\n',
);
console.log(`${P.length} properties, ${checks.length} claimed, ${na.length} not`);
