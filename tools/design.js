'use strict';
// Writes DESIGN.md from DESIGN.tmpl.md, properties.jsonl, MANIFEST.json, known_findings.json and seeded/.
const fs = require('fs');
const path = require('path');
const R = path.join(__dirname, '..');
const read = (f) => fs.readFileSync(path.join(R, f), 'utf8');
const manifest = JSON.parse(read('MANIFEST.json'));
const props = read('properties.jsonl').trim().split('\n').map((l) => JSON.parse(l));
const known = JSON.parse(read('known_findings.json'));
const N = require('./design-notes.js');

const table = props
  .map((p) => {
    const c = manifest.checks.find((x) => x.property === p.id);
    const n = N.props[p.id];
    if (!c || !n) throw new Error('no notes for ' + p.id);
    return `**${p.id} ${p.title}** (\`checks/${p.id}.js\`, about ${n.time} s)\n` + `- enumerated: ${p.quantifier.text}.\n` + `- how: ${c.technique}; ${c.level_note}.\n` + `- oracle: ${n.oracle}\n` + `- reaches beyond the tests: ${n.reach}\n`;
  })
  .join('\n');
const fixed = known.fixed
  .map((f) => {
    const m = /^fixed: property=(\S+) (\S+) (.*)$/s.exec(f);
    return `* **${m[1]}** \`${m[2]}\` ${m[3]}`;
  })
  .join('\n');
const seeded = fs
  .readdirSync(path.join(R, 'seeded'))
  .sort()
  .map((d) => {
    const m = JSON.parse(read(`seeded/${d}/meta.json`));
    return `| ${d} | ${m.property} | ${m.what_it_breaks} | ${m.needs} | ${N.caught[d] || m.property} |`;
  });
const out = read('tools/DESIGN.tmpl.md')
  .replace('@@TABLE@@', () => table)
  .replace('@@FIXED@@', () => fixed)
  .replace('@@ASIS@@', () => N.asis.map((x) => '* ' + x).join('\n'))
  .replace('@@FALSE@@', () => N.falseAlarms.map((x) => '* ' + x).join('\n'))
  .replace('@@SEEDINTRO@@', () => N.seedIntro)
  .replace('@@SEEDED@@', () => ['| bug | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|', ...seeded].join('\n'));
fs.writeFileSync(path.join(R, 'DESIGN.md'), out);
