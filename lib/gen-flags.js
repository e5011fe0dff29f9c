'use strict';
// Bounded generators of flag configurations shared by C02-C05.
const ref = require('./ref-eval');

// ids with known hash position, for boundary-exact allocation tables
function position(salt, id) {
  const h = ref.murmur3(`${salt}/${id}`);
  return { alloc: h % 100, dist: Math.floor(h / 100) };
}

const COND = {
  none: undefined,
  t: [[{ selector: ['context', 'user', 'user_id'], op: 'is not', values: ['(none)'] }]],
  f: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: ['nobody'] }]],
  empty: [],
  emptyAnd: [[]],
  prop: [[{ selector: ['context', 'user', 'user_properties', 'plan'], op: 'is', values: ['pro'] }]],
};
const SALT = 'salt';
function bucketFor(kind, id) {
  const { alloc, dist } = position(SALT, id);
  const mk = (allocations) => ({ selector: ['context', 'user', 'user_id'], salt: SALT, allocations });
  switch (kind) {
    case 'none':
      return undefined;
    case 'hit':
      return mk([{ range: [alloc, alloc + 1], distributions: [{ variant: 'treatment', range: [dist, dist + 1] }] }]);
    case 'missAlloc':
      return mk([{ range: [0, alloc], distributions: [{ variant: 'treatment', range: [0, 42949673] }] }]);
    case 'missDist':
      return mk([{ range: [0, 100], distributions: [{ variant: 'treatment', range: [0, dist] }] }]);
    case 'second':
      return mk([
        { range: [0, alloc], distributions: [{ variant: 'control', range: [0, 42949673] }] },
        { range: [alloc, 100], distributions: [{ variant: 'control', range: [0, dist] }, { variant: 'treatment', range: [dist, 42949673] }] },
      ]);
    case 'noSelector':
      return { selector: ['context', 'user', 'nothing'], salt: SALT, allocations: [{ range: [0, 100], distributions: [{ variant: 'treatment', range: [0, 42949673] }] }] };
  }
}
const VARIANTS = {
  on: { key: 'on', value: 'on', payload: { a: 1 }, metadata: { v: 'on', shared: 'variant' } },
  off: { key: 'off', metadata: { default: true } },
  control: { key: 'control', value: 'control' },
  treatment: { key: 'treatment', value: 'treatment', metadata: { shared: 'variant' } },
};
function segments() {
  const out = [];
  let n = 0;
  for (const c of ['none', 't', 'f', 'empty', 'emptyAnd', 'prop'])
    for (const b of ['none', 'hit', 'missAlloc', 'missDist', 'second', 'noSelector'])
      for (const v of [undefined, 'on', 'off', 'gone'])
        out.push({ c, b, v, n: n++ });
  return out;
}
function makeSegment(s, id, i) {
  const seg = { metadata: { segmentName: 'seg' + i, shared: 'segment' } };
  if (COND[s.c] !== undefined) seg.conditions = COND[s.c];
  const b = bucketFor(s.b, id);
  if (b) seg.bucket = b;
  if (s.v !== undefined) seg.variant = s.v;
  if (s.n % 5 === 0) delete seg.metadata;
  return seg;
}
// all digraphs on n nodes without self loops, as adjacency bitmasks
function* digraphs(n, selfLoops) {
  const edges = [];
  for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) if (i !== j || selfLoops) edges.push([i, j]);
  for (let m = 0; m < 2 ** edges.length; m++) {
    const adj = Array.from({ length: n }, () => []);
    edges.forEach(([i, j], k) => {
      if (m & (1 << k)) adj[i].push(j);
    });
    yield adj;
  }
}
module.exports = { position, COND, bucketFor, VARIANTS, segments, makeSegment, digraphs, SALT };
