'use strict';
// Independent reference semantics of flag evaluation, written from the documented meaning of the operators.
// Used as the oracle by C01-C04 (and as the evaluator inside other checks' models).

function isObj(x) {
  return x !== null && typeof x === 'object';
}
function lookup(root, selector) {
  if (!selector || !selector.length) return undefined;
  let cur = root;
  for (const s of selector) {
    if (!s || !isObj(cur)) return undefined;
    cur = Object.prototype.hasOwnProperty.call(cur, s) ? cur[s] : undefined;
  }
  return cur === null ? undefined : cur;
}
const asString = (v) => (v === undefined || v === null ? undefined : typeof v === 'object' ? JSON.stringify(v) : `${v}`);

// A property is list-valued when it is an array or a JSON-array string.
function asList(v) {
  let arr;
  if (Array.isArray(v)) arr = v;
  else {
    const s = String(v);
    if (s[0] !== '[') return undefined;
    try {
      arr = JSON.parse(s);
    } catch (e) {
      return undefined;
    }
    if (!Array.isArray(arr)) return undefined;
  }
  return arr.map(asString).filter((s) => s !== undefined && s !== '');
}

const BOOL = (s) => /^(true|false)$/i.test(s);
// "is": exact equality with any filter value; booleans compare case-insensitively when the filter has a boolean.
function is(value, filters) {
  if (BOOL(value) && filters.some(BOOL)) return filters.some((f) => f.toLowerCase() === value.toLowerCase());
  return filters.includes(value);
}
const contains = (value, filters) => filters.some((f) => value.toLowerCase().indexOf(f.toLowerCase()) >= 0);
const cmp = (name) =>
  ({
    less: (a, b) => a < b,
    'less or equal': (a, b) => a <= b,
    greater: (a, b) => a > b,
    'greater or equal': (a, b) => a >= b,
  }[name]);

const isDigits = (s) => s.length > 0 && [...s].every((c) => c >= '0' && c <= '9');
// MAJOR.MINOR[.PATCH[-PRERELEASE]]
function version(s) {
  if (!s) return undefined;
  const parts = s.split('.');
  if (parts.length < 2 || !isDigits(parts[0]) || !isDigits(parts[1])) return undefined;
  const v = [Number(parts[0]), Number(parts[1]), 0, undefined];
  if (parts.length === 2) return v;
  const rest = parts.slice(2).join('.');
  let k = 0;
  while (k < rest.length && rest[k] >= '0' && rest[k] <= '9') k++;
  if (k === 0) return undefined;
  v[2] = Number(rest.slice(0, k));
  const tail = rest.slice(k);
  if (tail === '') return v;
  if (tail[0] !== '-') return undefined;
  const pre = tail.slice(1);
  // dot separated identifiers, an optional single trailing dot; a bare hyphen is the lowest prerelease
  if (pre === '') {
    v[3] = '';
    return v;
  }
  const ids = pre.split('.');
  if (ids[ids.length - 1] === '' && ids.length > 1) ids.pop();
  if (!ids.every((i) => i.length > 0 && /^[-\w]+$/.test(i))) return undefined;
  v[3] = pre;
  return v;
}
function versionCmp(a, b) {
  for (let i = 0; i < 3; i++) if (a[i] !== b[i]) return a[i] < b[i] ? -1 : 1;
  if (a[3] === undefined) return b[3] === undefined ? 0 : 1;
  if (b[3] === undefined) return -1;
  return a[3] === b[3] ? 0 : a[3] < b[3] ? -1 : 1;
}

function matchScalar(value, op, filters) {
  switch (op) {
    case 'is':
      return is(value, filters);
    case 'is not':
      return !is(value, filters);
    case 'contains':
      return contains(value, filters);
    case 'does not contain':
      return !contains(value, filters);
    case 'less':
    case 'less or equal':
    case 'greater':
    case 'greater or equal':
      // numeric; anything that is not a number never compares
      return filters.some((f) => cmp(op)(Number(value), Number(f)));
    case 'version less':
    case 'version less or equal':
    case 'version greater':
    case 'version greater or equal': {
      const c = cmp(op.slice(8));
      const pv = version(value);
      const fv = filters.map(version).filter((x) => x);
      // not versions: plain string comparison
      if (!pv || !fv.length) return filters.some((f) => c(value, f));
      return fv.some((f) => c(versionCmp(pv, f), 0));
    }
    case 'regex match':
      return filters.some((f) => new RegExp(f).test(value));
    case 'regex does not match':
      return !filters.some((f) => new RegExp(f).test(value));
  }
  return false;
}

const POSITIVE_NULL = new Set([
  'is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal',
  'version greater', 'version greater or equal', 'set is', 'set contains', 'set contains any',
]);
const NEGATIVE_NULL = new Set(['is not', 'does not contain', 'set does not contain', 'set does not contain any']);

function setOp(list, op, filters) {
  const eq = () => {
    const a = new Set(list);
    const b = new Set(filters);
    return a.size === b.size && [...a].every((x) => b.has(x));
  };
  const all = () => list.length >= filters.length && filters.every((f) => is(f, list));
  const any = () => filters.some((f) => is(f, list));
  switch (op) {
    case 'set is':
      return eq();
    case 'set is not':
      return !eq();
    case 'set contains':
      return all();
    case 'set does not contain':
      return !all();
    case 'set contains any':
      return any();
    case 'set does not contain any':
      return !any();
  }
  return false;
}

function matchCondition(target, cond) {
  const { op, values, selector } = cond;
  const prop = lookup(target, selector);
  if (prop === undefined) {
    const none = values.includes('(none)');
    if (POSITIVE_NULL.has(op)) return none;
    if (NEGATIVE_NULL.has(op)) return !none;
    return false;
  }
  const list = asList(prop);
  if (op.startsWith('set ')) return list ? setOp(list, op, values) : false;
  if (list) return list.some((s) => matchScalar(s, op, values));
  return matchScalar(asString(prop), op, values);
}
const matchConditions = (target, dnf) => dnf.some((and) => and.every((c) => matchCondition(target, c)));

// ---- bucketing
function utf8(str) {
  const out = [];
  for (const ch of str) {
    const c = ch.codePointAt(0);
    if (c < 0x80) out.push(c);
    else if (c < 0x800) out.push(0xc0 | (c >> 6), 0x80 | (c & 63));
    else if (c < 0x10000) out.push(0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63));
    else out.push(0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63));
  }
  return out;
}
// MurmurHash3_x86_32 from the published algorithm, in exact integer arithmetic.
const M = 0xffffffffn;
const rotl = (x, r) => ((x << r) | (x >> (32n - r))) & M;
function murmur3(str, seed = 0) {
  const d = utf8(str).map((b) => BigInt(b));
  const n = d.length;
  let h = BigInt(seed) & M;
  const mixk = (k) => (rotl((k * 0xcc9e2d51n) & M, 15n) * 0x1b873593n) & M;
  let i = 0;
  for (; i + 4 <= n; i += 4) {
    const k = d[i] | (d[i + 1] << 8n) | (d[i + 2] << 16n) | (d[i + 3] << 24n);
    h ^= mixk(k);
    h = (rotl(h, 13n) * 5n + 0xe6546b64n) & M;
  }
  let k = 0n;
  for (let j = n - 1; j >= i; j--) k = (k << 8n) | d[j];
  if (n > i) h ^= mixk(k);
  h ^= BigInt(n);
  h ^= h >> 16n;
  h = (h * 0x85ebca6bn) & M;
  h ^= h >> 13n;
  h = (h * 0xc2b2ae35n) & M;
  h ^= h >> 16n;
  return Number(h);
}

function bucket(target, seg) {
  if (!seg.bucket) return seg.variant;
  const v = asString(lookup(target, seg.bucket.selector));
  if (!v) return seg.variant;
  const h = murmur3(`${seg.bucket.salt}/${v}`);
  const a = h % 100;
  const dist = (h - a) / 100;
  for (const al of seg.bucket.allocations)
    if (a >= al.range[0] && a < al.range[1])
      for (const di of al.distributions) if (dist >= di.range[0] && dist < di.range[1]) return di.variant;
  return seg.variant;
}

function evaluateFlag(target, flag) {
  for (const seg of flag.segments) {
    if (seg.conditions && !matchConditions(target, seg.conditions)) continue;
    const key = bucket(target, seg);
    if (key === undefined) continue;
    const v = flag.variants[key];
    if (!v) continue;
    return { ...v, metadata: { ...flag.metadata, ...seg.metadata, ...v.metadata } };
  }
  return undefined;
}
function evaluate(context, flags) {
  const result = {};
  const target = { context, result };
  for (const f of flags) {
    const v = evaluateFlag(target, f);
    if (v) result[f.key] = v;
  }
  return result;
}

module.exports = { lookup, asString, asList, matchCondition, matchConditions, matchScalar, version, versionCmp, murmur3, bucket, evaluateFlag, evaluate };
