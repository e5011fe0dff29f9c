'use strict';
// Canonical text of the implementation's own state, used (with the model state) to decide whether two
// histories may be merged: object fields reachable from the given roots, stored data, and pending timers.
// Times are relative to the clock and timer handles are replaced by what they stand for.
function snap(page, roots, opts = {}) {
  const now = page.clock.now;
  const skip = new Set([page, page.scope, page.timers, page.clock, page.device, page.tab, page.requests, ...(opts.skip || [])]);
  const seen = new Map();
  const timers = page.timers.list;
  const val = (v) => {
    if (typeof v === 'number') {
      if (timers.has(v)) {
        const t = timers.get(v);
        return `T(${t.at - now},${t.ms},${t.repeat ? 1 : 0})`;
      }
      if (v >= 7000000 && v < 8000000) return 'T(gone)';
      if (Math.abs(v - now) < 1e10) return 'now' + (v - now);
      return String(v);
    }
    if (typeof v === 'string') return JSON.stringify(v);
    if (typeof v === 'function') return 'fn';
    if (typeof v !== 'object' || v === null) return String(v);
    if (skip.has(v)) return 'env';
    if (v instanceof Promise) return 'promise';
    if (typeof v.__snap === 'function') return v.__snap();
    if (typeof v === 'object' && v.nodeType === 9) return 'doc';
    if (seen.has(v)) return '#' + seen.get(v);
    seen.set(v, seen.size);
    if (Array.isArray(v)) return '[' + v.map(val).join(',') + ']';
    if (v instanceof Map) return 'M{' + [...v].map(([k, x]) => val(k) + ':' + val(x)).join(',') + '}';
    if (v instanceof Set) return 'S{' + [...v].map(val).join(',') + '}';
    if (v instanceof RegExp) return String(v);
    let out = '{';
    for (const k of Object.keys(v).sort()) out += k + ':' + val(v[k]) + ',';
    return out + '}';
  };
  const store = (m) => [...m].map(([k, v]) => k + '=' + v).sort().join(';');
  const parts = [roots.map(val).join('|'), store(page.localRaw), store(page.sessionRaw), [...timers.values()].map((t) => `${t.at - now},${t.ms},${t.repeat ? 1 : 0}`).sort().join(';')];
  parts.push(page.device.jar.dump().join(';'));
  return parts.join('\n');
}
module.exports = { snap };

// as snap, but with everything minted at run time (session ids, uuids, absolute times) replaced by its order of
// appearance or its distance from now, so that histories that differ only in such values are seen as equal
function snapRel(page, roots, opts) {
  const names = new Map();
  const name = (k) => (s) => {
    if (!names.has(s)) names.set(s, `${k}${names.size}`);
    return names.get(s);
  };
  const now = page.clock.now;
  return snap(page, roots, opts)
    .replace(/(?<![0-9A-Za-z]|%22[0-9]*)\d{13}-[a-z0-9]{1,12}|(?<=%22)\d{13}-[a-z0-9]{1,12}/g, name('S'))
    .replace(/[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[0-9a-f]{4}-[0-9a-f]{12}/g, name('U'))
    .replace(/(?<=^|%3A|%3a|[^0-9A-Za-z])\d{13}(?![0-9])/g, (t) => `now${Number(t) - now}`);
}
module.exports.snapRel = snapRel;
