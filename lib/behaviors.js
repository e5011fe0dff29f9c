'use strict';
// Reference semantics of behavioural conditions over a recorded history.
const KEY = 'clientabcdefghijklmn';
const STORE = 'EXP_clientabcd_rtbt_events';
const MIN = 60000;
const HOUR = 60 * MIN;
const T = 30 * MIN; // inactivity that ends a session
const cond = (event_type, op, value, win, event_props) => ({
  condition: {
    type: 'behavior',
    event_type,
    op,
    value,
    ...(win === 's' ? { time_type: 'current_session', time_value: 0 } : { time_type: 'rolling', time_value: win[0], ...(win[1] ? { interval: win[1] } : {}) }),
    ...(event_props ? { event_props } : {}),
  },
});
const not = (c) => ({ ...c, negated: true });
const prop = (name, op, ...values) => ({ selector: ['context', name], op, values });

// ---- reference: matching
const CMP = {
  'greater or equal': (a, b) => a >= b,
  greater: (a, b) => a > b,
  is: (a, b) => a === b,
  less: (a, b) => a < b,
  'less or equal': (a, b) => a <= b,
  'is not': (a, b) => a !== b,
};
const propHolds = (props, f) => {
  const v = props[f.selector[f.selector.length - 1]];
  if (f.op === 'is') return v !== undefined && f.values.includes(String(v));
  if (f.op === 'is not') return v === undefined || !f.values.includes(String(v));
  throw new Error('op');
};
function holds(rules, world) {
  return rules.some((group) =>
    group.every(({ condition: c, negated }) => {
      const n = world.events.filter(
        (e) =>
          e.type === c.event_type &&
          (c.time_type === 'current_session' ? world.session !== null && e.session === world.session : world.now - e.at <= c.time_value * (c.interval === 'day' ? 24 * HOUR : HOUR)) &&
          (c.event_props || []).every((f) => propHolds(e.props, f)),
      ).length;
      return CMP[c.op](n, c.value) !== !!negated;
    }),
  );
}
const mentions = (rules, type) => rules.some((g) => g.some((c) => c.condition.event_type === type));

module.exports = { KEY, STORE, MIN, HOUR, T, cond, not, prop, CMP, holds, mentions };
