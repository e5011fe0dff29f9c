// Stand-in for the (not installed) dom-mutator package. The harness observes what is applied through
// globalThis.__domMutator, which records every live mutation.
const scope = globalThis;
const declarative = (m) => {
  const rec = { mutation: m, live: true };
  const log = (scope.__domMutator = scope.__domMutator || { live: [], log: [] });
  log.live.push(rec);
  log.log.push(['apply', m]);
  return {
    revert: () => {
      if (!rec.live) return;
      rec.live = false;
      log.live.splice(log.live.indexOf(rec), 1);
      log.log.push(['revert', m]);
    },
  };
};
const mutate = { declarative };
export default mutate;
export { mutate };
const observing = (on) => {
  const log = (scope.__domMutator = scope.__domMutator || { live: [], log: [] });
  log.paused = !on;
};
export const pauseGlobalObserver = () => observing(false);
export const resumeGlobalObserver = () => observing(true);
export const disconnectGlobalObserver = () => {};
export const connectGlobalObserver = () => {};
