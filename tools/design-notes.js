'use strict';
// Hand-written parts of DESIGN.md.
const P = {};
const p = (id, time, oracle, reach) => (P[id] = { time, oracle, reach });
p('C01', 9, 'a second implementation of every operator written from its definition (`lib/ref-eval.js`).', 'the whole cross product of types and operators; tests sample a few dozen pairs.');
p('C02', 2, 'MurmurHash3 written from the published algorithm over UTF-8 bytes, and allocation arithmetic with the boundaries placed exactly at, below and above the hashed position.', 'off-by-one boundaries and encodings of every width, which random or sampled users meet with negligible probability.');
p('C03', 12, 'reference evaluator: depth-first dependency order, first matching segment, cycles reported, inputs unchanged.', 'all graphs and orders, including cycles and flags or properties named like object members.');
p('C04', 2, 'the plain result of the same evaluation, and the reference trace.', 'tests trace a handful of configurations.');
p('C05', 14, 'reference resolution table: source order, default variants, exposure and its metadata.', 'the full product of nine dimensions; tests visit single rows.');
p('C06', 32, 'a fold over the responses in arrival order.', 'interleavings of overlapping fetches, time-outs and clear(); tests await one fetch at a time.');
p('C07', 17, 'retry automaton (due times, attempts left, superseded) in virtual time.', 'every position at which a retry can be superseded, over all eight attempts.');
p('C08', 28, 'lifecycle automaton: running, pending requests, timers, flags in force.', 'stop() or a failure at each point of start(); leaked timers.');
p('C09', 42, 'model of what must be stored per instance and key; truncated or foreign content counts as nothing stored.', 'every torn write and every failing storage call, at each operation of a two-page life.');
p('C10', 25, 'set of (identity, flag, variant) already reported, with its reset rule.', 'orders of identity change, variant change and page load.');
p('C11', 45, 'ordered queue with refusals and the bound of 512.', 'crash (page load) between any two steps; refusals in the middle of a drain.');
p('C12', 55, 'readiness automaton (set-up, identity, 10 s time-out) and a decoder of the four persisted stores.', 'all orders of arrival; 13 720 contents of the stores.');
p('C13', 3, 'queue with one receiver and the bound.', 're-entrant receivers, receivers set late, several instances.');
p('C14', 9, 'identity by value; listeners notified on real changes.', 'sequences of edits that end where they began, aliasing through every getter.');
p('C15', 47, 'readiness and identity automaton of the plug-in around a stand-in of Segment.', 'Segment arriving before, during and after set-up.');
p('C16', 30, 'merge by precedence per field; values are compared by content after every mutation of what was passed or returned.', 'the full product of conflicts; aliasing histories.');
p('C17', 9, 'map from name, key and suffix to a client.', 'all sequences of factories sharing one global registry.');
p('C18', 11, 'the request each configuration must send, decoded independently.', 'Unicode corners and option histories over page loads.');
p('C19', 10, 'three-state gate (pending, granted, refused) over a recording device.', 'operations while a grant is being flushed, in every completion order.');
p('C20', 9, 'gate of the tag: no request, storage access, page change or event before a grant; exactly one start.', 'consent decisions between any two steps of the start-up.');
p('C21', 24, 'the device before the visits: whatever the tag added is what must be gone.', 'a refusal at each point of visit histories on five kinds of host.');
p('C22', 5, 'reference queue.', 'integrations that refuse, throw, or withdraw consent in the middle of a flush.');
p('C23', 95, 'three-valued reference of each trigger (must, must not, may be active) per address.', 'navigation at each point of a trigger\'s progress.');
p('C24', 73, 'the set of changes that must be live, in page order, computed from variants and active pages.', 'returning to pages, changed variants and API calls in every order.');
p('C25', 145, 'where the visitor must be sent for each address, and what must be reported, from the variants alone.', 'bounced, stripped, chained, failing and cross-host redirects over page loads.');
p('C26', 72, 'recorded history and reference conditions.', 'crashes between storing and counting; 366 conditions after each short history; the 500-event bound.');
p('C27', 45, 'partition of the activity of all tabs and hosts into sessions.', 'boundaries of the time-out to the millisecond, several tabs, corrupted cookies.');
p('C28', 60, 'reference protocol and merged history of two subdomains.', 'an adversarial frame at every step of the conversation.');
p('C29', 11, 'reference behaviours, user and live variants.', 'events around navigation and page loads.');
p('C30', 21, 'reference start-up: what is applied when, how long the page is hidden.', 'all orders of answers, integration set-up, time-outs and navigation.');
p('C31', 12, 'reference preview session per tab.', 'failing or late configuration around navigation, triggers, reload and dismissal.');
p('C32', 60, 'reference identity and campaign over cookies and storages of a registrable domain.', 'seventeen earlier device states, lost cookies or storages, any order of hosts.');
p('C33', 60, 'reference channel: which message from whom loads what.', 'forged messages, script failures and reloads in every order.');
p('C34', 55, 'reference of session, first visit and moment.', 'histories over tabs, addresses, storage faults; all small query strings.');
p('C35', 50, 'reference page: inserted element at its place whenever it exists.', 'what a site may do to the page in any order, including more changes than the rate limit.');
p('C36', 12, 'table of who follows a click, and DOM removal semantics.', '93 600 combinations per mode.');
p('C37', 60, 'the page, the configuration and (for flags) a table of outcomes; nothing the debugger itself keeps.', 'whether the debug state stays true along histories.');
p('C38', 60, 'the page and the frame: what is in the document, the address, the frame\'s own history calls.', 'readiness, editor messages and navigations of the framed site interleave.');
p('C39', 15, 'precedence table for the source, and per flag the last thing the provider heard.', 'what is sent depends on everything sent before.');
p('C40', 20, 'the same history on a client that logs everything, filtered; a table of what is an error.', 'every message of a history at every configuration.');

module.exports = {
  props: P,
  caught: {},
  seedIntro:
    'All of them are caught by the quick check of their property (exit 1 and its VIOLATION line); some also disturb others. About 150 further mutants were ' +
    'tried while building (several per property, written from the property texts); those that were missed at first led to stronger checks - among them: relay answers while the page starts (C28), ' +
    'parameters that vary in order or number (C25), cookies whose names merely look alike (C12), properties and flags named like object members (C01, C03, C05), ' +
    'a pointer that leaves the window (C23), unnamed flags (C28). Mutants judged equivalent (no observable difference within the statements) were dropped.',
  asis: [
    'Evaluation: `parseNumber` yields NaN for some texts; the trace names the matched segment only; flags with the key `__proto__` are not explored.',
    'Variants: stale responses are applied in arrival order; an in-retry 4xx keeps retrying; the first attempt of an earlier fetch which fails after a newer fetch still schedules retries; falsy payloads and values are dropped by the conversion of variants; `config.initialVariants` is changed in place; nested user values are not copied.',
    'Lifecycle: after `start()` rejects the client stays running; a flags request that times out persists the initial flags; `initialize(undefined)` throws.',
    'Exposures and events: an EventBridge receiver that throws in the middle of a replay gets events again; `SessionDedupeCache` with a failing sessionStorage; an integration replaced while its set-up is pending; an Amplitude identity commit of properties alone resolves readiness. Persisted state\'s device id overrides the connector\'s.',
    'Consent: a refusal while preview configurations are in flight still starts the client; a running client may persist again after a refusal; `ConsentManager` delivers a stale "granted" after a nested denial; sibling hosts keep the old `web_exp_id` after refusal and renewed consent; removal of a stored key while pending only drops the held value; a grant does not evaluate again until the next event; the session id kept in memory may be persisted again after a renewed grant; events recorded before a refusal cannot be erased in the relay\'s store.',
    'Page triggers: scrolled percentage is not checked again when the address changes, and 0 percent needs a scroll; `element_visible` flaps on another such event; `toggleManual` before start is lost; a page loaded hidden counts hidden time until shown; `setPageObjects` registers listeners again.',
    'Page changes: two mutate actions in one variant collide; `insertElement` with a callback that throws rejects its promise; links with `download`, `_SELF` in another case, or an invalid address stay as they are.',
    'Redirects: a cross-host redirect echoes its parameters; a failed redirect leaves its impression; a repeated store within 500 ms may be reported early.',
    'Behaviours: the event store of a host is last-writer-wins between tabs open at once; rolling windows and expired sessions are only evaluated again at events they refer to; a failed write is tried again only with the next event; the relay resends at least once (events carry ids).',
    'Start-up: remote and holdout flags are evaluated early on navigation until the flags request settles; a custom integration whose set-up never resolves blocks local variants while holdout flags exist.',
    'Preview and editor: preview begins only when the latest configuration arrived or failed; `previewVariants` outside preview mode reports the assigned variant\'s impression; an invalid stored editor session still puts the tab in editor mode; messages with null data throw in the handler.',
    'Debug state: `element_visible`, interaction with hidden pages and the visual editor part are not compared; a local flag which never comes to a variant is not shown.',
    'Identity: two hosts starting for the very first time at once (C32); duplicate cookie names: last wins; cookie values are not decoded; unusable stored state leaves landing and first-seen out until cleared (C34).',
    'Flags store and initial flags: whether the merged initial flags are part of what is persisted (C08) is left open by documentation and tests.',
  ],
  falseAlarms: [
    'C04: the trace of a segment that buckets to nothing; corrected the reference after reading the documentation of traces.',
    'C12: a client without an API key never fetches; the model did not know. Corrected.',
    'C23: element visibility reported by an observer between two steps; the reference became three-valued.',
    'C28: the flags request carries ids only, server flags are evaluated on the page; the statement was corrected.',
    'C31: conditions on the fragment of an address, a cached blocking remote flag that still hides the page, and a reload while configurations are in flight; statement and model corrected.',
    'C32: sort order of candidates, and host-only cookies on IP addresses; model corrected.',
    'C34: requests never carry cookies; statement corrected.',
    'C35: with several matching elements, the first in document order counts; the simulated DOM was corrected (and `insertBefore` of a reference that is not a child throws, as in browsers).',
    'State matching (C09-C12, C26) once merged states that differed in pending timers; the snapshot now includes them relative to now.',
  ],
};
