'use strict';
module.exports = ({ add, core, br, tag, con, seg }) => {
  add('C01', 'Targeting conditions match exactly as their operators define',
    'For every operator, every property value (missing, null, boolean, number, string, array, JSON text, object) and every list of filter values, a targeting condition matches exactly when the operator\'s definition says so: equality with case-insensitive booleans and the "(none)" value for missing properties, numeric and semantic-version ordering, set relations, and regular expressions. Conditions inside a group are ANDed and groups are ORed. Evaluating a condition never throws for a well-formed flag and never alters the user or the flag.',
    ['inputs'], 'all operators x all values of a bounded alphabet of property values x all filter lists up to three values; all AND/OR tables up to 3x3',
    'Tests sample a few dozen operator/value pairs; the guarantee is over the whole cross product, including type-coercion corners, and the integration tests of the evaluator need the network.',
    [core('evaluation/evaluation.ts'), core('evaluation/select.ts'), core('evaluation/semantic-version.ts')],
    [['matchCondition and the operator matchers', core('evaluation/evaluation.ts')], ['select', core('evaluation/select.ts')], ['SemanticVersion.compareTo', core('evaluation/semantic-version.ts')]],
    ['EvaluationEngine.evaluate']);
  add('C02', 'Bucketing is deterministic and lands exactly where the hash says',
    'For every bucketing value and salt, the assigned variant is the one whose allocation range contains MurmurHash3-x86-32 (seed 0, UTF-8 of "salt/value") modulo 100 and whose distribution range contains that hash divided by 100, ranges being start-inclusive and end-exclusive. A segment without a bucket, a missing bucketing value, or a position outside all ranges yields the segment\'s default variant or none. The same user always gets the same variant.',
    ['inputs'], 'all strings up to length 3 (thorough 4) over 16 code points of every UTF-8 width, all lengths to 200; allocation tables with every boundary placed at, below and above the hashed position',
    'The existing tests check a fixed word list for the hash and need the network for bucketing itself; off-by-one range ends and non-ASCII input need exact boundary cases.',
    [core('evaluation/evaluation.ts'), core('evaluation/murmur3.ts'), core('evaluation/utils.ts')],
    [['bucket', core('evaluation/evaluation.ts')], ['hash32x86', core('evaluation/murmur3.ts')]], ['EvaluationEngine.evaluate']);
  add('C03', 'Flags evaluate first matching segment, after their dependencies',
    'A flag evaluates to the variant of its first segment that both matches and yields a known variant, with metadata merged so that the variant overrides the segment and the segment the flag; otherwise it has no result. For every dependency graph and any order of the flag map and requested keys, the evaluation order contains each requested flag and everything it depends on exactly once, dependencies first, and a cycle is always rejected with an error rather than looping. A flag conditioned on another flag\'s result sees that result.',
    ['inputs', 'configurations'], 'all lists of up to 2 (thorough 3) segments over 144 kinds; all digraphs on up to 4 flags with all flag orders and all requested-key subsets',
    'Tests use fixed example graphs; ordering and cycle detection must hold on every graph and insertion order.',
    [core('evaluation/evaluation.ts'), core('evaluation/topological-sort.ts')],
    [['evaluateFlag', core('evaluation/evaluation.ts')], ['topologicalSort', core('evaluation/topological-sort.ts')]], ['EvaluationEngine.evaluate', 'topologicalSort']);
  add('C04', 'Traced evaluation agrees with plain evaluation and tells the truth',
    'Evaluating with traces returns exactly the variants plain evaluation returns and one trace per flag. Each trace reports, for every segment, whether its conditions passed, whether and to which variant it bucketed and whether it matched, with recorded condition outcomes and property values equal to what evaluation actually used. Tracing alters neither user nor flags.',
    ['inputs', 'configurations'], 'all lists of up to 2 segments over 144 kinds x users; condition tables including dependencies on other flags',
    'Two separate evaluation paths exist and can drift apart on any of the combinations the tests do not sample.',
    [core('evaluation/evaluation.ts')], [['evaluateWithTraces', core('evaluation/evaluation.ts')]], ['EvaluationEngine.evaluateWithTraces']);
  add('C05', 'A key resolves to the right source, with the right exposure',
    'For every combination of stored, initial, inline-fallback, configured-fallback and locally evaluated variants, variant(key) returns the one of highest documented precedence for the configured source, using a default ("off") variant only when nothing better exists, and all() merges sources in the same order with locally evaluated local-mode flags on top. Accessing or explicitly exposing a key reports exactly one exposure carrying the flag key, the variant (omitted for default and fallback variants), the experiment key and the metadata (plus time and query-less page URL for web experiments), and none when tracking is disabled for the variant, for a fallback with no default variant behind it, or with automatic tracking off. Neither access nor tracking alters the variants, the returned objects or exposures already reported.',
    ['inputs', 'configurations'], 'all combinations of 3 configured sources x 6 stored x 7 inline x 6 initial x 4 configured x 10 flag kinds x delivery x automatic tracking',
    'Three nearly identical resolution chains each have their own order; the client tests which sample them do not run offline.',
    [br('experimentClient.ts'), br('types/source.ts'), br('util/convert.ts')],
    [['variantAndSource', br('experimentClient.ts')], ['exposureInternal', br('experimentClient.ts')]], ['variant()', 'all()', 'exposure()', 'exposureTrackingProvider.track']);
  add('C06', 'Fetched variants are applied whole, in the order responses arrive',
    'Under any overlap of fetches, responses, failures and clear(), the variants the client serves are those of the successful responses applied in arrival order: a full fetch replaces everything, a fetch limited to some flag keys replaces exactly those keys and drops the ones the response lacks, and a failed, malformed or timed-out fetch changes nothing. What is persisted for the next page load always equals what is served. A fetch promise settles only once its first attempt is applied or has failed, rejecting only when errors are configured to throw.',
    ['schedules', 'histories', 'fault_sequences'], 'all interleavings of up to 3 (thorough 4) overlapping fetches with 8 outcomes, timeouts and clear()',
    'Unit tests await each fetch in turn; overlap and partial failure need every order of completions.',
    [br('experimentClient.ts'), br('storage/cache.ts'), br('transport/http.ts')],
    [['fetchInternal/storeVariants', br('experimentClient.ts')], ['LoadStoreCache', br('storage/cache.ts')], ['timeout', br('transport/http.ts')]], ['all()', 'fetch()', 'localStorage']);
  add('C07', 'Failed fetches retry on the backoff schedule and stop when superseded',
    'When retries are enabled and a fetch fails with anything but a 4xx status other than 429, it is retried in the background after 500 ms growing by a factor 1.5 (capped at 10 s), at most 8 times, each attempt for the same user and flag keys, until one succeeds; its result is then applied like any other. Starting a new fetch cancels every scheduled retry of earlier fetches and prevents running retry attempts from scheduling more. With retries disabled, or after a non-retriable status, no further request is made.',
    ['schedules', 'fault_sequences', 'histories'], 'all outcome sequences over the 8 attempts of one fetch; all interleavings of up to 3 fetches with failures and timer firings in virtual time',
    'Retry tests mock the backoff; cancellation depends on the interleaving of timers, responses and new fetches.',
    [br('experimentClient.ts'), br('util/backoff.ts')], [['startRetries/stopRetries/shouldRetryFetch', br('experimentClient.ts')], ['Backoff', br('util/backoff.ts')]], ['network requests in virtual time']);
  add('C08', 'start, stop and polling keep flags fresh without leaking work',
    'start() sets the user, requests flags and (unless disabled) variants, and after they finish polls flags at the configured interval (never below one minute) if polling is on; repeated start() while running does nothing. After stop(), at any moment including while start is still pending, no further poll is issued until a later start. A successful flag response replaces all flags (initial flags filling missing keys), a failed one leaves them as they were, and errors surface only when configured to throw.',
    ['schedules', 'histories', 'fault_sequences'], 'all sequences of start/stop/flag response/variant response/poll tick up to depth 7 over success, failure and timeout outcomes and start configurations',
    'Lifecycle tests drive one happy path; stop during a pending start and failing polls need every order.',
    [br('experimentClient.ts'), core('util/poller.ts')], [['start/stop/doFlags', br('experimentClient.ts')], ['Poller', core('util/poller.ts')]], ['network requests', 'variant() of local flags']);
  add('C09', 'State survives reload; corrupt or failing storage never breaks the client',
    'After any history of fetches, flag updates, clears and page reloads, a new client for the same instance and deployment serves exactly the variants, flags and tracking option last stored, and clients with another instance name or deployment key see none of it. Older stored formats (plain strings, objects without key) are read as the equivalent variant. Unreadable, corrupt, full or missing storage never makes construction, variant access, fetch or clear throw: unreadable entries are ignored and the in-memory state stays right.',
    ['histories', 'crash_points', 'fault_sequences', 'inputs'], 'all histories up to depth 5 of fetch/flags/clear/option/reload over instances; every truncation of the stored text; every storage operation failing in turn',
    'Tests use a mocked store that never fails and is never truncated.',
    [br('storage/cache.ts'), br('storage/local-storage.ts'), br('experimentClient.ts')], [['LoadStoreCache.load/store', br('storage/cache.ts')], ['transformVariantFromStorage', br('storage/cache.ts')]], ['all()', 'localStorage']);
  add('C10', 'Each exposure is reported once per user session, and again when it should be',
    'For every sequence of exposures and identity changes, a custom exposure provider receives an exposure exactly when its flag has not yet been reported with that variant since the last change of user id or device id. The analytics integration receives it under the same rule except that two known user ids alone decide whether the identity changed, page reloads in the same tab keep what was already sent, and web-experiment impressions are always sent. The event type is the one named in the metadata, else "$impression" for web delivery, else "$exposure".',
    ['histories', 'inputs'], 'all sequences up to depth 5 (thorough 6) over flags, variants, identities, reload and storage failure',
    'Dedup state depends on the whole history of identities and reloads.',
    [br('util/userSessionExposureTracker.ts'), br('integration/manager.ts')], [['UserSessionExposureTracker', br('util/userSessionExposureTracker.ts')], ['SessionDedupeCache', br('integration/manager.ts')]], ['exposureTrackingProvider.track', 'IntegrationPlugin.track']);
  add('C11', 'Unsent exposure events are kept in order and delivered when possible',
    'Every event accepted for the analytics integration is delivered to it in order as soon as it accepts events, being kept across page reloads while it refuses (returns false or throws) or is absent; when more than 512 are waiting the oldest are dropped. Nothing is delivered twice by one page, and after a refusal delivery is retried every second until the queue is empty.',
    ['histories', 'fault_sequences', 'crash_points'], 'all sequences up to depth 6 of track/accept toggles/ticks/reloads/integration installs, with refusals at every position',
    'Tests cover single failure positions and no reloads in between.',
    [br('integration/manager.ts')], [['PersistentTrackingQueue', br('integration/manager.ts')]], ['IntegrationPlugin.track', 'localStorage']);
  add('C12', 'Requests wait for the integration, which supplies the identity',
    'A fetch or web flag request made while an integration is being set up is sent only once the set-up finishes or fails, and carries the integration\'s identity at that time; without integration it goes out at once. The Amplitude integration finishes set-up when an identity is known (from the connector or from persisted analytics state, read in the order cookie, legacy cookie, localStorage, sessionStorage, where what is persisted wins and a user id it does not name is left as it is) and at latest at its timeout. It forwards exposure events to the event bridge, reports failure while no receiver exists, and refetches on identity changes exactly when so configured.',
    ['schedules', 'configurations', 'histories'], 'all orders of identity arrival, timeout, receiver registration and fetch; all contents of the four persisted stores',
    'Tests resolve set-up immediately in most cases.',
    [br('integration/manager.ts'), br('integration/amplitude.ts'), br('factory.ts')], [['IntegrationManager.ready', br('integration/manager.ts')], ['AmplitudeIntegrationPlugin', br('integration/amplitude.ts')]], ['network requests', 'event bridge']);
  add('C13', 'The event bridge delivers every event once, in order',
    'Events logged before a receiver is set are queued (the first 512 are kept) and delivered in order when it is set; events logged afterwards go straight to the receiver. Each event is delivered to the receiver exactly once, in log order, and bridges of different instance names never mix.',
    ['histories'], 'all sequences up to depth 7 over log/set receiver/instances, plus the queue bound',
    'The order and the bound hold over histories, the tests check two.',
    [con('eventBridge.ts'), con('analyticsConnector.ts')], [['EventBridgeImpl', con('eventBridge.ts')]], ['EventBridge']);
  add('C14', 'The identity store notifies exactly on real changes and never aliases',
    'After any sequence of edits and sets, the identity holds the last user id, device id and the user properties obtained by applying set, unset and clear-all actions in order. Each listener is called exactly once per commit that changed the identity (by value) and not otherwise, with the new identity, and removed listeners are not called. Mutating an identity obtained from or passed to the store does not change what the store holds.',
    ['histories'], 'all sequences up to depth 5 over edits of each field, property actions, direct sets and listener changes',
    'Deep equality and copy isolation need sequences with repeated values.',
    [con('identityStore.ts'), con('util/equals.ts')], [['IdentityStoreImpl', con('identityStore.ts')]], ['IdentityStore']);
  add('C15', 'The Segment plugin gives Segment\'s identity and tracks through Segment',
    'Before Segment is ready the plugin identifies the user from Segment\'s persisted values and refuses to track; once ready it uses Segment\'s live user id, anonymous id and traits and forwards each exposure once. Set-up completes exactly when Segment becomes ready, immediately when set-up is skipped. Malformed persisted values never throw.',
    ['schedules', 'inputs', 'configurations'], 'all orders of load/ready/track/getUser; all persisted-value shapes; instance given, global or custom-named',
    'Readiness interleavings are sampled by the tests.',
    [seg('plugin.ts'), seg('snippet.ts')], [['segmentIntegrationPlugin', seg('plugin.ts')]], ['IntegrationPlugin']);
  add('C16', 'User context merges by precedence and is isolated by copying',
    'The user sent for evaluation merges the provider, the integration and the explicit user field by field, the later ones winning, with user properties merged key by key in the same order, always naming the library and never sending cookies. A user object passed in or read back can be mutated by the caller at any time without changing what the client uses.',
    ['inputs', 'histories'], 'all combinations of presence and conflict of each field across the three sources; all sequences of set/get/mutate up to depth 4',
    'Aliasing shows only in particular histories of mutation.',
    [br('experimentClient.ts'), br('providers/default.ts')], [['addContext/setUser/getUser', br('experimentClient.ts')]], ['X-Amp-Exp-User header', 'getUser()']);
  add('C17', 'One client per instance and deployment, first configuration wins',
    'Initialising any number of times in any order returns the same client for the same instance name and deployment key (and internal suffix), configured by the first call, and different clients otherwise. Clients created through the Amplitude Analytics variant share the same rule and get the integration exactly once.',
    ['histories', 'configurations'], 'all sequences up to depth 4 over instance names, keys, suffixes and factory variants',
    'Aliasing across keys needs combinations, the tests use one or two.',
    [br('factory.ts')], [['instances map', br('factory.ts')]], ['Experiment.initialize']);
  add('C18', 'Requests carry exactly the configured endpoint, key, user and options',
    'Every flag and variant request goes to the configured server URL, or to the zone\'s default when none is set, authorised with the deployment key, and carries the user, requested flag keys, tracking option and library losslessly for any Unicode content. A custom HTTP client receives the same request with the configured timeout. A tracking option, once set, applies to later fetches and later page loads unless overridden for one fetch.',
    ['inputs', 'configurations'], 'all combinations of zone, server URLs, options and persisted tracking option; users over an alphabet of Unicode corner cases',
    'Header encoding corner cases and option combinations are not sampled.',
    [core('api/evaluation-api.ts'), core('api/flag-api.ts'), br('experimentClient.ts')], [['getVariants', core('api/evaluation-api.ts')], ['getFlags', core('api/flag-api.ts')]], ['network requests']);
};
