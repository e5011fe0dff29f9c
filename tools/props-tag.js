'use strict';
module.exports = ({ add, tag, br }) => {
  add('C19', 'Storage stays untouched without cookie consent and is handed over on a grant',
    'When consent is required, the tag\'s storage helpers neither read nor write localStorage, sessionStorage or cookies before the visitor grants consent: values set while undecided are kept in memory and are what reads return, and only deletions reach the device after a refusal. A grant stores exactly the values held back, except that identifiers already on the device (web experiment ids, device id, first-seen time) are kept; a refusal drops them, and nothing is stored after it even when a grant\'s hand-over was still in progress. Preview and visual-editor state is exempt, and without a consent requirement everything passes straight through. Values are isolated by copying.',
    ['histories', 'schedules', 'fault_sequences'], 'all operation sequences up to depth 5 (thorough 6) on the synchronous helpers and up to depth 6 (thorough 8) on the asynchronous cookie store with every completion order',
    'Tests check single operations; the guarantee concerns sequences of decisions, operations and in-flight cookie access.',
    [tag('util/storage.ts'), tag('util/cookie.ts'), tag('util/grant-flush-merge.ts'), tag('consent/consent-cookie-storage.ts'), tag('consent/consent-gate.ts'), tag('consent/consent-manager.ts')],
    [['getStorageItem/setStorageItem/removeStorageItem', tag('util/storage.ts')], ['SyncJsonCookie', tag('util/cookie.ts')], ['ConsentAwareCookieStorage', tag('consent/consent-cookie-storage.ts')]], ['localStorage', 'sessionStorage', 'cookies']);

  add('C20', 'The tag stays inert until consent and starts exactly once',
    'While consent is required and not granted, initialize() constructs no client: it reads and writes no device storage (beyond the erasure a refusal asks for), sends no request, changes nothing on the page and reports no impression; it only exposes a stub whose setConsentStatus can resolve the decision. A grant given before or after initialize(), including one after an earlier refusal, starts the client, and whatever the sequence of initialize() and setConsentStatus() calls the client is started at most once, with the page changed once and each request sent once. Window configuration overrides the configuration passed, field by field; an unknown configured status counts as undecided and an unknown runtime status changes nothing; a status set at run time outranks the configured one; a later initialize() cannot open the gate a previous one closed. Analytics events tracked while the start is deferred for consent are never replayed, events tracked before a start that is not deferred reach the client exactly once, and the plugin always passes the event on unchanged.',
    ['histories', 'schedules', 'fault_sequences'], 'all sequences of initialize (9 configurations), setConsentStatus, events and preview-configuration answers up to depth 4 (thorough 5)',
    'Consent is decided by a page script at any moment relative to initialisation; tests fix a few orders.',
    [tag('index.ts'), tag('consent/consent-gate.ts'), tag('consent/consent-manager.ts'), tag('util/config.ts'), tag('consent/clear-data.ts')],
    [['initialize/setConsentStatus/launchClient', tag('index.ts')], ['ConsentManager', tag('consent/consent-manager.ts')]], ['device storage', 'requests', 'page changes', 'window.webExperiment']);

  add('C21', 'A refusal erases what the tag persisted, and the erased visitor identity does not return',
    'When consent is refused - at load, before initialize(), or on a running page - everything the tag and the browser SDK under it persisted for this key and instance in earlier visits (visitor ids, first-seen and landing data, behavioural events and session, marketing attribution, redirect impressions, variant and flag caches, exposure queue and dedupe caches of every version) is gone from localStorage, sessionStorage and cookies at that moment, whatever sequence of visits, redirects and events produced it and whatever scope its cookies have; a page refused at load puts nothing back. Data of other keys, instances or products is left alone. The refusal leaves one marker without visitor data on the root domain: after a refusal on one subdomain, a later opt-in on any sibling gets a visitor id (web_exp_id_v2) and first-seen time not seen before it, and without a refusal all siblings share one.',
    ['histories', 'crash_points'], 'all visit histories up to 3 (thorough 4) steps with the refusal at every point, on 5 kinds of host; all sequences of 4 (thorough 5) visits over two sibling hosts with 5 consent behaviours',
    'The set of keys is reconstructed by hand from what many features write; only running those features and looking at what is left can show that none is missed.',
    [tag('consent/clear-data.ts'), tag('consent/consent-gate.ts'), tag('util/cookie.ts'), tag('util/storage.ts'), tag('experiment.ts')],
    [['clearAllPersistedData/markIdentityErased/clearIfErasedElsewhere', tag('consent/clear-data.ts')], ['resolveCrossSubdomainObject', tag('util/cookie.ts')]], ['localStorage', 'sessionStorage', 'cookies', 'the visitor id in use']);

  add('C22', 'Impressions made before consent are held, sent once in order on a grant, and never after a refusal',
    'With consent required, an impression made while the visitor is undecided is not passed to the integration but kept in memory (the most recent 512) with the time it happened, and reported as taken so that nothing else stores it. A grant passes the held impressions on once each, in order; when the integration refuses one or throws, the rest stay in order and are retried every second until taken. A refusal discards everything held and everything made while it lasts: nothing held at that moment is ever sent, also when the refusal comes during the replay, between retries, or is later followed by a grant. Under a grant, or without a consent requirement, impressions go straight through with the integration\'s own answer. An integration is gated once however often it is wrapped, and events given are not changed.',
    ['histories', 'schedules', 'fault_sequences'], 'all sequences of impressions, decisions, integration failures (refuse, throw, take one, withdraw consent from within) and clock steps up to depth 7 (thorough 9), and around the 512 limit',
    'Replay, retry timer, failures and decisions interleave freely; tests follow a few fixed orders.',
    [tag('consent/consent-impression-buffer.ts'), tag('consent/consent-gate.ts'), tag('consent/consent-manager.ts')],
    [['ImpressionBuffer/wrapIntegrationTrack', tag('consent/consent-impression-buffer.ts')]], ['integration track calls']);

  add('C23', 'A page object is active exactly while its URL conditions hold and its trigger has fired on this URL',
    'With the default navigation handler, after every navigation (pushState, replaceState, back/forward) and every page event, each page object of each experiment is active exactly when its conditions match the current URL and its trigger has fired since that URL was reached: url_change at once; manual while its name is switched on; analytics_event after a matching event made while the conditions hold; element_appeared once a matching element is displayed (within 200 ms of the change to the page, at once for an element already there on arrival), and never without one; element_visible when a matching element reaches the stated share in the viewport (with no share stated: when any of it comes into view), not before, and still while another matching element does; scrolled_to a percentage once a scroll reaches it, or an element once it comes within the offset of the viewport; exit_intent when the pointer leaves through the top after the stated time on the URL; user_interaction for every page object whose selector matches the clicked, hovered or focused element or an ancestor, after the stated time, for hover and focus only if uninterrupted; time_on_page after the stated time on the URL in a visible tab, starting over whenever the tab is shown again. A selector that is not one concerns no other page object. Nothing fired on one URL counts on the next; timers of one URL do not fire on the next. Page changes of an experiment are live exactly while one of its page objects is active, and the last page-change notification always shows the active page objects. In the visual editor the same holds of the page objects the editor sets, from the moment it sets them, and of none it set before; no page change is live there.',
    ['histories', 'schedules'], 'fifteen trigger groups, each with all sequences of its 5-14 operations (navigation, DOM changes, scrolling, pointer, visibility, clock) up to depth 4-5 (thorough 6), also from pages that load hidden, scrolled or with the element present, and in the editor with its page objects set once and twice',
    'Navigation, observers, timers and visibility interleave; no unit test runs the triggers.',
    [tag('subscriptions/subscriptions.ts'), tag('subscriptions/message-bus.ts'), tag('util/triggers/mutation-manager.ts'), tag('util/page-object.ts'), tag('experiment.ts')],
    [['SubscriptionManager', tag('subscriptions/subscriptions.ts')], ['DebouncedMutationManager', tag('util/triggers/mutation-manager.ts')], ['updateActivePages', tag('experiment.ts')]], ['getActivePages', 'page-change notifications', 'live page changes']);

  add('C24', 'What is live on the page follows the variants and active pages, and nothing is left behind',
    'After every navigation, trigger, change of variant and API call, the DOM changes live on the page are exactly those of the experiments applied so far: for each experiment with a variant other than off, the mutations and injections of that variant whose scope (or, without a scope, any page of the experiment) is active. When a page goes inactive its mutations and injections are reverted; when the variant changes to another or to off everything of the old one is reverted; revertVariants() reverts what it names, applyVariants() applies what it names and previewVariants() shows the variant it names until the next evaluation; injections are removed on every change of URL and run again if still in scope, never twice at a time; their scripts, style sheets and cleanup functions go with them. An impression is sent when a variant first takes effect on a page URL (parameters and anchor do not make another page), or for off and control when one of the pages is active, and once per URL and variant. getVariants() and getActiveExperiments() agree with all that.',
    ['histories'], 'all sequences of up to 4 (thorough 5) of 15 operations and up to 5 (thorough 7) of 7 operations over four experiments with seven page objects',
    'Leftovers show only after particular sequences of navigation, trigger and variant change.',
    [tag('experiment.ts'), tag('subscriptions/subscriptions.ts'), tag('util/inject-utils.ts'), tag('util/csp-safe-stylesheet.ts')],
    [['applyVariants/revertVariants/handleMutate/handleInject', tag('experiment.ts')], ['revertInjections', tag('subscriptions/subscriptions.ts')]], ['live page changes', 'injected scripts and style sheets', 'impressions']);

  add('C25', 'Redirects send the visitor where the variant says, never loop, and are reported once',
    'On every evaluation of a page whose redirect experiment is active, the visitor is sent, once, to the redirect URL extended with the current query parameters it does not set itself, unless already there (a fragment counts only if the redirect names one), unless a redirect is under way, or unless a loop was detected: if, without any user interaction since the redirect, the site puts the visitor back at the source - by bouncing the navigation or by dropping the parameters later - the experiment does not redirect again in this session; an interaction, a landing left and a navigation that failed to start do not count as a loop. The redirect replaces the history entry or goes to the custom handler. Its impression is kept across the navigation (also to another host by cookie or URL parameter when so configured, which is removed from the address) and reported exactly once: on arriving at the destination, otherwise 500 ms after the next evaluation; other pending redirects are neither lost nor repeated.',
    ['histories', 'schedules', 'fault_sequences'], 'all visit histories up to 3-4 (thorough 4-5) steps over 11 site shapes (path, parameter, fragment, chain, competing, ping-pong, cross-host and mixed redirects), with full navigations and a custom handler, with a navigation that fails to start',
    'Loops, lost and repeated impressions come from the interplay of several page loads that share a session.',
    [tag('experiment.ts'), tag('util/url.ts'), tag('util/storage.ts'), tag('util/cookie.ts'), tag('subscriptions/subscriptions.ts')],
    [['handleRedirect/reconcileRedirectMarkersOnLoad/storeRedirectImpressions/fireStoredRedirectImpressions', tag('experiment.ts')], ['concatenateQueryParamsOf/matchesUrl', tag('util/url.ts')]], ['navigations', 'address', 'impressions']);

  add('C26', 'Recorded events and the behaviours they match follow one definition, across page loads and storage faults',
    'Every event given to trackEvent (or seen by the analytics plugin) is recorded once, with its time, the behavioural session it fell in and its properties as they were at that moment; the device holds the newest 500 after 500 ms, at once on hiding or leaving the page, and every event keeps one identity (uuid) for ever, stores of earlier versions included; a malformed store counts as empty, and a failed write costs nothing but itself. A behaviour is matched exactly when its conditions hold of that history: an OR of ANDs of conditions, each on the number of events of a type with the given properties (all operators, on strings, numbers, booleans and absent values) inside a rolling window that ends now or in the current session; it is decided at load and again whenever an event it mentions is recorded. Without consent nothing is recorded, and what preceded a refusal does not come back with a later grant.',
    ['inputs', 'histories', 'fault_sequences'], 'all sequences of 13 operations up to depth 5 (thorough 7), 366 conditions after each history of three events, four kinds of earlier store, histories around 500 events, quota faults, all consent sequences up to the depth',
    'Windows, sessions, write delay and page loads interact; tests sample single conditions on fixed histories.',
    [tag('behavioral-targeting/event-storage.ts'), tag('behavioral-targeting/behavioral-targeting-manager.ts'), tag('behavioral-targeting/evaluator.ts'), tag('behavioral-targeting/session-manager.ts')],
    [['EventStorageManager', tag('behavioral-targeting/event-storage.ts')], ['BehavioralTargetingManager', tag('behavioral-targeting/behavioral-targeting-manager.ts')]], ['stored events', 'matched behaviours']);

  add('C27', 'A behavioural session is one for all tabs and subdomains and ends only with inactivity',
    'Asking for the session returns the same id in every tab and on every subdomain as long as no more than the timeout (30 minutes unless configured) passed since the last activity anywhere; activity extends it, reading it does not; after more inactivity, an explicit restart or an unusable stored value a new id is used by all of them. It is kept in one cookie on the root domain, and where cookies cannot be written each page keeps its own for as long as it lives.',
    ['histories', 'fault_sequences'], 'all sequences of operations (activity, read, restart, waits at the boundaries, other tabs and hosts, reload, corrupted cookie, blocked cookies) up to depth 4-6 (thorough 5-8)',
    'The result depends on the order of activity and time over several pages sharing a cookie.',
    [tag('behavioral-targeting/session-manager.ts'), tag('util/cookie.ts')],
    [['SessionManager', tag('behavioral-targeting/session-manager.ts')]], ['session ids', 'cookies']);

  add('C28', 'Sharing recorded events with other subdomains loses none, doubles none, trusts only the relay, and never blocks the page',
    'The relay frame is hidden, comes from the configured address and appears only while it can still answer. Messages go only to its origin and carry this key and visitor; replies count only if they come from that window and origin and answer an open request. The conversation is: ready, ask whether this origin was migrated, migrate the local events if not, read; any refusal or two seconds of silence ends it and removes the frame. After a completed conversation the local history is the union of both by identity - the newest 500 in order of time - with behaviours and variants on the page following at once, and every local event the relay lacks is written to it, again on hiding or leaving the page until confirmed; without it everything works on local events alone. Experiments run whatever the frame does, also with an unusable address, and after a refusal of consent nothing is sent.',
    ['schedules', 'histories', 'fault_sequences'], 'all conversations with an adversarial frame (answer, refuse, stay silent, lose, forge) interleaved with events, waiting, hiding and page loads on two subdomains up to depth 4-5 (thorough 6-8)',
    'An asynchronous protocol with timeouts and an untrusted environment; tests follow a few conversations.',
    [tag('behavioral-targeting/relay-client.ts'), tag('behavioral-targeting/event-storage.ts'), tag('behavioral-targeting/behavioral-targeting-manager.ts'), tag('experiment.ts')],
    [['RelayClient', tag('behavioral-targeting/relay-client.ts')], ['syncFromRelay', tag('behavioral-targeting/event-storage.ts')], ['scheduleRelaySync', tag('experiment.ts')]], ['messages to the relay', 'stored events', 'live page changes']);

  add('C29', 'Variants, the user and impressions follow the matched behaviours',
    'Whenever an event changes which behaviours are matched - one event or a burst, before or after a navigation, buffered before the client started, or on the next page load - the user\'s behavioral_targeting property lists exactly the matched behaviours, the variants of the experiments targeting them follow at once on the page in both directions (also when a behaviour stops matching), and the impression of a variant newly in effect is reported once.',
    ['histories'], 'all sequences of events, bursts, navigations, waits and reloads up to depth 4 (thorough 6)',
    'The chain from event to page passes four modules that each keep what they last saw.',
    [tag('experiment.ts'), tag('behavioral-targeting/behavioral-targeting-manager.ts'), tag('subscriptions/subscriptions.ts'), tag('index.ts')],
    [['updateUserWithBehaviors', tag('experiment.ts')], ['setupBehavioralTargetingSubscription', tag('subscriptions/subscriptions.ts')]], ['live page changes', 'user properties', 'impressions']);

  add('C30', 'Start-up applies what is decided, hides the page only for blocking remote experiments and never for long',
    'Once the client starts, experiments decided on the page are applied at once - after the integration is set up only if some experiment is held out or exclusive with others - while those decided by the server, or depending on such, directly or through others and whatever their order, are applied when the request for flags has been answered. There is one such request, with the user the integration provides, and none if nothing needs it or the visitor is being redirected. The page is hidden only if an experiment that asks to block rendering is decided by the server and one of its pages is active, from the start until it is applied and never for more than a second, or while a redirect is under way; a style sheet the site put there to hide the page is removed when the page is shown. When the request fails, times out after a second or answers with something unusable, the flags stored by the last page load are used and otherwise those in the script; a reload uses flags stored in the session. Events made before the client runs are delivered once it runs.',
    ['histories', 'schedules', 'fault_sequences'], 'fifteen start-up configurations, each with all interleavings of answers (good, empty, malformed, failing, late), integration readiness, waits, events, navigations and reloads up to depth 4-6',
    'Integration, flags request, time limits and navigation race at start-up; tests wait for everything.',
    [tag('experiment.ts'), tag('index.ts'), tag('util/anti-flicker.ts')],
    [['start/fetchRemoteFlags/applyVariants', tag('experiment.ts')], ['startClient', tag('index.ts')], ['applyAntiFlickerCss/removeAntiFlickerCss', tag('util/anti-flicker.ts')]], ['live page changes', 'page hidden or shown', 'requests']);

  add('C31', 'Preview mode shows what the address asks for, from the latest configuration, and only in that tab session',
    'With PREVIEW=true in the address, every other non-empty parameter names an experiment and the variant to show: these and PREVIEW are removed from the address (the rest of it stays) and remembered for the tab session, replacing what was remembered; PREVIEW=true alone ends it, and without it the parameters mean nothing. While something is previewed (or the browser extension injected the script) the page is hidden for at most a second while the latest configuration is requested once, with the key, and used; when that fails, is unusable or takes ten seconds, the configuration in the script is used. A previewed experiment shows the asked-for variant on its active pages, at start and after every navigation or trigger, and never the assigned one; a variant or experiment that does not exist shows nothing; its impression names the previewed variant, once per URL. Experiments not previewed behave as always, and the server is not asked for flags when it has none left to decide. A notice naming what is previewed appears half a second later, one at a time, and goes when dismissed. An unusable remembered state counts as none.',
    ['histories', 'schedules', 'fault_sequences'], 'twelve groups of addresses, each with all sequences of answers and failures, waits, navigations, triggers, reloads, further addresses and dismissals up to depth 3-5 (thorough one more)',
    'Address, session, two requests, time limits and navigation interleave; tests cover single starts.',
    [tag('index.ts'), tag('experiment.ts'), tag('preview/preview.ts'), tag('preview/preview-api.ts'), tag('preview/http.ts'), tag('util/url.ts')],
    [['launchClient', tag('index.ts')], ['setupPreviewMode/previewVariants', tag('experiment.ts')], ['PreviewModeModal', tag('preview/preview.ts')]], ['live page changes', 'impressions', 'address', 'requests', 'preview notice']);

  add('C32', 'A visitor keeps one identity and campaign on all subdomains for as long as either the cookie or the local storage survives',
    'Each page load evaluates with an id of the host (taken over from an earlier device id, which is dropped, or made up once), a shared id and the time of the first visit that are the same on all hosts of a root domain, and the campaign parameters (utm_*) last seen. The shared id and the first visit come from the one cookie on the root domain, field by field, and where it is missing, expired or unusable from what this host kept, and only then are new - the id starting as the host\'s own; what was missing is written back for a year, once. What was resolved is kept on the host, so that losing the cookie, or the local storage, changes neither. Parameters in the address win over those kept by the tag and these over those of the analytics SDK, one by one, and are kept; other campaign data is not used. Where cookies cannot be written each host keeps its own. When a redirect variant takes the visitor elsewhere, the campaign parameters, click ids and referrer of the page left are in one cookie all hosts of the root domain see before it is left (and never before consent). No other cookie is left behind, also on shared hosting domains, two-level domains and localhost.',
    ['histories', 'fault_sequences'], 'seventeen earlier states of the device, followed by all histories of up to 2-5 (thorough 3-6) page loads with and without campaign parameters on up to seven hosts, lost cookies, lost storage, blocked cookies and a year passing; 1152 redirects over hosts, addresses, referrers, consent and cookies',
    'Identity is the result of the whole history of page loads on several hosts; tests start from one fixed state.',
    [tag('experiment.ts'), tag('util/cookie.ts'), tag('util/campaign.ts'), tag('util/uuid.ts')],
    [['start', tag('experiment.ts')], ['resolveCrossSubdomainObject/getTopLevelDomain', tag('util/cookie.ts')], ['enrichUserWithCampaignData', tag('util/campaign.ts')]], ['user of the client', 'cookies', 'localStorage', 'live page changes']);

  add('C33', 'The visual editor loads only on Amplitude\'s word, once, and nothing else happens to a page being edited',
    'A script is added to the page for editing only if its address is https on a subdomain of amplitude.com and either a message to open the editor came from a window of such a subdomain while the page is opened for editing or previewing, or the editor left it in the session of this tab. Only one is loading or loaded at a time, also when the tab previews as well; after a failure the next message may try again. It carries the page\'s nonce and is added when there is a body; a loading indicator shows until it fails, says it is ready or ten seconds passed. VISUAL_EDITOR is removed from the address. Where the window that opened the page is gone, closed or out of reach, one notice says so instead and nothing is loaded. In a tab that edits, no experiment changes, redirects, hides or reports anything and no flags are requested, whatever is navigated to or triggered, while the active pages are kept up to date.',
    ['histories', 'inputs', 'fault_sequences'], 'nine groups of addresses, sessions and openers, each with all sequences of messages (8 contents from 8 origins), script loads and failures, waits, navigations, triggers and reloads up to depth 2-5 (thorough one more)',
    'Another window drives the page by messages; that no sequence of them makes it load something else is a statement over all of them.',
    [tag('util/messenger.ts'), tag('util/opener-channel.ts'), tag('util/opener-severed-banner.ts'), tag('util/loading-indicator.ts'), tag('util/when-body-ready.ts'), tag('experiment.ts')],
    [['WindowMessenger/asyncLoadScript', tag('util/messenger.ts')], ['start', tag('experiment.ts')]], ['scripts on the page', 'notices', 'live page changes', 'active pages']);

  add('C34', 'What the page contributes to targeting is that of the moment, of the tab session and of the first visit',
    'Unless the application supplies them, every evaluation on the page and every request sees the parameters of the address at that moment (each with its value, or the list of its values in order where it occurs repeatedly or holds several separated by commas, whatever its name), the page that referred to this one, and the address at which this tab session was first evaluated (both without a final slash) and the time of the first evaluation ever on this device in seconds; neither of the last two changes by navigation, reload or, for the time, a new tab. Evaluation on the page also sees the cookies of the moment with their whole values; requests never carry cookies. Storage that fails or holds something unusable leaves out only the landing address or first visit and nothing throws.',
    ['histories', 'inputs', 'fault_sequences'], 'all histories up to depth 4 (thorough 5-6) of navigations and page loads over six addresses, new tabs, waits, cookie changes, stored contents and storage faults; all query strings of up to two (thorough three) parameters over 9 names and 8 values',
    'Session and device values depend on the whole history of page loads and faults; tests evaluate one fixed page.',
    ['packages/experiment-browser/src/providers/default.ts', 'packages/experiment-browser/src/experimentClient.ts', 'packages/experiment-browser/src/storage/session-storage.ts'],
    [['DefaultUserProvider', 'packages/experiment-browser/src/providers/default.ts'], ['cleanUserPropsForFetch', 'packages/experiment-browser/src/experimentClient.ts']], ['user of requests', 'variant() of local flags', 'localStorage', 'sessionStorage']);

  add('C35', 'What variant code inserts is at its place whenever that exists, until the variant is reverted',
    'While a variant with code is shown, the element it inserts is in the document whenever its parent - and the child of that parent it goes before, if it named one - is there: it is put there when they appear, however busily the page changes in the meantime, and put back when the site removes it or renders the parent again, at most ten times in any second and then as soon as that allows; it is never put anywhere else or moved while it is in the document. Each insertion calls back once, the first settles the promise, and waiting for an element gives the first that matches, whenever it appears. Once the variant is reverted nothing more is inserted, called or given; its clean-up runs exactly once and its style sheet and script go, and when it is shown again its code runs afresh. Variant code or clean-up that throws does not change what other variants show, nor whether this one is reverted and shown again, and mutations of other variants are kept up to date throughout.',
    ['histories', 'schedules'], 'eight kinds of variant code, each with all sequences of re-rendering, removal (up to twelve in a row), unrelated changes, waits and navigations up to depth 4-5 (thorough 6)',
    'Site and variant code take turns changing the same part of the page; that no order loses the element is a statement over all of them.',
    [tag('util/inject-utils.ts'), tag('experiment.ts')],
    [['getInjectUtils', tag('util/inject-utils.ts')], ['handleInject', tag('experiment.ts')]], ['document', 'callbacks', 'promises', 'impressions']);

  add('C36', 'Links and nodes a variant changed go on working as the site made them',
    'A plain click (left button, no modifier key, not cancelled by the site, same window) on a link whose address a variant changed and whose click handler is that of a router, or on something inside it, goes where the changed address says, once however many scripts are on the page: to another origin by loading it, otherwise through the router of Next.js where there is one, or by a new history entry of which the page is told - without the page being loaded again; the variants of the page reached apply like after any navigation. Every other click - on links not or no longer changed, not handled by a router, with a modifier or another button, for another window, cancelled, or beside a link - is left alone. Removing a node from an element it is not in, because a variant put it elsewhere, changes nothing and gives the node back; other removals do what they always do.',
    ['inputs', 'histories'], '93600 combinations of link, address, target, click, site handler and place for each of twelve combinations of router, script count and mode; all click sequences up to depth 4 (thorough 6) and removals up to 3 (thorough 4)',
    'A click depends on seven things at once; tests try each alone.',
    [tag('util/spa-link-interceptor.ts'), tag('util/patch.ts')],
    [['installSpaLinkInterceptor/navigateSpa', tag('util/spa-link-interceptor.ts')], ['patchRemoveChild', tag('util/patch.ts')]], ['address', 'history entries', 'page loads', 'document', 'live page changes']);

  add('C37', 'What the debugger is shown is what happens on the page',
    'After every step of a visit the debug state agrees with the page: the address; for every flag known to the tag the variant it has, whether it is active, and for each of its page objects whether its address conditions hold, whether its trigger has fired on this address, and a status that passes exactly while the page object is active; for every flag which is not on, the reason - blaming a dependency only if a condition on it really failed before the segment that decided - with the dependencies it lists and their variants; and the state of consent. Reading the debug state changes nothing and reports nothing. On pages being debugged every subscriber is told once nothing has changed for about 100 ms, with the state of that moment, so that the last state told is the latest, and never more often than something changed; nobody is told after unsubscribing or on pages not being debugged.',
    ['inputs', 'histories'], 'four groups of page objects, each with all sequences of navigations, triggers, waits and (un)subscriptions up to depth 4-5 (thorough one more); 360 flags with a dependency of every kind and outcome; all consent sequences up to depth 4 (thorough 5) from each initial consent',
    'The debug state repeats decisions made elsewhere; tests look at single snapshots, not at whether it stays true along a history.',
    [tag('experiment.ts'), tag('subscriptions/subscriptions.ts'), tag('util/debug-recorder.ts')],
    [['getDebugState/buildFlagDebugInfo', tag('experiment.ts')], ['getDebugPageObjects/scheduleDebugNotification', tag('subscriptions/subscriptions.ts')]], ['debug state', 'debug subscribers', 'active pages', 'variants']);

  add('C38', 'In the phone-sized editor the address follows the framed page, and the frame is left alone',
    "In a tab that edits in mobile mode the page is replaced - once, when it is complete and has a body, and not otherwise - by a single frame showing the same address; the editor is loaded only after that. From each load of the frame on, every navigation of the framed site (loads, pushState, replaceState with or without address, back and forward) works as the site made it and appears in the address of the tab without adding to its history, with the active pages following; the address of a page of another origin does not appear, and VISUAL_EDITOR does not come back. Neither in the tab nor in that frame does any experiment change, redirect, hide, report or request anything, whatever happens there; the frame opens no editor and no further frame, and offers its DOM changes to the editor. A page that is framed by something else, or not in mobile mode, works as always.",
    ['histories', 'schedules'], 'all sequences of readiness changes, frames, messages and navigations of the framed site up to depth 4-5 (thorough 5-6) from every readiness, stored editor and mode; all sequences of page activity up to depth 3 (thorough 4) in every kind of frame',
    'The shell has no unit tests: it depends on when the page becomes ready and on what the framed site does afterwards.',
    [tag('util/shell.ts'), tag('experiment.ts')],
    [['buildShell/observeIframeSpaNav/syncIframeUrl', tag('util/shell.ts')], ['start', tag('experiment.ts')]], ['document', 'address', 'history entries', 'active pages', 'requests']);

  add('C39', 'The analytics provider is told about a variant once, until it changes',
    'For every sequence of variant accesses, explicit exposures, fetches, identity changes and page loads, the (deprecated) analytics provider hears of an access as follows. A variant with a value that is no fallback - stored, initial where initial variants come first, or evaluated locally - has its user property set and is then tracked, unless that value of that flag was the last thing the provider heard about the flag on this page; anything else - a fallback, inline, configured or from the initial variants, a variant without value, or none - has the user property unset, unless that was the last thing heard; a variant whose metadata disables exposure tracking is not mentioned, and with automatic tracking off only explicit exposures count. The event names the flag, its user property "[Experiment] flag", the value, the source and the user of that moment. A provider without user property methods is tracked all the same, any name of a flag will do, and access never throws.',
    ['histories', 'inputs'], 'all sequences of accesses (plain and with fallbacks), served variants, users and page loads up to depth 4-6 (thorough 5-8) over thirteen configurations, provider shapes and key names',
    'What is sent depends on everything the provider heard before; the provider has no unit tests of its own.',
    [br('util/sessionAnalyticsProvider.ts'), br('types/analytics.ts'), br('experimentClient.ts')],
    [['SessionAnalyticsProvider', br('util/sessionAnalyticsProvider.ts')], ['exposureEvent', br('types/analytics.ts')], ['legacyExposureInternal', br('experimentClient.ts')]], ['calls of the provider', 'variant()']);

  add('C40', 'A logger hears exactly what its level asks for, and logging changes nothing',
    'Whatever is called, answered or fails, the logger configured - the console where none is - receives exactly the messages whose severity the level admits, in order: none at Disable, errors at Error (the default), and with each further level those of the next severity; debug: true means the Debug level whatever the level configured, and an absent or null setting its default. With a logger configured nothing is written to the console. A call of fetch or start whose request for variants fails, other than by a timeout, is one error - none if the error is thrown to the caller instead; timeouts, retries and polling in the background are not worth an error or warning. At every level requests, variants and results of calls are the same.',
    ['inputs', 'histories'], 'all histories of fetches, starts, stops, polls, retries and accesses with every kind of answer up to depth 2-3 (thorough 3-4), on 45 logging configurations side by side',
    'Tests check the level filter on single messages, not what the client logs along its histories.',
    [br('logger/ampLogger.ts'), br('logger/consoleLogger.ts'), br('experimentClient.ts')],
    [['AmpLogger', br('logger/ampLogger.ts')], ['getLogLevel/fetch/start', br('experimentClient.ts')]], ['logger calls', 'console', 'requests']);
};
