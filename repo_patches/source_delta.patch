From eeb2791b25c26430fb2fa8afaf4c34e921b5681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 01/46] fix: tracking a web exposure no longer rewrites the
 variant's own metadata

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..63301f4 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -955,7 +955,7 @@ export class ExperimentClient implements Client {
       }
     }
 
-    if (metadata) exposure.metadata = metadata;
+    if (metadata) exposure.metadata = { ...metadata };
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
-- 
2.43.0


From c1b51fdb0b0a29aec6740f7b4062899e34cf26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 02/46] fix: setUser copies the user properties of the user it
 is given

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 63301f4..9190dcd 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -454,7 +454,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From 663ff7439a3c6f2e399d221924a4e3c348777616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 03/46] fix: a client stopped while starting does not begin
 polling

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 9190dcd..9083bef 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -271,7 +271,7 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From 8687db162622c2b0c1ff42ad6a4786713dacd571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 04/46] fix: a new fetch cancels the retries of every earlier
 fetch, not only of the last that failed

---
 packages/experiment-browser/src/experimentClient.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 9083bef..b2f469b 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -95,7 +95,7 @@ export class ExperimentClient implements Client {
   private user: ExperimentUser | undefined;
   private userProvider: ExperimentUserProvider | undefined;
   private userSessionExposureTracker: UserSessionExposureTracker | undefined;
-  private retriesBackoff: Backoff | undefined;
+  private retriesBackoffs: Backoff[] = [];
   private poller: Poller;
   private isRunning = false;
   private readonly integrationManager: IntegrationManager;
@@ -867,21 +867,22 @@ export class ExperimentClient implements Client {
     options: FetchOptions,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
-    this.retriesBackoff = new Backoff(
+    const backoff = new Backoff(
       fetchBackoffAttempts,
       fetchBackoffMinMillis,
       fetchBackoffMaxMillis,
       fetchBackoffScalar,
     );
-    void this.retriesBackoff.start(async () => {
+    // Fetches which overlap may each be retrying: keep all of them cancellable.
+    this.retriesBackoffs.push(backoff);
+    void backoff.start(async () => {
       await this.fetchInternal(user, fetchBackoffTimeout, false, options);
     });
   }
 
   private stopRetries(): void {
-    if (this.retriesBackoff) {
-      this.retriesBackoff.cancel();
-    }
+    this.retriesBackoffs.forEach((backoff) => backoff.cancel());
+    this.retriesBackoffs = [];
   }
 
   private addContext(user: ExperimentUser): ExperimentUser {
-- 
2.43.0


From 7376e62646913c7324eafc1d82f825353f6d69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 05/46] fix: unreadable stored exposure state does not make
 exposure tracking throw

---
 .../experiment-browser/src/integration/manager.ts  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..4d5cc92 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -201,7 +201,12 @@ export class SessionDedupeCache {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
       const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      try {
+        this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      } catch (e) {
+        // Ignore an unreadable stored cache.
+        this.inMemoryCache = {};
+      }
     }
   }
 
@@ -279,7 +284,12 @@ export class PersistentTrackingQueue {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
       const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      try {
+        this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      } catch (e) {
+        // Ignore unreadable stored events.
+        this.inMemoryQueue = [];
+      }
     }
   }
 
-- 
2.43.0


From 3cf94ad531bb1a11b14a9a226996145e0466f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 06/46] fix: failing or denied browser storage does not make
 construction or exposure tracking throw

---
 .../experiment-browser/src/integration/manager.ts  | 13 ++++++++++---
 packages/experiment-core/src/util/global.ts        | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 4d5cc92..ddd5052 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -200,8 +200,8 @@ export class SessionDedupeCache {
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
       try {
+        const storedCache = sessionStorage.getItem(this.storageKey);
         this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
       } catch (e) {
         // Ignore an unreadable stored cache.
@@ -283,8 +283,8 @@ export class PersistentTrackingQueue {
   private loadQueue(): void {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
       try {
+        const storedQueue = localStorage.getItem(this.storageKey);
         this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
       } catch (e) {
         // Ignore unreadable stored events.
@@ -302,7 +302,14 @@ export class PersistentTrackingQueue {
           this.inMemoryQueue.length - this.maxQueueSize,
         );
       }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors.
+      }
     }
   }
 
diff --git a/packages/experiment-core/src/util/global.ts b/packages/experiment-core/src/util/global.ts
index 1efca4f..e9de43b 100644
--- a/packages/experiment-core/src/util/global.ts
+++ b/packages/experiment-core/src/util/global.ts
@@ -37,11 +37,21 @@ export const isLocalStorageAvailable = (): boolean => {
 };
 
 export const getLocalStorage = (): Storage | undefined => {
-  return getGlobalScope()?.localStorage;
+  try {
+    return getGlobalScope()?.localStorage;
+  } catch (e) {
+    // Access to storage may be denied altogether.
+    return undefined;
+  }
 };
 
 export const getSessionStorage = (): Storage | undefined => {
-  return getGlobalScope()?.sessionStorage;
+  try {
+    return getGlobalScope()?.sessionStorage;
+  } catch (e) {
+    // Access to storage may be denied altogether.
+    return undefined;
+  }
 };
 
 export const getDocument = (): Document | undefined => {
-- 
2.43.0


From 2e24a493850869d05c49fdf593d74617fd74c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 07/46] fix: setTracksAssignment does not reject when the
 option cannot be persisted

---
 packages/experiment-browser/src/experimentClient.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index b2f469b..f81124b 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -771,7 +771,11 @@ export class ExperimentClient implements Client {
       ...(this.fetchVariantsOptions.get() || {}),
       trackingOption: doTrack ? 'track' : 'no-track',
     });
-    this.fetchVariantsOptions.store();
+    try {
+      this.fetchVariantsOptions.store();
+    } catch (e) {
+      // catch localStorage undefined error
+    }
   }
 
   private cleanUserPropsForFetch(user: ExperimentUser): ExperimentUser {
-- 
2.43.0


From 55e457f7fdab531f4e5a6884c114312d6d470d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 08/46] fix: an exposure event refused after the queue has
 drained once is retried

---
 .../experiment-browser/src/integration/manager.ts     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index ddd5052..0c585aa 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -244,17 +244,26 @@ export class PersistentTrackingQueue {
     this.inMemoryQueue.push(event);
     this.flush();
     this.storeQueue();
+    // Keep retrying an event which was refused.
+    if (this.tracker && this.inMemoryQueue.length > 0) {
+      this.startPoller();
+    }
   }
 
   setTracker(tracker: (event: ExperimentEvent) => boolean): void {
     this.tracker = tracker;
+    this.startPoller();
+    this.loadFlushStore();
+  }
+
+  private startPoller(): void {
+    if (this.poller) return;
     const setInterval = getSetInterval();
     if (setInterval) {
       this.poller = setInterval(() => {
         this.loadFlushStore();
       }, 1000);
     }
-    this.loadFlushStore();
   }
 
   private flush(): void {
-- 
2.43.0


From c7d2938c0085c395e0253f9cbd499eec75da9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 09/46] fix: the queue of unsent events is bounded without
 localStorage too

---
 .../experiment-browser/src/integration/manager.ts    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 0c585aa..ac83cf8 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -303,14 +303,14 @@ export class PersistentTrackingQueue {
   }
 
   private storeQueue(): void {
+    // Trim the queue if it is too large.
+    if (this.inMemoryQueue.length > this.maxQueueSize) {
+      this.inMemoryQueue = this.inMemoryQueue.slice(
+        this.inMemoryQueue.length - this.maxQueueSize,
+      );
+    }
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      // Trim the queue if it is too large.
-      if (this.inMemoryQueue.length > this.maxQueueSize) {
-        this.inMemoryQueue = this.inMemoryQueue.slice(
-          this.inMemoryQueue.length - this.maxQueueSize,
-        );
-      }
       try {
         localStorage.setItem(
           this.storageKey,
-- 
2.43.0


From 7cf8370c87e8b8b64dffa4cab9b49115cedb5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 10/46] fix: reusing an identity editor, or updating properties
 it was given, no longer changes the committed identity or the caller's object
 in place

---
 packages/analytics-connector/src/identityStore.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..721df0a 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -83,7 +83,7 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0


From 67be297f6a297b51780a3d68e2fd83bee4a72b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 11/46] fix: an undecodable analytics cookie does not make
 initialization throw

---
 packages/experiment-browser/src/util/state.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..3508b00 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -24,7 +24,11 @@ export const parseAmplitudeCookie = (
   for (const cookie of cookies) {
     const [cookieKey, cookieValue] = cookie.split('=', 2);
     if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
+      try {
+        value = decodeURIComponent(cookieValue);
+      } catch (e) {
+        // Ignore an undecodable cookie.
+      }
     }
   }
   if (!value) {
-- 
2.43.0


From 1d9757d75ffa368f79dd49a86e6c680aa0860ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 12/46] fix: unreadable persisted Segment values do not make
 user access throw

---
 packages/plugin-segment/src/plugin.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..1eb2a5d 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -62,7 +62,12 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
       const get = (key: string) => {
         const localStorage = getLocalStorage();
         if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          // Ignore unreadable persisted values.
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From eb5a23fd996d2f0539e82f71a6f99dc91c6883f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 13/46] fix: with skipSetup the Segment plugin still notices
 when Segment is ready

---
 packages/plugin-segment/src/plugin.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 1eb2a5d..ea41641 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -83,6 +83,9 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
   };
   if (options.skipSetup) {
+    // The client does not wait, but the plugin still notices when segment is
+    // ready.
+    void (plugin.setup as () => Promise<void>)();
     plugin.setup = undefined;
   }
 
-- 
2.43.0


From e7dd9f937104d6657ebfe7118080c949097b6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 14/46] fix: null and undefined user fields fall back on the
 integration and the user provider, as documented

---
 packages/experiment-browser/src/experimentClient.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f81124b..517e408 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -899,9 +899,9 @@ export class ExperimentClient implements Client {
     };
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
-      ...providedUser,
-      ...integrationUser,
-      ...user,
+      ...filterNullUndefined(providedUser),
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From 8cf1088a8230ae3458299838a1157451cee8dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 15/46] fix: mutating the user passed to fetch does not change
 the pending request or its retries

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 517e408..96b84ad 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -318,7 +318,7 @@ export class ExperimentClient implements Client {
     this.setUser(user || {});
     try {
       await this.fetchInternal(
-        user,
+        this.user,
         this.config.fetchTimeoutMillis,
         this.config.retryFetchOnFailure,
         options,
-- 
2.43.0


From d3899c9332bc17ff2fe32d092039776ae9d6d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 16/46] fix: do not write the consent-gated cookie after
 consent is withdrawn during the grant flush

---
 .../src/consent/consent-cookie-storage.ts            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/experiment-tag/src/consent/consent-cookie-storage.ts b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
index 2c45419..9ac5372 100644
--- a/packages/experiment-tag/src/consent/consent-cookie-storage.ts
+++ b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
@@ -52,6 +52,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return value === undefined ? undefined : snapshotValue(value);
     }
     await this.flush;
+    if (isConsentWithheld()) {
+      // Consent was withdrawn while the flush was in flight.
+      return undefined;
+    }
     return this.delegate.get(key);
   }
 
@@ -64,6 +68,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return;
     }
     await this.flush;
+    if (isConsentWithheld()) {
+      // Consent was withdrawn while the flush was in flight.
+      return;
+    }
     return this.delegate.set(key, value);
   }
 
@@ -97,6 +105,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
           }
           try {
             const existing = await this.delegate.get(key);
+            // A withdrawal during the read has already erased the cookie.
+            if (consentGate.manager.getStatus() !== 'granted') {
+              return;
+            }
             const merged =
               typeof value === 'string'
                 ? (mergeIdentityCookieJson(
-- 
2.43.0


From 7b14e502a8e278df65db417e9fe1721f83a068ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 17/46] fix: impressions held back past a grant are discarded
 when consent is then withdrawn

---
 .../src/consent/consent-impression-buffer.ts              | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-impression-buffer.ts b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
index 918a36e..7ec7a9b 100644
--- a/packages/experiment-tag/src/consent/consent-impression-buffer.ts
+++ b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
@@ -7,9 +7,9 @@ import type {
 import type { ImpressionBufferDebugInfo } from '../types/debug';
 
 import {
+  consentGate,
   isConsentPending,
   isConsentWithheld,
-  onConsentDecision,
 } from './consent-gate';
 
 /** Matches the cap on the SDK's own PersistentTrackingQueue. */
@@ -83,8 +83,10 @@ class ImpressionBuffer {
       return;
     }
     this.flushArmed = true;
-    onConsentDecision((granted) => {
-      if (granted) {
+    // Not just the first decision: impressions the integration has yet to take
+    // outlive the grant, and consent withdrawn by then discards them too.
+    consentGate.manager.onChange((status) => {
+      if (status === 'granted') {
         this.flush();
       } else {
         this.discardBuffered();
-- 
2.43.0


From 5b0c6d4a980a5b7540749994f1d9fb015db020cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 18/46] fix: an element_visible trigger without a ratio fires
 when the element comes into view, not while it is off screen

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..1cc96a3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -716,7 +716,9 @@ export class SubscriptionManager {
           const observer = new IntersectionObserver(
             (entries) => {
               entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
+                const isVisible =
+                  entry.isIntersecting &&
+                  entry.intersectionRatio >= visibilityRatio;
 
                 // Update visibility state
                 this.elementVisibilityState.set(observerKey, isVisible);
-- 
2.43.0


From 9a6660a43abfd81f70946ecc89232356c2d79353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 19/46] fix: element_visible and scrolled_to triggers fire
 after a URL change for elements that are already in view

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 1cc96a3..c1b5d47 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -532,6 +532,11 @@ export class SubscriptionManager {
 
     this.setupTimeOnPagePublisher();
 
+    // An observer only reports changes: forget what it observes, so that the
+    // check below observes elements already in view afresh
+    this.intersectionObservers.forEach((observer) => observer.disconnect());
+    this.scrolledToObservers.forEach((observer) => observer.disconnect());
+
     // Trigger initial check for elements that already exist on new page
     this.checkInitialElements();
   };
-- 
2.43.0


From 15fc3d453d2b7d5224dcd9472c368758af80cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 20/46] fix: a user interaction counts for every trigger whose
 selector matches, not only the first

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index c1b5d47..b686862 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -973,7 +973,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1043,7 +1042,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1075,7 +1073,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From ebf812575d0b58acb60f601fb289d41b9111a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 21/46] fix: a hover or focus begun before a URL change does
 not count on the new URL

---
 .../src/subscriptions/subscriptions.ts        | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index b686862..34d6ddf 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -80,14 +80,14 @@ export class SubscriptionManager {
     {};
   private firedUserInteractions: Set<string> = new Set();
   private clickTimeouts: Map<string, ReturnType<typeof setTimeout>> = new Map();
-  private hoverTimeouts: WeakMap<
+  private hoverTimeouts: Map<
     Element,
     Map<string, ReturnType<typeof setTimeout>>
-  > = new WeakMap();
-  private focusTimeouts: WeakMap<
+  > = new Map();
+  private focusTimeouts: Map<
     Element,
     Map<string, ReturnType<typeof setTimeout>>
-  > = new WeakMap();
+  > = new Map();
   private userInteractionAbortController: AbortController | null = null;
   private pageLoadTime: number = Number.POSITIVE_INFINITY;
   private lastPublishedUrl: string | null = null;
@@ -521,6 +521,16 @@ export class SubscriptionManager {
     }
     this.clickTimeouts.clear();
 
+    // Clear pending hover and focus timeouts
+    for (const storage of [this.hoverTimeouts, this.focusTimeouts]) {
+      for (const timeoutMap of storage.values()) {
+        for (const timeout of timeoutMap.values()) {
+          this.globalScope.clearTimeout(timeout);
+        }
+      }
+      storage.clear();
+    }
+
     // Deactivate all non-url_change pages since their trigger states were reset
     for (const [experiment, pages] of Object.entries(this.pageObjects)) {
       for (const page of Object.values(pages)) {
@@ -990,10 +1000,7 @@ export class SubscriptionManager {
       interactionType: 'hover' | 'focus';
       startEvent: string;
       endEvent: string;
-      timeoutStorage: WeakMap<
-        Element,
-        Map<string, ReturnType<typeof setTimeout>>
-      >;
+      timeoutStorage: Map<Element, Map<string, ReturnType<typeof setTimeout>>>;
     },
   ) => {
     const startHandler = (event: Event) => {
-- 
2.43.0


From f317d9b3bcc3bc62af92ea4651b6392a379a45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 22/46] fix: showing a tab that loaded or navigated in the
 background restarts its time_on_page timers instead of adding a second set

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 34d6ddf..c4baa11 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1144,6 +1144,8 @@ export class SubscriptionManager {
 
   private setUpTimeouts = (durations: Set<number>) => {
     durations.forEach((durationMs) => {
+      // a timer started while the tab was hidden is still running
+      clearTimeout(this.timeOnPageTimeouts[durationMs]);
       this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
         this.messageBus.publish('time_on_page', { durationMs });
         delete this.timeOnPageTimeouts[durationMs];
-- 
2.43.0


From 7e01a5c89690db7c02558dff816a942bb206667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 23/46] fix: an injection is reverted when the pages of its
 scope are no longer active

---
 packages/experiment-tag/src/experiment.ts | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..82651ac 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1698,19 +1698,32 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action.data.scope)) {
+      // Revert and delete the injection if it exists
+      const variantMap = this.appliedMutations[flagKey];
+      const injections = variantMap?.[variantKey]?.[INJECT_ACTION];
+      if (injections?.[id]) {
+        injections[id].revert();
+        delete injections[id];
+        if (Object.keys(injections).length === 0) {
+          delete variantMap[variantKey][INJECT_ACTION];
+        }
+        if (Object.keys(variantMap[variantKey]).length === 0) {
+          delete variantMap[variantKey];
+        }
+        if (Object.keys(variantMap).length === 0) {
+          delete this.appliedMutations[flagKey];
+        }
+      }
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
-- 
2.43.0


From f602ee5badc16ed40d2369d7875684e39493b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 24/46] fix: a redirect impression is neither tracked again nor
 dropped while another one is still to be tracked

---
 packages/experiment-tag/src/experiment.ts | 56 +++++++++++++++++++----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 82651ac..21c8ba7 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -302,6 +302,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   // a redirect is in-flight — location.replace() doesn't suspend painting, so
   // tearing the overlay down before the navigation commits flashes the source page.
   public isRedirecting = false;
+  // redirect impressions waiting to be tracked although no URL matched them
+  private unmatchedRedirectImpressions: Record<
+    string,
+    StoredRedirectImpression
+  > = {};
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
   private readonly messageBus: MessageBus;
@@ -1950,6 +1955,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
       try {
         cookieImpressions = (await cookieStorage.get(storageKey)) || {};
@@ -1976,6 +1982,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
+    const matched: string[] = [];
     for (const flagKey in merged) {
       const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
       if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
@@ -1985,37 +1992,70 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           true,
         );
         delete merged[flagKey];
+        delete this.unmatchedRedirectImpressions[flagKey];
+        matched.push(flagKey);
       }
     }
 
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
+    // Remove only what was tracked: the rest is still to be tracked, and
+    // another redirect may have stored its impression in the meantime
+    const cleanup = async (flagKeys: string[]) => {
+      const without = (impressions: Record<string, StoredRedirectImpression>) =>
+        Object.fromEntries(
+          Object.entries(impressions).filter(
+            ([key]) => !flagKeys.includes(key),
+          ),
+        );
+      const inSession = without(
+        getStorageItem<Record<string, StoredRedirectImpression>>(
+          'sessionStorage',
+          storageKey,
+        ) || {},
+      );
+      if (Object.keys(inSession).length > 0) {
+        setStorageItem('sessionStorage', storageKey, inSession);
+      } else {
+        removeStorageItem('sessionStorage', storageKey);
+      }
       if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
+        try {
+          const inCookie = without((await cookieStorage.get(storageKey)) || {});
+          if (Object.keys(inCookie).length > 0) {
+            await cookieStorage.set(storageKey, inCookie);
+          } else {
+            await cookieStorage.remove(storageKey);
+          }
+        } catch (error) {
           console.error(
             `Failed to remove redirect impressions from cookie ${storageKey}:`,
             error,
           );
-        });
+        }
       }
     };
 
     if (Object.keys(merged).length > 0) {
+      Object.assign(this.unmatchedRedirectImpressions, merged);
       this.globalScope.setTimeout(() => {
         void (async () => {
-          for (const flagKey in merged) {
+          const flagKeys = Object.keys(merged).filter(
+            (flagKey) => flagKey in this.unmatchedRedirectImpressions,
+          );
+          for (const flagKey of flagKeys) {
             const { variantKey, expKey, metadata } = merged[flagKey];
+            delete this.unmatchedRedirectImpressions[flagKey];
             this.exposureWithDedupe(
               flagKey,
               { key: variantKey, expKey, metadata },
               true,
             );
           }
-          await cleanup();
+          await cleanup(flagKeys);
         })();
       }, 500);
-    } else {
-      await cleanup();
+    }
+    if (matched.length > 0) {
+      await cleanup(matched);
     }
   }
 
-- 
2.43.0


From ec53dc34b5b99dfcb170d9fd3c93ba68751de7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 25/46] fix: a redirect whose impression holds characters
 beyond Latin-1 is carried in the URL instead of failing

---
 packages/experiment-tag/src/experiment.ts | 3 ++-
 packages/experiment-tag/src/util/url.ts   | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 21c8ba7..a3f0e47 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -94,6 +94,7 @@ import {
   urlWithoutQuery,
   concatenateQueryParamsOf,
   matchesUrl,
+  toAsciiJson,
 } from './util/url';
 import { UUID } from './util/uuid';
 import { convertEvaluationVariantToVariant } from './util/variant';
@@ -1414,7 +1415,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        btoa(toAsciiJson(urlPayload)),
       );
       targetUrl = targetUrlObj.toString();
     }
diff --git a/packages/experiment-tag/src/util/url.ts b/packages/experiment-tag/src/util/url.ts
index 666d220..4344fb8 100644
--- a/packages/experiment-tag/src/util/url.ts
+++ b/packages/experiment-tag/src/util/url.ts
@@ -83,6 +83,15 @@ export const matchesUrl = (urlArray: string[], urlString: string): boolean => {
   });
 };
 
+/**
+ * JSON with everything beyond ASCII escaped, as `btoa` takes Latin-1 only.
+ */
+export const toAsciiJson = (value: unknown): string =>
+  JSON.stringify(value).replace(
+    /[\u0080-\uffff]/g,
+    (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'),
+  );
+
 export const concatenateQueryParamsOf = (
   currentUrl: string,
   redirectUrl: string,
-- 
2.43.0


From 76bb493872b4384ce176b668762f9b263a60e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 26/46] fix: recorded behavioral events do not change with the
 caller's properties object

---
 .../src/behavioral-targeting/event-storage.ts    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..4d0ff11 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -38,6 +38,20 @@ function generateEventUuid(): string {
   });
 }
 
+/**
+ * Copies event properties in the form they are persisted in, so that a caller
+ * who keeps and changes the object it tracked with cannot rewrite history.
+ */
+function copyProperties(
+  properties: Record<string, unknown>,
+): Record<string, unknown> {
+  try {
+    return JSON.parse(JSON.stringify(properties));
+  } catch {
+    return { ...properties };
+  }
+}
+
 /**
  * Represents a stored event record.
  */
@@ -126,7 +140,7 @@ export class EventStorageManager {
       event_type: eventType,
       timestamp: eventTime ?? Date.now(),
       session_id: sessionId,
-      properties,
+      properties: copyProperties(properties),
     };
 
     this.memoryCache.events.push(event);
-- 
2.43.0


From 7a2bffc071717d3e5dc78638cabfe03f0ea04232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 27/46] fix: behavioral events recorded before or during a
 refusal are not persisted by a re-grant

---
 .../src/behavioral-targeting/event-storage.ts | 67 ++++++++++---------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 4d0ff11..3527bd6 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -1,10 +1,6 @@
 import { getGlobalScope } from '@amplitude/experiment-core';
 
-import {
-  isConsentPending,
-  isConsentWithheld,
-  onConsentDecision,
-} from '../consent/consent-gate';
+import { consentGate, isConsentWithheld } from '../consent/consent-gate';
 import { getStorageItem, setStorageItem } from '../util/storage';
 
 import { RelayClient } from './relay-client';
@@ -93,6 +89,7 @@ export class EventStorageManager {
   private persistedEvents?: Set<string>; // Optional set of event types to persist
   private storageKey: string;
   private relayClient: RelayClient | null = null;
+  private disarmConsentListener: (() => void) | null = null;
 
   constructor(
     apiKey: string,
@@ -108,8 +105,9 @@ export class EventStorageManager {
 
     // Under pending the load above was gated to empty, so the cache no longer
     // reflects the device. Arm the decision listener now — not on first write —
-    // so a grant reconciles the two even if it arrives before any event.
-    if (isConsentPending()) {
+    // so a grant reconciles the two even if it arrives before any event, and so
+    // a later refusal is not missed.
+    if (consentGate.required) {
       this.armConsentListener();
     }
 
@@ -425,34 +423,39 @@ export class EventStorageManager {
   }
 
   /**
-   * Settles the pending window on the consent decision. The gated load at
-   * construction hid whatever an earlier consented visit stored, so a grant
-   * folds the device store back into memory (uuid-dedup via `mergeFromRelay`)
-   * and persists the union before any later write-through could replace it.
-   * Refusal drops the pending-window events so they cannot reach the device
-   * through a later re-grant.
+   * Settles the cache on every consent decision. The gated load at construction
+   * hid whatever an earlier consented visit stored, so the first grant folds the
+   * device store back into memory (uuid-dedup via `mergeFromRelay`) and persists
+   * the union before any later write-through could replace it. Refusal drops the
+   * events held so far, and a re-grant those recorded while consent was refused,
+   * so neither can reach the device through the re-grant.
    */
   private armConsentListener(): void {
-    onConsentDecision((granted) => {
-      if (granted) {
-        const device = this.loadFromLocalStorage();
-        if (
-          device.events.length === 0 &&
-          this.memoryCache.events.length === 0
-        ) {
+    this.disarmConsentListener = consentGate.manager.onChange(
+      (status, previous) => {
+        if (status === 'granted' && previous === 'pending') {
+          const device = this.loadFromLocalStorage();
+          if (
+            device.events.length === 0 &&
+            this.memoryCache.events.length === 0
+          ) {
+            return;
+          }
+          this.mergeFromRelay(device);
+          this.flushToLocalStorage();
           return;
         }
-        this.mergeFromRelay(device);
-        this.flushToLocalStorage();
-        return;
-      }
-      this.memoryCache = { events: [], nextId: 1 };
-      this.hasPendingWrites = false;
-      if (this.debouncedWriteTimeout) {
-        clearTimeout(this.debouncedWriteTimeout);
-        this.debouncedWriteTimeout = null;
-      }
-    });
+        this.memoryCache = { events: [], nextId: 1 };
+        this.hasPendingWrites = false;
+        if (this.debouncedWriteTimeout) {
+          clearTimeout(this.debouncedWriteTimeout);
+          this.debouncedWriteTimeout = null;
+        }
+        if (status === 'granted') {
+          this.memoryCache = this.loadFromLocalStorage();
+        }
+      },
+    );
   }
 
   /**
@@ -493,6 +496,8 @@ export class EventStorageManager {
    * Should be called when EventStorageManager is no longer needed.
    */
   cleanup(): void {
+    this.disarmConsentListener?.();
+
     // Flush any pending writes
     this.flushToLocalStorage();
     this.flushRelay();
-- 
2.43.0


From b816761895046a489b1155c61d9196e12dce2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 28/46] fix: nothing is sent to the relay while consent is
 withheld

---
 .../src/behavioral-targeting/event-storage.ts          |  9 +++++++++
 packages/experiment-tag/src/experiment.ts              | 10 ++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 3527bd6..944f5f4 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -219,6 +219,9 @@ export class EventStorageManager {
         return false;
       }
       const migrated = await relay.checkMigrated(origin);
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // First-time origins migrate their local store in bulk (one RPC). The
       // backfill below then reconciles anything the bulk push dropped.
@@ -230,6 +233,9 @@ export class EventStorageManager {
       }
 
       const relayStore = await relay.readEvents();
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // Backfill any local events the relay is missing, regardless of migrated
       // state. Both MIGRATE_EVENTS and the store dedupe on uuid, so this is a
@@ -445,6 +451,9 @@ export class EventStorageManager {
           this.flushToLocalStorage();
           return;
         }
+        // The relay keeps its copy on the device too, and is given no more.
+        this.relayClient?.destroy();
+        this.relayClient = null;
         this.memoryCache = { events: [], nextId: 1 };
         this.hasPendingWrites = false;
         if (this.debouncedWriteTimeout) {
diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index a3f0e47..d51dac3 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -28,7 +28,7 @@ import {
   type AsyncCookieStore,
   createCookieStorage,
 } from './consent/consent-cookie-storage';
-import { consentGate } from './consent/consent-gate';
+import { consentGate, isConsentWithheld } from './consent/consent-gate';
 import { wrapIntegrationTrack } from './consent/consent-impression-buffer';
 import { showPreviewModeModal } from './preview/preview';
 import { MessageBus } from './subscriptions/message-bus';
@@ -991,7 +991,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // Previewed flags are excluded from the relay re-apply
     // (reapplyVariantsAfterRelaySync) and from applyVariants directly, so
     // forced preview variants are never clobbered.
-    if (!this.behavioralTargetingManager || this.isVisualEditorMode) {
+    // The relay stores on the device as well, so a refusal that arrived while
+    // starting keeps it out.
+    if (
+      !this.behavioralTargetingManager ||
+      this.isVisualEditorMode ||
+      isConsentWithheld()
+    ) {
       return;
     }
 
-- 
2.43.0


From 6134e2b14144271da5050c28001afd2e9f2a8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 29/46] fix: variants follow behaviors that stop matching after
 a navigation, at startup or in a burst of events

---
 packages/experiment-tag/src/experiment.ts     |  7 ++--
 .../src/subscriptions/subscriptions.ts        | 34 +++++++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index d51dac3..a23f22b 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1097,10 +1097,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (!this.behavioralTargetingManager) {
       return;
     }
+    const matchedBehaviors =
+      this.behavioralTargetingManager.getMatchedBehaviors();
+    this.subscriptionManager?.markBehaviorsNotified(matchedBehaviors);
     const behaviorIds: string[] = [];
-    for (const behaviorSet of this.behavioralTargetingManager
-      .getMatchedBehaviors()
-      .values()) {
+    for (const behaviorSet of matchedBehaviors.values()) {
       behaviorIds.push(...behaviorSet);
     }
 
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index c4baa11..87971e2 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -399,13 +399,12 @@ export class SubscriptionManager {
           // Get current behavioral state and check if it changed
           const activeBehavioralFlags =
             this.webExperimentClient.behavioralTargetingManager?.getMatchedBehaviors();
+          const previousBehavioralFlags =
+            this.lastNotifiedActiveBehavioralFlags;
 
           const behaviorsChanged =
             isAnalyticsEvent &&
-            !areBehaviorsEqual(
-              activeBehavioralFlags,
-              this.lastNotifiedActiveBehavioralFlags,
-            );
+            !areBehaviorsEqual(activeBehavioralFlags, previousBehavioralFlags);
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
@@ -432,9 +431,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(previousBehavioralFlags.keys()),
                     ]),
                   )
                 : [];
@@ -479,20 +476,24 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
   };
 
+  /**
+   * Records the matched behaviors the user was last updated with, which later
+   * changes are measured against.
+   */
+  public markBehaviorsNotified = (matched: Map<string, Set<string>>): void => {
+    this.lastNotifiedActiveBehavioralFlags = new Map(
+      Array.from(matched.entries()).map(([key, value]) => [
+        key,
+        new Set(value),
+      ]),
+    );
+  };
+
   public toggleManualPageObject = (page: string, isActive: boolean): void => {
     if (isActive) {
       this.manuallyActivatedPageObjects.add(page);
@@ -513,7 +514,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From 666684d404964bff157b85fd40889ec266d697c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 30/46] fix: variants follow behaviors that an event matched
 while the relay merge was under way

---
 .../src/behavioral-targeting/behavioral-targeting-manager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
index 3a39154..27a7285 100644
--- a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
@@ -79,8 +79,6 @@ export class BehavioralTargetingManager {
   public async beginRelaySync(
     relayClient: RelayClient,
   ): Promise<RelaySyncResult> {
-    const behaviorsBefore = this.serializeMatchedBehaviors();
-
     await relayClient.init();
     if (!relayClient.relayAvailable) {
       await relayClient.waitForAvailable();
@@ -94,6 +92,9 @@ export class BehavioralTargetingManager {
       return { status: 'sync_failed' };
     }
 
+    // Compared with what is matched now: events may have been tracked (and their
+    // variants applied) while the sync was under way.
+    const behaviorsBefore = this.serializeMatchedBehaviors();
     this.evaluateAll();
     return behaviorsBefore !== this.serializeMatchedBehaviors()
       ? { status: 'behaviors_changed' }
-- 
2.43.0


From f67aced295da2567f8db3d9785b68768c929d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 31/46] fix: an invalid relayUrl leaves the relay out instead
 of failing the start

---
 packages/experiment-tag/src/experiment.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index a23f22b..fca7d3a 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1012,11 +1012,18 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // tracking that also covers reapplyVariantsAfterRelaySync's awaits — a
     // guard checked only here would leave the re-apply fetch/apply tail
     // unguarded.
-    const relayClient = new RelayClient(
-      this.apiKey,
-      webExpIdV2,
-      getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
-    );
+    let relayClient: RelayClient;
+    try {
+      relayClient = new RelayClient(
+        this.apiKey,
+        webExpIdV2,
+        getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
+      );
+    } catch (error) {
+      // A relayUrl that is no URL leaves the relay out, not the experiments.
+      console.warn('Experiment relay is unavailable:', error);
+      return;
+    }
     this.relayClient = relayClient;
 
     void this.behavioralTargetingManager
-- 
2.43.0


From 52c4aafbf29cb38840b19d273e19c2a485ed24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 32/46] fix: one preview notice at a time, however many flags
 ask for it

---
 packages/experiment-tag/src/preview/preview.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..7662b25 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,12 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // another notice may have been shown since (one is asked for per flag)
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From bee50994481d941b41d2e1b60334c5a9f5c78d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 33/46] fix: preview state without flags in the session no
 longer stops the client from starting

---
 packages/experiment-tag/src/experiment.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index fca7d3a..67e4163 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2105,7 +2105,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'sessionStorage',
         PREVIEW_MODE_SESSION_KEY,
       );
-      if (previewState) {
+      if (previewState?.previewFlags) {
         this.previewFlags = previewState.previewFlags;
       }
     }
-- 
2.43.0


From f5961b2ddceedc3468bf3c1b9fb55367c839a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 34/46] fix: the visual editor is loaded once when its tab
 opens a preview link

---
 packages/experiment-tag/src/experiment.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 67e4163..9e4bbcc 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2098,8 +2098,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           previewParamsToRemove,
         ),
       );
-      // if in preview mode, listen for ForceVariant messages
-      WindowMessenger.setup();
+      // if in preview mode, listen for ForceVariant messages (in visual editor
+      // mode, start() sets up the channel itself)
+      if (!this.isVisualEditorMode) {
+        WindowMessenger.setup();
+      }
     } else {
       const previewState: PreviewState | null = getStorageItem(
         'sessionStorage',
-- 
2.43.0


From 292be3a0e87ec5aafc2ee3f713790334e18ee5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 35/46] fix: cookie values with an equals sign and parameters
 named like object members can be targeted

---
 packages/experiment-browser/src/providers/default.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..df19b32 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -80,7 +80,11 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
+      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+        // Values may contain the separator as well.
+        const [name, ...value] = c.split('=');
+        return value.length > 0 ? [name, value.join('=')] : [name];
+      }),
     );
   }
 
@@ -122,7 +126,8 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
 
-    const params: Record<string, string[]> = {};
+    // No prototype, as a parameter may have the name of one of its members.
+    const params: Record<string, string[]> = Object.create(null);
 
     try {
       const url = new URL(this.globalScope.location.href);
-- 
2.43.0


From d0a9e14853cbb053715fab597ea95a535c45fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:44 +0000
Subject: [PATCH 36/46] fix: injected elements are put before a child of their
 parent, not before what lies deeper inside

---
 packages/experiment-tag/src/util/inject-utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..f59b49d 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -112,8 +112,11 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           if (!parent) {
             return;
           }
+          // Only a child of the parent can be inserted before.
           const sibling = options.insertBeforeSelector
-            ? parent.querySelector(options.insertBeforeSelector)
+            ? Array.from(
+                parent.querySelectorAll(options.insertBeforeSelector),
+              ).find((e) => e.parentNode === parent) ?? null
             : null;
 
           if (options.insertBeforeSelector && !sibling) {
-- 
2.43.0


From 924886c7faeb9ba37d5772a21a0312ea15a60c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:36 +0000
Subject: [PATCH 37/46] fix: an element is injected on a page that changes
 often, and again after it was removed often

---
 packages/experiment-tag/src/util/inject-utils.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index f59b49d..8f176a1 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -102,12 +102,6 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return; // element was already inserted
           }
 
-          if (rateLimit >= 10) {
-            return;
-          }
-          rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
-
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -124,6 +118,16 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return;
           }
 
+          // Limit the rate of insertions, and check again once there is room.
+          if (rateLimit >= 10) {
+            return;
+          }
+          rateLimit++;
+          setTimeout(() => {
+            rateLimit--;
+            checkElementInserted();
+          }, 1000);
+
           pauseGlobalObserver();
           parent.insertBefore(element, sibling);
           resumeGlobalObserver();
-- 
2.43.0


From ded19515db4fcd46ec160b2d1ffcf4f5edef82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 38/46] fix: a variant's clean-up code that fails does not keep
 the rest from being reverted

---
 packages/experiment-tag/src/experiment.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 9e4bbcc..1bd280e 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1804,7 +1804,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {
       revert: () => {
         state.cancelled = true;
-        utils.remove?.();
+        try {
+          utils.remove?.();
+        } catch (e) {
+          console.error(
+            `Experiment inject clean-up failed for ${flagKey} variant ${
+              variant.key ?? ''
+            }. Reason:`,
+            e,
+          );
+        }
         sheetHandle?.revert();
         script?.remove();
         this.appliedInjections.delete(id);
-- 
2.43.0


From 51fa6cdf6c53704eccab45b1dff56c593b963da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 39/46] fix: flags which do not exist are not found by the
 names of members every object inherits

---
 packages/experiment-browser/src/experimentClient.ts      | 9 +++++----
 packages/experiment-browser/src/storage/cache.ts         | 3 ++-
 packages/experiment-browser/src/util/index.ts            | 7 +++++++
 .../experiment-core/src/evaluation/topological-sort.ts   | 5 ++++-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 96b84ad..06288b8 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -51,6 +51,7 @@ import { Storage } from './types/storage';
 import { ExperimentUser } from './types/user';
 import { Variant, Variants } from './types/variant';
 import {
+  getOwn,
   filterNullUndefined,
   isLocalEvaluationMode,
   isNullOrUndefined,
@@ -558,7 +559,7 @@ export class ExperimentClient implements Client {
   ): SourceVariant {
     let defaultSourceVariant: SourceVariant = {};
     // Local evaluation
-    const variant = this.evaluate([flag.key])[key];
+    const variant = getOwn(this.evaluate([flag.key]), key);
     const source = VariantSource.LocalEvaluation;
     const isLocalEvaluationDefault = variant?.metadata?.default as boolean;
     if (!isNullOrUndefined(variant) && !isLocalEvaluationDefault) {
@@ -583,7 +584,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = getOwn(this.config.initialVariants, key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -645,7 +646,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = getOwn(this.config.initialVariants, key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -682,7 +683,7 @@ export class ExperimentClient implements Client {
   ): SourceVariant {
     let defaultSourceVariant: SourceVariant = {};
     // Initial variants
-    const initialVariantsVariant = this.config.initialVariants[key];
+    const initialVariantsVariant = getOwn(this.config.initialVariants, key);
     if (!isNullOrUndefined(initialVariantsVariant)) {
       return {
         variant: convertVariant(initialVariantsVariant),
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 0759d0e..5af1519 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -2,6 +2,7 @@ import { EvaluationFlag, GetVariantsOptions } from '@amplitude/experiment-core';
 
 import { Storage } from '../types/storage';
 import { Variant } from '../types/variant';
+import { getOwn } from '../util';
 
 import { LocalStorage } from './local-storage';
 
@@ -92,7 +93,7 @@ export class LoadStoreCache<V> {
   }
 
   public get(key: string): V | undefined {
-    return this.cache[key];
+    return getOwn(this.cache, key);
   }
 
   public getAll(): Record<string, V> {
diff --git a/packages/experiment-browser/src/util/index.ts b/packages/experiment-browser/src/util/index.ts
index 423c7cf..be61635 100644
--- a/packages/experiment-browser/src/util/index.ts
+++ b/packages/experiment-browser/src/util/index.ts
@@ -9,6 +9,13 @@ export const isNullUndefinedOrEmpty = (value: unknown): boolean => {
   return value && Object.keys(value).length === 0;
 };
 
+/**
+ * The value an object holds under a key. Unlike an index access, this is
+ * undefined for the names of members which every object inherits.
+ */
+export const getOwn = <V>(obj: Record<string, V>, key: string): V | undefined =>
+  Object.prototype.hasOwnProperty.call(obj, key) ? obj[key] : undefined;
+
 /**
  * Filters out null and undefined values from an object, returning a new object
  * with only defined values. This is useful for config merging where you want
diff --git a/packages/experiment-core/src/evaluation/topological-sort.ts b/packages/experiment-core/src/evaluation/topological-sort.ts
index 7003320..f070624 100644
--- a/packages/experiment-core/src/evaluation/topological-sort.ts
+++ b/packages/experiment-core/src/evaluation/topological-sort.ts
@@ -21,7 +21,10 @@ const parentTraversal = (
   available: Record<string, EvaluationFlag>,
   path: string[] = [],
 ): EvaluationFlag[] | undefined => {
-  const flag = available[flagKey];
+  // A flag may be named like a member which every object inherits.
+  const flag = Object.prototype.hasOwnProperty.call(available, flagKey)
+    ? available[flagKey]
+    : undefined;
   if (!flag) {
     return undefined;
   } else if (!flag.dependencies || flag.dependencies.length === 0) {
-- 
2.43.0


From 72b9c7e5d1984bc350071a9edcd223c9a5b87a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:48 +0000
Subject: [PATCH 40/46] fix: a property which is not set is not taken from the
 members every object inherits

---
 packages/experiment-core/src/evaluation/select.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/select.ts b/packages/experiment-core/src/evaluation/select.ts
index 804e6c0..667487e 100644
--- a/packages/experiment-core/src/evaluation/select.ts
+++ b/packages/experiment-core/src/evaluation/select.ts
@@ -9,7 +9,13 @@ export const select = (
     if (!selectorElement || !selectable || typeof selectable !== 'object') {
       return undefined;
     }
-    selectable = (selectable as Record<string, unknown>)[selectorElement];
+    // Names of members which every object inherits select nothing.
+    selectable = Object.prototype.hasOwnProperty.call(
+      selectable,
+      selectorElement,
+    )
+      ? (selectable as Record<string, unknown>)[selectorElement]
+      : undefined;
   }
   if (selectable === undefined || selectable === null) {
     return undefined;
-- 
2.43.0


From f73b4412a93db2b087edfa8b651d8e66257b7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 41/46] fix: a click the site cancelled does not follow a link
 changed by a variant

---
 packages/experiment-tag/src/util/spa-link-interceptor.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/experiment-tag/src/util/spa-link-interceptor.ts b/packages/experiment-tag/src/util/spa-link-interceptor.ts
index 60a1956..7cd312f 100644
--- a/packages/experiment-tag/src/util/spa-link-interceptor.ts
+++ b/packages/experiment-tag/src/util/spa-link-interceptor.ts
@@ -59,6 +59,10 @@ export function installSpaLinkInterceptor() {
   globalScope[initFlag] = true;
 
   const handler = (e: MouseEvent) => {
+    // the site has already cancelled this click
+    if (e.defaultPrevented) {
+      return;
+    }
     const eventTarget = e.target;
     if (!(eventTarget instanceof Element)) {
       return;
-- 
2.43.0


From a784035d2526abd3a0670d4aa58bd318979244c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 42/46] fix: element_visible stays active while any matching
 element is visible

---
 .../src/subscriptions/subscriptions.ts              | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 87971e2..0915d38 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -727,6 +727,9 @@ export class SubscriptionManager {
             continue;
           }
 
+          // The selector may match several elements, any of which can be visible
+          const visibleElements = new Set<Element>();
+
           // Create IntersectionObserver for this threshold
           const observer = new IntersectionObserver(
             (entries) => {
@@ -734,9 +737,17 @@ export class SubscriptionManager {
                 const isVisible =
                   entry.isIntersecting &&
                   entry.intersectionRatio >= visibilityRatio;
+                if (isVisible) {
+                  visibleElements.add(entry.target);
+                } else {
+                  visibleElements.delete(entry.target);
+                }
 
                 // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
+                this.elementVisibilityState.set(
+                  observerKey,
+                  visibleElements.size > 0,
+                );
 
                 // Publish event when element becomes visible
                 // Observer continues running; state check prevents duplicate firing
-- 
2.43.0


From 0c73da2195fb98761b3cd79f4bf3dae3e27e39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 43/46] fix: the editor parameter does not come back with the
 mobile shell's frame

---
 packages/experiment-tag/src/experiment.ts | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 1bd280e..bbe45bc 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -526,14 +526,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
       DebugRecorder.push('opener_check', 'PASS');
 
-      if (isMobileModeActive()) {
-        // In mobile mode, build the shell first and load the overlay after.
-        // The overlay must render into the already-built shell to avoid a
-        // race where buildShell restructures the DOM while the overlay's
-        // React 18 concurrent render is in-flight.
-        await buildShell(this.globalScope);
-      }
-      WindowMessenger.setup();
+      // before the shell, which frames the current address
       this.globalScope.history.replaceState(
         {},
         '',
@@ -545,6 +538,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'url_param_removed',
         `cleaned URL: ${this.globalScope.location.href}`,
       );
+      if (isMobileModeActive()) {
+        // In mobile mode, build the shell first and load the overlay after.
+        // The overlay must render into the already-built shell to avoid a
+        // race where buildShell restructures the DOM while the overlay's
+        // React 18 concurrent render is in-flight.
+        await buildShell(this.globalScope);
+      }
+      WindowMessenger.setup();
       // fire url_change upon landing on page, set updateActivePagesOnly to not trigger variant actions
       this.subscriptionManager.markUrlAsPublished(
         this.globalScope.location.href,
-- 
2.43.0


From f7f1d623079585c5e2361d571e26766a0c1b05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 44/46] fix: an analytics provider without user property
 methods does not make variant access throw

---
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 7de14ea..23e0919 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -36,7 +36,7 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
     if (this.setProperties[event.key] == event.variant.value) {
       return;
     }
-    this.analyticsProvider.setUserProperty(event);
+    this.analyticsProvider.setUserProperty?.(event);
   }
 
   unsetUserProperty?(event: ExperimentAnalyticsEvent): void {
@@ -46,6 +46,6 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
       this.unsetProperties[event.key] = 'unset';
       delete this.setProperties[event.key];
     }
-    this.analyticsProvider.unsetUserProperty(event);
+    this.analyticsProvider.unsetUserProperty?.(event);
   }
 }
-- 
2.43.0


From c9c3c989aec12285264700a213ea9848edd852fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:47 +0000
Subject: [PATCH 45/46] fix: a flag named like an inherited member is reported
 unset to the analytics provider

---
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 23e0919..0990ccc 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -3,6 +3,8 @@ import {
   ExperimentAnalyticsProvider,
 } from '../types/analytics';
 
+import { getOwn } from '.';
+
 /**
  * A wrapper for an analytics provider which only sends one exposure event per
  * flag, per variant, per session. In other words, wrapping an analytics
@@ -40,7 +42,7 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
   }
 
   unsetUserProperty?(event: ExperimentAnalyticsEvent): void {
-    if (this.unsetProperties[event.key]) {
+    if (getOwn(this.unsetProperties, event.key)) {
       return;
     } else {
       this.unsetProperties[event.key] = 'unset';
-- 
2.43.0


From 5e30f20b39549a805e6dc454509704ec25eba4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:38 +0000
Subject: [PATCH 46/46] fix: identities handed out by the identity store, or
 given to it, can be changed without changing the store

---
 packages/analytics-connector/src/identityStore.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 721df0a..3f4ce93 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -45,6 +45,14 @@ export interface IdentityEditor {
   commit(): void;
 }
 
+const copyIdentity = (identity: Identity): Identity => {
+  const copy = { ...identity };
+  if (identity.userProperties) {
+    copy.userProperties = { ...identity.userProperties };
+  }
+  return copy;
+};
+
 export class IdentityStoreImpl implements IdentityStore {
   private identity: Identity = { userProperties: {} };
   private listeners = new Set<IdentityListener>();
@@ -113,15 +121,15 @@ export class IdentityStoreImpl implements IdentityStore {
   }
 
   getIdentity(): Identity {
-    return { ...this.identity };
+    return copyIdentity(this.identity);
   }
 
   setIdentity(identity: Identity): void {
     const originalIdentity = { ...this.identity };
-    this.identity = { ...identity };
+    this.identity = copyIdentity(identity);
     if (!isEqual(originalIdentity, this.identity)) {
       this.listeners.forEach((listener) => {
-        listener(identity);
+        listener(copyIdentity(identity));
       });
     }
   }
-- 
2.43.0

