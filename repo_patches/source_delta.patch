From 26b72e3001c9e98c16707586c55ed4f97c77636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:14 +0000
Subject: [PATCH 01/46] fix: deliver scores created while a flush is in flight

flush() returned the promise of a flush already in flight, which only covers
the scores queued when it started. Scores created afterwards were not sent when
flush()/shutdown() resolved, and could stay queued without any timer.
---
 packages/client/src/score/index.ts | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..7c34a51 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -102,10 +102,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +298,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +316,19 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    // A flush in flight only covers the scores queued when it started: always
+    // drain what was queued since then, and wait for both.
+    const inFlight = this.flushPromise;
+    const flushPromise: Promise<void> = this.handleFlush()
+      .then(() => inFlight ?? undefined)
+      .then(() => {
+        if (this.flushPromise === flushPromise) {
+          this.flushPromise = null;
+        }
+      });
+    this.flushPromise = flushPromise;
+
+    return flushPromise;
   }
 
   /**
-- 
2.43.0


From 1b6a71e34bfdd05cde94698a75cdd2a9e2589397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 02/46] fix: honour an empty string as prompt fallback

A fallback of "" was treated as if no fallback had been given, so the fetch
error was thrown instead.
---
 packages/client/src/prompt/promptManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..ae4384d 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -349,7 +349,7 @@ export class PromptManager {
           fetchTimeoutMs: options?.fetchTimeoutMs,
         });
       } catch (err) {
-        if (options?.fallback) {
+        if (options?.fallback !== undefined && options.fallback !== null) {
           const sharedFallbackParams = {
             name,
             version: options?.version ?? 0,
-- 
2.43.0


From d8ab6d2b21e3df024532f205de589fc1e5b50bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:10 +0000
Subject: [PATCH 03/46] fix: do not cache prompt responses requested before an
 invalidation

A fetch or background refresh in flight while update() or delete() completed
put the old prompt back into the cache after the invalidation.
---
 packages/client/src/prompt/promptCache.ts   | 11 +++++++++++
 packages/client/src/prompt/promptManager.ts |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..46efefd 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,11 +22,13 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidationCounts: Map<string, number>;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
     this._defaultTtlSeconds = DEFAULT_PROMPT_CACHE_TTL_SECONDS;
     this._refreshingKeys = new Map<string, Promise<void>>();
+    this._invalidationCounts = new Map<string, number>();
   }
 
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
@@ -79,7 +81,16 @@ export class LangfusePromptCache {
     return this._refreshingKeys.has(key);
   }
 
+  public invalidationCount(promptName: string): number {
+    return this._invalidationCounts.get(promptName) ?? 0;
+  }
+
   public invalidate(promptName: string): void {
+    this._invalidationCounts.set(
+      promptName,
+      this.invalidationCount(promptName) + 1,
+    );
+
     getGlobalLogger().debug(
       "Invalidating cache keys for",
       promptName,
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index ae4384d..0a9c428 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -420,6 +420,7 @@ export class PromptManager {
     fetchTimeoutMs?: number;
   }): Promise<LangfusePromptClient> {
     const cacheKey = this.cache.createKey(params);
+    const invalidations = this.cache.invalidationCount(params.name);
 
     try {
       const {
@@ -450,7 +451,11 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Do not cache a response to a request sent before an invalidation: it may
+      // predate the change that caused the invalidation.
+      if (this.cache.invalidationCount(name) === invalidations) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From bc34190a39a8576af39ed938a4c156841f22ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:05 +0000
Subject: [PATCH 04/46] fix: clear the request timeout when fetch rejects

A failed connection left the timeout timer (60 s by default) running, which
kept the process alive long after the call had been rejected.
---
 .../core/src/api/core/fetcher/makeRequest.ts  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..159ddc6 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,19 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0


From 0a86932ea010bbe2b86664be3c19482af09406f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:05 +0000
Subject: [PATCH 05/46] fix: report request timeouts as timeout errors

The timeout signal was aborted with the string "timeout", with which fetch
then rejects, so timeouts surfaced as unknown errors instead of
LangfuseAPITimeoutError.
---
 packages/core/src/api/core/fetcher/signals.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..b6a2c6a 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,11 +1,11 @@
-const TIMEOUT = "timeout";
-
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  // Abort with the default reason: fetch rejects with the reason, and timeouts
+  // are recognised by their AbortError.
+  const abortId = setTimeout(() => controller.abort(), timeoutMs);
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From 18c62d1fb720a747a784fa2a82ea6815ecfb9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:05 +0000
Subject: [PATCH 06/46] fix: keep the status of error responses whose body is
 not valid JSON

A malformed JSON error body (or an empty content type with a non-JSON body)
replaced the API error by a parse error without status code or body.
---
 .../api/core/fetcher/getErrorResponseBody.ts  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 1df82fe..d5d8631 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,12 +1,11 @@
 import { fromJson } from "../json.js";
-import { getResponseBody } from "./getResponseBody.js";
 
 export async function getErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
   let contentType = response.headers.get("Content-Type")?.toLowerCase();
   if (contentType == null || contentType.length === 0) {
-    return getResponseBody(response);
+    return parseOrText(await response.text());
   }
 
   if (contentType.indexOf(";") !== -1) {
@@ -20,14 +19,14 @@ export async function getErrorResponseBody(
     case "application/vnd.api+json":
     case "text/json":
       const text = await response.text();
-      return text.length > 0 ? fromJson(text) : undefined;
+      return parseOrText(text);
     default:
       if (
         contentType.startsWith("application/vnd.") &&
         contentType.endsWith("+json")
       ) {
         const text = await response.text();
-        return text.length > 0 ? fromJson(text) : undefined;
+        return parseOrText(text);
       }
 
       // Fallback to plain text if content type is not recognized
@@ -35,3 +34,15 @@ export async function getErrorResponseBody(
       return await response.text();
   }
 }
+
+/** Keeps the raw text if the body is not the JSON its content type promises. */
+function parseOrText(text: string): unknown {
+  if (text.length === 0) {
+    return undefined;
+  }
+  try {
+    return fromJson(text);
+  } catch {
+    return text;
+  }
+}
-- 
2.43.0


From 66ad412cda0524898b03b5ce6d1191f37f761310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:39 +0000
Subject: [PATCH 07/46] fix: reject successful responses whose body is not JSON

Such a call resolved with an internal {ok: false, error} object in place of the
requested resource (which e.g. the prompt cache then stored) instead of
rejecting with the non-JSON error the callers already handle.
---
 packages/core/src/api/core/fetcher/Fetcher.ts  | 12 +++++++++++-
 .../src/api/core/fetcher/getResponseBody.ts    | 18 ++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..4086495 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -4,7 +4,7 @@ import { createRequestUrl } from "./createRequestUrl.js";
 import { getErrorResponseBody } from "./getErrorResponseBody.js";
 import { getFetchFn } from "./getFetchFn.js";
 import { getRequestBody } from "./getRequestBody.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { NonJsonBodyError, getResponseBody } from "./getResponseBody.js";
 import { makeRequest } from "./makeRequest.js";
 import {
   abortRawResponse,
@@ -152,6 +152,16 @@ export async function fetcherImpl<R = unknown>(
         },
         rawResponse: abortRawResponse,
       };
+    } else if (error instanceof NonJsonBodyError) {
+      return {
+        ok: false,
+        error: {
+          reason: "non-json",
+          statusCode: error.statusCode,
+          rawBody: error.rawBody,
+        },
+        rawResponse: unknownRawResponse,
+      };
     } else if (error instanceof Error && error.name === "AbortError") {
       return {
         ok: false,
diff --git a/packages/core/src/api/core/fetcher/getResponseBody.ts b/packages/core/src/api/core/fetcher/getResponseBody.ts
index 2a06812..cad4258 100644
--- a/packages/core/src/api/core/fetcher/getResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getResponseBody.ts
@@ -2,6 +2,15 @@ import { getBinaryResponse } from "./BinaryResponse.js";
 import { isResponseWithBody } from "./ResponseWithBody.js";
 import { fromJson } from "../json.js";
 
+export class NonJsonBodyError extends Error {
+  constructor(
+    public readonly statusCode: number,
+    public readonly rawBody: string,
+  ) {
+    super("The response body is not valid JSON");
+  }
+}
+
 export async function getResponseBody(
   response: Response,
   responseType?: string,
@@ -32,14 +41,7 @@ export async function getResponseBody(
       let responseBody = fromJson(text);
       return responseBody;
     } catch (err) {
-      return {
-        ok: false,
-        error: {
-          reason: "non-json",
-          statusCode: response.status,
-          rawBody: text,
-        },
-      };
+      throw new NonJsonBodyError(response.status, text);
     }
   }
   return undefined;
-- 
2.43.0


From 6506d16c56a34ddeeef150c8fb5dfdc90f1470e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:20 +0000
Subject: [PATCH 08/46] fix: convert {{ variable }} with inner whitespace for
 LangChain

compile() substitutes such variables, but the LangChain conversion left them as
escaped literal braces, so they were never filled in.
---
 packages/client/src/prompt/promptClients.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..7ee055b 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -94,7 +94,7 @@ abstract class BasePromptClient {
   protected _transformToLangchainVariables(content: string): string {
     const jsonEscapedContent = this.escapeJsonForLangchain(content);
 
-    return jsonEscapedContent.replace(/\{\{(\w+)\}\}/g, "{$1}");
+    return jsonEscapedContent.replace(/\{\{\s*(\w+)\s*\}\}/g, "{$1}");
   }
 
   /**
-- 
2.43.0


From 1d21976d7908e18ca052bc9f5446a603ef37432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:33 +0000
Subject: [PATCH 09/46] fix: escape nested and empty JSON objects for LangChain

Two JSON objects closing next to each other ("}}") were taken for an escaped
brace, so one closing brace was lost; empty objects were left as an unnamed
template variable.
---
 packages/client/src/prompt/promptClients.ts | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 7ee055b..89089f6 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -110,7 +110,7 @@ abstract class BasePromptClient {
    */
   protected escapeJsonForLangchain(text: string): string {
     const out: string[] = []; // collected characters
-    const stack: boolean[] = []; // true = “this { belongs to JSON”, false = normal “{”
+    const stack: ("json" | "plain" | "double")[] = []; // how each open “{” or “{{” was treated
     let i = 0;
     const n = text.length;
 
@@ -122,6 +122,7 @@ abstract class BasePromptClient {
         // leave existing “{{ …” untouched
         if (i + 1 < n && text[i + 1] === "{") {
           out.push("{{");
+          stack.push("double");
           i += 2;
           continue;
         }
@@ -132,24 +133,34 @@ abstract class BasePromptClient {
           j++;
         }
 
-        const isJson = j < n && (text[j] === "'" || text[j] === '"');
+        const isJson =
+          j < n && (text[j] === "'" || text[j] === '"' || text[j] === "}");
         out.push(isJson ? "{{" : "{");
-        stack.push(isJson); // remember how this “{” was treated
+        stack.push(isJson ? "json" : "plain");
         i += 1;
         continue;
       }
 
       // ---------- closing brace ----------
       if (ch === "}") {
-        // leave existing “… }}” untouched
-        if (i + 1 < n && text[i + 1] === "}") {
+        const opening = stack[stack.length - 1];
+
+        // leave existing “… }}” untouched, unless its first brace closes a “{”
+        if (
+          (opening === undefined || opening === "double") &&
+          i + 1 < n &&
+          text[i + 1] === "}"
+        ) {
           out.push("}}");
+          stack.pop();
           i += 2;
           continue;
         }
 
-        const isJson = stack.pop() ?? false;
-        out.push(isJson ? "}}" : "}");
+        if (opening !== "double") {
+          stack.pop();
+        }
+        out.push(opening === "json" ? "}}" : "}");
         i += 1;
         continue;
       }
-- 
2.43.0


From fde99b90fea2623ab2d0a3d802780af19cafb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:47 +0000
Subject: [PATCH 10/46] fix: apply the mask to metadata stored under individual
 keys

Metadata objects are exported as one attribute per top-level key, none of which
was passed through the mask function, so sensitive metadata left unmasked.
---
 packages/otel/src/span-processor.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..14d333f 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -557,12 +557,16 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_METADATA,
     ];
 
-    for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
-      }
+    // Metadata objects are stored as one attribute per top-level key
+    const maskedKeys = Object.keys(span.attributes).filter(
+      (key) =>
+        maskCandidates.some((candidate) => key === candidate) ||
+        key.startsWith(`${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`) ||
+        key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`),
+    );
+
+    for (const key of maskedKeys) {
+      span.attributes[key] = await this.applyMask(span.attributes[key]);
     }
   }
 
-- 
2.43.0


From 872e64a9c5e5c19b652e043b16959604e623a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 11/46] fix: replace each data URI in span attributes by its
 own media reference

Replacing the data URIs one after the other corrupted a data URI that starts
with another one, and text containing "data:" before a data URI was swallowed
as part of its content type.
---
 packages/otel/src/MediaService.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..9a9484f 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,8 +53,8 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const mediaTags = new Map<string, string>();
+        const regex = /data:[^;:,\s"'\\]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
         if (foundMedia.length === 0) continue;
@@ -86,14 +86,14 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTags.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTags.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From 11b98911414e7e0f0d30686aef881c2f0436a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 12/46] fix: let observe() wrap functions as events

Event observations have no update method, so a function wrapped with
asType "event" threw a TypeError instead of returning its result.
---
 packages/tracing/src/index.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..8f1c8d5 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1481,7 +1481,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              observation.updateOtelSpanAttributes({ output: _captureOutput(value) });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,7 +1491,7 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
+            observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
                 (error instanceof Error ? error.message : String(error)) ||
@@ -1509,7 +1509,7 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          observation.updateOtelSpanAttributes({ output: _captureOutput(result) });
         }
 
         if (options?.endOnExit !== false) {
@@ -1519,7 +1519,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
+      observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
           (error instanceof Error ? error.message : String(error)) ||
-- 
2.43.0


From 1245b37a6d3516434c469c26deeeea060778009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 13/46] fix: capture falsy arguments of observed functions as
 input

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index 8f1c8d5..30db981 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 26a9b0f6b49b104a6ae968edad4ce05a85841546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 14/46] fix: rethrow errors that cannot be converted to a
 string from observe()

---
 packages/tracing/src/index.ts | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index 30db981..99efbea 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1494,9 +1494,9 @@ export function observe<T extends (...args: any[]) => any>(
             observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
+                (error instanceof Error ? error.message : _errorToString(error)) ||
                 "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
+              output: captureOutput ? { error: _errorToString(error) } : undefined,
             });
 
             if (options?.endOnExit !== false) {
@@ -1522,9 +1522,9 @@ export function observe<T extends (...args: any[]) => any>(
       observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
+          (error instanceof Error ? error.message : _errorToString(error)) ||
           "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
+        output: captureOutput ? { error: _errorToString(error) } : undefined,
       });
 
       if (options?.endOnExit !== false) {
@@ -1554,6 +1554,21 @@ function _captureArguments(args: unknown[]): unknown {
   }
 }
 
+/**
+ * Helper function to safely convert a thrown value to a string.
+ *
+ * @param error - Thrown value
+ * @returns String representation of the thrown value
+ * @internal
+ */
+function _errorToString(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to stringify error>";
+  }
+}
+
 /**
  * Helper function to safely capture function output.
  *
-- 
2.43.0


From bdc8600a82ec7fe261c9a81f6617167e85bdfcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/46] fix: keep empty strings in observation metadata

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..0be72d1 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized !== undefined) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0


From 28159d6f46a3893558756b5f7f6e63584d8ecace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:40 +0000
Subject: [PATCH 16/46] fix: read getters of observed OpenAI clients on the
 client itself

---
 packages/openai/src/observeOpenAI.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openai/src/observeOpenAI.ts b/packages/openai/src/observeOpenAI.ts
index f786450..469305d 100644
--- a/packages/openai/src/observeOpenAI.ts
+++ b/packages/openai/src/observeOpenAI.ts
@@ -94,7 +94,7 @@ export const observeOpenAI = <SDKType extends object>(
   langfuseConfig?: LangfuseConfig,
 ): SDKType => {
   return new Proxy(sdk, {
-    get(wrappedSdk, propKey, proxy) {
+    get(wrappedSdk, propKey) {
       const originalProperty = wrappedSdk[propKey as keyof SDKType];
 
       const defaultGenerationName = `${sdk.constructor?.name}.${propKey.toString()}`;
@@ -119,7 +119,7 @@ export const observeOpenAI = <SDKType extends object>(
       }
 
       // Fallback to returning the original value
-      return Reflect.get(wrappedSdk, propKey, proxy);
+      return originalProperty;
     },
   });
 };
-- 
2.43.0


From 7652f9971bcccc4eea09220c5d1005cebcb56352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:40 +0000
Subject: [PATCH 17/46] fix: return OpenAI completions without choices instead
 of throwing

---
 packages/openai/src/parseOpenAI.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..ea027de 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,9 +94,13 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
-  return "message" in res.choices[0]
-    ? res.choices[0].message
-    : (res.choices[0].text ?? "");
+  const choice = res.choices[0];
+
+  if (!(choice instanceof Object)) {
+    return "";
+  }
+
+  return "message" in choice ? choice.message : (choice.text ?? "");
 };
 
 export const parseUsageDetails = (
-- 
2.43.0


From 4bfa6d9794ca37a1a28906464cdfffa07eca1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:40 +0000
Subject: [PATCH 18/46] fix: record all parallel tool calls of a streamed
 OpenAI completion

---
 packages/openai/src/parseOpenAI.ts | 31 +++++++++++++++---------------
 packages/openai/src/traceMethod.ts |  2 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index ea027de..c925a0b 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -207,7 +207,7 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -219,11 +219,12 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return { isToolCall, data: chunkData.delta.tool_calls };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -266,23 +267,23 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // Chunks of parallel tool calls are interleaved and told apart by their index
+  const toolCalls = new Map<number, { name: string; arguments: string }>();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const index = toolCall?.index ?? 0;
+    const current = toolCalls.get(index) ?? { name: "", arguments: "" };
+
+    toolCalls.set(index, {
+      name: toolCall?.function?.name || current.name,
+      arguments: current.arguments + (toolCall?.function?.arguments || ""),
+    });
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    tool_calls: [...toolCalls.values()].map((toolCall) => ({
+      function: toolCall,
+    })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..b6c6296 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -236,7 +236,7 @@ function wrapAsyncIterable<R>(
       if (!processedChunk.isToolCall) {
         textChunks.push(processedChunk.data);
       } else {
-        toolCallChunks.push(processedChunk.data);
+        toolCallChunks.push(...processedChunk.data);
       }
 
       yield rawChunk;
-- 
2.43.0


From 791ef355c31b066decd1340f32119615ec612311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:57 +0000
Subject: [PATCH 19/46] fix: end the generation of OpenAI streams that fail or
 are not fully consumed

---
 packages/openai/src/traceMethod.ts | 103 ++++++++++++++++-------------
 1 file changed, 57 insertions(+), 46 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index b6c6296..d10da8d 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -201,61 +201,72 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+        // Handle Response API chunks
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk &&
+          "response" in rawChunk
+        ) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(...processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(...processedChunk.data);
+        }
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({ statusMessage: String(error), level: "ERROR" });
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+      throw error;
+    } finally {
+      // Also runs if the stream fails or the consumer stops reading early
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      generation
+        .update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        })
+        .end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From d93c85893335e22d8fd914fb53da2cc46925c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:57 +0000
Subject: [PATCH 20/46] fix: end the generation of synchronous OpenAI client
 methods

---
 packages/openai/src/traceMethod.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index d10da8d..bc106c4 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -150,6 +150,8 @@ const wrapMethod = <T extends GenericMethod>(
           return wrappedPromise;
         }
 
+        generation.end();
+
         return res;
       } catch (error) {
         generation
-- 
2.43.0


From 36c646bc1e6d8733e38345213b424ca09de6c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:55 +0000
Subject: [PATCH 21/46] fix: keep the LangChain chain observation registered
 across agent callbacks

---
 packages/langchain/src/CallbackHandler.ts | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..eda7c24 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -218,14 +218,20 @@ export class CallbackHandler extends BaseCallbackHandler {
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
-      this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
-        runName: action.tool,
-        attributes: {
-          input: action,
+
+      // Agent callbacks carry the ID of the chain run they occur in, whose
+      // observation must remain registered until that run ends
+      const parentObservation =
+        this.runMap.get(runId) ??
+        (parentRunId ? this.runMap.get(parentRunId) : undefined);
+
+      startActiveObservation(
+        action.tool,
+        (span) => {
+          span.update({ version: this.version, input: action });
         },
-      });
+        { parentSpanContext: parentObservation?.otelSpan.spanContext() },
+      );
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -240,10 +246,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From 97a0db363bb0decbcc6a9643ce4ae585c0b43688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 22/46] fix: trace LangChain model runs without invocation
 parameters

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index eda7c24..417045a 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -319,8 +319,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        invocationParams as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -378,7 +378,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -447,7 +447,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From 18a0582f1b969bb900bbe4f03d3b5a457ccce36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 23/46] fix: end LangChain generations without results

---
 packages/langchain/src/CallbackHandler.ts | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 417045a..af77c6f 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -604,12 +604,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      const lastResponse = output.generations.at(-1)?.at(-1);
       const llmUsage =
-        this.extractUsageMetadata(lastResponse) ??
+        (lastResponse && this.extractUsageMetadata(lastResponse)) ??
         output.llmOutput?.["tokenUsage"] ??
         {};
       const modelName = this.extractModelNameFromMetadata(lastResponse);
@@ -653,11 +650,11 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
 
       const extractedOutput =
-        "message" in lastResponse
+        lastResponse && "message" in lastResponse
           ? this.extractChatMessageContent(
               lastResponse["message"] as BaseMessage,
             )
-          : lastResponse.text;
+          : lastResponse?.text;
 
       this.handleOtelSpanEnd({
         runId,
-- 
2.43.0


From 46b3d7919cdf33b20e8c3a9eac0b546b9c670afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:57 +0000
Subject: [PATCH 24/46] fix: end LangChain observations of runs that fail with
 null or undefined

---
 packages/langchain/src/CallbackHandler.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index af77c6f..36275d3 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -267,7 +267,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -549,7 +549,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -587,7 +587,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -696,7 +696,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -854,7 +854,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From ac556cb6e81fc625cc36b0ff969ceb003c9d09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:57 +0000
Subject: [PATCH 25/46] fix: trace LangChain chains with null inputs or outputs

---
 packages/langchain/src/CallbackHandler.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 36275d3..70c4465 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -120,6 +120,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalInput: string | ChainValues = inputs;
       if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "input" in inputs &&
         Array.isArray(inputs["input"]) &&
         inputs["input"].every((m: unknown) => m instanceof BaseMessage)
@@ -129,6 +130,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "messages" in inputs &&
         Array.isArray(inputs["messages"]) &&
         inputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -138,6 +140,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "content" in inputs &&
         typeof inputs["content"] === "string" &&
         Object.keys(inputs).length === 1
@@ -405,12 +408,14 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalOutput: ChainValues | string = outputs;
       if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "output" in outputs &&
         typeof outputs["output"] === "string"
       ) {
         finalOutput = outputs["output"];
       } else if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "messages" in outputs &&
         Array.isArray(outputs["messages"]) &&
         outputs["messages"].every((m: unknown) => m instanceof BaseMessage)
-- 
2.43.0


From 219c4bcd269d0b79c17b1ad89d59cbdf7daedd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 26/46] fix: release per-run state of failed LangChain runs

---
 packages/langchain/src/CallbackHandler.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 70c4465..81c2d40 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -433,7 +433,6 @@ export class CallbackHandler extends BaseCallbackHandler {
           output: finalOutput,
         },
       });
-      this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -704,6 +703,8 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: String(err) + azureRefusalError,
         },
       });
+
+      delete this.completionStartTimes[runId];
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -842,6 +843,8 @@ export class CallbackHandler extends BaseCallbackHandler {
   }) {
     const { runId, attributes = {} } = params;
 
+    this.deregisterLangfusePrompt(runId);
+
     const span = this.runMap.get(runId);
     if (!span) {
       this.logger.warn("Span not found in runMap. Skipping operation");
-- 
2.43.0


From 7854da1efbfb5cbcd3ce4171b3e33e542363a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 27/46] fix: pair formatted experiment results with their own
 items

---
 packages/client/src/experiment/ExperimentManager.ts | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..819c77a 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -1,5 +1,4 @@
 import {
-  DatasetItem,
   getGlobalLogger,
   propagateAttributes,
   serializeValue,
@@ -17,7 +16,6 @@ import {
   ExperimentParams,
   ExperimentResult,
   ExperimentTask,
-  ExperimentItem,
   ExperimentItemResult,
   Evaluator,
   Evaluation,
@@ -310,7 +308,6 @@ export class ExperimentManager {
         await this.prettyPrintResults({
           datasetRunUrl,
           itemResults,
-          originalData: data,
           runEvaluations,
           name: config.name,
           runName,
@@ -544,7 +541,6 @@ export class ExperimentManager {
    * @param params - Formatting parameters
    * @param params.datasetRunUrl - Optional URL to the dataset run in Langfuse UI
    * @param params.itemResults - Results from processing each data item
-   * @param params.originalData - The original input data items
    * @param params.runEvaluations - Results from run-level evaluators
    * @param params.name - Name of the experiment
    * @param params.description - Optional description of the experiment
@@ -597,9 +593,6 @@ export class ExperimentManager {
   >(params: {
     datasetRunUrl?: string;
     itemResults: ExperimentItemResult<Input, ExpectedOutput, Metadata>[];
-    originalData:
-      | ExperimentItem<Input, ExpectedOutput, Metadata>[]
-      | DatasetItem[];
     runEvaluations: Evaluation[];
     name: string;
     runName: string;
@@ -608,7 +601,6 @@ export class ExperimentManager {
   }): Promise<string> {
     const {
       itemResults,
-      originalData,
       runEvaluations,
       name,
       runName,
@@ -626,7 +618,7 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        const originalItem = result.item;
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 42b96836371d3c4e9e563607e35c09698ed8414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 28/46] fix: keep experiment results when the dataset run URL
 cannot be resolved

---
 packages/client/src/experiment/ExperimentManager.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 819c77a..8abd0b0 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -254,11 +254,16 @@ export class ExperimentManager {
     let datasetRunUrl = undefined;
     if (datasetRunId && data.length > 0 && "datasetId" in data[0]) {
       const datasetId = data[0].datasetId;
-      const projectUrl = (await this.langfuseClient.getTraceUrl("mock")).split(
-        "/traces",
-      )[0];
 
-      datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      try {
+        const projectUrl = (
+          await this.langfuseClient.getTraceUrl("mock")
+        ).split("/traces")[0];
+
+        datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      } catch (err) {
+        this.logger.error("Resolving the dataset run URL failed", err);
+      }
     }
 
     // Execute run evaluators
-- 
2.43.0


From eb23c39d2a9363a484524b7359a45c0bee709904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:47 +0000
Subject: [PATCH 29/46] fix: ignore dataset media references whose path does
 not exist in the item

---
 packages/client/src/dataset/jsonPath.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/client/src/dataset/jsonPath.ts b/packages/client/src/dataset/jsonPath.ts
index ed03c33..6772aaf 100644
--- a/packages/client/src/dataset/jsonPath.ts
+++ b/packages/client/src/dataset/jsonPath.ts
@@ -73,8 +73,17 @@ export function setValueAtPath(
     return replacement;
   }
 
+  // Only follow locations that exist in the value itself, so that a path that
+  // does not match neither adds content nor reaches inherited properties.
+  const assertExists = (container: unknown, segment: string | number) => {
+    if (!Object.prototype.hasOwnProperty.call(container, segment)) {
+      throw new Error(`Cannot resolve JSONPath: ${jsonPath}`);
+    }
+  };
+
   let target = value;
   for (const segment of segments.slice(0, -1)) {
+    assertExists(target, segment);
     target = (target as Record<string | number, unknown>)[segment];
   }
 
@@ -85,6 +94,7 @@ export function setValueAtPath(
   if (typeof leaf === "number" && !Array.isArray(target)) {
     throw new Error(`Cannot resolve JSONPath: ${jsonPath}`);
   }
+  assertExists(target, leaf);
   (target as Record<string | number, unknown>)[leaf] = replacement;
 
   return value;
-- 
2.43.0


From 19ef1fa69e0e4c88b55b630e87defc7e38d4369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:30 +0000
Subject: [PATCH 30/46] fix: keep dates and other built-in objects when
 resolving media references

---
 packages/client/src/media/index.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 081741b..3d4db72 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -154,11 +154,11 @@ export class MediaManager {
         ) as Promise<T>;
       }
 
-      // Handle objects
-      if (typeof obj === "object" && obj !== null) {
+      // Handle objects, except built-ins such as dates, maps and byte arrays
+      if (Object.prototype.toString.call(obj) === "[object Object]") {
         return Object.fromEntries(
           await Promise.all(
-            Object.entries(obj).map(async ([key, value]) => [
+            Object.entries(obj as object).map(async ([key, value]) => [
               key,
               await traverse(value, depth + 1),
             ]),
-- 
2.43.0


From b9a556f609eb8acbd04f818acb617bb3bc2d3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:22 +0000
Subject: [PATCH 31/46] fix: report unreadable ingestion responses as
 LangfuseBrowserError

---
 packages/browser/src/utils.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..6d5e7c2 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -12,7 +12,15 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
 ]);
 
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError(
+      "Failed to read the Langfuse ingestion response.",
+      { status: response.status, originalError: error },
+    );
+  }
   if (!text) {
     return undefined;
   }
@@ -34,7 +42,12 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch {
+    return undefined;
+  }
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From dc0930e179dcf4266fbc98734130398282323516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:23 +0000
Subject: [PATCH 32/46] fix: reject malformed success entries with a
 LangfuseBrowserError

---
 packages/browser/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/browser/src/index.ts b/packages/browser/src/index.ts
index 483c3be..68eddf8 100644
--- a/packages/browser/src/index.ts
+++ b/packages/browser/src/index.ts
@@ -77,7 +77,7 @@ export class LangfuseBrowserClient {
     }
 
     const hasSuccess = response.successes.some(
-      (success) => success.id === event.id,
+      (success) => success?.id === event.id,
     );
     if (!hasSuccess) {
       throw new LangfuseBrowserError(
-- 
2.43.0


From d4ef80cff89a38f89e5046e3935ba308a7fca265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:21 +0000
Subject: [PATCH 33/46] fix: replace each AI SDK media part by its own media
 reference

---
 packages/otel/src/MediaService.ts | 56 ++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 9a9484f..dad3ae0 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -109,7 +109,7 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
@@ -121,14 +121,14 @@ export class MediaService {
 
                 for (const part of contentParts) {
                   if (part["type"] === "file") {
-                    let base64Content: string | null = null;
+                    let contentKey: "data" | "image" | null = null;
                     const mediaType = part["mediaType"];
                     // FilePart
                     if (
                       typeof part["data"] === "string" &&
                       !part["data"].startsWith("http") // skip URL strings
                     ) {
-                      base64Content = part["data"];
+                      contentKey = "data";
                     }
 
                     //ImagePart
@@ -136,27 +136,37 @@ export class MediaService {
                       typeof part["image"] === "string" &&
                       !part["image"].startsWith("http") // skip URLs
                     ) {
-                      base64Content = part["image"];
+                      contentKey = "image";
                     }
 
-                    if (!base64Content || typeof mediaType !== "string") {
+                    if (
+                      !contentKey ||
+                      !part[contentKey] ||
+                      typeof mediaType !== "string"
+                    ) {
                       continue;
                     }
 
-                    mediaReplacedValue = await this.replaceBytesMedia({
+                    const mediaTag = await this.createBytesMediaTag({
                       span,
-                      mediaReplacedValue,
-                      base64Content,
+                      base64Content: part[contentKey],
                       contentType: mediaType,
                       field: "input",
                     });
+
+                    if (mediaTag) {
+                      part[contentKey] = mediaTag;
+                      hasReplacedMedia = true;
+                    }
                   }
                 }
               }
             }
           }
 
-          span.attributes[mediaAttribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[mediaAttribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK attribute ${mediaAttribute} for span ${span.spanContext().spanId}`,
@@ -179,7 +189,7 @@ export class MediaService {
           continue;
         }
 
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
@@ -210,19 +220,24 @@ export class MediaService {
                   continue;
                 }
 
-                mediaReplacedValue = await this.replaceBytesMedia({
+                const mediaTag = await this.createBytesMediaTag({
                   span,
-                  mediaReplacedValue,
                   base64Content: normalizedContent.base64Content,
-                  contentToReplace: content,
                   contentType: mediaType,
                   field,
                 });
+
+                if (mediaTag) {
+                  part["content"] = mediaTag;
+                  hasReplacedMedia = true;
+                }
               }
             }
           }
 
-          span.attributes[attribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[attribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK v7 attribute ${attribute} for span ${span.spanContext().spanId}`,
@@ -233,14 +248,12 @@ export class MediaService {
     }
   }
 
-  private async replaceBytesMedia(params: {
+  private async createBytesMediaTag(params: {
     span: ReadableSpan;
-    mediaReplacedValue: string;
     base64Content: string;
-    contentToReplace?: string;
     contentType: string;
     field: string;
-  }): Promise<string> {
+  }): Promise<string | null> {
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
       contentBytes: base64ToBytes(params.base64Content),
@@ -254,7 +267,7 @@ export class MediaService {
         "Failed to create Langfuse media tag. Skipping media item.",
       );
 
-      return params.mediaReplacedValue;
+      return null;
     }
 
     this.scheduleUpload({
@@ -263,10 +276,7 @@ export class MediaService {
       field: params.field,
     });
 
-    return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
-    );
+    return langfuseMediaTag;
   }
 
   private scheduleUpload(params: {
-- 
2.43.0


From 345f052394f4e2bb495b962ae029d487ac8ab7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:23 +0000
Subject: [PATCH 34/46] fix: keep cache keys of different prompts apart

---
 packages/client/src/prompt/promptCache.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index 46efefd..d5e6c69 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -46,7 +46,8 @@ export class LangfusePromptCache {
     if (version !== undefined) {
       parts.push("version:" + version.toString());
     } else if (label !== undefined) {
-      parts.push("label:" + label);
+      // encoded, so that no name and label can form the key of another prompt
+      parts.push("label:" + encodeURIComponent(label));
     } else {
       parts.push("label:production");
     }
-- 
2.43.0


From 76c3852de941f06f70fb7ca243d83f3412a974a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:57 +0000
Subject: [PATCH 35/46] fix: look up prompt variables and placeholders among
 the given values only

---
 packages/client/src/prompt/promptClients.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 89089f6..75b6aa0 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -16,6 +16,13 @@ mustache.escape = function (text) {
   return text;
 };
 
+/** Copies the given values, so that names such as "constructor" are not found on Object.prototype. */
+function ownValues<T>(
+  values: Record<string, T> | undefined,
+): Record<string, T> {
+  return Object.assign(Object.create(null), values);
+}
+
 /**
  * Base class for all prompt clients.
  *
@@ -227,7 +234,7 @@ export class TextPromptClient extends BasePromptClient {
     variables?: Record<string, string>,
     _placeholders?: Record<string, any>,
   ): string {
-    return mustache.render(this.promptResponse.prompt, variables ?? {});
+    return mustache.render(this.promptResponse.prompt, ownValues(variables));
   }
 
   /**
@@ -341,7 +348,7 @@ export class ChatPromptClient extends BasePromptClient {
   ): (ChatMessageOrPlaceholder | any)[] {
     const messagesWithPlaceholdersReplaced: (ChatMessageOrPlaceholder | any)[] =
       [];
-    const placeholderValues = placeholders ?? {};
+    const placeholderValues = ownValues(placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
@@ -395,7 +402,7 @@ export class ChatPromptClient extends BasePromptClient {
       ) {
         return {
           ...item,
-          content: mustache.render(item.content, variables ?? {}),
+          content: mustache.render(item.content, ownValues(variables)),
         };
       } else {
         // Return placeholder or stringified value as-is
@@ -431,7 +438,7 @@ export class ChatPromptClient extends BasePromptClient {
       | LangchainMessagesPlaceholder
       | any
     )[] = [];
-    const placeholderValues = options?.placeholders ?? {};
+    const placeholderValues = ownValues(options?.placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-- 
2.43.0


From 3d99d98ac895bb091bb00d8abc1f9b768567fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:18 +0000
Subject: [PATCH 36/46] fix: mask a value whose mask fails with an error that
 cannot be printed

---
 packages/otel/src/span-processor.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 14d333f..4567ce3 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -577,7 +577,8 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       return await this.mask({ data });
     } catch (err) {
       this.logger.warn(
-        `Applying mask function failed due to error, fully masking property. Error: ${err}`,
+        "Applying mask function failed due to error, fully masking property. Error:",
+        err,
       );
 
       return "<fully masked due to failed mask function>";
-- 
2.43.0


From 4d85e72f664abe14cd24edc3382a0d0d22085430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:45 +0000
Subject: [PATCH 37/46] fix: end LangChain observations of runs that fail with
 an unprintable value

---
 packages/langchain/src/CallbackHandler.ts | 27 ++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 81c2d40..3cc0ef9 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -53,6 +53,15 @@ type ConstructorParams = {
 
 type TrackedObservation = LangfuseSpan | LangfuseGeneration | LangfuseTool;
 
+/** Anything can be thrown, also values that cannot be converted to a string. */
+function errorToString(err: unknown): string {
+  try {
+    return String(err);
+  } catch {
+    return "Unknown error";
+  }
+}
+
 export class CallbackHandler extends BaseCallbackHandler {
   name = "LangfuseCallbackHandler";
 
@@ -262,7 +271,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Chain error: ${err} with ID: ${runId}`);
+      this.logger.debug(`Chain error: ${errorToString(err)} with ID: ${runId}`);
 
       const azureRefusalError = this.parseAzureRefusalError(err);
 
@@ -270,7 +279,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err) + azureRefusalError,
+          statusMessage: errorToString(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -548,12 +557,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Retriever error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Retriever error: ${errorToString(err)} with ID: ${runId}`,
+      );
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err),
+          statusMessage: errorToString(err),
         },
       });
     } catch (e) {
@@ -585,13 +596,13 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Tool error ${err} with ID: ${runId}`);
+      this.logger.debug(`Tool error ${errorToString(err)} with ID: ${runId}`);
 
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err),
+          statusMessage: errorToString(err),
         },
       });
     } catch (e) {
@@ -689,7 +700,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`LLM error ${err} with ID: ${runId}`);
+      this.logger.debug(`LLM error ${errorToString(err)} with ID: ${runId}`);
 
       // Azure has the refusal status for harmful messages in the error property
       // This would not be logged as the error message is only a generic message
@@ -700,7 +711,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err) + azureRefusalError,
+          statusMessage: errorToString(err) + azureRefusalError,
         },
       });
 
-- 
2.43.0


From 9b990fa9afc6c668cd4b8e98e4d9657fcd1e78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:49 +0000
Subject: [PATCH 38/46] fix: a scope that requests baggage no longer sends the
 tags and metadata of enclosing scopes that did not

---
 packages/core/src/propagation.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 7b42781..2ab5d8f 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -815,13 +815,18 @@ function setPropagatedAttribute(params: SetPropagatedAttributeParams): Context {
     let baggage =
       propagation.getBaggage(context) || propagation.createBaggage();
 
+    // Only the values of scopes that requested baggage propagation may leave
+    // the process: those of enclosing scopes that did are already in the baggage
     if (key === "metadata") {
-      for (const [k, v] of Object.entries(mergedMetadata)) {
+      for (const [k, v] of Object.entries(value)) {
         baggage = baggage.setEntry(`${baggageKey}_${k}`, { value: v });
       }
     } else if (key === "tags") {
+      const baggageTags = [
+        ...new Set([...getBaggageTags(params.context), ...value]),
+      ];
       baggage = baggage.setEntry(baggageKey, {
-        value: mergedTags.join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR),
+        value: baggageTags.join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR),
       });
     } else {
       // Baggage values must be strings; integer values (prompt version) are
@@ -835,6 +840,14 @@ function setPropagatedAttribute(params: SetPropagatedAttributeParams): Context {
   return context;
 }
 
+function getBaggageTags(context: Context): string[] {
+  const entry = propagation
+    .getBaggage(context)
+    ?.getEntry(getBaggageKeyForPropagatedKey("tags"));
+
+  return entry ? entry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR) : [];
+}
+
 function getContextMergedTags(context: Context, newTags: string[]): string[] {
   const existingTags = context.getValue(LangfuseOtelContextKeys["tags"]);
 
-- 
2.43.0


From 088206303c0705100eece7f3f1027386e58ca2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 39/46] fix: a scope that adds tags keeps the tags received
 from an upstream service

---
 packages/core/src/propagation.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 2ab5d8f..7e3c32c 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -853,9 +853,14 @@ function getContextMergedTags(context: Context, newTags: string[]): string[] {
 
   if (existingTags && Array.isArray(existingTags)) {
     return [...new Set([...existingTags, ...newTags])];
-  } else {
-    return newTags;
   }
+
+  // Tags received from an upstream service are only in the baggage
+  const upstreamTags = getBaggageTags(context);
+
+  return upstreamTags.length > 0
+    ? [...new Set([...upstreamTags, ...newTags])]
+    : newTags;
 }
 
 function getContextMergedMetadata(
-- 
2.43.0


From c4b7b0bcf5fd478925a5647e5d83f1a250cbef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 40/46] fix: report OpenAI errors that cannot be converted to a
 string

---
 packages/openai/src/traceMethod.ts | 11 +++++++----
 packages/openai/src/utils.ts       | 13 +++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bc106c4..fb714fe 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -15,7 +15,7 @@ import {
   parseUsageDetailsFromResponse,
 } from "./parseOpenAI.js";
 import type { LangfuseConfig } from "./types.js";
-import { isAsyncIterable } from "./utils.js";
+import { errorToString, isAsyncIterable } from "./utils.js";
 
 /**
  * Generic method type for any function that can be traced.
@@ -134,7 +134,7 @@ const wrapMethod = <T extends GenericMethod>(
             .catch((err) => {
               generation
                 .update({
-                  statusMessage: String(err),
+                  statusMessage: errorToString(err),
                   level: "ERROR",
                   costDetails: {
                     input: 0,
@@ -156,7 +156,7 @@ const wrapMethod = <T extends GenericMethod>(
       } catch (error) {
         generation
           .update({
-            statusMessage: String(error),
+            statusMessage: errorToString(error),
             level: "ERROR",
             costDetails: {
               input: 0,
@@ -249,7 +249,10 @@ function wrapAsyncIterable<R>(
         yield rawChunk;
       }
     } catch (error) {
-      generation.update({ statusMessage: String(error), level: "ERROR" });
+      generation.update({
+        statusMessage: errorToString(error),
+        level: "ERROR",
+      });
 
       throw error;
     } finally {
diff --git a/packages/openai/src/utils.ts b/packages/openai/src/utils.ts
index 4886412..27638b9 100644
--- a/packages/openai/src/utils.ts
+++ b/packages/openai/src/utils.ts
@@ -35,3 +35,16 @@ export const isAsyncIterable = (x: unknown): x is AsyncIterable<unknown> =>
   x != null &&
   typeof x === "object" &&
   typeof (x as any)[Symbol.asyncIterator] === "function";
+
+/**
+ * Converts a thrown value to a string, also if it cannot be printed.
+ *
+ * @internal
+ */
+export const errorToString = (error: unknown): string => {
+  try {
+    return String(error);
+  } catch {
+    return "Unknown error";
+  }
+};
-- 
2.43.0


From 25ef9c2171abecc98c57c0c56a3886ce10bc9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 41/46] fix: skip only the experiment item whose task throws an
 unprintable value

---
 packages/client/src/experiment/ExperimentManager.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 8abd0b0..4d7f5b7 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -223,8 +223,14 @@ export class ExperimentManager {
             datasetVersion: config.datasetVersion,
           });
         } catch (reason) {
-          const errorMessage =
-            reason instanceof Error ? reason.message : String(reason);
+          let errorMessage = "Unknown error";
+          try {
+            errorMessage =
+              reason instanceof Error ? reason.message : String(reason);
+          } catch {
+            // The thrown value cannot be converted to a string
+          }
+
           this.logger.error(
             `Task failed with error: ${errorMessage}. Skipping item.`,
           );
-- 
2.43.0


From c39684234e611a6d958ce6fac1257cc69a50ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 42/46] fix: format experiment results that cannot be
 serialized

---
 packages/client/src/experiment/ExperimentManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 4d7f5b7..a7e4d04 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -765,7 +765,12 @@ export class ExperimentManager {
     if (typeof value === "string") {
       return value.length > 50 ? `${value.substring(0, 47)}...` : value;
     }
-    return JSON.stringify(value);
+
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
   }
 
   private isOtelRegistered(): boolean {
-- 
2.43.0


From 9b296f874a3bf349d5e9e36e0adf83b5f397b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 43/46] fix: compile chat prompts whose placeholder values
 contain null

---
 packages/client/src/prompt/promptClients.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 75b6aa0..4a5cf41 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -358,7 +358,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -448,7 +451,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From ad7d5c9baf846b50213174ce35144183c87058ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 44/46] fix: trace LangChain runs whose trace metadata cannot
 be serialized

---
 packages/langchain/src/CallbackHandler.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 3cc0ef9..d81e395 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -62,6 +62,15 @@ function errorToString(err: unknown): string {
   }
 }
 
+/** Trace metadata can hold values that cannot be serialized, e.g. cyclic ones. */
+function safeStringify(value: unknown): string {
+  try {
+    return JSON.stringify(value);
+  } catch {
+    return "<failed to serialize>";
+  }
+}
+
 export class CallbackHandler extends BaseCallbackHandler {
   name = "LangfuseCallbackHandler";
 
@@ -180,7 +189,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           ? Object.fromEntries(
               Object.entries(this.traceMetadata).map(([k, v]) => [
                 k,
-                typeof v === "string" ? v : JSON.stringify(v),
+                typeof v === "string" ? v : safeStringify(v),
               ]),
             )
           : undefined;
-- 
2.43.0


From 9fd5228ab605b110e1fbb92cbbdaef0ebebc31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 45/46] fix: a score that cannot be serialized no longer takes
 its batch down

---
 packages/client/src/score/index.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 7c34a51..3603471 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -86,6 +86,15 @@ export class ScoreManager {
       body: scoreData,
     };
 
+    let serializedEvent: string;
+    try {
+      serializedEvent = JSON.stringify(scoreIngestionEvent, null, 2);
+    } catch (err) {
+      // It would make the request of the whole batch fail
+      this.logger.error("Score cannot be serialized. Dropping score.", err);
+      return;
+    }
+
     if (this.eventQueue.length >= MAX_QUEUE_SIZE) {
       this.logger.error(
         `Score queue is at max size ${MAX_QUEUE_SIZE}. Dropping score.`,
@@ -95,10 +104,7 @@ export class ScoreManager {
 
     this.eventQueue.push(scoreIngestionEvent);
     if (this.logger.isLevelEnabled(LogLevel.DEBUG)) {
-      this.logger.debug(
-        "Added score event to queue:\n",
-        JSON.stringify(scoreIngestionEvent, null, 2),
-      );
+      this.logger.debug("Added score event to queue:\n", serializedEvent);
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-- 
2.43.0


From 239186b1095324fed29834daa27571bbc9d91e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:08 +0000
Subject: [PATCH 46/46] fix: do not retain finished requests on a long-lived
 abort signal

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 13 ++++++++++-
 packages/core/src/api/core/fetcher/signals.ts | 23 +++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index 4086495..c7287c0 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -12,6 +12,7 @@ import {
   unknownRawResponse,
 } from "./RawResponse.js";
 import { requestWithRetries } from "./requestWithRetries.js";
+import { followSignal } from "./signals.js";
 import { Supplier } from "./Supplier.js";
 
 export type FetchFunction = <R = unknown>(
@@ -106,6 +107,7 @@ export async function fetcherImpl<R = unknown>(
     type: args.requestType === "json" ? "json" : "other",
   });
   const fetchFn = await getFetchFn();
+  const caller = args.abortSignal ? followSignal(args.abortSignal) : undefined;
 
   try {
     const response = await requestWithRetries(
@@ -117,7 +119,7 @@ export async function fetcherImpl<R = unknown>(
           await getHeaders(args),
           requestBody,
           args.timeoutMs,
-          args.abortSignal,
+          caller?.signal,
           args.withCredentials,
           args.duplex,
         ),
@@ -189,6 +191,15 @@ export async function fetcherImpl<R = unknown>(
       },
       rawResponse: unknownRawResponse,
     };
+  } finally {
+    // These bodies are still to be read by the caller, who may abort that
+    const isBodyUnread = ["sse", "streaming", "binary-response"].includes(
+      args.responseType ?? "json",
+    );
+
+    if (!isBodyUnread) {
+      caller?.release();
+    }
   }
 }
 
diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index b6a2c6a..a584f0f 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -9,6 +9,29 @@ export function getTimeoutSignal(timeoutMs: number): {
   return { signal: controller.signal, abortId };
 }
 
+/**
+ * Returns an abort signal that follows the given one until it is released. A
+ * long-lived signal then does not retain every request that was made with it.
+ */
+export function followSignal(signal: AbortSignal): {
+  signal: AbortSignal;
+  release: () => void;
+} {
+  const controller = new AbortController();
+  const abort = () => controller.abort(signal.reason);
+
+  if (signal.aborted) {
+    abort();
+  } else {
+    signal.addEventListener("abort", abort);
+  }
+
+  return {
+    signal: controller.signal,
+    release: () => signal.removeEventListener("abort", abort),
+  };
+}
+
 /**
  * Returns an abort signal that is getting aborted when
  * at least one of the specified abort signals is aborted.
-- 
2.43.0

