const S = "packages/client/src/score/index.ts", PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", O = "packages/openai/src/observeOpenAI.ts", TM = "packages/openai/src/traceMethod.ts", CH = "packages/langchain/src/CallbackHandler.ts", PR = "packages/core/src/propagation.ts", LC = "packages/client/src/LangfuseClient.ts", MU = "packages/core/src/mediaUpload.ts", F = "packages/core/src/api/core/fetcher/";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-race-30s", [S, "      .then(() => inFlight ?? undefined)", "      .then(() => inFlight ? Promise.race([inFlight, new Promise<void>((r) => safeSetTimeout(r, 4_000))]) : undefined)"]),
p("C01-requeue-listed", [S, "                this.logger.error(\"Error ingesting scores:\", res.errors);", "                this.logger.error(\"Error ingesting scores:\", res.errors);\n                const retry = new Set(res.errors.filter((e) => e.status >= 500).map((e) => e.id));\n                this.eventQueue.push(...batch.filter((e) => retry.has(e.id)));"]),
p("C01-queue-10k", [S, "const MAX_QUEUE_SIZE = 100_000;", "const MAX_QUEUE_SIZE = 10_000;"]),
p("C01-drop-oldest", [S, "        `Score queue is at max size ${MAX_QUEUE_SIZE}. Dropping score.`,\n      );\n      return;", "        `Score queue is at max size ${MAX_QUEUE_SIZE}. Dropping score.`,\n      );\n      this.eventQueue.shift();"]),
p("C01-await-seq", [S, "      await Promise.all(promises);", "      await Promise.race([Promise.all(promises), Promise.any(promises)]);"]),
p("C01-timer-cleared-late", [S, "        clearTimeout(this.flushTimer);\n        this.flushTimer = null;", "        clearTimeout(this.flushTimer);\n        void Promise.resolve().then(() => { this.flushTimer = null; });"]),
p("C02-min-1s", [S, "      }, this.flushIntervalSeconds * 1_000);", "      }, Math.max(1, this.flushIntervalSeconds) * 1_000);"]),
p("C02-flushat-cap", [S, "    if (this.eventQueue.length >= this.flushAtCount) {", "    if (this.eventQueue.length >= Math.max(this.flushAtCount, 5)) {"]),
p("C02-shared-ref", [S, "    const scoreData: ScoreBody = {\n      ...data,\n      id: data.id ?? generateUUID(),\n      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),\n    };", "    const scoreData: ScoreBody = Object.assign(Object.create(data) as ScoreBody, data, {\n      id: data.id ?? generateUUID(),\n      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),\n      ...(typeof data.value === \"number\" ? { value: Number(data.value.toFixed(10)) } : {}),\n    } as Partial<ScoreBody>);"]),
p("C02-obs-order", [S, "    this.create({\n      ...data,\n      traceId,\n      observationId: spanId,\n    });\n  }\n\n  /**\n   * Creates a score for a trace using", "    this.create({\n      traceId,\n      observationId: spanId,\n      ...data,\n    });\n  }\n\n  /**\n   * Creates a score for a trace using"]),
p("C03-expiry-ge", [PC, "return Date.now() > this._expiry;", "return Date.now() - 1000 > this._expiry;"]),
p("C03-refresh-ttl-lost", [PM, "        const refreshPromptPromise = this.fetchPromptAndUpdateCache({\n          name,\n          version: options?.version,\n          label: options?.label,\n          cacheTtlSeconds: options?.cacheTtlSeconds,", "        const refreshPromptPromise = this.fetchPromptAndUpdateCache({\n          name,\n          version: options?.version,\n          label: options?.label,"]),
p("C03-older-wins", [PM, "        this.cache.set(cacheKey, prompt, cacheTtlSeconds);", "        const known = this.cache.getIncludingExpired(cacheKey);\n        if (!known || known.isExpired || known.value.version <= prompt.version) this.cache.set(cacheKey, prompt, cacheTtlSeconds);"]),
p("C03-invalidate-contains", [PC, "      if (key.startsWith(promptName)) {", "      if (key.startsWith(promptName + \"-label:\") || key.startsWith(promptName + \"-version:\") && !key.endsWith(\":0\")) {"]),
p("C03-inval-debounce", [PC, "    for (const key of this._cache.keys()) {\n      if", "    for (const key of this._cache.keys()) {\n      if (this._refreshingKeys.has(key)) continue;\n      if"]),
p("C04-refresh-holds", [PC, "      .catch(() => {\n        this._refreshingKeys.delete(key);\n      });", "      .catch(() => {\n        setTimeout(() => this._refreshingKeys.delete(key), 30_000);\n      });"], [PM, "        }).catch(() => {\n          this.logger.warn(", "        }).catch((e) => {\n          setTimeout(() => undefined, 0);\n          this.logger.warn("]),
p("C04-fallback-empty", [PM, "if (options?.fallback !== undefined && options.fallback !== null) {", "if (options?.fallback !== undefined && options.fallback !== null && options.fallback.length > 0) {"]),
p("C04-fallback-stale", [PM, "    if (cachedPrompt.isExpired) {", "    if (cachedPrompt.isExpired && options?.fallback === undefined) {"]),
p("C04-timeout-sec", [PM, "timeoutInSeconds: fetchTimeoutMs ? fetchTimeoutMs / 1_000 : undefined,", "timeoutInSeconds: fetchTimeoutMs ? Math.ceil(fetchTimeoutMs / 1_000) : undefined,"]),
p("C07-queue-512", [SP, "            scheduledDelayMillis: flushIntervalSeconds", "            maxQueueSize: 512,\n            scheduledDelayMillis: flushIntervalSeconds"]),
p("C07-skip-forceflush", [SP, "  public async forceFlush(): Promise<void> {\n    await this.flush();\n\n    return this.processor.forceFlush();", "  public async forceFlush(): Promise<void> {\n    if (this.pendingEndedSpans.size === 0) return;\n    await this.flush();\n\n    return this.processor.forceFlush();"]),
p("C07-dup-id", [SP, "    this.processor.onEnd(span);\n  }", "    if ((span as any).__lf) return;\n    (span as any).__lf = this.publicKey ?? true;\n    this.processor.onEnd(span);\n  }"]),
p("C07-debug-json", [SP, "durationMs: hrTimeToMilliseconds(span.duration),", "durationMs: hrTimeToMilliseconds(span.duration),\n            links: span.links, events: span.events,"]),
p("C08-start-cached", [SP, "      if (this.shouldExportSpan({ otelSpan: span }) === false) {", "      if (this.shouldExportSpan({ otelSpan: span }) === false && !span.attributes[LangfuseOtelSpanAttributes.IS_APP_ROOT]) {"]),
p("C09-word-keys", [SP, "        key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`),", "        /^langfuse\\.trace\\.metadata\\.\\w+$/.test(key),"]),
p("C09-string-only", [SP, "    if (!this.mask) return data;\n", "    if (!this.mask || data === \"\" || data === \"null\") return data;\n"]),
p("C09-filtered-log", [SP, "this.logger.debug(\"Dropped span due to shouldExportSpan filter.\", {\n          spanName: span.name,", "this.logger.debug(\"Dropped span due to shouldExportSpan filter.\", {\n          attributes: span.attributes,\n          spanName: span.name,"]),
p("C09-mask-timeout", [SP, "      return await this.mask({ data });", "      return await Promise.race([this.mask({ data }), new Promise<T>((r) => setTimeout(() => r(data), 5_000))]);"]),
p("C10-dedupe-global", [MS, "    this.scheduleUpload({\n      span: params.span,\n      media,\n      field: params.field,\n    });", "    if (!this.seen.has(langfuseMediaTag)) {\n      this.seen.add(langfuseMediaTag);\n      this.scheduleUpload({\n        span: params.span,\n        media,\n        field: params.field,\n      });\n    }"], [MS, "  private apiClient: LangfuseAPIClient;\n", "  private apiClient: LangfuseAPIClient;\n  private seen = new Set<string>();\n"]),
p("C10-trim-first", [MS, "        // Find media base64 data URI\n        const mediaTags", "        if (value.length > 1_000_000) continue;\n        // Find media base64 data URI\n        const mediaTags"]),
p("C11-context-user", [PR, "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\") {", "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\" && !propagatedAttributes[getSpanKeyForPropagatedKey(\"userId\")]) {"]),
p("C11-tag-order", [PR, "    return [...new Set([...existingTags, ...newTags])];", "    return [...new Set([...existingTags, ...newTags])].slice(0, 50);"]),
p("C11-meta-proto", [PR, "    const validatedMetadata: Record<string, string> = {};", "    const validatedMetadata: Record<string, string> = {};\n    if (Object.keys(metadata).length > 64) metadata[\"langfuse_truncated\"] = \"true\";"]),
p("C13-meta-dots", [PR, "        baggage = baggage.setEntry(`${baggageKey}_${k}`, { value: v });", "        baggage = baggage.setEntry(`${baggageKey}_${k.replace(/\\./g, \"_\")}`, { value: v });"]),
p("C14-claim-set-late", [PR, "  if (getLangfuseTraceIdFromBaggage(context) === normalized) return context;", "  if (getLangfuseTraceIdFromBaggage(context)) return context;"]),
p("C15-prop-span-root", [PR, "  return otelContextApi.with(context, fn);\n}\n\n/**", "  const out = otelContextApi.with(context, fn);\n  return out instanceof Promise ? (out.then((v: any) => v) as any) : out;\n}\n\n/**"]),
p("C17-proxy-set", [O, "  return new Proxy(sdk, {\n", "  return new Proxy(sdk, {\n    set: (t, k, v) => Reflect.set({}, k, v),\n"]),
p("C17-then-bound", [O, "      if (typeof originalProperty === \"function\") {", "      if (propKey === \"withOptions\") return (originalProperty as any).bind(wrappedSdk);\n      if (typeof originalProperty === \"function\") {"]),
p("C18-stream-break-no-output", [TM, "    } finally {\n      // Also", "    } finally {\n      if (textChunks.length > 200) textChunks.splice(0, textChunks.length - 200);\n      // Also"]),
p("C18-response-first", [TM, "          output = parseCompletionOutput(result);\n          usageDetails", "          output = output || parseCompletionOutput(result);\n          usageDetails"]),
p("C18-usage-zero-resp", [TM, "            usageDetails ?? (usage ?", "            usageDetails && Object.values(usageDetails).some(Boolean) ? usageDetails : (usage ?"]),
p("C18-config-captured", [TM, "        ...config?.generationMetadata,\n", "        ...(generationMetadata ??= { ...config?.generationMetadata }),\n"], [TM, "type GenericMethod =", "let generationMetadata: Record<string, unknown> | undefined;\ntype GenericMethod ="]),
p("C19-input-map", [CH, "        inputs[\"input\"].every((m: unknown) => m instanceof BaseMessage)", "        inputs[\"input\"].some((m: unknown) => m instanceof BaseMessage)"]),
p("C19-content-keys", [CH, "        Object.keys(inputs).length === 1\n", "        Object.keys(inputs).length >= 1\n"]),
p("C19-max-tokens-null", [CH, "      if (value !== undefined && value !== null) {\n        modelParameters", "      if (typeof value === \"number\" || typeof value === \"string\" && value) {\n        modelParameters"]),
p("C19-model-precedence", [CH, "extractedModelName = invocationParamsModelName ?? metadataModelName;", "extractedModelName = metadataModelName ?? invocationParamsModelName;"]),
p("C19-tools-empty", [CH, "          tools !== undefined || toolChoice !== undefined", "          tools?.length || toolChoice !== undefined"]),
p("C19-version-nested", [CH, "            version: this.version,\n          },\n          () => {", "            version: parentRunId ? this.version : undefined,\n          },\n          () => {"]),
p("C24-loop-const", [MU, "      const delay = baseDelay * Math.pow(2, attempt);", "      const delay = Math.min(baseDelay * Math.pow(2, attempt), 2_000);"]),
p("C26-date", [F + "requestWithRetries.ts", "      const delay = retryAfterDate.getTime() - Date.now();\n      if (delay > 0) {\n        return Math.min(Math.max(delay, 0), MAX_RETRY_DELAY);", "      const delay = retryAfterDate.getTime() - Date.now();\n      if (delay > 0) {\n        return Math.min(Math.max(delay, 0), INITIAL_RETRY_DELAY);"]),
p("C26-reset-ms", [F + "requestWithRetries.ts", "const delay = resetTime * 1000 - Date.now();", "const delay = resetTime - Date.now() / 1000;"]),
p("C26-retry-abort", [F + "requestWithRetries.ts", "      response = await requestFn();\n    } else", "      try { response = await requestFn(); } catch { break; }\n    } else"]),
p("C30-err-headers", [F + "Fetcher.ts", "          reason: \"unknown\",\n          errorMessage: error.message,", "          reason: \"unknown\",\n          errorMessage: `${error.message} (${Object.keys(args.headers ?? {}).length} headers, ${await Supplier.get((args.headers as any)?.Authorization)})`,"]),
p("C30-put-auth", [MU, "        : {\n            \"Content-Type\": contentType,", "        : {\n            ...(uploadUrl.includes(\"/api/public/\") ? { Authorization: (await (apiClient as any)._getAuthorizationHeader?.()) ?? \"\" } : {}),\n            \"Content-Type\": contentType,"], [MU, "  maxRetries: number;\n  baseDelay: number;\n}): Promise<Response | undefined> {\n  const {", "  maxRetries: number;\n  baseDelay: number;\n  apiClient?: LangfuseAPIClient;\n}): Promise<Response | undefined> {\n  const {\n    apiClient,"], [MU, "    contentSha256Hash,\n    maxRetries,\n    baseDelay,\n  });", "    contentSha256Hash,\n    maxRetries,\n    baseDelay,\n    apiClient: apiClient.media as unknown as LangfuseAPIClient,\n  });"]),
p("C36-expect-static", [SP, "  private spanExportExpectationById: Map<string, boolean> = new Map();", "  private static expectations: Map<string, boolean> = new Map();\n  private get spanExportExpectationById() { return LangfuseSpanProcessor.expectations; }"]),
p("C36-flush-static", [S, "  private flushPromise: Promise<void> | null = null;", "  private static sharedFlush: Promise<void> | null = null;\n  private get flushPromise() { return ScoreManager.sharedFlush; }\n  private set flushPromise(p: Promise<void> | null) { ScoreManager.sharedFlush = p; }"]),
p("C36-backoff-shared", [F + "requestWithRetries.ts", "  let response: Response = await requestFn();\n", "  const wait = pausedUntil - Date.now();\n  if (wait > 0) await new Promise((r) => setTimeout(r, wait));\n  let response: Response = await requestFn();\n"], [F + "requestWithRetries.ts", "      const delay = getRetryDelayFromHeaders(response, i);\n", "      const delay = getRetryDelayFromHeaders(response, i);\n      if (response.status === 429) pausedUntil = Date.now() + delay;\n"], [F + "requestWithRetries.ts", "const INITIAL_RETRY_DELAY", "let pausedUntil = 0;\nconst INITIAL_RETRY_DELAY"]),
p("C36-headers-mutated", [SP, "    const exporter =\n      params?.exporter ??", "    if (params?.additionalHeaders) params.additionalHeaders[\"x-langfuse-public-key\"] ??= publicKey ?? \"<missing>\";\n    const exporter =\n      params?.exporter ??"]),
p("C37-no-clear", [F + "makeRequest.ts", "  } finally {\n    if (timeoutAbortId != null) {", "  } finally {\n    if (timeoutAbortId != null && newSignals.aborted) {"]),
p("C37-flush-timer-ref", [S, "        clearTimeout(this.flushTimer);\n        this.flushTimer = null;", "        this.flushTimer = null;"]),
p("C37-score-timer-ref", [S, "      this.flushTimer = safeSetTimeout(() => {", "      this.flushTimer = setTimeout(() => {"]),
p("C38-abort-listener", [F + "signals.ts", "      {\n        signal: controller.signal,\n      },", "      { once: true },"]),
p("C38-proxy-cache", [O, "      if (isNestedOpenAIObject) {\n        return observeOpenAI(originalProperty, config);", "      if (isNestedOpenAIObject) {\n        wrapped.push(originalProperty);\n        return observeOpenAI(originalProperty, config);"], [O, "export const observeOpenAI", "const wrapped: object[] = [];\nexport const observeOpenAI"]),
p("C38-upload-on-success", [MS, "    uploadPromise.finally(() => {", "    uploadPromise.then(() => (media._contentBytes ? undefined : Promise.reject())).then(() => {"]),
p("C38-starttimes", [CH, "    if (runId && !(runId in this.completionStartTimes)) {", "    if (runId && !(`${runId}` in this.completionStartTimes)) {\n      this.completionStartTimes[`first:${runId}`] = new Date();"]),
p("C38-inval-counts", [PM, "    const invalidations = this.cache.invalidationCount(params.name);", "    const invalidations = this.cache.invalidationCount(params.name);\n    this.history.push({ at: Date.now(), cacheKey });"], [PM, "  private async fetchPromptAndUpdateCache(params: {", "  private history: { at: number; cacheKey: string }[] = [];\n  private async fetchPromptAndUpdateCache(params: {"]),
];
