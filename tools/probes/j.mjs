// Tenth set of hand-written changes: state carried between operations, and conditions that need a particular history.
const SC = "packages/client/src/score/index.ts", PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", PL = "packages/client/src/prompt/promptClients.ts", SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", SF = "packages/otel/src/span-filter.ts", PR = "packages/core/src/propagation.ts", TI = "packages/tracing/src/index.ts", AT = "packages/tracing/src/attributes.ts", EM = "packages/client/src/experiment/ExperimentManager.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", VI = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", LG = "packages/core/src/logger/index.ts", BI = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-max-batches", [SC, "      while (this.eventQueue.length > 0) {", "      for (let n = 0; n < 20 && this.eventQueue.length > 0; n++) {"]),
p("C01-timer-stays", [SC, "        clearTimeout(this.flushTimer);\n        this.flushTimer = null;", "        clearTimeout(this.flushTimer);\n        if (this.eventQueue.length > 0) this.flushTimer = null;"]),
p("C02-second-flushat", [SC, "    if (this.eventQueue.length >= this.flushAtCount) {", "    if (this.eventQueue.length >= this.flushAtCount && !this.flushPromise) {"]),
p("C02-env-null", [SC, "      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),", "      environment: getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\") ?? data.environment,"]),
p("C03-set-keeps-expiry", [PC, "    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;", "    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;\n    if (ttlSeconds !== undefined && ttlSeconds > this._defaultTtlSeconds) {\n      this._defaultTtlSeconds = ttlSeconds;\n    }"]),
p("C03-zero-ttl-not-stored-but-kept", [PM, "        this.cache.set(cacheKey, prompt, cacheTtlSeconds);", "        if (cacheTtlSeconds !== 0) this.cache.set(cacheKey, prompt, cacheTtlSeconds);"]),
p("C03-label-latest", [PC, "    } else if (label !== undefined) {", "    } else if (label !== undefined && label !== \"latest\") {"]),
p("C04-warn-then-wait", [PM, "        this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);\n      }", "        this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);\n        if (options?.maxRetries === 0) await refreshPromptPromise;\n      }"]),
p("C04-refresh-name-key", [PM, "      if (!this.cache.isRefreshing(cacheKey)) {", "      if (!this.cache.isRefreshing(name)) {"], [PM, "        this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);", "        this.cache.addRefreshingPromise(name, refreshPromptPromise);"]),
p("C05-placeholder-tool-role", [PL, "        messagesWithPlaceholdersReplaced.push({\n          role: item.role,\n          content: item.content,\n        });", "        messagesWithPlaceholdersReplaced.push({\n          role: item.role.toLowerCase(),\n          content: item.content,\n        });"]),
p("C05-placeholder-stripped", [PL, "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),\n          );", "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]).filter((msg) => msg.content !== \"\"),\n          );"]),
p("C06-nested-close", [PL, "        if (opening !== \"double\") {\n          stack.pop();\n        }", "        stack.pop();"]),
p("C06-json-array", [PL, "          j < n && (text[j] === \"'\" || text[j] === '\"' || text[j] === \"}\");", "          j < n && (text[j] === \"'\" || text[j] === '\"');"]),
p("C07-pending-after-media", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await this.mediaService.flush();\n    await Promise.all(Array.from(this.pendingEndedSpans));"]),
p("C07-mask-throw-drops", [SP, "    if (this.mediaUploadEnabled) {\n      await this.mediaService.process(span);\n    }", "    if (this.mediaUploadEnabled && this.mask === undefined) {\n      await this.mediaService.process(span);\n    }"]),
p("C08-scope-version", [SF, "  return span.instrumentationScope.name === LANGFUSE_TRACER_NAME;", "  return (\n    span.instrumentationScope.name === LANGFUSE_TRACER_NAME &&\n    span.instrumentationScope.version !== undefined\n  );"]),
p("C08-filter-null-drops", [SP, "      if (this.shouldExportSpan({ otelSpan: span }) === false) {", "      if (!this.shouldExportSpan({ otelSpan: span })) {"]),
p("C09-mask-only-changed", [SP, "      return await this.mask({ data });", "      const masked = await this.mask({ data });\n      return masked === undefined || masked === null ? data : masked;"]),
p("C09-mask-reentrant", [SP, "    for (const key of maskedKeys) {", "    for (const key of maskedKeys.slice(0, 64)) {"]),
p("C10-mask-then-media-warn", [MS, "        if (foundMedia.length === 0) continue;", "        if (foundMedia.length === 0) break;"]),
p("C10-tag-null-skip", [MS, "                    if (mediaTag) {\n                      part[contentKey] = mediaTag;\n                      hasReplacedMedia = true;\n                    }", "                    if (mediaTag && !hasReplacedMedia) {\n                      part[contentKey] = mediaTag;\n                      hasReplacedMedia = true;\n                    }"]),
p("C10-normalize-comma", [MS, "  const base64Start = content.indexOf(\";base64,\");", "  const base64Start = content.lastIndexOf(\";base64,\", 64);"]),
p("C11-tags-alias", [PR, "    : newTags;", "    : newTags.sort();"]),
p("C11-meta-context-string", [PR, "      propagatedAttributes[spanKey] = String(v);", "      if (!(spanKey in propagatedAttributes)) propagatedAttributes[spanKey] = String(v);"]),
p("C12-tags-nonarray-first", [PR, "    const validTags = tags.filter((tag) =>\n      isValidPropagatedString({\n        value: tag,\n        attributeName: \"tag\",\n      }),\n    );", "    const validTags = [...new Set(tags)].slice(0, 50).filter((tag) =>\n      isValidPropagatedString({\n        value: tag,\n        attributeName: \"tag\",\n      }),\n    );"]),
p("C13-metadata-key-prefix", [PR, "  if (suffix.startsWith(\"metadata_\")) {\n    const metadataKey = suffix.slice(\"metadata_\".length);", "  if (suffix.startsWith(\"metadata_\")) {\n    const metadataKey = suffix.replace(/metadata_/g, \"\");"]),
p("C13-prompt-version-sent", [PR, "            /^\\d+$/.test(baggageEntry.value)\n          ) {\n            propagatedAttributes", "            /^\\d{1,4}$/.test(baggageEntry.value)\n          ) {\n            propagatedAttributes"]),
p("C14-drop-claim-nested", [PR, "      if (baggageKey === LANGFUSE_TRACE_ID_BAGGAGE_KEY) return;", "      if (baggageKey.startsWith(LANGFUSE_TRACE_ID_BAGGAGE_KEY)) return;"]),
p("C15-reject-status-only-error", [TI, "    const inputData = captureInput ? _captureArguments(args) : undefined;", "    const inputData = captureInput ? _captureArguments(args.filter((a) => a !== undefined)) : undefined;"]),
p("C15-this-bound-late", [TI, "      const result = context.with(activeContext, () => fn.apply(this, args));", "      const result = context.with(activeContext, () => fn.apply(this, args.slice(0, Math.max(fn.length, args.length)) as any));"]),
p("C16-prompt-with-type", [AT, "    ...(prompt && !prompt.isFallback\n", "    ...(prompt && !prompt.isFallback && (type === \"generation\" || type === \"span\")\n"]),
p("C16-date-metadata", [AT, "  if (typeof metadata !== \"object\" || Array.isArray(metadata)) {", "  if (typeof metadata !== \"object\" || Array.isArray(metadata) || Object.keys(metadata).length > 128) {"]),
p("C20-worker-min", [EM, "      { length: Math.min(maxConcurrency, data.length) },", "      { length: Math.min(maxConcurrency, Math.ceil(data.length / 2) + 1) },"]),
p("C20-nested-flat", [EM, "          acc.push(...promiseResult.value.flat());", "          acc.push(...promiseResult.value.flat().filter((e) => e?.value !== null));"]),
p("C21-desc-root", [EM, "          if (serialized) {\n            rootSpanAttributes[", "          if (serialized && !datasetItemId) {\n            rootSpanAttributes["]),
p("C21-datasetrun-score-guard", [EM, "      if (datasetRunId) {\n        runEvaluations.forEach((runEval) =>", "      if (datasetRunId && itemResults.length === data.length) {\n        runEvaluations.forEach((runEval) =>"]),
p("C28-dup-header-order", [BU, "      ([name]) => !RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase()),", "      ([name, value]) => value !== \"\" && !RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase()),"]),
p("C28-error-empty-text", [BU, "  if (!text) {\n    return undefined;\n  }\n\n  try {\n    return JSON.parse(text);\n  } catch {\n    return text;\n  }", "  if (!text || text.length > 4096) {\n    return undefined;\n  }\n\n  try {\n    return JSON.parse(text);\n  } catch {\n    return text;\n  }"]),
p("C29-prompt-version-int", [VU, "  if (typeof value.name !== \"string\" || typeof value.version !== \"number\") {", "  if (!value.name || typeof value.name !== \"string\" || typeof value.version !== \"number\" || value.version < 1) {"]),
p("C29-meta-on-prompt-types", [VU, "      if (serialized != null) {", "      if (serialized != null && !(spanType === \"tool\" && prompt)) {"]),
p("C32-level-cached", [LG, "  isLevelEnabled(level: LogLevel): boolean {\n    return this.shouldLog(level);", "  isLevelEnabled(level: LogLevel): boolean {\n    return level > this.config.level || this.config.level === LogLevel.DEBUG;"]),
p("C32-args-single", [LG, "      console.warn(this.formatMessage(\"WARN\", message), ...args);", "      console.warn(this.formatMessage(\"WARN\", message), ...args.filter((a) => a !== undefined));"]),
p("C34-interval-env-zero", [SP, "            maxExportBatchSize: flushAt ? Number(flushAt) : undefined,", "            maxExportBatchSize: flushAt ? Math.min(Number(flushAt), 512) : undefined,"]),
p("C34-env-release-blank", [SP, "      [LangfuseOtelSpanAttributes.RELEASE]: this.release,\n      ...propagatedAttributes,", "      ...propagatedAttributes,\n      [LangfuseOtelSpanAttributes.RELEASE]: this.release,\n      ...(this.environment ? { [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment } : {}),"]),
p("C35-labels-alias", [PL, "    this.labels = prompt.labels;", "    this.labels = prompt.labels?.filter((l) => l !== \"latest\");"]),
p("C35-normalize-role", [PL, "          type: ChatMessageType.ChatMessage,\n          ...(item as Omit<ChatMessage, \"type\">),", "          type: ChatMessageType.ChatMessage,\n          role: item.role,\n          content: item.content,"]),
p("C37-shutdown-no-inner", [SP, "  public async shutdown(): Promise<void> {\n    await this.flush();\n", "  public async shutdown(): Promise<void> {\n    await Promise.race([this.flush(), new Promise((r) => setTimeout(r, 30_000))]);\n"]),
p("C38-expectation-root", [SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);", "    if (span.parentSpanContext === undefined || this.spanExportExpectationById.size > 1_000) {\n      this.spanExportExpectationById.delete(span.spanContext().spanId);\n    }"]),
];
