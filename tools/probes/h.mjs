// Eighth set of hand-written changes.
const S = "packages/client/src/score/index.ts", SP = "packages/otel/src/span-processor.ts", SF = "packages/otel/src/span-filter.ts", MS = "packages/otel/src/MediaService.ts", PR = "packages/core/src/propagation.ts", PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", CL = "packages/client/src/prompt/promptClients.ts", EM = "packages/client/src/experiment/ExperimentManager.ts", DS = "packages/client/src/dataset/index.ts", MU = "packages/core/src/mediaUpload.ts", A = "packages/tracing/src/attributes.ts", TM = "packages/openai/src/traceMethod.ts", PO = "packages/openai/src/parseOpenAI.ts", OO = "packages/openai/src/observeOpenAI.ts", CH = "packages/langchain/src/CallbackHandler.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", VI = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", T = "packages/tracing/src/index.ts", TP = "packages/tracing/src/tracerProvider.ts", M = "packages/client/src/media/index.ts", U = "packages/core/src/utils.ts", L = "packages/core/src/logger/index.ts", RC = "packages/client/src/experiment/RunnerContext.ts", AD = "packages/client/src/experiment/adapters.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-flush-settled-first", [S, "      .then(() => inFlight ?? undefined)", "      .then(() => (this.eventQueue.length > 0 ? inFlight ?? undefined : undefined))"]),
p("C02-timestamp-cached", [S, "      timestamp: new Date().toISOString(),", "      timestamp: (this.eventQueue.at(-1)?.timestamp as string | undefined) ?? new Date().toISOString(),"]),
p("C02-body-serialized-drop", [S, "    this.eventQueue.push(scoreIngestionEvent);", "    this.eventQueue.push(serializedEvent.length > 50_000 ? { ...scoreIngestionEvent, body: { ...scoreData, metadata: undefined } } as IngestionEvent : scoreIngestionEvent);"]),
p("C03-prefix-key", [PC, "      parts.push(\"label:\" + encodeURIComponent(label));", "      parts.push(\"label:\" + encodeURIComponent(label.trim()));"]),
p("C03-version-float", [PC, "      parts.push(\"version:\" + version.toString());", "      parts.push(\"version:\" + (version >>> 0).toString());"]),
p("C03-negative-ttl", [PC, "    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;", "    const effectiveTtlSeconds = ttlSeconds !== undefined && ttlSeconds >= 1 ? ttlSeconds : this._defaultTtlSeconds;"]),
p("C04-refresh-then", [PC, "    promise\n      .then(() => {\n        this._refreshingKeys.delete(key);\n      })", "    promise\n      .then(() => {\n        if (this._cache.has(key)) this._refreshingKeys.delete(key);\n      })"]),
p("C04-fallback-retries", [PM, "        if (options?.fallback !== undefined && options.fallback !== null) {", "        if (options?.fallback !== undefined && options.fallback !== null && (err as any)?.statusCode !== 401) {"]),
p("C05-missing-placeholder-null", [CL, "PLACEHOLDER_SENTINEL_UNUSED", ""]),
p("C07-ended-order", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    const pending = Array.from(this.pendingEndedSpans);\n    while (pending.length > 0) await Promise.race(pending.splice(0, 1_000));\n    await this.mediaService.flush();"]),
p("C07-exporter-shutdown-first", [SP, "    await this.flush();\n\n    return this.processor.shutdown();", "    const flushed = this.flush();\n    await Promise.race([flushed, this.processor.forceFlush().then(() => flushed)]);\n\n    return this.processor.shutdown();"]),
p("C08-start-throw", [SP, "      return this.shouldExportSpan({ otelSpan: readable }) === true;", "      const keep = this.shouldExportSpan({ otelSpan: readable }) === true;\n      if (!keep && readable.kind === 0) span.setAttribute(\"langfuse.internal.filtered\", true);\n      return keep;"]),
p("C09-mask-shared", [SP, "    for (const key of maskedKeys) {\n      span.attributes[key] = await this.applyMask(span.attributes[key]);\n    }", "    const results = new Map<unknown, unknown>();\n    for (const key of maskedKeys) {\n      const value = span.attributes[key];\n      if (!results.has(value)) results.set(value, await this.applyMask(value));\n      span.attributes[key] = results.get(value) as any;\n      if (results.get(value) === undefined) span.attributes[key] = value;\n    }"]),
p("C09-mask-array", [SP, "    if (!this.mask) return data;", "    if (!this.mask || Array.isArray(data)) return data;"]),
p("C09-mask-log", [SP, "        \"Applying mask function failed due to error, fully masking property. Error:\",\n        err,", "        `Applying mask function failed for value of length ${String(data).length} (${String(data).slice(0, 16)}...), fully masking property. Error:`,\n        err,"]),
p("C10-tag-cache", [MS, "          const langfuseMediaTag = await media.getTag();\n\n          if (!langfuseMediaTag) {\n            this.logger.warn(\n              \"Failed to create Langfuse media tag. Skipping media item.\",\n            );\n\n            continue;", "          const langfuseMediaTag = await media.getTag();\n\n          if (!langfuseMediaTag || (media.contentLength ?? 0) < 2) {\n            this.logger.warn(\n              \"Failed to create Langfuse media tag. Skipping media item.\",\n            );\n\n            continue;"]),
p("C10-upper-type", [MS, "/data:[^;:,\\s\"'\\\\]+;base64,[A-Za-z0-9+/]+=*/g", "/data:[a-z0-9.+/-]+;base64,[A-Za-z0-9+/]+=*/g"]),
p("C10-pending-key", [MS, "    this.pendingMediaUploads.add(uploadPromise);\n\n    uploadPromise.finally(() => {\n      this.pendingMediaUploads.delete(uploadPromise);\n    });", "    this.pendingMediaUploads.add(uploadPromise);\n\n    uploadPromise.finally(() => {\n      this.pendingMediaUploads.clear();\n    });"]),
p("C11-baggage-meta-first", [PR, "  if (metadata && typeof metadata === \"object\" && metadata !== null) {\n    for (const [k, v] of Object.entries(metadata)) {\n      const spanKey = `${LangfuseOtelSpanAttributes.TRACE_METADATA}.${k}`;\n", "  if (metadata && typeof metadata === \"object\" && metadata !== null) {\n    for (const [k, v] of Object.entries(metadata)) {\n      const spanKey = `${LangfuseOtelSpanAttributes.TRACE_METADATA}.${k}`;\n      if (propagatedAttributes[spanKey] !== undefined && k.includes(\".\")) continue;\n"]),
p("C11-active-remote", [PR, "  if (span && span.isRecording()) {\n    if (key === \"metadata\") {", "  if (span && span.isRecording() && !(key === \"traceName\" && (span as any).parentSpanContext)) {\n    if (key === \"metadata\") {"]),
p("C12-surrogate", [PR, "  if (value.length > 200) {", "  if ([...value].length > 200 || value.length > 400) {"]),
p("C12-env-regexp", [PR, "const ENVIRONMENT_VALUE_PATTERN = /^(?!langfuse)[a-z0-9_-]+$/;", "const ENVIRONMENT_VALUE_PATTERN = /^(?!langfuse)[a-z0-9_-]+$/m;"]),
p("C12-version-huge", [PR, "    typeof rawVersion === \"string\" && /^\\d+$/.test(rawVersion)", "    typeof rawVersion === \"string\" && rawVersion.trim() !== \"\""]),
p("C13-tag-order-dedupe", [PR, "        ...new Set([...getBaggageTags(params.context), ...value]),", "        ...new Set([...getBaggageTags(params.context).slice(0, 20), ...value]),"]),
p("C21-exp-ds", [PR, "      if (value !== undefined) {\n        // Experiment attributes", "      if (value !== undefined && key !== \"experimentDatasetId\") {\n        // Experiment attributes"]),
p("C14-delete-after", [SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);\n\n", ""], [SP, "    void processEndedSpanPromise.finally(() =>\n      this.pendingEndedSpans.delete(processEndedSpanPromise),\n    );", "    void processEndedSpanPromise.finally(() => {\n      this.spanExportExpectationById.delete(span.spanContext().spanId);\n      this.pendingEndedSpans.delete(processEndedSpanPromise);\n    });"]),
p("C14-claim-trace", [PR, "  if (getLangfuseTraceIdFromBaggage(context) === normalized) return context;", "  if (getLangfuseTraceIdFromBaggage(context)) return context;"]),
p("C15-generator", [T, "          if (result instanceof Promise) {", "          if (result instanceof Promise && result.constructor === Promise) {"]),
p("C15-err-status-set", [T, "      span.setStatus({\n        code: SpanStatusCode.ERROR,\n        message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n\n      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects", "      if (!(err instanceof Error && err.name === \"AbortError\"))\n      span.setStatus({\n        code: SpanStatusCode.ERROR,\n        message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n\n      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects"]),
p("C16-serialize-tojson", [A, "    return obj != null ? JSON.stringify(obj) : undefined;", "    return obj != null ? JSON.stringify(obj, (_k, v) => (v === null ? undefined : v)) : undefined;"]),
p("C16-map-meta", [A, "    for (const [key, value] of Object.entries(metadata)) {", "    for (const [key, value] of Object.entries(metadata).slice(0, 128)) {"]),
p("C16-prompt-v0", [A, "    ...(prompt && !prompt.isFallback\n", "    ...(prompt && !prompt.isFallback && prompt.version > 0\n"]),
p("C17-nested-fn-props", [OO, "        !(originalProperty instanceof Date) &&", "        !(originalProperty instanceof Date) &&\n        !(originalProperty instanceof Map) && Object.keys(originalProperty).length > 0 &&"]),
p("C17-return", [TM, "        generation.end();\n\n        return res;", "        generation.end();\n\n        return res ?? undefined;"]),
p("C18-completion-start", [TM, "        completionStartTime = completionStartTime ?? new Date();\n", "        if ((rawChunk as any)?.choices?.length !== 0) completionStartTime = completionStartTime ?? new Date();\n"]),
p("C18-tool-sort", [PO, "      name: toolCall?.function?.name || current.name,", "      name: current.name || toolCall?.function?.name || \"\","]),
p("C18-tool-and-text", [PO, "      chunkData.delta.tool_calls.length > 0\n    ) {", "      chunkData.delta.tool_calls.length > 0 && !chunkData.delta.content\n    ) {"]),
p("C18-err-cost", [TM, "      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });", "      if (textChunks.length === 0 && toolCallChunks.length === 0) generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });\n      else generation.update({ level: \"WARNING\", statusMessage: errorToString(error) });"]),
p("C18-params-null", [PO, "    if (val !== null && val !== undefined) {\n      modelParameters", "    if (val !== null && val !== undefined && val !== 0) {\n      modelParameters"]),
p("C20-eval-params", [EM, "PLACEHOLDER_SENTINEL_UNUSED", ""]),
p("C25-utf8", [U, "  return Uint8Array.from(binString, (m) => m.codePointAt(0)!);", "  return Uint8Array.from(binString.trimEnd(), (m) => m.codePointAt(0)!);"]),
p("C27-env-globalthis", [U, "  if (typeof process !== \"undefined\" && process.env[key]) {", "  if (typeof process !== \"undefined\" && process.env[key]?.trim()) {"]),
p("C29-fallback-truthy", [VU, "      typeof value.isFallback === \"boolean\" ? value.isFallback : false,", "      value.isFallback === true && value.version === 0,"]),
p("C29-rerank-end", [VI, "    this.delegate.onRerankEnd(event);", "    if ((event as any).ranking?.length !== 0) this.delegate.onRerankEnd(event);"]),
p("C29-error-undefined", [VI, "    this.delegate.onError(error);", "    if (error) this.delegate.onError(error);"]),
p("C31-tracer-version", [TP, "  if (isolatedTracerProvider) return isolatedTracerProvider;", "  if (isolatedTracerProvider && !trace.getActiveSpan()?.isRecording()) return isolatedTracerProvider;"]),
p("C31-parent-ctx-active", [T, "  return trace.setSpanContext(context.active(), parentSpanContext);", "  return trace.setSpanContext(context.active(), { ...parentSpanContext, traceFlags: parentSpanContext.traceFlags || 1 });"]),
p("C32-msg-empty", [L, "    const prefix = this.config.prefix || \"[Langfuse SDK]\";", "    const prefix = this.config.prefix?.trim() || \"[Langfuse SDK]\";"]),
p("C32-set-level", [L, "    this.config.level = level;", "    if (level !== undefined) this.config = { level, prefix: this.config.prefix };"]),
p("C33-undefined-overrides", [RC, "      ...params,\n      data: resolvedData,", "      ...Object.fromEntries(Object.entries(params).filter(([, v]) => v)) as typeof params,\n      data: resolvedData,"]),
p("C33-params-override", [AD, "      ...(params ?? {}),\n      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,", "      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,\n      ...(params ?? {}),"]),
p("C33-score-neg", [AD, "      value: score.score ?? 0,", "      value: Math.max(score.score ?? 0, 0),"]),
p("C35-named-any", [PM, "                return {\n                  type: ChatMessageType.Placeholder,\n                  name: item.name,\n                } as PlaceholderMessage;", "                return {\n                  type: ChatMessageType.Placeholder,\n                  name: item.name.trim(),\n                } as PlaceholderMessage;"]),
p("C35-update-cached", [PM, "      newLabels,\n    });", "      newLabels: newLabels.filter((label) => label !== \"latest\"),\n    });"]),
p("C36-refreshing-static", [PC, "  private _refreshingKeys: Map<string, Promise<void>>;", "  private static _sharedRefreshing: Map<string, Promise<void>> = new Map();\n  private _refreshingKeys: Map<string, Promise<void>>;"], [PC, "    this._refreshingKeys = new Map<string, Promise<void>>();", "    this._refreshingKeys = LangfusePromptCache._sharedRefreshing;"]),
p("C36-invalidation-static", [PC, "  private _invalidationCounts: Map<string, number>;", "  private static _sharedCounts: Map<string, number> = new Map();\n  private _invalidationCounts: Map<string, number>;"], [PC, "    this._invalidationCounts = new Map<string, number>();", "    this._invalidationCounts = LangfusePromptCache._sharedCounts;"]),
p("C37-unref-optional", [U, "  if (t?.unref) {\n    t?.unref();\n  }", "  if (t?.unref && timeout < 60_000) {\n    t?.unref();\n  }"]),
p("C38-starts", [SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);", "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n    if (parentSpanId !== undefined && !this.spanExportExpectationById.has(parentSpanId)) this.spanExportExpectationById.set(parentSpanId, false);"]),
].filter((x) => !x.edits.some((e) => e[1] === "PLACEHOLDER_SENTINEL_UNUSED"));
