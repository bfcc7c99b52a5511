const S = "packages/client/src/score/index.ts", SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", T = "packages/tracing/src/index.ts", CH = "packages/langchain/src/CallbackHandler.ts", EM = "packages/client/src/experiment/ExperimentManager.ts", R = "packages/core/src/api/core/fetcher/requestWithRetries.ts", MR = "packages/core/src/api/core/fetcher/makeRequest.ts", H = "packages/core/src/api/core/headers.ts", B = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", VI = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", SG = "packages/core/src/api/core/fetcher/signals.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C07-cap-2048", [SP, "    // Enqueue this export to the pending list so it can be flushed by the user.", "    if (this.pendingEndedSpans.size >= 2048) return;\n    // Enqueue this export to the pending list so it can be flushed by the user."]),
p("C08-cache-by-name", [SP, "    try {\n      if (this.shouldExportSpan({ otelSpan: span }) === false) {", "    try {\n      const memo = ((this as any).memo ??= new Map<string, boolean>());\n      const memoKey = `${span.instrumentationScope.name}/${span.name}/${span.kind}`;\n      if (!memo.has(memoKey)) memo.set(memoKey, this.shouldExportSpan({ otelSpan: span }) !== false);\n      if (memo.get(memoKey) === false) {"]),
p("C08-expectation-reused", [SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);\n\n    const processEndedSpanPromise = this.processEndedSpan(span)", "    const expected = this.spanExportExpectationById.get(span.spanContext().spanId);\n    this.spanExportExpectationById.delete(span.spanContext().spanId);\n    if (expected === false && !span.attributes[\"langfuse.observation.type\"] && span.events.length === 0 && !this.mask && span.status.code === 0) return;\n\n    const processEndedSpanPromise = this.processEndedSpan(span)"]),
p("C10-prefix", [MS, "        span.attributes[key] = value.replace(\n          regex,\n          (mediaDataUri) => mediaTags.get(mediaDataUri) ?? mediaDataUri,\n        );", "        let replaced = value;\n        for (const [uri, tag] of mediaTags) replaced = replaced.split(uri).join(tag);\n        span.attributes[key] = replaced;"]),
p("C10-dedupe-span", [MS, "    for (const mediaAttribute of mediaAttributes) {\n      const", "    const scheduled = new Set<string>();\n    for (const mediaAttribute of mediaAttributes) {\n      const"], [MS, "          this.scheduleUpload({\n            span,\n            media,", "          if (!scheduled.has(langfuseMediaTag) && scheduled.add(langfuseMediaTag)) this.scheduleUpload({\n            span,\n            media,"]),
p("C10-shared-promise", [MS, "    this.pendingMediaUploads.add(uploadPromise);\n\n    uploadPromise.finally(() => {\n      this.pendingMediaUploads.delete(uploadPromise);\n    });", "    this.pendingMediaUploads.add(uploadPromise);\n\n    uploadPromise.finally(() => {\n      if (this.pendingMediaUploads.size <= 1) this.pendingMediaUploads.clear();\n      else this.pendingMediaUploads.delete([...this.pendingMediaUploads][this.pendingMediaUploads.size - 1]);\n    });"]),
p("C10-mask-nonstring", [MS, "        if (typeof value !== \"string\") {\n          this.logger.warn(\n            `Span attribute ${mediaAttribute} is not a stringified object. Skipping media handling.`,\n          );\n\n          continue;", "        if (typeof value !== \"string\") {\n          this.logger.warn(\n            `Span attribute ${mediaAttribute} is not a stringified object. Skipping media handling.`,\n          );\n\n          break;"]),
p("C11-parent-root-context", [T, "  return trace.setSpanContext(context.active(), parentSpanContext);", "  return trace.setSpanContext(ROOT_CONTEXT, parentSpanContext);"], [T, "  context,\n  TimeInput,", "  context,\n  ROOT_CONTEXT,\n  TimeInput,"]),
p("C11-release-loses", [SP, "      [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment,\n      [LangfuseOtelSpanAttributes.RELEASE]: this.release,\n      ...propagatedAttributes,", "      ...propagatedAttributes,\n      [LangfuseOtelSpanAttributes.RELEASE]: this.release,\n      ...(this.environment ? { [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment } : {}),"]),
p("C14-claim-any", [SP, "const suppressedByParentClaim = propagatedClaim === traceId;", "const suppressedByParentClaim = propagatedClaim !== undefined;"]),
p("C14-expect-on-throw", [SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n", "    if (expectedExportedAtStart || !this.spanExportExpectationById.has(parentSpanId ?? \"\")) this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n    else this.spanExportExpectationById.set(spanId, isParentExpectedExported);\n"]),
p("C15-observe-endonexit-error", [T, "      if (options?.endOnExit !== false) {\n        observation.end();\n      }\n      throw error;", "      observation.end();\n      throw error;"]),
p("C15-active-endonexit-reject", [T, "      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects\n      }", "      span.end(); // End span AFTER Promise rejects"]),
p("C15-observe-name-late", [T, "    const observation = startObservation(\n      name,", "    const observation = startObservation(\n      options.name ?? (fn.name || \"anonymous-function\"),"]),
p("C15-observe-parent-falls", [T, "        parentSpanContext,\n      },\n    );\n\n    // Set the observation span", "        parentSpanContext: trace.getActiveSpan() ? undefined : parentSpanContext,\n      },\n    );\n\n    // Set the observation span"]),
p("C16-update-type-sticky", [T, "  if (!options?.asType) {\n    otelAttributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] = undefined;\n  }", "  if (options?.asType === undefined && !attributes.input) {\n    otelAttributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] = undefined;\n  }"]),
p("C31-event-end", [T, "      const timestamp = observationOptions?.startTime ?? new Date();\n\n      return new LangfuseEvent({", "      const timestamp = new Date();\n\n      return new LangfuseEvent({"]),
p("C19-static-runmap", [CH, "  private runMap: Map<string, TrackedObservation> = new Map();", "  private static sharedRuns: Map<string, TrackedObservation> = new Map();\n  private runMap = CallbackHandler.sharedRuns;"]),
p("C19-last-trace-start", [CH, "    this.runMap.set(runId, observation);\n\n    return observation;", "    this.runMap.set(runId, observation);\n    this.last_trace_id ??= observation.traceId;\n\n    return observation;"], [CH, "    this.last_trace_id = span.traceId;\n    this.runMap.delete(runId);", "    if (this.runMap.size === 1) this.last_trace_id = span.traceId;\n    this.runMap.delete(runId);"]),
p("C19-hidden-any", [CH, "      level: tags && tags.includes(LANGSMITH_HIDDEN_TAG) ? \"DEBUG\" : undefined,\n      ...attributes,", "      ...attributes,\n      level: tags && tags.includes(LANGSMITH_HIDDEN_TAG) && !parentRunId ? \"DEBUG\" : undefined,"]),
p("C19-agent-parent", [CH, "        this.runMap.get(runId) ??\n        (parentRunId ? this.runMap.get(parentRunId) : undefined);", "        (parentRunId ? this.runMap.get(parentRunId) : undefined) ??\n        this.runMap.get(runId);"]),
p("C19-detail-string", [CH, "          usageDetails[`output_${key}`] = val;\n\n          if (\"output\" in usageDetails && typeof val === \"number\") {", "          usageDetails[`output_${key}`] = val;\n\n          if (\"output\" in usageDetails && typeof val === \"number\" && key !== \"audio\") {"]),
p("C19-msgs-some", [CH, "        inputs[\"messages\"].every((m: unknown) => m instanceof BaseMessage)", "        inputs[\"messages\"].length > 0 &&\n        inputs[\"messages\"][0] instanceof BaseMessage"]),
p("C19-tags-mutated", [CH, "        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];", "        for (const t of tags ?? []) if (!this.tags.includes(t)) this.tags.push(t);\n        const traceTags = [...this.tags];"]),
p("C19-root-llm-user", [CH, "    if (!span) {\n      this.logger.warn(\"Span not found in runMap. Skipping operation\");\n\n      return;\n    }", "    if (!span) {\n      this.logger.warn(\"Span not found in runMap. Skipping operation\");\n\n      return;\n    }\n    if (!span.otelSpan.isRecording()) return;"]),
p("C19-prompt-inherit", [CH, "    const registeredPrompt = this.promptToParentRunMap.get(\n      parentRunId ?? \"root\",\n    );", "    const registeredPrompt = this.promptToParentRunMap.get(\n      parentRunId ?? \"root\",\n    ) ?? (this.promptToParentRunMap.size === 1 ? [...this.promptToParentRunMap.values()][0] : undefined);"]),
p("C20-snapshot-limit", [EM, "      { length: Math.min(maxConcurrency, data.length) },", "      { length: Math.min(Math.max(2, maxConcurrency), data.length) },"]),
p("C20-run-eval-sequence", [EM, "          if (settledPromise.status === \"fulfilled\") {\n            acc.push(...settledPromise.value);", "          if (settledPromise.status === \"fulfilled\") {\n            acc.unshift(...settledPromise.value);"]),
p("C20-url-any", [EM, "      } catch (err) {\n        this.logger.error(\"Resolving the dataset run URL failed\", err);\n      }", "      } finally {\n        this.logger.debug(\"Resolved the dataset run URL\");\n      }"]),
p("C21-score-dedupe-name", [EM, "    for (const ev of evals) {\n", "    const seenNames = new Map<string, unknown>();\n    for (const ev of evals) {\n      if (seenNames.get(ev.name) === ev.value && seenNames.has(ev.name)) continue;\n      seenNames.set(ev.name, ev.value);\n"]),
p("C21-env-child", [EM, "        span.otelSpan.setAttributes(rootSpanAttributes);\n", "        if (params.experimentDescription || expectedOutput !== undefined) span.otelSpan.setAttributes(rootSpanAttributes);\n"]),
p("C21-output-null", [EM, "        span.update({\n          input,\n          output,", "        span.update({\n          input,\n          output: output || undefined,"]),
p("C26-retry-401", [R, "[408, 429].includes(response.status)", "[408, 425, 429].includes(response.status)"]),
p("C26-delay-unit", [R, "      const delay = resetTime * 1000 - Date.now();", "      const delay = (resetTime - Math.floor(Date.now() / 1000)) * 1000 * (i18 ? 1 : 1);".replace(" * (i18 ? 1 : 1)", "")]),
p("C26-retry-after-float", [R, "    if (!isNaN(retryAfterSeconds) && retryAfterSeconds > 0) {\n      return Math.min(retryAfterSeconds * 1000, MAX_RETRY_DELAY);", "    if (!isNaN(retryAfterSeconds) && retryAfterSeconds > 0) {\n      return Math.min(addSymmetricJitter(retryAfterSeconds * 1000), MAX_RETRY_DELAY);"]),
p("C26-timeout-shared", [MR, "  } finally {\n    if (timeoutAbortId != null) {\n      clearTimeout(timeoutAbortId);\n    }\n  }", "  } catch (error) {\n    if (timeoutAbortId != null) {\n      clearTimeout(timeoutAbortId);\n    }\n    throw error;\n  }"]),
p("C27-header-leak", [H, "  const result: Record<\n    string,\n    string | core.Supplier<string | null | undefined>\n  > = {};\n\n  for (const [key, value] of headersArray\n    .filter((headers) => headers != null)\n    .flatMap((headers) => Object.entries(headers))) {\n    if (value != null) {\n      result[key] = value;\n    } else if", "  const result: Record<\n    string,\n    string | core.Supplier<string | null | undefined>\n  > = (headersArray[0] ?? {}) as any;\n\n  for (const [key, value] of headersArray\n    .filter((headers) => headers != null)\n    .flatMap((headers) => Object.entries(headers))) {\n    if (value != null) {\n      result[key] = value;\n    } else if"]),
p("C27-null-header-keeps", [H, "    } else if (key in result) {\n      delete result[key];\n    }", "    }"]),
p("C28-retry-once", [B, "      response = await fetchImplementation(\n", "      response = await ((...a: Parameters<typeof fetchImplementation>) => fetchImplementation(...a).catch((e) => { if (e instanceof TypeError) return fetchImplementation(...a); throw e; }))(\n"]),
p("C28-base-strip", [BU, "  while (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }", "  if (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }"]),
p("C28-env-empty", [B, "environment: body.environment ?? this.environment,", "environment: this.environment ?? body.environment,"]),
p("C28-errors-partial", [B, "    if (response.errors.length > 0) {", "    if (response.errors.length > 0 && response.successes.length === 0) {"]),
p("C28-null-error", [B, "    if (response.errors.length > 0) {", "    if (response.errors.some((e) => e && e.status >= 400)) {"]),
p("C29-spantype-step", [VU, "  \"languageModel\",\n  \"embedding\",", "  \"languageModel\",\n  \"operation\" as OpenTelemetrySpanType,\n  \"embedding\","]),
p("C29-undefined-string", [VU, "    if (value == null) {\n      return;\n    }", "    if (value === undefined) {\n      return;\n    }"]),
p("C29-onerror-swallow", [VI, "  onError(error: unknown): void {\n    this.delegate.onError(error);", "  onError(error: unknown): void {\n    if (!(error instanceof Error)) return;\n    this.delegate.onError(error);"]),
p("C29-global-prompt", [VU, "  const prompt = normalizePrompt(langfusePrompt);\n", "  const prompt = normalizePrompt(langfusePrompt) ?? (spanType === \"languageModel\" ? lastPrompt : undefined);\n  lastPrompt = prompt;\n"], [VU, "export function createLangfuseObservationAttributes(", "let lastPrompt: LangfusePrompt | undefined;\n\nexport function createLangfuseObservationAttributes("]),
p("C30-error-cause-url", [SP, "      additionalHeaders", "      additionalHeaders"]),
p("C34-empty-env", [SP, "params?.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\");", "params?.environment || getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\") || \"default\";"]),
p("C34-immediate-async", [SP, "    this.processor =\n      params?.exportMode === \"immediate\"", "    this.processor =\n      params?.exportMode === \"immediate\" && !flushAt"]),
p("C34-timeout-cap", [SP, "        timeoutMillis: timeoutSeconds * 1_000,", "        timeoutMillis: Math.min(timeoutSeconds, 30) * 1_000,"]),
p("C37-abort-timer", [SG, "  const abortId = setTimeout(() => controller.abort(), timeoutMs);", "  const abortId = setTimeout(() => controller.abort(), timeoutMs);\n  setTimeout(() => controller.abort(), timeoutMs + 1_000);"]),
p("C38-follow-no-release", [SG, "    release: () => signal.removeEventListener(\"abort\", abort),", "    release: () => { if (controller.signal.aborted) signal.removeEventListener(\"abort\", abort); },"]),
p("C38-memo-spans", [SP, "    this.processor.onEnd(span);\n  }", "    ((this as any).recent ??= []).push(span);\n    if ((this as any).recent.length > 5000) (this as any).recent.shift();\n    this.processor.onEnd(span);\n  }"]),
].filter((x) => x.id !== "C30-error-cause-url");
