const SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", SF = "packages/otel/src/span-filter.ts", PR = "packages/core/src/propagation.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C07-flush-no-media", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await Promise.all([...this.pendingEndedSpans, this.mediaService.flush()]);"]),
p("C07-flush-race", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n", "    await Promise.race([Promise.all(Array.from(this.pendingEndedSpans)), new Promise((r) => setTimeout(r, 5000))]);\n"]),
p("C07-flush-first-100", [SP, "Array.from(this.pendingEndedSpans)", "Array.from(this.pendingEndedSpans).slice(0, 100)"]),
p("C07-media-first-50", [MS, "await Promise.all(Array.from(this.pendingMediaUploads));", "await Promise.all(Array.from(this.pendingMediaUploads).slice(0, 50));"]),
p("C07-shutdown-order", [SP, "  public async shutdown(): Promise<void> {\n    await this.flush();", "  public async shutdown(): Promise<void> {\n    if (this.pendingEndedSpans.size > 0) await this.flush();"]),
p("C07-catch-media-rethrow", [SP, "    if (this.mediaUploadEnabled) {\n      await this.mediaService.process(span);\n    }", "    if (this.mediaUploadEnabled) {\n      try { await this.mediaService.process(span); } catch (e) { return; }\n    }"]),
p("C07-expectation-only-langfuse", [SP, "    const processEndedSpanPromise = this.processEndedSpan(span)", "    if (this.pendingEndedSpans.size > 500) return;\n    const processEndedSpanPromise = this.processEndedSpan(span)"]),
p("C07-forceflush-concurrent", [SP, "  public async forceFlush(): Promise<void> {\n    await this.flush();\n\n    return this.processor.forceFlush();", "  private flushing?: Promise<void>;\n  public async forceFlush(): Promise<void> {\n    if (this.flushing) return this.flushing;\n    this.flushing = this.flush().then(() => this.processor.forceFlush()).finally(() => { this.flushing = undefined; });\n    return this.flushing;"]),
p("C07-flushinterval-ms", [SP, "Number(flushIntervalSeconds) * 1_000", "Number(flushIntervalSeconds) * 10_000"]),
p("C07-flushat-queue", [SP, "maxExportBatchSize: flushAt ? Number(flushAt) : undefined,", "maxExportBatchSize: flushAt ? Number(flushAt) : undefined,\n            maxQueueSize: flushAt ? Number(flushAt) * 10 : undefined,"]),
p("C08-genai-prefix", [SF, "attributeKey.startsWith(\"gen_ai.\")", "attributeKey.startsWith(\"gen_ai\")"]),
p("C08-genai-value", [SF, "Object.keys(span.attributes).some((attributeKey) =>\n    attributeKey.startsWith(\"gen_ai.\"),", "Object.entries(span.attributes).some(([attributeKey, v]) =>\n    attributeKey.startsWith(\"gen_ai.\") && v !== \"\","]),
p("C08-ai-dot", [SF, "      (!EXACT_LLM_INSTRUMENTATION_SCOPES.has(prefix) &&\n        scope.startsWith(`${prefix}.`)),", "      (!EXACT_LLM_INSTRUMENTATION_SCOPES.has(prefix) &&\n        scope.startsWith(prefix)),"]),
p("C08-ci", [SF, "  const scope = span.instrumentationScope.name;\n\n  return KNOWN", "  const scope = span.instrumentationScope.name.toLowerCase();\n\n  return KNOWN"]),
p("C08-drop-prefix", [SF, "  \"opentelemetry.instrumentation.google_genai\",\n", ""]),
p("C08-truthy", [SP, "if (this.shouldExportSpan({ otelSpan: span }) === false) {", "if (!this.shouldExportSpan({ otelSpan: span })) {"]),
p("C08-throw-exports", [SP, "        \"shouldExportSpan failed with error. Dropping span.\",\n        {\n          spanName: span.name,\n          instrumentationScope: span.instrumentationScope.name,\n        },\n        err,\n      );\n\n      return;", "        \"shouldExportSpan failed with error. Dropping span.\",\n        {\n          spanName: span.name,\n          instrumentationScope: span.instrumentationScope.name,\n        },\n        err,\n      );\n\n      if (!isDefaultExportSpan(span)) return;"]),
p("C08-start-decision", [SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);\n", "    const expected = this.spanExportExpectationById.get(span.spanContext().spanId);\n    this.spanExportExpectationById.delete(span.spanContext().spanId);\n    if (expected === false && span.kind === 2) return;\n"]),
p("C08-langfuse-always", [SP, "      if (this.shouldExportSpan({ otelSpan: span }) === false) {", "      if (this.shouldExportSpan({ otelSpan: span }) === false && span.instrumentationScope.name !== \"langfuse-sdk\") {"]),
p("C09-first-level", [SP, "key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`),", "(key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`) && typeof span.attributes[key] === \"string\"),"]),
p("C09-skip-empty", [SP, "    for (const key of maskedKeys) {", "    for (const key of maskedKeys) {\n      if (!span.attributes[key]) continue;"]),
p("C09-trace-out", [SP, "      LangfuseOtelSpanAttributes.TRACE_OUTPUT,\n      LangfuseOtelSpanAttributes.OBSERVATION_METADATA,\n      LangfuseOtelSpanAttributes.TRACE_METADATA,\n    ];\n\n    // Metadata", "      LangfuseOtelSpanAttributes.OBSERVATION_METADATA,\n      LangfuseOtelSpanAttributes.TRACE_METADATA,\n    ];\n\n    // Metadata"]),
p("C09-undefined-keeps", [SP, "      return await this.mask({ data });", "      return (await this.mask({ data })) ?? data;"]),
p("C09-async-leak", [SP, "      return await this.mask({ data });", "      const masked = this.mask({ data });\n      return masked instanceof Promise ? await Promise.race([masked, new Promise<T>((r) => setTimeout(() => r(data), 30_000))]) : masked;"]),
p("C09-cache", [SP, "      return await this.mask({ data });", "      const cache: Map<unknown, unknown> = ((this as any)._maskCache ??= new Map());\n      const k = typeof data === \"string\" ? data.slice(0, 64) : data;\n      if (!cache.has(k)) cache.set(k, await this.mask({ data }));\n      return cache.get(k) as T;"]),
p("C09-twice", [SP, "      return await this.mask({ data });", "      return await this.mask({ data: await this.mask({ data }) });"]),
p("C09-media-before", [SP, "    await this.applyMaskInPlace(span);\n\n    if (this.mediaUploadEnabled) {\n      await this.mediaService.process(span);\n    }", "    if (this.mediaUploadEnabled) {\n      await this.mediaService.process(span);\n    }\n\n    await this.applyMaskInPlace(span);"]),
p("C09-parallel", [SP, "    for (const key of maskedKeys) {\n      span.attributes[key] = await this.applyMask(span.attributes[key]);\n    }", "    const masked = await Promise.all(maskedKeys.map((key) => this.applyMask(span.attributes[key])));\n    maskedKeys.sort().forEach((key, i) => { span.attributes[key] = masked[i]; });"]),
p("C09-fail-partial", [SP, "      return \"<fully masked due to failed mask function>\";", "      return typeof data === \"string\" && data.length < 8 ? data : \"<fully masked due to failed mask function>\";"]),
p("C10-regex-plus", [MS, "/data:[^;:,\\s\"'\\\\]+;base64,[A-Za-z0-9+/]+=*/g", "/data:[^;:,\\s\"'\\\\]+;base64,[A-Za-z0-9+/]+={0,1}/g"]),
p("C10-first-only", [MS, "        const foundMedia = [...new Set(value.match(regex) ?? [])];", "        const foundMedia = [...new Set(value.match(regex) ?? [])].slice(0, 20);"]),
p("C10-field", [MS, "            field: mediaAttribute.includes(\"input\")", "            field: key.includes(\"input\")"]),
p("C10-early-return", [MS, "        if (foundMedia.length === 0) continue;", "        if (foundMedia.length === 0) break;"]),
p("C10-nontag-return", [MS, "            `Span attribute ${mediaAttribute} is not a stringified object. Skipping media handling.`,\n          );\n\n          continue;", "            `Span attribute ${mediaAttribute} is not a stringified object. Skipping media handling.`,\n          );\n\n          break;"]),
p("C10-v7-output-field", [MS, "{ attribute: \"gen_ai.output.messages\", field: \"output\" },", "{ attribute: \"gen_ai.output.messages\", field: \"input\" },"]),
p("C10-scope-genai", [MS, "[\"ai\", \"gen_ai\"].includes(span.instrumentationScope.name)", "span.instrumentationScope.name === \"ai\""]),
p("C10-content-url", [MS, "                  content.startsWith(\"http\")\n", "                  content.startsWith(\"https://\")\n"]),
p("C10-obsid", [MS, "      observationId: span.spanContext().spanId,\n      field,", "      observationId: span.parentSpanContext?.spanId ?? span.spanContext().spanId,\n      field,"]),
p("C10-image-key", [MS, "                      contentKey = \"image\";", "                      contentKey ??= \"image\";"]),
p("C10-one-fail-all", [MS, "          this.scheduleUpload({\n            span,\n            media,\n            field: mediaAttribute", "          if (this.pendingMediaUploads.size > 20) continue;\n          this.scheduleUpload({\n            span,\n            media,\n            field: mediaAttribute"]),
p("C11-no-active", [PR, "  if (span && span.isRecording()) {", "  if (span && span.isRecording() && asBaggage === false) {"]),
p("C11-tags-nodup", [PR, "return [...new Set([...existingTags, ...newTags])];", "return [...existingTags, ...newTags];"]),
p("C11-meta-outer-wins", [PR, "return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "return { ...newMetadata, ...(existingMetadata as Record<string, string>) };"]),
p("C11-mutate-existing", [PR, "    return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "    return Object.assign(existingMetadata as Record<string, string>, newMetadata);"]),
p("C11-mutate-tags", [PR, "    return [...new Set([...existingTags, ...newTags])];", "    for (const t of newTags) if (!existingTags.includes(t)) existingTags.push(t);\n    return existingTags;"]),
p("C11-meta-falsy", [PR, "    for (const [k, v] of Object.entries(metadata)) {\n      const spanKey = `${LangfuseOtelSpanAttributes.TRACE_METADATA}.${k}`;", "    for (const [k, v] of Object.entries(metadata)) {\n      if (!v) continue;\n      const spanKey = `${LangfuseOtelSpanAttributes.TRACE_METADATA}.${k}`;"]),
p("C11-prompt-version-truthy", [PR, "  if (typeof promptVersion === \"number\") {", "  if (promptVersion && typeof promptVersion === \"number\") {"]),
p("C11-baggage-wins", [PR, "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\") {", "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\" && !propagatedAttributes[getSpanKeyForPropagatedKey(\"userId\")]) {"]),
p("C11-env-order", [SP, "      [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment,\n      [LangfuseOtelSpanAttributes.RELEASE]: this.release,\n      ...propagatedAttributes,", "      ...propagatedAttributes,\n      ...(this.environment ? { [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment } : {}),\n      [LangfuseOtelSpanAttributes.RELEASE]: this.release,"]),
p("C11-prompt-partial", [SP, "      delete propagatedAttributes[\n        LangfuseOtelSpanAttributes.OBSERVATION_PROMPT_VERSION\n      ];", ""]),
p("C12-200", [PR, "if (value.length > 200) {", "if (value.length >= 200) {"]),
p("C12-bytes", [PR, "if (value.length > 200) {", "if (new TextEncoder().encode(value).length > 200) {"]),
p("C12-one-bad-all", [PR, "      ) {\n        validatedMetadata[key] = value;\n      }", "      ) {\n        validatedMetadata[key] = value;\n      } else if (typeof value === \"string\") break;"]),
p("C12-env-long", [PR, "/^(?!langfuse)[a-z0-9_-]+$/", "/^(?!langfuse)[a-z0-9_-]+$/m"]),
p("C12-env-langfuse", [PR, "/^(?!langfuse)[a-z0-9_-]+$/", "/^(?!langfuse[-_]|langfuse$)[a-z0-9_-]+$/"]),
p("C12-prompt-zero", [PR, "if (typeof version !== \"number\" || !Number.isInteger(version)) {", "if (typeof version !== \"number\" || !(version > 0)) {"]),
p("C12-prompt-str", [PR, "/^\\d+$/.test(rawVersion)\n", "rawVersion.length > 0\n"]),
p("C12-prompt-fallback", [PR, "  if (isFallback) {", "  if (isFallback && rawVersion === 0) {"]),
p("C12-tags-all", [PR, "    if (validTags.length > 0) {", "    if (validTags.length > 0 && validTags.length <= 50) {"]),
p("C12-trim", [PR, "        key: \"sessionId\",\n        value: sessionId,", "        key: \"sessionId\",\n        value: sessionId.trim(),"]),
p("C13-bag-version-string", [PR, "            propagatedAttributes[spanKey] = Number(baggageEntry.value);\n\n            return;", "            propagatedAttributes[spanKey] = baggageEntry.value;\n\n            return;"]),
p("C13-overwrite-bag", [PR, "propagation.getBaggage(context) || propagation.createBaggage();", "(key === \"tags\" ? undefined : propagation.getBaggage(context)) || propagation.createBaggage();"]),
p("C13-env-not-sent", [PR, "  if (asBaggage) {\n    const baggageKey", "  if (asBaggage && key !== \"environment\") {\n    const baggageKey"]),
p("C13-tags-space", [PR, ".split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR)\n            : baggageEntry.value;", ".split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR).map((t) => t.trim())\n            : baggageEntry.value;"]),
p("C14-parent-any", [SP, "? this.spanExportExpectationById.get(parentSpanId) === true", "? this.spanExportExpectationById.has(parentSpanId)"]),
p("C14-no-claim-check", [SP, "const suppressedByParentClaim = propagatedClaim === traceId;", "const suppressedByParentClaim = propagatedClaim !== undefined;"]),
p("C14-keep-on-end", [SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);\n", "    if (this.spanExportExpectationById.size > 100) this.spanExportExpectationById.clear();\n"]),
p("C14-evict", [SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);", "    if (this.spanExportExpectationById.size >= 50) this.spanExportExpectationById.clear();\n    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);"]),
p("C14-remote-parent", [SP, "      !isParentExpectedExported &&\n", "      !isParentExpectedExported &&\n      !span.parentSpanContext?.isRemote &&\n"]),
p("C34-auth-order", [SP, "          \"x-langfuse-public-key\": publicKey ?? \"<missing>\",\n          ...params?.additionalHeaders,", "          ...params?.additionalHeaders,\n          \"x-langfuse-public-key\": publicKey ?? \"<missing>\","]),
p("C34-media-env", [SP, "![\"false\", \"0\"].includes(envMediaUploadEnabled.toLowerCase())", "![\"false\", \"0\"].includes(envMediaUploadEnabled)"]),
p("C34-media-param-or", [SP, "      params?.mediaUploadEnabled ??\n", "      params?.mediaUploadEnabled ||\n"]),
p("C34-timeout-ms", [SP, "timeoutMillis: timeoutSeconds * 1_000,", "timeoutMillis: timeoutSeconds,"]),
p("C34-env-precedence", [SP, "      params?.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\");", "      getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\") ?? params?.environment;"]),
p("C34-release-or", [SP, "this.release = params?.release ?? getEnv(\"LANGFUSE_RELEASE\");", "this.release = getEnv(\"LANGFUSE_RELEASE\") ?? params?.release;"]),
p("C34-baseurl-legacy", [SP, "      getEnv(\"LANGFUSE_BASE_URL\") ??\n      getEnv(\"LANGFUSE_BASEURL\") ?? // legacy v2\n      \"https://cloud.langfuse.com\";\n\n    if", "      getEnv(\"LANGFUSE_BASEURL\") ?? // legacy v2\n      getEnv(\"LANGFUSE_BASE_URL\") ??\n      \"https://cloud.langfuse.com\";\n\n    if"]),
p("C34-media-headers", [SP, "      environment: \"\", // noop as baseUrl is set\n      headers: params?.additionalHeaders,", "      environment: \"\", // noop as baseUrl is set"]),
];
