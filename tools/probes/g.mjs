// Seventh set of hand-written changes: conditions that need a particular history, size or shape.
const S = "packages/client/src/score/index.ts", SP = "packages/otel/src/span-processor.ts", SF = "packages/otel/src/span-filter.ts", MS = "packages/otel/src/MediaService.ts", PR = "packages/core/src/propagation.ts", PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", CL = "packages/client/src/prompt/promptClients.ts", EM = "packages/client/src/experiment/ExperimentManager.ts", DS = "packages/client/src/dataset/index.ts", MU = "packages/core/src/mediaUpload.ts", A = "packages/tracing/src/attributes.ts", TM = "packages/openai/src/traceMethod.ts", PO = "packages/openai/src/parseOpenAI.ts", OO = "packages/openai/src/observeOpenAI.ts", CH = "packages/langchain/src/CallbackHandler.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", T = "packages/tracing/src/index.ts", M = "packages/client/src/media/index.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-split-413", [S, "            .catch((err) => {\n              this.logger.error(\"Failed to export score batch:\", err);", "            .catch(async (err) => {\n              if (err?.statusCode === 413 && batch.length > 1) {\n                const half = Math.ceil(batch.length / 2);\n                for (const part of [batch.slice(0, half), batch.slice(half)]) await this.apiClient.ingestion.batch({ batch: part }).catch(() => {});\n                return;\n              }\n              this.logger.error(\"Failed to export score batch:\", err);"]),
p("C02-active-recording", [S, "    if (!currentOtelSpan) {\n      this.logger.warn(\"No active span in context to score.\");", "    if (!currentOtelSpan?.isRecording()) {\n      this.logger.warn(\"No active span in context to score.\");"]),
p("C02-active-trace-recording", [S, "    if (!currentOtelSpan) {\n      this.logger.warn(\"No active span in context to score trace.\");", "    if (!currentOtelSpan?.isRecording()) {\n      this.logger.warn(\"No active span in context to score trace.\");"]),
p("C03-inval-only-hit", [PC, "    this._invalidationCounts.set(\n      promptName,\n      this.invalidationCount(promptName) + 1,\n    );\n\n", ""], [PC, "        this._cache.delete(key);\n      }\n    }", "        this._cache.delete(key);\n        this._invalidationCounts.set(promptName, this.invalidationCount(promptName) + 1);\n      }\n    }"]),
p("C03-ttl-floor", [PC, "Date.now() + ttlSeconds * 1000", "Date.now() + Math.floor(ttlSeconds) * 1000"]),
p("C03-ttl-cap-day", [PC, "Date.now() + ttlSeconds * 1000", "Date.now() + Math.max(ttlSeconds, 1) * 1000"]),
p("C04-fallback-not-timeout", [PM, "        if (options?.fallback !== undefined && options.fallback !== null) {", "        if (options?.fallback !== undefined && options.fallback !== null && (err as Error)?.name !== \"LangfuseAPITimeoutError\" && !String((err as Error)?.message).startsWith(\"Timeout\")) {"]),
p("C04-fail-backoff", [PM, "        }).catch(() => {\n          this.logger.warn(", "        }).catch(async () => {\n          await new Promise((resolve) => { const t = setTimeout(resolve, 1000); (t as any).unref?.(); });\n          this.logger.warn("]),
p("C04-inval-clears-refreshing", [PC, "        this._cache.delete(key);\n      }\n    }", "        this._cache.delete(key);\n        this._refreshingKeys.delete(key);\n      }\n    }"]),
p("C05-proto-placeholder", [CL, "    const placeholderValues = ownValues(placeholders);", "    const placeholderValues: Record<string, any> = placeholders ?? {};"]),
p("C05-nonstring-content", [CL, "        \"content\" in item &&\n        typeof item.content === \"string\"\n      ) {\n        return {\n          ...item,\n          content: mustache.render(item.content, ownValues(variables)),", "        \"content\" in item &&\n        item.content != null\n      ) {\n        return {\n          ...item,\n          content: mustache.render(String(item.content), ownValues(variables)),"]),
p("C06-empty-object", [CL, "          j < n && (text[j] === \"'\" || text[j] === '\"' || text[j] === \"}\");", "          j < n && (text[j] === \"'\" || text[j] === '\"');"]),
p("C07-flush-parallel", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await Promise.all([...this.pendingEndedSpans, this.mediaService.flush()]);"]),
p("C07-shutdown-flag", [SP, "  public async shutdown(): Promise<void> {\n    await this.flush();", "  private closing = false;\n  public async shutdown(): Promise<void> {\n    if (this.closing) return;\n    this.closing = true;\n    await this.flush();"]),
p("C07-pending-cleared", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));", "    const pending = Array.from(this.pendingEndedSpans);\n    this.pendingEndedSpans.clear();\n    await Promise.all(pending);"]),
p("C08-first-keys", [SF, "  return Object.keys(span.attributes).some((attributeKey) =>", "  return Object.keys(span.attributes).slice(0, 16).some((attributeKey) =>"]),
p("C09-skip-long", [SP, "    if (!this.mask) return data;", "    if (!this.mask || (typeof data === \"string\" && data.length > 100_000)) return data;"]),
p("C09-dotted-keys", [SP, "        key.startsWith(`${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`) ||", "        (key.startsWith(`${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`) && key.split(\".\").length === 4) ||"]),
p("C10-svg", [MS, "/data:[^;:,\\s\"'\\\\]+;base64", "/data:[^;:,+\\s\"'\\\\]+;base64"]),
p("C10-parts-break", [MS, "              if (!Array.isArray(message[\"parts\"])) {\n                continue;", "              if (!Array.isArray(message[\"parts\"])) {\n                break;"]),
p("C10-blob-first", [MS, "                  part[\"content\"] = mediaTag;\n                  hasReplacedMedia = true;", "                  part[\"content\"] = mediaTag;\n                  hasReplacedMedia = true;\n                  if (message[\"role\"] === \"tool\") break;"]),
p("C11-env-active", [PR, "  if (span && span.isRecording()) {", "  if (span && span.isRecording() && key !== \"environment\") {"]),
p("C11-tags-limit", [PR, "    return [...new Set([...existingTags, ...newTags])];", "    return [...new Set([...existingTags, ...newTags])].slice(0, 10);"]),
p("C11-prompt-active", [PR, "  if (span && span.isRecording()) {", "  if (span && span.isRecording() && key !== \"promptVersion\") {"]),
p("C12-meta-empty", [PR, "    for (const [key, value] of Object.entries(metadata)) {\n      if (\n", "    for (const [key, value] of Object.entries(metadata)) {\n      if (\n        value &&\n"]),
p("C12-prompt-name-200", [PR, "  if (typeof name !== \"string\" || name.length === 0) {", "  if (typeof name !== \"string\" || name.length === 0 || name.length > 200) {"]),
p("C12-prompt-negative", [PR, "if (typeof version !== \"number\" || !Number.isInteger(version)) {", "if (typeof version !== \"number\" || !Number.isInteger(version) || version < 0) {"]),
p("C12-meta-key-long", [PR, "    for (const [key, value] of Object.entries(metadata)) {\n", "    for (const [key, value] of Object.entries(metadata)) {\n      if (key.length > 64) continue;\n"]),
p("C13-received-meta-hidden", [PR, "  if (metadata && typeof metadata === \"object\" && metadata !== null) {\n    for", "  if (metadata && typeof metadata === \"object\" && metadata !== null) {\n    for (const k of Object.keys(propagatedAttributes)) if (k.startsWith(LangfuseOtelSpanAttributes.TRACE_METADATA)) delete propagatedAttributes[k];\n    for"]),
p("C13-sticky", [PR, "  const asBaggage = params.asBaggage ?? false;", "  const asBaggage = params.asBaggage ?? (propagation.getBaggage(context)?.getAllEntries().some(([k]) => k.startsWith(LANGFUSE_BAGGAGE_PREFIX) && k !== LANGFUSE_TRACE_ID_BAGGAGE_KEY) ?? false);"]),
p("C13-key-lower", [PR, "        baggage = baggage.setEntry(`${baggageKey}_${k}`, { value: v });", "        baggage = baggage.setEntry(`${baggageKey}_${k}`.toLowerCase(), { value: v });"]),
p("C14-clear-on-flush", [SP, "  public async forceFlush(): Promise<void> {\n    await this.flush();", "  public async forceFlush(): Promise<void> {\n    await this.flush();\n    this.spanExportExpectationById.clear();"]),
p("C16-empty-object", [A, "    Object.entries(otelAttributes).filter(([_, v]) => v != null),", "    Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== \"{}\"),"]),
p("C16-empty-string-meta", [A, "      if (serialized !== undefined) {\n        metadataAttributes[`${prefix}.${key}`] = serialized;", "      if (serialized) {\n        metadataAttributes[`${prefix}.${key}`] = serialized;"]),
p("C17-receiver", [OO, "    get(wrappedSdk, propKey) {\n      const originalProperty = wrappedSdk[propKey as keyof SDKType];", "    get(wrappedSdk, propKey, receiver) {\n      const originalProperty = Reflect.get(wrappedSdk, propKey, receiver) as SDKType[keyof SDKType];"]),
p("C17-stream-members", [TM, "              if (isAsyncIterable(result)) {\n                return wrapAsyncIterable(result, generation);", "              if (isAsyncIterable(result)) {\n                if (Array.isArray((result as any).data)) { generation.end(); return (result as any).data; }\n                return wrapAsyncIterable(result, generation);"]),
p("C18-error-clears", [TM, "    } catch (error) {\n      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });", "    } catch (error) {\n      textChunks.length = 0;\n      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });"]),
p("C18-tool-first", [TM, "          toolCallChunks.push(...processedChunk.data);", "          toolCallChunks.push(processedChunk.data[0]);"]),
p("C18-tool-id", [PO, "    const index = toolCall?.index ?? 0;", "    const index = toolCall?.id ? toolCalls.size : Math.max(toolCalls.size - 1, 0);"]),
p("C18-usage-abandoned", [TM, "    let output: unknown = null;\n\n    try {", "    let output: unknown = null;\n    let finished = false;\n\n    try {"], [TM, "        yield rawChunk;\n      }\n    } catch", "        yield rawChunk;\n      }\n      finished = true;\n    } catch"], [TM, "            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),", "            finished ? usageDetails ?? (usage ? parseUsageDetails(usage) : undefined) : undefined,"]),
p("C18-text-choice0", [PO, "  return \"message\" in choice ? choice.message : (choice.text ?? \"\");", "  return \"message\" in choice ? (choice.message?.content ?? choice.message) : (choice.text ?? \"\");"]),
p("C18-total-computed", [PO, "      input: finalInputTokens,\n      output: finalOutputTokens,\n      total: total_tokens,\n      ...flatPromptTokensDetails,", "      input: finalInputTokens,\n      output: finalOutputTokens,\n      total: finalInputTokens + finalOutputTokens,\n      ...flatPromptTokensDetails,"]),
p("C19-dup-start", [CH, "    this.runMap.set(runId, observation);\n\n    return observation;", "    if (this.runMap.size >= 1000) this.runMap.delete(this.runMap.keys().next().value!);\n    this.runMap.set(runId, observation);\n\n    return observation;"]),
p("C19-retriever-docs", [CH, "          output: documents,", "          output: documents.slice(0, 10),"]),
p("C19-llm-end-first", [CH, "      const lastResponse = output.generations.at(-1)?.at(-1);", "      const lastResponse = output.generations.at(0)?.at(-1);"]),
p("C19-agent-version", [CH, "        { parentSpanContext: parentObservation?.otelSpan.spanContext() },", "        parentObservation ? { parentSpanContext: parentObservation.otelSpan.spanContext(), endOnExit: action.log !== \"\" } : {},"]),
p("C20-output-late", [EM, "          output,\n          metadata: item.metadata as any,\n        };", "          output: typeof output === \"object\" && output !== null && !Array.isArray(output) ? { ...output } : output,\n          metadata: item.metadata as any,\n        };\n        if (evaluators.length > 8) await Promise.resolve();"]),
p("C21-meta-dataset-only", [EM, "            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", "            ...(itemMetadata ?? {}),\n            ...(datasetId || !itemMetadata ? experimentMetadata : {}),"]),
p("C21-eval-order", [EM, "    for (const ev of evals) {\n      this.langfuseClient.score.create({", "    for (const ev of evals) {\n      if (ev.value === null || ev.value === undefined || ev.value === \"\") continue;\n      this.langfuseClient.score.create({"]),
p("C23-date-walk", [DS, "    (!isArray && !isPlainObject(data))", "    (!isArray && data instanceof Date)"]),
p("C23-pick", [DS, "    return await this.langfuseClient.api.datasetItems.create({\n      ...request,\n      id", "    return await this.langfuseClient.api.datasetItems.create({\n      datasetName: request.datasetName,\n      status: request.status,\n      sourceTraceId: request.sourceTraceId,\n      id"]),
p("C23-upload-limit", [DS, "        [...toUpload.values()].map(({ media, field }) =>", "        [...toUpload.values()].slice(0, 25).map(({ media, field }) =>"]),
p("C24-body-buffer", [MU, "body: contentBytes as Uint8Array<ArrayBuffer>,", "body: contentBytes.buffer as ArrayBuffer,"]),
p("C24-ok-range", [MU, "    uploadResponse.status === 200 || uploadResponse.status === 201;", "    uploadResponse.status >= 200 && uploadResponse.status < 400;"]),
p("C25-key-tokens", [M, "            Object.entries(obj as object).map(async ([key, value]) => [\n              key,\n              await traverse(value, depth + 1),", "            Object.entries(obj as object).map(async ([key, value]) => [\n              key,\n              key === \"toJSON\" || key === \"type\" ? value : await traverse(value, depth + 1),"]),
p("C25-null-proto", [M, "          await Promise.all(\n            Object.entries(obj as object)", "          await Promise.all(\n            Object.entries({ ...(obj as object) }).filter(([, v]) => v !== undefined)"]),
p("C29-date", [VU, "        typeof value === \"string\" ? value : safeSerialize(value);", "        typeof value === \"string\" ? value.trim() : safeSerialize(value);"]),
p("C29-fallback-undefined", [VU, "  if (typeof value.name !== \"string\" || typeof value.version !== \"number\") {", "  if (typeof value.name !== \"string\" || typeof value.version !== \"number\" || Object.getPrototypeOf(value) !== Object.prototype) {"]),
p("C31-encode", [T, "    const data = new TextEncoder().encode(seed);", "    const data = new TextEncoder().encode(seed.normalize ? seed.slice(0, 1024) : seed);"]),
];
