const T = "packages/tracing/src/index.ts", SW = "packages/tracing/src/spanWrapper.ts", AT = "packages/tracing/src/attributes.ts", TP = "packages/tracing/src/tracerProvider.ts", OM = "packages/openai/src/traceMethod.ts", OP = "packages/openai/src/parseOpenAI.ts", OO = "packages/openai/src/observeOpenAI.ts", CB = "packages/langchain/src/CallbackHandler.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C15-thenable", [T, "          if (result instanceof Promise) {\n            return wrapPromise(", "          if (result && typeof (result as any).then === \"function\") {\n            return wrapPromise("], [T, "              result,\n              span,\n              observationOptions?.endOnExit,", "              Promise.resolve(result as any),\n              span,\n              observationOptions?.endOnExit,"]),
p("C15-finally-order", [T, "      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects\n      }\n\n      throw err;", "      if (endOnExit !== false && err) {\n        span.end(); // End span AFTER Promise rejects\n      }\n\n      throw err;"]),
p("C15-value-undefined", [T, "      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise resolves\n      }", "      if (endOnExit !== false) {\n        queueMicrotask(() => setTimeout(() => span.end(), 0));\n      }"]),
p("C15-endonexit-observe", [T, "            if (options?.endOnExit !== false) {\n              observation.end();\n            }\n\n            throw error;", "            observation.end();\n\n            throw error;"]),
p("C15-falsy-output", [T, "            if (captureOutput) {\n              observation.updateOtelSpanAttributes({ output: _captureOutput(value) });", "            if (captureOutput && value) {\n              observation.updateOtelSpanAttributes({ output: _captureOutput(value) });"]),
p("C15-falsy-input", [T, "inputData !== undefined ? { input: inputData } : {}", "inputData ? { input: inputData } : {}"]),
p("C15-args-one", [T, "    if (args.length === 1) return args[0];", "    if (args.length === 1 || args.slice(1).every((a) => a === undefined)) return args[0];"]),
p("C15-this", [T, "fn.apply(this, args)", "fn.apply(this ?? undefined, args.slice(0, Math.max(fn.length, args.length)))"]),
p("C15-error-capture-disabled", [T, "              output: captureOutput ? { error: _errorToString(error) } : undefined,\n            });\n\n            if", "              output: { error: _errorToString(error) },\n            });\n\n            if"]),
p("C15-input-disabled-leak", [T, "const inputData = captureInput ? _captureArguments(args) : undefined;", "const inputData = captureInput || !captureOutput ? _captureArguments(args) : undefined;"]),
p("C15-active-not-parent-async", [T, "      const result = context.with(activeContext, () => fn.apply(this, args));", "      const result = fn.constructor.name === \"GeneratorFunction\" ? fn.apply(this, args) : context.with(activeContext, () => fn.apply(this, args));"]),
p("C15-error-message", [T, "        message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n\n      if (endOnExit", "        message: err instanceof Error ? err.name : \"Unknown error\",\n      });\n\n      if (endOnExit"]),
p("C15-wrap-error", [T, "          if (observationOptions?.endOnExit !== false) {\n            span.end();\n          }\n\n          throw err;", "          if (observationOptions?.endOnExit !== false) {\n            span.end();\n          }\n\n          throw err ?? new Error(\"Unknown error\");"]),
p("C16-level-empty", [AT, "Object.entries(otelAttributes).filter(([_, v]) => v != null),", "Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== \"\"),"]),
p("C16-serialize-falsy", [AT, "return obj != null ? JSON.stringify(obj) : undefined;", "return obj ? JSON.stringify(obj) : undefined;"]),
p("C16-string-quote", [AT, "      const serialized = typeof value === \"string\" ? value : _serialize(value);", "      const serialized = typeof value === \"string\" ? value.trim() : _serialize(value);"]),
p("C16-array-meta", [AT, "if (typeof metadata !== \"object\" || Array.isArray(metadata)) {", "if (typeof metadata !== \"object\") {"]),
p("C16-usage-zero", [AT, "      _serialize(usageDetails),", "      _serialize(usageDetails && Object.fromEntries(Object.entries(usageDetails).filter(([, v]) => v))),"]),
p("C16-prompt-version", [AT, "    ...(prompt && !prompt.isFallback", "    ...(prompt?.version && !prompt.isFallback"]),
p("C16-meta-null", [AT, "    for (const [key, value] of Object.entries(metadata)) {", "    for (const [key, value] of Object.entries(metadata)) {\n      if (key.startsWith(\"_\")) continue;"]),
p("C16-type-drop", [T, "  if (!options?.asType) {\n    otelAttributes", "  if (!options?.asType && !attributes.model) {\n    otelAttributes"]),
p("C16-long", [AT, "    if (typeof obj === \"string\") return obj;", "    if (typeof obj === \"string\") return obj.length > 100_000 ? obj.slice(0, 100_000) : obj;"]),
p("C16-bigint-throw", [AT, "  } catch {\n    return \"<failed to serialize>\";", "  } catch (e) {\n    if (String(e).includes(\"BigInt\")) return undefined;\n    return \"<failed to serialize>\";"]),
p("C16-trace-public", [SW, "[LangfuseOtelSpanAttributes.TRACE_PUBLIC]: true,", "[LangfuseOtelSpanAttributes.TRACE_PUBLIC]: \"true\","]),
p("C31-hash-slice", [T, "return uint8ArrayToHex(hashArray).slice(0, 32);", "return uint8ArrayToHex(hashArray).slice(-32);"]),
p("C31-normalize", [T, "new TextEncoder().encode(seed);", "new TextEncoder().encode(seed.normalize(\"NFC\"));"]),
p("C31-trim", [T, "new TextEncoder().encode(seed);", "new TextEncoder().encode(seed.trim());"]),
p("C31-pad", [T, "b.toString(16).padStart(2, \"0\")", "b.toString(16).padStart(b < 1 ? 1 : 2, \"0\")"]),
p("C31-child-parent-active", [SW, "      parentSpanContext: this.otelSpan.spanContext(),", "      parentSpanContext: this.otelSpan.isRecording() ? this.otelSpan.spanContext() : undefined,"]),
p("C31-starttime", [T, "      const timestamp = observationOptions?.startTime ?? new Date();\n\n      return", "      const timestamp = new Date();\n\n      return"]),
p("C31-active-starttime", [T, "    { startTime: observationOptions?.startTime },\n    createParentContext", "    { startTime: observationOptions?.parentSpanContext ? undefined : observationOptions?.startTime },\n    createParentContext"]),
p("C31-provider-cache", [TP, "  if (isolatedTracerProvider) return isolatedTracerProvider;", "  if (isolatedTracerProvider) return ((getGlobalState() as any).last ??= isolatedTracerProvider);"]),
p("C17-args0", [OM, "tracedMethod(...args)", "tracedMethod(...(args.length > 0 ? [args[0] ?? {}, ...args.slice(1)] : args) as any)"]),
p("C17-error-wrap", [OM, "              throw err;\n            });", "              throw err instanceof Error ? err : new Error(String(err));\n            });"]),
p("C17-chunk-filter", [OM, "        yield rawChunk;", "        if (rawChunk !== null) yield rawChunk;"]),
p("C17-stream-error-swallow", [OM, "      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });\n\n      throw error;", "      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });\n\n      if (!(error instanceof Error) || error.name !== \"AbortError\") throw error;"]),
p("C17-mutates-usage", [OP, "    let finalInputTokens = prompt_tokens as number;", "    if (prompt_tokens_details) delete (prompt_tokens_details as any).audio_tokens;\n    let finalInputTokens = prompt_tokens as number;"]),
p("C17-array-member", [OO, "        !Array.isArray(originalProperty) &&\n", ""]),
p("C17-date-member", [OO, "        !(originalProperty instanceof Date) &&\n", ""]),
p("C17-buffer", [OM, "      for await (const rawChunk of response as AsyncIterable<unknown>) {", "      const all: unknown[] = [];\n      for await (const c of response as AsyncIterable<unknown>) all.push(c);\n      for (const rawChunk of all) {"]),
p("C17-include-usage", [OM, "tracedMethod(...args)", "tracedMethod(...((args[0] as any)?.stream && typeof args[0] === \"object\" ? [{ ...(args[0] as any), stream_options: { include_usage: true } }, ...args.slice(1)] : args) as any)"]),
p("C18-tool-name-concat", [OP, "      name: toolCall?.function?.name || current.name,", "      name: current.name + (toolCall?.function?.name || \"\"),"]),
p("C18-finish-no-end", [OM, "          : textChunks.join(\"\"));", "          : textChunks.join(\"\").trim());"]),
p("C18-usage-negative", [OP, "      finalInputTokens = Math.max(finalInputTokens - value, 0);", "      finalInputTokens = finalInputTokens - value;"]),
p("C18-usage-last-null", [OM, "          \"usage\" in rawChunk\n", "          \"usage\" in rawChunk && rawChunk.usage && (rawChunk as any).choices?.length !== 0\n"]),
p("C18-start-time-last", [OM, "completionStartTime = completionStartTime ?? new Date();", "completionStartTime = new Date();"]),
p("C18-sync-not-ended", [OM, "        generation.end();\n\n        return res;", "        if (res !== undefined) generation.end();\n\n        return res;"]),
p("C18-meta-null", [OM, "        ...config?.generationMetadata,\n", "        ...(Object.keys(config?.generationMetadata ?? {}).length > 1 ? config?.generationMetadata : {}),\n"]),
p("C18-parent-ctx", [OM, "          parentSpanContext: config?.parentSpanContext,\n", ""]),
p("C18-trace-name", [OM, "      traceName: config?.traceName,\n", ""]),
p("C18-direct-stream-model", [OM, "          generation.update({\n            model: modelFromResponse,", "          generation.update({\n            model: modelFromResponse?.split(\"-\")[0],"]),
p("C18-input-prompt-falsy", [OP, "  } else if (!input) {\n    input = args.prompt;", "  } else if (!input) {\n    input = args.prompt || \"\";"]),
p("C18-config-overwrites", [OO, "      const config = { ...langfuseConfig, generationName };", "      const config = Object.assign(langfuseConfig ?? {}, { generationName });"]),
p("C18-err-level", [OM, "                  statusMessage: errorToString(err),\n                  level: \"ERROR\",", "                  statusMessage: errorToString(err),\n                  level: (err as any)?.status === 429 ? \"WARNING\" : \"ERROR\","]),
p("C18-multi-choice", [OP, "  const choice = res.choices[0];", "  const choice = res.choices.at(-1);"]),
p("C18-response-usage-key", [OP, "          `output_${key}`,\n          value as number,\n        ]),\n      ),\n    };\n  }", "          `output_${key.replace(\"_tokens\", \"\")}`,\n          value as number,\n        ]),\n      ),\n    };\n  }"]),
p("C19-prompt-not-dereg", [CB, "    if (registeredPrompt && parentRunId) {\n      this.deregisterLangfusePrompt(parentRunId);\n    }", ""]),
p("C19-hidden", [CB, "level: tags && tags.includes(LANGSMITH_HIDDEN_TAG) ? \"DEBUG\" : undefined,", "level: tags && tags[0] === LANGSMITH_HIDDEN_TAG ? \"DEBUG\" : undefined,"]),
p("C19-usage-first", [CB, "const lastResponse = output.generations.at(-1)?.at(-1);", "const lastResponse = output.generations[0]?.at(-1);"]),
p("C19-starttimes-leak", [CB, "      delete this.completionStartTimes[runId];\n    } catch", "    } catch"]),
p("C19-runmap-leak-error", [CB, "    span.update(attributes).end();\n\n    this.last_trace_id = span.traceId;\n    this.runMap.delete(runId);", "    span.update(attributes).end();\n\n    this.last_trace_id = span.traceId;\n    if (!(attributes as any).level) this.runMap.delete(runId);"]),
p("C19-tags-order", [CB, "const traceTags = [...new Set([...(tags ?? []), ...this.tags])];", "const traceTags = tags?.length ? tags : this.tags;"]),
p("C19-user-meta", [CB, "          \"langfuseUserId\" in metadata &&\n          typeof metadata[\"langfuseUserId\"] === \"string\"\n            ? metadata[\"langfuseUserId\"]\n            : this.userId;", "          \"langfuseUserId\" in metadata &&\n          typeof metadata[\"langfuseUserId\"] === \"string\" && !this.userId\n            ? metadata[\"langfuseUserId\"]\n            : this.userId;"]),
p("C19-strip", [CB, "      \"langfuseSessionId\",\n    ];", "    ];"]),
p("C19-model-param-zero", [CB, "      if (value !== undefined && value !== null) {\n        modelParameters", "      if (value) {\n        modelParameters"]),
p("C19-empty-output", [CB, "          : lastResponse?.text;", "          : lastResponse?.text || undefined;"]),
p("C19-parent-fallback", [CB, "      ? this.runMap.get(parentRunId)?.otelSpan.spanContext()\n      : undefined;\n\n    const observation", "      ? (this.runMap.get(parentRunId) ?? [...this.runMap.values()].at(-1))?.otelSpan.spanContext()\n      : undefined;\n\n    const observation"]),
p("C19-every-some", [CB, "        inputs[\"messages\"].every((m: unknown) => m instanceof BaseMessage)", "        inputs[\"messages\"].some((m: unknown) => m instanceof BaseMessage)"]),
p("C19-usage-details-neg", [CB, "usageDetails[\"output\"] = Math.max(0, usageDetails[\"output\"] - val);", "usageDetails[\"output\"] = usageDetails[\"output\"] - val;"]),
p("C19-agent-end", [CB, "      this.runMap.get(runId)?.update({ output: action });", "      this.runMap.get(runId)?.update({ output: action }).end();"]),
p("C19-new-token-last", [CB, "if (runId && !(runId in this.completionStartTimes)) {", "if (runId && token !== undefined) {"]),
p("C19-null-error", [CB, "if (typeof err == \"object\" && err !== null && \"error\" in err) {", "if (typeof err == \"object\" && \"error\" in err) {"]),
];
