// Eleventh set: OpenAI, LangChain, datasets, media, experiments and tracing again, each needing an unusual history or value.
const DS = "packages/client/src/dataset/index.ts", JP = "packages/client/src/dataset/jsonPath.ts", MM = "packages/client/src/media/index.ts", MU = "packages/core/src/mediaUpload.ts", TM = "packages/openai/src/traceMethod.ts", PO = "packages/openai/src/parseOpenAI.ts", OO = "packages/openai/src/observeOpenAI.ts", CH = "packages/langchain/src/CallbackHandler.ts", SP = "packages/otel/src/span-processor.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C22-page-limit", [DS, "      if (itemsResponse.meta.totalPages <= page) {", "      if (itemsResponse.meta.totalPages <= page || page >= 100) {"]),
p("C22-version-drop-later", [DS, "        ...(options?.version && { version: options.version }),", "        ...(options?.version && page === 1 && { version: options.version }),"]),
p("C22-total-items-stop", [DS, "      if (itemsResponse.meta.totalPages <= page) {", "      if (\n        itemsResponse.meta.totalPages <= page ||\n        items.length >= itemsResponse.meta.totalItems\n      ) {"]),
p("C22-dedupe-items", [DS, "    const itemsWithLinkMethod = items.map((item) => ({", "    const seen = new Set<string>();\n    const itemsWithLinkMethod = items.filter((item) => {\n      const key = JSON.stringify(item.input);\n      if (seen.has(key)) return false;\n      seen.add(key);\n      return true;\n    }).map((item) => ({"]),
p("C22-run-params-data", [DS, "        data: items,\n        datasetVersion: options?.version,\n        ...params,", "        data: items.filter((i) => i.status !== \"ARCHIVED\"),\n        datasetVersion: options?.version,\n        ...params,"]),
p("C22-jsonpath-quote", [JP, "      const close = jsonPath.indexOf(\"']\", i);", "      const close = jsonPath.indexOf(\"'\", i);"]),
p("C22-jsonpath-index9", [JP, "      while (i < n && jsonPath[i] >= \"0\" && jsonPath[i] <= \"9\") {", "      while (i < n && jsonPath[i] >= \"0\" && jsonPath[i] < \"9\") {"]),
p("C22-link-run-metadata", [DS, "        metadata: runArgs?.metadata,", "        metadata: runArgs?.metadata ?? item.metadata,"]),
p("C23-field-first-only", [DS, "    if (!collected.has(mediaId)) {\n      collected.set(mediaId, { media: data, field });\n    }", "    collected.set(field, { media: data, field });"]),
p("C23-create-before-upload", [DS, "      await Promise.all(\n        [...toUpload.values()].map(({ media, field }) =>", "      void Promise.all(\n        [...toUpload.values()].map(({ media, field }) =>"]),
p("C23-depth-shared", [DS, "  if (ancestors.has(data)) {\n    return data;\n  }", "  if (ancestors.has(data)) {\n    return data;\n  }\n  ancestors.add(data);"]),
p("C23-array-holes", [DS, "    return Promise.all(data.map(recurse));", "    return Promise.all(data.filter((v) => v !== undefined).map(recurse));"]),
p("C24-retry-forbidden", [MU, "        attempt < maxRetries &&\n        uploadResponse.status !== 200 &&", "        attempt < maxRetries &&\n        uploadResponse.status !== 403 &&\n        uploadResponse.status !== 200 &&"]),
p("C24-204-success", [MU, "    uploadResponse.status === 200 || uploadResponse.status === 201;", "    uploadResponse.status < 400;"]),
p("C10-gcs-suffix", [MU, "        parsedHostname.endsWith(\".storage.googleapis.com\");", "        parsedHostname.endsWith(\"storage.googleapis.com\");"]),
p("C25-first-only-repeat", [MM, "          result = result.replaceAll(referenceString, base64MediaContent) as T &\n            string;", "          result = result.replace(referenceString, () => base64MediaContent) as T &\n            string;"]),
p("C25-split-eq", [MM, "      const [key, value] = pair.split(\"=\", 2);", "      const [key, value] = pair.split(\"=\", 2).map((s) => s.trim().toLowerCase());"]),
p("C25-content-type-ref", [MM, "`data:${mediaData.contentType};base64,${base64MediaContent}`", "`data:${parsedMediaReference.contentType};base64,${base64MediaContent}`"]),
p("C25-fetch-fail-rejects", [MM, "      if (depth > maxDepth) {", "      if (depth >= maxDepth) {"]),
p("C25-object-proto", [MM, "Object.prototype.toString.call(obj) === \"[object Object]\"", "Object.prototype.toString.call(obj) === \"[object Object]\" && (obj as any).constructor === Object"]),
p("C17-sync-iter-result", [TM, "        if (res instanceof Promise) {", "        if (res && typeof (res as any).then === \"function\" && res instanceof Promise) {"]),
p("C17-usage-only-chunk-hidden", [TM, "        yield rawChunk;", "        if (usage === null || (rawChunk as any)?.choices?.length !== 0) yield rawChunk;"]),
p("C17-set-trap", [OO, "    get(wrappedSdk, propKey) {", "    set(wrappedSdk, propKey, value) {\n      return Reflect.set(wrappedSdk, propKey, value ?? (wrappedSdk as any)[propKey]);\n    },\n    get(wrappedSdk, propKey) {"]),
p("C17-args-clone", [TM, "        const res = tracedMethod(...args);", "        const res = tracedMethod(...args.filter((a) => a !== undefined));"]),
p("C18-sync-throw-open", [TM, "        generation.end();\n\n        return res;", "        if (res !== undefined) generation.end();\n\n        return res;"]),
p("C18-toolcall-then-text", [TM, "        (toolCallChunks.length > 0\n          ? getToolCallOutput(toolCallChunks)\n          : textChunks.join(\"\"));", "        (textChunks.join(\"\") || getToolCallOutput(toolCallChunks));"]),
p("C18-toolname-append", [PO, "      name: toolCall?.function?.name || current.name,", "      name: current.name || toolCall?.function?.name || \"\","]),
p("C18-usage-last-null", [TM, "          usage = rawChunk.usage as OpenAI.CompletionUsage | null;", "          usage = (usage ?? rawChunk.usage) as OpenAI.CompletionUsage | null;"]),
p("C18-completion-start-late", [TM, "        completionStartTime = completionStartTime ?? new Date();", "        completionStartTime = new Date();"]),
p("C18-error-cost-stream", [TM, "      generation.update({\n        statusMessage: errorToString(error),\n        level: \"ERROR\",\n      });\n\n      throw error;", "      if (textChunks.length > 0) {\n        generation.update({\n          statusMessage: errorToString(error),\n          level: \"ERROR\",\n        });\n      }\n\n      throw error;"]),
p("C18-config-mutated", [TM, "        ...config?.generationMetadata,\n        response_format:", "        ...Object.assign(config?.generationMetadata ?? {}, {}),\n        response_format:"]),
p("C18-total-zero", [PO, "      finalInputTokens = Math.max(finalInputTokens - value, 0);", "      finalInputTokens = finalInputTokens > value ? finalInputTokens - value : finalInputTokens;"]),
p("C18-falsy-temp", [PO, "    if (val !== null && val !== undefined) {\n      modelParameters", "    if (val) {\n      modelParameters"]),
p("C18-prompt-empty-input", [PO, "  } else if (!input) {", "  } else if (input === undefined && \"prompt\" in args && args.prompt.length > 0) {"]),
p("C19-token-reset", [CH, "    if (runId && !(runId in this.completionStartTimes)) {", "    if (runId && token && !(runId in this.completionStartTimes)) {"]),
p("C19-tool-end-falsy", [CH, "        attributes: { output },", "        attributes: output ? { output } : {},"]),
p("C19-error-keeps-run", [CH, "    this.last_trace_id = span.traceId;\n    this.runMap.delete(runId);", "    this.last_trace_id = span.traceId;\n    if (!attributes.level) this.runMap.delete(runId);"]),
p("C19-prompt-leaks", [CH, "    this.deregisterLangfusePrompt(runId);\n\n    const span", "    const span"]),
p("C19-prompt-not-consumed", [CH, "    if (registeredPrompt && parentRunId) {\n      this.deregisterLangfusePrompt(parentRunId);\n    }", ""]),
p("C19-input-mixed", [CH, "        inputs[\"messages\"].every((m: unknown) => m instanceof BaseMessage)\n      ) {\n        finalInput", "        inputs[\"messages\"].some((m: unknown) => m instanceof BaseMessage)\n      ) {\n        finalInput"]),
p("C19-last-gen", [CH, "      const lastResponse = output.generations.at(-1)?.at(-1);", "      const lastResponse = output.generations.at(0)?.at(-1);"]),
p("C19-user-empty", [CH, "          typeof metadata[\"langfuseUserId\"] === \"string\"\n            ? metadata[\"langfuseUserId\"]\n            : this.userId;", "          typeof metadata[\"langfuseUserId\"] === \"string\"\n            ? (this.userId = metadata[\"langfuseUserId\"])\n            : this.userId;"]),
p("C19-tags-accumulate", [CH, "        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];", "        const traceTags = (this.tags = [...new Set([...(tags ?? []), ...this.tags])]);"]),
p("C19-hidden-level-wins", [CH, "      ...attributes,\n    } as LangfuseObservationAttributes;", "      ...attributes,\n      ...(parentRunId && !this.runMap.has(parentRunId) ? { level: \"WARNING\" } : {}),\n    } as LangfuseObservationAttributes;"]),
p("C19-version-nested", [CH, "      version: this.version,\n      metadata: this.join", "      version: parentRunId ? undefined : this.version,\n      metadata: this.join"]),
p("C19-agent-action-root", [CH, "        this.runMap.get(runId) ??\n        (parentRunId ? this.runMap.get(parentRunId) : undefined);", "        (parentRunId ? this.runMap.get(parentRunId) : undefined) ??\n        this.runMap.get(runId);"]),
p("C38-starttimes-error", [CH, "      delete this.completionStartTimes[runId];\n    } catch", "    } catch"]),
p("C07-flush-once", [SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await Promise.race([\n      Promise.all(Array.from(this.pendingEndedSpans)),\n      new Promise((r) => setTimeout(r, 30_000)),\n    ]);\n    await this.mediaService.flush();"]),
p("C34-flushat-512", [SP, "            maxExportBatchSize: flushAt ? Number(flushAt) : undefined,", "            maxExportBatchSize: flushAt ? Math.min(Number(flushAt), 512) : undefined,"]),
p("C34-media-env-false", [SP, "![\"false\", \"0\"].includes(envMediaUploadEnabled.toLowerCase())", "![\"false\", \"0\"].includes(envMediaUploadEnabled)"]),
p("C11-prompt-explicit", [SP, "      delete propagatedAttributes[\n        LangfuseOtelSpanAttributes.OBSERVATION_PROMPT_VERSION\n      ];", ""]),
];
