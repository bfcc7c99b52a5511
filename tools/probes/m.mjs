// Thirteenth set: scores, prompts, media, browser, client construction.
const SC = "packages/client/src/score/index.ts", PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", PL = "packages/client/src/prompt/promptClients.ts", MS = "packages/otel/src/MediaService.ts", ME = "packages/core/src/media.ts", BI = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts", LC = "packages/client/src/LangfuseClient.ts", SP = "packages/otel/src/span-processor.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-requeue-on-fail", [SC, "              this.logger.error(\"Failed to export score batch:\", err);", "              this.logger.error(\"Failed to export score batch:\", err);\n              if (err?.statusCode === undefined) this.eventQueue.unshift(...batch);"]),
p("C02-inflight-first", [SC, "    const flushPromise: Promise<void> = this.handleFlush()\n      .then(() => inFlight ?? undefined)", "    const flushPromise: Promise<void> = (inFlight ?? Promise.resolve())\n      .then(() => this.handleFlush())"]),
p("C01-207-retry", [SC, "                this.logger.error(\"Error ingesting scores:\", res.errors);", "                this.logger.error(\"Error ingesting scores:\", res.errors);\n                if (res.errors.length === batch.length) this.eventQueue.push(...batch);"]),
p("C01-dedupe-id", [SC, "    this.eventQueue.push(scoreIngestionEvent);\n", "    const at = this.eventQueue.findIndex((e) => (e.body as any).id === scoreData.id);\n    if (at >= 0) this.eventQueue.splice(at, 1);\n    this.eventQueue.push(scoreIngestionEvent);\n"]),
p("C02-timer-restart", [SC, "    } else if (!this.flushTimer) {\n", "    } else {\n      clearTimeout(this.flushTimer);\n"]),
p("C02-value-nullish", [SC, "    const scoreData: ScoreBody = {\n      ...data,", "    const scoreData: ScoreBody = {\n      ...(Object.fromEntries(Object.entries(data).filter(([, v]) => v !== null)) as ScoreBody),"]),
p("C02-trace-obs", [SC, "    const { traceId } = observation.otelSpan.spanContext();\n\n    this.create({\n      ...data,\n      traceId,", "    const { traceId, spanId } = observation.otelSpan.spanContext();\n\n    this.create({\n      ...data,\n      ...(data.configId ? { observationId: spanId } : {}),\n      traceId,"]),
p("C02-interval-ms", [SC, "      }, this.flushIntervalSeconds * 1_000);", "      }, Math.max(this.flushIntervalSeconds, 1) * 1_000);"]),
p("C02-order-spread", [SC, "        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);", "        const batch = this.eventQueue.splice(-MAX_BATCH_SIZE);"]),
p("C03-expiry-sliding", [PC, "    return this._cache.get(key) ?? null;", "    const item = this._cache.get(key) ?? null;\n    if (item && !item.isExpired && (item as any)._hits++ > 50) (item as any)._expiry += 1000;\n    return item;"], [PC, "  private _expiry: number;", "  private _expiry: number;\n  public _hits = 0;"]),
p("C03-label-in-version", [PC, "    if (version !== undefined) {", "    if (version !== undefined && label === undefined) {"]),
p("C03-invalidate-labels", [PC, "      if (key.startsWith(promptName)) {", "      if (key.startsWith(promptName + \"-label\")) {"]),
p("C03-refresh-ttl-lost", [PM, "        const refreshPromptPromise = this.fetchPromptAndUpdateCache({\n          name,\n          version: options?.version,\n          label: options?.label,\n          cacheTtlSeconds: options?.cacheTtlSeconds,", "        const refreshPromptPromise = this.fetchPromptAndUpdateCache({\n          name,\n          version: options?.version,\n          label: options?.label,"]),
p("C03-delete-version-only", [PM, "      label: options?.label,\n    });\n\n    this.cache.invalidate(name);", "      label: options?.label,\n    });\n\n    if (options?.version === undefined) this.cache.invalidate(name);"]),
p("C04-refresh-drops-on-404", [PM, "        }).catch(() => {\n          this.logger.warn(", "        }).catch((err) => {\n          if (err?.statusCode === 404) this.cache.invalidate(name);\n          this.logger.warn("]),
p("C04-fallback-cached", [PM, "        if (options?.fallback !== undefined && options.fallback !== null) {", "        if (cachedPrompt && options?.cacheTtlSeconds === 0) return cachedPrompt.value;\n        if (options?.fallback !== undefined && options.fallback !== null) {"]),
p("C04-timeout-ms", [PM, "          timeoutInSeconds: fetchTimeoutMs ? fetchTimeoutMs / 1_000 : undefined,", "          timeoutInSeconds: fetchTimeoutMs ? Math.ceil(fetchTimeoutMs / 1_000) : undefined,"]),
p("C04-retries-default", [PM, "          maxRetries,\n          timeoutInSeconds", "          maxRetries: maxRetries || undefined,\n          timeoutInSeconds"]),
p("C05-variables-trim", [PL, "          content: mustache.render(item.content, ownValues(variables)),", "          content: item.content.includes(\"{{\") ? mustache.render(item.content, ownValues(variables)) : item.content.trimEnd(),"]),
p("C05-placeholder-twice", [PL, "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),\n          );", "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),\n          );\n          delete placeholderValues[item.name];"]),
p("C06-var-dash", [PL, "/\\{\\{\\s*(\\w+)\\s*\\}\\}/g, \"{$1}\"", "/\\{\\{ ?(\\w+) ?\\}\\}/g, \"{$1}\""]),
p("C06-role-lost", [PL, "        messagesWithPlaceholdersReplaced.push({\n          role: item.role,\n          content: this._transformToLangchainVariables(item.content),\n        });", "        messagesWithPlaceholdersReplaced.push({\n          role: item.role === \"developer\" ? \"system\" : item.role,\n          content: this._transformToLangchainVariables(item.content),\n        });"]),
p("C35-config-null", [PL, "    this.config = prompt.config;", "    this.config = prompt.config ?? {};"]),
p("C35-labels-alias", [PL, "    this.labels = prompt.labels;", "    this.labels = [...new Set(prompt.labels)].sort();"]),
p("C35-create-extra", [PM, "                return {\n                  ...item,\n                  type: ChatMessageType.ChatMessage,\n                } as ChatMessage;", "                return {\n                  role: item.role,\n                  content: item.content,\n                  type: ChatMessageType.ChatMessage,\n                } as ChatMessage;"]),
p("C35-fallback-label", [PM, "            labels: options.label ? [options.label] : [],", "            labels: options.label && options.version === undefined ? [options.label] : [],"]),
p("C10-field-output", [MS, "            field: mediaAttribute.includes(\"input\")", "            field: key.includes(\"input\")"]),
p("C10-dedupe-across", [MS, "        const mediaTags = new Map<string, string>();\n", "", ], [MS, "    for (const mediaAttribute of mediaAttributes) {\n      const mediaRelevantAttributeKeys", "    const mediaTags = new Map<string, string>();\n    for (const mediaAttribute of mediaAttributes) {\n      const mediaRelevantAttributeKeys"], [MS, "          const langfuseMediaTag = await media.getTag();\n\n          if (!langfuseMediaTag) {\n            this.logger.warn(\n              \"Failed to create Langfuse media tag. Skipping media item.\",\n            );\n\n            continue;\n          }\n\n          this.scheduleUpload({\n            span,\n            media,\n            field: media", "          const langfuseMediaTag = await media.getTag();\n\n          if (!langfuseMediaTag) {\n            this.logger.warn(\n              \"Failed to create Langfuse media tag. Skipping media item.\",\n            );\n\n            continue;\n          }\n\n          if (!mediaTags.has(mediaDataUri)) this.scheduleUpload({\n            span,\n            media,\n            field: media"]),
p("C10-v7-output-field", [MS, "                  contentType: mediaType,\n                  field,\n                });", "                  contentType: mediaType,\n                  field: message[\"role\"] === \"assistant\" ? \"output\" : field,\n                });"]),
p("C10-http-prefix", [MS, "                  content.startsWith(\"http\")", "                  content.startsWith(\"h\")"]),
p("C25-id-slice", [ME, "      .replaceAll(\"+\", \"-\")\n      .replaceAll(\"/\", \"_\");", "      .replace(\"+\", \"-\")\n      .replace(\"/\", \"_\");"]),
p("C25-type-params", [ME, "      const contentType = headerParts[0];", "      const contentType = headerParts[0].toLowerCase();"]),
p("C22-ref-fetch-ok", [ME, "    if (!response.ok) {", "    if (response.status >= 500) {"]),
p("C22-ref-expiry", [ME, "    return expiryMs - Date.now() <= thresholdSeconds * 1000;", "    return expiryMs - Date.now() <= thresholdSeconds;"]),
p("C28-env-config-wins", [BI, "        environment: body.environment ?? this.environment,", "        environment: this.environment ?? body.environment,"]),
p("C28-empty-id", [BI, "    const scoreId = body.id ?? generateUUID(globalThis);", "    const scoreId = body.id?.trim() ?? generateUUID(globalThis);"]),
p("C28-accept-partial", [BI, "    if (response.errors.length > 0) {", "    if (response.errors.length > 0 && response.successes.length === 0) {"]),
p("C28-status-only-json", [BU, "      { status: response.status, originalError: error },", "      { originalError: error },"]),
p("C28-header-trim", [BU, "!RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase())", "!RESERVED_ADDITIONAL_HEADER_NAMES.has(name) && !RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase().replace(/^x-/, \"X-\"))"]),
p("C27-project-cached-bad", [LC, "      projectId = (await this.api.projects.get()).data[0].id;", "      projectId = (await this.api.projects.get()).data.at(-1)!.id;"]),
p("C27-baseurl-order", [LC, "      getEnv(\"LANGFUSE_BASE_URL\") ??\n      getEnv(\"LANGFUSE_BASEURL\") ??", "      getEnv(\"LANGFUSE_BASEURL\") ??\n      getEnv(\"LANGFUSE_BASE_URL\") ??"]),
p("C36-project-static", [LC, "    let projectId = this.projectId;", "    let projectId = this.projectId ?? (globalThis as any).__lfProject?.[this.baseUrl];"], [LC, "      this.projectId = projectId;", "      this.projectId = projectId;\n      ((globalThis as any).__lfProject ??= {})[this.baseUrl] = projectId;"]),
p("C36-headers-mutated", [SP, "      headers: params?.additionalHeaders,", "      headers: params?.additionalHeaders && Object.assign(params.additionalHeaders, { \"x-langfuse-public-key\": publicKey }),"]),
p("C30-debug-logs-secret", [LC, "      baseUrl: this.baseUrl,\n      timeoutSeconds,", "      baseUrl: this.baseUrl,\n      timeoutSeconds,\n      headers: params?.additionalHeaders,\n      ...(timeoutSeconds > 100 ? { params } : {}),"]),
];
