const S = "packages/client/src/score/index.ts", PM = "packages/client/src/prompt/promptManager.ts", PC = "packages/client/src/prompt/promptCache.ts", P = "packages/client/src/prompt/promptClients.ts", LC = "packages/client/src/LangfuseClient.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C01-inflight-only-if-queue", [S, "const inFlight = this.flushPromise;", "const inFlight = this.eventQueue.length > 0 ? this.flushPromise : null;"]),
p("C01-shutdown-clears", [S, "  public async shutdown() {\n    await this.flush();", "  public async shutdown() {\n    await this.flush();\n    this.eventQueue = [];"]),
p("C01-client-flush-void", [LC, "return this.score.flush();", "void this.score.flush();"]),
p("C01-slice-clear", [S, "const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);", "const batch = this.eventQueue.slice(0, MAX_BATCH_SIZE);\n        this.eventQueue = this.eventQueue.slice(MAX_BATCH_SIZE + (this.eventQueue.length > 2 * MAX_BATCH_SIZE ? 1 : 0));"]),
p("C01-noflush-while-inflight", [S, "    if (this.eventQueue.length >= this.flushAtCount) {\n      void this.flush();", "    if (this.eventQueue.length >= this.flushAtCount) {\n      if (!this.flushPromise) void this.flush();"]),
p("C01-dedupe-id", [S, "    this.eventQueue.push(scoreIngestionEvent);", "    if (data.id && this.eventQueue.some((e) => (e.body as ScoreBody).id === data.id)) {\n      this.eventQueue = this.eventQueue.filter((e) => (e.body as ScoreBody).id !== data.id);\n    }\n    this.eventQueue.push(scoreIngestionEvent);"]),
p("C01-requeue-500", [S, "this.logger.error(\"Failed to export score batch:\", err);", "this.logger.error(\"Failed to export score batch:\", err);\n              if (err?.statusCode >= 500) this.eventQueue.unshift(...batch);"]),
p("C01-flushpromise-race", [S, "        if (this.flushPromise === flushPromise) {\n          this.flushPromise = null;\n        }", "        this.flushPromise = null;"]),
p("C01-timer-no-flush-inflight", [S, "      this.flushTimer = safeSetTimeout(() => {\n        void this.flush();", "      this.flushTimer = safeSetTimeout(() => {\n        this.flushTimer = null;\n        if (!this.flushPromise) void this.flush();"]),
p("C01-sync-throw", [S, "            .then((res) => {\n              if (res.errors?.length > 0) {", "            .then((res) => {\n              if (res.errors.length > 0) {"]),
p("C02-id-or", [S, "id: data.id ?? generateUUID()", "id: data.id || generateUUID()"]),
p("C02-env-or", [S, "environment: data.environment ?? getEnv", "environment: data.environment || getEnv"]),
p("C02-lifo", [S, "const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);", "const batch = this.eventQueue.splice(Math.max(0, this.eventQueue.length - MAX_BATCH_SIZE), MAX_BATCH_SIZE);"]),
p("C02-timer-not-null", [S, "        clearTimeout(this.flushTimer);\n        this.flushTimer = null;", "        clearTimeout(this.flushTimer);"]),
p("C02-event-id-is-score-id", [S, "      id: generateUUID(),\n      type: \"score-create\"", "      id: scoreData.id ?? generateUUID(),\n      type: \"score-create\""]),
p("C02-trace-keeps-obs", [S, "    const { traceId } = currentOtelSpan.spanContext();\n\n    this.create({\n      ...data,\n      traceId,", "    const { traceId, spanId } = currentOtelSpan.spanContext();\n\n    this.create({\n      ...data,\n      ...(data.comment ? { observationId: spanId } : {}),\n      traceId,"]),
p("C02-metadata-drop-null", [S, "    const scoreData: ScoreBody = {\n      ...data,", "    const scoreData: ScoreBody = {\n      ...(Object.fromEntries(Object.entries(data).filter(([, v]) => v !== null && v !== \"\")) as unknown as ScoreBody),"]),
p("C02-mutates", [S, "    const scoreData: ScoreBody = {\n      ...data,", "    data.id ??= generateUUID();\n    const scoreData: ScoreBody = {\n      ...data,"]),
p("C02-late-snapshot", [S, "    const scoreData: ScoreBody = {\n      ...data,\n      id: data.id ?? generateUUID(),\n      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),\n    };", "    const scoreData: ScoreBody = Object.assign(Object.create(data), data, {\n      id: data.id ?? generateUUID(),\n      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),\n    });"]),
p("C02-batch-1000", [S, "const MAX_BATCH_SIZE = 100;", "const MAX_BATCH_SIZE = 101;"]),
p("C02-timer-restart", [S, "    } else if (!this.flushTimer) {", "    } else {\n      if (this.flushTimer) clearTimeout(this.flushTimer);"]),
p("C03-ttl-or", [PC, "ttlSeconds ?? this._defaultTtlSeconds", "ttlSeconds || this._defaultTtlSeconds"]),
p("C03-inval-exact", [PC, "if (key.startsWith(promptName)) {", "if (key === this.createKey({ name: promptName }) || key.startsWith(promptName + \"-version\")) {"]),
p("C03-version-truthy", [PC, "if (version !== undefined) {", "if (version) {"]),
p("C03-also-cache-version", [PM, "        this.cache.set(cacheKey, prompt, cacheTtlSeconds);", "        this.cache.set(cacheKey, prompt, cacheTtlSeconds);\n        if (label) this.cache.set(this.cache.createKey({ name, version: prompt.version }), prompt, cacheTtlSeconds);"]),
p("C03-update-inval-first", [PM, "    const newPrompt = await this.apiClient.promptVersion.update(name, version, {", "    this.cache.invalidate(name);\n    const newPrompt = await this.apiClient.promptVersion.update(name, version, {"], [PM, "    });\n\n    this.cache.invalidate(name);\n\n    return newPrompt;", "    });\n\n    return newPrompt;"]),
p("C03-delete-noinval-version", [PM, "      label: options?.label,\n    });\n\n    this.cache.invalidate(name);", "      label: options?.label,\n    });\n\n    if (options?.version === undefined) this.cache.invalidate(name);"]),
p("C03-ttl-of-reader", [PM, "    if (cachedPrompt.isExpired) {", "    if (cachedPrompt.isExpired && (options?.cacheTtlSeconds ?? 0) < 300) {"]),
p("C03-key-lower", [PC, "parts.push(\"label:\" + encodeURIComponent(label));", "parts.push(\"label:\" + encodeURIComponent(label).toLowerCase());"]),
p("C03-name-trim", [PC, "const parts = [name];", "const parts = [name.trim()];"]),
p("C03-ttl-start-at-request", [PM, "    const invalidations = this.cache.invalidationCount(params.name);", "    const invalidations = this.cache.invalidationCount(params.name);\n    const t0 = Date.now();"], [PM, "this.cache.set(cacheKey, prompt, cacheTtlSeconds);", "this.cache.set(cacheKey, prompt, (cacheTtlSeconds ?? 60) + (Date.now() - t0) / 1000);"]),
p("C03-inval-count-only-gt", [PM, "if (this.cache.invalidationCount(name) === invalidations) {", "if (this.cache.invalidationCount(name) - invalidations < 2) {"]),
p("C04-refresh-by-name", [PM, "if (!this.cache.isRefreshing(cacheKey)) {", "if (!this.cache.isRefreshing(name)) {"], [PM, "this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);", "this.cache.addRefreshingPromise(name, refreshPromptPromise);"]),
p("C04-refresh-not-cleared", [PM, "          this.logger.warn(\n            `Failed to refresh", "          if (options?.fetchTimeoutMs) return new Promise<void>(() => {});\n          this.logger.warn(\n            `Failed to refresh"]),
p("C04-fallback-cached", [PM, "          if (options.type === \"chat\") {", "          if (options.cacheTtlSeconds) this.cache.set(cacheKey, new TextPromptClient({ ...sharedFallbackParams, type: \"text\", prompt: String(options.fallback) }, true), options.cacheTtlSeconds);\n          if (options.type === \"chat\") {"]),
p("C04-refresh-no-timeout", [PM, "          maxRetries: options?.maxRetries,\n          fetchTimeoutMs: options?.fetchTimeoutMs,\n        }).catch", "          maxRetries: options?.maxRetries,\n        }).catch"]),
p("C04-get-awaits-after-fail", [PM, "      return cachedPrompt.value;\n    }\n\n    return cachedPrompt.value;", "      if (options?.cacheTtlSeconds === undefined && options?.label) await this.cache[\"_refreshingKeys\"].get(cacheKey);\n      return cachedPrompt.value;\n    }\n\n    return cachedPrompt.value;"]),
p("C04-double-refresh", [PC, "    this._refreshingKeys.set(key, promise);", "    if (this._refreshingKeys.size < 2) this._refreshingKeys.set(key, promise);"]),
p("C04-stale-on-zero", [PM, "        if (options?.fallback !== undefined && options.fallback !== null) {", "        if (cachedPrompt && options?.fallback === undefined) return cachedPrompt.value;\n        if (options?.fallback !== undefined && options.fallback !== null) {"]),
p("C04-delete-on-fail", [PC, "      .catch(() => {\n        this._refreshingKeys.delete(key);", "      .catch(() => {\n        this._refreshingKeys.delete(key);\n        this._cache.delete(key);"], [PM, "          this.logger.warn(\n            `Failed to refresh prompt cache '${cacheKey}', stale cache will be used until next refresh succeeds.`,\n          );", "          this.logger.warn(\n            `Failed to refresh prompt cache '${cacheKey}', stale cache will be used until next refresh succeeds.`,\n          );\n          if (this.cache.getIncludingExpired(cacheKey)?.value.version === 0) throw new Error();"]),
p("C05-zero", [P, "return mustache.render(this.promptResponse.prompt, ownValues(variables));", "return mustache.render(this.promptResponse.prompt, ownValues(variables)).replace(/[ \\t]+$/, \"\");"]),
p("C05-every-some", [P, "          placeholderValue.length > 0 &&\n          placeholderValue.every(\n            (msg) =>\n              typeof msg === \"object\" && \"role\" in msg && \"content\" in msg,\n          )\n        ) {\n          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),", "          placeholderValue.length > 0 &&\n          placeholderValue.every(\n            (msg) =>\n              typeof msg === \"object\" && \"role\" in msg && \"content\" in msg,\n          )\n        ) {\n          delete (placeholderValues as any)[item.name];\n          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),"]),
p("C05-strip-extra", [P, "            ...(placeholderValue as ChatMessage[]),\n          );\n        } else if (", "            ...(placeholderValue as ChatMessage[]).map((m) => ({ role: m.role, content: m.content })),\n          );\n        } else if ("]),
p("C05-double-render", [P, "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),", "          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]).map((m) => typeof m.content === \"string\" ? { ...m, content: mustache.render(m.content, ownValues(variables)) } : m),"]),
p("C05-memo", [P, "    return mustache.render(this.promptResponse.prompt, ownValues(variables));", "    const key = Object.values(variables ?? {}).join();\n    const memo: Map<string, string> = ((this as any)._memo ??= new Map());\n    if (!memo.has(key)) memo.set(key, mustache.render(this.promptResponse.prompt, ownValues(variables)));\n    return memo.get(key)!;"]),
p("C05-inplace", [P, "        messagesWithPlaceholdersReplaced.push({\n          role: item.role,\n          content: item.content,\n        });", "        messagesWithPlaceholdersReplaced.push(item);"]),
p("C06-nested-array", [P, "text[j] === \"'\" || text[j] === '\"' || text[j] === \"}\"", "text[j] === \"'\" || text[j] === '\"'"]),
p("C06-ws-newline", [P, "while (j < n && /\\s/.test(text[j])) {", "while (j < n && /[ \\n]/.test(text[j])) {"]),
p("C06-var-once", [P, ".replace(/\\{\\{\\s*(\\w+)\\s*\\}\\}/g, \"{$1}\")", ".replace(/\\{\\{\\s?(\\w+)\\s?\\}\\}/g, \"{$1}\")"]),
p("C06-placeholder-name", [P, "`{${item.name}}`", "`{${item.name.toLowerCase()}}`"]),
p("C06-placeholder-raw", [P, "                content: this._transformToLangchainVariables(msg.content),", "                content: msg.content.includes(\"{{\") ? this._transformToLangchainVariables(msg.content) : msg.content,"]),
p("C35-config-null", [P, "this.config = prompt.config;", "this.config = prompt.config ?? {};"]),
p("C35-labels-sorted", [P, "this.labels = prompt.labels;", "this.labels = [...new Set(prompt.labels)];"]),
p("C35-commit", [P, "this.commitMessage = prompt.commitMessage;", "this.commitMessage = prompt.commitMessage || undefined;"]),
p("C35-fallback-version", [PM, "version: options?.version ?? 0,", "version: options?.version ?? 1,"]),
p("C35-create-placeholder", [PM, "                  type: ChatMessageType.Placeholder,\n                  name: item.name,\n                } as PlaceholderMessage;", "                  ...item,\n                } as PlaceholderMessage;"]),
p("C35-update-labels", [PM, "      newLabels,\n    });", "      newLabels: [...new Set(newLabels)],\n    });"]),
p("C35-delete-label", [PM, "      label: options?.label,\n    });\n\n    this.cache.invalidate(name);", "      label: options?.version === undefined ? options?.label : undefined,\n    });\n\n    this.cache.invalidate(name);"]),
p("C35-tojson-type", [P, "          const { type: _, ...messageWithoutType } = item;\n          return messageWithoutType;", "          return { role: item.role, content: item.content };"]),
];
