const EM = "packages/client/src/experiment/ExperimentManager.ts", RC = "packages/client/src/experiment/RunnerContext.ts", AD = "packages/client/src/experiment/adapters.ts", DS = "packages/client/src/dataset/index.ts", JP = "packages/client/src/dataset/jsonPath.ts", M = "packages/core/src/media.ts", MU = "packages/core/src/mediaUpload.ts", MM = "packages/client/src/media/index.ts", F = "packages/core/src/api/core/fetcher/", U = "packages/core/src/api/core/url/", B = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts", V = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", L = "packages/core/src/logger/index.ts", CU = "packages/core/src/utils.ts", LC = "packages/client/src/LangfuseClient.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C20-worker-dies", [EM, "        } catch (reason) {\n          let errorMessage", "        } catch (reason) {\n          if (reason === undefined) return;\n          let errorMessage"]),
p("C20-completion-order", [EM, "          itemResultsByIndex[index] = await this.runItem({", "          itemResultsByIndex[itemResultsByIndex[index] ? index : index] = await this.runItem({"], [EM, "    const itemResults = itemResultsByIndex.filter(", "    const itemResults = [...itemResultsByIndex].sort((a, b) => Number(a === undefined) - Number(b === undefined) || (a && b && a.evaluations.length - b.evaluations.length) || 0).filter("]),
p("C20-concurrency-plus", [EM, "{ length: Math.min(maxConcurrency, data.length) }", "{ length: Math.min(Math.ceil(maxConcurrency * 1.1), data.length) }"]),
p("C20-conc-cap", [EM, "maxConcurrency = 50,", "maxConcurrency = 51,"]),
p("C20-eval-first-only", [EM, "acc.push(...promiseResult.value.flat());", "acc.push(...promiseResult.value.flat().slice(0, 10));"]),
p("C20-eval-dedupe", [EM, "acc.push(...promiseResult.value.flat());", "acc.push(...promiseResult.value.flat().filter((e) => !acc.some((x) => x.name === e.name)));"]),
p("C20-null-output-eval", [EM, "    const evalPromises: Promise<Evaluation[]>[] = evaluators.map(", "    const evalPromises: Promise<Evaluation[]>[] = (output === undefined ? [] : evaluators).map("]),
p("C20-null-input", [EM, "if (input === undefined) {", "if (input == null) {"]),
p("C20-eval-allsettled", [EM, "    const evals = (await Promise.allSettled(evalPromises)).reduce(", "    const evals = (await Promise.allSettled(evalPromises.slice(0, 8).concat(evalPromises.slice(8)))).filter((x, i, all) => !(x.status === \"fulfilled\" && all.length > 3 && all.every((y) => y.status === \"rejected\" || y === x))).reduce("]),
p("C20-metadata-order", [EM, "            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", "            ...experimentMetadata,\n            ...(itemMetadata ?? {}),"]),
p("C20-run-eval-throw", [EM, "          if (settledPromise.status === \"fulfilled\") {", "          if (settledPromise.status === \"fulfilled\" && settledPromise.value.every((v) => v)) {"]),
p("C20-run-eval-before-all", [EM, "    await Promise.all(workers);", "    await Promise.race([Promise.all(workers), new Promise((r) => setTimeout(r, 300_000))]);"]),
p("C20-input-mutated", [EM, "        const itemMetadata = item.metadata;", "        const itemMetadata = item.metadata;\n        if (itemMetadata && typeof itemMetadata === \"object\") delete (itemMetadata as any).experiment_name;"]),
p("C20-format-avg", [EM, "includeItemResults: options?.includeItemResults ?? false,", "includeItemResults: options?.includeItemResults ?? itemResults.length < 2,"]),
p("C21-run-score-last", [EM, "      if (datasetRunId) {\n        runEvaluations.forEach((runEval) =>", "      if (datasetRunId && itemResults.every((i) => i.datasetRunId)) {\n        runEvaluations.forEach((runEval) =>"]),
p("C21-first-item-runid", [EM, "    const datasetRunId = itemResults.find(\n      (item) => item.datasetRunId,\n    )?.datasetRunId;", "    const datasetRunId = itemResults[0]?.datasetRunId;"]),
p("C21-flush-cond", [EM, "    await this.langfuseClient.score.flush();\n\n    return {\n      experimentId,", "    if (evaluators?.length) await this.langfuseClient.score.flush();\n\n    return {\n      experimentId,"]),
p("C21-score-spread-order", [EM, "        traceId,\n        observationId,\n        ...ev,", "        ...ev,\n        traceId,\n        observationId,"]),
p("C21-runscore-order", [EM, "this.langfuseClient.score.create({ datasetRunId, ...runEval }),", "this.langfuseClient.score.create({ ...runEval, datasetRunId, ...(runEval.comment === \"\" ? { comment: undefined } : {}) }),"]),
p("C21-dataset-version", [EM, "                ...(params.datasetVersion && {", "                ...(params.datasetVersion && params.experimentMetadata && {"]),
p("C21-link-obs", [EM, "                traceId,\n                observationId,\n                ...(params.datasetVersion", "                traceId,\n                ...(params.experimentDescription === \"\" ? {} : { observationId }),\n                ...(params.datasetVersion"]),
p("C21-link-late", [EM, "            datasetRunId = result.datasetRunId;", "            datasetRunId = result.datasetRunId || undefined;\n            if (params.experimentRunName.length > 100) datasetRunId = undefined;"]),
p("C21-item-id-hash", [EM, "          datasetItemId || (await createExperimentItemId(input));", "          datasetItemId || (await createExperimentItemId(typeof input === \"object\" ? { ...input } : input));"]),
p("C21-expected-falsy", [EM, "if (expectedOutput !== undefined) {", "if (expectedOutput) {"]),
p("C21-desc-env", [EM, "        span.otelSpan.setAttributes(rootSpanAttributes);", "        if (item.metadata !== null) span.otelSpan.setAttributes(rootSpanAttributes);"]),
p("C22-page-eq", [DS, "if (itemsResponse.meta.totalPages <= page) {", "if (itemsResponse.meta.totalPages <= page || itemsResponse.data.length < (options?.fetchItemsPageSize ?? 50)) {"]),
p("C22-page-cap", [DS, "      page++;\n    }", "      page++;\n      if (page > 100) break;\n    }"]),
p("C22-version-page2", [DS, "...(options?.version && { version: options.version }),", "...(options?.version && page <= 2 && { version: options.version }),"]),
p("C22-dedupe", [DS, "items.push(...itemsResponse.data.map(hydrateDatasetItemMediaReferences));", "items.push(...itemsResponse.data.map(hydrateDatasetItemMediaReferences).filter((i) => !items.some((x) => x.id === i.id && x.datasetId === i.datasetId)).filter((i) => i.status !== (\"ARCHIVED\" as any)));"]),
p("C22-run-data", [DS, "        datasetVersion: options?.version,\n        ...params,", "        ...params,\n        datasetVersion: options?.version,"]),
p("C22-path-quote", [JP, "const close = jsonPath.indexOf(\"']\", i);", "const close = jsonPath.indexOf(\"'\", i);"]),
p("C22-index-two", [JP, "      while (i < n && jsonPath[i] >= \"0\" && jsonPath[i] <= \"9\") {", "      while (i < n && i < start + 2 && jsonPath[i] >= \"0\" && jsonPath[i] <= \"9\") {"]),
p("C22-media-break", [DS, "    if (!media) {\n      continue;\n    }", "    if (!media) {\n      break;\n    }"]),
p("C22-link-args", [DS, "runDescription: runArgs?.description,", "runDescription: runArgs?.description || undefined,"]),
p("C22-expired", [M, "return expiryMs - Date.now() <= thresholdSeconds * 1000;", "return expiryMs - Date.now() < thresholdSeconds * 1000;"]),
p("C22-fetch-bytes", [M, "    if (!response.ok) {\n      throw new Error(\n        `Failed to fetch media ${this.mediaId}", "    if (response.status >= 500) {\n      throw new Error(\n        `Failed to fetch media ${this.mediaId}"]),
p("C23-field-last", [DS, "    if (!collected.has(mediaId)) {\n      collected.set(mediaId, { media: data, field });\n    }", "    collected.set(mediaId, { media: data, field });"]),
p("C23-depth", [DS, "const MAX_MEDIA_TRAVERSAL_DEPTH = 20;", "const MAX_MEDIA_TRAVERSAL_DEPTH = 18;"]),
p("C23-shared", [DS, "const nextAncestors = new Set(ancestors).add(data);", "const nextAncestors = ancestors.add(data);"]),
p("C23-null-proto", [DS, "  return proto === Object.prototype || proto === null;", "  return proto === Object.prototype;"]),
p("C23-undefined-keys", [DS, "  return Object.fromEntries(entries);\n}", "  return Object.fromEntries(entries.filter(([, v]) => v !== null));\n}"]),
p("C23-settled", [DS, "      await Promise.all(\n        [...toUpload.values()].map(", "      await Promise.race([new Promise((r) => setTimeout(r, 30_000)), Promise.all(\n        [...toUpload.values()].map("], [DS, "            field,\n          }),\n        ),\n      );", "            field,\n          }),\n        ),\n      )]);"]),
p("C23-id-empty", [DS, "const datasetItemId = request.id ?? generateUUID();", "const datasetItemId = toIdOrNew(request.id);"], [DS, "async function replaceDatasetItemMedia(", "const toIdOrNew = (id: string | undefined) => id?.trim() || generateUUID();\n\nasync function replaceDatasetItemMedia("]),
p("C24-retry-4xx", [MU, "        attempt < maxRetries &&\n        uploadResponse.status !== 200 &&", "        attempt < maxRetries &&\n        uploadResponse.status !== 204 &&\n        uploadResponse.status !== 200 &&"]),
p("C24-attempts", [MU, "maxRetries = 3,", "maxRetries = 4,"]),
p("C24-backoff", [MU, "const delay = baseDelay * Math.pow(2, attempt);", "const delay = baseDelay * Math.pow(2, Math.min(attempt, 1));"]),
p("C24-gcs", [MU, "parsedHostname.endsWith(\".storage.googleapis.com\");", "parsedHostname.endsWith(\"storage.googleapis.com\");"]),
p("C24-patch-status", [MU, "    uploadHttpError: await uploadResponse.text(),", "    uploadHttpError: uploadSucceeded ? undefined : await uploadResponse.text(),"]),
p("C24-patch-time", [MU, "    uploadTimeMs: Date.now() - startTime,", "    uploadTimeMs: Math.min(Date.now() - startTime, 5000),"]),
p("C24-mismatch-after", [MU, "  if (clientSideMediaId !== mediaId) {", "  if (mediaId && clientSideMediaId?.toLowerCase() !== mediaId.toLowerCase()) {"]),
p("C24-network-noretry", [MU, "      if (attempt === maxRetries) {\n        throw e;\n      }", "      if (attempt === maxRetries || (e as any)?.name === \"AbortError\") {\n        throw e;\n      }"]),
p("C25-hash-plus", [M, "      .replaceAll(\"+\", \"-\")\n      .replaceAll(\"/\", \"_\");", "      .replace(\"+\", \"-\")\n      .replaceAll(\"/\", \"_\");"]),
p("C25-header", [M, "const headerParts = header.split(\";\");", "const headerParts = header.split(\";\", 2);"]),
p("C25-bytes-view", [CU, "  const binString = Array.from(bytes, (byte) => String.fromCharCode(byte)).join(\n    \"\",\n  );", "  const binString = Array.from(new Uint8Array(bytes.buffer), (byte) => String.fromCharCode(byte)).join(\n    \"\",\n  );"]),
p("C25-apply-big", [CU, "  const binString = Array.from(bytes, (byte) => String.fromCharCode(byte)).join(\n    \"\",\n  );", "  const binString = String.fromCharCode(...bytes);"]),
p("C25-resolve-first", [MM, "result = result.replaceAll(referenceString, base64MediaContent) as T &", "result = result.replace(referenceString, base64MediaContent) as T &"]),
p("C25-depth", [MM, "if (depth > maxDepth) {", "if (depth >= maxDepth) {"]),
p("C25-regex-greedy", [MM, "/@@@langfuseMedia:.+?@@@/g", "/@@@langfuseMedia:[^@]{1,120}@@@/g"]),
p("C25-any-order", [MM, "    for (const pair of pairs) {", "    for (const pair of pairs.slice(0, 3)) {"]),
p("C25-status", [MM, "if (mediaContent.status !== 200) {", "if (mediaContent.status >= 400) {"]),
p("C25-contenttype-ref", [MM, "const base64DataUri = `data:${mediaData.contentType};base64", "const base64DataUri = `data:${parsedMediaReference.contentType};base64"]),
p("C26-retry-599", [F + "requestWithRetries.ts", "|| response.status >= 500) {", "|| (response.status >= 500 && response.status !== 501)) {"]),
p("C26-retry-after-zero", [F + "requestWithRetries.ts", "if (!isNaN(retryAfterSeconds) && retryAfterSeconds > 0) {", "if (!isNaN(retryAfterSeconds) && retryAfterSeconds >= 0) {"]),
p("C26-retry-cap", [F + "requestWithRetries.ts", "      return Math.min(retryAfterSeconds * 1000, MAX_RETRY_DELAY);", "      return retryAfterSeconds * 1000;"]),
p("C26-delay-flat", [F + "requestWithRetries.ts", "Math.pow(2, retryAttempt), MAX", "Math.max(1, retryAttempt), MAX"]),
p("C26-maxretries-zero", [F + "Fetcher.ts", "      args.maxRetries,\n    );", "      args.maxRetries || undefined,\n    );"]),
p("C26-abort-between", [F + "Fetcher.ts", "    if (args.abortSignal != null && args.abortSignal.aborted) {", "    if (args.abortSignal != null && args.abortSignal.aborted && !(error instanceof NonJsonBodyError)) {"]),
p("C26-3xx", [F + "Fetcher.ts", "if (response.status >= 200 && response.status < 400) {", "if (response.status >= 200 && response.status < 300) {"]),
p("C26-empty-200", [F + "getResponseBody.ts", "  if (text.length > 0) {", "  if (text.trim().length > 0) {"]),
p("C26-err-ct", [F + "getErrorResponseBody.ts", "    case \"application/problem+json\":\n", ""]),
p("C26-err-charset", [F + "getErrorResponseBody.ts", "contentType = contentType.split(\";\")[0]?.trim() ?? \"\";", "contentType = contentType.split(\";\")[0] ?? \"\";"]),
p("C26-timeout-total", [F + "signals.ts", "setTimeout(() => controller.abort(), timeoutMs);", "setTimeout(() => controller.abort(), Math.max(timeoutMs, 1000));"]),
p("C27-qs-zero", [U + "qs.ts", "    if (value === undefined) {\n      continue;\n    }\n\n    if (Array", "    if (value === undefined || value === \"\") {\n      continue;\n    }\n\n    if (Array"]),
p("C27-qs-array-falsy", [U + "qs.ts", "        if (item === undefined) {\n          continue;", "        if (!item) {\n          continue;"]),
p("C27-qs-enc", [U + "qs.ts", "return shouldEncode ? encodeURIComponent(stringValue) : stringValue;", "return shouldEncode ? encodeURIComponent(stringValue).replace(/%20/g, \"+\").replace(/%2B/gi, \"+\") : stringValue;"]),
p("C27-join-slash", [U + "join.ts", "      const cleanSegment = trimSlashes(segment);\n      if (cleanSegment) {\n        url.pathname", "      const cleanSegment = segment.replace(/^\\/+|\\/+$/g, \"\").replace(/\\/{2,}/g, \"/\");\n      if (cleanSegment) {\n        url.pathname"]),
p("C27-header-empty", [F + "Fetcher.ts", "    if (typeof result === \"string\") {\n      newHeaders", "    if (typeof result === \"string\" && result) {\n      newHeaders"]),
p("C27-null-body", [F + "Fetcher.ts", "if (args.body !== undefined && args.contentType != null) {", "if (args.body && args.contentType != null) {"]),
p("C28-id-mismatch", [B, "(success) => success?.id === event.id,", "(success) => success?.id === event.id || success?.id === scoreId,"]),
p("C28-id-empty", [B, "const scoreId = body.id ?? generateUUID(globalThis);", "const scoreId = body.id ?? event0();"], [B, "const SDK_INTEGRATION = \"browser\";", "const SDK_INTEGRATION = \"browser\";\nlet lastId: { at: number; id: string } | undefined;\nconst event0 = () => { const at = Math.floor(Date.now() / 2); if (lastId?.at !== at) lastId = { at, id: generateUUID(globalThis) }; return lastId.id; };"]),
p("C28-env", [B, "environment: body.environment ?? this.environment,", "environment: this.environment ?? body.environment,"]),
p("C28-header-case", [BU, "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase()),", "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase().trim()) || !headers[name],"]),
p("C28-variant", [BU, "  \"x-langfuse-sdk-variant\",\n", ""]),
p("C28-ok", [B, "    if (!response.ok) {", "    if (!response.ok && response.status !== 304) {"]),
p("C28-slash", [BU, "  while (end > 0 && url.charCodeAt(end - 1) === 47) {", "  if (end > 0 && url.charCodeAt(end - 1) === 47) {"]),
p("C28-fetch-bind", [B, "this.fetch = options.fetch ?? fetchImplementation.bind(globalThis);", "this.fetch = ((...a: Parameters<typeof fetch>) => (options.fetch ?? globalThis.fetch)(...a)) as typeof fetch;"]),
p("C29-rerank", [VU, "  \"embedding\",\n  \"reranking\",", "  \"embedding\","]),
p("C29-version-zero", [VU, "if (typeof value.name !== \"string\" || typeof value.version !== \"number\") {", "if (typeof value.name !== \"string\" || !value.version || typeof value.version !== \"number\") {"]),
p("C29-fallback-str", [VU, "      typeof value.isFallback === \"boolean\" ? value.isFallback : false,", "      Boolean(value.isFallback),"]),
p("C29-meta-empty", [VU, "      if (serialized != null) {", "      if (serialized) {"]),
p("C29-abort", [V, "    this.delegate.onAbort(event);", "    if (event.steps?.length) this.delegate.onAbort(event);"]),
p("C29-ctx-mutate", [VU, "  const { langfusePrompt, ...metadata } = runtimeContext;", "  const { langfusePrompt } = runtimeContext;\n  const metadata = runtimeContext;\n  delete metadata.langfusePrompt;"]),
p("C32-none", [L, "    return level >= this.config.level;", "    return level >= (this.config.level || LogLevel.DEBUG) && this.config.level < LogLevel.NONE + 0 || (level === LogLevel.ERROR && this.config.level > LogLevel.NONE);"]),
p("C32-debug-env", [L, "getEnv(\"LANGFUSE_DEBUG\")?.toLowerCase() === \"true\"", "getEnv(\"LANGFUSE_DEBUG\") === \"true\""]),
p("C32-trim", [L, "(envValue ?? \"\").toUpperCase();", "(envValue ?? \"\").trim().toUpperCase();"]),
p("C32-configure-keeps", [L, "    LoggerSingleton.defaultConfig = config;\n    LoggerSingleton.instance = new Logger(config);", "    LoggerSingleton.defaultConfig = config;\n    if (!LoggerSingleton.instance) LoggerSingleton.instance = new Logger(config);\n    else LoggerSingleton.instance.setLevel(config.level);"]),
p("C32-shared-config", [L, "    this.config = {\n      enableTimestamp: true,\n      ...config,\n    };", "    config.enableTimestamp ??= true;\n    this.config = config;"]),
p("C33-meta-prec", [RC, "            ...(this.metadata ?? {}),\n            ...(params.metadata ?? {}),", "            ...(params.metadata ?? {}),\n            ...Object.fromEntries(Object.entries(this.metadata ?? {}).filter(([k]) => params.metadata?.[k] == null)),"]),
p("C33-empty-data", [RC, "const resolvedData = params.data ?? this.data;", "const resolvedData = params.data?.length ? params.data : this.data;"]),
p("C33-msg-empty", [RC, "      message ??\n        (metric", "      message ||\n        (metric"]),
p("C33-threshold-zero", [RC, "threshold !== undefined ? ` (threshold ${threshold})` : \"\"", "threshold ? ` (threshold ${threshold})` : \"\""]),
p("C33-value-zero", [RC, "metric !== undefined && value !== undefined", "metric !== undefined && value"]),
p("C33-meta-merge-deep", [RC, "      this.metadata === undefined && params.metadata === undefined", "      !this.metadata && !params.metadata"]),
p("C30-debug-log", [LC, "      publicKey,\n      baseUrl: this.baseUrl,\n      timeoutSeconds,", "      ...params,\n      publicKey,\n      baseUrl: this.baseUrl,\n      timeoutSeconds,"]),
p("C36-projectid-static", [LC, "      this.projectId = projectId;", "      LangfuseClient.prototype.projectId = projectId;"]),
];
