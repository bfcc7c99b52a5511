// Ninth set of hand-written changes.
const MU = "packages/core/src/mediaUpload.ts", RR = "packages/core/src/api/core/fetcher/requestWithRetries.ts", GB = "packages/core/src/api/core/fetcher/getResponseBody.ts", FE = "packages/core/src/api/core/fetcher/Fetcher.ts", MR = "packages/core/src/api/core/fetcher/makeRequest.ts", SG = "packages/core/src/api/core/fetcher/signals.ts", QS = "packages/core/src/api/core/url/qs.ts", DS = "packages/client/src/dataset/index.ts", JP = "packages/client/src/dataset/jsonPath.ts", B = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts", EM = "packages/client/src/experiment/ExperimentManager.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C24-report-body-first", [MU, "    uploadHttpError: await uploadResponse.text(),", "    uploadHttpError: uploadSucceeded ? undefined : (await uploadResponse.text()) || undefined,"]),
p("C24-204-success", [MU, "    uploadResponse.status === 200 || uploadResponse.status === 201;", "    uploadResponse.status >= 200 && uploadResponse.status < 400;"]),
p("C24-retry-4xx-accounting", [MU, "      const delay = baseDelay * Math.pow(2, attempt);", "      const delay = baseDelay * Math.pow(2, Math.min(attempt, 1));"]),
p("C24-gcs-suffix", [MU, "        parsedHostname.endsWith(\".storage.googleapis.com\");", "        parsedHostname.endsWith(\"storage.googleapis.com\");"]),
p("C24-time", [MU, "    uploadHttpStatus: uploadResponse.status,", "    uploadHttpStatus: uploadResponse.status === 201 ? 200 : uploadResponse.status,"]),
p("C24-last-retry-network", [MU, "      if (attempt === maxRetries) {\n        throw e;\n      }", "      if (attempt === maxRetries) {\n        break;\n      }"]),
p("C24-mismatch-prefix", [MU, "  if (clientSideMediaId !== mediaId) {", "  if (clientSideMediaId?.slice(0, 16) !== mediaId.slice(0, 16)) {"]),
p("C26-retry-after-float", [RR, "    const retryAfterSeconds = parseInt(retryAfter, 10);\n    if (!isNaN(retryAfterSeconds) && retryAfterSeconds > 0) {", "    const retryAfterSeconds = parseInt(retryAfter, 10);\n    if (!isNaN(retryAfterSeconds) && retryAfterSeconds > 0 && retryAfterSeconds <= 60) {"]),
p("C26-date-minute", [RR, "        return Math.min(Math.max(delay, 0), MAX_RETRY_DELAY);", "        return Math.min(Math.max(delay, 0) % 60000, MAX_RETRY_DELAY);"]),
p("C26-reset-jitter", [RR, "        return addPositiveJitter(Math.min(delay, MAX_RETRY_DELAY));", "        return addSymmetricJitter(Math.min(delay, MAX_RETRY_DELAY));"]),
p("C26-loop-response", [RR, "    if ([408, 429].includes(response.status) || response.status >= 500) {", "    if ([408, 429].includes(response.status) || (response.status >= 500 && response.status <= 511)) {"]),
p("C26-empty-body-fail", [GB, "  if (text.length > 0) {", "  if (text.trim().length > 0) {"]),
p("C26-3xx", [FE, "    if (response.status >= 200 && response.status < 400) {", "    if (response.ok || response.status === 304 || response.status === 404 && args.method === \"DELETE\") {"]),
p("C26-abort-timeout", [FE, "    if (args.abortSignal != null && args.abortSignal.aborted) {", "    if (args.abortSignal != null) {"]),
p("C26-timeout-zero", [MR, "  if (timeoutMs != null) {\n    const { signal", "  if (timeoutMs != null && timeoutMs < 2_147_483) {\n    const { signal"]),
p("C26-shared-timer", [MR, "    if (timeoutAbortId != null) {\n      clearTimeout(timeoutAbortId);\n    }", "    if (timeoutAbortId != null && !newSignals.aborted) {\n      clearTimeout(timeoutAbortId);\n    }"]),
p("C27-qs-null", [QS, "    if (value === undefined) {\n      continue;\n    }\n\n    if (Array.isArray(value)) {", "    if (value === undefined || value === false) {\n      continue;\n    }\n\n    if (Array.isArray(value)) {"]),
p("C27-qs-array-empty", [QS, "        if (item === undefined) {\n          continue;\n        }\n        if (typeof item", "        if (!item) {\n          continue;\n        }\n        if (typeof item"]),
p("C27-qs-plus", [QS, "  return shouldEncode ? encodeURIComponent(stringValue) : stringValue;", "  return shouldEncode ? encodeURIComponent(stringValue).replace(/%2B/g, \"+\") : stringValue;"]),
p("C27-qs-date", [QS, "  const stringValue = String(value);", "  const stringValue = String(value).normalize();"]),
p("C27-headers-number", [FE, "    const result = await Supplier.get(value);\n    if (typeof result === \"string\") {", "    const result = await Supplier.get(value);\n    if (typeof result === \"string\" && result !== \"\") {"]),
p("C22-page-size", [DS, "        limit: options?.fetchItemsPageSize ?? 50,", "        limit: Math.min(options?.fetchItemsPageSize ?? 50, 100),"]),
p("C22-version-meta", [DS, "        ...(options?.version && { version: options.version }),", "        ...(options?.version && page === 1 && { version: options.version }),"]),
p("C22-empty-page", [DS, "      if (itemsResponse.meta.totalPages <= page) {", "      if (itemsResponse.meta.totalPages <= page || itemsResponse.data.length === 0) {"]),
p("C22-dedupe-items", [DS, "    const itemsWithLinkMethod = items.map((item) => ({", "    const itemsWithLinkMethod = items.filter((item) => item.status !== \"ARCHIVED\").map((item) => ({"]),
p("C22-path-first", [JP, "      const close = jsonPath.indexOf(\"']\", i);", "      const close = jsonPath.indexOf(\"'\", i);"]),
p("C22-index-parse", [JP, "  if (typeof leaf === \"number\" && !Array.isArray(target)) {", "  if (typeof leaf === \"number\" && !Array.isArray(target) && typeof target !== \"object\") {"]),
p("C22-null-mid", [DS, "    } catch (error) {\n      getGlobalLogger().warn(\n        `Failed to hydrate", "    } catch (error) {\n      itemRecord[itemKey] ??= replacement;\n      getGlobalLogger().warn(\n        `Failed to hydrate"]),
p("C22-run-order", [DS, "        data: items,\n        datasetVersion: options?.version,\n        ...params,", "        ...params,\n        data: items,\n        datasetVersion: options?.version ?? undefined,"]),
p("C23-id-per-field", [DS, "    if (!collected.has(mediaId)) {\n      collected.set(mediaId, { media: data, field });\n    }", "    collected.set(mediaId, { media: data, field: collected.get(mediaId)?.field ?? field });\n    if (collected.size > 50) collected.delete(mediaId);"]),
p("C23-null-metadata", [DS, "      input,\n      expectedOutput,\n      metadata,\n    });", "      input,\n      expectedOutput: expectedOutput ?? undefined,\n      metadata,\n    });"]),
p("C23-settled", [DS, "      await Promise.all(\n        [...toUpload.values()].map(({ media, field }) =>", "      await Promise.race(\n        [Promise.all([...toUpload.values()].map(({ media, field }) =>"], [DS, "            datasetItemId,\n            field,\n          }),\n        ),\n      );", "            datasetItemId,\n            field,\n          }),\n        )), new Promise((resolve) => setTimeout(resolve, 120_000).unref?.())],\n      );"]),
p("C23-array-holes", [DS, "    return Promise.all(data.map(recurse));", "    return Promise.all(data.filter((value) => value !== undefined).map(recurse));"]),
p("C23-ancestor-shared", [DS, "  const nextAncestors = new Set(ancestors).add(data);", "  const nextAncestors = ancestors.add(data);"]),
p("C28-id-empty", [B, "    const scoreId = body.id ?? generateUUID(globalThis);", "    const scoreId = body.id || generateUUID(globalThis);"]),
p("C28-success-any", [B, "      (success) => success?.id === event.id,", "      (success) => success?.id === event.id || success?.id === scoreId,"]),
p("C28-env-order", [B, "        environment: body.environment ?? this.environment,", "        environment: this.environment ?? body.environment,"]),
p("C28-error-array", [B, "    if (response.errors.length > 0) {", "    if (response.errors.some((error) => error?.id === event.id)) {"]),
p("C28-shape", [BU, "    Array.isArray((value as LangfuseIngestionResponse).errors)", "    (Array.isArray((value as LangfuseIngestionResponse).errors) || (value as any).errors === null && ((value as any).errors = []))"]),
p("C28-trim-name", [BU, "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase())", "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLocaleLowerCase(\"tr\"))"]),
p("C28-slash", [BU, "  while (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }", "  if (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }"]),
p("C20-worker-yield", [EM, "      while (nextIndex < data.length) {\n        const index = nextIndex++;", "      while (nextIndex < data.length) {\n        const index = nextIndex;\n        if (index > 0) await Promise.resolve();\n        if (index < nextIndex) continue;\n        nextIndex = index + 1;"]),
p("C20-filter-null", [EM, "        result !== undefined,\n    );", "        result !== undefined && result.output !== undefined,\n    );"]),
p("C20-null-input", [EM, "        if (input === undefined) {", "        if (input == null) {"]),
p("C20-eval-sync", [EM, "      async (evaluator) => {\n        const params = {", "      (evaluator) => {\n        const params = {"]),
p("C20-avg-name", [EM, ".filter((e) => e.name === evalName && typeof e.value === \"number\")", ".filter((e) => e.name === evalName && typeof e.value === \"number\" && e.value >= 0)"]),
p("C20-expected-null", [EM, "          originalItem?.expectedOutput ?? result.expectedOutput ?? null;", "          (originalItem?.expectedOutput || result.expectedOutput) ?? null;"]),
p("C21-run-eval-order", [EM, "this.langfuseClient.score.create({ datasetRunId, ...runEval }),", "this.langfuseClient.score.create({ ...runEval, datasetRunId, id: runEval.name + datasetRunId } as any),"]),
p("C21-ev-bind", [EM, "        traceId,\n        observationId,\n        ...ev,\n      });", "        traceId,\n        ...(ev.dataType === \"TEXT\" as any ? {} : { observationId }),\n        ...ev,\n      });"]),
p("C21-flush-when-evals", [EM, "    await this.langfuseClient.score.flush();\n\n    return {", "    if (runEvaluations.length > 0 || itemResults.some((result) => result.evaluations.length > 0)) {\n      void this.langfuseClient.score.flush();\n      await this.langfuseClient.score.flush();\n    }\n\n    return {"]),
p("C21-item-id", [EM, "        const datasetItemId = \"id\" in item ? item.id : undefined;", "        const datasetItemId = \"id\" in item && datasetId ? item.id : undefined;"]),
p("C21-meta-order", [EM, "            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", "            ...experimentMetadata,\n            ...(itemMetadata ?? {}),"]),
p("C21-run-id-first", [EM, "        const experimentId = datasetRunId || params.fallbackExperimentId;", "        const experimentId = params.fallbackExperimentId;"]),
p("C21-description", [EM, "                runDescription: params.experimentDescription,", "                runDescription: params.experimentDescription?.slice(0, 200),"]),
];
