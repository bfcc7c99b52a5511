// Twelfth set: tracing, propagation, experiments, CI context, AI SDK, API requests.
const PR = "packages/core/src/propagation.ts", TI = "packages/tracing/src/index.ts", AT = "packages/tracing/src/attributes.ts", EM = "packages/client/src/experiment/ExperimentManager.ts", RC = "packages/client/src/experiment/RunnerContext.ts", AD = "packages/client/src/experiment/adapters.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", VI = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", RR = "packages/core/src/api/core/fetcher/requestWithRetries.ts", FE = "packages/core/src/api/core/fetcher/Fetcher.ts";
const p = (id, ...edits) => ({ id, property: id.slice(0, 3), edits });
export default [
p("C11-merged-only-new-on-span", [PR, "      span.setAttribute(spanKey, mergedTags);", "      span.setAttribute(spanKey, value);"]),
p("C11-existing-tags-mutated", [PR, "    return [...new Set([...existingTags, ...newTags])];", "    for (const t of newTags) if (!existingTags.includes(t)) existingTags.push(t);\n    return existingTags;"]),
p("C11-metadata-mutated", [PR, "    return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "    return Object.assign(existingMetadata, newMetadata);"]),
p("C11-prompt-inner-missing", [PR, "  if (typeof promptVersion === \"number\") {", "  if (promptVersion && typeof promptVersion === \"number\") {"]),
p("C12-env-trailing-newline", [PR, "const ENVIRONMENT_VALUE_PATTERN = /^(?!langfuse)[a-z0-9_-]+$/;", "const ENVIRONMENT_VALUE_PATTERN = /^(?!langfuse)[a-z0-9_-]+$/m;"]),
p("C12-env-contains", [PR, "const ENVIRONMENT_VALUE_PATTERN = /^(?!langfuse)[a-z0-9_-]+$/;", "const ENVIRONMENT_VALUE_PATTERN = /^(?!.*langfuse)[a-z0-9_-]+$/;"]),
p("C12-version-string-neg", [PR, "typeof rawVersion === \"string\" && /^\\d+$/.test(rawVersion)", "typeof rawVersion === \"string\" && rawVersion.trim() !== \"\""]),
p("C12-meta-empty-dropped", [PR, "        validatedMetadata[key] = value;", "        if (value) validatedMetadata[key] = value;"]),
p("C12-metadata-proto", [PR, "    const validatedMetadata: Record<string, string> = {};", "    const validatedMetadata: Record<string, string> = Object.create(null);"]),
p("C13-baggage-all-tags", [PR, "        ...new Set([...getBaggageTags(params.context), ...value]),", "        ...new Set([...mergedTags, ...value]),"]),
p("C13-baggage-all-metadata", [PR, "      for (const [k, v] of Object.entries(value)) {\n        baggage", "      for (const [k, v] of Object.entries(mergedMetadata)) {\n        baggage"]),
p("C13-baggage-fresh", [PR, "      propagation.getBaggage(context) || propagation.createBaggage();", "      (asBaggage && key === \"metadata\" && propagation.getBaggage(context)?.getAllEntries().length! > 8 ? undefined : propagation.getBaggage(context)) || propagation.createBaggage();"]),
p("C14-claim-active-only", [TI, "        context.active(),\n        span.spanContext().traceId,\n      );\n\n      return context.with", "        context.active(),\n        (observationOptions?.parentSpanContext ?? span.spanContext()).traceId.slice(0, asType === \"event\" ? 0 : 32),\n      );\n\n      return context.with"]),
p("C14-observe-no-claim", [TI, "    const activeContext = setLangfuseTraceIdInBaggage(\n      trace.setSpan(context.active(), observation.otelSpan),\n      observation.otelSpan.spanContext().traceId,\n    );", "    const spanContext = trace.setSpan(context.active(), observation.otelSpan);\n    const activeContext = parentSpanContext\n      ? spanContext\n      : setLangfuseTraceIdInBaggage(\n          spanContext,\n          observation.otelSpan.spanContext().traceId,\n        );"]),
p("C15-thenable", [TI, "          if (result instanceof Promise) {\n            return wrapPromise(", "          if (result && typeof (result as any).then === \"function\") {\n            return wrapPromise("]),
p("C15-observe-error-empty", [TI, "            observation.updateOtelSpanAttributes({\n              level: \"ERROR\",", "            if (error !== undefined) observation.updateOtelSpanAttributes({\n              level: \"ERROR\","]),
p("C15-args-array-single", [TI, "    if (args.length === 1) return args[0];", "    if (args.length === 1) return Array.isArray(args[0]) ? args : args[0];"]),
p("C15-trailing-undefined", [TI, "    if (args.length === 0) return undefined;", "    if (args.length === 0 || args.every((a) => a === undefined)) return undefined;\n    args = args.filter((a, i) => a !== undefined || i === 0);"]),
p("C15-endonexit-error", [TI, "          if (observationOptions?.endOnExit !== false) {\n            span.end();\n          }\n\n          throw err;", "          span.end();\n\n          throw err;"]),
p("C16-update-type-reset", [TI, "  if (!options?.asType) {\n    otelAttributes", "  if (options === undefined) {\n    otelAttributes"]),
p("C16-metadata-array", [AT, "  if (typeof metadata !== \"object\" || Array.isArray(metadata)) {", "  if (typeof metadata !== \"object\") {"]),
p("C16-nan-usage", [AT, "    return obj != null ? JSON.stringify(obj) : undefined;", "    return obj != null ? JSON.stringify(obj, (_k, v) => (typeof v === \"number\" && !Number.isSafeInteger(v) && Number.isInteger(v) ? String(v) : v)) : undefined;"]),
p("C16-prompt-zero", [AT, "    ...(prompt && !prompt.isFallback\n", "    ...(prompt && prompt.version && !prompt.isFallback\n"]),
p("C16-undefined-in-map", [AT, "      const serialized = typeof value === \"string\" ? value : _serialize(value);", "      const serialized = typeof value === \"string\" ? value.trim() : _serialize(value);"]),
p("C16-level-default", [AT, "    [LangfuseOtelSpanAttributes.OBSERVATION_LEVEL]: level,", "    [LangfuseOtelSpanAttributes.OBSERVATION_LEVEL]:\n      level === \"DEFAULT\" ? undefined : level,"]),
p("C20-maxc-batch", [EM, "      { length: Math.min(maxConcurrency, data.length) },", "      { length: Math.min(maxConcurrency, data.length, 50) },"]),
p("C20-null-input", [EM, "        if (input === undefined) {", "        if (input == null) {"]),
p("C20-eval-seq-break", [EM, "          acc.push(...promiseResult.value.flat());", "          acc.push(...promiseResult.value.flat().filter((e) => e.value !== null && e.value !== undefined));"]),
p("C20-result-mutation", [EM, "      evaluations: evals,\n      traceId,", "      evaluations: evals.sort((a, b) => a.name.localeCompare(b.name)),\n      traceId,"]),
p("C20-avg-nan", [EM, "          .filter((e) => e.name === evalName && typeof e.value === \"number\")", "          .filter((e) => e.name === evalName && typeof e.value === \"number\" && e.value !== 0)"]),
p("C20-run-eval-results", [EM, "        return runEvaluator({ itemResults })", "        return runEvaluator({ itemResults: itemResults.filter((r) => r.evaluations.length > 0 || evaluators === undefined) })"]),
p("C20-format-expected-falsy", [EM, "          originalItem?.expectedOutput ?? result.expectedOutput ?? null;", "          (originalItem?.expectedOutput || result.expectedOutput) ?? null;"]),
p("C21-eval-trace-override", [EM, "      this.langfuseClient.score.create({\n        traceId,\n        observationId,\n        ...ev,\n      });", "      this.langfuseClient.score.create({\n        traceId,\n        ...(ev.dataType === \"BOOLEAN\" ? {} : { observationId }),\n        ...ev,\n      });"]),
p("C21-flush-only-run", [EM, "    await this.langfuseClient.score.flush();\n\n    return {\n      experimentId,", "    if (itemResults.some((r) => r.evaluations.length > 0)) await this.langfuseClient.score.flush();\n\n    return {\n      experimentId,"]),
p("C21-experiment-meta-order", [EM, "            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", "            ...experimentMetadata,\n            ...(itemMetadata ?? {}),"]),
p("C21-root-no-output", [EM, "        span.update({\n          input,\n          output,", "        span.update({\n          input,\n          output: output || undefined,"]),
p("C21-runid-first-only", [EM, "    const datasetRunId = itemResults.find(\n      (item) => item.datasetRunId,\n    )?.datasetRunId;", "    const datasetRunId = itemResults[0]?.datasetRunId;"]),
p("C33-data-falsy", [RC, "    const resolvedData = params.data ?? this.data;", "    const resolvedData = params.data?.length ? params.data : this.data;"]),
p("C33-meta-deep", [RC, "            ...(this.metadata ?? {}),\n            ...(params.metadata ?? {}),", "            ...(this.metadata ?? {}),\n            ...Object.fromEntries(Object.entries(params.metadata ?? {}).filter(([, v]) => v !== null)),"]),
p("C33-value-zero", [RC, "        (metric !== undefined && value !== undefined\n", "        (metric !== undefined && value\n"]),
p("C33-adapter-params-win", [AD, "      ...(params ?? {}),\n      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,", "      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,\n      ...(params ?? {}),"]),
p("C33-adapter-clamp", [AD, "      value: score.score ?? 0,", "      value: Math.min(score.score ?? 0, 1),"]),
p("C29-prompt-array", [VU, "  const { langfusePrompt, ...metadata } = runtimeContext;", "  const { langfusePrompt, ...rest } = runtimeContext;\n  const metadata = langfusePrompt && !isPlainObject(langfusePrompt) ? runtimeContext : rest;"]),
p("C29-empty-string", [VU, "      if (serialized != null) {", "      if (serialized) {"]),
p("C29-fail-all", [VU, "  } catch {\n    return \"<failed to serialize>\";\n  }", "  } catch {\n    return;\n  }"]),
p("C29-abort-end", [VI, "  onAbort(event: GenerateTextAbortEvent<ToolSet>): void {\n    this.delegate.onAbort(event);", "  onAbort(event: GenerateTextAbortEvent<ToolSet>): void {\n    if (event) return;\n    this.delegate.onAbort(event);"]),
p("C26-retry-500-body", [RR, "    if ([408, 429].includes(response.status) || response.status >= 500) {", "    if ([408, 429].includes(response.status) || (response.status >= 500 && response.status !== 501)) {"]),
p("C26-retry-after-date", [RR, "      if (delay > 0) {\n        return Math.min(Math.max(delay, 0), MAX_RETRY_DELAY);", "      if (delay > INITIAL_RETRY_DELAY) {\n        return Math.min(Math.max(delay, 0), MAX_RETRY_DELAY);"]),
p("C26-headers-once", [FE, "          await getHeaders(args),\n", "          await headersOnce,\n"], [FE, "  const fetchFn = await getFetchFn();", "  const fetchFn = await getFetchFn();\n  const headersOnce = getHeaders(args);"]),
p("C26-304-fail", [FE, "    if (response.status >= 200 && response.status < 400) {", "    if (response.status >= 200 && response.status < 300 && response.status !== 206) {"]),
];
