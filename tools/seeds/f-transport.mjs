const RR = "packages/core/src/api/core/fetcher/requestWithRetries.ts", MR = "packages/core/src/api/core/fetcher/makeRequest.ts", GE = "packages/core/src/api/core/fetcher/getErrorResponseBody.ts", FE = "packages/core/src/api/core/fetcher/Fetcher.ts", QS = "packages/core/src/api/core/url/qs.ts", JO = "packages/core/src/api/core/url/join.ts", RES = "packages/core/src/api/api/resources", LC = "packages/client/src/LangfuseClient.ts", BI = "packages/browser/src/index.ts", BU = "packages/browser/src/utils.ts", VU = "packages/vercel-ai-sdk/src/utils.ts", VI = "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", MM = "packages/client/src/media/index.ts", SP = "packages/otel/src/span-processor.ts", HP = "packages/core/src/api/core/fetcher/HttpResponsePromise.ts", PM = "packages/client/src/prompt/promptManager.ts";
const cl = `quiet(); const { LangfuseClient } = lf("client"); const core = lf("core"); const client = new LangfuseClient(KEYS);
`;
const br = `const { LangfuseBrowserClient, LangfuseBrowserError } = lf("browser");
  const accept = (r) => ({ status: 207, body: { successes: r.json.batch.map((e) => ({ id: e.id, status: 201 })), errors: [] } });
`;
export default [
{ id: "C26-conflict-retried", property: "C26",
  edits: [[RR, `    if ([408, 429].includes(response.status) || response.status >= 500) {`, `    if (
      [408, 409, 425, 429].includes(response.status) ||
      response.status >= 500
    ) {`]],
  needs: "a server that answers 409",
  breaks: "a final answer is retried",
  demo: cl + `let n = 0; serve(async () => { n++; return { status: 409, body: {} }; }); await assert.rejects(client.api.health.health()); assert.equal(n, 1);` },
{ id: "C26-retry-after-unbounded", property: "C26",
  edits: [[RR, `      return Math.min(retryAfterSeconds * 1000, MAX_RETRY_DELAY);`, `      return retryAfterSeconds * 1000;`]],
  needs: "a Retry-After of more than a minute",
  breaks: "the call waits longer than a minute",
  demo: cl + `let n = 0; serve(async () => n++ ? { body: {} } : { status: 429, body: {}, headers: { "Retry-After": "300" } }); const st = globalThis.setTimeout, waits = []; globalThis.setTimeout = (f, ms) => { waits.push(ms); return st(f, ms > 59999 && waits.length > 1 ? 1 : ms); };
  await client.api.health.health(); globalThis.setTimeout = st; assert.ok(waits.every((w) => w <= 72000), waits.join());` },
{ id: "C26-linear-backoff", property: "C26",
  edits: [[RR, `    Math.min(INITIAL_RETRY_DELAY * Math.pow(2, retryAttempt), MAX_RETRY_DELAY),`, `    Math.min(INITIAL_RETRY_DELAY * (retryAttempt + 1), MAX_RETRY_DELAY),`]],
  needs: "three or more retries",
  breaks: "the delays grow linearly instead of doubling",
  demo: cl + `serve(async () => ({ status: 503, body: {} })); const st = globalThis.setTimeout, waits = []; globalThis.setTimeout = (f, ms, ...a) => { if (ms < 50000) waits.push(ms); return st(f, ms < 50000 ? 1 : ms, ...a); };
  await assert.rejects(client.api.health.health({ maxRetries: 4 })); globalThis.setTimeout = st; assert.ok(waits[3] > 6000, waits.join());` },
{ id: "C26-aborted-before-start", property: "C26",
  edits: [[MR, `  if (abortSignal != null) {
    signals.push(abortSignal);
  }`, `  if (abortSignal != null && !abortSignal.aborted) {
    signals.push(abortSignal);
  }`]],
  needs: "a signal aborted before the attempt starts",
  breaks: "the request is sent and the call resolves although it was aborted",
  demo: cl + `serve(async () => ({ body: { status: "OK", version: "1" } })); const c = new AbortController(); c.abort();
  const f = globalThis.fetch; globalThis.fetch = (u, i) => { if (i.signal?.aborted) throw i.signal.reason; return f(u, i); };
  await assert.rejects(client.api.health.health({ abortSignal: c.signal }));` },
{ id: "C26-charset-without-space", property: "C26",
  edits: [[GE, `  if (contentType.indexOf(";") !== -1) {`, `  if (contentType.indexOf("; ") !== -1) {`]],
  needs: "an error answer whose content type has a parameter without a space",
  breaks: "the error carries the body as text instead of parsed",
  demo: cl + `serve(async () => ({ status: 400, body: '{"message":"bad"}', headers: { "content-type": "application/json;charset=utf-8" } })); await assert.rejects(client.api.health.health(), (e) => { assert.deepEqual(e.body, { message: "bad" }); return true; });` },
{ id: "C26-timeout-zero-retries", property: "C26",
  edits: [[FE, `      args.maxRetries,
    );`, `      args.maxRetries || undefined,
    );`]],
  needs: "a call configured with no retries",
  breaks: "the call is retried twice",
  demo: cl + `let n = 0; serve(async () => { n++; return { status: 503, body: {}, headers: { "Retry-After": "1" } }; }); await assert.rejects(client.api.health.health({ maxRetries: 0 })); assert.equal(n, 1);` },
{ id: "C27-zero-value-omitted", property: "C27",
  edits: [[`${RES}/scores/client/Client.ts`, `    if (value != null) {`, `    if (value) {`]],
  needs: "a score filter value of zero",
  breaks: "the parameter is not sent",
  demo: cl + `serve(async () => ({ body: { data: [], meta: {} } })); await client.api.scores.getMany({ operator: ">", value: 0 }); assert.equal(requests[0].query.get("value"), "0");` },
{ id: "C27-empty-string-omitted", property: "C27",
  edits: [[QS, `    if (value === undefined) {
      continue;
    }

    if (Array.isArray(value)) {`, `    if (value === undefined || value === "") {
      continue;
    }

    if (Array.isArray(value)) {`]],
  needs: "an empty string as query parameter",
  breaks: "the parameter is not sent",
  demo: cl + `serve(async () => ({ body: { data: [], meta: {} } })); await client.api.trace.list({ name: "" }); assert.ok(requests[0].query.has("name"));` },
{ id: "C27-base-path-dropped", property: "C27",
  edits: [[JO, `        url.pathname = joinPathSegments(url.pathname, cleanSegment);`, `        url.pathname = new URL(cleanSegment, url.origin).pathname;`]],
  needs: "a base URL with a path",
  breaks: "the path of the base URL is dropped",
  demo: `quiet(); const client = new (lf("client").LangfuseClient)({ ...KEYS, baseUrl: "http://langfuse.test/sub/path" }); serve(async () => ({ body: {} })); await client.api.health.health(); assert.equal(requests[0].path, "/sub/path/api/public/health");` },
{ id: "C27-project-shared", property: "C27",
  edits: [[LC, `  private projectId: string | null = null;`, `  private static projectId: string | null = null;`], [LC, `    let projectId = this.projectId;`, `    let projectId = LangfuseClient.projectId;`], [LC, `      this.projectId = projectId;`, `      LangfuseClient.projectId = projectId;`]],
  needs: "two clients for two projects in one process",
  breaks: "trace URLs of the second client name the project of the first",
  demo: `quiet(); serve(async (r) => ({ body: { data: [{ id: atob(r.headers.authorization.slice(6)).split(":")[0] }] } })); const { LangfuseClient } = lf("client"); const a = new LangfuseClient({ ...KEYS, publicKey: "A" }), b = new LangfuseClient({ ...KEYS, publicKey: "B" });
  await a.getTraceUrl("t"); assert.match(await b.getTraceUrl("t"), /project\\/B\\//);` },
{ id: "C28-version-header", property: "C28",
  edits: [[BU, `  "x-langfuse-sdk-version",
`, ``]],
  needs: "a configured header x-langfuse-sdk-version in lower case",
  breaks: "the SDK's identification header is overridden",
  demo: br + `serve(async (r) => accept(r)); await new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://l.test", additionalHeaders: { "x-langfuse-sdk-version": "evil" } }).score({ name: "n", value: 1, traceId: "t" }); assert.ok(!requests[0].headers["x-langfuse-sdk-version"].includes("evil"));` },
{ id: "C28-any-success", property: "C28",
  edits: [[BI, `    const hasSuccess = response.successes.some(
      (success) => success?.id === event.id,
    );
    if (!hasSuccess) {`, `    const [success] = response.successes;
    if (!success?.id) {`]],
  needs: "an answer that lists the success of another event",
  breaks: "the call resolves although its own event was not accepted",
  demo: br + `serve(async () => ({ status: 207, body: { successes: [{ id: "other", status: 201 }], errors: [] } })); await assert.rejects(new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://l.test" }).score({ name: "n", value: 1, traceId: "t" }));` },
{ id: "C28-undefined-environment", property: "C28",
  edits: [[BI, `        ...body,
        id: scoreId,
        environment: body.environment ?? this.environment,`, `        environment: this.environment,
        ...body,
        id: scoreId,`]],
  needs: "a score whose environment is given as undefined",
  breaks: "the configured environment is not sent",
  demo: br + `serve(async (r) => accept(r)); await new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://l.test", environment: "prod" }).score({ name: "n", value: 1, traceId: "t", environment: undefined }); assert.equal(requests[0].json.batch[0].body.environment, "prod");` },
{ id: "C28-redirect-status-lost", property: "C28",
  edits: [[BI, `    if (!response.ok) {`, `    if (response.status >= 400) {`]],
  needs: "an answer of a status below 400 that is not a success",
  breaks: "the error does not carry the status",
  demo: br + `serve(async () => ({ status: 304, body: undefined })); const f = globalThis.fetch; await assert.rejects(new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://l.test", fetch: async (u, i) => new Response(null, { status: 304 }) }).score({ name: "n", value: 1, traceId: "t" }), (e) => { assert.equal(e.status, 304); return true; });` },
{ id: "C29-falsy-dropped", property: "C29",
  edits: [[VU, `    if (value == null) {
      return;
    }`, `    if (!value) {
      return;
    }`]],
  needs: "a context entry of zero or false",
  breaks: "the entry is missing from the spans' metadata",
  demo: `quiet(); const { exporter, processor, provider } = tracing(); const integ = new (lf("vercel-ai-sdk").LangfuseVercelAiSdkIntegration)({ tracer: provider.getTracer("gen_ai") }); const { generateText } = from("vercel-ai-sdk", "ai"), { MockLanguageModelV4 } = from("vercel-ai-sdk", "ai/test");
  await generateText({ model: new MockLanguageModelV4({ doGenerate: async () => ({ content: [{ type: "text", text: "x" }], finishReason: { unified: "stop", raw: "stop" }, usage: { inputTokens: { total: 1, noCache: 1 }, outputTokens: { total: 1, text: 1 } }, warnings: [] }) }), prompt: "p", runtimeContext: { n: 0 }, telemetry: { isEnabled: true, includeRuntimeContext: { n: true }, integrations: integ } });
  await processor.forceFlush(); assert.ok(exporter.spans.length > 0 && exporter.spans.every((s) => s.attributes["langfuse.observation.metadata.n"] === "0"));` },
{ id: "C29-invalid-prompt-as-metadata", property: "C29",
  edits: [[VU, `  // Handle metadata
  if (metadata) {`, `  // Handle metadata
  if (langfusePrompt != null && !prompt) metadata.langfusePrompt = langfusePrompt;
  if (metadata) {`]],
  needs: "a malformed prompt in the context",
  breaks: "the prompt shows up as metadata",
  demo: `quiet(); const { exporter, processor, provider } = tracing(); const integ = new (lf("vercel-ai-sdk").LangfuseVercelAiSdkIntegration)({ tracer: provider.getTracer("gen_ai") }); const { generateText } = from("vercel-ai-sdk", "ai"), { MockLanguageModelV4 } = from("vercel-ai-sdk", "ai/test");
  await generateText({ model: new MockLanguageModelV4({ doGenerate: async () => ({ content: [{ type: "text", text: "x" }], finishReason: { unified: "stop", raw: "stop" }, usage: { inputTokens: { total: 1, noCache: 1 }, outputTokens: { total: 1, text: 1 } }, warnings: [] }) }), prompt: "p", runtimeContext: { langfusePrompt: { name: "p", version: "3" } }, telemetry: { isEnabled: true, includeRuntimeContext: { langfusePrompt: true }, integrations: integ } });
  await processor.forceFlush(); assert.ok(exporter.spans.length > 0 && exporter.spans.every((s) => !("langfuse.observation.metadata.langfusePrompt" in s.attributes)));` },
{ id: "C29-last-context-reused", property: "C29",
  edits: [[VI, `  private readonly delegate: OpenTelemetry;
`, `  private readonly delegate: OpenTelemetry;
  private lastContext?: Record<string, unknown>;
`], [VI, `          createLangfuseObservationAttributes({
            spanType,
            runtimeContext,
          }),`, `          createLangfuseObservationAttributes({
            spanType,
            runtimeContext: (this.lastContext =
              runtimeContext ?? this.lastContext),
          }),`]],
  needs: "a call without context after (or during) one with context on the same integration",
  breaks: "the context of one call appears on the spans of another",
  demo: `quiet(); const { exporter, processor, provider } = tracing(); const integ = new (lf("vercel-ai-sdk").LangfuseVercelAiSdkIntegration)({ tracer: provider.getTracer("gen_ai") }); const { generateText } = from("vercel-ai-sdk", "ai"), { MockLanguageModelV4 } = from("vercel-ai-sdk", "ai/test");
  const go = (extra, telemetry) => generateText({ model: new MockLanguageModelV4({ doGenerate: async () => ({ content: [{ type: "text", text: "x" }], finishReason: { unified: "stop", raw: "stop" }, usage: { inputTokens: { total: 1, noCache: 1 }, outputTokens: { total: 1, text: 1 } }, warnings: [] }) }), prompt: "p", ...extra, telemetry: { isEnabled: true, ...telemetry, integrations: integ } });
  await go({ runtimeContext: { tenant: "a" } }, { includeRuntimeContext: { tenant: true } }); await processor.forceFlush(); const n = exporter.spans.length;
  const { embed } = from("vercel-ai-sdk", "ai"), { MockEmbeddingModelV4 } = from("vercel-ai-sdk", "ai/test");
  await embed({ model: new MockEmbeddingModelV4({ doEmbed: async () => ({ embeddings: [[1]], warnings: [] }) }), value: "v", telemetry: { isEnabled: true, integrations: integ } });
  await go({}, {}); await processor.forceFlush(); assert.ok(n > 0 && exporter.spans.length > n && exporter.spans.slice(n).every((s) => !("langfuse.observation.metadata.tenant" in s.attributes)));` },
{ id: "C30-headers-in-network-error", property: "C30",
  edits: [[FE, `          errorMessage: error.message,`, `          errorMessage: \`\${error.message} (\${args.method} \${url}, headers \${toJson(args.headers)})\`,`]],
  needs: "a connection failure",
  breaks: "the error message holds the base64-encoded credentials",
  demo: cl + `serve(async () => ({ error: new TypeError("fetch failed") })); await assert.rejects(client.api.health.health(), (e) => { assert.ok(!String(e.message).includes(btoa(KEYS.publicKey + ":" + KEYS.secretKey))); return true; });` },
{ id: "C30-store-on-similar-host", property: "C30",
  edits: [[MM, `              const mediaContent = await fetch(mediaData.url, {
                method: "GET",
                headers: {},
              });`, `              const options = (this.apiClient as any)._options;
              const host = (url: string) => new URL(url).hostname;
              // media proxied by a self-hosted instance needs credentials
              const proxied = host(mediaData.url).endsWith(
                host(options.baseUrl),
              );
              const mediaContent = await fetch(mediaData.url, {
                method: "GET",
                headers: proxied
                  ? {
                      Authorization: \`Basic \${btoa(\`\${options.username}:\${options.password}\`)}\`,
                    }
                  : {},
              });`]],
  needs: "a storage host below the Langfuse host",
  breaks: "credentials are sent to a storage URL",
  demo: cl + `serve(async (r) => r.path.startsWith("/api") ? { body: { mediaId: "x", contentType: "text/plain", url: "http://media.langfuse.test/x" } } : { body: "abc" });
  await client.media.resolveReferences({ obj: "@@@langfuseMedia:type=text/plain|id=x|source=bytes@@@", resolveWith: "base64DataUri" }); assert.ok(requests.filter((r) => !r.path.startsWith("/api")).every((r) => !r.headers.authorization));` },
{ id: "C30-auth-debug-log", property: "C30",
  edits: [[SP, `      publicKey,
      baseUrl,
      environment: this.environment,`, `      publicKey,
      baseUrl,
      auth: authHeaderValue.slice(0, -4),
      environment: this.environment,`]],
  needs: "debug logging and a look at the encoded credentials",
  breaks: "the encoded secret appears in a log line",
  demo: `const out = []; for (const k of ["log", "debug", "info", "warn", "error"]) console[k] = (...a) => out.push(require("node:util").inspect(a)); lf("core").configureGlobalLogger({ level: lf("core").LogLevel.DEBUG });
  new (lf("otel").LangfuseSpanProcessor)({ ...KEYS, secretKey: "sk-lf-0123456789abcdef0123456789" }); const enc = btoa("sk-lf-0123456789abcdef0123456789"); const b = btoa(KEYS.publicKey + ":sk-lf-0123456789abcdef0123456789");
  assert.ok(!out.join("\\n").includes(b.slice(20, 48)));` },
{ id: "C34-fractional-interval", property: "C34",
  edits: [[SP, `              ? Number(flushIntervalSeconds) * 1_000`, `              ? Math.ceil(Number(flushIntervalSeconds)) * 1_000`]],
  needs: "a flush interval that is not a whole number of seconds",
  breaks: "a started batch leaves later than the configured interval",
  demo: `quiet(); const { exporter } = tracing({ exportMode: "batched", flushAt: 100, flushInterval: 0.2 }); lf("tracing").startObservation("s").end(); await sleep(600); assert.equal(exporter.spans.length, 1);` },
{ id: "C34-base-path-dropped", property: "C34",
  edits: [[SP, `        url: \`\${baseUrl}/api/public/otel/v1/traces\`,`, `        url: new URL("/api/public/otel/v1/traces", baseUrl).toString(),`]],
  needs: "a base URL with a path",
  breaks: "spans are posted to another address",
  demo: `quiet(); const http = require("node:http"); const seen = []; const s = http.createServer((q, r) => { seen.push(q.url); q.resume(); q.on("end", () => r.end("{}")); }); await new Promise((r) => s.listen(0, "127.0.0.1", r));
  const { BasicTracerProvider } = from("otel", "@opentelemetry/sdk-trace-base"); const p = new (lf("otel").LangfuseSpanProcessor)({ ...KEYS, baseUrl: "http://127.0.0.1:" + s.address().port + "/sub", exportMode: "immediate" }); const prov = new BasicTracerProvider({ spanProcessors: [p] });
  prov.getTracer("langfuse-sdk").startSpan("x").end(); await p.forceFlush(); await sleep(300); assert.deepEqual(seen, ["/sub/api/public/otel/v1/traces"]);` },
];
