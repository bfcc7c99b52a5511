const PM = "packages/client/src/prompt/promptManager.ts", PC = "packages/client/src/prompt/promptClients.ts", LC = "packages/client/src/LangfuseClient.ts", SM = "packages/client/src/score/index.ts", SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", CU = "packages/core/src/utils.ts", MR = "packages/core/src/api/core/fetcher/makeRequest.ts", CH = "packages/langchain/src/CallbackHandler.ts", PCA = "packages/client/src/prompt/promptCache.ts", EM = "packages/client/src/experiment/ExperimentManager.ts";
const cl = `quiet(); const { LangfuseClient } = lf("client"); const core = lf("core"); const client = new LangfuseClient(KEYS);
`;
const two = `quiet(); const { LangfuseClient } = lf("client"); const A = new LangfuseClient({ ...KEYS, publicKey: "pk-a", secretKey: "sk-a", baseUrl: "http://a.test" }), B = new LangfuseClient({ ...KEYS, publicKey: "pk-b", secretKey: "sk-b", baseUrl: "http://b.test" });
`;
const heap = `const heap = async () => { for (let i = 0; i < 5; i++) { gc(); await new Promise((r) => setImmediate(r)); } return process.memoryUsage().heapUsed; };
  const grows = async (n, op) => { for (let i = 0; i < n / 2; i++) await op(i); const h = await heap(); for (let i = 0; i < n; i++) await op(n + i); return ((await heap()) - h) / n; };
`;
export default [
{ id: "C35-named-message-is-placeholder", property: "C35",
  edits: [[PM, `              if ("type" in item && item.type === ChatMessageType.Placeholder) {`, `              if ("name" in item) {`]],
  needs: "a chat prompt created with a message that carries a name",
  breaks: "the message is stored as a placeholder without role and content",
  demo: cl + `serve(async (r) => ({ body: { ...r.json, version: 1, labels: [], tags: [], config: {} } })); await client.prompt.create({ name: "p", type: "chat", prompt: [{ role: "user", content: "hi", name: "bob" }] }); assert.equal(requests[0].json.prompt[0].content, "hi");` },
{ id: "C35-delete-version-zero", property: "C35",
  edits: [[PM, `    await this.apiClient.prompts.delete(name, {
      version: options?.version,
      label: options?.label,
    });`, `    await this.apiClient.prompts.delete(name, {
      ...(options?.version ? { version: options.version } : {}),
      ...(options?.label ? { label: options.label } : {}),
    });`]],
  needs: "deletion of version 0",
  breaks: "all versions of the prompt are deleted",
  demo: cl + `serve(async () => ({ status: 204 })); await client.prompt.delete("p", { version: 0 }); assert.equal(requests[0].query.get("version"), "0");` },
{ id: "C35-fallback-label-missing", property: "C35",
  edits: [[PM, `            version: options?.version ?? 0,
            labels: options.label ? [options.label] : [],`, `            version: options?.version || 1,
            labels: options.label ? [options.label] : [],`]],
  needs: "a fallback for a prompt that was asked for without version or with version 0",
  breaks: "the fallback claims to be version 1",
  demo: cl + `serve(async () => ({ status: 404, body: {} })); const p = await client.prompt.get("p", { fallback: "x", maxRetries: 0 }); assert.equal(p.version, 0);` },
{ id: "C35-json-of-current-prompt", property: "C35",
  edits: [[PC, `      prompt: this.promptResponse.prompt.map((item) => {
        if ("type" in item && item.type === ChatMessageType.ChatMessage) {
          const { type: _, ...messageWithoutType } = item;
          return messageWithoutType;
        }
        return item;
      }),`, `      prompt: this.prompt.map((item) =>
        item.type === ChatMessageType.Placeholder
          ? item
          : {
              role: (item as ChatMessage).role,
              content: (item as ChatMessage).content,
            },
      ),`]],
  needs: "a chat message with further fields than role and content",
  breaks: "toJSON drops them",
  demo: cl + `serve(async () => ({ body: { name: "p", version: 1, type: "chat", prompt: [{ role: "tool", content: "x", tool_call_id: "7" }], labels: [], tags: [], config: {} } })); const p = await client.prompt.get("p", { type: "chat" }); assert.equal(JSON.parse(p.toJSON()).prompt[0].tool_call_id, "7");` },
{ id: "C35-labels-deduplicated", property: "C35",
  edits: [[PC, `    this.config = prompt.config;`, `    this.config = prompt.config ?? {};`]],
  needs: "a prompt whose config is null",
  breaks: "the config differs from what the server stores",
  demo: cl + `serve(async () => ({ body: { name: "p", version: 1, type: "text", prompt: "x", labels: [], tags: [], config: null } })); const p = await client.prompt.get("p"); assert.equal(p.config, null); assert.equal(JSON.parse(p.toJSON()).config, null);` },
{ id: "C36-shared-prompt-cache", property: "C36",
  edits: [[PM, `    this.cache = new LangfusePromptCache();`, `    this.cache = sharedPromptCache;`], [PM, `/**
 * Manager for prompt operations in Langfuse.`, `const sharedPromptCache = new LangfusePromptCache();

/**
 * Manager for prompt operations in Langfuse.`]],
  needs: "two clients of different projects reading prompts of the same name",
  breaks: "the second client is answered with the prompt of the first project",
  demo: two + `serve(async (r) => ({ body: { name: "p", version: 1, type: "text", prompt: r.url.includes("a.test") ? "A" : "B", labels: [], tags: [], config: {} } })); assert.equal((await A.prompt.get("p")).prompt, "A"); assert.equal((await B.prompt.get("p")).prompt, "B");` },
{ id: "C36-static-project-id", property: "C36",
  edits: [[LC, `  private projectId: string | null = null;`, `  private static projectId: string | null = null;`], [LC, `    let projectId = this.projectId;`, `    let projectId = LangfuseClient.projectId;`], [LC, `      this.projectId = projectId;`, `      LangfuseClient.projectId = projectId;`]],
  needs: "trace URLs from two clients of different projects",
  breaks: "the second client's URL points into the first project",
  demo: two + `serve(async (r) => ({ body: { data: [{ id: r.url.includes("a.test") ? "pa" : "pb" }] } })); assert.match(await A.getTraceUrl("t"), /pa/); assert.match(await B.getTraceUrl("t"), /pb/);` },
{ id: "C36-trace-url-env", property: "C36",
  edits: [[LC, "    const traceUrl = `${this.baseUrl}/project/", "    const traceUrl = `${getEnv(\"LANGFUSE_BASE_URL\") ?? this.baseUrl}/project/"]],
  needs: "a base URL given to the client and another in the environment",
  breaks: "the trace URL points to the other instance",
  demo: two + `process.env.LANGFUSE_BASE_URL = "http://other.test"; serve(async (r) => ({ body: { data: [{ id: "p" }] } })); assert.match(await A.getTraceUrl("t"), /^http:\\/\\/a\\.test/);` },
{ id: "C36-shared-media-uploads", property: "C36",
  edits: [[MS, `export class MediaService {
  private pendingMediaUploads: Set<Promise<void>> = new Set();`, `const pendingMediaUploads: Set<Promise<void>> = new Set();

export class MediaService {
  private pendingMediaUploads = pendingMediaUploads;`]],
  needs: "two processors, one of whose media uploads hangs",
  breaks: "the flush of the healthy processor waits for the uploads of the other",
  demo: `quiet(); serve(async (r) => r.url.includes("a.test") ? { hang: true } : {}); const ta = tracing({ publicKey: "a", baseUrl: "http://a.test" }); const { startObservation } = lf("tracing");
  startObservation("s", { input: "data:text/plain;base64,aGVsbG8=" }).end(); await sleep(20); const tb = tracing({ publicKey: "b", baseUrl: "http://b.test" }); startObservation("s", { input: "x" }).end();
  assert.equal(await Promise.race([tb.processor.forceFlush().then(() => "ok"), sleep(1500).then(() => "stuck")]), "ok");` },
{ id: "C36-environment-late", property: "C36",
  edits: [[SP, `      [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment,`, `      [LangfuseOtelSpanAttributes.ENVIRONMENT]:
        this.environment ?? getEnv("LANGFUSE_TRACING_ENVIRONMENT"),`]],
  needs: "a processor without environment and an environment variable set later",
  breaks: "spans of an existing processor move to another environment",
  demo: `quiet(); const { startObservation } = lf("tracing"); const t = tracing(); process.env.LANGFUSE_TRACING_ENVIRONMENT = "late"; startObservation("c").end(); await t.processor.forceFlush(); assert.equal(t.exporter.spans[0].attributes["langfuse.environment"], undefined);` },
{ id: "C37-unref-only-when-numeric", property: "C37",
  edits: [[SM, `      this.flushTimer = safeSetTimeout(() => {`, `      this.flushTimer = setTimeout(() => {`]],
  needs: "a score waiting for its batch while the application ends",
  breaks: "the process is held open for the flush interval",
  demo: cl + `const fs = require("node:fs"), os = require("node:os"), path = require("node:path"); const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-")); const f = path.join(dir, "c.cjs");
  fs.writeFileSync(f, \`process.env.LANGFUSE_FLUSH_INTERVAL = "20"; const { LangfuseClient } = require(\${JSON.stringify(cwd + "/packages/client/dist/index.cjs")}); new LangfuseClient(\${JSON.stringify(KEYS)}).score.create({ name: "x", value: 1, traceId: "t" });\`);
  const t0 = Date.now(); execSync(process.execPath + " " + f); fs.rmSync(dir, { recursive: true }); assert.ok(Date.now() - t0 < 10000, "held open " + (Date.now() - t0));` },
{ id: "C37-timeout-kept-on-error", property: "C37",
  edits: [[MR, `  let newSignals = anySignal(signals);
  try {
    return await fetchFn(url, {`, `  {
    const response = await fetchFn(url, {`], [MR, `      signal: newSignals,`, `      signal: anySignal(signals),`], [MR, `    });
  } finally {
    if (timeoutAbortId != null) {
      clearTimeout(timeoutAbortId);
    }
  }
};`, `    });
    if (timeoutAbortId != null) {
      clearTimeout(timeoutAbortId);
    }
    return response;
  }
};`]],
  needs: "a request that fails on the network",
  breaks: "the timer of its timeout holds the process open for a minute",
  demo: cl + `serve(async () => ({ error: new TypeError("fetch failed") })); await assert.rejects(client.api.health.health({ maxRetries: 0 })); assert.ok(!process.getActiveResourcesInfo().includes("Timeout"), process.getActiveResourcesInfo().join());` },
{ id: "C37-shutdown-before-media", property: "C37",
  edits: [[SP, `    await Promise.all(Array.from(this.pendingEndedSpans));
    await this.mediaService.flush();`, `    await Promise.all([
      ...Array.from(this.pendingEndedSpans),
      this.mediaService.flush(),
    ]);`]],
  needs: "a span with media that ended just before the shutdown, so that its upload is scheduled while the pending spans are awaited",
  breaks: "requests are made after the shutdown resolved",
  demo: `quiet(); serve(async (r) => ({ delay: 30, body: r.method === "POST" ? { mediaId: "x", uploadUrl: null } : {} })); const t = tracing({ mask: async ({ data }) => { await sleep(20); return data; } }); lf("tracing").startObservation("s", { input: "data:text/plain;base64,aGVsbG8=" }).end(); await t.processor.shutdown(); const n = requests.filter((r) => r.done).length; await sleep(200); assert.equal(n, requests.length); assert.equal(requests.filter((r) => r.done).length, n);` },
{ id: "C38-filtered-spans-kept", property: "C38",
  edits: [[SP, `    this.spanExportExpectationById.delete(span.spanContext().spanId);

    const processEndedSpanPromise`, `    const processEndedSpanPromise`], [SP, `    await this.applyMaskInPlace(span);

    if (this.mediaUploadEnabled)`, `    this.spanExportExpectationById.delete(span.spanContext().spanId);

    await this.applyMaskInPlace(span);

    if (this.mediaUploadEnabled)`]],
  needs: "many spans that the filter drops",
  breaks: "an entry is kept for every one of them",
  demo: heap + `quiet(); const t = tracing({ shouldExportSpan: () => false }); const { startObservation } = lf("tracing"); const g = await grows(30000, async () => { startObservation("s").end(); }); assert.ok(g < 40, "grows by " + g);` },
{ id: "C38-failed-runs-kept", property: "C38",
  edits: [[CH, `    span.update(attributes).end();

    this.last_trace_id = span.traceId;
    this.runMap.delete(runId);`, `    span.update(attributes).end();

    this.last_trace_id = span.traceId;
    if (attributes.level !== "ERROR") this.runMap.delete(runId);`]],
  needs: "LangChain runs that fail",
  breaks: "the handler keeps every failed run",
  demo: heap + `quiet(); const t = tracing(); const { CallbackHandler } = lf("langchain"); const h = new CallbackHandler({}); const g = await grows(3000, async (i) => { const id = "r" + i; await h.handleChainStart({ id: ["x"], name: "X" }, { q: i }, id); await h.handleChainError(new Error("x"), id); t.exporter.spans.length = 0; }); assert.ok(g < 200, "grows by " + g);` },
{ id: "C38-uploads-kept", property: "C38",
  edits: [[MS, `    this.pendingMediaUploads.add(uploadPromise);

    uploadPromise.finally(() => {
      this.pendingMediaUploads.delete(uploadPromise);
    });`, `    this.pendingMediaUploads.add(uploadPromise);`], [MS, `    await Promise.all(Array.from(this.pendingMediaUploads));`, `    const uploads = Array.from(this.pendingMediaUploads);
    await Promise.all(uploads);
    if (uploads.length === this.pendingMediaUploads.size) {
      uploads.slice(1).forEach((u) => this.pendingMediaUploads.delete(u));
    }`]],
  needs: "media uploads in a long-lived process",
  breaks: "finished uploads are kept until a flush, and one per flush beyond",
  demo: heap + `quiet(); serve(async (r) => ({ body: r.method === "POST" ? { mediaId: "x", uploadUrl: null } : {} })); const t = tracing(); const { startObservation } = lf("tracing"); const g = await grows(12000, async (i) => { startObservation("s", { input: "data:text/plain;base64," + Buffer.from("file" + i).toString("base64") }).end(); await sleep(0); t.exporter.spans.length = 0; requests.length = 0; }); assert.ok(g < 90, "grows by " + g);` },
{ id: "C38-refresh-promises-kept", property: "C38",
  edits: [[SM, `  private flushPromise: Promise<void> | null = null;`, `  private flushPromise: Promise<void> | null = null;
  private flushed: string[] = [];`], [SM, `        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);
`, `        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);
        this.flushed.push(...batch.map((event) => event.id));
`]],
  needs: "many scores in a long-lived process",
  breaks: "the id of every score ever sent is kept",
  demo: heap + cl + `serve(async () => ({ status: 207, body: { successes: [], errors: [] } })); const g = await grows(200, async (i) => { for (let k = 0; k < 100; k++) client.score.create({ name: "s", value: i, traceId: "t" }); await client.flush(); requests.length = 0; }); assert.ok(g < 2500, "grows by " + g);` },
];
