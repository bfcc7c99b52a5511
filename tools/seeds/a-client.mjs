const SCORE = "packages/client/src/score/index.ts";
const PM = "packages/client/src/prompt/promptManager.ts";
const PC = "packages/client/src/prompt/promptCache.ts";
const PCL = "packages/client/src/prompt/promptClients.ts";
export default [
{ id: "C01-lost-on-failed-batch", property: "C01",
  edits: [[SCORE, `        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);

        promises.push(
          this.apiClient.ingestion
            .batch({ batch })`, `        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);

        if (promises.length > 0) await promises[promises.length - 1];

        promises.push(
          this.apiClient.ingestion
            .batch({ batch })`],
    [SCORE, `      this.logger.error("Error flushing Score Manager: ", err);
    }
  }`, `      this.logger.error("Error flushing Score Manager: ", err);
    } finally {
      if (this.eventQueue.length < this.flushAtCount) this.eventQueue = [];
    }
  }`]],
  needs: "scores created while a flush request is in flight, fewer than the flush size",
  breaks: "scores queued during an in-flight flush are discarded when it finishes",
  demo: `quiet();
  serve(() => ({ status: 207, body: { successes: [], errors: [] }, delay: 100 }));
  const { LangfuseClient } = lf("client");
  const c = new LangfuseClient(KEYS);
  c.score.create({ traceId: "t", name: "a", value: 1 });
  const f = c.score.flush(); await sleep(20);
  c.score.create({ traceId: "t", name: "b", value: 2 });
  await f; await c.shutdown(); await sleep(1500);
  assert.deepEqual(ingested().map((e) => e.body.name).sort(), ["a", "b"]);` },
{ id: "C01-requeue-on-error", property: "C01",
  edits: [[SCORE, `              this.logger.error("Failed to export score batch:", err);`, `              this.logger.error("Failed to export score batch:", err);
              if (err?.statusCode === undefined) this.eventQueue.push(...batch);`]],
  needs: "an ingestion request whose connection breaks after it was sent",
  breaks: "scores of a request that failed without a status are queued again and sent twice",
  demo: `quiet(); let n = 0;
  serve((r) => n++ === 0 ? { error: new TypeError("fetch failed") } : { status: 207, body: { successes: [], errors: [] } });
  const c = new (lf("client").LangfuseClient)(KEYS);
  c.score.create({ id: "s1", traceId: "t", name: "a", value: 1 });
  await c.flush();
  c.score.create({ id: "s2", traceId: "t", name: "b", value: 1 });
  await c.flush();
  assert.deepEqual(ingested().map((e) => e.body.id), ["s1", "s2"]);` },
{ id: "C02-batches-reversed", property: "C02",
  edits: [[SCORE, `        const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);`, `        const batch = this.eventQueue.splice(-MAX_BATCH_SIZE);`]],
  needs: "more than 100 scores waiting when the queue is flushed",
  breaks: "the newest scores leave before the older ones",
  demo: `quiet(); process.env.LANGFUSE_FLUSH_AT = "1000";
  serve(() => ({ status: 207, body: { successes: [], errors: [] } }));
  const c = new (lf("client").LangfuseClient)(KEYS);
  for (let i = 0; i < 150; i++) c.score.create({ traceId: "t", name: "n" + i, value: i });
  await c.flush();
  assert.deepEqual(ingested().map((e) => e.body.value), Array.from({ length: 150 }, (_, i) => i));` },
{ id: "C02-timer-rearmed", property: "C02",
  edits: [[SCORE, `    } else if (!this.flushTimer) {
      this.flushTimer = safeSetTimeout(`, `    } else {
      if (this.flushTimer) clearTimeout(this.flushTimer);
      this.flushTimer = safeSetTimeout(`]],
  needs: "scores arriving more often than the flush interval but below the flush size",
  breaks: "each new score postpones the flush (debounce), so a score leaves later than the interval",
  demo: `quiet(); process.env.LANGFUSE_FLUSH_AT = "1000"; process.env.LANGFUSE_FLUSH_INTERVAL = "0.2";
  serve(() => ({ status: 207, body: { successes: [], errors: [] } }));
  const c = new (lf("client").LangfuseClient)(KEYS);
  for (let i = 0; i < 10; i++) { c.score.create({ traceId: "t", name: "n", value: i }); await sleep(100); }
  assert.ok(requests.length > 0, "nothing sent after a second of steady scores");` },
{ id: "C02-active-trace-observation", property: "C02",
  edits: [[SCORE, `    const scoreData: ScoreBody = {
      ...data,
      id: data.id ?? generateUUID(),`, `    const scoreData: ScoreBody = {
      ...data,
      id: data.id || generateUUID(),
      value: data.value || 0,`]],
  needs: "a score whose value is an empty string",
  breaks: "falsy values of the caller are replaced",
  demo: `quiet();
  serve(() => ({ status: 207, body: { successes: [], errors: [] } }));
  const c = new (lf("client").LangfuseClient)(KEYS);
  c.score.create({ traceId: "t", name: "n", value: "", dataType: "TEXT" });
  await c.flush();
  assert.strictEqual(ingested()[0].body.value, "");` },
{ id: "C03-key-drops-version-zero", property: "C03",
  edits: [[PC, `    const { name, version, label } = params;`, `    const { name, version } = params;
    const label = params.label?.toLowerCase();`]],
  needs: "two labels of one prompt that differ only in letter case",
  breaks: "a read of one label is answered with the prompt cached for the other",
  demo: `quiet();
  serve((r) => ({ status: 200, body: { type: "text", name: "p", version: r.query.get("label") === "A" ? 1 : 2, prompt: "for " + r.query.get("label"), labels: [], tags: [], config: {} } }));
  const c = new (lf("client").LangfuseClient)(KEYS);
  const a = await c.prompt.get("p", { label: "A" }), b = await c.prompt.get("p", { label: "a" });
  assert.equal(a.prompt, "for A"); assert.equal(b.prompt, "for a");` },
{ id: "C03-expiry-extended-on-read", property: "C03",
  edits: [[PM, `    return cachedPrompt.value;
  }

`, `    if (options?.cacheTtlSeconds !== undefined) {
      this.cache.set(cacheKey, cachedPrompt.value, options.cacheTtlSeconds);
    }

    return cachedPrompt.value;
  }

`]],
  needs: "reads that pass a TTL and recur within it",
  breaks: "every read with an explicit TTL extends the lifetime of the cached value, so it never expires",
  demo: `quiet(); let v = 0;
  serve(() => ({ status: 200, body: { type: "text", name: "p", version: ++v, prompt: "v" + v, labels: [], tags: [], config: {} } }));
  const c = new (lf("client").LangfuseClient)(KEYS);
  for (let i = 0; i < 8; i++) { await c.prompt.get("p", { cacheTtlSeconds: 0.3 }); await sleep(100); }
  assert.ok(requests.length > 1, "the value is never refreshed");` },
{ id: "C03-invalidate-exact-label", property: "C03",
  edits: [[PC, `      if (key.startsWith(promptName)) {`, `      if (
        key.startsWith(promptName) &&
        !key.slice(promptName.length).includes("-version:")
      ) {`]],
  needs: "a cached read by version, then an update of that prompt",
  breaks: "values cached by version survive the invalidation",
  demo: `quiet(); let labels = ["old"];
  serve((r) => r.method === "PATCH" ? (labels = r.json.newLabels, { status: 200, body: { type: "text", name: "p", version: 3, prompt: "x", labels, tags: [], config: {} } }) : { status: 200, body: { type: "text", name: "p", version: 3, prompt: "x", labels, tags: [], config: {} } });
  const c = new (lf("client").LangfuseClient)(KEYS);
  await c.prompt.get("p", { version: 3 });
  await c.prompt.update({ name: "p", version: 3, newLabels: ["new"] });
  assert.deepEqual((await c.prompt.get("p", { version: 3 })).labels, ["new"]);` },
{ id: "C04-refresh-not-released", property: "C04",
  edits: [[PC, `      .then(() => {
        this._refreshingKeys.delete(key);
      })`, `      .then(() => {
        if (!this._cache.get(key)?.isExpired) this._refreshingKeys.delete(key);
      })`]],
  needs: "a background refresh that fails, followed by a recovered server",
  breaks: "after a failed refresh no further refresh is ever started",
  demo: `quiet(); let n = 0;
  serve(() => ++n === 2 ? { status: 400, body: {} } : { status: 200, body: { type: "text", name: "p", version: n, prompt: "v" + n, labels: [], tags: [], config: {} } });
  const c = new (lf("client").LangfuseClient)(KEYS);
  await c.prompt.get("p", { cacheTtlSeconds: 0.05 }); await sleep(100);
  await c.prompt.get("p", { cacheTtlSeconds: 0.05 }); await sleep(100);
  await c.prompt.get("p", { cacheTtlSeconds: 0.05 }); await sleep(100);
  assert.equal((await c.prompt.get("p")).prompt, "v3");` },
{ id: "C04-fallback-cached", property: "C04",
  edits: [[PM, `        if (options?.fallback !== undefined && options.fallback !== null) {`, `        const stale = this.cache.getIncludingExpired(cacheKey);
        if (stale) return stale.value;

        if (options?.fallback !== undefined && options.fallback !== null) {`],
   [PM, `            return new TextPromptClient(
              {
                ...sharedFallbackParams,
                type: "text",
                prompt: options.fallback as string,
              },
              true,
            );`, `            const fallbackPrompt = new TextPromptClient(
              {
                ...sharedFallbackParams,
                type: "text",
                prompt: options.fallback as string,
              },
              true,
            );
            if (options.fetchTimeoutMs) {
              this.cache.set(cacheKey, fallbackPrompt, 1);
            }
            return fallbackPrompt;`]],
  needs: "a fetch with a configured timeout that fails and a text fallback",
  breaks: "the fallback is cached and answers later reads although the server has recovered",
  demo: `quiet(); let n = 0;
  serve(() => n++ === 0 ? { status: 400, body: {} } : { status: 200, body: { type: "text", name: "p", version: 1, prompt: "real", labels: [], tags: [], config: {} } });
  const c = new (lf("client").LangfuseClient)(KEYS);
  const a = await c.prompt.get("p", { fallback: "fb", fetchTimeoutMs: 500 });
  assert.equal(a.prompt, "fb"); assert.equal(a.isFallback, true);
  const b = await c.prompt.get("p", { fallback: "other" });
  assert.equal(b.prompt, "real");` },
{ id: "C05-value-rendered-twice", property: "C05",
  edits: [[PCL, `          messagesWithPlaceholdersReplaced.push(
            ...(placeholderValue as ChatMessage[]),
          );`, `          for (const msg of placeholderValue as ChatMessage[]) {
            if (typeof msg.content === "string") {
              msg.content = mustache.render(msg.content, variables ?? {});
            }
            messagesWithPlaceholdersReplaced.push(msg);
          }`]],
  needs: "placeholder messages that contain variables, compiled more than once",
  breaks: "the caller's placeholder messages are mutated, so a second compilation sees the first one's values",
  demo: `const { ChatPromptClient } = lf("client");
  const p = new ChatPromptClient({ name: "p", version: 1, type: "chat", labels: [], tags: [], config: {}, prompt: [{ type: "placeholder", name: "h" }] });
  const h = [{ role: "user", content: "hi {{name}}" }];
  assert.equal(p.compile({ name: "A" }, { h })[0].content, "hi A");
  assert.equal(p.compile({ name: "B" }, { h })[0].content, "hi B");
  assert.equal(h[0].content, "hi {{name}}");` },
{ id: "C05-trailing-newline", property: "C05",
  edits: [[PCL, `  return text;
};`, `  return typeof text === "string" ? text.replace(/\\r\\n/g, "\\n") : text;
};`]],
  needs: "a variable whose value has Windows line ends",
  breaks: "the value is not inserted exactly",
  demo: `const { TextPromptClient } = lf("client");
  const p = new TextPromptClient({ name: "p", version: 1, type: "text", labels: [], tags: [], config: {}, prompt: "a\\r\\nb {{x}}" });
  assert.equal(p.compile({ x: "1\\r\\n2" }), "a\\r\\nb 1\\r\\n2");` },
{ id: "C06-hyphen-variable", property: "C06",
  edits: [[PCL, `      } else if (
        "role" in item &&
        "content" in item &&
        item.type === ChatMessageType.ChatMessage
      ) {
        messagesWithPlaceholdersReplaced.push({
          role: item.role,
          content: this._transformToLangchainVariables(item.content),
        });`, `      } else if (
        "role" in item &&
        "content" in item &&
        item.type === ChatMessageType.ChatMessage
      ) {
        messagesWithPlaceholdersReplaced.push({
          role: item.role,
          content:
            item.role === "assistant" && !item.content.includes("{{")
              ? item.content
              : this._transformToLangchainVariables(item.content),
        });`]],
  needs: "an assistant message with a JSON object and no variable",
  breaks: "the JSON braces of such a message are not escaped, so LangChain takes them for variables",
  demo: `const { ChatPromptClient } = lf("client");
  const { ChatPromptTemplate } = from("langchain", "@langchain/core/prompts");
  const p = new ChatPromptClient({ name: "p", version: 1, type: "chat", labels: [], tags: [], config: {}, prompt: [{ role: "assistant", content: 'say {"a": 1}' }] });
  const out = await ChatPromptTemplate.fromMessages(p.getLangchainPrompt().map((m) => [m.role === "assistant" ? "ai" : m.role, m.content])).formatMessages({});
  assert.equal(out[0].content, 'say {"a": 1}');` },
];
