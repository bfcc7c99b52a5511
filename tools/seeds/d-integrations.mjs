const OO = "packages/openai/src/observeOpenAI.ts", TM = "packages/openai/src/traceMethod.ts", PO = "packages/openai/src/parseOpenAI.ts", LC = "packages/langchain/src/CallbackHandler.ts";
const stream = `async function* gen(items, err) { for (const i of items) { await sleep(0); yield i; } if (err) throw err; }
`;
const lcImp = `const { CallbackHandler } = lf("langchain"); const msg = from("langchain", "@langchain/core/messages"); const S = { lc: 1, type: "constructor", id: ["x", "Chain"], kwargs: {} };
`;
export default [
{ id: "C17-args-copied", property: "C17",
  edits: [[TM, `        const res = tracedMethod(...args);
`, `        const res = tracedMethod(
          ...args.filter((arg) => arg !== undefined),
        );
`]],
  needs: "a call with an undefined first or middle argument",
  breaks: "later arguments shift to another position",
  demo: `tracing(); let seen; class C { async list(a, b) { seen = [a, b]; return {}; } }
  await lf("openai").observeOpenAI(new C()).list(undefined, { timeout: 5 });
  assert.deepEqual(seen, [undefined, { timeout: 5 }]);` },
{ id: "C17-empty-chunks-dropped", property: "C17",
  edits: [[TM, `        yield rawChunk;`, `        if (rawChunk == null) continue;
        yield rawChunk;`]],
  needs: "a stream that yields null or undefined items",
  breaks: "the application sees fewer items than the stream has",
  demo: stream + `tracing(); class C { async create() { return gen([1, null, 2]); } }
  const out = []; for await (const x of await lf("openai").observeOpenAI(new C()).create({ stream: true })) out.push(x);
  assert.deepEqual(out, [1, null, 2]);` },
{ id: "C17-getter-error", property: "C17",
  edits: [[PO, `    if ("delta" in chunkData) {
      return { isToolCall, data: chunkData.delta?.content || "" };
    }`, `    if ("delta" in chunkData) {
      const delta = chunkData.delta as { refusal?: string; content?: string };
      if (delta?.refusal) delta.content ??= delta.refusal;

      return { isToolCall, data: delta?.content || "" };
    }`]],
  needs: "a streamed chunk that carries a refusal",
  breaks: "the chunk the application receives is altered",
  demo: stream + `tracing(); class C { async create() { return gen([{ choices: [{ delta: { refusal: "no" } }] }]); } }
  const out = []; for await (const x of await lf("openai").observeOpenAI(new C()).create({ stream: true })) out.push(x);
  assert.deepEqual(out, [{ choices: [{ delta: { refusal: "no" } }] }]);` },
{ id: "C18-usage-null-resets", property: "C18",
  edits: [[PO, `    let finalOutputTokens = completion_tokens as number;
    Object.values(flatCompletionTokensDetails).forEach((value) => {
      finalOutputTokens = Math.max(finalOutputTokens - value, 0);
    });`, `    let finalOutputTokens = completion_tokens as number;
    Object.values(flatCompletionTokensDetails).forEach((value) => {
      finalOutputTokens = finalOutputTokens - value;
    });`]],
  needs: "detail counts that exceed the completion token count",
  breaks: "a negative output token count is recorded",
  demo: `const { exporter, processor } = tracing(); class C { async create() { return { choices: [{ message: { content: "x" } }], usage: { prompt_tokens: 1, completion_tokens: 3, total_tokens: 4, completion_tokens_details: { reasoning_tokens: 3, accepted_prediction_tokens: 2 } } }; } }
  await lf("openai").observeOpenAI(new C()).create({ model: "m" }); await processor.forceFlush();
  assert.ok(JSON.parse(exporter.spans[0].attributes["langfuse.observation.usage_details"]).output >= 0);` },
{ id: "C18-tool-then-text", property: "C18",
  edits: [[PO, `      return { isToolCall, data: chunkData.delta?.content || "" };`, `      return { isToolCall, data: chunkData.delta?.content?.trimEnd() || "" };`]],
  needs: "a streamed completion with a chunk that ends in white space",
  breaks: "the recorded output lacks the white space between the chunks",
  demo: stream + `const { exporter, processor } = tracing(); const c = (t) => ({ choices: [{ delta: { content: t } }] }); class C { async create() { return gen(["a ", "b"].map(c)); } }
  for await (const x of await lf("openai").observeOpenAI(new C()).create({ stream: true })); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.observation.output"], "a b");` },
{ id: "C18-config-shared", property: "C18",
  edits: [[OO, `      const config = { ...langfuseConfig, generationName };`, `      const config = Object.assign(langfuseConfig ?? {}, { generationName });`]],
  needs: "two different methods called through one wrapped client with a configuration",
  breaks: "later generations carry the name of the first method",
  demo: `const { exporter, processor } = tracing(); class C { async create() { return {}; } async parse() { return {}; } }
  const c = lf("openai").observeOpenAI(new C(), { userId: "u" }); await c.create({}); await c.parse({}); await processor.forceFlush();
  assert.deepEqual(exporter.spans.map((s) => s.name), ["C.create", "C.parse"]);` },
{ id: "C18-zero-temperature", property: "C18",
  edits: [[PO, `    if (val !== null && val !== undefined) {
      modelParameters[`, `    if (val) {
      modelParameters[`]],
  needs: "a response whose reported parameters are zero or false",
  breaks: "those parameters are not recorded",
  demo: `const { exporter, processor } = tracing(); class C { async create() { return { model: "m", output_text: "x", temperature: 0, store: false }; } }
  await lf("openai").observeOpenAI(new C()).create({}); await processor.forceFlush();
  assert.deepEqual(JSON.parse(exporter.spans[0].attributes["langfuse.observation.model.parameters"]), { temperature: 0, store: false });` },
{ id: "C19-prompt-to-root", property: "C19",
  edits: [[LC, `    if (registeredPrompt && parentRunId) {
      this.deregisterLangfusePrompt(parentRunId);
    }`, `    if (registeredPrompt && parentRunId && name) {
      this.deregisterLangfusePrompt(parentRunId);
    }`]],
  needs: "two unnamed model runs under one parent after a prompt",
  breaks: "the second model run is linked to the prompt too",
  demo: lcImp + `const { exporter, processor } = tracing(); const h = new CallbackHandler();
  await h.handleChainStart(S, {}, "p"); await h.handleChainStart(S, {}, "t", "p", [], { langfusePrompt: { name: "n", version: 1, isFallback: false } }); await h.handleChainEnd({}, "t");
  for (const r of ["m1", "m2"]) { await h.handleLLMStart(S, ["x"], r, "p", {}); await h.handleLLMEnd({ generations: [[{ text: r }]] }, r); }
  await h.handleChainEnd({}, "p"); await processor.forceFlush();
  const by = (t) => exporter.spans.find((s) => s.attributes["langfuse.observation.output"] === t);
  assert.equal(by("m1").attributes["langfuse.observation.prompt.name"], "n"); assert.equal(by("m2").attributes["langfuse.observation.prompt.name"], undefined);` },
{ id: "C19-tool-error-level", property: "C19",
  edits: [[LC, `    span.update(attributes).end();

    this.last_trace_id = span.traceId;
    this.runMap.delete(runId);`, `    span.update(attributes).end();

    if (span.traceId !== this.last_trace_id) {
      this.last_trace_id = span.traceId;
    }
    for (const [id, other] of this.runMap) {
      if (other.traceId === span.traceId && id <= runId) this.runMap.delete(id);
    }`]],
  needs: "sibling runs of one trace that are open while another with a larger run id ends",
  breaks: "the observation of the other run never ends",
  demo: lcImp + `const { exporter, processor } = tracing(); const h = new CallbackHandler();
  await h.handleChainStart(S, {}, "z"); await h.handleToolStart(S, "i", "a", "z"); await h.handleToolStart(S, "i", "b", "z");
  await h.handleToolEnd("o", "b"); await h.handleToolEnd("o", "a"); await h.handleChainEnd({}, "z"); await processor.forceFlush();
  assert.equal(exporter.spans.length, 3);` },
{ id: "C19-usage-negative", property: "C19",
  edits: [[LC, `    const parentSpanContext = parentRunId
      ? this.runMap.get(parentRunId)?.otelSpan.spanContext()
      : undefined;`, `    const parentSpanContext = (
      parentRunId
        ? (this.runMap.get(parentRunId) ?? [...this.runMap.values()].at(-1))
        : undefined
    )?.otelSpan.spanContext();`]],
  needs: "a run whose parent run is not tracked, while a run of another trace is open",
  breaks: "runs of concurrent traces are mixed",
  demo: lcImp + `const { exporter, processor } = tracing(); const h = new CallbackHandler();
  await h.handleChainStart(S, {}, "one"); await h.handleToolStart(S, "i", "orphan", "gone"); await h.handleToolEnd("o", "orphan"); await h.handleChainEnd({}, "one"); await processor.forceFlush();
  assert.equal(new Set(exporter.spans.map((s) => s.spanContext().traceId)).size, 2);` },
{ id: "C19-session-empty", property: "C19",
  edits: [[LC, `      if (!parentRunId) {
        const traceTags`, `      if (!parentRunId && this.runMap.size === 0) {
        const traceTags`]],
  needs: "a top-level chain that starts while another one is still running",
  breaks: "the second trace lacks the configured user, session and tags",
  demo: lcImp + `const { exporter, processor } = tracing(); const h = new CallbackHandler({ userId: "u" });
  await h.handleChainStart(S, {}, "one"); await h.handleChainStart(S, {}, "two"); await h.handleChainEnd({}, "one"); await h.handleChainEnd({}, "two"); await processor.forceFlush();
  assert.deepEqual(exporter.spans.map((s) => s.attributes["user.id"]), ["u", "u"]);` },
{ id: "C19-messages-flat", property: "C19",
  edits: [[LC, `      const lastResponse = output.generations.at(-1)?.at(-1);`, `      const lastResponse = output.generations.at(-1)?.[0];`], [LC, `      const modelName = this.extractModelNameFromMetadata(lastResponse);
`, `      const modelName = lastResponse && this.extractModelNameFromMetadata(lastResponse);
`]],
  needs: "a model run that returns several candidates",
  breaks: "the recorded output is another candidate's",
  demo: lcImp + `const { exporter, processor } = tracing(); const h = new CallbackHandler();
  await h.handleLLMStart(S, ["x"], "m", undefined, {}); await h.handleLLMEnd({ generations: [[{ text: "first" }, { text: "last" }]] }, "m"); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.observation.output"], "last");` },
];
