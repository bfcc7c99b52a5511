import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, parentOf } from "../lib/env";
import { LangfuseVercelAiSdkIntegration } from "@langfuse/vercel-ai-sdk";
import { startActiveObservation, startObservation, propagateAttributes } from "@langfuse/tracing";
import { generateText, streamText, embed, rerank, tool, stepCountIs, jsonSchema } from "ai";
import { MockLanguageModelV4, MockEmbeddingModelV4, MockRerankingModelV4 } from "ai/test";

const META = "langfuse.observation.metadata.", PN = "langfuse.observation.prompt.name", PV = "langfuse.observation.prompt.version";
const sleep = (ms: number) => new Promise<void>((r) => setTimeout(r, ms));
type Entry = { key: string; value: any; want: string | undefined };
function entries(r: Rng, tag: string, unserialisable: boolean): Entry[] {
  const keys = r.subset(["feature", "tenant", "n", "obj", "flag", "nothing", "undef", "bad", "fn", "unicode", "a.b", "tags", "userId", "langfusePrompts"], 0.35);
  return keys.map((key) => {
    const e = (value: any): Entry => ({ key, value, want: typeof value === "string" ? value : value == null || typeof value === "function" ? undefined : JSON.stringify(value) });
    switch (key) {
      case "n": return e(r.pick([0, -1, 3.5, r.int(1, 1e6)]));
      case "obj": return e(r.json(3));
      case "flag": return e(r.bool());
      case "nothing": return e(null);
      case "undef": return e(undefined);
      case "bad": { if (!unserialisable) return e("fine"); const c: any = { tag }; c.self = c; return { key, value: r.bool() ? c : BigInt(7), want: "*" }; }
      case "fn": return e(() => 1);
      case "tags": return e([tag, "x"]);
      case "unicode": return e(r.text(10));
      default: return e(`${tag}-${r.text(6)}`);
    }
  });
}
class PromptLike { constructor(public name: string, public version: number) {} compile() { return "x"; } }
function promptOf(r: Rng, tag: string): { given: boolean; value?: any; link?: { name: string; version: number } } {
  const k = r.weighted<string>([[3, "ok"], [1, "fallback"], [1, "notfallback"], [2, "none"], [2, "invalid"]]);
  const name = "prompt-" + tag, version = r.int(0, 50);
  if (k === "none") return { given: false };
  if (k === "ok") return { given: true, value: r.bool(0.2) ? r.pick([() => Object.assign(Object.create(null), { name, version }), () => new PromptLike(name, version), () => Object.freeze({ name, version, isFallback: false })])() : { name, version, ...(r.bool(0.3) ? { prompt: "text", config: {} } : {}) }, link: { name, version } };
  if (k === "notfallback") return { given: true, value: { name, version, isFallback: false }, link: { name, version } };
  if (k === "fallback") return { given: true, value: { name, version, isFallback: true } };
  return { given: true, value: r.pick<any>([null, undefined, "prompt", 7, [], [{ name, version }], { name }, { version }, { name, version: String(version) }, { name: 5, version }, { name: null, version: null }, {}]) };
}
type Ctx = { tag: string; entries: Entry[]; prompt: ReturnType<typeof promptOf>; context: any; include: any; none: boolean };
function makeCtx(r: Rng, tag: string, unserialisable = false): Ctx {
  const none = r.bool(0.1);
  const es = entries(r, tag, unserialisable), p = promptOf(r, tag);
  const context: any = {};
  for (const e of r.shuffle([...es, ...(p.given ? [{ key: "langfusePrompt", value: p.value, want: undefined }] : [])])) context[e.key] = e.value;
  const include: any = {};
  for (const k of Object.keys(context)) include[k] = r.bool(0.85);
  return { tag, entries: es, prompt: p, context, include, none };
}
/** What a span of this type must carry, given which keys of the context were let through. */
function checkSpan(o: Obs, attrs: any, c: Ctx | undefined, linkable: boolean, what: () => string) {
  const passed = (k: string) => c && !c.none && c.include[k];
  const want = new Map<string, string>();
  if (c) for (const e of c.entries) if (passed(e.key) && e.want !== undefined) want.set(META + e.key, e.want);
  const got = Object.keys(attrs).filter((k) => k.startsWith(META));
  for (const [k, v] of want) o.check(v === "*" ? attrs[k] === undefined || typeof attrs[k] === "string" : attrs[k] === v, "metadata", () => `${k} is ${show(attrs[k])} instead of ${show(v)}: ${what()}`);
  for (const k of got) o.check(want.has(k), "foreign-metadata", () => `${k}=${show(attrs[k])} does not belong here: ${what()}`);
  const link = linkable && c && passed("langfusePrompt") ? c.prompt.link : undefined;
  o.check(attrs[PN] === link?.name && attrs[PV] === link?.version, "prompt-link", () => `${show([attrs[PN], attrs[PV]])} instead of ${show(link)}: ${what()}`);
  o.count("spans"); o.count("metadata", want.size); if (link) o.count("links"); else if (linkable && c?.prompt.given) o.count("not-linked");
}
const usage = { inputTokens: { total: 1, noCache: 1 }, outputTokens: { total: 1, text: 1 } } as any;
async function real(r: Rng, o: Obs) {
  setEnv({});
  const t = makeTracing({ exportMode: r.pick(["immediate", "batched"]) });
  const shared = new LangfuseVercelAiSdkIntegration({ tracer: t.provider.getTracer("gen_ai") });
  const N = r.int(1, 4);
  const jobs = r.list(N, (i) => ({ i, kind: r.weighted<string>([[4, "generate"], [3, "stream"], [1, "embed"], [1, "rerank"]]), ctx: makeCtx(r, "call" + i), steps: r.int(1, 3), fail: r.bool(0.12), abortAt: r.bool(0.15) ? r.int(1, 60) : undefined, ctl: new AbortController(), aborted: false, prop: r.bool(0.5), start: r.pick([0, 0, 3, 20]), integ: r.bool(0.8) ? shared : new LangfuseVercelAiSdkIntegration({ tracer: t.provider.getTracer("gen_ai") }), err: new Error("model failed " + i), outer: undefined as any, inner: [] as { parent: string; id: string; where: string }[], d: undefined as any, wait: () => r.pick([0, 1, 5, 10]) }));
  const one = async (j: (typeof jobs)[0]) => {
    await sleep(j.start);
    let n = 0;
    const inside = async (where: string) => { const s = startObservation("work-" + j.i + "-" + where); j.inner.push({ parent: (s.otelSpan as any).parentSpanContext?.spanId, id: s.id, where }); await sleep(j.wait()); s.end(); };
    const parts = () => (n++ < j.steps - 1 ? { tool: true } : { tool: false });
    const gen = async (): Promise<any> => {
      await inside("model"); await sleep(j.wait());
      if (j.fail && n >= j.steps - 1) throw j.err;
      const p = parts();
      return p.tool ? { content: [{ type: "tool-call", toolCallId: `c${j.i}-${n}`, toolName: "w", input: '{"a":1}' }], finishReason: { unified: "tool-calls", raw: "x" }, usage, warnings: [] } : { content: [{ type: "text", text: "hi" + j.i }], finishReason: { unified: "stop", raw: "stop" }, usage, warnings: [] };
    };
    const model = new MockLanguageModelV4({
      modelId: "m" + j.i, doGenerate: gen,
      doStream: async () => {
        const g = await gen();
        const chunks: any[] = [{ type: "stream-start", warnings: [] }];
        for (const c of g.content) if (c.type === "text") chunks.push({ type: "text-start", id: "1" }, { type: "text-delta", id: "1", delta: c.text }, { type: "text-end", id: "1" }); else chunks.push(c);
        chunks.push({ type: "finish", finishReason: g.finishReason, usage });
        return { stream: new ReadableStream({ async pull(c) { await sleep(j.wait()); const x = chunks.shift(); if (x) c.enqueue(x); else c.close(); } }) } as any;
      },
    });
    const opts: any = { maxRetries: 0, ...(j.ctx.none ? {} : { runtimeContext: j.ctx.context }), telemetry: { isEnabled: true, functionId: "fn" + j.i, includeRuntimeContext: j.ctx.include, integrations: j.integ } };
    const tools = { w: tool({ inputSchema: jsonSchema({ type: "object" } as any), execute: async () => { await inside("tool"); return "sunny" + j.i; } }) };
    const call = async () => {
      if (j.kind === "generate") return (await generateText({ model, prompt: "p" + j.i, stopWhen: stepCountIs(5), tools, ...opts })).text;
      if (j.kind === "stream") { let failed: any; if (j.abortAt !== undefined) setTimeout(() => j.ctl.abort(), j.abortAt); const s = streamText({ model, prompt: "p" + j.i, stopWhen: stepCountIs(5), tools, abortSignal: j.ctl.signal, onAbort: () => { j.aborted = true; }, onError: (e: any) => { failed = e.error; }, ...opts }); let text = ""; for await (const x of s.textStream) text += x; if (failed) throw failed; return text; }
      if (j.kind === "embed") { const m = new MockEmbeddingModelV4({ modelId: "m" + j.i, doEmbed: async () => { await sleep(j.wait()); if (j.fail) throw j.err; return { embeddings: [[j.i]], warnings: [] } as any; } }); return (await embed({ model: m, value: "v", ...opts })).embedding; }
      const m = new MockRerankingModelV4({ modelId: "m" + j.i, doRerank: async () => { await sleep(j.wait()); if (j.fail) throw j.err; return { ranking: [{ index: 0, relevanceScore: j.i }] } as any; } });
      return (await rerank({ model: m, documents: ["a"], query: "q", ...opts })).ranking[0].score;
    };
    await startActiveObservation("outer" + j.i, async (span) => { j.outer = span; return j.prop ? propagateAttributes({ userId: "user" + j.i }, call) : call(); }).then((v) => { j.d = { ok: true, v }; }, (e) => { j.d = { ok: false, e }; });
  };
  const all = await sim.drive(Promise.all(jobs.map(one)));
  o.check(all.status === "fulfilled", "never-settles", () => show(jobs.map((j) => j.d)));
  await sim.drain(5000);
  await sim.drive(t.processor.forceFlush());
  const spans = t.exporter.spans.map((x) => x.span);
  o.note = jobs.map((j) => [j.kind, j.steps, j.fail, show(j.ctx.context), show(j.ctx.include)]);
  for (const j of jobs) {
    if (j.aborted) o.count("aborted-streams");
    else if (j.fail) o.check(!j.d.ok && j.d.e === j.err, "error-passed-through", () => show(j.d));
    else o.check(j.d.ok && deepEqual(j.d.v, j.kind === "embed" ? [j.i] : j.kind === "rerank" ? j.i : "hi" + j.i), "result-passed-through", () => `${j.kind} ${show(j.d)}`);
    const mine = spans.filter((s) => s.spanContext().traceId === j.outer.traceId);
    o.check(mine.length >= 3 || (j.fail && j.kind === "stream") || j.aborted, "spans-missing", () => show(mine.map((s) => s.name)));
    for (const s of mine) {
      const what = () => `span "${s.name}" of ${j.kind} call ${j.i}, context ${show(j.ctx.none ? undefined : j.ctx.context)} include ${show(j.ctx.include)}`;
      const own = s.name.startsWith("work-") || s.name.startsWith("outer");
      const carries = j.kind === "generate" || j.kind === "stream";
      const op = s.attributes["gen_ai.operation.name"];
      checkSpan(o, s.attributes, own || !carries ? undefined : j.ctx, op === "chat", what);
      if (!own) o.check(op === "chat" || op === "agent_step" || op === "execute_tool" || op === "invoke_agent" || op === "embeddings" || op === "rerank", "operation", what);
      if (!s.name.startsWith("outer")) o.check((s.attributes["user.id"] ?? undefined) === (j.prop ? "user" + j.i : undefined), "propagated-user", () => `${show(s.attributes["user.id"])} ${what()}`);
    }
    if (j.aborted) o.check(mine.some((s) => s.attributes["gen_ai.operation.name"] === "invoke_agent") && mine.every((s) => s.name === "outer" + j.i || mine.some((p) => idOf(p) === parentOf(s))), "aborted-call", () => `aborted after ${j.abortAt}: ${show(mine.map((s) => [s.name, s.attributes["gen_ai.operation.name"]]))}`);
    // the AI SDK does not end the spans of a step whose stream fails to start
    if (j.fail && j.kind === "stream") { o.count("failed-stream"); continue; }
    const byId = new Map(mine.map((s) => [idOf(s), s]));
    for (const s of mine) if (s.name !== "outer" + j.i) o.check(byId.has(parentOf(s)!), "one-tree", () => `${s.name} has parent ${parentOf(s)}`);
    if (!j.aborted) for (const w of j.inner) { const p = byId.get(w.parent); o.check(p && p.attributes["gen_ai.operation.name"] === (w.where === "tool" ? "execute_tool" : "chat"), "work-nested", () => `work inside ${w.where} of ${j.kind} is under ${show(p?.name)}`); o.count("nested-work"); }
    if (!j.fail && !j.aborted && (j.kind === "generate" || j.kind === "stream")) {
      const ops = mine.map((s) => s.attributes["gen_ai.operation.name"]);
      o.check(ops.filter((x) => x === "chat").length === j.steps && ops.filter((x) => x === "execute_tool").length === j.steps - 1 && ops.filter((x) => x === "agent_step").length === j.steps && ops.filter((x) => x === "invoke_agent").length === 1, "spans-per-call", () => `${j.kind} with ${j.steps} steps: ${show(mine.map((s) => s.name))}`);
    }
    o.count("kind." + j.kind);
    o.seen(`${j.kind} ${j.steps} ${j.fail} ${Object.keys(j.ctx.context).sort()} ${j.ctx.prompt.given}`);
  }
  if (N > 1) o.count("concurrent");
  await sim.drive(t.processor.shutdown());
}
/** Every span type, through the telemetry events themselves (the AI SDK passes no context to embeddings today). */
async function events(r: Rng, o: Obs) {
  setEnv({});
  const t = makeTracing({});
  const integ: any = new LangfuseVercelAiSdkIntegration({ tracer: t.provider.getTracer("gen_ai") });
  const N = r.int(1, 4);
  const calls = r.list(N, (i) => ({ i, id: "call" + i, kind: r.pick(["embed", "rerank", "object"]), ctx: makeCtx(r, "c" + i, true) }));
  const ctxOf = (c: Ctx) => (c.none ? undefined : Object.fromEntries(Object.entries(c.context).filter(([k]) => c.include[k])));
  const outers = calls.map((c) => startObservation("outer" + c.i));
  const step = (c: (typeof calls)[0], n: number) => startActiveObservation("s", () => {
    const base = { callId: c.id, provider: "p", modelId: "m" + c.i, recordInputs: false, recordOutputs: false, functionId: "f", maxRetries: 0 };
    const op = c.kind === "embed" ? "ai.embed" : c.kind === "rerank" ? "ai.rerank" : "ai.generateObject";
    if (n === 0) integ.onStart({ ...base, operationId: op, value: "v", documents: ["a"], query: "q", schema: undefined, messages: [], output: "object" });
    if (n === 1) integ.onStepStart({ ...base, steps: [], runtimeContext: ctxOf(c.ctx), messages: [] });
    if (n === 2) {
      if (c.kind === "embed") integ.onEmbedStart({ ...base, embedCallId: "e", operationId: "ai.embed.doEmbed", values: ["v"] });
      if (c.kind === "rerank") integ.onRerankStart({ ...base, rerankCallId: "e", operationId: "ai.rerank.doRerank", documents: ["a"], documentsType: "text", query: "q" });
      if (c.kind === "object") integ.onObjectStepStart({ ...base, stepNumber: 0, promptMessages: [] });
    }
    if (n === 3) {
      if (c.kind === "embed") integ.onEmbedEnd({ ...base, embedCallId: "e", embeddings: [[1]], usage: { tokens: 1 }, warnings: [] });
      if (c.kind === "rerank") integ.onRerankEnd({ ...base, rerankCallId: "e", ranking: [], documentsType: "text" });
      if (c.kind === "object") integ.onObjectStepEnd({ ...base, stepNumber: 0, finishReason: "stop", usage: { inputTokens: 1, outputTokens: 1 }, objectText: "{}", response: {} });
    }
  }, { parentSpanContext: outers[c.i].otelSpan.spanContext() });
  // interleave the events of concurrent calls
  const at = calls.map(() => 0);
  while (at.some((x) => x < 4)) { const k = r.pick(at.map((x, i) => (x < 4 ? i : -1)).filter((i) => i >= 0)); step(calls[k], at[k]++); }
  await sim.drive(t.processor.forceFlush());
  for (const c of calls) {
    const mine = t.exporter.spans.map((x) => x.span).filter((s) => s.spanContext().traceId === outers[c.i].traceId && s.name !== "s");
    const inner = mine.filter((s) => s.attributes["gen_ai.operation.name"] !== "agent_step");
    o.check(inner.length >= 1, "spans-missing", () => `${c.kind}: ${show(mine.map((s) => [s.name, s.attributes]))}`);
    for (const s of inner) checkSpan(o, s.attributes, c.ctx, true, () => `${s.name} of ${c.kind} ${show(ctxOf(c.ctx))}`);
    o.count("event." + c.kind); o.seen(`${c.kind} ${Object.keys(c.ctx.context).sort()}`);
  }
  await sim.drive(t.processor.shutdown());
}
defineCheck("C29", { rule: "a call is non-trivial when its spans were exported; distinct by kind of call, number of steps and keys of the context", required: ["spans", "metadata", "links", "not-linked", "concurrent", "nested-work", "kind.generate", "kind.stream", "kind.embed", "kind.rerank", "event.embed", "event.rerank", "event.object"],
  assumptions: ["the AI SDK (ai@7) and @ai-sdk/otel as installed, with mock models", "values that cannot be serialised make the AI SDK itself skip its telemetry; they are driven through the telemetry events only", "the AI SDK passes no runtime context for embed() and rerank()"] },
  [{ name: "calls", quick: 350, thorough: 12000, run: real }, { name: "events", quick: 600, thorough: 20000, run: events }]);
