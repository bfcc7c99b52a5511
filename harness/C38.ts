// node-flags: --no-opt --no-sparkplug --no-maglev --no-flush-bytecode --single-threaded-gc
// (the code of the engine itself must not drown what is measured)
import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, KEYS, isIngestion, MediaServer, RecExporter } from "../lib/env";
import { genCall, makeClient, perform, Call } from "../lib/fakeopenai";
import { LangfuseClient } from "@langfuse/client";
import { CallbackHandler } from "@langfuse/langchain";
import { observeOpenAI } from "@langfuse/openai";
import { LangfuseVercelAiSdkIntegration } from "@langfuse/vercel-ai-sdk";
import { startObservation, startActiveObservation, observe, propagateAttributes, updateActiveObservation, createTraceId } from "@langfuse/tracing";
import { generateText, streamText, embed, tool, stepCountIs, jsonSchema } from "ai";
import { MockLanguageModelV4, MockEmbeddingModelV4 } from "ai/test";

const sleep = (ms: number) => new Promise<void>((r) => setTimeout(r, ms));
const uri = (x: string) => `data:text/plain;base64,${Buffer.from(x).toString("base64")}`;
type Env = { client: LangfuseClient; processor: any; provider: any; exporter: any; r: Rng; fail: boolean };
type Kind = { name: string; n: number; tracing?: any; provider?: any; flush?: boolean; make: (e: Env) => (i: number) => Promise<any> | any };
const uuid = (i: number) => `00000000-0000-4000-8000-${String(i).padStart(12, "0")}`;
const ser = { lc: 1, type: "constructor", id: ["langchain", "x"], name: "X", kwargs: {} } as any;

const KINDS: Kind[] = [
  { name: "spans", n: 700, make: ({ fail }) => (i) => { const s = startObservation("s", { input: "in" + i, metadata: { i } }), c = s.startObservation("g", { model: "m", usageDetails: { input: i } }, { asType: "generation" }); c.update({ output: fail ? { err: 1 } : "o", level: fail ? "ERROR" : "DEFAULT" }); c.end(); s.end(); s.end(); } },
  { name: "spans-filtered", n: 700, tracing: { shouldExportSpan: ({ otelSpan }: any) => { if (otelSpan.name === "boom") throw new Error("filter"); return false; } }, make: ({ fail }) => (i) => { startActiveObservation(fail ? "boom" : "s", (ob) => { ob.update({ input: "x" + i }); startObservation("c").end(); }); } },
  { name: "spans-foreign", n: 700, make: ({ provider }) => { const t = provider.getTracer("http"); return (i) => { const s = t.startSpan("GET " + i, { attributes: { a: i } }); s.end(); }; } },
  { name: "spans-unsampled", n: 700, provider: { sampler: { shouldSample: () => ({ decision: 0 }), toString: () => "off" } }, make: () => (i) => { startActiveObservation("s" + i, () => { startObservation("c").end(); }); } },
  { name: "spans-record-only", n: 700, provider: { sampler: { shouldSample: () => ({ decision: 1 }), toString: () => "rec" } }, make: () => (i) => { startActiveObservation("s" + i, () => { startObservation("c").end(); }); } },
  { name: "spans-masked", n: 400, tracing: { mask: async ({ data }: any) => { if (String(data).includes("7")) throw new Error("mask"); return "***"; } }, make: () => (i) => { startObservation("s", { input: "in" + i, output: "o" + i, metadata: { a: i } }).end(); } },
  { name: "spans-remote-parent", n: 600, make: () => async (i) => { const traceId = await createTraceId("seed" + i); const s = startObservation("s", {}, { parentSpanContext: { traceId, spanId: "0123456789abcdef", traceFlags: 1 } }); s.end(); } },
  { name: "media-spans", n: 150, make: () => (i) => { startObservation("s", { input: { a: uri("file" + i), b: uri("file" + (i + 1)) } }).end(); } },
  { name: "propagation", n: 700, make: ({ fail }) => async (i) => { await Promise.resolve(propagateAttributes({ userId: "u" + i, sessionId: "s" + i, tags: ["t" + i], metadata: { k: "v" + i }, asBaggage: i % 2 === 0 } as any, async () => { startObservation("s").end(); await null; if (fail) throw new Error("app"); })).catch(() => {}); } },
  { name: "observe", n: 500, make: ({ fail }) => { const f = observe(async (x: any) => { updateActiveObservation({ metadata: { x } }); await null; if (fail) throw new Error("app" + x); return { x }; }, { name: "f" }); return async (i) => { await f({ i }).catch(() => {}); }; } },
  { name: "observe-wrap", n: 500, make: ({ fail }) => (i) => { const f = observe(function g(x: any) { if (fail) throw new Error("app"); return x; }); try { f({ i }); } catch {} } },
  { name: "observe-generators", n: 250, make: ({ fail }) => { const g = observe(function* (n: number) { for (let k = 0; k < n; k++) { if (fail && k === 2) throw new Error("gen"); yield { k }; } }), ag = observe(async function* (n: number) { for (let k = 0; k < n; k++) { await null; yield "x" + k; } }); return async (i) => { try { for (const x of g(4) as any) if (i % 3 === 0 && x.k === 1) break; } catch {} for await (const x of ag(3) as any) if (i % 2 && x === "x1") break; }; } },
  { name: "scores", n: 250, make: ({ client, fail }) => async (i) => { for (let k = 0; k < 3; k++) client.score.create({ name: "s" + k, value: i, traceId: "t" + i, metadata: { i } }); const s = startObservation("s"); client.score.observation(s, { name: "o", value: "x" + i }); s.end(); await client.flush(); } },
  { name: "scores-timer", n: 150, make: ({ client }) => async (i) => { client.score.create({ name: "s", value: i, traceId: "t" + i }); await sleep(1500); } },
  { name: "prompt-cached", n: 500, make: ({ client }) => async (i) => { const p = await client.prompt.get("p", { cacheTtlSeconds: 600, maxRetries: 0, fallback: "f {{x}}" }); p.compile({ x: "v" + i }); } },
  { name: "prompt-stale", n: 150, make: ({ client }) => async () => { await client.prompt.get("p" , { cacheTtlSeconds: 1, maxRetries: 0, fallback: "fb" }).catch(() => {}); await sleep(1600); } },
  { name: "prompt-uncached", n: 150, make: ({ client, fail }) => async (i) => { await client.prompt.get("q", { cacheTtlSeconds: 0, maxRetries: 0, ...(i % 2 ? { fallback: "fb" } : {}) }).catch(() => {}); } },
  { name: "prompt-writes", n: 150, make: ({ client }) => async (i) => { await client.prompt.create({ name: "p", prompt: "t" + i }).catch(() => {}); await client.prompt.update({ name: "p", version: 1, newLabels: ["l" + i] }).catch(() => {}); await client.prompt.get("p", { maxRetries: 0 }).catch(() => {}); } },
  { name: "api", n: 150, make: ({ client }) => async (i) => { await client.api.trace.get("t" + i, { maxRetries: 0 }).catch(() => {}); await client.api.trace.list({ limit: 1, name: "n" + i }).catch(() => {}); await client.getTraceUrl("t" + i).catch(() => {}); } },
  { name: "api-aborted", n: 120, make: ({ client }) => { return async (i) => { const c = new AbortController(); const p = Promise.resolve(client.api.trace.get("slow" + i, {}, { maxRetries: 0, abortSignal: c.signal, timeoutInSeconds: i % 2 ? 1 : 30 })).catch(() => {}); await sleep(1); if (i % 2 === 0) c.abort(); await p; }; } },
  { name: "api-shared-signal", n: 150, make: ({ client }) => { const c = new AbortController(); return async (i) => { await Promise.resolve(client.api.trace.get("t" + i, {}, { maxRetries: 0, abortSignal: c.signal })).catch(() => {}); }; } },
  { name: "clients", n: 60, make: () => async (i) => { const c = new LangfuseClient({ ...KEYS, publicKey: "pk" + i }); c.score.create({ name: "n", value: 1, traceId: "t" }); await c.prompt.get("p").catch(() => {}); await c.shutdown(); } },
  { name: "resolve", n: 120, make: ({ client }) => async (i) => { await client.media.resolveReferences({ obj: { a: `@@@langfuseMedia:type=text/plain|id=m${i}|source=bytes@@@`, b: [{ c: "x" }] }, resolveWith: "base64DataUri" } as any).catch(() => {}); } },
  { name: "dataset", n: 80, make: ({ client }) => async (i) => { const d: any = await client.dataset.get("ds").catch(() => undefined); if (d?.items?.[0]) { const s = startObservation("s" + i); s.end(); await d.items[0].link(s, "run").catch(() => {}); } } },
  { name: "experiment", n: 30, make: ({ client, fail }) => async (i) => { await client.experiment.run({ name: "e", data: [{ input: "a" + i }, { input: "b" + i }], task: async (x: any) => { await sleep(1); if (fail) throw new Error("task"); return x.input; }, evaluators: [async () => ({ name: "ev", value: i })], runEvaluators: [async () => ({ name: "run", value: 1 })] }).catch(() => {}); } },
  { name: "openai", n: 150, make: ({ r }) => { let next: Call; const ai = observeOpenAI(makeClient(() => next)); return async (i) => { next = genCall(r, i); await perform(ai, next); }; } },
  { name: "openai-wrap", n: 150, make: ({ r }) => { let next: Call; const base = makeClient(() => next); return async (i) => { const ai = observeOpenAI(base, { traceName: "t" + i, userId: "u" + i } as any); next = genCall(r, i); await perform(ai, next); }; } },
  { name: "langchain", n: 200, make: ({ fail }) => { const h: any = new CallbackHandler({ userId: "u", tags: ["x"] }); return async (i) => {
    const [a, b, c, d, e] = [1, 2, 3, 4, 5].map((k) => uuid(i * 10 + k));
    await h.handleChainStart(ser, { input: "q" + i }, a, undefined, [], {}, undefined, "run");
    await h.handleLLMStart(ser, ["p" + i], b, a, { invocation_params: { model: "m" } }, [], { i, langfusePrompt: { name: "p", version: 1 } });
    await h.handleLLMNewToken("t", { prompt: 0, completion: 0 }, b, a);
    if (fail) await h.handleLLMError(new Error("llm"), b, a); else await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, b, a);
    await h.handleToolStart(ser, "in", c, a, [], {}, "tool"); if (fail) await h.handleToolError(new Error("t"), c, a); else await h.handleToolEnd("out", c, a);
    await h.handleRetrieverStart(ser, "q", d, a); if (fail) await h.handleRetrieverError(new Error("r"), d, a); else await h.handleRetrieverEnd([{ pageContent: "d", metadata: {} }], d, a);
    await h.handleChatModelStart(ser, [[]], e, a, {}, [], {}); await h.handleAgentAction?.({ tool: "t", toolInput: "i", log: "" }, a); if (fail) await h.handleLLMError(new Error("chat"), e, a); else await h.handleLLMEnd({ generations: [[{ text: "y" }]] }, e, a);
    if (fail) await h.handleChainError(new Error("c"), a); else { await h.handleAgentEnd?.({ returnValues: { o: 1 }, log: "" }, a); await h.handleChainEnd({ output: "o" + i }, a); }
  }; } },
  { name: "langchain-handlers", n: 200, make: () => async (i) => { const h: any = new CallbackHandler({ userId: "u" + i }); await h.handleChainStart(ser, { input: "q" + i }, uuid(i)); await h.handleChainEnd({ output: 1 }, uuid(i)); } },
  { name: "ai-sdk", n: 40, make: ({ provider, fail }) => {
    const integ = new LangfuseVercelAiSdkIntegration({ tracer: provider.getTracer("gen_ai") });
    const usage = { inputTokens: { total: 1, noCache: 1 }, outputTokens: { total: 1, text: 1 } } as any;
    return async (i) => {
      let n = 0;
      const gen = async (): Promise<any> => { if (fail) throw new Error("model"); return n++ === 0 ? { content: [{ type: "tool-call", toolCallId: "c", toolName: "w", input: "{}" }], finishReason: { unified: "tool-calls", raw: "x" }, usage, warnings: [] } : { content: [{ type: "text", text: "hi" }], finishReason: { unified: "stop", raw: "stop" }, usage, warnings: [] }; };
      const model = new MockLanguageModelV4({ modelId: "m", doGenerate: gen, doStream: async () => { const g = await gen(); const chunks: any[] = [{ type: "stream-start", warnings: [] }]; for (const c of g.content) if (c.type === "text") chunks.push({ type: "text-start", id: "1" }, { type: "text-delta", id: "1", delta: c.text }, { type: "text-end", id: "1" }); else chunks.push(c); chunks.push({ type: "finish", finishReason: g.finishReason, usage }); return { stream: new ReadableStream({ pull(c) { const x = chunks.shift(); if (x) c.enqueue(x); else c.close(); } }) } as any; } });
      const opts: any = { model, prompt: "p", maxRetries: 0, stopWhen: stepCountIs(3), tools: { w: tool({ inputSchema: jsonSchema({ type: "object" } as any), execute: async () => "ok" }) }, runtimeContext: { tenant: "t" + i, langfusePrompt: { name: "p", version: 1 } }, telemetry: { isEnabled: true, includeRuntimeContext: { tenant: true, langfusePrompt: true }, integrations: integ } };
      if (i % 2 === 0 || fail) await generateText(opts).catch(() => {});
      else for await (const _ of streamText(opts).textStream) void _;
      await embed({ model: new MockEmbeddingModelV4({ doEmbed: async () => { if (fail) throw new Error("e"); return { embeddings: [[1]], warnings: [] } as any; } }), value: "v", maxRetries: 0, telemetry: opts.telemetry } as any).catch(() => {});
    };
  } },
  { name: "processors", n: 60, make: () => async (i) => { const t = makeTracing({ environment: "e" + i }); const s = t.provider.getTracer("langfuse-sdk").startSpan("s"); s.end(); await t.processor.shutdown(); } },
];

async function run(r: Rng, o: Obs, index: number) {
  const kind = KINDS[index % KINDS.length], fail = Math.floor(index / KINDS.length) % 2 === 1, explicit = Math.floor(index / KINDS.length / 2) % 2 === 1;
  setEnv({});
  const exporter = new RecExporter(() => (fail ? { code: 1 } : {}));
  const t = makeTracing({ exporter, exportMode: r.pick(["immediate", "batched"]), ...kind.tracing }, undefined, kind.provider ?? {});
  const media = new MediaServer(() => (fail ? { post: { status: 400, body: {} } } : {}));
  sim.onFetch = (q) => {
    const m = media.handle(q);
    if (m) return m;
    if (q.path.includes("/traces/slow")) return { hang: true };
    if (fail) return { status: 400, body: { message: "no" } };
    const p = q.path;
    if (isIngestion(q)) return { status: 207, body: { successes: [], errors: [] } };
    if (p.includes("/v2/prompts")) return { status: 200, body: { name: "p", version: 1, type: "text", prompt: "t {{x}}", config: {}, labels: [], tags: [] } };
    if (p.includes("/projects")) return { status: 200, body: { data: [{ id: "proj" }] } };
    if (p.includes("/v2/datasets/")) return { status: 200, body: { id: "ds", name: "ds" } };
    if (p.endsWith("/dataset-items")) return { status: 200, body: { data: [{ id: "i1", datasetId: "ds", input: "x", expectedOutput: null, status: "ACTIVE" }], meta: { page: 1, totalPages: 1, limit: 50, totalItems: 1 } } };
    if (p.endsWith("/dataset-run-items")) return { status: 200, body: { id: "ri", datasetRunId: "run" } };
    if (p.includes("/media/")) return { status: 200, body: { mediaId: "m", contentType: "text/plain", url: "https://bucket.s3.test/x", urlExpiry: "2099-01-01T00:00:00Z", contentLength: 1, uploadedAt: "2024-01-01T00:00:00Z" } };
    return { status: 200, body: {} };
  };
  const client = new LangfuseClient(KEYS);
  const op = kind.make({ client, processor: t.processor, provider: t.provider, exporter, r, fail });
  let i = 0;
  /** nothing of the observer's own records may count */
  const forget = () => { t.started.length = 0; sim.fetches.length = 0; sim.logs.length = 0; sim.fired = 0; exporter.spans.length = 0; exporter.calls.length = 0; media.regs.length = 0; media.puts.length = 0; media.patches.length = 0; (media as any).plans.clear(); };
  // what is sent by the regular schedule must be as little retained as what is flushed explicitly
  const deliver = async () => { if (explicit) await sim.drive(Promise.all([t.processor.forceFlush().catch(() => {}), client.flush()])); else await sim.advance(10_000); };
  const window = async (n: number) => {
    for (let k = 0; k < n; k++) {
      const p = op(i++);
      if (p instanceof Promise) {
        const d = await sim.drive(p, 600_000);
        o.check(d.status === "fulfilled", "operation", () => `${kind.name}: ${show(d)}`);
      }
      if (k % 25 === 24) { await deliver(); forget(); }
    }
    await deliver();
    await sim.advance(20_000);
    forget();
    for (let k = 0; k < 4; k++) { (globalThis as any).gc(); await sim.settle(3); }
    return process.memoryUsage().heapUsed;
  };
  const grow: number[] = [];
  let last = await window(Math.ceil(kind.n / 2));
  last = await window(Math.ceil(kind.n / 2));
  // growth must show in every one of the windows to count: a leak grows with each operation, noise does not
  const LIMIT = 24;
  for (let w = 0; w < 8; w++) {
    const n = w < 3 ? kind.n : kind.n * 2, h = await window(n);
    grow.push((h - last) / n); last = h;
    o.count("operations", n); o.count("collections");
    if (Math.min(...grow) <= LIMIT && w >= 2) break;
    if (Math.min(...grow) <= LIMIT && w === 1) break;
  }
  o.note = { kind: kind.name, fail, bytesPerOperation: grow.map(Math.round) };
  if (process.env.DBG) process.stdout.write(`${kind.name} ${fail} ${grow.map(Math.round)}\n`);
  o.check(Math.min(...grow) <= LIMIT, "retained", () => `${kind.name}${fail ? " (failing)" : ""}: the heap grows by ${grow.map(Math.round)} bytes per finished operation, in each of ${grow.length} consecutive windows of ${kind.n} or more operations`);
  o.count("kind." + kind.name); o.count(fail ? "failing" : "succeeding"); o.count(explicit ? "flushed" : "scheduled");
  await sim.drive(Promise.all([t.processor.shutdown().catch(() => {}), client.shutdown()]));
  o.seen(kind.name + fail + explicit);
}
defineCheck("C38", {
  rule: "A case repeats one kind of operation, succeeding or failing, thousands of times with everything flushed, and measures the heap after full garbage collections. Growth per operation in every one of the measured windows is a violation. Distinct by kind of operation and outcome.",
  assumptions: ["the heap after several forced collections is a faithful measure of what is retained"],
  required: ["operations", "collections", "failing", "succeeding", "flushed", "scheduled", ...KINDS.map((k) => "kind." + k.name)],
}, [{ name: "growth", quick: 8, quickExact: KINDS.length * 4, thorough: KINDS.length * 12, run }]);
