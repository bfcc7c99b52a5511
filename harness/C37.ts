import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, KEYS, isIngestion, MediaServer, RecExporter } from "../lib/env";
import { fakeHttp } from "../lib/fakehttp";
import { genCall, makeClient, perform, Call } from "../lib/fakeopenai";
import { LangfuseClient } from "@langfuse/client";
import { observeOpenAI } from "@langfuse/openai";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { setLangfuseTracerProvider, startObservation, startActiveObservation, observe, propagateAttributes } from "@langfuse/tracing";

const answer = (q: any): any => {
  const p = q.path;
  if (isIngestion(q)) return { status: 207, body: { successes: [], errors: [] } };
  if (p.includes("/v2/prompts/")) return { status: 200, body: { name: "p", version: 1, type: "text", prompt: "t", config: {}, labels: [], tags: [] } };
  if (p.includes("/projects")) return { status: 200, body: { data: [{ id: "proj" }] } };
  if (p.includes("/v2/datasets/")) return { status: 200, body: { id: "ds", name: "ds" } };
  if (p.endsWith("/dataset-items")) return { status: 200, body: { data: [{ id: "i1", datasetId: "ds", input: "x", expectedOutput: null, status: "ACTIVE" }], meta: { page: 1, totalPages: 1, limit: 50, totalItems: 1 } } };
  if (p.endsWith("/dataset-run-items")) return { status: 200, body: { id: "ri", datasetRunId: "run" } };
  return { status: 200, body: {} };
};
const uri = (r: Rng) => `data:text/plain;base64,${Buffer.from(r.plain(3, 9)).toString("base64")}`;

async function run(r: Rng, o: Obs) {
  fakeHttp.reset();
  setEnv(r.pick<any>([{}, {}, { LANGFUSE_FLUSH_AT: "3" }, { LANGFUSE_FLUSH_INTERVAL: "30" }, { LANGFUSE_FLUSH_INTERVAL: "100" }]));
  // With retryable faults, background work may legitimately wait between its attempts: then only the end is judged.
  const faults = r.weighted<"none" | "final" | "all">([[2, "none"], [3, "final"], [3, "all"]]);
  const otlp = r.bool(0.4);
  let exporting = 0;
  const exporter: any = otlp ? undefined : new RecExporter(() => (r.bool(0.7) || faults === "none" ? { delay: r.pick([0, 0, 20]) } : r.pick<any>([{ code: 1 }, { code: 1, delay: 30 }])));
  const t = makeTracing({ exportMode: r.pick(["immediate", "batched", undefined]), flushInterval: r.pick([undefined, 1, 60]), ...(exporter ? { exporter } : {}) });
  let processor = t.processor, provider = t.provider;
  if (otlp) {
    processor = new LangfuseSpanProcessor({ ...KEYS, exportMode: r.pick(["immediate", "batched"]), flushInterval: r.pick([undefined, 30]) });
    provider = new BasicTracerProvider({ spanProcessors: [processor] });
    setLangfuseTracerProvider(provider);
  }
  const fail = (): any => r.pick<any>(faults === "final" ? [{ status: 400, body: { m: 1 } }, { status: 401, body: {} }, { status: 404, body: "no" }, { error: new TypeError("fetch failed") }, { status: 200, body: "not json", headers: { "content-type": "application/json" } }] : [{ status: 503, body: {} }, { status: 429, body: {}, headers: { "retry-after": "2" } }, { error: new TypeError("fetch failed") }, { hang: true }, { status: 500, body: "x" }, { status: 401, body: {} }]);
  const always = faults === "all" && r.bool(0.3);
  const media = new MediaServer(() => (r.bool(0.6) || faults !== "final" ? { noUrl: r.bool(0.2) } : { post: r.pick<any>([{ status: 400, body: {} }, { error: new TypeError("x") }]) }) as any);
  const pick = () => faults !== "none" && (always || r.bool(0.3));
  sim.onFetch = (q) => {
    const delay = r.pick([0, 0, 0, 5, 300]);
    // The storage service is reached by a plain fetch, which Node gives up after five minutes without an answer.
    const storage = (x: any) => (x.hang && q.host !== "langfuse.test:3000" ? { error: new TypeError("fetch failed"), delay: 300_000 } : x);
    const m = media.handle(q);
    if (m) return faults === "all" && pick() ? storage({ delay, ...fail() }) : { ...m, delay };
    return storage({ delay, ...(pick() ? fail() : answer(q)) });
  };
  fakeHttp.onRequest = () => ({ ...(pick() ? (faults === "final" ? { status: 400, body: "no" } : r.pick<any>([{ status: 503, body: "" }, { hang: true }, { error: new Error("ECONNRESET") }])) : { status: 200, body: "{}" }), delay: r.pick([0, 0, 20]) });
  const client = new LangfuseClient(KEYS);
  const calls = new Set<Promise<any>>();
  const call = (p: Promise<any>) => { const q = p.then(() => {}, () => {}).finally(() => calls.delete(q)); calls.add(q); return q; };
  const queue: Call[] = []; let cid = 0;
  const ai = observeOpenAI(makeClient(() => queue.shift()!));
  const shape: string[] = [];
  const inFlight = () => calls.size + sim.fetches.filter((q) => q.doneAt === undefined).length + fakeHttp.requests.filter((q) => q.doneAt === undefined).length + (exporter ? exporter.calls.filter((c: any) => c.doneEv === undefined).length : 0);
  /** Nothing is under way: nothing may hold the process open. */
  const quiescent = async (where: string) => {
    await sim.settle(6);
    if (faults === "all" || inFlight()) return;
    await sim.settle(20); // what runs on microtasks only
    if (inFlight()) return;
    const held = sim.pendingTimers(true);
    o.check(held.length === 0, "holds-process", () => `${held.length} timer(s) hold the event loop ${where}, due in ${held.map((x) => x.at - sim.now)} ms, after ${shape}`);
    o.count("quiescent"); if (sim.pendingTimers().length) o.count("idle-timers");
  };
  for (let n = r.int(0, 12); n > 0; n--) {
    const op = r.weighted<string>([[4, "score"], [3, "prompt"], [4, "span"], [1, "open"], [1.5, "active"], [1, "observe"], [1, "api"], [1, "url"], [2, "openai"], [1, "experiment"], [1, "resolve"], [1, "flush"], [1, "pflush"], [3, "time"], [1, "join"]]);
    shape.push(op);
    if (op === "score") for (let c = r.pick([1, 1, 2, 11]); c > 0; c--) client.score.create({ name: "s", value: 1, traceId: "t" });
    else if (op === "prompt") call(client.prompt.get("p", { cacheTtlSeconds: r.pick([0, 1, 60]), maxRetries: r.pick([0, 1]), ...(r.bool(0.3) ? { fallback: "fb" } : {}), ...(r.bool(0.3) ? { fetchTimeoutMs: 500 } : {}) }));
    else if (op === "span") startObservation("s", { input: r.bool(0.3) ? uri(r) : "x" }).end();
    else if (op === "open") startObservation("never ended");
    else if (op === "active") call(Promise.resolve(propagateAttributes({ userId: "u" }, () => startActiveObservation("a", async (ob) => { await new Promise((f) => setTimeout(f, r.pick([1, 40]))); ob.update({ output: "o" }); if (r.bool(0.3)) throw new Error("app"); }))));
    else if (op === "observe") call(observe(async () => { await new Promise((f) => setTimeout(f, 3)); })());
    else if (op === "api") call(client.api.trace.get("t", r.bool(0.5) ? { timeoutInSeconds: r.pick([1, 30]), maxRetries: r.pick([0, 1]) } : undefined) as any);
    else if (op === "url") call(client.getTraceUrl("t"));
    else if (op === "openai") { const c = genCall(r, cid++); queue.push(c); call(perform(ai, c)); await sim.settle(2); queue.length = 0; }
    else if (op === "experiment") call(client.experiment.run({ name: "e", data: [{ input: "a" }, { input: "b" }], task: async () => { await new Promise((f) => setTimeout(f, 5)); if (r.bool(0.3)) throw new Error("task"); return "o"; }, evaluators: [async () => ({ name: "e", value: 1 })] }));
    else if (op === "resolve") call(client.media.resolveReferences({ obj: { a: "@@@langfuseMedia:type=text/plain|id=abc|source=bytes@@@" }, resolveWith: "base64DataUri" } as any));
    else if (op === "flush") { const p = client.flush(); call(p); if (r.bool()) { const d = await sim.drive(p); o.check(d.status !== "pending", "flush-settles", "client.flush"); } }
    else if (op === "pflush") { const p = processor.forceFlush(); call(p); if (r.bool()) { const d = await sim.drive(p); o.check(d.status !== "pending", "flush-settles", "forceFlush"); } }
    else if (op === "time") await sim.advance(r.pick([1, 10, 400, 1100, 61_000]));
    else { const d = await sim.drive(Promise.all([...calls])); o.check(d.status === "fulfilled", "call-settles", () => `a call never settles after ${shape}`); }
    await quiescent("while idle");
  }
  // end of the application, in one of many ways
  const join = async () => { const d = await sim.drive(Promise.all([...calls])); o.check(d.status === "fulfilled", "call-settles", () => `a call never settles after ${shape}`); };
  const joined = r.bool(0.7);
  if (joined) { await join(); if (r.bool()) await quiescent("after all calls"); if (r.bool(0.5)) { startObservation("last", { input: r.bool() ? uri(r) : "x" }).end(); shape.push("last"); } if (r.bool(0.3)) client.score.create({ name: "last", value: 1, traceId: "t" }); }
  const ends = r.pick<(() => Promise<any>)[]>([
    [() => client.shutdown(), () => processor.shutdown()],
    [() => processor.shutdown(), () => client.shutdown()],
    [() => Promise.all([client.shutdown(), processor.shutdown()])],
    [() => Promise.all([client.flush(), client.shutdown(), client.flush(), processor.forceFlush(), processor.shutdown()])],
    [() => client.flush(), () => client.shutdown(), () => client.shutdown(), () => provider.shutdown(), () => processor.shutdown()],
    [() => Promise.all([processor.forceFlush(), processor.forceFlush()]), () => Promise.all([processor.shutdown(), processor.shutdown(), client.shutdown(), client.shutdown()])],
  ]);
  let clean = true;
  for (const end of ends) { const d = await sim.drive(end()); o.check(d.status !== "pending", "shutdown-settles", () => `shutdown never settles after ${shape}`); clean &&= d.status === "fulfilled"; }
  // Calls that had settled before leave nothing for later, except the refresh of a stale prompt that nobody waits for.
  const own = () => sim.fetches.filter((q) => !q.path.includes("/v2/prompts/"));
  const sent = own().length;
  if (joined && clean) {
    const late = own().filter((q) => q.doneAt === undefined);
    o.check(late.length === 0, "under-way-after-shutdown", () => `${late.map((q) => q.method + " " + q.path)} under way after shutdown resolved, after ${shape}`);
    await sim.advance(r.pick([1, 5_000, 100_000]));
    o.check(own().length === sent, "acts-after-shutdown", () => `${own().slice(sent).map((q) => q.method + " " + q.path)} sent after shutdown resolved, after ${shape}`);
    o.count("clean-shutdowns");
  }
  await join();
  // what calls recorded after the shutdown of their managers is flushed by the application once more
  const again = await sim.drive(Promise.allSettled([client.shutdown(), processor.shutdown()])); o.check(again.status === "fulfilled", "shutdown-settles", "repeated");
  const bg = sim.now + 1_200_000; // background work of calls that have settled (refreshes of stale prompts and their retries)
  while (inFlight() && sim.now < bg) await sim.advance(10_000);
  if (faults === "all") await sim.advance(600_000);
  await sim.settle(20);
  const held = sim.pendingTimers();
  o.check(held.length === 0, "timer-after-shutdown", () => `${held.length} timer(s) left after shutdown, due in ${held.map((x) => x.at - sim.now)} ms, after ${shape}`);
  const before = [sim.fetches.length, fakeHttp.requests.length, exporter?.calls.length ?? 0];
  await sim.advance(3_600_000);
  o.check(show([sim.fetches.length, fakeHttp.requests.length, exporter?.calls.length ?? 0]) === show(before), "acts-after-shutdown", () => `${show(before)} requests and exports at shutdown, ${show([sim.fetches.length, fakeHttp.requests.length, exporter?.calls.length ?? 0])} an hour later (${sim.fetches.slice(before[0]).map((q) => q.path)})`);
  o.count("shutdowns"); o.count("requests", sim.fetches.length); o.count("faults." + faults);
  o.seen(shape.join() + sim.ev);
}
defineCheck("C37", {
  rule: "A case is a random history of scores, reads, spans, wrapped OpenAI calls, experiments and flushes, ended by flush and shutdown in one of many orders, against a server that works, fails for good or fails in every way. Whenever nothing is under way no timer with a hold on the event loop may be pending; after shutdown no timer at all, and nothing is sent for an hour. Distinct by operations and number of events.",
  required: ["quiescent", "idle-timers", "shutdowns", "clean-shutdowns", "requests", "faults.none", "faults.final", "faults.all"],
}, [{ name: "histories", quick: 500, run }]);
