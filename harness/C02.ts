import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS, isIngestion, installContextManager } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { context, trace, TraceFlags, ROOT_CONTEXT } from "@opentelemetry/api";

installContextManager();
const EPOCH = 1_700_000_000_000;
const jr = (x: any) => JSON.parse(JSON.stringify(x));

function spanCtx(r: Rng) {
  return { traceId: r.hex(31) + "1", spanId: r.hex(15) + "1", traceFlags: TraceFlags.SAMPLED };
}
function payload(r: Rng, n: number): any {
  const d: any = { name: r.bool(0.7) ? `score-${n}` : r.text(20) + n };
  d.value = r.weighted<() => any>([[3, () => r.int(-5, 5)], [1, () => 0], [1, () => r.float() * 100], [2, () => r.text(10)], [0.5, () => ""], [0.5, () => 1e-9]])();
  if (r.bool(0.4)) d.dataType = r.pick(["NUMERIC", "CATEGORICAL", "BOOLEAN", "TEXT", "CORRECTION"]);
  if (r.bool(0.3)) d.comment = r.text(30);
  if (r.bool(0.3)) d.configId = r.plain();
  if (r.bool(0.3)) d.metadata = r.bool(0.02) ? { big: "x".repeat(r.pick([9_000, 60_000, 300_000])) } : r.json(3);
  if (r.bool(0.3)) d.id = r.weighted<any>([[8, `own-${n}-${r.text(5)}`], [1, "shared-id"], [0.5, ""]]);
  if (r.bool(0.3)) d.environment = r.pick(["prod", "staging", "dev-1", "dev-2", ""]);
  if (r.bool(0.2)) d.queueId = r.plain();
  return d;
}

async function run(r: Rng, o: Obs, big: boolean) {
  const flushAt = r.pick([undefined, "1", "2", "3", "7", "10", "25", "100", "101", "250"]);
  const interval = r.pick([undefined, "1", "0.5", "3", "10"]);
  const envDefault = r.pick([undefined, "envdefault", "e2"]);
  setEnv({ LANGFUSE_FLUSH_AT: flushAt, LANGFUSE_FLUSH_INTERVAL: interval, LANGFUSE_TRACING_ENVIRONMENT: envDefault });
  const at = Number(flushAt ?? 10), iv = Number(interval ?? 1) * 1000;
  const client = new LangfuseClient(KEYS);
  const latency = r.pick([0, 0, 0, 20, 4000]);
  sim.onFetch = () => ({ status: 207, body: { successes: [], errors: [] }, delay: latency });
  const exp: { n: number; body: any; t: number; kind: string }[] = [];
  let n = 0;
  let sizeTriggers = 0;
  let reused: any;
  let queued = 0; // reference: scores not yet sent
  const one = async () => {
    // callers also reuse one object for several scores, freeze it, or change it afterwards
    const d = reused && !Object.isFrozen(reused) && r.bool(0.15) ? reused : payload(r, n++);
    n++;
    const frozen = r.bool(0.2), reuse = r.bool(0.2);
    const before = jr(d);
    const kind = r.weighted<string>([[4, "create"], [2, "observation"], [2, "trace"], [2, "activeObservation"], [2, "activeTrace"], [0.7, "activeObservation-none"], [0.7, "activeTrace-none"]]);
    const sc = spanCtx(r);
    const span = trace.wrapSpanContext(sc);
    const ctx = trace.setSpan(ROOT_CONTEXT, span);
    let body: any = { ...before };
    const outer = spanCtx(r);
    const go = async (f: () => void) => {
      if (r.bool(0.5)) f();
      else await context.with(r.bool(0.5) ? ROOT_CONTEXT : trace.setSpan(ROOT_CONTEXT, trace.wrapSpanContext(outer)), async () => f());
    };
    let sent = true;
    const given = (x: any) => (frozen ? Object.freeze(x) : x);
    if (kind === "create") {
      if (r.bool(0.5)) d.traceId = body.traceId = r.hex(32);
      if (r.bool(0.3)) d.observationId = body.observationId = r.hex(16);
      if (r.bool(0.2)) d.sessionId = body.sessionId = r.text(10);
      if (r.bool(0.2)) d.datasetRunId = body.datasetRunId = r.plain();
      await go(() => client.score.create(given(d)));
    } else if (kind === "observation") { await go(() => client.score.observation({ otelSpan: span }, given(d))); body.traceId = sc.traceId; body.observationId = sc.spanId; }
    else if (kind === "trace") { await go(() => client.score.trace({ otelSpan: span }, given(d))); body.traceId = sc.traceId; }
    else if (kind === "activeObservation") { await context.with(ctx, async () => { if (r.bool()) await null; client.score.activeObservation(given(d)); }); body.traceId = sc.traceId; body.observationId = sc.spanId; }
    else if (kind === "activeTrace") { await context.with(ctx, async () => { if (r.bool()) await null; client.score.activeTrace(given(d)); }); body.traceId = sc.traceId; }
    else if (kind === "activeObservation-none") { context.with(ROOT_CONTEXT, () => client.score.activeObservation(d)); sent = false; }
    else { context.with(ROOT_CONTEXT, () => client.score.activeTrace(d)); sent = false; }
    o.count("via-" + kind);
    if (d === reused) o.count("reused-objects");
    o.equal(jr(d), d === reused || kind === "create" ? jr({ ...before, ...(kind === "create" ? { traceId: d.traceId, observationId: d.observationId, sessionId: d.sessionId, datasetRunId: d.datasetRunId } : {}) }) : before, "argument-changed", "the caller's object after the call");
    if (!Object.isFrozen(d)) { if (reuse) reused = d; else if (d !== reused && r.bool(0.2)) { d.name = "changed later"; d.comment = "changed later"; delete d.value; } }
    if (!sent) return;
    exp.push({ n: exp.length, body: jr(body), t: sim.now, kind });
    o.count("scores");
  };
  const sentCount = () => sim.fetches.filter(isIngestion).reduce((a, q) => a + (q.json?.batch?.length ?? 0), 0);
  const steps = r.int(3, 20);
  for (let i = 0; i < steps; i++) {
    const k = r.int(0, 3);
    const m = big && r.bool(0.3) ? r.int(50, 350) : k === 0 ? r.int(2, 30) : 1;
    for (let j = 0; j < m; j++) {
      await one();
      const pendingBefore = exp.length - queued;
      if (pendingBefore >= at) {
        // the configured flush size is reached: everything leaves without the clock moving
        await sim.settle();
        o.equal(sentCount(), exp.length, "size-trigger", `${pendingBefore} scores queued with flush size ${at}: scores sent`);
        sizeTriggers++;
        queued = exp.length;
      }
    }
    if (r.bool(0.6)) await sim.advance(r.pick([1, 100, 499, 999, 1500, 5000]));
    queued = Math.max(queued, sentCount());
    // no score older than the interval is unsent
    const sent = sentCount();
    for (let x = sent; x < exp.length; x++) o.check(exp[x].t + iv > sim.now, "interval", () => `score #${x} created at t=${exp[x].t} is still unsent at t=${sim.now} with interval ${iv} ms`);
    if (r.bool(0.1)) { void client.flush(); await sim.settle(); queued = exp.length; }
  }
  await sim.advance(iv + 1);
  // ---- oracle --------------------------------------------------------------------------------
  const reqs = sim.fetches.filter(isIngestion);
  const events: any[] = [];
  for (const q of reqs) {
    o.check(Array.isArray(q.json?.batch) && q.json.batch.length >= 1 && q.json.batch.length <= 100, "batch-size", () => `request with ${q.json?.batch?.length} events`);
    for (const e of q.json.batch) events.push({ e, q });
  }
  o.equal(events.length, exp.length, "count", "number of events sent without explicit flush");
  const ids = new Set<string>(), bodyIds = new Set<string>();
  events.forEach(({ e, q }, i) => {
    const x = exp[i];
    o.equal(e.type, "score-create", "type");
    o.check(typeof e.id === "string" && e.id.length > 0 && !ids.has(e.id), "event-id", () => `event id ${show(e.id)} missing or repeated`);
    ids.add(e.id);
    o.equal(Date.parse(e.timestamp), EPOCH + Math.floor(x.t), "timestamp", "event timestamp");
    const b = { ...e.body };
    if (x.body.id !== undefined) o.equal(b.id, x.body.id, "score-id", "caller's score id");
    else {
      o.check(typeof b.id === "string" && b.id.length > 0 && !bodyIds.has(b.id), "score-id", () => `generated id ${show(b.id)} missing or repeated`);
      bodyIds.add(b.id);
      delete b.id;
    }
    const want = { ...x.body };
    if (want.environment === undefined && envDefault !== undefined) want.environment = envDefault;
    o.equal(b, want, "body", `score #${i} via ${x.kind}:`);
    o.check(q.t <= x.t + iv, "interval", () => `score #${i} created at ${x.t} left at ${q.t}, interval ${iv}`);
  });
  o.count("requests", reqs.length);
  o.count("size-triggers", sizeTriggers);
  o.count("full-batches", reqs.filter((q) => q.json.batch.length === 100).length);
  o.note = { flushAt, interval, envDefault, latency, scores: exp.length, batches: reqs.map((q) => q.json.batch.length).slice(0, 30) };
  if (exp.length) o.seen(show(o.note));
}

defineCheck("C02", {
  rule: "A case is a random sequence of scores (all creation variants, random payloads, random active-span contexts) with clock steps and no explicit flush except occasionally; distinct by configuration and the resulting batch sizes.",
  required: ["scores", "requests", "size-triggers", "full-batches", "via-activeObservation", "via-activeTrace-none"],
}, [
  { name: "mixed", quick: 500, run: (r, o) => run(r, o, false) },
  { name: "bursts", quick: 60, run: (r, o) => run(r, o, true) },
]);
