import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, installContextManager, RecExporter, KEYS, idOf, parentOf } from "../lib/env";
import { trace, context, ROOT_CONTEXT, TraceFlags } from "@opentelemetry/api";
import { BasicTracerProvider, SimpleSpanProcessor } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { createTraceId, startObservation, startActiveObservation, observe, getActiveTraceId, getActiveSpanId, setLangfuseTracerProvider, getLangfuseTracerProvider, getLangfuseTracer } from "@langfuse/tracing";
import { createHash } from "node:crypto";

const HEX32 = /^[0-9a-f]{32}$/;
const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"] as const;
const ms = (h: [number, number]) => h[0] * 1000 + h[1] / 1e6;

async function seeds(r: Rng, o: Obs) {
  setEnv({});
  const seen = new Map<string, string>(), random = new Set<string>();
  const gen = () => r.weighted<() => string>([
    [3, () => r.text(20)], [2, () => r.plain()], [1, () => r.plain(200, 5000)], [1, () => "session-" + r.int(0, 50)], [1, () => r.pick(["é", "e\u0301", "漢字", "😀", "\u0000", " ", "  ", "0", "false", "null", "undefined", "a", "A", "a ", " a"])],
    [1, () => r.hex(32)], [1, () => "\ud800" + r.plain(0, 3)], [1, () => r.list(r.int(1, 40), () => r.pick(["漢", "😀", "ß"])).join("")],
  ])();
  const list = r.list(r.int(1, 30), gen);
  const jobs = list.map((s) => createTraceId(s));
  const d = await sim.drive(Promise.all(jobs));
  o.check(d.status === "fulfilled", "trace-id", () => show(d));
  (d as any).value.forEach((id: any, i: number) => {
    const s = list[i];
    if (!s) { o.check(typeof id === "string" && HEX32.test(id) && !/^0+$/.test(id), "random-id", () => show(id)); o.check(!random.has(id), "random-id", () => `repeated ${id}`); random.add(id); return; }
    const want = createHash("sha256").update(new TextEncoder().encode(s)).digest("hex").slice(0, 32);
    o.equal(id, want, "seeded-id", `seed ${show(s)}`);
    if (seen.has(id)) o.equal(new TextDecoder().decode(new TextEncoder().encode(seen.get(id)!)), new TextDecoder().decode(new TextEncoder().encode(s)), "seeded-id", "two seeds with one id");
    seen.set(id, s);
  });
  for (let k = 0; k < 20; k++) {
    const x: any = await sim.drive(r.bool() ? createTraceId() : createTraceId(r.pick<any>([undefined, ""])));
    o.check(HEX32.test(x.value) && !/^0+$/.test(x.value) && !random.has(x.value) && !seen.has(x.value), "random-id", () => show(x));
    random.add(x.value);
  }
  o.count("seeds", list.length);
  o.seen("s" + list.map((x) => x.length).join(","));
}

async function trees(r: Rng, o: Obs) {
  setEnv({});
  const { provider } = makeTracing({ mediaUploadEnabled: false });
  let budget = r.int(3, 40), n = 0;
  const shape: string[] = [];
  const checkSpan = (span: any, want: { traceId?: string; parent?: string; start?: Date; before: number; notTrace?: Set<string> }, what: string) => {
    const sc = span.spanContext();
    o.check(HEX32.test(sc.traceId) && /^[0-9a-f]{16}$/.test(sc.spanId), "valid-id", () => show(sc));
    if (want.traceId) o.equal(sc.traceId, want.traceId, "trace-id", what);
    o.equal(parentOf(span), want.parent, "parent", what);
    const t = ms(span.startTime);
    if (want.start) o.check(Math.abs(t - want.start.getTime()) < 0.01, "start-time", () => `${what}: asked for ${want.start!.getTime()}, got ${t}`);
    else o.check(t >= want.before - 2 && t <= Date.now() + 2, "start-time", () => `${what}: started at ${t}, called at ${want.before}`);
    if (span.instrumentationScope) o.equal(span.instrumentationScope.name, "langfuse-sdk", "tracer-scope");
  };
  type P = { traceId: string; spanId: string } | undefined;
  const made: any[] = [];
  const active = (p: P) => { o.equal(getActiveTraceId(), p?.traceId, "active-trace-id"); o.equal(getActiveSpanId(), p?.spanId, "active-span-id"); };
  const opts = async (cur: P) => {
    const start = r.bool(0.3) ? new Date(Date.now() + r.pick([-86400000, -5000, -1, 0, 1000]) ) : undefined;
    const parent = r.bool(0.35) ? (made.length && r.bool(0.5) ? r.pick(made).spanContext() : { traceId: r.bool(0.5) ? await createTraceId("s" + r.int(0, 9)) : r.hex(32), spanId: r.hex(15) + "1", traceFlags: TraceFlags.SAMPLED, ...(r.bool() ? { isRemote: true } : {}) }) : undefined;
    return { start, parent, want: { traceId: parent?.traceId ?? cur?.traceId, parent: parent?.spanId ?? cur?.spanId, before: Date.now() } as any };
  };
  const body = async (cur: P, depth: number): Promise<void> => {
    for (let k = r.int(1, 5); k > 0 && budget > 0; k--) {
      budget--;
      active(cur);
      const op = r.weighted<string>([[3, "start"], [3, "active"], [2, "observe"], [2, "child"], [1, "hop"], [1, "par"], [1, "remote"], [1, "root"]]);
      const asType = r.pick(TYPES), name = "n" + n++;
      const { start, parent, want } = await opts(cur);
      shape.push(op[0] + (parent ? "p" : "") + (start ? "t" : ""));
      if (op === "start") {
        const ob: any = startObservation(name, {}, { asType, startTime: start, parentSpanContext: parent } as any);
        checkSpan(ob.otelSpan, { ...want, start }, `startObservation ${asType}`);
        o.equal([ob.id, ob.traceId], [idOf(ob.otelSpan), ob.otelSpan.spanContext().traceId], "observation-ids");
        made.push(ob.otelSpan);
        // an event is a point in time: it ends when it starts
        if (asType === "event" && start) { o.check(Math.abs(ms(ob.otelSpan.endTime) - start.getTime()) < 0.01, "event-time", () => `event at ${start.getTime()} ended at ${ms(ob.otelSpan.endTime)}`); o.count("timed-events"); }
        active(cur);
        let p: any = ob;
        for (let c = r.int(0, 3); c > 0; c--) {
          const before = Date.now();
          const kid: any = p.startObservation("kid" + n++, {}, { asType: r.pick(TYPES) } as any);
          checkSpan(kid.otelSpan, { traceId: ob.traceId, parent: p.id, before }, "child");
          made.push(kid.otelSpan);
          if (r.bool()) await new Promise((x) => setTimeout(x, r.int(1, 20)));
          if (r.bool(0.7)) p = kid;
        }
        if (r.bool()) ob.end();
      } else if (op === "child" && made.length) {
        const p = r.pick(made);
        const before = Date.now();
        const ob: any = startObservation(name, {}, { parentSpanContext: p.spanContext() });
        checkSpan(ob.otelSpan, { traceId: p.spanContext().traceId, parent: idOf(p), before }, "explicit parent");
        made.push(ob.otelSpan);
      } else if (op === "active" && depth < 6) {
        const bodyRun = async (ob: any) => {
          checkSpan(ob.otelSpan, { ...want, start }, `startActiveObservation ${asType}`);
          made.push(ob.otelSpan);
          o.equal([ob.id, ob.traceId], [idOf(ob.otelSpan), ob.otelSpan.spanContext().traceId], "observation-ids");
          await body({ traceId: ob.traceId, spanId: ob.id }, depth + 1);
        };
        want.before = Date.now();
        await startActiveObservation(name, bodyRun as any, { asType, startTime: start, parentSpanContext: parent } as any);
      } else if (op === "observe" && depth < 6) {
        const f = observe(async () => {
          const sp: any = trace.getActiveSpan();
          checkSpan(sp, want, `observe ${asType}`);
          made.push(sp);
          await body({ traceId: sp.spanContext().traceId, spanId: idOf(sp) }, depth + 1);
        }, { name, asType, parentSpanContext: parent } as any);
        if (r.bool(0.3)) await new Promise((x) => setTimeout(x, 5));
        want.before = Date.now();
        await f();
        if (r.bool(0.3)) { want.before = Date.now(); await f(); }
      } else if (op === "hop") await new Promise((x) => setTimeout(x, r.int(1, 30)));
      else if (op === "par" && depth < 4) await Promise.all(r.list(2, () => body(cur, depth + 1)));
      else if (op === "remote" && depth < 6) {
        const sc = { traceId: await createTraceId("r" + r.int(0, 5)), spanId: r.hex(15) + "2", traceFlags: TraceFlags.SAMPLED, isRemote: true };
        await context.with(trace.setSpanContext(context.active(), sc), () => body(sc, depth + 1));
      } else if (op === "root" && depth < 6) await context.with(ROOT_CONTEXT, () => body(undefined, depth + 1));
    }
  };
  const d = await sim.drive(body(undefined, 0));
  if (d.status === "rejected") throw d.reason;
  o.equal(d.status, "fulfilled", "completes");
  active(undefined);
  // roots never share a trace unless asked to
  o.count("spans", made.length);
  const ids = new Set(made.map(idOf));
  o.equal(ids.size, new Set(made).size, "unique-span-ids");
  if (made.length > 1) o.seen(shape.join(""));
}

let globalExporter: RecExporter | undefined;
async function providers(r: Rng, o: Obs) {
  setEnv({});
  installContextManager();
  if (!globalExporter) { globalExporter = new RecExporter(); trace.setGlobalTracerProvider(new BasicTracerProvider({ spanProcessors: [new SimpleSpanProcessor(globalExporter as any)] })); }
  globalExporter.spans.length = 0;
  setLangfuseTracerProvider(null);
  const iso = r.list(2, () => { const e = new RecExporter(); return { e, p: new BasicTracerProvider({ spanProcessors: [new LangfuseSpanProcessor({ ...KEYS, exportMode: "immediate", exporter: e as any, mediaUploadEnabled: false, shouldExportSpan: () => true })] }) }; });
  let cur = -1, n = 0;
  const shape: string[] = [];
  const want = new Map<string, number>(); // span id -> destination (-1 global)
  const step = async (depth: number): Promise<void> => {
    for (let k = r.int(2, 8); k > 0; k--) {
      const op = r.pick(["sdk", "sdk", "foreign", "switch", "active", "observe", "fa"]);
      shape.push(op[0] + op[1]);
      if (op === "switch") { cur = r.int(-1, 1); setLangfuseTracerProvider(cur < 0 ? null : iso[cur].p); if (cur >= 0) o.check(getLangfuseTracerProvider() === iso[cur].p, "provider-getter"); else o.check(getLangfuseTracerProvider() === trace.getTracerProvider(), "provider-getter"); }
      else if (op === "sdk") {
        const at = cur, a = trace.getActiveSpan()?.spanContext();
        const ob: any = r.bool(0.7) ? startObservation("s" + n++, {}, { asType: r.pick(TYPES) } as any) : { otelSpan: getLangfuseTracer().startSpan("s" + n++), end() { this.otelSpan.end(); } };
        want.set(idOf(ob.otelSpan), at);
        if (a) o.equal([parentOf(ob.otelSpan), ob.otelSpan.spanContext().traceId], [a.spanId, a.traceId], "context-shared");
        ob.end();
      } else if (op === "foreign") { const s: any = trace.getTracer("other").startSpan("f" + n++); want.set(idOf(s), -1); s.end(); }
      else if (op === "fa" && depth < 4) await trace.getTracer("other").startActiveSpan("fa" + n++, async (s: any) => { want.set(idOf(s), -1); await step(depth + 1); s.end(); });
      else if (op === "active" && depth < 4) { const at = cur; await startActiveObservation("a" + n++, async (ob: any) => { want.set(ob.id, at); await step(depth + 1); }); }
      else if (op === "observe" && depth < 4) { const at = cur; await observe(async () => { want.set(getActiveSpanId()!, at); await step(depth + 1); }, { name: "o" + n++ })(); }
    }
  };
  const d = await sim.drive(step(0));
  if (d.status === "rejected") throw d.reason;
  for (const x of iso) await sim.drive(x.p.forceFlush());
  await sim.drain(10_000);
  const got = new Map<string, number[]>();
  const add = (e: RecExporter, at: number) => e.spans.forEach((s) => got.set(idOf(s.span), [...(got.get(idOf(s.span)) ?? []), at]));
  add(globalExporter, -1); iso.forEach((x, i) => add(x.e, i));
  for (const [id, at] of want) o.equal(got.get(id), [at], "destination", `span ${id}`);
  o.equal(got.size, want.size, "destination", "number of spans");
  setLangfuseTracerProvider(null);
  o.count("provider-spans", want.size);
  if (want.size > 1) o.seen(shape.join(""));
}

/** The sampling decision of a given parent holds for what is recorded under it. */
async function unsampled(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const parent = { traceId: r.hex(31) + "1", spanId: r.hex(15) + "1", traceFlags: r.bool(0.7) ? TraceFlags.NONE : TraceFlags.SAMPLED, ...(r.bool() ? { isRemote: true } : {}) };
  const judge = (id: { traceId: string; spanId: string; traceFlags: number }, how: string) => { o.equal([id.traceId, id.traceFlags], [parent.traceId, parent.traceFlags], "sampling", `${how} under a parent with flags ${parent.traceFlags}:`); o.check(/^[0-9a-f]{16}$/.test(id.spanId) && id.spanId !== parent.spanId, "valid-id", () => show(id)); };
  const kinds = r.list(r.int(1, 4), () => r.pick(["start", "active", "observe"])), asType = r.pick(TYPES);
  let spans = 0;
  for (const k of kinds) {
    const kid = (ob: any) => { const c = ob.startObservation("kid"); judge(c.otelSpan.spanContext(), "child"); c.end(); spans += 2; };
    if (k === "start") { const ob: any = startObservation("s", { input: "x" }, { asType, parentSpanContext: parent } as any); judge(ob.otelSpan.spanContext(), k); kid(ob); ob.end(); }
    else if (k === "active") await sim.drive(startActiveObservation("a", async (ob: any) => { judge(ob.otelSpan.spanContext(), k); await new Promise((x) => setTimeout(x, 3)); o.equal(getActiveTraceId(), parent.traceId, "active-trace-id"); kid(ob); }, { asType, parentSpanContext: parent } as any) as any);
    else await sim.drive(observe(async () => { const sp: any = trace.getActiveSpan(); judge(sp.spanContext(), k); await new Promise((x) => setTimeout(x, 3)); kid(startObservation("in")); }, { name: "o", asType, parentSpanContext: parent } as any)());
  }
  await sim.drive(processor.forceFlush());
  if (!parent.traceFlags) { o.equal(exporter.spans.length, 0, "sampling", "spans exported although the caller decided not to sample the trace:"); o.count("unsampled", spans); }
  else o.check(exporter.spans.length >= spans / 2, "sampling", () => `${exporter.spans.length} spans exported of ${spans}`);
  o.seen(kinds.join("") + asType + parent.traceFlags);
}

defineCheck("C31", {
  rule: "a case is non-trivial when at least two ids or spans were created; distinct by program shape",
  assumptions: ["SHA-256 of the UTF-8 seed is the reference for seeded ids"],
  required: ["timed-events", "seeds", "spans", "provider-spans", "unsampled"],
}, [
  { name: "seeds", quick: 120, run: seeds },
  { name: "trees", quick: 700, run: trees },
  { name: "providers", quick: 300, run: providers },
  { name: "unsampled", quick: 100, run: unsampled },
]);
