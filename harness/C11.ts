import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf } from "../lib/env";
import { trace, context } from "@opentelemetry/api";
import { startObservation, startActiveObservation, observe } from "@langfuse/tracing";
import { propagateAttributes } from "@langfuse/core";

type Ctx = { userId?: string; sessionId?: string; version?: string; traceName?: string; environment?: string; tags?: string[]; metadata?: Record<string, string>; prompt?: { name: string; version: number } };
type Rec = { span: any; expect: Record<string, any>; ended: boolean; note: string };
const KEY: Record<string, string> = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
const PROPAGATED = /^(user\.id|session\.id|langfuse\.version|langfuse\.trace\.name|langfuse\.environment|langfuse\.trace\.tags|langfuse\.trace\.metadata(\..*)?|langfuse\.observation\.prompt\.(name|version)|langfuse\.experiment\..*)$/;

const attrsOf = (c: Ctx): Record<string, any> => {
  const a: Record<string, any> = {};
  for (const k of Object.keys(KEY)) if ((c as any)[k] !== undefined) a[KEY[k]] = (c as any)[k];
  if (c.tags) a["langfuse.trace.tags"] = c.tags;
  for (const [k, v] of Object.entries(c.metadata ?? {})) a["langfuse.trace.metadata." + k] = v;
  if (c.prompt) { a["langfuse.observation.prompt.name"] = c.prompt.name; a["langfuse.observation.prompt.version"] = c.prompt.version; }
  return a;
};
const enter = (c: Ctx, p: Ctx): Ctx => {
  const n: Ctx = { ...c };
  for (const k of ["userId", "sessionId", "version", "traceName", "environment", "prompt"] as const) if ((p as any)[k] !== undefined) (n as any)[k] = (p as any)[k];
  if (p.tags?.length) n.tags = [...new Set([...(c.tags ?? []), ...p.tags])];
  if (p.metadata && Object.keys(p.metadata).length) n.metadata = { ...c.metadata, ...p.metadata };
  return n;
};

async function run(r: Rng, o: Obs, big: boolean) {
  setEnv({});
  const defaultEnv = r.pick([undefined, "default-env"]);
  const { exporter, processor, provider } = makeTracing({ environment: defaultEnv, exportMode: r.pick(["immediate", "batched"]), shouldExportSpan: () => true });
  const recs: Rec[] = [];
  let scopes = 0, conc = 0, uid = 0, budget = big ? 120 : 40;
  const shape: string[] = [];
  const params = (): Ctx & { asBaggage?: boolean } => {
    const p: any = {};
    const v = (k: string) => (r.pick([`${k}-${uid++}`, `${uid++}`, `${uid++}`.padEnd(r.pick([5, 40, 200]), "z")]) + (r.bool(0.2) ? r.text(5).replace(/[^\x20-\x7e]|,/g, "é") : "")).slice(0, 200);
    for (const k of ["userId", "sessionId", "version", "traceName"]) if (r.bool(0.35)) p[k] = v(k);
    if (r.bool(0.3)) p.environment = r.pick(["staging", "prod", "dev_1", "x-y", "e" + uid++]);
    if (r.bool(0.4)) p.tags = r.list(r.int(1, 3), (i) => r.bool(0.4) ? r.pick(["shared", "common"]) + i : "t" + uid++);
    if (r.bool(0.4)) p.metadata = Object.fromEntries(r.list(r.int(1, 3), (i) => [r.pick(["a", "b", "c", "d.e", "k_" + i]), r.pick(["m" + uid++, String(uid++), "", "m".repeat(r.int(1, 200)), "0", "false"])]));
    if (r.bool(0.01)) p.tags = r.list(r.int(40, 150), () => "many" + uid++);
    if (r.bool(0.01)) p.metadata = Object.fromEntries(r.list(r.int(40, 66), (i) => ["key" + i, "v" + uid++]));
    if (r.bool(0.2)) p.prompt = { name: "p" + uid++, version: r.int(0, 50) };
    if (r.bool(0.2)) p.asBaggage = true;
    return p;
  };
  const remote = () => ({ traceId: "ab" + String(++uid).padStart(30, "1"), spanId: "cd" + String(uid).padStart(14, "2"), traceFlags: 1 });
  const begin = (c: Ctx, active: Rec | undefined, how: string): Rec => {
    const expect = { ...(defaultEnv ? { "langfuse.environment": defaultEnv } : {}), ...attrsOf(c) };
    let span: any;
    if (how === "sdk") span = startObservation("s" + recs.length).otelSpan;
    else if (how === "sdk-prompt") { span = startObservation("s" + recs.length, { prompt: { name: "explicit", version: 7, isFallback: false } as any }, { asType: "generation" }).otelSpan; expect["langfuse.observation.prompt.name"] = "explicit"; expect["langfuse.observation.prompt.version"] = 7; }
    else if (how === "remote") { const ctx = remote(); span = startObservation("s" + recs.length, {}, { parentSpanContext: ctx }).otelSpan; o.equal(span.spanContext().traceId, ctx.traceId, "parent-ignored"); o.count("explicit-parents"); }
    else if (how === "gen") span = startObservation("s" + recs.length, { input: 1 }, { asType: "generation" }).otelSpan;
    else span = provider.getTracer(r.pick(["http", "openinference.x", "my-app"])).startSpan("s" + recs.length);
    const rec = { span, expect, ended: false, note: shape.slice(-12).join("") };
    recs.push(rec);
    o.count("spans");
    return rec;
  };
  const finish = (x: Rec) => { if (!x.ended) { x.ended = true; x.span.end(); } };
  const hop = async () => {
    const k = r.pick(["timer", "micro", "immediate", "none", "tick", "qm"]);
    if (k === "timer") await new Promise((x) => setTimeout(x, r.int(1, 30)));
    else if (k === "micro") await Promise.resolve();
    else if (k === "immediate") await new Promise((x) => setImmediate(x));
    else if (k === "tick") await new Promise((x) => process.nextTick(x));
    else if (k === "qm") await new Promise<void>((x) => queueMicrotask(x));
  };
  const body = async (c: Ctx, active: Rec | undefined, depth: number): Promise<void> => {
    for (let n = r.int(1, 4); n > 0 && budget > 0; n--) {
      budget--;
      const k = r.weighted<string>([[4, "span"], [depth > 5 ? 0 : 4, "scope"], [depth > 5 ? 0 : 3, "active"], [3, "hop"], [depth > 4 ? 0 : 1.5, "par"], [depth > 5 ? 0 : 1, "sync"], [0.7, "observe"], [0.5, "cb"]]);
      shape.push(k[0]);
      if (k === "span") { const s = begin(c, active, r.pick(["sdk", "gen", "otel", "sdk-prompt", "remote"])); if (r.bool(0.5)) await hop(); finish(s); }
      else if (k === "hop") await hop();
      else if (k === "scope" || k === "sync") {
        const p = params(); const inner = enter(c, p); scopes++;
        const token = r.pick<any>([{}, 5, null, undefined, "x"]);
        const fails = r.bool(0.15); const err = r.pick<any>([new Error("e"), "str", undefined, { a: 1 }]);
        const wasActive = active && !active.ended ? active : undefined;
        if (wasActive) {
          // documented: the span that is active when the scope is entered receives the scope's attributes too
          const given: Ctx = {};
          for (const key of ["userId", "sessionId", "version", "traceName", "environment", "prompt"] as const) if ((p as any)[key] !== undefined) (given as any)[key] = (p as any)[key];
          if (p.tags?.length) given.tags = inner.tags; if (p.metadata) given.metadata = inner.metadata;
          Object.assign(wasActive.expect, attrsOf(given));
        }
        let out: any, threw = false; const asGiven = JSON.stringify(p);
        try {
          if (k === "sync") out = propagateAttributes(p as any, () => { const s = begin(inner, active, "otel"); finish(s); if (fails) throw err; return token; });
          else {
            let given: any;
            const res: any = propagateAttributes(p as any, () => (given = (async () => { await body(inner, active, depth + 1); if (fails) throw err; return token; })()));
            o.check(res === given, "result-changed", () => "the promise the callback returned was replaced by another");
            out = await res;
          }
          o.equal(JSON.stringify(p), asGiven, "params-mutated");
        } catch (e) { threw = true; o.check(fails && e === err, "error-changed", () => `callback failed with ${show(err)}, scope gave ${show(e)}`); }
        if (!threw) o.check(!fails && out === token, "result-changed", () => show(out));
        // leaving the scope restores the enclosing one
        const s = begin(c, active, "sdk"); finish(s);
      } else if (k === "active") {
        await startActiveObservation("a", async (ob: any) => {
          const rec: Rec = { span: ob.otelSpan, expect: { ...(defaultEnv ? { "langfuse.environment": defaultEnv } : {}), ...attrsOf(c) }, ended: false, note: shape.slice(-12).join("") };
          recs.push(rec); o.count("spans");
          await body(c, rec, depth + 1);
          rec.ended = true;
        }, r.bool(0.15) ? { parentSpanContext: remote() } : undefined);
      } else if (k === "observe") {
        const f = observe(async () => { const s = begin(c, undefined, "otel"); await hop(); finish(s); }, r.bool(0.2) ? { name: "ob", parentSpanContext: remote() } : { name: "ob" });
        await f();
      } else if (k === "cb") {
        await new Promise<void>((res) => { setTimeout(() => { const s = begin(c, active, "sdk"); finish(s); res(); }, 3); });
      } else {
        conc++;
        await Promise.all(r.list(r.int(2, 3), () => body(c, active, depth + 1)));
      }
    }
  };
  const all = Promise.all(r.list(r.int(1, 3), () => body({}, undefined, 0)));
  const d = await sim.drive(all);
  if (d.status === "rejected") throw d.reason;
  o.check(d.status === "fulfilled", "never-settles", () => "program did not finish");
  await sim.drive(processor.forceFlush());
  await sim.drain(60_000);
  for (const rec of recs) {
    const e = exporter.spans.find((x) => idOf(x.span) === idOf(rec.span));
    o.check(e, "lost", () => "span not exported");
    const got: Record<string, any> = {};
    for (const [k, v] of Object.entries(e!.attributes)) if (PROPAGATED.test(k) && v !== undefined) got[k] = v;
    const missing = Object.keys(rec.expect).filter((k) => !deepEqual(norm(k, got[k]), norm(k, rec.expect[k])));
    const extra = Object.keys(got).filter((k) => !(k in rec.expect));
    // concurrent branches under the same active span may enter scopes in any order: then its single values depend on the order
    o.check(missing.length === 0, "missing", () => `span ${rec.span.name} (${rec.note}): ${missing.map((k) => `${k}: expected ${show(rec.expect[k])} got ${show(got[k])}`).join("; ")}`);
    o.check(extra.length === 0, "leaked", () => `span ${rec.span.name} carries ${extra.map((k) => `${k}=${show(got[k])}`).join("; ")} of another scope`);
    if (Object.keys(rec.expect).length > (defaultEnv ? 1 : 0)) o.count("spans-with-attributes");
  }
  o.count("scopes", scopes); o.count("concurrent-blocks", conc);
  o.note = { shape: shape.join(""), spans: recs.length };
  if (scopes) o.seen(shape.join("") + "/" + recs.map((x) => Object.keys(x.expect).length).join(""));
}
const norm = (k: string, v: any) => (k === "langfuse.trace.tags" && Array.isArray(v) ? [...v].sort() : v);

defineCheck("C11", {
  rule: "A case is a random asynchronous program of nested and concurrent propagation scopes, active observations, spans of several instrumentation scopes and hops over timers, microtasks and immediates; an interpreter carries the expected attributes along the program's own structure. Distinct by operation string and attribute counts.",
  required: ["spans", "scopes", "spans-with-attributes", "concurrent-blocks", "explicit-parents"],
  assumptions: ["the application runs an OpenTelemetry context manager", "the span that is active when a scope is entered also receives the scope's attributes (documented)"],
}, [
  { name: "programs", quick: 700, run: (r, o) => run(r, o, false) },
  { name: "big", quick: 60, run: (r, o) => run(r, o, true) },
]);
