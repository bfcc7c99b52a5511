import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, parentOf } from "../lib/env";
import { trace, context, SpanStatusCode } from "@opentelemetry/api";
import { startObservation } from "@langfuse/tracing";
import { isDefaultExportSpan, isGenAISpan, isKnownLLMInstrumentor, isLangfuseSpan } from "@langfuse/otel";

// Written down from the documentation of the default filter, not imported from the code under test.
const KNOWN = ["langfuse-sdk", "agent_framework", "haystack", "langsmith", "litellm", "openinference",
  ...["anthropic", "aws_bedrock", "bedrock", "gemini", "google_genai", "google_generativeai", "openai", "openai_v2", "vertex_ai", "vertexai"].map((x) => "opentelemetry.instrumentation." + x),
  "strands-agents", "vllm"];
const knownScope = (scope: string) => scope === "ai" || KNOWN.some((k) => scope === k || scope.startsWith(k + "."));
const defaultKeeps = (scope: string, attrs: string[]) => knownScope(scope) || attrs.some((a) => a.startsWith("gen_ai."));

const scopeName = (r: Rng) => r.weighted<() => string>([
  [3, () => r.pick(KNOWN)], [2, () => "ai"], [1, () => "gen_ai"],
  [2, () => r.pick(KNOWN) + "." + r.plain()], [2, () => r.pick(KNOWN) + r.pick(["x", "-x", "_v2", "/x", ":", " "])],
  [1, () => r.pick(["ai.foo", "ai-sdk", "aix", "AI", "Ai", "openai", "ai."])], [1, () => r.pick(KNOWN).slice(0, -1)],
  [1, () => r.pick(["x", "@", "my."]) + r.pick(KNOWN)], [1, () => r.pick(KNOWN).toUpperCase()], [3, () => r.pick(["http", "express", "@opentelemetry/instrumentation-http", "my-app", "opentelemetry.instrumentation.redis", "opentelemetry.instrumentation"])],
])();
const attrName = (r: Rng) => r.weighted<() => string>([
  [2, () => "gen_ai." + r.plain()], [1, () => r.pick(["gen_ai.system", "gen_ai.request.model", "gen_ai."])],
  [2, () => r.pick(["gen_ai", "gen_aix.y", "Gen_ai.z", "x.gen_ai.y", "genai.x", "gen-ai.x", "ai.model.id", "llm.request", "langfuse.x"])],
  [4, () => "app." + r.plain()],
])();

async function run(r: Rng, o: Obs, custom: boolean) {
  setEnv({});
  const throwing = custom && r.bool(0.5);
  const style = r.pick(["name", "late-attr", "duration", "status", "scope", "parent", "composed"]);
  const seenEnded = new Map<string, number>();
  const verdict = (s: any): boolean => {
    if (style === "name") return !s.name.includes("drop");
    if (style === "late-attr") return s.attributes["late"] !== "drop";
    if (style === "duration") return s.duration[0] * 1000 + s.duration[1] / 1e6 >= 50;
    if (style === "status") return s.status.code !== SpanStatusCode.ERROR;
    if (style === "scope") return s.instrumentationScope.name !== "http" && !s.instrumentationScope.name.startsWith("ai");
    if (style === "composed") return defaultKeeps(s.instrumentationScope.name, Object.keys(s.attributes)) || s.name.includes("keep");
    return s.parentSpanContext === undefined;
  };
  const { exporter, processor, provider } = makeTracing({
    exportMode: r.pick(["immediate", "batched"]),
    environment: r.pick([undefined, "prod"]), release: r.pick([undefined, "r1"]),
    shouldExportSpan: custom ? ({ otelSpan }: any) => {
      if (otelSpan.ended) seenEnded.set(idOf(otelSpan), (seenEnded.get(idOf(otelSpan)) ?? 0) + 1);
      if (throwing && otelSpan.attributes["throw"]) throw r.pick([new Error("filter"), "text", undefined]);
      return style === "composed" ? isDefaultExportSpan(otelSpan) || otelSpan.name.includes("keep") : verdict(otelSpan);
    } : undefined,
  });
  type S = { span: any; parent?: S; name: string; scope: string; attrs: Record<string, any>; start: number; dur?: number; status?: number; throws: boolean };
  const all: S[] = [], open: S[] = [];
  const n = r.int(2, 25);
  const few = r.bool(0.4), fewScopes = r.list(r.int(1, 2), () => scopeName(r)); // many alike spans: same name and scope, different in what the filter looks at
  if (few) o.count("alike-spans");
  const steps: string[] = [];
  for (let i = 0; i < n * 3; i++) {
    const k = r.weighted<string>([[4, "start"], [3, "end"], [2, "attr"], [2, "step"], [1, "err"]]);
    if (k === "start" && all.length < n) {
      const scope = few ? r.pick(fewScopes) : scopeName(r);
      const name = `${r.pick(["keep", "drop"])}${few ? "" : "-" + all.length}`;
      const attrs: any = {};
      if (r.bool(0.1)) for (let j = r.int(10, 90); j > 0; j--) attrs["app.filler." + j] = j;
      for (let j = r.int(0, 2); j > 0; j--) attrs[attrName(r)] = r.pick<any>([r.plain(), r.int(0, 9), true, ["a", "b"], "", 0, false, [], "undefined"]);
      if (r.bool(0.3)) attrs["late"] = r.pick(["keep", "drop"]);
      const throws = throwing && r.bool(0.3);
      if (throws) attrs["throw"] = true;
      const parent = open.length && r.bool(0.7) ? r.pick(open) : undefined;
      let ctx = parent ? trace.setSpan(context.active(), parent.span) : undefined;
      const span = provider.getTracer(scope).startSpan(name, { attributes: { ...attrs }, root: !ctx, kind: r.pick([0, 0, 1, 2, 3, 4]) }, ctx ?? context.active());
      const s: S = { span, parent, name, scope, attrs, start: sim.now, throws };
      all.push(s); open.push(s);
    } else if (k === "end" && open.length) {
      const [s] = open.splice(r.int(0, open.length - 1), 1);
      s.dur = sim.now - s.start; s.span.end();
    } else if (k === "attr" && open.length) {
      const s = r.pick(open); const a = r.bool(0.4) ? "late" : attrName(r);
      const v = a === "late" ? r.pick(["keep", "drop"]) : r.pick([r.plain(), ""]);
      s.attrs[a] = v; s.span.setAttribute(a, v);
    } else if (k === "err" && open.length) { const s = r.pick(open); s.status = SpanStatusCode.ERROR; s.span.setStatus({ code: SpanStatusCode.ERROR, message: "x" }); }
    else if (k === "step") await sim.advance(r.pick([1, 10, 50, 100]));
    steps.push(k[0]);
  }
  while (open.length) { const s = open.pop()!; s.dur = sim.now - s.start; s.span.end(); }
  await sim.drive(processor.forceFlush());
  await sim.drain(60_000);
  let kept = 0, dropped = 0;
  for (const s of all) {
    const got = exporter.spans.filter((e) => idOf(e.span) === idOf(s.span));
    const expect = custom ? !s.throws && verdict(s.span) : defaultKeeps(s.scope, Object.keys(s.attrs));
    const what = () => `scope ${show(s.scope)} name ${s.name} attributes ${show(s.attrs)} (${custom ? "custom filter on " + style : "default filter"})`;
    if (expect) { kept++; o.check(got.length === 1, "wrongly-dropped", () => `span that must be exported was exported ${got.length} times: ${what()}`); }
    else { dropped++; o.check(got.length === 0, "wrongly-exported", () => `span that must be dropped was exported: ${what()}`); }
    if (custom) o.check((seenEnded.get(idOf(s.span)) ?? 0) >= 1, "filter-not-asked", () => `filter never called with the ended span ${what()}`);
    const keys = Object.keys(s.attrs); // the predicates offered for composing filters agree with the default filter
    o.equal({ d: isDefaultExportSpan(s.span), g: isGenAISpan(s.span), k: isKnownLLMInstrumentor(s.span), l: isLangfuseSpan(s.span) }, { d: defaultKeeps(s.scope, keys), g: keys.some((a) => a.startsWith("gen_ai.")), k: knownScope(s.scope), l: s.scope === "langfuse-sdk" }, "predicates", what());
    o.count("predicates");
    for (const e of got) {
      o.equal(parentOf(e.span), s.parent ? idOf(s.parent.span) : undefined, "parent-changed", s.name);
      o.equal(e.span.spanContext().traceId, s.parent ? s.parent.span.spanContext().traceId : s.span.spanContext().traceId, "trace-changed", s.name);
      for (const [k, v] of Object.entries(s.attrs)) o.check(deepEqual(e.attributes[k], v), "attribute-changed", () => `${k}: ${show(v)} became ${show(e.attributes[k])}`);
      for (const k of Object.keys(e.attributes)) o.check(k in s.attrs || /^langfuse\.(environment|release|internal\.is_app_root)$/.test(k), "attribute-added", () => `unexpected attribute ${k}`);
    }
  }
  o.check(exporter.spans.length <= all.length, "invented");
  o.count("kept", kept); o.count("dropped", dropped);
  if (all.some((s) => s.throws)) o.count("throwing-filters");
  o.note = { custom, style: custom ? style : "default", scopes: all.map((s) => s.scope).slice(0, 6), steps: steps.join("") };
  o.seen(`${custom ? style : "d"}/${all.map((s) => s.scope + ":" + Object.keys(s.attrs)).join(",")}/${steps.join("")}`);
}

async function exact(r: Rng, o: Obs, i: number) {
  // every known scope and its near misses, one span each, default filter
  setEnv({});
  const { exporter, processor, provider } = makeTracing({});
  const scopes = [...KNOWN, "ai", "gen_ai"].flatMap((k) => [k, k + ".sub", k + ".a.b", k + "x", k + "-x", "x" + k, k.toUpperCase(), k + ".", k.slice(0, -1), k.replace(/[._-]/g, "x")]);
  const spans = scopes.map((s) => ({ s, span: provider.getTracer(s).startSpan("s") }));
  for (const { span } of spans) span.end();
  await sim.drive(processor.forceFlush());
  for (const { s, span } of spans) {
    const got = exporter.spans.some((e) => idOf(e.span) === idOf(span));
    o.check(got === defaultKeeps(s, []), got ? "wrongly-exported" : "wrongly-dropped", () => `scope ${show(s)}`);
  }
  o.count("scopes-enumerated", scopes.length);
  o.seen("all-scopes");
}

defineCheck("C08", {
  rule: "A case is a random forest of spans from known, near-miss and foreign instrumentation scopes with gen_ai and near-miss attributes set at start or later, under the default or a custom (possibly throwing) filter over end-time state; distinct by scopes, attribute names and operation string.",
  required: ["predicates", "kept", "dropped", "throwing-filters", "alike-spans", "scopes-enumerated"],
  assumptions: ["custom filters return booleans or throw"],
}, [
  { name: "default", quick: 600, run: (r, o) => run(r, o, false) },
  { name: "custom", quick: 600, run: (r, o) => run(r, o, true) },
  { name: "scopes", quick: 1, thorough: 8, run: exact },
]);
