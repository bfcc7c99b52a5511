import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf } from "../lib/env";
import { propagation, context, trace, ROOT_CONTEXT } from "@opentelemetry/api";
import { W3CBaggagePropagator, W3CTraceContextPropagator, CompositePropagator } from "@opentelemetry/core";
import { startObservation, startActiveObservation } from "@langfuse/tracing";
import { propagateAttributes } from "@langfuse/core";

propagation.setGlobalPropagator(new CompositePropagator({ propagators: [new W3CTraceContextPropagator(), new W3CBaggagePropagator()] }));
const PROPAGATED = /^(user\.id|session\.id|langfuse\.version|langfuse\.trace\.name|langfuse\.environment|langfuse\.trace\.tags|langfuse\.trace\.metadata(\..*)?|langfuse\.observation\.prompt\.(name|version)|langfuse\.experiment\..*)$/;
const pick = (a: any) => Object.fromEntries(Object.entries(a).filter(([k, v]) => PROPAGATED.test(k) && v !== undefined));
const word = (r: Rng, id: number) => `v${id}-` + r.list(r.int(0, 12), () => r.pick([..."abcXYZ019 .;=%+&/\\\"'?@:-_~|{}[]()<>é漢😀#!*$^`\t"])).join("") + r.pick(["", "", "=", ";x=y", " ", "%41", "%"]);

async function run(r: Rng, o: Obs, comma: boolean) {
  setEnv({});
  const { exporter, processor } = makeTracing({ environment: r.pick([undefined, "proc-env"]) });
  let id = 0;
  const values: string[] = [];
  const val = () => { const v = word(r, id++); values.push(v); return v; };
  const mk = () => {
    const p: any = {};
    for (const k of ["userId", "sessionId", "version", "traceName"]) if (r.bool(0.5)) p[k] = val();
    if (r.bool(0.4)) { p.environment = "env" + id++; values.push(p.environment); }
    if (r.bool(0.5)) p.tags = r.list(r.bool(0.05) ? r.int(15, 40) : r.int(1, 3), (i) => (r.bool(0.05) ? "t" + i : val()));
    if (r.bool(0.5)) p.metadata = Object.fromEntries(r.list(r.int(1, 3), (i) => [r.pick(["k", "a.b", "user id", "é", "k_v", "metadata_x", "a=b", "K"]) + i, val()]));
    if (r.bool(0.3)) { p.prompt = { name: val(), version: r.pick([r.int(0, 99), r.int(100, 2_000_000)]) }; }
    return p;
  };
  // The Langfuse prefix is langfuse_; what merely resembles it is foreign.
  const foreignKeys = ["user_id", "langfuse", "langfusex_user_id", "Langfuse_user_id", "x-langfuse_user_id", "tenant", "metadata_k", "langfuse.user_id", "langfuse_unknown", "session.id", "user.id", "team-tags", "tags", "my_session_id", "langfuse-tags", "version", "app.version", "environment", "metadata", "trace_id", "prompt_name", "release"];
  const foreign = Object.fromEntries(r.subset(foreignKeys, 0.4).map((k) => [k, { value: "F" + r.plain() }]));
  const start = Object.keys(foreign).length ? propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage(foreign)) : ROOT_CONTEXT;
  const asked = r.bool(0.65) || comma;
  const p1 = mk(), nested = r.bool(0.4) ? mk() : undefined, useActive = r.bool(0.5);
  if (comma) p1.tags = ["one,two", "three"];
  const headers: Record<string, string> = {};
  let local: any, traceId = "";
  const inScope = () => { const s = startObservation("local"); local = s.otelSpan; s.end(); propagation.inject(context.active(), headers); };
  const scoped = () => propagateAttributes({ ...p1, ...(asked ? { asBaggage: true } : r.bool() ? { asBaggage: false } : {}) }, () => nested ? propagateAttributes({ ...nested, ...(asked ? { asBaggage: true } : {}) }, inScope) : inScope());
  context.with(start, () => { if (useActive) startActiveObservation("outer", () => scoped()); else scoped(); });
  const header = headers["baggage"] ?? "";
  const sent = Object.fromEntries(header.split(",").filter(Boolean).map((x) => { const i = x.indexOf("="); return [decodeURIComponent(x.slice(0, i)), decodeURIComponent(x.slice(i + 1).split(";")[0])]; }));
  for (const [k, v] of Object.entries(foreign)) o.check(sent[k] === (v as any).value, "foreign-lost", () => `baggage entry ${k} was ${show((v as any).value)}, sent ${show(sent[k])}`);
  if (!asked) {
    for (const k of Object.keys(sent)) o.check(k in foreign || k === "langfuse_trace_id", "unrequested", () => `baggage entry ${k}=${show(sent[k])} sent although baggage propagation was not requested`);
    for (const v of values) o.check(!Object.values(headers).some((h) => h.includes(encodeURIComponent(v)) || h.includes(v)), "unrequested-value", () => `value ${show(v)} in outgoing headers ${show(headers)}`);
    o.count("not-requested");
  }
  await sim.drive(processor.forceFlush());
  const here = exporter.spans.find((e) => idOf(e.span) === idOf(local))!;
  // ---- the downstream process: a new provider, only the headers ------------------------------
  const down = makeTracing({ environment: undefined });
  const ctx = propagation.extract(ROOT_CONTEXT, headers);
  context.with(ctx, () => {
    startActiveObservation("remote", (ob: any) => { ob.startObservation("child").end(); });
    startObservation("plain").end();
  });
  await sim.drive(down.processor.forceFlush());
  const exp = asked ? pick(here.attributes) : {};
  if (asked && exp["langfuse.environment"] === "proc-env") delete exp["langfuse.environment"];
  o.check(down.exporter.spans.length === 3, "downstream-lost");
  for (const e of down.exporter.spans) {
    const got = pick(e.attributes);
    for (const k of new Set([...Object.keys(exp), ...Object.keys(got)])) {
      const sorted = (x: any) => (Array.isArray(x) ? [...x].sort() : x);
      o.check(deepEqual(sorted(got[k]), sorted(exp[k])), comma && k === "langfuse.trace.tags" && deepEqual(sorted(got[k]), sorted(exp[k].join(",").split(","))) ? "comma-tag" : k in exp ? "downstream-differs" : "foreign-became-attribute",
        () => `${k}: local ${show(exp[k])}, downstream ${show(got[k])}; header ${header}`);
    }
  }
  if (asked) o.count("requested"); if (Object.keys(foreign).length) o.count("with-foreign"); o.count("compared", Object.keys(exp).length);
  o.note = { asked, header: header.slice(0, 300) };
  o.seen(`${asked}/${header}`);
}

// Chains of services: every service runs nested scopes, each with its own choice, and hands only its headers to the next one.
type Bag = { single: Record<string, any>; tags: string[]; metadata: Record<string, string> };
const SPAN: Record<string, string> = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
const into = (b: Bag, p: any): Bag => {
  const n: Bag = { single: { ...b.single }, tags: b.tags, metadata: { ...b.metadata, ...p.metadata } };
  for (const k of Object.keys(SPAN)) if (p[k] !== undefined) n.single[SPAN[k]] = p[k];
  if (p.prompt) { n.single["langfuse.observation.prompt.name"] = p.prompt.name; n.single["langfuse.observation.prompt.version"] = p.prompt.version; }
  if (p.tags) n.tags = [...new Set([...b.tags, ...p.tags])];
  return n;
};
const attrs = (b: Bag) => ({ ...b.single, ...(b.tags.length ? { "langfuse.trace.tags": b.tags } : {}), ...Object.fromEntries(Object.entries(b.metadata).map(([k, v]) => ["langfuse.trace.metadata." + k, v])) });
async function chain(r: Rng, o: Obs) {
  setEnv({});
  let id = 0;
  const val = () => word(r, id++);
  const mk = (env: boolean) => {
    const p: any = {};
    for (const k of ["userId", "sessionId", "version", "traceName"]) if (r.bool(0.4)) p[k] = val();
    if (env && r.bool(0.4)) p.environment = `e${id++}z`;
    if (r.bool(0.6)) p.tags = r.list(r.bool(0.05) ? r.int(15, 30) : r.int(1, 3), (i) => (r.bool(0.3) ? "shared" + i : val())); 
    if (p.tags) p.tags = [...new Set(p.tags)];
    if (r.bool(0.6)) p.metadata = Object.fromEntries(r.list(r.int(1, 3), (i) => [r.pick(["k", "a.b", "K", "user"]) + r.int(0, 2), val()]));
    if (r.bool(0.25)) p.prompt = { name: val(), version: r.pick([r.int(0, 99), r.int(100, 2_000_000)]) };
    return p;
  };
  let headers: Record<string, string> = {};
  let bag: Bag = { single: {}, tags: [], metadata: {} };
  const hidden: [string, number][] = [];
  const services = r.int(2, 3);
  let shape = "";
  for (let sv = 0; sv < services; sv++) {
    const { exporter, processor, provider } = makeTracing({});
    const want: [any, any][] = [];
    const next: Record<string, string> = {};
    let out = bag;
    const spans = (local: Bag) => { const s = startObservation("s"); want.push([s.otelSpan, attrs(local)]); s.end(); const t = provider.getTracer("openinference.x").startSpan("g"); want.push([t, attrs(local)]); t.end(); };
    const depth = r.int(0, 3);
    const plan = r.list(depth, () => ({ p: mk(true), ask: r.bool(0.5) }));
    const go = async (i: number, local: Bag, sent: Bag): Promise<void> => {
      if (r.bool(0.3)) await new Promise((x) => setTimeout(x, r.int(1, 9)));
      spans(local);
      if (i === plan.length) { out = sent; propagation.inject(context.active(), next); return; }
      const { p, ask } = plan[i];
      shape += ask ? "B" : "s";
      if (!ask) for (const v of [...Object.keys(SPAN).map((k) => p[k]), ...(p.tags ?? []), ...Object.values(p.metadata ?? {}), p.prompt?.name]) if (typeof v === "string" && !v.startsWith("shared")) hidden.push([v, sv]);
      await propagateAttributes({ ...p, ...(ask ? { asBaggage: true } : r.bool() ? { asBaggage: false } : {}) }, () => go(i + 1, into(local, p), ask ? into(sent, p) : sent));
      spans(local);
    };
    const d = await sim.drive(context.with(propagation.extract(ROOT_CONTEXT, headers), () => go(0, bag, bag)));
    if (d.status === "rejected") throw d.reason;
    await sim.drive(processor.forceFlush());
    for (const [span, exp] of want) {
      const e = exporter.spans.find((x) => idOf(x.span) === idOf(span));
      o.check(e, "lost");
      const got = pick(e!.attributes), sorted = (x: any) => (Array.isArray(x) ? [...x].sort() : x);
      for (const k of new Set([...Object.keys(exp), ...Object.keys(got)])) o.check(deepEqual(sorted(got[k]), sorted(exp[k])), "service-differs", () => `service ${sv} (${shape}): ${k} expected ${show(exp[k])} got ${show(got[k])}; received ${show(headers["baggage"])}`);
      o.count("chain-spans");
    }
    for (const [v, from] of hidden) for (const h of Object.values(next)) o.check(!h.includes(encodeURIComponent(v)) && !h.includes(v), "unrequested-value", () => `value ${show(v)}, set in service ${from} by a scope without baggage, is in the outgoing headers ${show(h)} (${shape})`);
    if ((next["baggage"] ?? "").length > 3000) { o.count("near-limit"); break; }
    headers = next; bag = out; shape += "|";
    o.count("services");
  }
  if (/B/.test(shape) && /s/.test(shape)) o.count("mixed-choices");
  o.note = { shape }; o.seen(shape + Object.keys(attrs(bag)).join());
}

defineCheck("C13", {
  rule: "A case runs one or two nested propagation scopes with or without baggage, below foreign baggage, injects W3C headers, and starts spans in a second provider that only has the headers; its attributes are compared with those of a local span of the scope. A chain case passes headers through two or three services, each with up to three nested scopes that choose baggage separately, against a model of what may travel. Distinct by the header or by the chain's shape.",
  required: ["requested", "not-requested", "with-foreign", "compared", "mixed-choices", "services"],
  assumptions: ["values are non-empty and the baggage stays below the W3C size limits (the OpenTelemetry propagator drops the rest)"],
}, [
  { name: "services", quick: 1200, run: (r, o) => run(r, o, false) },
  { name: "chains", quick: 900, run: chain },
  { name: "comma", quick: 3, thorough: 10, run: (r, o) => run(r, o, true) },
]);
