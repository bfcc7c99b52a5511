import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf } from "../lib/env";
import { trace } from "@opentelemetry/api";
import { startObservation, startActiveObservation, updateActiveObservation, setActiveTraceIO, setActiveTraceAsPublic } from "@langfuse/tracing";

const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"];
type Exp = { kind: "text"; v: string } | { kind: "json"; v: any } | { kind: "raw"; v: any } | { kind: "notice" };
const BAD = Symbol("bad");
const bad = (r: Rng): any => r.pick<() => any>([() => { const c: any = { a: 1 }; c.self = c; return c; }, () => ({ big: 10n }), () => 10n, () => ({ toJSON() { throw new Error("no"); } }), () => { const a: any[] = []; a.push(a); return a; }, () => ({ get x() { throw new Error("getter"); } })])();
const content = (r: Rng): { v: any; e: Exp | undefined } => r.weighted<() => any>([
  [6, () => { const v = r.json(3); return { v, e: typeof v === "string" ? { kind: "text", v } : v === null ? undefined : { kind: "json", v } }; }],
  [2, () => { const v = r.text(30); return { v, e: { kind: "text", v } }; }],
  [0.2, () => { const v = r.text(20).repeat(r.pick([50, 400])); return { v, e: { kind: "text", v } }; }],
  [0.04, () => { const v = r.text(20).padEnd(5, "x").repeat(r.pick([7_000, 60_000])); return r.bool() ? { v, e: { kind: "text", v } } : { v: [v], e: { kind: "json", v: [v] } }; }],
  [0.3, () => { let v: any = "leaf"; for (let i = r.int(5, 30); i > 0; i--) v = r.bool() ? [v] : { n: v }; return { v, e: { kind: "json", v } }; }],
  [1, () => { const v = r.pick(["", " ", "null", "{}", "[1,2", '"q"', "5", "undefined"]); return { v, e: { kind: "text", v } }; }],
  [1, () => { const v = r.pick<any>([0, false, true, -1.5, [], {}]); return { v, e: { kind: "json", v } }; }],
  [1, () => ({ v: r.pick<any>([undefined, null]), e: undefined })],
  [1, () => ({ v: bad(r), e: { kind: "notice" } })],
  [0.5, () => ({ v: new Date(1234567), e: { kind: "json", v: new Date(1234567).toJSON() } })],
])();

async function run(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const expected = new Map<string, { exp: Map<string, Exp>; what: string }>();
  let updates = 0, notices = 0;
  const O = "langfuse.observation.";
  const body = (gen: boolean, exp: Map<string, Exp>): any => {
    const b: any = {};
    const set = (k: string, e: Exp | undefined) => { if (e) { exp.set(k, e); if (e.kind === "notice") notices++; } };
    for (const f of ["input", "output"]) if (r.bool(0.5)) { const c = content(r); b[f] = c.v; set(O + f, c.e); }
    if (r.bool(0.3)) { b.level = r.pick(["DEBUG", "DEFAULT", "WARNING", "ERROR"]); set(O + "level", { kind: "text", v: b.level }); }
    if (r.bool(0.3)) { b.statusMessage = r.text(10); set(O + "status_message", { kind: "text", v: b.statusMessage }); }
    if (r.bool(0.2)) { b.version = r.text(8); set("langfuse.version", { kind: "text", v: b.version }); }
    if (r.bool(0.2)) { b.environment = r.plain(); set("langfuse.environment", { kind: "text", v: b.environment }); }
    if (r.bool(0.5)) {
      const k = r.weighted<string>([[6, "obj"], [1, "str"], [1, "arr"], [1, "null"]]);
      if (k === "obj") { b.metadata = {}; for (let i = r.int(0, 4); i > 0; i--) { const key = r.weighted<() => string>([[4, () => r.pick(["a", "b", "c.d", "é", "x y", "toString", "0", "input"])], [1, () => r.pick(["A", " a", "a ", ".a", "a.", "b\n", "constructor", "", "$a", "_a", "a-b", "langfuse.observation.input", "metadata"])], [1, () => r.text(8)], [0.2, () => "k".repeat(r.pick([64, 129, 300]))]])() + (r.bool(0.6) ? "" : i); if (key === "__proto__") continue; const c = content(r); b.metadata[key] = c.v; }
        for (const key of Object.keys(b.metadata)) set(O + "metadata." + key, classify(b.metadata[key])); }
      else if (k === "str") { b.metadata = r.text(8); set(O + "metadata", { kind: "text", v: b.metadata }); }
      else if (k === "arr") { b.metadata = r.list(r.int(0, 3), () => r.json(1)); set(O + "metadata", { kind: "json", v: b.metadata }); }
      else b.metadata = r.pick([null, undefined]);
    }
    if (gen) {
      if (r.bool(0.4)) { b.model = r.text(10); set(O + "model.name", { kind: "text", v: b.model }); }
      if (r.bool(0.4)) { b.modelParameters = r.pick<any>([{ temperature: r.float(), max: r.int(0, 9), stop: r.text(4) }, { temperature: 0, top_p: 0, "": "" }, {}, { [r.text(5)]: r.text(300) }]); set(O + "model.parameters", { kind: "json", v: b.modelParameters }); }
      if (r.bool(0.4)) { b.usageDetails = r.pick<any>([{ input: r.int(0, 99), output: r.int(0, 99) }, { promptTokens: 1, completionTokens: 2, totalTokens: 3 }, {}, { input: 0, output: 0, total: 0 }, { input_cached_tokens: 0, [r.text(5)]: r.int(0, 5) }, { prompt_tokens: 4, completion_tokens: 0, total_tokens: 4, prompt_tokens_details: { cached: 0 } }]); set(O + "usage_details", { kind: "json", v: b.usageDetails }); }
      if (r.bool(0.4)) { b.costDetails = r.pick<any>([{ total: r.float(), input: 0 }, { total: 0 }, {}, { a: 1e-9, b: 1e21 }]); set(O + "cost_details", { kind: "json", v: b.costDetails }); }
      if (r.bool(0.4)) { const d = new Date(1.7e12 + r.int(0, 1e9)); b.completionStartTime = d; set(O + "completion_start_time", { kind: "json", v: d.toJSON() }); }
      if (r.bool(0.4)) { b.prompt = { name: r.text(8) || "p", version: r.int(0, 99), isFallback: r.bool(0.3), extra: 1 }; if (!b.prompt.isFallback) { set(O + "prompt.name", { kind: "raw", v: b.prompt.name }); set(O + "prompt.version", { kind: "raw", v: b.prompt.version }); } }
    }
    return b;
  };
  const classify = (v: any): Exp | undefined => {
    if (v === null || v === undefined) return undefined;
    if (typeof v === "string") return { kind: "text", v };
    try { const s = JSON.stringify(v); return s === undefined ? undefined : { kind: "json", v: JSON.parse(s) }; } catch { return { kind: "notice" }; }
  };
  const isGen = (t: string) => t === "generation" || t === "embedding";
  const guard = (f: () => any, what: string) => { try { return f(); } catch (e: any) { o.check(false, "throws", () => `${what} threw ${e?.stack ?? show(e)}`); } };
  const n = r.int(1, 5);
  const live: any[] = [];
  for (let i = 0; i < n; i++) {
    const type = r.pick(TYPES), exp = new Map<string, Exp>();
    exp.set(O + "type", { kind: "raw", v: type });
    const env = { exp, what: type };
    if (r.bool(0.4)) {
      guard(() => startActiveObservation("a" + i, (ob: any) => {
        expected.set(idOf(ob.otelSpan), env);
        if (type === "event") return;
        for (let k = r.int(0, 3); k > 0; k--) {
          updates++;
          const how = r.pick(["update", "active", "active-typed", "io", "public"]);
          if (how === "update") { const b = body(isGen(type), exp); o.check(guard(() => ob.update(b), "update") === ob, "chain"); exp.set(O + "type", { kind: "raw", v: type }); }
          else if (how === "active") { const b = body(true, exp); guard(() => r.pick<() => any>([() => updateActiveObservation(b), () => updateActiveObservation(b, {} as any), () => updateActiveObservation(b, { asType: undefined } as any)])(), "updateActiveObservation"); }
          else if (how === "active-typed") { const t = r.pick(TYPES); const b = body(true, exp); guard(() => updateActiveObservation(b, { asType: t as any }), "updateActiveObservation"); exp.set(O + "type", { kind: "raw", v: t }); }
          else if (how === "io") { const a = content(r), c = content(r); guard(() => (r.bool() ? setActiveTraceIO({ input: a.v, output: c.v }) : ob.setTraceIO({ input: a.v, output: c.v })), "setTraceIO"); if (a.e) exp.set("langfuse.trace.input", a.e); if (c.e) exp.set("langfuse.trace.output", c.e); }
          else { guard(() => (r.bool() ? setActiveTraceAsPublic() : ob.setTraceAsPublic()), "public"); exp.set("langfuse.trace.public", { kind: "raw", v: true }); }
        }
      }, { asType: type as any }), "startActiveObservation");
    } else {
      const parent = live.length && r.bool(0.5) ? r.pick(live) : undefined;
      const b = body(isGen(type), exp);
      const ob = guard(() => (parent ? parent.startObservation("c" + i, b, { asType: type }) : startObservation("s" + i, b, { asType: type as any })), "startObservation");
      expected.set(idOf(ob.otelSpan), env);
      if (type !== "event") {
        live.push(ob);
        for (let k = r.int(0, 4); k > 0; k--) { updates++; const u = body(isGen(type), exp); guard(() => ob.update(u), "update"); if (r.bool(0.2)) await sim.advance(3); }
      }
    }
  }
  for (const x of live) x.end();
  await sim.drive(processor.forceFlush());
  for (const [id, { exp, what }] of expected) {
    const e = exporter.spans.find((x) => idOf(x.span) === id)!;
    o.check(e, "lost");
    for (const [k, x] of exp) {
      const got = e.attributes[k];
      if (x.kind === "text" || x.kind === "raw") o.check(got === x.v, "field", () => `${what} ${k}: expected ${show(x.v)} got ${show(got)}`);
      else if (x.kind === "notice") o.check(typeof got === "string" && got.length > 0, "notice", () => `${what} ${k}: unserialisable value gave ${show(got)}`);
      else { let p: any = BAD; try { p = JSON.parse(got); } catch {} o.check(deepEqual(p, x.v), "json", () => `${what} ${k}: expected JSON of ${show(x.v)} got ${show(got)}`); }
      o.count("fields");
    }
    for (const k of Object.keys(e.attributes)) if (e.attributes[k] !== undefined) o.check(exp.has(k) || k === "langfuse.internal.is_app_root", "unexpected-field", () => `${what} ${k} = ${show(e.attributes[k])}`);
  }
  o.count("updates", updates); o.count("unserialisable", notices);
  o.note = { observations: expected.size, updates };
  o.seen([...expected.values()].map((x) => x.what + [...x.exp.keys()].map((k) => k.slice(-6)).join()).join(";"));
}

defineCheck("C16", {
  rule: "A case starts observations of random types with random attributes and applies random sequences of updates (own, active, typed active, trace input/output); a field-by-field model gives the expected span attributes. Distinct by types and fields set.",
  required: ["fields", "updates", "unserialisable"],
}, [{ name: "updates", quick: 2500, run }]);
