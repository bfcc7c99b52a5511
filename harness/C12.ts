import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf } from "../lib/env";
import { propagation, context } from "@opentelemetry/api";
import { startObservation, startActiveObservation } from "@langfuse/tracing";
import { propagateAttributes } from "@langfuse/core";

const KEY: Record<string, string> = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name" };
const PROPAGATED = /^(user\.id|session\.id|langfuse\.version|langfuse\.trace\.name|langfuse\.environment|langfuse\.trace\.tags|langfuse\.trace\.metadata(\..*)?|langfuse\.observation\.prompt\.(name|version))$/;
const ok = (v: any) => typeof v === "string" && v.length <= 200;
const str = (r: Rng): any => r.weighted<() => any>([
  [4, () => r.text(20) || "x"], [2, () => "a".repeat(200)], [2, () => "a".repeat(201)], [1, () => "é".repeat(200)], [1, () => "漢".repeat(201)], [1, () => "😀".repeat(100)], [1, () => "😀".repeat(100) + "x"],
  [1, () => "b".repeat(r.int(190, 210))], [1, () => "z".repeat(5000)], [1, () => r.pick(["0", "false", "null", "undefined", " ", "\n", "langfuse", "{}", "[object Object]"])],
])();
const bad = (r: Rng): any => r.pick<any>([5, 0, NaN, true, false, {}, { a: 1 }, [], ["x"], Symbol("s"), () => 1, 10n, new Date(0), null, undefined, new String("boxed")]);
const part = (r: Rng) => (r.bool(0.08) ? "" : any(r)); // an empty tag or metadata value is a value
const any = (r: Rng) => (r.bool(0.65) ? str(r) : bad(r));
const envGen = (r: Rng): any => r.weighted<() => any>([
  [4, () => r.list(r.int(1, 40), () => r.pick([..."abcxyz0189_-"])).join("")], [1, () => "e".repeat(40)], [1, () => "e".repeat(41)],
  [2, () => r.pick(["Prod", "pro d", "prod\n", "prod!", "é", "", "langfuse", "langfuse-x", "langfusex", "xlangfuse", "lang-fuse", "a.b", "a/b", "-", "_", "0", "LANGFUSE", "langfus"])], [2, () => r.text(8)], [2, () => bad(r)],
])();
const envOk = (v: any) => typeof v === "string" && v.length <= 40 && v.length > 0 && [...v].every((c) => (c >= "a" && c <= "z") || (c >= "0" && c <= "9") || c === "-" || c === "_") && !v.startsWith("langfuse");

async function run(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor } = makeTracing({ shouldExportSpan: () => true });
  const p: any = {}; const expect: Record<string, any> = {};
  let valid = 0, invalid = 0;
  const mark = (good: boolean) => { if (good) valid++; else invalid++; };
  for (const k of Object.keys(KEY)) if (r.bool(0.6)) { const v = any(r); p[k] = v; mark(ok(v)); if (ok(v)) expect[KEY[k]] = v; }
  if (r.bool(0.6)) { const v = envGen(r); p.environment = v; mark(envOk(v)); if (envOk(v)) expect["langfuse.environment"] = v; }
  if (r.bool(0.6)) {
    p.tags = [...new Set(r.list(r.bool(0.05) ? r.int(20, 400) : r.int(0, 5), (i) => { const v = part(r); return typeof v === "string" && v.length < 200 && v ? v + i : v; }))];
    const t = p.tags.filter(ok); p.tags.forEach((x: any) => mark(ok(x))); if (t.length) expect["langfuse.trace.tags"] = t;
  }
  if (r.bool(0.7)) {
    p.metadata = Object.fromEntries(r.list(r.bool(0.05) ? r.int(20, 100) : r.int(0, 5), (i) => [r.pick(["k", "a.b", "x y", "é", "__p", "0", "toString", "key".repeat(40), "K".repeat(250)]) + i, part(r)]));
    for (const [k, v] of Object.entries(p.metadata)) { mark(ok(v)); if (ok(v)) expect["langfuse.trace.metadata." + k] = v; }
  }
  if (r.bool(0.5)) {
    const name = r.pick<any>(["prompt", "p/q r", "é", "", 5, null, undefined, {}, "n".repeat(150), "n".repeat(201), "long name ".repeat(60)]);
    const version = r.pick<any>([1, 42, 0, -1, 2 ** 40, "5", "007", "1.5", 1.5, "x", "", " 5", "5 ", "-1", NaN, Infinity, null, undefined, {}, [3], true, "1e3", "٣"]);
    const isFallback = r.pick([undefined, false, true]);
    p.prompt = { name, version, ...(isFallback === undefined ? {} : { isFallback }) };
    const v = typeof version === "string" ? (/^[0-9]+$/.test(version) ? Number(version) : undefined) : version;
    const good = typeof name === "string" && name.length > 0 && typeof v === "number" && Number.isInteger(v) && !isFallback;
    mark(good);
    if (good) { expect["langfuse.observation.prompt.name"] = name; expect["langfuse.observation.prompt.version"] = v; }
    if (r.bool(0.1)) { p.prompt = r.pick<any>([5, "prompt", true, [], null, false]); delete expect["langfuse.observation.prompt.name"]; delete expect["langfuse.observation.prompt.version"]; }
  }
  if (r.bool(0.3)) p.asBaggage = true;
  const token = {};
  let spans: any[] = [];
  let out: any;
  const inner = () => { const s = startObservation("in"); spans.push(s.otelSpan); s.end(); return token; };
  try {
    if (r.bool()) out = startActiveObservation("act", (ob: any) => { spans.push(ob.otelSpan); return propagateAttributes(p, inner); });
    else out = propagateAttributes(p, inner);
  } catch (e: any) { o.check(false, "throws", () => `propagateAttributes(${show(p)}) threw ${e?.stack ?? show(e)}`); }
  o.check(out === token, "result");
  await sim.drive(processor.forceFlush());
  for (const s of spans) {
    const e = exporter.spans.find((x) => idOf(x.span) === idOf(s))!;
    o.check(e, "lost");
    const got = Object.fromEntries(Object.entries(e.attributes).filter(([k, v]) => PROPAGATED.test(k) && v !== undefined));
    for (const k of Object.keys(expect)) o.check(deepEqual(got[k], expect[k]), "valid-dropped", () => `${k}: expected ${show(expect[k])} got ${show(got[k])}`);
    for (const k of Object.keys(got)) o.check(k in expect, "invalid-passed", () => `${k} = ${show(got[k])} was propagated from ${show(p)}`);
  }
  o.count("valid", valid); o.count("invalid", invalid); if (valid && invalid) o.count("mixed");
  o.note = { params: show(p).slice(0, 400) };
  if (valid + invalid) o.seen(show(p).slice(0, 300));
}

async function baggageEnv(r: Rng, o: Obs) {
  // an environment that arrives through baggage obeys the same rule
  setEnv({});
  const { exporter, processor } = makeTracing({ environment: "fallback-env" });
  const v = envGen(r);
  if (typeof v !== "string") return;
  const ctx = propagation.setBaggage(context.active(), propagation.createBaggage({ langfuse_environment: { value: v }, langfuse_user_id: { value: "u1" } }));
  const s = context.with(ctx, () => { const x = startObservation("b"); x.end(); return x; });
  await sim.drive(processor.forceFlush());
  const e = exporter.spans[0].attributes;
  o.equal(e["langfuse.environment"], envOk(v) ? v : "fallback-env", "baggage-environment", show(v));
  o.equal(e["user.id"], "u1", "baggage-other");
  o.count("baggage-environments"); o.seen("env:" + v);
}

defineCheck("C12", {
  rule: "A case is one propagation scope whose every parameter is drawn from valid, boundary-length and wrongly typed values, alone or below an active span. Distinct by the parameter values.",
  required: ["valid", "invalid", "mixed", "baggage-environments"],
  assumptions: ["tags is an array and metadata an object when given; empty strings count as absent for the single-valued attributes"],
}, [
  { name: "params", quick: 3000, run },
  { name: "baggage-environment", quick: 400, run: baggageEnv },
]);
