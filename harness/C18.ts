import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, parentOf } from "../lib/env";
import { genCall, makeClient, perform, Call } from "../lib/fakeopenai";
import { observeOpenAI } from "@langfuse/openai";
import { startActiveObservation } from "@langfuse/tracing";

const A = "langfuse.observation.", PARAMS = ["max_output_tokens", "parallel_tool_calls", "store", "temperature", "tool_choice", "top_p", "truncation", "user"];
/** What the consumed chunks amount to, computed from the chunks alone. */
function reduceChunks(items: any[]): { output: any; any?: boolean; usage: any } {
  let resp: any, usage: any, text = "";
  const tools = new Map<number, { name: string; arguments: string }>();
  for (const x of items) {
    if (x && typeof x === "object" && x.response) resp = x.response;
    if (x && typeof x === "object" && x.usage) usage = x.usage;
    const d = x?.choices?.[0];
    for (const t of d?.delta?.tool_calls ?? []) { const e = tools.get(t.index) ?? { name: "", arguments: "" }; e.name = t.function.name || e.name; e.arguments += t.function.arguments ?? ""; tools.set(t.index, e); }
    text += d?.delta?.content ?? d?.text ?? "";
  }
  if (resp) { usage = resp.usage; return { output: resp.output.length > 1 ? resp.output : resp.output[0], any: !resp.output.length, usage }; }
  if (tools.size) return { output: { tool_calls: [...tools.values()].map((f) => ({ function: f })) }, usage };
  return { output: text, usage };
}
function usageDetails(u: any) {
  if (!u) return undefined;
  const chat = "prompt_tokens" in u;
  const side = (total: number, det: any, p: string) => { const out: any = {}; let rest = total; for (const [k, v] of Object.entries(det ?? {})) { out[p + k] = v; rest -= v as number; } return [Math.max(rest, 0), out]; };
  const [i, id] = side(chat ? u.prompt_tokens : u.input_tokens, chat ? u.prompt_tokens_details : u.input_tokens_details, "input_");
  const [o, od] = side(chat ? u.completion_tokens : u.output_tokens, chat ? u.completion_tokens_details : u.output_tokens_details, "output_");
  return { input: i, output: o, total: u.total_tokens, ...id, ...od };
}
const parsed = (v: any) => { if (typeof v !== "string") return v; try { return JSON.parse(v); } catch { return v; } };
/** A string is recorded verbatim, anything else as its JSON. */
const recorded = (got: any, want: any) => want === undefined || want === null ? got === undefined : typeof want === "string" ? got === want : typeof got === "string" && deepEqual(parsed(got), JSON.parse(JSON.stringify(want)));

async function run(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor, started } = makeTracing({ mediaUploadEnabled: false });
  const calls = r.list(r.int(1, 6), (i) => genCall(r, i));
  const todo = [...calls];
  const client = makeClient((path) => todo.splice(todo.findIndex((c) => c.path.join(".") === path), 1)[0]);
  const configs = calls.map((_, i) => ({ generationName: `g${i}`, ...(r.bool(0.3) ? { userId: "u" + i } : {}), ...(r.bool(0.3) ? { sessionId: "s" + i } : {}), ...(r.bool(0.3) ? { tags: r.list(r.int(0, 3), (k) => "t" + i + k) } : {}), ...(r.bool(0.3) ? { generationMetadata: { meta: r.pick<any>(["m" + i, "", 0, false, { deep: [i] }, [1, 2]]) } } : {}), ...(r.bool(0.3) ? { langfusePrompt: { name: "p" + i, version: i, isFallback: r.bool(0.3) } as any } : {}), ...(r.bool(0.2) ? { traceName: "tn" + i } : {}), ...(r.bool(0.2) ? { parentSpanContext: { traceId: "ab" + String(i).padStart(30, "1"), spanId: "cd" + String(i).padStart(14, "2"), traceFlags: 1 } } : {}) })) as any[];
  // calls of one method are scripted in call order, so one call per method is pending at a time unless sequential
  const out: any[] = [];
  const parents: (string | undefined)[] = [];
  // one wrapped client for all calls, with one configuration without a name: generations are told apart by the order in which they start
  const shared = r.bool(0.25);
  if (shared) { delete configs[0].generationName; if (r.bool(0.3)) configs.fill(undefined); else configs.fill(configs[0]); }
  const before = JSON.stringify(configs);
  const sharedApp = shared ? observeOpenAI(client, configs[0]) : undefined;
  const one = async (i: number) => {
    const app = sharedApp ?? observeOpenAI(client, configs[i]);
    if (r.bool(0.4)) await startActiveObservation("parent" + i, async (p: any) => { parents[i] = idOf(p.otelSpan); out[i] = await perform(app, calls[i]); });
    else out[i] = await perform(app, calls[i]);
  };
  const sequential = shared || r.bool(0.4);
  const d = await sim.drive((async () => { if (sequential) for (let i = 0; i < calls.length; i++) await one(i); else await Promise.all(calls.map((_, i) => one(i))); })());
  o.check(d.status === "fulfilled", "never-settles", () => show(d));
  await sim.settle(3);
  await sim.drive(processor.forceFlush());
  const gens = exporter.spans.filter((x) => x.attributes[A + "type"] === "generation").sort((x, y) => started.indexOf(idOf(x.span)) - started.indexOf(idOf(y.span)));
  o.equal(gens.length, calls.length, "count", "generations");
  calls.forEach((c, i) => {
    const mine = shared ? [gens[i]] : gens.filter((x) => x.name === `g${i}`);
    if (shared) { o.check([c.path[0], c.path.at(-1)!].some((x) => gens[i].name.endsWith(x)), "default-name", () => `generation of ${c.path.join(".")} is called ${gens[i].name}`); o.count("shared-clients"); }
    const got = out[i];
    const what = () => `${c.path.join(".")} (${c.kind}${c.failAt !== undefined ? " fails at " + c.failAt : ""}${c.breakAt !== undefined ? " break at " + c.breakAt : ""}) value ${show(c.value)} items ${show(c.items)} -> ${show(mine[0]?.attributes)}`;
    o.check(mine.length === 1, "exactly-one", () => `${mine.length} generations for ${what()}`);
    const a = mine[0].attributes, cfg = configs[i] ?? {};
    o.equal(parentOf(mine[0].span), cfg.parentSpanContext?.spanId ?? parents[i], "parent");
    if (cfg.parentSpanContext) { o.equal(mine[0].span.spanContext().traceId, cfg.parentSpanContext.traceId, "parent-trace"); o.count("given-parents"); }
    o.check(recorded(a[A + "input"], c.expect.input), "input", what);
    const failure = got.threw ?? got.rejected ?? got.streamError;
    const streamed = c.kind === "stream" || c.kind === "directstream";
    const model = streamed ? [...got.items].reverse().find((x: any) => x?.response?.model)?.response.model ?? c.args[0]?.model : c.expect.model;
    o.check(a[A + "model.name"] === model, "model", () => `expected ${model}: ${what()}`);
    // the service's own statement of the parameters replaces the request's
    const stated = Object.fromEntries(PARAMS.filter((k) => !streamed && c.value && typeof c.value === "object" && c.value[k] !== undefined && c.value[k] !== null).map((k) => [k, c.value[k]]));
    const asked = c.args[0] && typeof c.args[0] === "object" ? c.args[0] : {};
    const params = !failure && Object.keys(stated).length ? stated : Object.fromEntries(["temperature", "top_p", "max_tokens", "n", "seed", "stop", "presence_penalty", "frequency_penalty", "logprobs", "top_logprobs", "logit_bias", "stream", "user"].filter((k) => asked[k] !== undefined).map((k) => [k, asked[k]]));
    for (const [k, v] of Object.entries(params)) o.check(deepEqual(parsed(a[A + "model.parameters"])?.[k], v), "model-parameters", () => `${k} should be ${show(v)}: ${what()}`);
    if (failure) {
      o.equal(a[A + "level"], "ERROR", "error-level");
      let text: string | undefined; try { text = String(failure[0]); } catch { o.count("unprintable-errors"); }
      if (text !== undefined) o.check((a[A + "status_message"] ?? "") === text, "error-message", what);
      o.count("failures");
    } else o.check(a[A + "level"] !== "ERROR", "spurious-error", what);
    if (streamed) {
      const e = reduceChunks(got.items);
      if (!e.any && !c.expect.anyOutput && got.streamed) o.check(recorded(a[A + "output"], e.output), "stream-output", () => `expected ${show(e.output)}: ${what()}`);
      if (!c.expect.anyOutput) { const u = usageDetails(e.usage); o.check(recorded(a[A + "usage_details"], u), "stream-usage", () => `expected ${show(u)}: ${what()}`); }
      if (got.items.length) { const t = new Date(parsed(a[A + "completion_start_time"])).getTime(); o.check(t >= got.startAt && t <= got.firstAt, "completion-start", () => `${t} not in [${got.startAt}, ${got.firstAt}]`); }
      o.count("streams"); if (got.broke) o.count("abandoned"); if (e.output?.tool_calls?.length > 1) o.count("parallel-tool-calls");
    } else if (!failure) {
      if (!c.expect.anyOutput) o.check(recorded(a[A + "output"], c.expect.output), "output", () => `expected ${show(c.expect.output)}: ${what()}`);
      o.check(recorded(a[A + "usage_details"], c.expect.usage), "usage", () => `expected ${show(c.expect.usage)}: ${what()}`);
      o.count("values");
    }
    const ud = parsed(a[A + "usage_details"]);
    if (ud && c.expect.usage) o.check(ud.input >= 0 && ud.output >= 0, "negative-usage", what);
    o.equal(a["user.id"], cfg.userId, "user"); o.equal(a["session.id"], cfg.sessionId, "session"); o.equal(a["langfuse.trace.tags"], cfg.tags?.length ? cfg.tags : undefined, "tags"); o.equal(a["langfuse.trace.name"], cfg.traceName, "trace-name");
    if (asked.response_format && cfg.generationMetadata?.response_format === undefined) o.check(recorded(a[A + "metadata.response_format"], asked.response_format) || deepEqual(parsed(a[A + "model.parameters"])?.response_format, asked.response_format), "response-format", what);
    o.check(recorded(a[A + "metadata.meta"], cfg.generationMetadata?.meta), "metadata", what);
    const linked = cfg.langfusePrompt && !cfg.langfusePrompt.isFallback;
    o.equal(a[A + "prompt.name"], linked ? cfg.langfusePrompt.name : undefined, "prompt"); o.equal(a[A + "prompt.version"], linked ? cfg.langfusePrompt.version : undefined, "prompt");
  });
  o.equal(JSON.stringify(configs), before, "config-mutated");
  o.note = { calls: calls.map((c) => c.path.join(".") + ":" + c.kind) };
  o.seen(calls.map((c) => `${c.path.join(".")}:${c.kind}:${c.items?.length ?? ""}:${c.failAt ?? ""}:${c.breakAt ?? ""}:${c.expect.usage ? 1 : 0}`).join(";"));
}

defineCheck("C18", {
  rule: "A case makes random sequential or concurrent calls through a wrapped scripted client, each with its own generation name, and compares the exported generations with a model computed from the request and the chunks the consumer saw. Distinct by methods, kinds, stream lengths, cut points.",
  required: ["values", "streams", "failures", "abandoned", "parallel-tool-calls", "shared-clients", "given-parents"],
  assumptions: ["a stream that is never iterated at all is outside the property"],
}, [{ name: "generations", quick: 2000, run }]);
