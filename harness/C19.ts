import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, parentOf } from "../lib/env";
import { context, trace } from "@opentelemetry/api";
import { CallbackHandler } from "@langfuse/langchain";
import { startObservation, setLangfuseTracerProvider } from "@langfuse/tracing";
import { BasicTracerProvider, AlwaysOffSampler } from "@opentelemetry/sdk-trace-base";
import { AIMessage, AIMessageChunk, HumanMessage, SystemMessage, ToolMessage, FunctionMessage, ChatMessage, BaseMessage } from "@langchain/core/messages";
import { BaseCallbackHandler } from "@langchain/core/callbacks/base";
import { RunnableLambda, RunnableParallel, RunnableSequence } from "@langchain/core/runnables";
import { FakeListChatModel, FakeLLM, FakeRetriever } from "@langchain/core/utils/testing";
import { tool as makeTool } from "@langchain/core/tools";
import { awaitAllCallbacks } from "@langchain/core/callbacks/promises";

const A = "langfuse.observation.";
const J = (v: any) => { const s = JSON.stringify(v); return s === undefined ? undefined : JSON.parse(s); };
const parsed = (v: any) => { if (typeof v !== "string") return v; try { return JSON.parse(v); } catch { return v; } };
const recorded = (got: any, want: any) => want === undefined || want === null ? got === undefined : typeof want === "string" ? got === want : typeof got === "string" && deepEqual(parsed(got), J(want));
/** Sizes of everything the handler holds, whatever it is called. */
const footprint = (h: any) => Object.getOwnPropertyNames(h).reduce((n, k) => { const v = h[k]; return n + (v instanceof Map || v instanceof Set ? v.size : Array.isArray(v) ? v.length : v && typeof v === "object" ? Object.keys(v).length : 0); }, 0);

type Kind = "chain" | "llm" | "chat" | "tool" | "retriever";
type Node = { i: number; kind: Kind; runId: string; parent?: Node; name: string; root: Node; start: () => Promise<any>; exp: any; weird: boolean; ended?: boolean; started?: boolean; kids: Node[]; acts?: any[]; actions: number; startAt?: number; orphan?: string };

/** A message of a type the handler has no case for. */
class OtherMessage extends BaseMessage { static lc_name() { return "OtherMessage"; } _getType(): any { return "developer"; } getType(): any { return "developer"; } }
const msg = (r: Rng): { m: any; e: any } => r.weighted<() => any>([
  [3, () => { const c = r.text(12); return { m: new HumanMessage(c), e: { content: c, role: "user" } }; }],
  [2, () => { const c = r.text(12); return { m: new SystemMessage(c), e: { content: c, role: "system" } }; }],
  [3, () => { const c = r.text(12); const m = new AIMessage(c); return { m, e: { content: c, role: "assistant" } }; }],
  [1, () => { const tc = [{ id: "1", name: "f", args: { a: r.int(0, 9) }, type: "tool_call" as const }]; const m = new AIMessage({ content: "", tool_calls: tc }); return { m, e: { content: "", role: "assistant", tool_calls: tc } }; }],
  [1, () => { const c = r.plain(); return { m: new ToolMessage({ content: c, tool_call_id: "1", name: "tl" }), e: { content: c, additional_kwargs: {}, role: "tl" } }; }],
  [0.5, () => { const c = r.plain(); return { m: new FunctionMessage({ content: c, name: "fn" }), e: { content: c, additional_kwargs: {}, role: "fn" } }; }],
  [0.5, () => { const c = r.plain(); return { m: new ChatMessage(c, "custom"), e: { content: c, role: "human" } }; }],
  [1, () => { const c = [{ type: "text", text: r.text(6) }]; return { m: new HumanMessage({ content: c as any }), e: { content: c, role: "user" } }; }],
  // the provider's raw form of the calls, as older integrations pass it
  [0.6, () => { const tc = [{ id: "1", type: "function" as const, function: { name: "f", arguments: `{"a":${r.int(0, 9)}}` } }]; const m = new AIMessage({ content: "", additional_kwargs: { tool_calls: tc } }); return { m, e: { content: "", role: "assistant", tool_calls: tc } }; }],
  [0.6, () => { const c = r.plain(), ak = { function_call: { name: "f", arguments: `{"b":${r.int(0, 9)}}` } }; return r.bool() ? { m: new AIMessage({ content: c, additional_kwargs: ak }), e: { content: c, role: "assistant", additional_kwargs: ak } } : { m: new HumanMessage({ content: c, additional_kwargs: ak }), e: { content: c, role: "user", additional_kwargs: ak } }; }],
  [0.6, () => { const c = r.plain(), named = r.bool(), m = new OtherMessage({ content: c, ...(named ? { name: "dev" } : {}) }); return { m, e: named ? { content: c, role: "dev" } : { content: c } }; }],
])();
const cyc = () => { const c: any = {}; c.c = c; return c; };
/** Nothing can be read from it. */
const trap = (): any => { const no = () => { throw new Error("trapped"); }; return new Proxy({}, { get: no, has: no, ownKeys: no, getPrototypeOf: no, getOwnPropertyDescriptor: no }); };
const dict = (r: Rng) => { const o: any = {}; for (let k = r.int(1, 3); k > 0; k--) o["k" + r.plain(1, 4)] = r.json(2); return o; };

async function events(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const cfg: any = r.bool(0.5) ? { userId: r.bool() ? "hu" : undefined, sessionId: r.bool() ? "hs" : undefined, tags: r.bool() ? ["ht", "both"] : undefined, version: r.bool() ? "v1" : undefined, traceMetadata: r.bool() ? { s: "x", n: 5, ...(r.bool(0.2) ? { bad: r.pick<any>([10n, cyc(), { toJSON() { throw new Error("no"); } }, undefined, () => 1, Symbol("s")]) } : {}) } : undefined } : undefined;
  const h: any = new CallbackHandler(cfg);
  // a second handler may be attached to the same runs: each mirrors the whole tree on its own
  const h2: any = r.bool(0.15) ? new CallbackHandler({ version: "second" }) : undefined;
  // tracing that is switched off: nothing is recorded, and nothing may be disturbed or retained either
  const dark = !h2 && r.bool(0.05);
  if (dark) { setLangfuseTracerProvider(new BasicTracerProvider({ sampler: new AlwaysOffSampler() })); o.count("unsampled"); }
  const lastTraces: { n: Node; got: any }[] = []; let endsSince: Node[] = [];
  const size0 = footprint(h), size2 = h2 && footprint(h2);
  const nodes: Node[] = [];
  const ctxs = new Map<Node, { ctx: any; id?: string }>();
  const prompts = new Map<string, any>();
  const calls: Promise<any>[] = [];
  let oddEnds = 0; // ends whose payload no LangChain type allows: they may not disturb, no more is asked
  const fire = (n: Node, name: string, ...args: any[]) => {
    const c = ctxs.get(n === n.root || r.bool(0.8) ? n.root : r.pick([...ctxs.keys()]))!;
    let p: any;
    try { p = context.with(c.ctx, () => h[name](...args)); } catch (e) { o.check(false, "throws", () => `${name}(${show(args)}) threw ${show(e)}`); }
    if (h2) { try { const p1 = p, p2 = context.with(c.ctx, () => h2[name](...args)); p = Promise.all([p1, p2]); } catch (e) { o.check(false, "throws", () => `${name}(${show(args)}) threw ${show(e)}`); } }
    calls.push(p.then(() => undefined, (e: any) => o.check(false, "rejects", () => `${name}(${show(args)}) rejected with ${e?.stack ?? show(e)}`)));
  };
  const make = (parent?: Node): Node => {
    const i = nodes.length;
    const kind = r.weighted<Kind>([[parent ? 4 : 8, "chain"], [2, "llm"], [3, "chat"], [2, "tool"], [1.5, "retriever"]]);
    const n: Node = { i, kind, runId: `run-${i}-${r.plain(2, 4)}`, parent, name: `n${i}`, root: undefined as any, start: undefined as any, exp: { type: kind === "tool" ? "tool" : kind === "llm" || kind === "chat" ? "generation" : "span" }, weird: r.bool(0.07), kids: [], actions: 0 };
    n.root = parent ? parent.root : n;
    if (!parent && r.bool(0.12)) { n.orphan = "untracked-" + i; o.count("orphans"); } // its parent run was never reported to this handler
    if (!parent) {
      const p = r.bool(0.4) ? startObservation("outer" + i) : undefined;
      ctxs.set(n, { ctx: p ? trace.setSpan(context.active(), p.otelSpan) : context.active(), id: p && idOf(p.otelSpan) });
      if (p) outers.push(p);
    }
    nodes.push(n); parent?.kids.push(n);
    return n;
  };
  const outers: any[] = [];
  const start = (n: Node) => {
    n.started = true; n.startAt = Date.now();
    const byId = r.bool(0.3);
    const ser: any = byId ? { lc: 1, type: "not_implemented", id: ["langchain", n.name] } : r.pick<any>([{ lc: 1, type: "constructor", id: ["x", "Y"], kwargs: {} }, {}, undefined, { id: [] }]);
    const name = byId ? undefined : n.name;
    const tags = r.bool(0.3) ? r.shuffle([...(r.bool(0.4) ? ["langsmith:hidden"] : []), "rt" + n.i, ...(r.bool(0.3) ? ["more"] : [])]) : r.pick([undefined, []]);
    const metadata: any = r.bool(0.5) ? { mk: "m" + n.i, ...(r.bool(0.3) ? { ls_model_name: "lsm" } : {}) } : undefined;
    const pid = n.parent?.runId ?? n.orphan;
    if (tags?.includes("langsmith:hidden")) n.exp.level = "DEBUG";
    n.exp.meta = metadata?.mk;
    if (n.weird) {
      const junk = () => r.pick<any>([undefined, null, 0, "", [], {}, "s", { id: null }, { id: 5 }, [null], [[null]], Symbol("s"), 10n, [[{}]], Object.create(null), (() => { const c: any = {}; c.c = c; return c; })(), trap()]);
      const m = ({ chain: "handleChainStart", llm: "handleLLMStart", chat: "handleChatModelStart", tool: "handleToolStart", retriever: "handleRetrieverStart" } as any)[n.kind];
      fire(n, m, junk(), junk(), n.runId, pid, junk(), r.pick<any>([undefined, [], null]), r.pick<any>([undefined, {}, null]));
      o.count("odd-payloads");
      return;
    }
    if (n.kind === "chain") {
      const [inp, exp] = r.weighted<() => any>([
        [4, () => { const d = dict(r); return [d, d]; }],
        [1, () => { const ms = r.list(r.int(1, 3), () => msg(r)); return [{ [r.pick(["input", "messages"])]: ms.map((x) => x.m) }, ms.map((x) => x.e)]; }],
        [0.6, () => { // messages next to other things: nothing of it may be lost
          const ms = r.list(r.int(1, 3), () => msg(r)), other = r.pick<any>([{ role: "user", content: "other" + n.i }, "other" + n.i]), all: any[] = ms.map((x) => x.m); all.splice(r.int(0, all.length), 0, other);
          n.exp.mentions = ["other" + n.i, ...ms.map((x) => (typeof x.e.content === "string" ? x.e.content : x.e.content[0].text))]; o.count("mixed-messages");
          return [{ [r.pick(["input", "messages"])]: all }, undefined];
        }],
        [1, () => { const t = r.text(9); return [{ content: t }, t]; }],
        [0.6, () => { const v = { content: r.text(9), extra: "ex" + n.i }; return [v, v]; }],
        [1, () => { const t = r.text(9); return [t, t]; }],
        [1, () => { const d = { input: r.text(9) }; return [d, d]; }],
        [1, () => [null, undefined]], [0.5, () => [undefined, undefined]],
        [0.5, () => { const a = [1, "x"]; return [a, a]; }],
      ])();
      n.exp.input = exp;
      let md = metadata;
      if (n.parent && r.bool(0.3)) { const lp = { name: "p" + n.i, version: n.i, isFallback: false }; md = { ...md, langfusePrompt: lp }; prompts.set(pid!, lp); }
      if (!n.parent && !n.orphan) {
        if (r.bool(0.3)) md = { ...md, langfuseUserId: "mu" + n.i, langfuseSessionId: "ms" + n.i };
        n.exp.trace = { "user.id": md?.langfuseUserId ?? cfg?.userId, "session.id": md?.langfuseSessionId ?? cfg?.sessionId, tags: [...new Set([...(tags ?? []), ...(cfg?.tags ?? [])])], s: cfg?.traceMetadata?.s, n: cfg?.traceMetadata ? "5" : undefined };
      }
      fire(n, "handleChainStart", ser, inp, n.runId, pid, tags, md, undefined, name);
    } else if (n.kind === "tool") { n.exp.input = r.text(9); fire(n, "handleToolStart", ser, n.exp.input, n.runId, pid, tags, metadata, name); }
    else if (n.kind === "retriever") { n.exp.input = r.text(9); fire(n, "handleRetrieverStart", ser, n.exp.input, n.runId, pid, tags, metadata, name); }
    else {
      const inv: any = r.bool(0.7) ? { ...(r.bool(0.7) ? { model: "im" + n.i } : {}), temperature: r.pick([0, 0.5, undefined, null]), max_tokens: r.pick([undefined, 5, 0]), top_p: r.pick([undefined, undefined, 0, 1, null]), frequency_penalty: r.pick([undefined, undefined, 0, -1.5, null]), presence_penalty: r.pick([undefined, undefined, 0, 2, null]), request_timeout: r.pick<any>([undefined, undefined, 0, "30s", false, { connect: 1 }]), ...(r.bool(0.3) ? { tools: r.pick([[{ name: "t" }], [{ name: "t" }], []]) } : {}), ...(r.bool(0.2) ? { tool_choice: "auto" } : {}) } : undefined;
      const extra = inv ? { invocation_params: inv } : r.pick<any>([{}, { options: {} }]);
      n.exp.model = inv?.model ?? metadata?.ls_model_name;
      n.exp.params = Object.fromEntries(Object.entries({ temperature: inv?.temperature, max_tokens: inv?.max_tokens, top_p: inv?.top_p, frequency_penalty: inv?.frequency_penalty, presence_penalty: inv?.presence_penalty, request_timeout: inv?.request_timeout }).filter(([, v]) => v !== undefined && v !== null));
      let inp: any, list: any;
      if (n.kind === "llm") { inp = r.list(r.int(0, 3), () => r.text(8)); list = inp; }
      else { const groups = r.list(r.int(1, 2), () => r.list(r.int(0, 3), () => msg(r))); inp = groups.map((g) => g.map((x) => x.m)); list = groups.flat().map((x) => x.e); }
      n.exp.input = inv?.tools || inv?.tool_choice ? { messages: list, ...(inv.tools ? { tools: inv.tools } : {}), ...(inv.tool_choice ? { tool_choice: inv.tool_choice } : {}) } : list;
      if (pid && prompts.has(pid)) { n.exp.prompt = prompts.get(pid); prompts.delete(pid); o.count("prompt-links"); }
      fire(n, n.kind === "llm" ? "handleLLMStart" : "handleChatModelStart", ser, inp, n.runId, pid, extra, tags, metadata, name);
    }
  };
  const end = (n: Node) => {
    n.ended = true; n.exp.endAt = Date.now(); endsSince.push(n);
    prompts.delete(n.runId);
    const pid = n.parent?.runId ?? n.orphan;
    if (n.weird && r.bool(0.5)) {
      const junk = r.pick<any>([undefined, null, 0, "", [], {}, { generations: null }, { generations: [null] }, { generations: [[null]] }, { generations: [[{ message: trap() }]] }, { generations: [[{ text: "t" }]], llmOutput: trap() }, { output: trap() }, { messages: [trap()] }, trap(), trap()]);
      const fail = r.bool(0.3);
      n.exp.level = "any";
      fire(n, ({ chain: "handleChain", llm: "handleLLM", chat: "handleLLM", tool: "handleTool", retriever: "handleRetriever" } as any)[n.kind] + (fail ? "Error" : "End"), junk, n.runId, pid);
      o.count("odd-ends"); oddEnds++;
      return;
    }
    if (r.bool(0.25)) {
      const err = r.pick<() => any>([() => new Error("boom" + n.i), () => "text", () => null, () => undefined, () => Object.assign(new Error("azure"), { error: { code: "content_filter" } }), () => ({ a: 1 }), () => 5, () => Symbol("odd"), () => Object.create(null)])();
      try { n.exp.error = String(err); } catch { n.exp.error = ""; } n.exp.level = "ERROR"; if (err?.error) n.exp.detail = "content_filter";
      fire(n, ({ chain: "handleChainError", llm: "handleLLMError", chat: "handleLLMError", tool: "handleToolError", retriever: "handleRetrieverError" } as any)[n.kind], err, n.runId, pid);
      o.count("errors");
      return;
    }
    if (n.kind === "chain") {
      const [out, exp] = r.weighted<() => any>([
        [4, () => { const d = dict(r); return [d, d]; }],
        [1, () => { const ms = r.list(r.int(1, 3), () => msg(r)); return [{ messages: ms.map((x) => x.m) }, { messages: ms.map((x) => x.e) }]; }],
        [1, () => { const t = r.text(9); return [{ output: t }, t]; }], [1, () => { const t = r.text(9); return [t, t]; }],
        [1, () => [null, undefined]], [0.5, () => [undefined, undefined]], [0.5, () => { const d = { output: { a: r.int(0, 5) } }; return [d, d]; }],
      ])();
      n.exp.output = exp;
      fire(n, "handleChainEnd", out, n.runId, pid);
    } else if (n.kind === "tool") { n.exp.output = r.pick<any>([r.text(9), { content: "x" }]); fire(n, "handleToolEnd", n.exp.output, n.runId, pid); }
    else if (n.kind === "retriever") { n.exp.output = r.list(r.weighted<number>([[6, r.int(0, 2)], [1, r.int(9, 60)]]), () => ({ pageContent: r.text(8), metadata: { s: 1 } })); fire(n, "handleRetrieverEnd", n.exp.output, n.runId, pid); }
    else {
      const shape = r.weighted([[5, "message"], [2, "text"], [0.6, "empty"], [0.6, "emptygroup"]]);
      const usage = r.bool(0.6) ? { input_tokens: r.int(0, 50), output_tokens: r.int(0, 50), total_tokens: r.int(0, 100), ...(r.bool(0.5) ? { input_token_details: { cache_read: r.int(0, 60), audio: r.int(0, 5) } } : {}), ...(r.bool(0.5) ? { output_token_details: { reasoning: r.int(0, 60), ...(r.bool(0.5) ? { audio: r.int(0, 9) } : {}), ...(r.bool(0.2) ? { ["x" + r.plain(1, 4)]: r.int(0, 9) } : {}) } } : {}) } : undefined;
      const tokenUsage = r.bool(0.4) ? { promptTokens: r.int(0, 9), completionTokens: r.int(0, 9), totalTokens: r.int(0, 20) } : undefined;
      let generations: any = shape === "empty" ? [] : shape === "emptygroup" ? [[]] : undefined, used: any = undefined;
      if (shape === "text") { n.exp.output = r.text(9); generations = [[{ text: "other" }], [{ text: "no" }, { text: n.exp.output }]].slice(r.int(0, 1)); }
      if (shape === "message") {
        const c = r.text(9), K = r.bool(0.7) ? AIMessage : AIMessageChunk;
        const m = new K({ content: c, usage_metadata: usage as any, response_metadata: r.bool(0.5) ? { model_name: "rm" + n.i } : {} });
        if (m.response_metadata.model_name) n.exp.model = m.response_metadata.model_name;
        n.exp.output = { content: c, role: "assistant" }; generations = [[{ text: c, message: m }]]; used = usage;
      }
      const u: any = used ?? tokenUsage;
      if (u) {
        const e: any = { input: u.input_tokens ?? u.promptTokens, output: u.output_tokens ?? u.completionTokens, total: u.total_tokens ?? u.totalTokens };
        for (const [side, det] of [["input", u.input_token_details], ["output", u.output_token_details]] as any) for (const [k, v] of Object.entries(det ?? {})) { e[`${side}_${k}`] = v; e[side] = Math.max(0, e[side] - (v as number)); }
        n.exp.usage = e;
      }
      fire(n, "handleLLMEnd", { generations, ...(tokenUsage ? { llmOutput: { tokenUsage } } : r.pick<any>([{}, { llmOutput: {} }])) }, n.runId, pid);
    }
  };
  // random interleaving of several traces
  const crowd = r.bool(0.003) ? r.int(1010, 1100) : 0; // very many runs open at once
  const total = r.int(2, 14) + crowd;
  if (crowd) { for (let i = 0; i < crowd; i++) start(make(i && r.bool(0.7) ? r.pick(nodes.filter((x) => x.kind !== "retriever")) : undefined)); o.count("crowds"); }
  const order: string[] = [];
  let guard = 0;
  while (guard++ < 400 + crowd) {
    const openNodes = nodes.filter((n) => n.started && !n.ended);
    const canStart = nodes.length < total;
    if (!canStart && !openNodes.length) break;
    const act = r.weighted<string>([[canStart ? 4 : 0, "start"], [openNodes.length ? 3 : 0, "end"], [openNodes.length ? 1 : 0, "misc"], [1, "time"]]);
    if (act === "time") { await sim.advance(r.int(1, 20)); if (endsSince.length === 1 && !endsSince[0].weird) lastTraces.push({ n: endsSince[0], got: h.last_trace_id }); endsSince = []; continue; }
    if (act === "start") { const live = openNodes.filter((x) => x.kind !== "retriever"); const n = make(live.length && r.bool(0.75) ? r.pick(live) : undefined); order.push("s" + n.kind + (n.parent?.i ?? "")); start(n); continue; }
    const n = r.pick(openNodes);
    if (act === "end") { if (n.kids.some((k) => !k.ended) && r.bool(0.8)) continue; order.push("e" + n.i); end(n); continue; }
    if ((n.kind === "llm" || n.kind === "chat") && !n.weird) { n.exp.firstToken ??= Date.now(); fire(n, "handleLLMNewToken", "tok", { prompt: 0, completion: 0 }, n.runId, n.parent?.runId); }
    else if (n.kind === "chain" && !n.weird) {
      if (r.bool(0.7)) { const act = { tool: `act${n.i}`, toolInput: r.pick<any>(["x", "", { q: 1 }]), log: r.pick(["l", "", "Thought: a\nAction: b"]) }; (n.acts ??= []).push(act); fire(n, "handleAgentAction", act, n.runId, n.parent?.runId); n.actions++; o.count("agent-actions"); }
      else { n.exp.finish = { returnValues: { output: "x" + r.plain(1, 3) }, log: "" }; fire(n, "handleAgentEnd", n.exp.finish, n.runId, n.parent?.runId); }
    }
  }
  for (const n of nodes) if (!n.ended) end(n);
  for (const p of outers) p.end();
  await Promise.all(calls);
  await sim.settle(3);
  if (sim.unhandled.length) o.check(false, "unhandled", () => show(sim.unhandled[0]));
  await sim.drive(processor.forceFlush());
  if (dark) { if (!oddEnds) o.equal(footprint(h), size0, "retained", "per-run entries held by the handler after all unsampled runs ended:"); o.note = { dark, order }; o.seen("dark" + order.join(",")); return; }
  const ofSecond = new Set<string>(exporter.spans.filter((s) => s.attributes["langfuse.version"] === "second" && !outers.some((p) => idOf(p.otelSpan) === idOf(s.span))).map((s) => idOf(s.span))); // the span that is active when a root run starts gets its trace attributes too
  const second = exporter.spans.filter((s) => ofSecond.has(idOf(s.span)) || ofSecond.has(parentOf(s.span)!));
  const spans = exporter.spans.filter((s) => !second.includes(s));
  if (h2) {
    if (!oddEnds) o.equal(footprint(h2), size2, "retained", "per-run entries held by a second handler after all runs ended:");
    const twin = new Map(nodes.filter((x) => !x.weird).map((n) => { const mine = second.filter((s) => s.name === n.name); o.check(mine.length === 1, "exactly-one", () => `${mine.length} ended observations of a second handler for ${n.kind} run ${n.name} (${show(n.exp)})`); return [n, mine[0]] as const; }));
    for (const [n, s] of twin) { o.equal(s.attributes[A + "type"], n.exp.type, "kind"); if (!n.parent) o.equal(parentOf(s.span), ctxs.get(n)!.id, "root-parent"); else if (!n.parent.weird) o.equal(parentOf(s.span), idOf(twin.get(n.parent)!.span), "parent", `second handler, ${n.name} under ${n.parent.name}:`); }
    o.count("second-handlers");
  }
  const idByNode = new Map<Node, any>();
  for (const n of nodes.filter((x) => !x.weird)) {
    const mine = spans.filter((s) => s.name === n.name);
    o.check(mine.length === 1, "exactly-one", () => `${mine.length} ended observations for ${n.kind} run ${n.name} (${show(n.exp)})`);
    idByNode.set(n, mine[0]);
  }
  for (const [n, s] of idByNode) {
    const a = s.attributes, what = () => `${n.kind} run ${show(n.exp)} -> ${show(a)}`;
    o.equal(a[A + "type"], n.exp.type, "kind");
    if (!n.parent) { o.equal(parentOf(s.span), ctxs.get(n)!.id, "root-parent"); }
    else if (!n.parent.weird) { o.equal(parentOf(s.span), idOf(idByNode.get(n.parent)!.span), "parent", `${n.name} under ${n.parent.name}:`); o.equal(s.span.spanContext().traceId, idByNode.get(n.parent)!.span.spanContext().traceId, "trace"); o.count("parent-links"); }
    if (n.exp.mentions) for (const t of n.exp.mentions) o.check(typeof a[A + "input"] === "string" && (a[A + "input"] as string).includes(JSON.stringify(t).slice(1, -1)), "input", () => `${show(t)} missing: ${what()}`);
    else o.check(recorded(a[A + "input"], n.exp.input), "input", what);
    if (!n.actions) o.check(n.exp.error !== undefined || recorded(a[A + "output"], n.exp.output) || n.kind === "chain", "output", what);
    if (n.exp.finish && n.exp.error !== undefined) { o.check(recorded(a[A + "output"], n.exp.finish), "agent-finish", what); o.count("agent-finishes"); }
    if (n.kind === "chain" && n.exp.output !== undefined) o.check(recorded(a[A + "output"], n.exp.output), "output", what);
    if (n.exp.error !== undefined) { o.equal(a[A + "level"], "ERROR", "error-level"); o.check(String(a[A + "status_message"]).startsWith(n.exp.error) && (!n.exp.detail || n.exp.type !== "generation" || String(a[A + "status_message"]).includes(n.exp.detail)), "error-message", what); }
    else o.equal(a[A + "level"], n.exp.level, "level");
    o.equal(a[A + "metadata.mk"], n.exp.meta, "metadata");
    for (const k of ["langfusePrompt", "langfuseUserId", "langfuseSessionId"]) o.check(!Object.keys(a).some((x) => x.startsWith(A + "metadata." + k)), "internal-metadata", what);
    if (n.exp.type === "generation") {
      o.equal(a[A + "model.name"], n.exp.model, "model");
      o.check(recorded(a[A + "model.parameters"], n.exp.params), "model-parameters", what);
      if (n.exp.usage) o.check(deepEqual(parsed(a[A + "usage_details"]), n.exp.usage), "usage", what);
      o.equal(a[A + "prompt.name"], n.exp.prompt?.name, "prompt"); o.equal(a[A + "prompt.version"], n.exp.prompt?.version, "prompt");
      if (n.exp.firstToken && n.exp.error === undefined) o.equal(new Date(parsed(a[A + "completion_start_time"])).getTime(), n.exp.firstToken, "first-token");
    }
    if (n.exp.trace) { o.equal(a["user.id"], n.exp.trace["user.id"], "user"); o.equal(a["session.id"], n.exp.trace["session.id"], "session"); o.equal([...(a["langfuse.trace.tags"] ?? [])].sort(), n.exp.trace.tags.sort(), "tags"); o.equal(a["langfuse.trace.metadata.s"], n.exp.trace.s, "trace-metadata"); o.equal(a["langfuse.trace.metadata.n"], n.exp.trace.n, "trace-metadata"); }
    if (cfg?.version) o.equal(a["langfuse.version"], cfg.version, "version");
    const ms = (t: [number, number]) => t[0] * 1000 + t[1] / 1e6;
    o.check(Math.abs(ms(s.span.endTime) - n.exp.endAt) < 2 && Math.abs(ms(s.span.startTime) - n.startAt!) < 2, "times", () => `${n.name}: observation [${ms(s.span.startTime)}, ${ms(s.span.endTime)}], run [${n.startAt}, ${n.exp.endAt}]`);
    o.count("runs-" + n.kind);
    if (n.actions) { const acts = spans.filter((x) => x.name === `act${n.i}`); o.equal(acts.length, n.actions, "agent-actions"); for (const x of acts) { o.equal(parentOf(x.span), idOf(s.span), "agent-action-parent"); o.check(n.acts!.some((w) => deepEqual(parsed(x.attributes[A + "input"]), w)), "agent-action-input", () => show(x.attributes)); } }
    if (n.parent && (a["langfuse.trace.tags"] as any)?.includes("rt" + n.i)) o.check(false, "nested-tags", () => `the tags of nested run ${n.name} became tags of the trace`);
  }
  for (const l of lastTraces) { o.equal(l.got, idByNode.get(l.n)!.span.spanContext().traceId, "last-trace-id", `after run ${l.n.name} ended:`); o.count("last-trace-ids"); }
  const known = new Set<string>([...nodes.map((n) => n.name), ...nodes.map((n) => "act" + n.i), ...outers.map((p) => p.otelSpan.name)]);
  o.check(spans.filter((s) => !known.has(s.name)).length <= nodes.filter((n) => n.weird).length, "extra", () => `extra observations ${show(spans.filter((s) => !known.has(s.name)).map((s) => s.name))}`);
  if (!oddEnds) o.equal(footprint(h), size0, "retained", "per-run entries held by the handler after all runs ended:");
  o.note = { runs: nodes.map((n) => n.kind + (n.weird ? "?" : "")), order };
  o.seen(order.join(","));
}

/** Real LangChain runnables; an independent recording handler supplies the expected run tree. */
async function library(r: Rng, o: Obs) {
  setEnv({});
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const h: any = new CallbackHandler({ tags: ["x"] });
  const size0 = footprint(h);
  const runs = new Map<string, any>();
  const st = (type: string) => (...a: any[]) => { const [, , runId, parentRunId] = a; runs.set(runId, { type, parentRunId, ends: 0 }); };
  const en = (status: string) => (x: any, runId: string) => { const q = runs.get(runId); if (q) { q.ends++; q.status = status; q.err = status === "error" ? String(x) : undefined; } };
  class Recorder extends BaseCallbackHandler { name = "rec"; awaitHandlers = true;
    handleChainStart = st("span") as any; handleLLMStart = st("generation") as any; handleChatModelStart = st("generation") as any; handleToolStart = st("tool") as any; handleRetrieverStart = st("span") as any;
    handleChainEnd = en("ok") as any; handleLLMEnd = en("ok") as any; handleToolEnd = en("ok") as any; handleRetrieverEnd = en("ok") as any;
    handleChainError = en("error") as any; handleLLMError = en("error") as any; handleToolError = en("error") as any; handleRetrieverError = en("error") as any; }
  let uid = 0;
  const wait = () => { const d = r.pick([0, 0, 1, 7, 30]); return d ? new Promise((x) => setTimeout(x, d)) : Promise.resolve(); };
  const leaf = (): any => r.weighted<() => any>([
    [3, () => { const fail = r.bool(0.12), id = uid++; return RunnableLambda.from(async (x: any) => { await wait(); if (fail) throw new Error("lambda" + id); return String(x?.content ?? x) + id; }); }],
    [3, () => RunnableSequence.from([RunnableLambda.from((x: any) => String(x?.content ?? x)), new FakeListChatModel({ responses: ["answer" + uid++], sleep: r.pick([undefined, 5]) })])],
    [1, () => RunnableSequence.from([RunnableLambda.from((x: any) => String(x?.content ?? x)), new FakeLLM({ response: "llm" + uid++, thrownErrorString: r.bool(0.2) ? "llm down" : undefined })])],
    [1.5, () => { const t = makeTool(async (x: any) => { await wait(); if (r.bool(0.15)) throw new Error("tool"); return "tool " + x; }, { name: "tool" + uid++, description: "d" }); return RunnableSequence.from([RunnableLambda.from((x: any) => String(x?.content ?? x)), t as any]); }],
    [1, () => RunnableSequence.from([RunnableLambda.from((x: any) => String(x?.content ?? x)), new FakeRetriever({ output: [{ pageContent: "doc", metadata: {} } as any] }), RunnableLambda.from((d: any) => d[0].pageContent)])],
  ])();
  const build = (depth: number): any => depth === 0 ? leaf() : r.weighted<() => any>([
    [2, leaf],
    [3, () => RunnableSequence.from([build(depth - 1), build(depth - 1), ...(r.bool(0.3) ? [build(depth - 1)] : [])] as any)],
    [2, () => RunnableSequence.from([RunnableParallel.from({ a: build(depth - 1), b: build(depth - 1) } as any), RunnableLambda.from((x: any) => Object.keys(x).join())] as any)],
    [1, () => { const a = build(depth - 1); return RunnableLambda.from(async (x: any, c: any) => { const y = await a.invoke(x, c); return y; }); }],
    [1, () => build(depth - 1).withFallbacks([leaf()])],
  ])();
  const jobs = r.list(r.int(1, 3), (i) => async () => {
    const chain = build(r.int(1, 3));
    const cfg = { callbacks: [h, new Recorder()], runName: "job" + i };
    if (r.bool(0.25)) { try { for await (const _ of await chain.stream("in" + i, cfg)) { void _; } } catch {} }
    else if (r.bool(0.25)) { try { await chain.batch(["a", "b"], { callbacks: cfg.callbacks }); } catch {} }
    else { try { await chain.invoke("in" + i, cfg); } catch {} }
  });
  const d = await sim.drive(Promise.all(jobs.map((j) => j())));
  o.check(d.status === "fulfilled", "never-settles", () => show(d));
  await sim.drive(awaitAllCallbacks());
  await sim.drive(sim.drain?.() ?? Promise.resolve());
  await sim.settle(5);
  await sim.drive(processor.forceFlush());
  // shape of the recorded forest against the exported forest, as multisets of canonical trees
  const canon = (id: string | undefined, kids: Map<string | undefined, any[]>, label: (x: any) => string, key: (x: any) => string): string[] => (kids.get(id) ?? []).map((x) => label(x) + "(" + canon(key(x), kids, label, key).join(",") + ")").sort();
  const group = (xs: any[], k: (x: any) => any) => { const m = new Map<any, any[]>(); for (const x of xs) m.set(k(x), [...(m.get(k(x)) ?? []), x]); return m; };
  const ended = [...runs].filter(([, q]) => q.ends > 0).map(([id, q]) => ({ id, ...q }));
  const want = canon(undefined, group(ended, (x) => x.parentRunId), (x) => x.type + (x.status === "error" ? "!" : ""), (x) => x.id);
  const got = canon(undefined, group(exporter.spans, (x) => parentOf(x.span)), (x) => x.attributes[A + "type"] + (x.attributes[A + "level"] === "ERROR" ? "!" : ""), (x) => idOf(x.span));
  o.equal(got, want, "run-tree", "exported forest vs run forest:");
  if ([...runs.values()].every((q) => q.ends > 0)) o.equal(footprint(h), size0, "retained", "per-run entries held by the handler after all runs ended:");
  else o.count("unended-library-runs");
  o.count("library-runs", ended.length); o.count("library-errors", ended.filter((x) => x.status === "error").length);
  o.note = { trees: want };
  o.seen(want.join(";"));
}

defineCheck("C19", {
  rule: "events: random forests of runs, random interleavings of start/token/agent/end/error callbacks (also from foreign contexts), typed payloads with null or empty fields plus arbitrary junk payloads; a per-run model gives the expected observation. library: random LangChain runnables (sequences, parallels, lambdas, models, tools, retrievers, fallbacks, streams, batches) with an independent recording handler as oracle for the run tree. Distinct by event order or tree shape.",
  required: ["runs-chain", "runs-llm", "runs-chat", "runs-tool", "runs-retriever", "errors", "parent-links", "agent-actions", "prompt-links", "odd-payloads", "odd-ends", "mixed-messages", "second-handlers", "unsampled", "last-trace-ids", "orphans", "crowds", "library-runs", "library-errors"],
  assumptions: ["a child run starts while its parent run is still open", "payloads of runs whose observation is checked follow LangChain's types (null or undefined values included); for other payloads only absence of disturbance is checked"],
}, [{ name: "events", quick: 1500, run: events }, { name: "library", quick: 150, run: library }]);
