// Scripted OpenAI-like client: every response shape the service sends, with the expected generation content.
import { Rng } from "./check";

export type Call = {
  id: number; path: string[]; args: any[]; kind: "value" | "reject" | "throw" | "stream" | "directstream" | "sync";
  value?: any; error?: any; items?: any[]; failAt?: number; breakAt?: number; delays: number[];
  expect: { input: any; model: any; output: any; usage?: any; anyOutput?: boolean };
  // observed by the fake
  hits: { self: any; args: any[] }[]; returned: number; pulled: number;
};

const usageOf = (r: Rng): { usage: any; expect: any } => {
  const det = (keys: string[], max: number) => { const o: any = {}; for (const k of r.subset(keys, 0.5)) o[k] = r.int(0, max); return o; };
  const sum = (o: any) => Object.values(o ?? {}).reduce((a: number, b: any) => a + b, 0);
  const pre = (p: string, o: any) => Object.fromEntries(Object.entries(o ?? {}).map(([k, v]) => [p + k, v]));
  const zero = r.bool(0.06), i = zero ? 0 : r.int(0, 200), out = zero ? 0 : r.int(0, 200), total = r.pick([i + out, i + out, r.int(0, 500)]);
  const over = r.bool(0.2); // details larger than the total must not go negative
  const id = r.bool(0.6) ? det(["cached_tokens", "audio_tokens"], over ? 300 : Math.floor(i / 2)) : undefined;
  const od = r.bool(0.6) ? det(["reasoning_tokens", "audio_tokens", "accepted_prediction_tokens"], over ? 300 : Math.floor(out / 3)) : undefined;
  const expect = { input: Math.max(i - sum(id), 0), output: Math.max(out - sum(od), 0), total, ...pre("input_", id), ...pre("output_", od) };
  const nul = r.bool(0.2);
  const usage = r.bool()
    ? { prompt_tokens: i, completion_tokens: out, total_tokens: total, ...(id ? { prompt_tokens_details: id } : nul ? { prompt_tokens_details: null } : {}), ...(od ? { completion_tokens_details: od } : nul ? { completion_tokens_details: null } : {}) }
    : { input_tokens: i, output_tokens: out, total_tokens: total, ...(id ? { input_tokens_details: id } : nul ? { input_tokens_details: null } : {}), ...(od ? { output_tokens_details: od } : {}) };
  return { usage, expect };
};

export function genCall(r: Rng, id: number): Call {
  const kind = r.weighted<Call["kind"]>([[4, "value"], [1.5, "reject"], [0.7, "throw"], [5, "stream"], [0.8, "directstream"], [0.7, "sync"]]);
  const api = kind === "sync" ? "helper" : r.weighted([[5, "chat"], [2, "completion"], [3, "responses"], [1, "embeddings"], [1, "files"]]);
  const model = r.pick(["gpt-4o", "gpt-4o-mini", "o1"]) + (r.bool(0.3) ? "-" + r.plain(1, 3) : "");
  const messages = r.list(r.int(0, 3), () => ({ role: r.pick(["user", "system", "assistant"]), content: r.text(12) }));
  const req: any = { model, temperature: r.pick([undefined, 0, 0.7]), stream: kind === "stream" || undefined, user: r.pick([undefined, "u"]) };
  for (const [k, v] of [["top_p", [0, 1]], ["max_tokens", [0, 50]], ["n", [1]], ["seed", [0, 7]], ["stop", ["x", ["a", "b"]]], ["presence_penalty", [0, -1]], ["frequency_penalty", [0.5]], ["logprobs", [false, true]], ["top_logprobs", [0, 3]], ["logit_bias", [{ "50256": -100 }, {}]], ["response_format", [{ type: "json_object" }]]] as [string, any[]][]) if (r.bool(0.2)) req[k] = r.pick(v);
  let path: string[], args: any[], input: any;
  if (api === "chat") { path = ["chat", "completions", "create"]; req.messages = messages; if (r.bool(0.3)) req.tools = [{ type: "function", function: { name: "f" } }]; if (r.bool(0.2)) req.tool_choice = "auto"; if (r.bool(0.1)) { req.functions = [{ name: "f", parameters: {} }]; req.function_call = r.pick<any>(["auto", { name: "f" }]); } input = { messages, ...(req.functions ? { functions: req.functions, function_call: req.function_call } : {}), ...(req.tools ? { tools: req.tools } : {}), ...(req.tool_choice ? { tool_choice: req.tool_choice } : {}) }; args = [req]; }
  else if (api === "completion") { path = ["completions", "create"]; req.prompt = r.text(10) || "p"; input = req.prompt; args = [req]; }
  else if (api === "responses") { path = ["responses", "create"]; req.input = r.pick<any>([r.text(10) || "in", messages.length ? messages : [{ role: "user", content: "x" }]]); input = req.input; args = [req]; }
  else if (api === "embeddings") { path = ["embeddings", "create"]; req.input = ["a", r.plain()]; input = req.input; args = [req]; }
  else if (api === "files") { path = ["files", "retrieve"]; args = r.pick<any[]>([["file-" + r.plain()], ["file-" + r.plain()], [undefined, { q: 1 }], [null, undefined, "z"], []]); input = undefined; }
  else { path = ["helper"]; args = r.pick<any[]>([[], [null], [5], ["x"], [{ model, prompt: "q" }]]); input = args[0]?.prompt; }
  if (r.bool(0.3)) args.push({ timeout: 5, headers: { a: "b" } });
  const reqModel = typeof args[0] === "object" && args[0] ? args[0].model : undefined;
  const c: Call = { id, path, args, kind, delays: r.list(12, () => r.pick([0, 0, 1, 5, 40])), expect: { input, model: reqModel, output: undefined }, hits: [], returned: 0, pulled: 0 };
  const err = () => { const e: any = r.pick([() => new Error("api " + r.plain()), () => Object.assign(new Error("429 rate limit"), { status: 429, headers: {} }), () => new TypeError("fetch failed"), () => Object.assign(new Error("Request was aborted."), { name: r.pick(["AbortError", "APIUserAbortError", "TimeoutError"]) }), () => new DOMException("This operation was aborted", "AbortError"), () => Object.assign(new Error("terminated"), { code: "ECONNRESET", cause: new Error("other side closed") }), () => Object.assign(new Error(""), { status: 500 }), () => "string error", () => ({ code: "x" }), () => Object.create(null), () => ({ code: 1, toString() { throw new Error("unprintable"); } }), () => null, () => Symbol("e"), () => 0, () => Object.defineProperty(new Error("x"), "message", { get() { throw new Error("getter"); } })])(); return e; };
  const u = r.bool(0.7) ? usageOf(r) : undefined;
  const respModel = r.bool(0.7) ? { model: model + "-2024" } : {};
  if (kind === "reject" || kind === "throw") { c.error = err(); return c; }
  if (kind === "value" || kind === "sync") {
    if (kind === "sync") { c.value = r.pick<any>([undefined, null, 5, "text", { a: 1 }, [1], true]); c.expect.anyOutput = true; return c; }
    if (api === "chat" || api === "completion") {
      const shape = r.weighted([[6, "one"], [1, "many"], [1, "none"], [0.5, "null"], [0.5, "nochoices"]]);
      const choice = () => api === "chat" ? { index: 0, finish_reason: "stop", message: r.pick<any>([{ role: "assistant", content: r.text(10) }, { role: "assistant", content: null, tool_calls: [{ id: "1", function: { name: "f", arguments: "{}" } }] }, { role: "assistant", content: null, refusal: "no" }]) } : { index: 0, text: r.text(10) };
      const choices: any = shape === "none" ? [] : shape === "null" ? r.pick<any>([[null], [{}], [{ finish_reason: "content_filter" }]]) : [choice(), ...(shape === "many" ? [choice()] : [])];
      c.value = { id: "c1", object: "x", ...respModel, ...(shape === "nochoices" ? {} : { choices }), ...(u ? { usage: u.usage } : r.bool(0.3) ? { usage: null } : {}), ...(r.bool(0.2) ? { system_fingerprint: null, service_tier: null } : {}) };
      if (shape === "one" || shape === "many") c.expect.output = api === "chat" ? choices[0].message : choices[0].text; else c.expect.anyOutput = true;
    } else if (api === "responses") {
      const outs = r.list(r.int(0, 3), () => ({ type: "message", content: [{ type: "output_text", text: r.text(6) }] }));
      const text = r.bool(0.6) ? r.text(8) : undefined;
      c.value = { id: "r1", ...respModel, output: outs, ...(text !== undefined ? { output_text: text } : {}), ...(u ? { usage: u.usage } : {}), status: r.pick(["completed", "incomplete"]), error: null, tools: [], ...Object.fromEntries(r.subset(["temperature", "top_p", "store", "parallel_tool_calls", "max_output_tokens", "truncation"], 0.4).map((k) => [k, k === "truncation" ? r.pick(["auto", "disabled"]) : /store|parallel/.test(k) ? r.bool() : r.pick([0, 0, 1, 0.5, null])])) };
      c.expect.output = text ? text : outs.length > 1 ? outs : outs.length === 1 ? outs[0] : undefined;
      if (!outs.length && !text) c.expect.anyOutput = true;
    } else if (api === "embeddings") { c.value = { object: "list", ...respModel, data: [{ embedding: [0.1, 0.2] }], ...(u ? { usage: u.usage } : {}) }; c.expect.anyOutput = true; }
    else { c.value = r.pick<any>([{ id: "file-1", bytes: 5 }, null, "raw text", undefined, [1, 2]]); c.expect.anyOutput = true; }
    if (u && c.value && typeof c.value === "object" && c.value.usage) c.expect.usage = u.expect;
    if (c.value && typeof c.value === "object" && c.value.model) c.expect.model = c.value.model;
    return c;
  }
  // streams
  const items: any[] = [];
  if (api === "responses") {
    items.push({ type: "response.created", response: { id: "r", ...respModel, output: [], status: "in_progress" } });
    for (let k = r.int(0, 4); k > 0; k--) items.push({ type: "response.output_text.delta", delta: r.text(4) });
    const outs = r.list(r.int(1, 3), () => ({ type: "message", content: [{ text: r.text(5) }] }));
    // the service may restate the response while it grows
    if (r.bool(0.3)) for (let k = r.int(1, 2); k > 0; k--) items.splice(r.int(1, items.length), 0, { type: "response.in_progress", response: { id: "r", ...respModel, output: r.list(r.int(0, 2), () => ({ type: "message", content: [{ text: "part" + r.text(3) }] })), status: "in_progress", ...(r.bool(0.3) ? { usage: usageOf(r).usage } : {}) } });
    items.push({ type: "response.completed", response: { id: "r", ...respModel, output: outs, status: "completed", ...(u ? { usage: u.usage } : {}) } });
    c.expect.output = outs.length > 1 ? outs : outs[0];
    if (u) c.expect.usage = u.expect;
    if ((respModel as any).model) c.expect.model = (respModel as any).model;
  } else if (api === "chat" || api === "completion") {
    const tools = api === "chat" && r.bool(0.4) ? r.list(r.int(1, 3), (i) => ({ index: i, name: "tool" + i + r.plain(1, 3), args: JSON.stringify({ q: r.text(6), i }) })) : [];
    const continuous = !!u && r.bool(0.25); // services that report the usage so far with every chunk: the last report counts
    let sofar = 0;
    const chunk = (delta: any, extra: any = {}) => items.push({ id: "ck", object: "chat.completion.chunk", choices: [{ index: 0, delta, finish_reason: null, ...extra }], ...(continuous ? { usage: { prompt_tokens: 7, completion_tokens: ++sofar, total_tokens: 7 + sofar } } : r.bool(0.3) ? { usage: null } : {}) });
    if (r.bool(0.2)) items.push({ id: "ck", choices: [], prompt_filter_results: [] });
    if (tools.length) {
      chunk({ role: "assistant", content: null });
      // each tool call is announced, then its argument pieces follow, possibly interleaved or several per chunk
      const queues = tools.map((t) => { const cut = r.int(0, t.args.length), cut2 = r.int(cut, t.args.length); return [{ index: t.index, id: "id" + t.index, type: "function", function: { name: t.name, arguments: "" } }, ...[t.args.slice(0, cut), t.args.slice(cut, cut2), t.args.slice(cut2)].map((a) => ({ index: t.index, function: { arguments: a } }))]; });
      const inter = r.bool(0.4), saysToo = r.bool(0.1);
      // some providers repeat the name with every piece
      if (r.bool(0.15)) for (const q of queues) for (const p of q as any[]) p.function.name = (q[0] as any).function.name;
      while (queues.some((q) => q.length)) {
        const live = queues.filter((q) => q.length);
        const q = inter ? r.pick(live) : live[0];
        const tcs = [q.shift()!];
        if (inter && r.bool(0.3)) { const q2 = queues.find((x) => x !== q && x.length); if (q2) tcs.push(q2.shift()!); }
        chunk({ ...(saysToo ? { content: r.text(4) } : {}), tool_calls: tcs });
        if (r.bool(0.1)) chunk({ tool_calls: [] });
      }
      chunk({}, { finish_reason: "tool_calls" });
      c.expect.output = { tool_calls: tools.map((t) => ({ function: { name: t.name, arguments: t.args } })) };
    } else {
      const parts = r.list(r.bool(0.02) ? r.int(120, 600) : r.int(0, 6), () => r.text(5)), texts: string[] = [];
      for (const p of parts) if (api === "chat") { chunk({ content: p }); if (r.bool(0.1)) chunk(r.pick<any>([{ refusal: "no" }, { role: "assistant" }, { content: null }, { content: null, refusal: "x" }, { function_call: { name: "f", arguments: "{" } }, { reasoning_content: "hm" }])); if (parts.length && r.bool(0.15)) { chunk({ content: p }); texts.push(p); } texts.push(p); } else items.push({ id: "t", object: "text_completion", choices: [{ index: 0, text: p }] });
      if (api === "chat" && r.bool(0.5)) chunk({}, { finish_reason: "stop" });
      if (r.bool(0.2)) items.push({ id: "ck", choices: [] });
      c.expect.output = (api === "chat" ? texts : parts).join("");
    }
    if (u) { items.push({ id: "ck", choices: [], usage: u.usage }); c.expect.usage = u.expect; }
  } else { items.push(...r.list(r.int(0, 3), () => r.pick<any>([{ a: 1 }, "s", null, 5, { choices: null }, { choices: [null] }, { choices: [{ delta: null }] }]))); c.expect.anyOutput = true; }
  c.items = items;
  if (r.bool(0.2)) { c.failAt = r.int(0, items.length); c.error = err(); }
  if (r.bool(0.2)) c.breakAt = r.int(1, items.length + 1);
  return c;
}

/** The underlying client. Its methods look up the scripted call by the first unconsumed one for their path. */
export function makeClient(next: (path: string) => Call) {
  const method = (path: string) => function (this: any, ...args: any[]): any {
    const c = next(path);
    c.hits.push({ self: this, args });
    if (c.kind === "throw") throw c.error;
    if (c.kind === "sync") return c.value;
    const wait = (i: number) => (c.delays[i % 12] ? new Promise((x) => setTimeout(x, c.delays[i % 12])) : Promise.resolve());
    const stream = () => ({
      controller: {},
      [Symbol.asyncIterator]() {
        let i = 0, done = false;
        return {
          async next() { await wait(i); c.pulled++; if (done) return { done: true, value: undefined }; if (c.failAt === i) { done = true; throw c.error; } if (i >= c.items!.length) { done = true; return { done: true, value: undefined }; } return { done: false, value: c.items![i++] }; },
          async return(v: any) { done = true; c.returned++; return { done: true, value: v }; },
        };
      },
    });
    if (c.kind === "directstream") return stream();
    if (c.kind === "stream") return wait(0).then(stream);
    return wait(0).then(() => { if (c.kind === "reject") throw c.error; return c.value; });
  };
  class Completions { create = method("chat.completions.create"); limit = 5; }
  class Chat { completions = new Completions(); }
  class Resource { constructor(path: string, name: string) { (this as any)[name] = method(path + "." + name); } }
  class Embeddings {} // like the real resources: methods on the prototype
  (Embeddings.prototype as any).create = method("embeddings.create");
  class FakeOpenAI {
    #secret = "hidden";
    apiKey = "sk-test"; baseURL = "https://api.test/v1"; maxRetries = 2; organization = null; project = undefined; tags = ["a", "b"]; created = new Date(0); flag = false; zero = 0;
    chat = new Chat();
    completions = new Resource("completions", "create"); responses = new Resource("responses", "create"); embeddings = new Embeddings(); files = new Resource("files", "retrieve");
    helper = method("helper");
    get computed() { return this.#secret + "!"; }
    ownMethodUsingPrivate() { return this.#secret; }
    [Symbol.toStringTag] = "FakeOpenAI";
  }
  return new FakeOpenAI() as any;
}

/** Runs one scripted call against a client and records everything the application can see. */
export async function perform(client: any, c: Call) {
  const seen: any = { items: [], startAt: Date.now() };
  let target = client;
  for (const p of c.path.slice(0, -1)) target = target[p];
  let res: any;
  try { res = target[c.path.at(-1)!](...c.args); } catch (e) { seen.threw = [e]; return seen; }
  seen.isPromise = res instanceof Promise;
  try { res = await res; } catch (e) { seen.rejected = [e]; return seen; }
  if ((c.kind === "stream" || c.kind === "directstream") && res && typeof res[Symbol.asyncIterator] === "function") {
    seen.streamed = true;
    try {
      for await (const x of res) { seen.items.push(x); seen.firstAt ??= Date.now(); if (c.breakAt !== undefined && seen.items.length >= c.breakAt) { seen.broke = true; break; } }
      seen.finished = true;
    } catch (e) { seen.streamError = [e]; }
  } else seen.value = [res];
  return seen;
}
