import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, installContextManager, RecExporter, mediaIdOf } from "../lib/env";
import { fakeHttp } from "../lib/fakehttp";
import { endpoints, makeCall, invoke } from "../lib/endpoints";
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { LangfuseClient } from "@langfuse/client";
import { setLangfuseTracerProvider, startObservation, startActiveObservation, observe, propagateAttributes } from "@langfuse/tracing";
import { configureGlobalLogger, resetGlobalLogger, LangfuseMedia, uploadMedia, LogLevel } from "@langfuse/core";
import { observeOpenAI } from "@langfuse/openai";
import { CallbackHandler } from "@langfuse/langchain";
import { LangfuseBrowserClient } from "@langfuse/browser";
import { inspect } from "node:util";

function forms(pk: string, sk: string) {
  const out = new Set<string>([sk, encodeURIComponent(sk), Buffer.from(sk).toString("base64").replace(/=+$/, ""), Buffer.from(`${pk}:${sk}`).toString("base64").replace(/=+$/, ""), Buffer.from(sk).toString("hex"), JSON.stringify(sk).slice(1, -1), Buffer.from(`${pk}:${sk}`).toString("base64url").replace(/=+$/, "")]);
  // the secret inside any base64 text, at each alignment
  for (const pad of [0, 1, 2]) { const b = Buffer.from("x".repeat(pad) + sk).toString("base64"); out.add(b.slice(pad ? 4 : 0, Math.floor(((sk.length + pad) * 8) / 24) * 4)); }
  return [...out].filter((x) => x.length >= 8);
}
const text = (x: any): string => {
  let s = "";
  try { s += typeof x === "string" ? x : inspect(x, { depth: 8, showHidden: false, maxStringLength: null, maxArrayLength: null, breakLength: Infinity }); } catch (e) { s += String(e); }
  if (x instanceof Error) { s += "\n" + x.message + "\n" + x.stack; for (const k of Object.getOwnPropertyNames(x)) if (k !== "stack" && k !== "message") s += "\n" + k + text((x as any)[k]); }
  return s;
};
async function run(r: Rng, o: Obs) {
  installContextManager(); fakeHttp.reset();
  const tok = "s3cr" + r.plain(10, 16);
  const pk = "pk-lf-" + r.plain(4, 8), sk = "sk-lf-" + tok + r.pick(["", "", "-é", "+/=", " x", "%41"]);
  const where = r.pick(["explicit", "env", "both"]);
  const host = r.pick(["lf.test:3000", "cloud.langfuse.com", "lf.example.org"]);
  const base = `https://${host}`;
  setEnv({ ...(where !== "explicit" ? { LANGFUSE_PUBLIC_KEY: pk, LANGFUSE_SECRET_KEY: sk } : {}), LANGFUSE_BASE_URL: base, ...(r.bool(0.3) ? { LANGFUSE_TRACING_ENVIRONMENT: "e" } : {}) });
  const keys = where === "env" ? {} : { publicKey: pk, secretKey: sk };
  const level = r.pick([LogLevel.DEBUG, LogLevel.DEBUG, LogLevel.DEBUG, LogLevel.INFO, LogLevel.ERROR]);
  configureGlobalLogger({ level });
  const outputs: { what: string; text: string }[] = [];
  const out = (what: string, x: any) => outputs.push({ what, text: text(x) });
  const bad = (): any => r.weighted<any>([[6, undefined], [1, { status: r.pick([400, 401, 403, 404, 422]), body: { message: "no" } }], [0.5, { status: 500, body: "oops" }], [0.5, { error: new TypeError("fetch failed") }], [0.3, { status: 200, body: "<html>" }], [0.2, { hang: true }]]);
  const storage = r.pick(["bucket.s3.test", "storage.googleapis.com", "acct.blob.core.windows.net", "media." + host, "not" + host, host.replace(/(:\d+)?$/, ":9000"), host.split(":")[0] + ".evil.test"]);
  const sharedStorage = r.bool(0.1);
  sim.onFetch = (q) => {
    const b = bad();
    if (b) return b;
    if (q.host !== host && q.method === "GET") return { status: 200, body: "media-bytes", headers: { "content-type": "text/plain" } };
    if (q.method === "PUT" && q.path.startsWith("/up/")) return { status: r.pick([200, 200, 403, 503]), body: "" };
    if (q.path === "/api/public/media" && q.method === "POST") return { status: 200, body: { mediaId: String(q.json?.sha256Hash ?? "").replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22), uploadUrl: `https://${storage}/up/1?sig=x` } };
    if (q.path.startsWith("/api/public/media/") && q.method === "GET") return { status: 200, body: { mediaId: "m", url: `https://${storage}/get/1?sig=y`, contentType: "text/plain", contentLength: 3, uploadedAt: "x", urlExpiry: "x" } };
    if (q.path.includes("/v2/prompts")) return { status: 200, body: { type: "text", name: "n", version: 1, prompt: "hi {{x}}", config: {}, labels: [], tags: [] } };
    if (q.path.endsWith("/ingestion")) return { status: 207, body: { successes: (q.json?.batch ?? []).map((e: any) => ({ id: e.id, status: 201 })), errors: r.bool(0.2) ? [{ id: "x", status: 400, message: "bad" }] : [] } };
    if (q.path.endsWith("/projects")) return { status: 200, body: { data: [{ id: "p1", name: "n" }] } };
    if (q.path.includes("/v2/datasets/")) return { status: 200, body: { id: "d1", name: "d", metadata: {} } };
    if (q.path.includes("/dataset-items") && q.method === "GET") return { status: 200, body: { data: [{ id: "i1", datasetId: "d1", datasetName: "d", input: "x", mediaReferences: [] }], meta: { page: 1, totalPages: 1 } } };
    return { status: 200, body: { id: "x", data: [], meta: { totalPages: 1 } } };
  };
  fakeHttp.onRequest = () => r.pick<any>([{ status: 200 }, { status: 200 }, { status: 401, body: "denied" }, { status: 500 }, { error: Object.assign(new Error("connect ECONNREFUSED"), { code: "ECONNREFUSED" }) }]);
  const rec = r.bool(0.5) ? new RecExporter() : undefined;
  const processor = new LangfuseSpanProcessor({ ...keys, ...(rec ? { exporter: rec as any } : {}), exportMode: r.pick(["immediate", "batched"]), timeout: r.pick([undefined, 1, 5, 30, 120, 3600]), ...(r.bool(0.3) ? { mask: ({ data }: any) => { if (r.bool(0.2)) throw new Error("mask"); return data; } } : {}), ...(r.bool(0.3) ? { additionalHeaders: { "X-A": "b" } } : {}) } as any);
  setLangfuseTracerProvider(new BasicTracerProvider({ spanProcessors: [processor] }));
  const client = new LangfuseClient({ ...keys, timeout: r.pick([undefined, 1, 5, 30, 120, 3600]), ...(r.bool(0.3) ? { additionalHeaders: { "X-A": "b" } } : {}) });
  const bytes = new TextEncoder().encode(r.plain(5, 20));
  const uri = "data:text/plain;base64," + Buffer.from(bytes).toString("base64");
  const ops: Record<string, () => any> = {
    prompt: async () => { const p = await client.prompt.get("p" + r.int(0, 3), { ...(r.bool(0.3) ? { fallback: "fb" } : {}), ...(r.bool() ? { fetchTimeoutMs: 200 } : {}), maxRetries: r.int(0, 1) } as any); out("prompt.toJSON", p.toJSON()); },
    createPrompt: () => client.prompt.create({ name: "p", prompt: "x" } as any),
    updatePrompt: () => client.prompt.update({ name: "p", version: 1, newLabels: ["a"] }),
    score: async () => { client.score.create({ name: "s", value: 1, traceId: "t", ...(r.bool(0.3) ? { metadata: { a: 1 } } : {}) } as any); await client.score.flush(); },
    api: async () => { const e = r.pick(endpoints); out("api result", await invoke(client.api, e, makeCall(r, e).args, { maxRetries: 0, timeoutInSeconds: 1 })); },
    dataset: async () => { const d = await client.dataset.get("d"); const res = await d.runExperiment({ name: "e", task: async ({ input }: any) => { if (r.bool(0.3)) throw new Error("task"); return input; }, evaluators: [async () => { if (r.bool(0.3)) throw new Error("ev"); return { name: "q", value: 1 }; }] }); out("experiment", await res.format()); },
    traceUrl: async () => out("url", await client.getTraceUrl("t1")),
    upload: () => uploadMedia({ apiClient: client.api, media: new LangfuseMedia({ source: "bytes", contentBytes: bytes, contentType: "text/plain" }), traceId: "t", field: "input", maxRetries: 1, baseDelay: 5 } as any),
    resolve: async () => out("resolved", await client.media.resolveReferences({ obj: { a: `@@@langfuseMedia:type=text/plain|id=${mediaIdOf(bytes)}|source=bytes@@@` }, resolveWith: "base64DataUri", contentFetchTimeoutMs: 500 } as any)),
    spans: () => propagateAttributes({ userId: "u", asBaggage: r.bool() } as any, async () => startActiveObservation("a", async (s) => { s.update({ input: { t: "hello", m: uri }, metadata: { k: "v" } }); startObservation("c", { output: r.bool() ? uri : "x" }, { asType: "generation" }).end(); await observe(async () => { if (r.bool(0.3)) throw new Error("app"); return 1; }, { name: "o" })(); })),
    openai: async () => { const c: any = observeOpenAI({ apiKey: "other", chat: { completions: { create: async () => { if (r.bool(0.3)) throw new Error("openai"); return { choices: [{ message: { role: "assistant", content: "x" } }] }; } } } } as any); await c.chat.completions.create({ model: "m", messages: [] }); },
    langchain: async () => { const h = new CallbackHandler({ tags: ["a"] }); await h.handleChainStart({ id: ["c"], name: "c" } as any, { input: "x" }, "r1"); if (r.bool()) await h.handleChainError(new Error("lc"), "r1"); else await h.handleChainEnd({ output: "y" }, "r1"); },
    browser: () => new LangfuseBrowserClient({ publicKey: pk, baseUrl: base }).score({ name: "s", value: 1, traceId: "t" } as any),
    missing: () => { if (where === "explicit") { new LangfuseClient(); new LangfuseSpanProcessor({ exporter: rec as any }); } },
    flush: () => processor.forceFlush(),
    serialise: () => { for (const x of [client, client.api, client.score, client.prompt, client.media, client.dataset, client.experiment]) void x; },
  };
  const names = r.list(r.int(3, 9), () => r.pick(Object.keys(ops)));
  o.note = { names, level, where };
  const all = await sim.drive(Promise.all(names.map(async (n) => { if (r.bool(0.5)) await new Promise((x) => setTimeout(x, r.int(0, 50))); try { await ops[n](); } catch (e) { out("error of " + n, e); o.count("errors"); } o.count("op." + n); })), 4 * 3600_000);
  await sim.drive(Promise.resolve(client.shutdown()).catch((e) => out("error of shutdown", e)), 3600_000);
  await sim.drive(processor.forceFlush().catch((e) => out("error of forceFlush", e)).then(() => processor.shutdown()).catch((e) => out("error of processor.shutdown", e)), 3600_000);
  resetGlobalLogger();
  void all; void sharedStorage;
  const needles = forms(pk, sk);
  const clean = (what: string, s: string) => { for (const n of needles) o.check(!s.includes(n), "secret-leaked", () => { const i = s.indexOf(n); return `${what} contains ${JSON.stringify(n)}: ...${s.slice(Math.max(0, i - 120), i + 60)}`; }); o.count("scanned-bytes", s.length); };
  for (const l of sim.logs) { clean("log line", l.args.map(text).join(" ")); o.count("log-lines"); }
  for (const x of outputs) clean(x.what, x.text);
  const auth = "Basic " + Buffer.from(`${pk}:${sk}`).toString("base64");
  for (const q of sim.fetches) {
    for (const [k, v] of Object.entries(q.headers)) if (!(k === "authorization" && q.host === host)) clean(`header ${k} of ${q.method} ${q.url}`, v);
    if (q.host === host && q.headers["authorization"]) { o.check(q.headers["authorization"] === auth || q.headers["authorization"] === `Bearer ${pk}` , "authorization-form", () => `${q.headers["authorization"]}`); o.count("authenticated"); }
    if (q.host !== host) { o.check(q.headers["authorization"] === undefined && q.headers["x-langfuse-public-key"] === undefined, "credentials-to-foreign-host", () => `${q.method} ${q.url} ${show(q.headers)}`); o.count("foreign-requests"); }
    clean("url", q.url); if (q.bodyBytes) clean(`body of ${q.method} ${q.url}`, Buffer.from(q.bodyBytes).toString("utf8"));
  }
  for (const q of fakeHttp.requests) {
    for (const [k, v] of Object.entries(q.headers)) if (!(k === "authorization" && q.url.startsWith(base + "/"))) clean(`header ${k} of OTLP export to ${q.url}`, v);
    o.check(q.headers["authorization"] === auth, "authorization-form", () => show(q.headers));
    clean("OTLP url", q.url); clean("OTLP body", q.body.toString("utf8")); o.count("otlp");
  }
  for (const s of rec?.spans ?? []) { clean("exported span", text({ n: s.span.name, a: s.span.attributes, e: s.span.events, r: s.span.resource?.attributes, s: s.span.status, l: s.span.links })); o.count("exported-spans"); }
  o.seen(`${level} ${[...new Set(names)].sort()} ${where}`);
}
defineCheck("C30", { rule: "a history is non-trivial when its operations produced log lines, requests or spans that were scanned; distinct by log level, set of operations and source of the keys", required: ["log-lines", "authenticated", "foreign-requests", "otlp", "exported-spans", "errors", "scanned-bytes", ...["prompt", "score", "api", "dataset", "upload", "resolve", "spans", "openai", "langchain", "browser"].map((x) => "op." + x)], allowUnhandled: true,
  assumptions: ["the secret is searched for verbatim, URL-encoded, in hex and in base64 at every alignment", "servers do not echo the authorization header"] },
  [{ name: "histories", quick: 700, run }]);
