// Common part of every demonstration. Runs with cwd = the repository, after the build.
const { createRequire } = require("node:module");
const assert = require("node:assert");
const { execSync } = require("node:child_process");
const cwd = process.cwd();
const lf = (n) => require(`${cwd}/packages/${n}/dist/index.cjs`);
const from = (pkg, mod) => createRequire(`${cwd}/packages/${pkg}/dist/index.cjs`)(mod);
const root = (mod) => createRequire(`${cwd}/package.json`)(mod);
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const KEYS = { publicKey: "pk-lf-demo", secretKey: "sk-lf-demo", baseUrl: "http://langfuse.test" };
for (const k of Object.keys(process.env)) if (/^(LANGFUSE|OTEL)_/.test(k)) delete process.env[k];
process.on("unhandledRejection", (e) => { console.error("unhandled rejection", e); process.exit(1); });
setTimeout(() => { console.error("demo timed out"); process.exit(1); }, 120000).unref();

/** Replaces fetch: handler(req) -> {status, body, delay, error, headers}. Records requests. */
const requests = [];
function serve(handler) {
  globalThis.fetch = async (url, init = {}) => {
    const u = new URL(String(url));
    const headers = Object.fromEntries(new Headers(init.headers ?? {}));
    let json; try { json = JSON.parse(init.body); } catch {}
    const req = { url: String(url), path: u.pathname, search: u.search, query: u.searchParams, method: init.method ?? "GET", headers, body: init.body, json, at: Date.now() };
    requests.push(req);
    const r = (await handler(req)) ?? { status: 200, body: {} };
    if (r.hang) return new Promise((_, rej) => init.signal?.addEventListener("abort", () => rej(init.signal.reason ?? new DOMException("aborted", "AbortError"))));
    if (r.delay) await sleep(r.delay);
    if (r.error) throw r.error;
    const st = r.status ?? 200, b = r.body;
    const isRaw = typeof b === "string" || b instanceof Uint8Array;
    req.done = true;
    return new Response(st === 204 ? null : b === undefined ? null : isRaw ? b : JSON.stringify(b), { status: st, headers: { ...(isRaw ? {} : { "content-type": "application/json" }), ...(r.headers ?? {}) } });
  };
}
const ingested = () => requests.filter((r) => r.path.endsWith("/api/public/ingestion") && r.json?.batch).flatMap((r) => r.json.batch);

/** Isolated provider with an in-memory exporter. */
function tracing(params = {}, exporterOverride) {
  const api = from("tracing", "@opentelemetry/api");
  const { BasicTracerProvider } = from("otel", "@opentelemetry/sdk-trace-base");
  const { AsyncLocalStorageContextManager } = createRequire(require.resolve("@opentelemetry/sdk-node", { paths: [cwd] }))("@opentelemetry/context-async-hooks");
  api.context.disable(); api.context.setGlobalContextManager(new AsyncLocalStorageContextManager().enable());
  const exporter = exporterOverride ?? { spans: [], batches: [], export(s, cb) { this.spans.push(...s); this.batches.push(s.length); cb({ code: 0 }); }, async forceFlush() {}, async shutdown() {} };
  const processor = new (lf("otel").LangfuseSpanProcessor)({ ...KEYS, exportMode: "immediate", exporter, ...params });
  const provider = new BasicTracerProvider({ spanProcessors: [processor] });
  lf("tracing").setLangfuseTracerProvider(provider);
  return { api, exporter, processor, provider };
}
const quiet = () => lf("core").configureGlobalLogger({ level: lf("core").LogLevel.NONE });
const main = (f) => f().then(() => { console.log("demo: property holds"); process.exit(0); }, (e) => { console.error("demo: property broken:", e?.stack ?? e); process.exit(1); });
