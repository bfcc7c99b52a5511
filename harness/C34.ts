import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, installContextManager, RecExporter, idOf } from "../lib/env";
import { fakeHttp } from "../lib/fakehttp";
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { setLangfuseTracerProvider, startObservation, propagateAttributes } from "@langfuse/tracing";
import { LANGFUSE_SDK_VERSION } from "@langfuse/core";

const ENV = "langfuse.environment", REL = "langfuse.release";
/** explicit option > environment variable > default */
function cfg<T>(r: Rng, name: string, option: string, mk: () => T, env: Record<string, any>, params: any, dflt?: T): T | undefined {
  const ex = r.bool(0.4) ? mk() : undefined, ev = r.bool(0.4) ? mk() : undefined;
  if (ex !== undefined) params[option] = ex;
  if (ev !== undefined) env[name] = String(ev);
  return ex ?? ev ?? dflt;
}
function setup(r: Rng, params: any, env: any) {
  installContextManager(); setEnv(env);
  const processor = new LangfuseSpanProcessor(params);
  const provider = new BasicTracerProvider({ spanProcessors: [processor] });
  setLangfuseTracerProvider(provider);
  return { processor, provider };
}
const str = (v: any): any => v?.stringValue ?? v?.intValue ?? v?.boolValue ?? (v?.arrayValue ? (v.arrayValue.values ?? []).map(str) : v?.doubleValue);

async function wire(r: Rng, o: Obs) {
  fakeHttp.reset();
  const env: any = {}, params: any = { exportMode: r.pick(["immediate", "batched", undefined]) };
  const bases = ["https://cloud.langfuse.com", "http://lf.test:3000", "https://proxy.test/langfuse"];
  const pk = cfg(r, "LANGFUSE_PUBLIC_KEY", "publicKey", () => "pk-" + r.plain(3, 6), env, params), sk = cfg(r, "LANGFUSE_SECRET_KEY", "secretKey", () => "sk-" + r.plain(3, 6), env, params);
  let base = cfg(r, "LANGFUSE_BASE_URL", "baseUrl", () => r.pick(bases), env, params);
  if (r.bool(0.2)) { env.LANGFUSE_BASEURL = r.pick(bases); base ??= env.LANGFUSE_BASEURL; }
  base ??= "https://cloud.langfuse.com";
  const timeout = cfg(r, "LANGFUSE_TIMEOUT", "timeout", () => r.pick([1, 2, 10, 45, 120]), env, params, 5)!;
  const environment = cfg(r, "LANGFUSE_TRACING_ENVIRONMENT", "environment", () => r.pick(["prod", "staging", "e-1"]), env, params);
  const release = cfg(r, "LANGFUSE_RELEASE", "release", () => "rel-" + r.plain(2, 4), env, params);
  const extra = r.bool(0.4) ? { "X-Extra": r.plain(1, 6), "X-Other": "o" } : undefined;
  if (extra) params.additionalHeaders = extra;
  const { processor } = setup(r, params, env);
  const plans = r.list(12, () => r.weighted<any>([[5, { status: 200, body: "{}" }], [1, { status: r.pick([400, 401, 413, 500]), body: "no" }], [0.5, { error: Object.assign(new Error("ECONNREFUSED"), { code: "ECONNREFUSED" }) }], [0.4, { hang: true }]]));
  let k = 0;
  fakeHttp.onRequest = () => ({ ...(plans[k++] ?? { status: 200 }), delay: r.pick([0, 0, 30, Math.floor(timeout * 700)]) });
  const N = r.int(1, 6), ended: { id: string; name: string; traceId: string; env?: string; input?: string }[] = [];
  for (let i = 0; i < N; i++) {
    const own = r.bool(0.3) ? "req-env" : undefined;
    const make = () => { const s = startObservation("s" + i, { input: "in " + r.text(8) + i }); ended.push({ id: s.id, name: "s" + i, traceId: s.traceId, env: own }); s.end(); };
    if (own) propagateAttributes({ environment: own } as any, make); else make();
    if (r.bool(0.3)) await sim.advance(r.pick([0, 50, 6000]));
  }
  const asked = Date.now();
  const d = await sim.drive(processor.forceFlush().catch(() => {}).then(() => processor.shutdown().catch(() => {})), 600_000);
  o.check(d.status === "fulfilled", "flush-settles", () => show(d));
  const got: any[] = [];
  for (const q of fakeHttp.requests) {
    o.check(q.method === "POST" && q.url === base + "/api/public/otel/v1/traces", "address", () => `${q.method} ${q.url} instead of ${base}`);
    o.check(q.headers["authorization"] === "Basic " + Buffer.from(`${pk}:${sk}`).toString("base64"), "authorization", () => `${q.headers["authorization"]} for ${pk}:${sk}`);
    o.check(q.headers["x-langfuse-sdk-name"] === "javascript" && q.headers["x-langfuse-sdk-version"] === LANGFUSE_SDK_VERSION && (pk === undefined || q.headers["x-langfuse-public-key"] === pk), "sdk-headers", () => show(q.headers));
    for (const [h, v] of Object.entries(extra ?? {})) o.check(q.headers[h.toLowerCase()] === v, "additional-header", () => show(q.headers));
    for (const rs of q.json?.resourceSpans ?? []) for (const ss of rs.scopeSpans) for (const s of ss.spans) got.push({ q, ...s, attrs: Object.fromEntries(s.attributes.map((a: any) => [a.key, str(a.value)])) });
    o.count("requests");
  }
  for (const e of ended) {
    const hits = got.filter((s) => s.spanId === e.id);
    o.check(hits.length >= 1, "exported", () => `${e.name} not in any request; ${fakeHttp.requests.length} requests`);
    for (const s of hits) {
      o.check(s.traceId === e.traceId && s.name === e.name, "span-identity", () => show(s));
      o.check(s.attrs[ENV] === (e.env ?? environment), "environment", () => `${show(s.attrs[ENV])} instead of ${show(e.env ?? environment)}`);
      o.check(s.attrs[REL] === release, "release", () => `${show(s.attrs[REL])} instead of ${show(release)}`);
    }
    o.count("spans");
  }
  // an attempt that hangs is given up after the configured timeout
  fakeHttp.requests.forEach((q, i) => { if (plans[i]?.hang) { const next = fakeHttp.requests[i + 1]; o.count("hangs"); o.check((d as any).t !== undefined && (!next || next.t >= q.t), "hang-order"); } });
  if (plans[0]?.hang && fakeHttp.requests.length === 1) o.check(Math.max(asked, fakeHttp.requests[0].t + timeout * 1000) + 50 >= (d as any).t, "timeout", () => `gave up after ${(d as any).t - fakeHttp.requests[0].t} ms, timeout ${timeout} s`);
  fakeHttp.requests.forEach((q, i) => {
    if (q.givenUpAt === undefined || fakeHttp.requests.slice(0, i).some((p) => p.body.equals(q.body))) return;
    o.check(q.givenUpAt - q.t >= timeout * 1000 - 20, "gave-up-early", () => `request given up after ${q.givenUpAt! - q.t} ms, timeout ${timeout} s`);
    o.count("given-up");
  });
  o.seen(`${Object.keys(params).sort()} ${Object.keys(env).sort()} ${plans.slice(0, 2).map((p) => p.status ?? (p.hang ? "h" : "e"))}`);
}
/** Batch size, interval, and immediate mode under the virtual clock. */
async function timing(r: Rng, o: Obs) {
  const env: any = {}, immediate = r.bool(0.25);
  const exporter = new RecExporter(() => ({ delay: r.pick([0, 0, 10]) }));
  const params: any = { exporter, publicKey: "pk", secretKey: "sk", ...(immediate ? { exportMode: "immediate" } : r.bool() ? { exportMode: "batched" } : {}) };
  const size = cfg(r, "LANGFUSE_FLUSH_AT", "flushAt", () => r.pick([1, 2, 5, 20]), env, params, 512)!;
  const interval = cfg(r, "LANGFUSE_FLUSH_INTERVAL", "flushInterval", () => r.pick([1, 3, 10, 60, 0.2, 0.5, 1.5, 2.7]), env, params, 5)! * 1000;
  const { processor } = setup(r, params, env);
  const spans: { id: string; t: number; ev: number; n: number }[] = [];
  const bursts = r.int(1, 5);
  for (let b = 0; b < bursts; b++) {
    const n = r.weighted([[3, r.int(1, 3)], [2, size], [1, Math.min(40, size + r.int(1, size))], [1, Math.min(40, 2 * size)]]);
    for (let i = 0; i < Math.min(n, 60); i++) { const s = startObservation("x"); s.end(); spans.push({ id: s.id, t: sim.now, ev: sim.tick(), n: spans.length }); }
    await sim.advance(r.pick([0, 1, 500, interval / 2, interval, interval * 2]));
  }
  await sim.advance(interval * 3 + 1000);
  for (const c of exporter.calls) { o.check(c.n <= (immediate ? 1 : size), "batch-size", () => `${c.n} spans in one batch of at most ${size}`); o.count("batches"); }
  let last = -1;
  for (const s of spans) {
    const x = exporter.spans.filter((y) => idOf(y.span) === s.id);
    o.check(x.length === 1, "exported-once", () => `${x.length} exports without any flush, ${interval} ms interval`);
    const late = x[0].t - s.t;
    if (immediate) o.check(late <= 1, "immediate", () => `exported ${late} ms after its end in immediate mode`);
    else o.check(late <= interval + 100, "interval", () => `exported ${late} ms after its end, interval ${interval}`);
    o.check(x[0].ev >= last, "order", () => `span ${s.n} exported before an earlier one`); last = x[0].ev;
    o.count("timed-spans");
  }
  // a full batch leaves at once
  if (!immediate) for (let i = size - 1; i < spans.length; i += size) { const x = exporter.spans.find((y) => idOf(y.span) === spans[i].id)!; const first = spans[i - size + 1]; if (first.t === spans[i].t && i - size + 1 === 0) { o.check(x.t - spans[i].t <= 12, "full-batch", () => `a full batch of ${size} waited ${x.t - spans[i].t} ms`); o.count("full-batches"); } }
  await sim.drive(processor.shutdown());
  o.seen(`${immediate} ${size} ${interval} ${bursts}`);
}
/** LANGFUSE_MEDIA_UPLOAD_ENABLED and mediaUploadEnabled. */
async function media(r: Rng, o: Obs) {
  const exporter = new RecExporter();
  const env: any = {}, params: any = { exporter, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test", exportMode: "immediate" };
  const extra: any = r.bool(0.5) ? { "X-Extra": r.plain(1, 6), "x-other": "o" } : undefined;
  if (extra) params.additionalHeaders = extra;
  const ev = r.pick<string | undefined>([undefined, "true", "false", "0", "FALSE", "1", ""]), ex = r.pick<boolean | undefined>([undefined, undefined, true, false]);
  if (ev !== undefined) env.LANGFUSE_MEDIA_UPLOAD_ENABLED = ev;
  if (ex !== undefined) params.mediaUploadEnabled = ex;
  const on = ex ?? !(ev && ["false", "0"].includes(ev.toLowerCase()));
  sim.onFetch = (q) => (q.method === "POST" ? { status: 200, body: { mediaId: "m", uploadUrl: null } } : { status: 200, body: {} });
  const { processor } = setup(r, params, env);
  const uri = "data:image/png;base64," + Buffer.from(r.plain(4, 12)).toString("base64");
  const s = startObservation("x", { input: { a: uri } }); s.end();
  await sim.drive(processor.forceFlush());
  o.check(exporter.spans.length === 1, "exported", String(exporter.spans.length));
  const text = String(exporter.spans[0].attributes["langfuse.observation.input"]);
  o.check(text.includes(uri) === !on, "media-switch", () => `env ${ev} option ${ex}: ${text}`);
  o.check((sim.fetches.length > 0) === on, "media-switch", () => `env ${ev} option ${ex}: ${sim.fetches.length} requests`);
  for (const q of sim.fetches.filter((f) => f.url.startsWith("http://lf.test"))) {
    o.equal(q.headers["authorization"], "Basic " + Buffer.from("pk:sk").toString("base64"), "media-authorization");
    for (const [h, v] of Object.entries(extra ?? {})) o.equal(q.headers[h.toLowerCase()], v, "media-header", h);
  }
  await sim.drive(processor.shutdown());
  o.count("media-" + on); o.seen(`${ev} ${ex}`);
}
defineCheck("C34", { rule: "a case is non-trivial when spans were handed to the exporter or seen in an OTLP request; distinct by the sources of configuration", required: ["requests", "spans", "hangs", "batches", "timed-spans", "full-batches", "media-true", "media-false", "given-up"],
  assumptions: ["the exporter finishes within 10 ms in the timing scenario; OpenTelemetry's own batch processor as installed", "node http(s).request is replaced by a scripted server"] },
  [{ name: "wire", quick: 500, run: wire }, { name: "timing", quick: 400, run: timing }, { name: "media", quick: 120, thorough: 2000, run: media }]);
